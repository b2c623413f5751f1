// C03 C23 C24: journal round trip, partial replay, corrupted journals.
// sources: auto
// flags: -fsanitize=address,undefined -fno-sanitize=null,pointer-overflow -fno-sanitize-recover=all
#include "h.h"
#include "rec.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/interpreted/Database.h"
#include "joedb/Multiplexer.h"
#include "joedb/error/Destructor_Logger.h"
#include <new>
using namespace h;

static size_t biggest;
void *operator new(size_t n)
{
 if (n > biggest) biggest = n;
 if (n > (size_t(1) << 32)) throw std::bad_alloc();
 void *p = malloc(n);
 if (!p) throw std::bad_alloc();
 return p;
}
void operator delete(void *p) noexcept {free(p);}
void operator delete(void *p, size_t) noexcept {free(p);}

// what a replay delivers: blob data as a locator, no empty range updates
struct Expected
{
 std::vector<std::string> ops;
 std::vector<int64_t> end;       // position after each operation
};

static void compare(const std::vector<std::string> &got, std::vector<std::string> want, const char *what, const char *prop)
{
 if (!wants(prop)) return;
 std::erase(want, std::string());
 for (size_t i = 0; i < std::min(got.size(), want.size()); i++)
  if (got[i] != want[i]) fail(str(prop, what, "operation", i, "got", got[i].substr(0, 200), "wanted", want[i].substr(0, 200)));
 if (got.size() != want.size()) fail(str(prop, what, "number of operations", got.size(), want.size()));
}

static void round_trip(uint64_t id)
{
 auto st = std::make_shared<Store>();
 Generator g(id);
 Rng &r = g.rng;
 g.max_range = r.chance(1, 8) ? 1100 : r.chance(1, 2) ? 20 : 3;
 const int sessions = int(r.in(1, 4));
 Expected e;
 Recorder want;
 note(str("round trip", id));
 for (int k = 0; k < sessions; k++)
 {
  TFile f(Open_Mode::write_existing, st, int(r.below(4)));
  Writable_Journal j(f);
  {
   Recorder rec; rec.position = r.chance(1, 2) ? 0 : 41;
   j.play_until_checkpoint(rec);
   if (k) compare(rec.ops, e.ops, "replay when reopening for writing", "C03");
   if (k == 0) e.end.push_back(41);
  }
  const int n = int(r.in(0, 40));
  for (int i = 0; i < n; i++)
  {
   const size_t before = want.ops.size();
   bool first = true;
   Blob blob;
   std::string blob_data;
   const bool real = g.step([&](auto op) {
    struct Spy: Recorder {} spy;
    op(spy);
    (void)first;
    if (!spy.ops.empty() && spy.ops[0].rfind("write_blob ", 0) == 0)
    {
     blob_data = spy.ops[0].substr(11);
     blob = j.write_blob(blob_data);
     want.ops.push_back("on_blob " + show(blob));
    }
    else {op(static_cast<Writable &>(j)); want.ops.push_back(spy.ops.at(0));}
   });
   if (!real) want.ops.pop_back();
   else CHECK(want.ops.size() == before + 1, "harness");
   e.ops.push_back(real ? want.ops.back() : std::string());   // an empty range update delivers nothing
   e.end.push_back(j.get_position());
   if (!blob_data.empty())
   {
    j.flush();
    CHECKP("C03", st->data.compare(size_t(blob.get_position()), size_t(blob.get_size()), blob_data) == 0 && size_t(blob.get_size()) == blob_data.size(), "blob locator");
   }
   if (r.chance(1, 10)) j.flush();
   if (r.chance(1, 10)) j.soft_checkpoint();
   if (r.chance(1, 20)) j.hard_checkpoint();
  }
  if (r.chance(1, 2)) j.soft_checkpoint(); else j.hard_checkpoint();
  if (n == 0 && r.chance(1, 2)) j.touch();
 }
 CHECKP("C03", e.end.back() == int64_t(st->data.size()), "end of the journal", e.end.back(), st->data.size());
 // replay at once
 for (int sr = 0; sr < 4; sr++)
 {
  TFile f(Open_Mode::read_existing, st, sr);
  Readonly_Journal j(f);
  Recorder rec;
  if (sr % 2) j.replay_log(rec); else j.play_until_checkpoint(rec);
  compare(rec.ops, e.ops, "replay", "C03");
  const bool empty = e.end.back() == 41;
  CHECKP("C24", rec.aux == (empty ? std::vector<std::string>{} : std::vector<std::string>{"start 41", "end " + std::to_string(e.end.back()), "soft"}), "protocol of a replay");
  eval(!empty);
  // blob data
  Recorder b; b.blobs = true;
  j.replay_log(b);
  size_t k = 0;
  for (size_t i = 0; i < e.ops.size(); i++, k++)
  {
   if (e.ops[i].empty()) {k--; continue;}
   CHECKP("C03", k < b.ops.size() && b.ops[k] == e.ops[i], "replay with blobs", i);
   if (e.ops[i].rfind("on_blob b", 0) == 0)
   {
    long long p, n;
    sscanf(e.ops[i].c_str() + 9, "%lld+%lld", &p, &n);
    k++;
    CHECKP("C03", k < b.ops.size() && b.ops[k] == "write_blob " + st->data.substr(size_t(p), size_t(n)), "blob contents");
   }
  }
  CHECKP("C03", k == b.ops.size(), "extra operations");
 }
 // partial replays
 {
  TFile f(Open_Mode::read_existing, st, int(r.below(4)));
  Readonly_Journal j(f);
  const int64_t end = e.end.back();
  for (int round = 0; round < 3; round++)
  {
   Recorder rec;
   if (round) {j.rewind(); CHECKP("C24", j.get_position() == 41, "rewind");}
   size_t at = 0;     // operations executed so far
   size_t start = 0;
   // operations the receiver already has: skipped
   if (round == 2 && !e.ops.empty())
   {
    start = r.below(e.ops.size() + 1);
    rec.position = e.end[start];
    if (r.chance(1, 3) && start < e.ops.size()) rec.position = 0, start = 0;
   }
   std::vector<std::string> want_aux, got;
   int guard = 0;
   while (j.get_position() < end && guard++ < 1000)
   {
    const int64_t p = j.get_position();
    CHECKP("C24", p == e.end[at], "position is an operation boundary", p, e.end[at]);
    int64_t target = r.chance(1, 6) ? end : r.chance(1, 4) ? p + r.in(-3, 2) : r.in(p, std::min(end, p + 200));
    target = std::min(target, end);
    const bool raw = round == 1 && r.chance(1, 2);
    rec.aux.clear();
    if (raw) j.raw_play_until(rec, target); else j.play_until(rec, target);
    size_t stop = at;
    size_t first = at;
    if (target > p)
    {
     while (stop < e.ops.size() && e.end[stop] < target) stop++;
     if (round == 2 && start > at) first = std::min(start, stop);
    }
    std::vector<std::string> w;
    if (!raw && target > p) {w = {"start " + std::to_string(e.end[first]), "end " + std::to_string(e.end[stop]), "soft"};}
    // nothing delivered: start and end may be notified or not
    if (first == stop && rec.aux.size() < 3 && (rec.aux.empty() || (rec.aux.size() == 1 && rec.aux[0] == "soft"))) w = rec.aux;
    CHECKP("C24", rec.aux == w, "protocol of a partial replay");
    at = stop;
    CHECKP("C24", j.get_position() == e.end[at], "position after a partial replay", j.get_position(), e.end[at], "target", target);
    size_t real = 0;
    for (size_t i = start; i < at; i++) real += !e.ops[i].empty();
    CHECKP("C24", rec.ops.size() == real || at < start, "operations executed", rec.ops.size(), real);
    if (rec.position && at >= start) rec.position = e.end[at];
   }
   std::vector<std::string> w(e.ops.begin() + long(start), e.ops.end());
   compare(rec.ops, w, "replay in several steps", "C24");
   eval(!w.empty());
  }
 }
 if (id < 2) sample(str("journal of", e.ops.size(), "operations in", sessions, "sessions,", st->data.size(), "bytes"));
}

// C23
static void corrupted(uint64_t id)
{
 Rng r(id + 77777777);
 std::string d;
 {
  auto st = std::make_shared<Store>();
  TFile f(Open_Mode::write_existing, st);
  Writable_Journal j(f);
  if (r.chance(1, 2))
  {
   // a plausible database
   j.create_table("a"); j.create_table("b");
   uint16_t fields = 0;
   #define TYPE_MACRO(type, return_type, type_id, R, W)\
   j.add_field(Table_Id(1), "f" #type_id, Type::Type_Id::type_id == Type::Type_Id::reference ? Type::reference(Table_Id(1)) : Type(Type::Type_Id::type_id)); fields++;
   #include "joedb/TYPE_MACRO.h"
   if (r.chance(1, 2)) j.insert_vector(Table_Id(1), Record_Id(index_t(r.below(3))), r.below(10));
   else for (int i = 0; i < 5; i++) j.insert_into(Table_Id(1), Record_Id(i + index_t(r.below(2)) * 3));
   for (int i = 0; i < 6; i++)
   {
    const size_t n = r.below(6);
    switch (r.below(fields))
    {
     #define TYPE_MACRO(type, return_type, type_id, R, W)\
     case int(Type::Type_Id::type_id) - 1:\
     {\
      std::unique_ptr<type[]> v(new type[n + 1]);\
      for (size_t k = 0; k < n + 1; k++) some_value(r, v[k]);\
      const Field_Id fd = Field_Id(int(Type::Type_Id::type_id) - (r.chance(1, 8) ? 0 : 1));\
      if (r.chance(1, 3)) j.update_##type_id(Table_Id(1), Record_Id(index_t(r.below(8))), fd, v[0]);\
      else j.update_vector_##type_id(Table_Id(1), Record_Id(index_t(r.below(8))), fd, n, v.get());\
     }\
     break;
     #include "joedb/TYPE_MACRO.h"
    }
    if (r.chance(1, 6)) j.delete_from(Table_Id(1), Record_Id(index_t(r.below(8))));
   }
  }
  else
  {
   Generator g(id + 99);
   g.max_range = 6;
   const int n = int(r.below(12));
   for (int i = 0; i < n; i++) g.step([&](auto op) {op(static_cast<Writable &>(j));});
  }
  j.soft_checkpoint();
  d = st->data;
 }
 // corruption
 if (r.chance(1, 6)) d = d.substr(0, 41) + r.bytes(r.below(200), r.chance(1, 2) ? 256 : 0xb0);
 const int flips = int(r.below(5));
 for (int i = 0; i < flips && d.size() > 41; i++)
 {
  const size_t p = 41 + r.below(d.size() - 41);
  switch (r.below(4))
  {
   case 0: d[p] = char(r.next()); break;
   case 1: d[p] = char(0x80 + r.below(40)); break;
   case 2: d[p] = char(r.chance(1, 2) ? 0xff : 0xe0 + r.below(32)); break;
   case 3: d.insert(p, r.bytes(1 + r.below(8))); break;
  }
 }
 if (r.chance(1, 8)) d.resize(41 + r.below(d.size() - 40));
 if (r.chance(1, 30)) d += std::string(5000, char(r.next()));
 // any checkpoint
 int64_t cp = int64_t(d.size());
 if (r.chance(1, 4)) cp = 41 + int64_t(r.below(uint64_t(d.size() - 40)));
 int64_t V[4] = {cp, cp, 0, 0};
 bool unknown = false;
 if (r.chance(1, 6)) {unknown = true; V[0] = V[1] = cp = r.chance(1, 2) ? int64_t(1) << 59 : cp + 5000;}
 memcpy(&d[0], V, 32);
 note(str("corrupted", id, "size", d.size(), "checkpoint", cp, hex(d.substr(41))));
 const size_t bound = size_t(std::min<int64_t>(cp, 1 << 26)) * 64 + 100000;
 int executed = 0;
 for (int target = 0; target < 4; target++)
 {
  TFile f(Open_Mode::read_existing, d);
  f.known_size = !unknown;
  f.short_reads = int(r.below(4));
  try
  {
   Readonly_Journal j(f);
   Recorder rec;
   Database db(Record_Id(1000));
   Multiplexer m({rec, db});
   Writable *w = &rec;
   rec.blobs = r.chance(1, 2);
   if (target == 1) {rec.storage = true; rec.capacity = r.below(20);}
   if (target == 2) w = &db;
   if (target == 3) {w = &m;}
   biggest = 0;
   int steps = 0;
   try
   {
    while (j.get_position() < j.get_checkpoint() && steps < 300)
    {
     const int64_t p = j.get_position();
     j.one_step(*w);
     steps++;
     executed++;
     CHECKP("C23", j.get_position() > p, "a step does not advance");
    }
   }
   catch (const Exception &) {}
   catch (const std::bad_alloc &) {CHECKP("C23", unknown, "allocation of", biggest, "checkpoint", cp);}
   catch (const std::exception &) {}
   CHECKP("C23", unknown || biggest <= bound, "allocation of", biggest, "checkpoint", cp);
  }
  catch (const Exception &) {}
 }
 eval(executed > 0);
}

int main()
{
 Destructor_Logger::set_logger(nullptr);
 if (wants("C03 C24"))
  for (uint64_t id = 0; id < 1500 * effort && !time_up(); id++) round_trip(id);
 if (wants("C23"))
  for (uint64_t id = 0; id < 12000 * effort && !time_up(); id++) corrupted(id);
 return done();
}
