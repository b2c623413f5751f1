// C21 C22: forwarding and range operations
// sources: auto
#include "h.h"
#include "rec.h"
#include "joedb/Writable.h"
#include "joedb/Multiplexer.h"
#include "joedb/Selective_Writable.h"
#include "joedb/error/Destructor_Logger.h"

using namespace joedb;
using namespace h;

// what a receiver of single operations must get
struct Single: Recorder
{
 void insert_vector(Table_Id t, Record_Id r, size_t n) override {for (size_t i = 0; i < n; i++) insert_into(t, Record_Id(index_t(r) + index_t(i)));}
 void delete_vector(Table_Id t, Record_Id r, size_t n) override {for (size_t i = n; i > 0; i--) delete_from(t, Record_Id(index_t(r) + index_t(i - 1)));}
 #define TYPE_MACRO(type, return_type, type_id, R, W)\
 void update_vector_##type_id(Table_Id t, Record_Id r, Field_Id f, size_t n, const type *v) override\
 {for (size_t i = 0; i < n; i++) update_##type_id(t, Record_Id(index_t(r) + index_t(i)), f, v[i]);}
 #include "joedb/TYPE_MACRO.h"
};

static void ranges(uint64_t id)
{
 Generator g(id);
 g.allow_blob = false;
 note(str("ranges", id));
 Single want;
 Recorder got; got.loops = true;
 size_t ops = 0;
 for (int k = 0; k < 20; k++)
  ops += g.step([&](auto op) {op(static_cast<Writable &>(want)); op(static_cast<Writable &>(got));});
 CHECKP("C22", want.ops.size() == got.ops.size(), "number of operations", got.ops.size(), want.ops.size());
 for (size_t i = 0; i < want.ops.size(); i++) CHECKP("C22", want.ops[i] == got.ops[i], "operation", i, got.ops[i], "wanted", want.ops[i]);
 eval(ops > 0);
}


static void forwarding(uint64_t id)
{
 Generator g(id + 5000);
 Rng &r = g.rng;
 note(str("forwarding", id));
 const size_t n = r.below(5);
 std::vector<Recorder> t(n);
 for (auto &x: t) {x.blobs = r.chance(1, 2); x.next_blob = Blob(int64_t(r.below(1000)) + 1, 7);}
 std::unique_ptr<Multiplexer> m;
 switch (n)
 {
  case 0: m.reset(new Multiplexer({})); break;
  case 1: m.reset(new Multiplexer({t[0]})); break;
  case 2: m.reset(new Multiplexer({t[0], t[1]})); break;
  case 3: m.reset(new Multiplexer({t[0], t[1], t[2]})); break;
  case 4: m.reset(new Multiplexer({t[0], t[1], t[2], t[3]})); break;
 }
 const size_t start = r.chance(1, 3) ? r.below(n + 1) : 0;
 if (start) m->set_start_index(start);
 g.allow_blob = false;
 Recorder want;
 const int fail_op = r.chance(1, 5) ? int(r.below(12)) : -1;
 const size_t failing = n ? r.below(n) : 0;
 for (int k = 0; k < 12; k++)
 {
  if (k == fail_op && n && failing >= start)
  {
   // a target that fails: those before it have received the operation, the error is reported
   t[failing].fail_at = int(t[failing].ops.size());
   bool thrown = false;
   const size_t before = want.ops.size();
   std::vector<size_t> had; for (auto &x: t) had.push_back(x.ops.size());
   g.step([&](auto op) {op(static_cast<Writable &>(want)); try {op(static_cast<Writable &>(*m));} catch (const Fault &) {thrown = true;}});
   CHECKP("C21", thrown == (want.ops.size() > before), "the error of a target is reported");
   for (size_t i = 0; i < n; i++) CHECKP("C21", t[i].ops.size() == had[i] + (i >= start && i < failing && thrown), "targets before the failure", i, failing);
   eval();
   return;
  }
  g.step([&](auto op) {op(static_cast<Writable &>(want)); op(static_cast<Writable &>(*m));});
  if (r.chance(1, 4))
  {
   const int64_t p = some_int(r);
   m->start_writing(p); want.start_writing(p);
   m->soft_checkpoint(); want.soft_checkpoint();
   m->hard_checkpoint(); want.hard_checkpoint();
   m->flush(); want.flush();
   m->end_writing(p); want.end_writing(p);
   m->on_blob(Blob(p, 3)); want.on_blob(Blob(p, 3));
  }
 }
 for (size_t i = 0; i < n; i++)
 {
  CHECKP("C21", t[i].ops == (i < start ? std::vector<std::string>{} : want.ops), "operations of target", i, "of", n, "start", start, t[i].ops.size(), want.ops.size());
  CHECKP("C21", t[i].aux == (i < start ? std::vector<std::string>{} : want.aux), "events of target", i, "of", n, "start", start);
 }
 // blobs
 bool any = false;
 Blob last;
 for (auto &x: t) if (x.blobs) {any = true; last = x.next_blob;}
 CHECKP("C21", m->wants_blob_data() == any, "wants_blob_data");
 const std::string data = some_string(r);
 std::vector<size_t> had; for (auto &x: t) had.push_back(x.ops.size());
 const Blob b = m->write_blob(data);
 for (size_t i = 0; i < n; i++)
 {
  CHECKP("C21", t[i].ops.size() == had[i] + t[i].blobs, "blob written once to target", i);
  if (t[i].blobs) CHECKP("C21", t[i].ops.back() == "write_blob " + data, "contents of the blob");
 }
 if (any)
 {
  bool ok = false;
  for (auto &x: t) ok |= x.blobs && x.next_blob.get_position() == b.get_position() && x.next_blob.get_size() == b.get_size();
  CHECKP("C21", ok, "locator returned");
 }
 eval(n > 0);
}

static int category(const std::string &s)
{
 for (const char *x: {"create_table", "drop_table", "rename_table", "add_field", "drop_field", "rename_field", "custom"}) if (s.rfind(std::string(x) + " ", 0) == 0) return Selective_Writable::schema;
 for (const char *x: {"comment", "timestamp", "valid_data"}) if (s.rfind(x, 0) == 0) return Selective_Writable::information;
 return Selective_Writable::data;
}

static void selective(uint64_t id)
{
 Generator g(id + 9000);
 Rng &r = g.rng;
 note(str("selective", id));
 g.allow_blob = false;
 Single want;
 Recorder got; got.loops = true;
 const int mode = int(r.below(8));
 Selective_Writable s(got, Selective_Writable::Mode(mode));
 for (int k = 0; k < 20; k++)
  g.step([&](auto op) {op(static_cast<Writable &>(want)); op(static_cast<Writable &>(s));});
 std::vector<std::string> w;
 for (auto &x: want.ops) if (mode & category(x)) w.push_back(x);
 CHECKP("C21", w.size() == got.ops.size(), "selective: number of operations", mode, got.ops.size(), w.size());
 for (size_t i = 0; i < w.size(); i++) CHECKP("C21", w[i] == got.ops[i], "selective: operation", mode, i, got.ops[i], "wanted", w[i]);
 CHECKP("C21", !s.has_blobs(), "has_blobs");
 s.on_blob(Blob(1, 2));
 CHECKP("C21", s.has_blobs(), "has_blobs");
 eval(!w.empty());
}

int main()
{
 Destructor_Logger::set_logger(nullptr);
 if (wants("C22"))
  for (uint64_t id = 0; id < 4000 * effort && !time_up(); id++) ranges(id);
 if (wants("C21"))
  for (uint64_t id = 0; id < 4000 * effort && !time_up(); id++) {forwarding(id); selective(id);}
 return done();
}
