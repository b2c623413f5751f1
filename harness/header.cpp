// C04..C08: checkpoints under crashes and faults, locks, opening any header.
// sources: auto
// flags: -fsanitize=address,undefined -fno-sanitize-recover=all
#include "h.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/error/Destructor_Logger.h"
#include <optional>
using namespace h;
using namespace joedb;

static Readonly_Journal open_copy(TFile &f, Recovery r = Recovery::none)
{
 return Readonly_Journal{Journal_Construction_Lock(f, r)};
}

// contents that may be on disk after a crash
static std::string crashed(const std::string &base, const std::vector<Op> &pending, Rng &r)
{
 std::string d = base;
 std::vector<size_t> order;
 for (size_t i = 0; i < pending.size(); i++) if (r.chance(1, 2)) order.push_back(i);
 if (r.chance(1, 8)) {order.clear(); for (size_t i = 0; i < pending.size(); i++) order.push_back(i);}
 // writes to one place reach the disk in order; distinct places in any order, which is the same thing
 for (size_t i: order)
 {
  const Op &o = pending[i];
  size_t n = o.data.size();
  if (o.off >= 41 && r.chance(1, 3)) n = r.below(n + 1);
  if (!n) continue;
  if (d.size() < o.off + n) d.resize(o.off + n, r.chance(1, 2) ? 0 : 'Z');
  memcpy(&d[o.off], o.data.data(), n);
 }
 return d;
}

struct Sim
{
 std::shared_ptr<Store> st = std::make_shared<Store>();
 std::string synced;
 std::vector<Op> pending;
 int64_t hard = 0;         // last completed hard checkpoint
 std::string at_hard;      // contents when it completed
 int64_t floor = 0;        // checkpoint when the current operation began
 TFile *file = nullptr;
 std::string expected;     // final contents of the run without faults
 Rng rng;
 bool crash_now = false;
 bool constructing = false;
 const std::string *final_contents = nullptr;

 void crash_check()
 {
  if (hard == 0) return;
  const std::string d = crashed(synced, pending, rng);
  TFile f(Open_Mode::read_existing, d);
  try
  {
   Readonly_Journal j = open_copy(f);
   CHECKP("C04", j.get_hard_checkpoint() >= hard, "hard checkpoint lost by a crash", j.get_hard_checkpoint(), hard);
   CHECKP("C04", j.get_hard_checkpoint() <= int64_t(d.size()), "hard checkpoint after the end of the file");
   CHECKP("C04", j.get_checkpoint() >= j.get_hard_checkpoint() && j.get_checkpoint() <= int64_t(d.size()), "checkpoint");
   CHECKP("C04", d.compare(41, hard - 41, at_hard, 41, hard - 41) == 0, "contents before the hard checkpoint damaged by a crash");
   if (final_contents)
   {
    const int64_t hc = j.get_hard_checkpoint();
    CHECKP("C04", d.compare(41, hc - 41, *final_contents, 41, hc - 41) == 0, "hard checkpoint over bytes that were not written");
   }
  }
  catch (const Exception &e)
  {
   if (wants("C04")) fail(std::string("a crash made the journal unreadable: ") + e.what());
  }
  // recovery: the overwritten journal is exact for every reader
  if (rng.chance(1, 4))
  {
   TFile w(Open_Mode::write_existing, d);
   Writable_Journal j{Journal_Construction_Lock(w, Recovery::overwrite)};
   const int64_t c = j.get_checkpoint();
   TFile r(Open_Mode::read_existing, w.s);
   Readonly_Journal k = open_copy(r);
   CHECKP("C04 C05", k.get_checkpoint() == c, "checkpoint after recovery", k.get_checkpoint(), c);
   CHECKP("C05", k.pull() == 0 && k.get_checkpoint() == c, "pull after recovery", k.get_checkpoint(), c);
   CHECKP("C04 C05", k.get_hard_checkpoint() == j.get_hard_checkpoint(), "hard checkpoint after recovery");
   CHECKP("C04", k.get_hard_checkpoint() >= hard, "hard checkpoint lost by recovery");
  }
  eval(!pending.empty());
 }

 void on_op(const Op &o)
 {
  switch (o.k)
  {
   case Op::write:
    if (o.off < 41)
    {
     if (!(o.off == 0 && o.data.size() <= 41 && constructing) && o.off < 32)
     {
      CHECKP("C06", o.off % 8 == 0 && o.len <= 8, "header write");
      CHECKP("C08", (file->owned[{0, 1}] > 0), "checkpoint written without the head lock");
     }
    }
    else
     CHECKP("C06", o.off >= floor || o.data.empty(), "bytes before the checkpoint modified", o.off, floor);
    pending.push_back(o);
   break;
   case Op::sync: case Op::datasync:
    synced = st->data;
    pending.clear();
   break;
   case Op::exclusive: case Op::shared:
    CHECKP("C08", constructing || (file->owned[{o.off, o.len}] == 0), "lock taken twice");
   break;
   case Op::unlock:
    CHECKP("C08", (file->owned[{o.off, o.len}] > 0), "unlock without lock");
   break;
   case Op::read:
    if (o.off == 0 && !constructing)
     CHECKP("C08", (file->owned[{0, 1}] > 0 || file->owned[{(1ll << 62) - 1 + (1ll << 62), 1}] > 0), "header read without a lock");
   break;
  }
  if (crash_now) crash_check();
 }
};

// one scenario; fault: index of the file operation that fails, or -1. Returns the number of file operations
static uint64_t scenario(uint64_t id, int64_t fault, bool crashes, std::string &final_contents, bool have_final)
{
 Sim sim;
 sim.rng = Rng(id * 1000003 + uint64_t(fault + 1));
 if (have_final) sim.final_contents = &final_contents;
 Rng r(id);
 const bool shared = r.chance(1, 2);
 const Open_Mode mode = shared ? Open_Mode::shared_write : Open_Mode::write_existing;
 auto st = sim.st;
 st->log_reads = true;
 TFile file(mode, st);
 sim.file = &file;
 sim.crash_now = crashes;
 std::optional<Writable_Journal> j;
 sim.constructing = true;
 st->on_op = [&](const Op &o){sim.on_op(o);};
 auto close = [&]() {j.reset();};
 auto open = [&]()
 {
  sim.constructing = true;
  j.emplace(Journal_Construction_Lock(file, Recovery::none));
  sim.constructing = false;
 };
 note(str("scenario", id, "fault", fault, "shared", shared));
 open();
 CHECKP("C08", file.held() == 0, "locks held after opening");
 // a reader that lives as long as the scenario
 TFile rfile(Open_Mode::read_existing, st);
 st->on_op = nullptr;
 Readonly_Journal reader = open_copy(rfile);
 st->on_op = [&](const Op &o){sim.on_op(o);};
 st->ops = 0;
 st->countdown = fault;
 bool tail = false;
 bool stop = false;
 bool clean = true;   // no file operation failed so far
 const int n = int(r.in(3, 14));
 for (int k = 0; k < n && !stop; k++)
 {
  sim.floor = j->get_checkpoint();
  const int64_t c0 = j->get_checkpoint(), h0 = j->get_hard_checkpoint(), p0 = j->get_position();
  const int op = int(r.below(12));
  const size_t len = r.chance(1, 6) ? 4000 + r.below(5000) : r.below(40);
  const std::string text = r.bytes(len, 26);
  const uint64_t choice = r.next();
  const std::string before = st->data;
  note(str("scenario", id, "fault", fault, "shared", shared, "step", k, "op", op, "position", p0, "checkpoint", c0, "hard", h0));
  bool threw = false;
  int64_t want_c = c0, want_h = h0;
  const uint64_t ops0 = st->ops;
  try
  {
   switch (op)
   {
    case 0: case 1: case 2: j->comment(text); break;
    case 3: j->write_blob(text); break;
    case 4: case 5: case 6: want_c = std::max(c0, p0); j->soft_checkpoint(); break;
    case 7: case 8: if (p0 > h0) {want_c = p0; want_h = p0;} j->hard_checkpoint(); break;
    case 9:
     if (p0 > c0 + 1)
     {
      const int64_t p = c0 + int64_t(choice % uint64_t(p0 - c0 + 1));
      want_c = p;
      j->soft_checkpoint_at(p);
     }
     else
     {
      j->soft_checkpoint_at(int64_t(choice % uint64_t(c0 + 1)));
      j->hard_checkpoint_at(int64_t(choice % uint64_t(h0 + 1)));
      CHECKP("C05", st->data == before && st->ops == ops0, "a covered checkpoint request changed something");
     }
    break;
    case 10:
     if (p0 == c0)
     {
      if (choice % 2) {j->lock_pull(); tail = shared; j->unlock(); tail = false;}
      else {Tail_Exclusive_Lock l(*j);}
     }
     else
     {
      bool t = false;
      try {Tail_Exclusive_Lock l(*j);} catch (const Exception &) {t = true;}
      CHECKP("C06 C08", t, "tail lock over uncheckpointed data");
     }
    break;
    case 11:
     if (choice % 3 == 0) j->touch();
     else if (p0 == c0 && st->data.size() == size_t(c0) && c0 == p0 && clean)
     {
      close();
      open();
      Writable &dummy = *j; (void)dummy;
      Dummy_Writable d;
      j->play_until_checkpoint(d);
      CHECKP("C05 C07", j->get_position() == c0 && j->get_checkpoint() == c0 && j->get_hard_checkpoint() == h0, "reopened journal", j->get_position(), j->get_checkpoint(), c0, j->get_hard_checkpoint(), h0);
     }
     else j->flush();
    break;
   }
  }
  catch (const Fault &)
  {
   threw = true;
   clean = false;
   sim.constructing = false;
   if (tail) {j->unlock(); tail = false;}
   CHECKP("C08", file.held() == 0, "a lock is still held after a failed operation");
   if (!j) return st->ops;
   // appending failed half-way: what is appended next is unspecified
   if (op <= 3 || st->data.compare(0, std::string::npos, before) != 0) {}
  }
  CHECKP("C08", file.held() == 0, "a lock is still held", file.held());
  CHECKP("C08", st->lock_errors == 0, st->lock_error);
  CHECKP("C05", j->get_checkpoint() >= c0 && j->get_hard_checkpoint() >= h0, "checkpoint of an open journal decreased");
  const int64_t C = j->get_checkpoint(), H = j->get_hard_checkpoint();
  if (!threw)
  {
   CHECKP("C05", C == want_c && H == want_h, "checkpoint reached", C, want_c, H, want_h);
   if (H > sim.hard && H > 41) {sim.hard = H; sim.at_hard = st->data;}
  }
  // what other processes see
  st->on_op = nullptr;
  const int64_t cd = st->countdown; st->countdown = -1;
  {
   TFile f2(Open_Mode::read_existing, st);
   Readonly_Journal x = open_copy(f2);
   CHECKP("C04 C07", x.get_checkpoint() <= int64_t(st->data.size()), "checkpoint after the end of the file");
   CHECKP("C04", x.get_hard_checkpoint() >= sim.hard, "hard checkpoint lost", x.get_hard_checkpoint(), sim.hard);
   if (have_final)
    CHECKP("C04 C06", st->data.compare(41, x.get_checkpoint() - 41, final_contents, 41, x.get_checkpoint() - 41) == 0, "a reader sees bytes that were not completely written");
   if (clean)
   {
    CHECKP("C05", x.get_checkpoint() == C && x.get_hard_checkpoint() == H, "new reader", x.get_checkpoint(), C, x.get_hard_checkpoint(), H);
    const int64_t rc = reader.get_checkpoint();
    st->on_op = [&](const Op &o) {if (o.k == Op::read && o.off == 0) CHECKP("C08", (rfile.owned[{0, 1}] > 0), "a pull reads the header without a lock");};
    const int64_t d = reader.pull();
    st->on_op = nullptr;
    CHECKP("C05", reader.get_checkpoint() == C && d == C - rc && reader.get_hard_checkpoint() == H, "pull", reader.get_checkpoint(), C, d, C - rc);
   }
   else
   {
    const int64_t rc = reader.get_checkpoint();
    reader.pull();
    CHECKP("C05", reader.get_checkpoint() >= rc, "pulled checkpoint decreased");
   }
   CHECKP("C08", f2.held() == 0 && rfile.held() == 0, "reader locks");
   CHECKP("C06 C07", st->data.size() < 41 || st->data.compare(32, 9, std::string("\5\0\0\0joedb", 9)) == 0, "signature damaged");
  }
  st->on_op = [&](const Op &o){sim.on_op(o);};
  st->countdown = cd;
  eval(C > c0 || threw);
  if (threw && (op <= 3 || op == 11)) stop = true;
  if (threw && st->data.size() > before.size()) stop = true;
 }
 st->countdown = -1;
 if (fault < 0 && !have_final)
 {
  if (!stop) {j->flush();}
  final_contents = st->data;
 }
 else if (fault >= 0 && !stop)
 {
  // the journal goes on after the fault
  sim.floor = j->get_checkpoint();
  j->comment("after the fault");
  j->soft_checkpoint();
  st->on_op = nullptr;
  TFile f2(Open_Mode::read_existing, st);
  Readonly_Journal x = open_copy(f2);
  CHECKP("C04", x.get_checkpoint() == j->get_checkpoint(), "checkpoint after a fault", x.get_checkpoint(), j->get_checkpoint());
  CHECKP("C04", x.get_hard_checkpoint() >= sim.hard, "hard checkpoint after a fault");
 }
 const uint64_t ops = st->ops;
 st->on_op = nullptr;
 if (j->ahead_of_checkpoint() > 0) {sim.floor = 0; j->flush();}
 return ops;
}

// C07: any header
static void open_any(uint64_t id)
{
 Rng r(id + 500000);
 const int64_t n = r.chance(1, 8) ? 0 : r.chance(1, 6) ? int64_t(r.below(41)) : 41 + int64_t(r.below(20));
 auto value = [&]() -> int64_t
 {
  const int64_t k = r.chance(1, 2) ? 41 : r.in(38, n + 3);
  return r.chance(1, 12) ? (r.chance(1, 2) ? INT64_MAX : INT64_MIN + 1) : r.chance(1, 2) ? k : -k;
 };
 int64_t V[4];
 for (auto &v: V) v = value();
 for (int i = 0; i < 2; i++) if (r.chance(1, 2)) V[2 * i + 1] = V[2 * i];
 std::string d(41, 0);
 memcpy(&d[0], V, 32);
 uint32_t version = r.chance(1, 6) ? uint32_t(r.below(8)) : 5;
 memcpy(&d[32], &version, 4);
 memcpy(&d[36], "joedb", 5);
 if (r.chance(1, 6)) d[36 + r.below(5)] ^= char(1 + r.below(255));
 const bool sig = d.substr(36) == "joedb" && version == 5;
 d.resize(size_t(n), 0);
 const Recovery rec = Recovery(r.below(3));
 const Open_Mode mode = Open_Mode(r.below(6));
 const bool unknown = r.chance(1, 6);
 note(str("open size", n, "V", V[0], V[1], V[2], V[3], "version", version, "sig", sig, "recovery", int(rec), "mode", int(mode), "unknown size", unknown, "id", id));
 int64_t H = 41, C = 41;
 for (int i = 0; i < 2; i++) if (V[2 * i] == V[2 * i + 1]) H = std::max(H, V[2 * i]);
 C = H;
 for (auto v: V) if (unknown || -v <= n) C = std::max(C, -v);
 const bool head_ok = n >= 41 && (rec == Recovery::ignore_header || (sig && (unknown || C <= n)));
 const int64_t want = rec == Recovery::ignore_header ? (unknown ? 41 : std::max<int64_t>(n, 41)) : C;
 auto mk = [&](Open_Mode m) {TFile f(m, d); f.known_size = !unknown; return f;};
 {
  TFile f = mk(mode);
  bool ok = true;
  int64_t c = 0;
  try {Readonly_Journal j{Journal_Construction_Lock(f, rec)}; c = j.get_checkpoint(); CHECKP("C07", j.get_position() == 41, "position");} catch (const Exception &) {ok = false;}
  CHECKP("C07", ok == head_ok, "Readonly_Journal accepts");
  CHECKP("C07", !ok || c == want, "checkpoint", c, want);
  CHECKP("C07", f.s->data == d, "opening for reading modified the file");
  CHECKP("C08", f.held() == 0, "locks");
 }
 {
  TFile f = mk(mode);
  bool ok = true;
  int64_t c = 0, h = 0;
  try
  {
   Writable_Journal j{Journal_Construction_Lock(f, rec)};
   c = j.get_checkpoint(); h = j.get_hard_checkpoint();
   CHECKP("C07", j.get_position() == 41, "position");
  }
  catch (const Exception &) {ok = false;}
  const bool empty = n == 0 && !unknown;
  const bool accept = mode != Open_Mode::read_existing && (empty || (head_ok && (unknown || n <= want || rec == Recovery::overwrite)));
  CHECKP("C07", ok == accept, "Writable_Journal accepts");
  CHECKP("C08", f.held() == 0, "locks");
  if (!ok) CHECKP("C07", f.s->data == d, "a refused opening modified the file");
  else if (empty)
  {
   CHECKP("C07", f.s->data.size() == 41 && c == 41, "empty journal");
   TFile f2(Open_Mode::read_existing, f.s);
   Readonly_Journal k = open_copy(f2);
   CHECKP("C07", k.get_checkpoint() == 41 && k.get_hard_checkpoint() == 41, "empty journal");
  }
  else
  {
   CHECKP("C07", c == want, "checkpoint", c, want);
   CHECKP("C07", f.s->data.substr(32) == d.substr(32), "opening modified the contents");
   if (rec == Recovery::none) CHECKP("C07", f.s->data == d, "opening modified the file");
   if (rec == Recovery::overwrite && !unknown)
   {
    TFile f2(Open_Mode::read_existing, f.s);
    Readonly_Journal k = open_copy(f2);
    if (V[0] == V[1] || V[2] == V[3])
     CHECKP("C07", k.get_checkpoint() == c, "checkpoint after overwriting", k.get_checkpoint(), c);
   }
  }
  (void)h;
 }
 eval(head_ok);
}

int main()
{
 Destructor_Logger::set_logger(nullptr);
 for (uint64_t id = 0; id < 30000 * effort && !time_up(); id++) open_any(id);
 for (uint64_t id = 0; id < 250 * effort && !time_up(); id++)
 {
  std::string fin;
  const uint64_t n = scenario(id, -1, false, fin, false);
  for (int k = 0; k < 3; k++) scenario(id, -1, true, fin, true);
  for (uint64_t k = 0; k < n; k++) scenario(id, int64_t(k), k % 4 == 0, fin, true);
 }
 return done();
}
