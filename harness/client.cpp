// C18, C19, C20: connections and clients against a simulated server that follows
// doc/source/network_protocol.rst, with split, wrong and missing replies, pings at
// every point where another thread may send one, and a failure at every call.
// sources: auto
// flags: -fsanitize=address,undefined -fno-sanitize-recover=all -fno-access-control
#include "h.h"
#include "joedb/concurrency/Channel.h"
#include "joedb/concurrency/File_Connection.h"
#include "joedb/concurrency/Server_Connection.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Writable_Client.h"
#include "joedb/concurrency/Connection.h"
#include "joedb/concurrency/Client.h"
#include "joedb/concurrency/protocol_version.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/File_Hasher.h"
#include "joedb/error/Destructor_Logger.h"
#include <deque>
using namespace h;
using namespace joedb;

static std::string le(int64_t v) {return std::string((const char *)&v, 8);}
static int64_t el(const char *p) {int64_t v; memcpy(&v, p, 8); return v;}

// a journal file with the given bytes after its header
static std::string journal_bytes(const std::string &body)
{
 TFile f;
 Writable_Journal j(f);
 f.pwrite(body.data(), body.size(), 41);
 j.hard_checkpoint_at(41 + int64_t(body.size()));
 return f.s->data;
}

static std::string body_of(const TFile &f, int64_t checkpoint)
{
 return f.s->data.substr(41, size_t(checkpoint - 41));
}

//////////////////////////////////////////////////////////////////////////////
// The server side of the protocol, as documented
//////////////////////////////////////////////////////////////////////////////
struct Request
{
 char code;
 int64_t a = 0, b = 0;
 std::string data;
};

struct Sim: public Channel
{
 Rng rng;
 std::string remote;        // bytes after the header
 bool pullonly = false, locked = false;
 std::string in, out;
 bool greeted = false;
 std::vector<Request> log;
 std::function<void(std::string &)> tamper;    // applied to the next reply
 int64_t countdown = -1;    // channel failure
 bool failed = false;
 int split = 1;
 uint64_t calls = 0;
 int in_io = 0;
 std::function<void(const Request &)> others;   // what other clients do just before an answer

 Sim(uint64_t a): rng(a) {}
 int64_t checkpoint() const {return 41 + int64_t(remote.size());}

 void fault()
 {
  calls++;
  if (countdown >= 0 && countdown-- == 0) {failed = true; throw Fault();}
 }
 size_t write_some(const char *d, size_t n) override
 {
  fault();
  if (in_io++) h::fail("two threads on the channel");
  if (!failed && in.empty() && !out.empty() && n) h::fail("C19 a request is sent while a reply has not been consumed");
  const size_t m = split == 0 || n == 0 ? n : split == 1 ? 1 + rng.below(n) : 1;
  in.append(d, m);
  while (step()) {}
  in_io--;
  return m;
 }
 size_t read_some(char *d, size_t n) override
 {
  fault();
  if (in_io++) h::fail("two threads on the channel");
  if (out.empty() && n) {if (!greeted || log.empty()) h::fail("C19 reading before sending a request"); h::fail(str("C19 the client waits for more than the reply to", log.back().code, "or sent an incomplete request; pending", in.size()));}
  const size_t m = n == 0 ? 0 : std::min(out.size(), split == 0 ? n : split == 1 ? 1 + rng.below(n) : 1);
  memcpy(d, out.data(), m);
  out.erase(0, m);
  in_io--;
  return m;
 }
 void reply(std::string r)
 {
  if (tamper) {auto f = std::move(tamper); tamper = nullptr; f(r);}
  out += r;
 }
 bool step()
 {
  if (in.empty()) return false;
  Request q;
  size_t need = 1;
  if (!greeted)
  {
   if (in.size() < 13) return false;
   CHECK(in == "joedb" + le(protocol_version), "greeting", hex(in));
   in.clear();
   greeted = true;
   reply("joedb" + le(protocol_version) + le(77) + le(checkpoint()) + (pullonly ? 'R' : 'W'));
   return false;
  }
  q.code = in[0];
  switch (q.code)
  {
   case 'H': case 'I': need = 1 + 8 + 32; break;
   case 'r': case 'D': case 'E': case 'F': case 'G': case 'N': case 'O': need = 17; break;
   case 'M': case 'L': case 'Q': break;
   default: h::fail(str("C19 unknown request", int(q.code)));
  }
  if (in.size() < need) return false;
  if (need > 1) q.a = el(&in[1]);
  if (need == 17) q.b = el(&in[9]);
  if (need == 41) q.data = in.substr(9, 32);
  if (q.code == 'N' || q.code == 'O')
  {
   const size_t n = q.b > q.a ? size_t(q.b - q.a) : 0;
   if (in.size() < need + n) return false;
   q.data = in.substr(17, n);
   need += n;
  }
  in.erase(0, need);
  log.push_back(q);
  if (!in.empty() && !failed) h::fail(str("C19 bytes after the request", q.code, hex(in)));
  answer(q);
  return false;
 }
 void answer(const Request &q)
 {
  if (others) others(q);
  switch (q.code)
  {
   case 'H': case 'I':
   {
    bool ok = q.a >= 41 && q.a <= checkpoint();
    if (ok)
    {
     TFile f(Open_Mode::read_existing, journal_bytes(remote));
     Readonly_Journal j{Journal_Construction_Lock(f, Recovery::none)};
     const auto x = q.code == 'H' ? Journal_Hasher::get_fast_hash(j, q.a) : Journal_Hasher::get_full_hash(j, q.a);
     ok = std::string((const char *)&x, 32) == q.data;
    }
    reply(std::string(1, ok ? q.code : 'h'));
   }
   break;
   case 'r':
   {
    int64_t u = std::min(q.b, checkpoint()), f = std::min(q.a, u);
    if (rng.chance(1, 2) && u > f) u = f + rng.in(0, u - f);   // may be shorter
    const std::string whole = journal_bytes(remote);
    reply("r" + le(u) + (u > f ? whole.substr(size_t(f), size_t(u - f)) : ""));
   }
   break;
   case 'D': case 'E': case 'F': case 'G':
    if ((q.code == 'E' || q.code == 'G'))
    {
     if (pullonly) {reply(std::string("R") + le(checkpoint())); return;}
     CHECK(!locked, "locking twice");
     locked = true;
    }
    reply(q.code + le(checkpoint()) + ((q.code == 'F' || q.code == 'G') && q.b < checkpoint() ? remote.substr(size_t(q.b - 41)) : ""));
   break;
   case 'N': case 'O':
   {
    char r = q.code;
    if (pullonly) r = 'R';
    else if (q.a != checkpoint()) r = 'C';
    else {remote += q.data; locked = true;}
    if (q.code == 'O') locked = false;
    reply(std::string(1, r));
   }
   break;
   case 'M':
    locked = false;
    reply(pullonly ? "R" : "M");
   break;
   case 'L':
    locked = true;
    reply(pullonly ? "R" : "L");
   break;
   case 'Q': break;
  }
 }
};

// a ping of the keep-alive thread may happen whenever the channel is not locked
struct Pinger: public Logger
{
 Ping_Client *c = nullptr;
 Thread_Safe<Channel&> *m = nullptr;
 uint64_t n = 0;
 bool on = false;
 void ping()
 {
  if (!on || !c) return;
  if (!m->mutex.try_lock()) return;
  m->mutex.unlock();
  n++;
  c->ping();
 }
 void log(beman::cstring_view) noexcept override {ping();}
};

struct Rig
{
 Sim sim;
 Pinger p;
 std::unique_ptr<TFile> f;
 std::unique_ptr<Writable_Journal> j;
 std::unique_ptr<Server_Connection> c;
 Rig(uint64_t a, const std::string &remote, const std::string &local, bool pings, bool pullonly = false): sim(a)
 {
  sim.remote = remote;
  sim.pullonly = pullonly;
  sim.split = int(a % 3);
  f = std::make_unique<TFile>(Open_Mode::write_existing, journal_bytes(local));
  f->short_reads = int(a / 3 % 4);
  f->rng.s ^= a;
  j = std::make_unique<Writable_Journal>(*f);
  c = std::make_unique<Server_Connection>(sim, p);
  p.c = c.get();
  p.m = &c->get_channel();
  p.on = pings;
  f->s->log_reads = pings;
  f->s->on_op = [this](const Op &) {p.ping();};
 }
 ~Rig() {p.on = false; f->s->on_op = nullptr; sim.tamper = nullptr; sim.countdown = -1;}
 std::vector<Request> sent() const
 {
  std::vector<Request> r;
  for (auto &q: sim.log) if (!(q.code == 'D' && q.a == 0 && q.b == 0)) r.push_back(q);
  return r;
 }
};

static std::string what(const std::function<void()> &f)
{
 try {f();}
 catch (const std::exception &e) {return std::string("!") + e.what();}
 return "";
}

static std::string diverge(const std::string &s, size_t at, Rng &r)
{
 std::string d = s;
 d[at] = char(d[at] ^ (1 + r.below(255)));
 return d;
}

//////////////////////////////////////////////////////////////////////////////
static void protocol(uint64_t k)
//////////////////////////////////////////////////////////////////////////////
{
 Rng r(1000 + k);
 const std::string common = r.bytes(r.chance(1, 4) ? 8000 + r.below(20000) : r.below(300));
 const std::string local = common + (r.chance(1, 2) ? r.bytes(r.below(20000)) : "");
 const std::string remote = local.size() > common.size() ? common : common + (r.chance(1, 2) ? r.bytes(r.below(20000)) : "");
 const bool pings = r.chance(1, 2);
 note(str("protocol", k, local.size(), remote.size(), pings));
 Rig g(k, remote, local, pings);
 CHECKP("C19", g.c->session_id == 77 && g.c->server_checkpoint == g.sim.checkpoint() && !g.c->is_pullonly(), "greeting reply");
 for (int i = 0; i < 12; i++)
 {
  eval();
  g.sim.log.clear();
  const int64_t lc = g.j->get_checkpoint(), sc = g.sim.checkpoint();
  const std::string before = body_of(*g.f, lc);
  switch (r.below(6))
  {
   case 0:
   {
    const bool full = r.chance(1, 2);
    const int64_t known = std::min(g.c->server_checkpoint, lc);
    const std::string e = what([&]{g.c->handshake(*g.j, full ? Content_Check::full : Content_Check::fast);});
    CHECKP("C18 C19", e.empty(), "handshake refused", e);
    const auto q = g.sent();
    CHECKP("C19", q.size() == 1 && q[0].code == (full ? 'I' : 'H') && q[0].a == known, "handshake request");
   }
   break;
   case 1: case 2:
   {
    const bool data = r.chance(1, 2), lock = !g.sim.locked && r.chance(1, 2);
    const int64_t w = r.in(0, 1000);
    if (sc != 41 && lc > sc && data && false) break;
    int64_t ret = -1;
    const std::string e = what([&]{ret = g.c->pull(lock ? Lock_Action::lock_before : Lock_Action::no_locking, data ? Data_Transfer::with_data : Data_Transfer::without_data, *g.j, std::chrono::milliseconds(w));});
    CHECKP("C18 C19", e.empty(), "pull failed", e);
    CHECKP("C19", ret == sc && g.c->server_checkpoint == sc, "pull result", ret, sc);
    const auto q = g.sent();
    CHECKP("C19", q.size() == 1 && q[0].code == char('D' + int(lock) + 2 * int(data)) && q[0].a == w && q[0].b == lc, "pull request", q.size());
    const int64_t want = data ? std::max(lc, sc) : lc;
    CHECKP("C18 C19", g.j->get_checkpoint() == want, "checkpoint after pull");
    CHECKP("C18 C19", body_of(*g.f, lc) == before, "contents before the checkpoint changed by pull");
    if (want > lc) CHECKP("C18 C19", body_of(*g.f, want) == g.sim.remote, "pull must append exactly the missing bytes");
    if (lock) CHECKP("C19", g.sim.locked, "locked");
   }
   break;
   case 3:
   {
    if (lc < sc) break;
    // local additions
    if (r.chance(1, 2))
    {
     const std::string more = r.bytes(r.chance(1, 5) ? 8175 + r.below(40) : r.below(9000));
     g.f->pwrite(more.data(), more.size(), lc);
     g.j->soft_checkpoint_at(lc + int64_t(more.size()));
    }
    const int64_t until = r.chance(1, 3) ? sc + r.in(0, g.j->get_checkpoint() - sc) : g.j->get_checkpoint();
    const bool un = r.chance(1, 2);
    const std::string b = body_of(*g.f, g.j->get_checkpoint());
    int64_t ret = -1;
    const std::string e = what([&]{ret = g.c->push(*g.j, sc, until, un ? Unlock_Action::unlock_after : Unlock_Action::keep_locked);});
    CHECKP("C18 C19", e.empty(), "push failed", e);
    const auto q = g.sent();
    CHECKP("C18 C19", q.size() == 1 && q[0].code == (un ? 'O' : 'N') && q[0].a == sc && q[0].b == until, "push request");
    CHECKP("C18 C19", q[0].data == b.substr(size_t(sc - 41), size_t(until - sc)), "push must send exactly the bytes of its range");
    CHECKP("C19", ret == until && g.c->server_checkpoint == until, "push result");
    CHECKP("C18", body_of(*g.f, g.j->get_checkpoint()) == b, "push changed the local journal");
   }
   break;
   case 4:
    CHECKP("C19", what([&]{g.c->unlock();}).empty(), "unlock failed");
    {const auto q = g.sent(); CHECKP("C19", q.size() == 1 && q[0].code == 'M', "unlock request");}
   break;
   case 5:
   {
    const int64_t off = r.in(0, sc);
    const size_t n = r.chance(1, 4) ? r.below(20000) : r.below(50);
    std::vector<char> d(n + 1, 'x');
    size_t got = 0;
    g.c->handshake(*g.j, Content_Check::none);
    const std::string e = what([&]{got = g.c->pread(d.data(), n, off);});
    CHECKP("C19", e.empty(), "pread failed", e);
    const auto q = g.sent();
    CHECKP("C19", q.size() == 1 && q[0].code == 'r' && q[0].a == off && q[0].b == off + int64_t(n), "pread request");
    CHECKP("C19", got <= n && std::string(d.data(), got) == journal_bytes(g.sim.remote).substr(size_t(off), got) && d[got] == 'x', "pread data");
   }
   break;
  }
  CHECKP("C19", g.sim.out.empty(), "reply not consumed");
 }
}

//////////////////////////////////////////////////////////////////////////////
// Any wrong reply makes the call throw and keeps the local journal
//////////////////////////////////////////////////////////////////////////////
static void wrong_replies(uint64_t k)
{
 Rng r(2000 + k);
 for (int kind = 0; kind < 9; kind++)
  for (int code = 0; code < 256; code++)
  {
   const std::string common = r.bytes(r.below(200));
   const bool ahead = kind == 5 || kind == 6;
   note(str("wrong reply", k, kind, code));
   Rig g(k + code, common + (ahead ? "" : r.bytes(20)), common + (ahead ? r.bytes(20) : ""), code % 2 == 0);
   const int64_t lc = g.j->get_checkpoint(), sc = g.sim.checkpoint();
   const std::string before = body_of(*g.f, lc);
   static const char expected[] = {'H', 'I', 'D', 'E', 'G', 'N', 'O', 'M', 'r'};
   if (char(code) == expected[kind]) continue;
   if (g.c->handshake(*g.j, Content_Check::none) != sc) h::fail("C19 handshake none");
   bool armed = false;
   std::string cut;
   g.p.on = false;
   g.sim.tamper = [&](std::string &x) {armed = true; x[0] = char(code); if (code == 'R' && x.size() > 9) x.resize(9);};
   char d[10];
   const std::string e = what([&]
   {
    switch (kind)
    {
     case 0: g.c->handshake(*g.j, Content_Check::fast); break;
     case 1: g.c->handshake(*g.j, Content_Check::full); break;
     case 2: g.c->pull(Lock_Action::no_locking, Data_Transfer::without_data, *g.j, std::chrono::milliseconds(0)); break;
     case 3: g.c->pull(Lock_Action::lock_before, Data_Transfer::without_data, *g.j, std::chrono::milliseconds(0)); break;
     case 4: g.c->pull(Lock_Action::lock_before, Data_Transfer::with_data, *g.j, std::chrono::milliseconds(0)); break;
     case 5: g.c->push(*g.j, sc, lc, Unlock_Action::keep_locked); break;
     case 6: g.c->push(*g.j, sc, lc, Unlock_Action::unlock_after); break;
     case 7: g.c->unlock(); break;
     case 8: g.c->pread(d, 10, 41); break;
    }
   });
   eval();
   CHECKP("C19", armed, "no reply");
   CHECKP("C19", !e.empty(), "a wrong reply is accepted: request", expected[kind], "reply", code);
   CHECKP("C19", g.j->get_checkpoint() == lc && body_of(*g.f, lc) == before, "the local journal changed after a wrong reply");
   if (kind <= 1 && code == 'h') CHECKP("C18 C19", e.find("ontent mismatch") != std::string::npos, e);
   g.sim.out.clear();
  }
 // greeting
 for (int bad = 0; bad < 8; bad++)
 {
  note(str("greeting", bad));
  Sim s(5);
  s.split = int(k % 3);
  bool armed = false;
  s.tamper = [&](std::string &x)
  {
   armed = true;
   if (bad < 5) x[bad] = '?';
   else if (bad == 5) memcpy(&x[5], le(0).data(), 8);
   else if (bad == 6) memcpy(&x[5], le(protocol_version - 1).data(), 8);
   else x[29] = 'X';
  };
  const std::string e = what([&]{Server_Connection c(s);});
  eval();
  CHECKP("C19", armed && !e.empty(), "a wrong greeting is accepted");
 }
 // read replies outside of the request
 for (int64_t u: {int64_t(40), int64_t(52), int64_t(1) << 40, int64_t(-1), int64_t(0)})
 {
  Rig g(k, r.bytes(200), "", false);
  g.sim.tamper = [&](std::string &x) {memcpy(&x[1], le(u).data(), 8);};
  char d[10];
  note(str("read reply", u));
  CHECKP("C19", !what([&]{g.c->pread(d, 10, 41);}).empty(), "a read reply outside of the request is accepted");
  g.sim.out.clear();
  eval();
 }
}

//////////////////////////////////////////////////////////////////////////////
// The channel fails at each call
//////////////////////////////////////////////////////////////////////////////
static void channel_failures(uint64_t k)
{
 for (int kind = 0; kind < 8; kind++)
  for (int64_t n = 0;; n++)
  {
   Rng r(3000 + k);
   const std::string common = r.bytes(r.below(40));
   const bool ahead = kind == 5 || kind == 6;
   note(str("channel failure", k, kind, n));
   Rig g(k, common + (ahead ? "" : r.bytes(9000)), common + (ahead ? r.bytes(9000) : ""), false);
   if (g.sim.split == 2) g.sim.split = 1;
   const int64_t lc = g.j->get_checkpoint(), sc = g.sim.checkpoint();
   const std::string before = body_of(*g.f, lc);
   g.sim.countdown = n;
   char d[10];
   const std::string e = what([&]
   {
    switch (kind)
    {
     case 0: g.c->handshake(*g.j, Content_Check::fast); break;
     case 1: g.c->handshake(*g.j, Content_Check::full); break;
     case 2: g.c->pull(Lock_Action::no_locking, Data_Transfer::without_data, *g.j, std::chrono::milliseconds(0)); break;
     case 3: g.c->pull(Lock_Action::no_locking, Data_Transfer::with_data, *g.j, std::chrono::milliseconds(0)); break;
     case 4: g.c->pull(Lock_Action::lock_before, Data_Transfer::with_data, *g.j, std::chrono::milliseconds(0)); break;
     case 5: g.c->push(*g.j, sc, lc, Unlock_Action::keep_locked); break;
     case 6: g.c->push(*g.j, sc, lc, Unlock_Action::unlock_after); break;
     case 7: g.c->unlock(); break;
    }
   });
   eval();
   if (g.sim.countdown >= 0) {CHECKP("C19", e.empty(), e); break;}
   CHECKP("C19", !e.empty(), "a failure of the channel is not reported");
   CHECKP("C19", g.j->get_checkpoint() == lc && body_of(*g.f, lc) == before, "the local journal changed although the channel failed");
   g.sim.countdown = -1;
  }
}

//////////////////////////////////////////////////////////////////////////////
// C18: divergence
//////////////////////////////////////////////////////////////////////////////
struct Remote   // either kind of connection to a remote journal
{
 std::unique_ptr<Sim> sim;
 std::unique_ptr<TFile> file;
 std::unique_ptr<Writable_Journal> journal;
 std::unique_ptr<Connection> connection;
 Remote(int kind, uint64_t k, const std::string &body)
 {
  if (kind == 0)
  {
   sim = std::make_unique<Sim>(k);
   sim->remote = body;
   sim->split = int(k % 2);
   connection = std::make_unique<Server_Connection>(*sim);
  }
  else
  {
   file = std::make_unique<TFile>(Open_Mode::write_existing, journal_bytes(body));
   file->short_reads = int(k % 4);
   journal = std::make_unique<Writable_Journal>(*file);
   if (kind == 1) connection = std::make_unique<Journal_Connection>(*journal);
   else connection = std::make_unique<Pullonly_Journal_Connection>(*journal);
  }
 }
 std::string body() const {return sim ? sim->remote : body_of(*file, journal->get_checkpoint());}
 void append(const std::string &s)
 {
  if (sim) sim->remote += s;
  else
  {
   const int64_t c = journal->get_checkpoint();
   file->pwrite(s.data(), s.size(), c);
   journal->soft_checkpoint_at(c + int64_t(s.size()));
  }
 }
};

static bool is_prefix(const std::string &a, const std::string &b)
{
 return a.size() <= b.size() ? b.compare(0, a.size(), a) == 0 : a.compare(0, b.size(), b) == 0;
}

static void divergence(uint64_t k)
{
 Rng r(4000 + k);
 const int kind = int(k % 3);
 const size_t sizes[] = {1, 10, 100, 2047, 2048, 4054, 4055, 4056, 4096, 5000, 9000};
 const size_t n = sizes[r.below(11)];
 std::string a = r.bytes(n, r.chance(1, 2) ? 2 : 256), b = a;
 if (r.chance(1, 2)) a += r.bytes(1 + r.below(300)); else if (r.chance(1, 2)) b += r.bytes(1 + r.below(300));
 size_t at = n;
 if (r.chance(3, 4))
 {
  at = r.chance(1, 3) ? n - 1 : r.chance(1, 3) ? 0 : r.below(n);
  (r.chance(1, 2) ? a : b) = diverge(r.chance(1, 2) ? a : b, at, r);
 }
 const bool same = is_prefix(a, b);
 const bool full = r.chance(1, 2);
 note(str("divergence", k, "kind", kind, "local", a.size(), "remote", b.size(), "at", at, "full", full));
 Remote m(kind, k, b);
 TFile f(Open_Mode::write_existing, journal_bytes(a));
 f.short_reads = int(k / 3 % 4);
 const std::string all = f.s->data;
 Writable_Journal j(f);
 std::string e;
 int64_t res = -1;
 e = what([&]{res = m.connection->handshake(j, full ? Content_Check::full : Content_Check::fast);});
 eval();
 if (same) CHECKP("C18", e.empty() && res == 41 + int64_t(b.size()), "compatible histories refused", e, res);
 else
 {
  // the fast check of a journal connection compares the first and last 2 KiB of common journals longer than 4 KiB
  const int64_t mn = 41 + int64_t(std::min(a.size(), b.size()));
  const bool sampled = !full && kind != 0 && mn > 4096 && 41 + int64_t(at) >= 2048 && 41 + int64_t(at) < mn - 2048;
  if (!sampled) CHECKP("C18", !e.empty(), "diverging histories accepted");
 }
 CHECKP("C18", f.s->data == all && m.body() == b, "data exchanged by the check");
 if (!same) return;
 if (m.sim) m.sim->log.clear();
 // pull
 e = what([&]{m.connection->pull(Lock_Action::no_locking, Data_Transfer::with_data, j, std::chrono::milliseconds(0));});
 CHECKP("C18", e.empty(), e);
 CHECKP("C18", body_of(f, j.get_checkpoint()) == (a.size() > b.size() ? a : b), "pull must append exactly the missing bytes");
 CHECKP("C18", m.body() == b, "pull changed the remote");
 // push
 if (kind == 2)
 {
  CHECKP("C18", !what([&]{m.connection->push(j, 41 + int64_t(b.size()), j.get_checkpoint(), Unlock_Action::keep_locked);}).empty(), "push to a read-only journal");
  CHECKP("C18", !what([&]{m.connection->pull(Lock_Action::lock_before, Data_Transfer::with_data, j, std::chrono::milliseconds(0));}).empty(), "lock of a read-only journal");
  CHECKP("C18", m.body() == b, "a read-only journal changed");
  return;
 }
 const int64_t sc = 41 + int64_t(b.size());
 for (int64_t from: {sc - 1, sc + 1, sc - int64_t(r.below(b.size())) - 1})
 {
  if (from < 41) continue;
  e = what([&]{m.connection->push(j, from, j.get_checkpoint(), Unlock_Action::keep_locked);});
  CHECKP("C18", !e.empty(), "a push from another position than the remote checkpoint is accepted", from, sc);
  CHECKP("C18", m.body() == b, "a refused push changed the remote");
 }
 const int64_t until = sc + r.in(0, j.get_checkpoint() - sc);
 int64_t ret = 0;
 e = what([&]{ret = m.connection->push(j, sc, until, Unlock_Action::unlock_after);});
 CHECKP("C18", e.empty() && ret == until, e, ret, until);
 CHECKP("C18", m.body() == body_of(f, until), "push must send exactly the missing bytes");
}

// clients with changes that are not in the remote
struct Client_Under: public Writable_Client
{
 using Writable_Client::Writable_Client;
 int reads = 0, fail_read = -1;
 void read_journal() override {journal.skip_directly_to(journal.get_checkpoint()); if (fail_read >= 0 && fail_read-- == 0) throw Fault();}
};

static void offline(uint64_t k)
{
 Rng r(5000 + k);
 const int kind = int(k % 2);
 const std::string base = r.bytes(r.below(300));
 note(str("offline changes", k, kind));
 Remote m(kind, k, base);
 TFile f(Open_Mode::write_existing, journal_bytes(base));
 Writable_Journal j(f);
 Client_Under c(j, *m.connection, Content_Check::full);
 c.read_journal();
 std::string local = base;
 bool conflicting = false;
 const int steps = 1 + int(r.below(5));
 std::string expect_remote = base;
 for (int i = 0; i < steps; i++)
 {
  const bool remote_changes = r.chance(1, 2), local_changes = r.chance(1, 2);
  if (remote_changes) {const std::string x = r.bytes(1 + r.below(60)); m.append(x); expect_remote += x;}
  if (local_changes)
  {
   const std::string x = r.bytes(1 + r.below(60));
   f.pwrite(x.data(), x.size(), j.get_checkpoint());
   j.soft_checkpoint_at(j.get_checkpoint() + int64_t(x.size()));
   j.skip_directly_to(j.get_checkpoint());
   local += x;
  }
  const bool compatible = is_prefix(local, expect_remote);
  const int action = int(r.below(4));
  note(str("offline changes", k, kind, "step", i, "local", local.size(), "remote", expect_remote.size(), "compatible", compatible, "action", action));
  std::string e;
  if (action == 0) e = what([&]{c.pull();});
  else if (action == 1) e = what([&]{c.pull_push();});
  else if (action == 2) e = what([&]{c.push_unlock();});
  else e = what([&]{Client_Lock l(c); l.checkpoint_and_push_unlock();});
  eval();
  if (!compatible)
  {
   CHECKP("C18", !e.empty(), "diverged histories are mixed without an error");
   CHECKP("C18", body_of(f, j.get_checkpoint()) == local, "local changes mixed with remote ones");
   CHECKP("C18", m.body() == expect_remote, "remote changes mixed with local ones");
   if (m.sim) CHECKP("C20", !m.sim->locked, "the lock is not released");
   return;
  }
  if (action == 2 && expect_remote.size() > local.size()) {if (!e.empty()) return;}
  else CHECKP("C18", e.empty(), e);
  if (action != 2 && local.size() < expect_remote.size()) local = expect_remote;
  if (action != 0 && expect_remote.size() < local.size()) expect_remote = local;
  CHECKP("C18", body_of(f, j.get_checkpoint()) == local, "local journal after the action");
  CHECKP("C18", m.body() == expect_remote, "remote journal after the action");
 }
}

// another client pushes between the requests of a pull
static void growing(uint64_t k)
{
 Rng r(7000 + k);
 const std::string base = r.bytes(r.below(200)), mine = r.bytes(2 + r.below(50));
 note(str("growing server", k));
 Remote m(0, k, base);
 TFile f(Open_Mode::write_existing, journal_bytes(base));
 Writable_Journal j(f);
 Client_Under c(j, *m.connection, Content_Check::full);
 c.read_journal();
 f.pwrite(mine.data(), mine.size(), j.get_checkpoint());
 j.soft_checkpoint_at(j.get_checkpoint() + int64_t(mine.size()));
 j.skip_directly_to(j.get_checkpoint());
 const std::string local = base + mine;
 // the server has a part of it, or nothing
 m.append(mine.substr(0, r.below(mine.size())));
 std::string more = mine.substr(m.sim->remote.size() - base.size());
 if (r.chance(1, 2)) more = diverge(more, r.below(more.size()), r);
 more += r.bytes(r.below(30));
 int64_t step = int64_t(r.below(4));
 m.sim->others = [&](const Request &) {if (!m.sim->locked && step-- == 0) m.sim->remote += more;};
 const int action = int(r.below(3));
 const std::string e = what([&]
 {
  if (action == 0) {c.pull(); c.pull();}
  else if (action == 1) c.pull_push();
  else {Client_Lock l(c); l.checkpoint_and_push_unlock();}
 });
 m.sim->others = nullptr;
 eval();
 const std::string now = body_of(f, j.get_checkpoint());
 CHECKP("C18", is_prefix(local, now), "local changes are lost");
 CHECKP("C18", now == local || is_prefix(now, m.sim->remote), str("diverging histories are mixed, action", action, e));
 CHECKP("C18", is_prefix(now, m.sim->remote) || !e.empty() || action == 0, "diverged histories are accepted");
 CHECKP("C20", !m.sim->locked, "the lock is not released");
}

//////////////////////////////////////////////////////////////////////////////
// C20: transactions with a failure at each point
//////////////////////////////////////////////////////////////////////////////
struct Spy: public Connection
{
 std::string remote;
 bool locked = false;
 int unlocks = 0, pushes = 0, pulls = 0;
 int64_t countdown = -1;
 bool failed = false;
 bool push_threw = false;
 std::vector<std::string> log;
 Spy(): Connection() {}
 void fault() {if (countdown >= 0 && countdown-- == 0) {failed = true; throw Fault();}}
 int64_t cp() const {return 41 + int64_t(remote.size());}
 int64_t handshake(const Readonly_Journal &, Content_Check) override {return cp();}
 int64_t pull(Lock_Action l, Data_Transfer d, Writable_Journal &j, std::chrono::milliseconds) override
 {
  log.push_back("pull");
  pulls++;
  fault();
  if (bool(d) && j.get_checkpoint() < cp())
  {
   const std::string x = remote.substr(size_t(j.get_checkpoint() - 41));
   j.file.pwrite(x.data(), x.size(), j.get_checkpoint());
   j.soft_checkpoint_at(cp());
  }
  // a pull that throws does not keep the lock (connection contract)
  if (bool(l)) {if (locked) h::fail("C20 lock taken twice"); locked = true;}
  return cp();
 }
 int64_t push(const Readonly_Journal &j, int64_t from, int64_t until, Unlock_Action u) override
 {
  log.push_back("push");
  pushes++;
  if (!locked) h::fail("C20 push without the lock");
  if (countdown == 0)
  {
   // a failing push gives the lock back (connection contract)
   countdown = -1;
   failed = true;
   if (bool(u)) locked = false;
   push_threw = true;
   throw Fault();
  }
  if (countdown > 0) countdown--;
  CHECKP("C18 C20", from == cp(), "push position");
  CHECKP("C18 C20", until <= j.get_checkpoint(), "push beyond the checkpoint");
  if (until > from)
  {
   std::string x(size_t(until - from), 0);
   Async_Reader rd = j.get_async_reader(from, until);
   try {CHECK(rd.read(&x[0], x.size()) == x.size());}
   catch (...) {if (bool(u)) locked = false; push_threw = true; throw;}
   remote += x;
  }
  if (bool(u)) locked = false;
  return cp();
 }
 void unlock() override
 {
  log.push_back("unlock");
  unlocks++;
  if (!locked && !push_threw) h::fail("C20 unlock without the lock");
  locked = false;
  fault();
 }
};

static void transactions(uint64_t k)
{
 for (int mode = 0; mode < 6; mode++)
  for (int where = 0; where < 4; where++)     // connection, local file, body, reading the journal
   for (int64_t n = 0; n < 60; n++)
   {
    Rng r(6000 + k);
    note(str("transaction", k, "mode", mode, "failure in", where, "at", n));
    Spy spy;
    spy.remote = r.bytes(r.below(40));
    TFile f(Open_Mode::write_existing, journal_bytes(spy.remote.substr(0, r.below(spy.remote.size() + 1))));
    f.s->torn = r.chance(1, 2);
    Writable_Journal j(f);
    Client_Under c(j, spy, Content_Check::full);
    c.read_journal();
    c.set_hard_checkpoint(mode & 1);
    c.set_timestamp(r.chance(1, 2));
    c.set_valid_data(r.chance(1, 2));
    const std::string remote0 = spy.remote;
    const int writes = int(r.below(4));
    int step = 0;
    bool body_failed = false, body_done = false;
    const auto body = [&]()
    {
     CHECKP("C20", spy.locked, "the body runs without the lock");
     for (int i = 0; i < writes; i++)
     {
      if (where == 2 && n == i) {body_failed = true; throw Fault();}
      j.comment(r.bytes(r.chance(1, 6) ? 9000 : 10));
      step++;
      CHECKP("C20", spy.remote == remote0, "changes visible before the end of the body");
     }
     if (where == 2 && n >= writes) {body_failed = true; throw Fault();}
     body_done = true;
    };
    if (where == 0) spy.countdown = n;
    if (where == 1) f.s->countdown = n;
    if (where == 3) c.fail_read = int(n);
    std::string e;
    int result = 0;
    if (mode < 2) e = what([&]{c.transaction(body);});
    else if (mode < 4) e = what([&]{result = c.transaction([&]{body(); return 42;});});
    else e = what([&]
    {
     Client_Lock l(c);
     body();
     l.checkpoint_and_push_unlock();
    });
    const bool not_reached = where == 0 ? spy.countdown >= 0 : where == 1 ? f.s->countdown >= 0 : where == 2 ? false : c.fail_read >= 0;
    f.s->countdown = -1;
    spy.countdown = -1;
    c.fail_read = -1;
    eval();
    CHECKP("C20", !spy.locked, "the lock of the connection is not released", e);
    CHECKP("C20", f.held() == 0, "a lock of the file is not released");
    if (e.empty())
    {
     CHECKP("C20", body_done && spy.pushes == 1, "an error is not reported");
     CHECKP("C20", spy.remote == body_of(f, j.get_checkpoint()) && j.get_position() == j.get_checkpoint(), "the transaction is not in the remote");
     CHECKP("C20", !writes || spy.remote.size() > remote0.size(), "nothing pushed");
     if (mode >= 2 && mode < 4) CHECKP("C20", result == 42, "result");
     CHECKP("C20", not_reached || where == 1, "an error is swallowed");
    }
    else
    {
     CHECKP("C20", !not_reached, "unexpected error", e);
     CHECKP("C20", spy.remote == remote0, "an error is reported but changes are in the remote");
     if (body_failed || (step > 0 && !body_done))
     {
      CHECKP("C20", e == "!injected fault", e);
      const bool dirty = j.get_position() > j.get_checkpoint();
      if (body_failed && writes > 0 && n > 0) CHECKP("C20", dirty, "the changes of a failed transaction were checkpointed");
      if (dirty)
      {
       const int p = spy.pushes;
       bool ran = false;
       CHECKP("C20", !what([&]{c.transaction([&]{ran = true;});}).empty() && !ran, "a client whose transaction failed writes again");
       CHECKP("C20", !what([&]{Client_Lock l(c); l.checkpoint_and_push_unlock();}).empty(), "a client whose transaction failed writes again");
       CHECKP("C20", spy.pushes == p && spy.remote == remote0 && !spy.locked, "a client whose transaction failed writes again");
      }
     }
    }
    if (not_reached) break;
    if (where == 2 && n > writes) break;
   }
}

int main()
{
 Destructor_Logger::set_logger(&Logger::dummy_logger);
 const uint64_t e = effort;
 if (wants("C18 C19")) for (uint64_t k = 0; k < 150 * e && !time_up(); k++) protocol(k);
 if (wants("C18 C19")) wrong_replies(1);
 if (wants("C19")) for (uint64_t k = 0; k < 6 * e && !time_up(); k++) channel_failures(k);
 if (wants("C18")) for (uint64_t k = 0; k < 600 * e && !time_up(); k++) divergence(k);
 if (wants("C18 C20")) for (uint64_t k = 0; k < 300 * e && !time_up(); k++) offline(k);
 if (wants("C18 C20")) for (uint64_t k = 0; k < 1000 * e && !time_up(); k++) growing(k);
 if (wants("C20")) for (uint64_t k = 0; k < 10 * e && !time_up(); k++) transactions(k);
 sample("pull over a channel that delivers one byte at a time, with a ping before each lock");
 return done();
}
