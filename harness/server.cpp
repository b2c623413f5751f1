// C26: the real server on a local socket, with raw sessions driven against a model of
// the documented protocol: who holds the lock, who waits, and what the journal contains.
// sources: auto
// flags: -fsanitize=address,undefined -fno-sanitize-recover=all -fno-access-control
#include "h.h"
#include "joedb/concurrency/Server.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Readonly_Client.h"
#include "joedb/concurrency/protocol_version.h"
#include "joedb/concurrency/File_Connection.h"
#include "joedb/error/Destructor_Logger.h"
#include <deque>
#include <poll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <signal.h>
using namespace h;
using namespace joedb;

static std::string le(int64_t v) {return std::string((const char *)&v, 8);}
static int64_t el(const std::string &s, size_t i) {int64_t v; memcpy(&v, s.data() + i, 8); return v;}
static std::string g_dir, g_trace;
static void step(const std::string &t) {g_trace += t + "; "; note(g_trace.size() > 6000 ? "..." + g_trace.substr(g_trace.size() - 6000) : g_trace);}

// one end of a session
struct Raw
{
 int fd = -1;
 std::string in;
 bool eof = false;

 void connect(const std::string &path)
 {
  fd = socket(AF_UNIX, SOCK_STREAM, 0);
  sockaddr_un a{};
  a.sun_family = AF_UNIX;
  strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1);
  if (fd < 0 || ::connect(fd, (sockaddr *)&a, sizeof a) != 0) fail("cannot connect to the server");
 }
 void send(const std::string &m)
 {
  size_t i = 0;
  while (i < m.size())
  {
   const ssize_t n = ::send(fd, m.data() + i, m.size() - i, MSG_NOSIGNAL);
   if (n <= 0) return;   // the server closed this session
   i += size_t(n);
  }
 }
 // what has arrived
 void poll_in(int ms)
 {
  pollfd p{fd, POLLIN, 0};
  if (eof || ::poll(&p, 1, ms) <= 0) return;
  char b[4096];
  const ssize_t n = ::recv(fd, b, sizeof b, MSG_DONTWAIT);
  if (n > 0) in.append(b, size_t(n));
  else if (n == 0) eof = true;
  else if (errno != EAGAIN && errno != EINTR) eof = true;
 }
 bool wait_for(size_t n)
 {
  const auto t = std::chrono::steady_clock::now() + std::chrono::seconds(20);
  while (in.size() < n && !eof && std::chrono::steady_clock::now() < t) poll_in(50);
  return in.size() >= n;
 }
 std::string recv(size_t n, const char *what)
 {
  if (!wait_for(n)) CHECKP("C26", false, what, eof ? ": the session was closed" : ": no answer", "received", hex(in));
  std::string r = in.substr(0, n);
  in.erase(0, n);
  return r;
 }
 bool wait_eof()
 {
  const auto t = std::chrono::steady_clock::now() + std::chrono::seconds(20);
  while (!eof && std::chrono::steady_clock::now() < t) poll_in(50);
  return eof;
 }
 void close() {if (fd >= 0) ::close(fd); fd = -1;}
 ~Raw() {close();}
 // returns the checkpoint of the server
 int64_t hello(char *mode = nullptr)
 {
  send("joedb" + le(protocol_version));
  const std::string r = recv(5 + 8 + 8 + 8 + 1, "greeting");
  if (mode) *mode = r[29];
  return el(r, 21);
 }
};

static int g_server = 0;
struct World
{
 std::shared_ptr<Store> store = std::make_shared<Store>();
 TFile file;
 std::unique_ptr<Writable_Journal_Client> client;
 std::unique_ptr<Server> server;
 std::string path;
 Raw control;

 World(bool shared, int timeout_ms): file(shared ? Open_Mode::shared_write : Open_Mode::create_new, store)
 {
  client = std::make_unique<Writable_Journal_Client>(file);
  path = g_dir + "/s" + std::to_string(g_server++);
  server = std::make_unique<Server>(Logger::dummy_logger, 0, 1, path, *client, std::chrono::milliseconds(timeout_ms));
  control.connect(path);
  control.hello();
 }
 ~World() {control.close(); server->stop();}
 // everything sent before has been handled
 void barrier(int rounds = 3)
 {
  for (int i = 0; i < rounds; i++)
  {
   control.send("r" + le(41) + le(41));
   const std::string r = control.recv(9, "read");
   CHECKP("C26", r[0] == 'r', hex(r));
  }
 }
 int64_t checkpoint() {barrier(1); return client->get_journal_checkpoint();}
 std::string content()
 {
  const int64_t c = checkpoint();
  return store->data.substr(41, size_t(c - 41));
 }
};

//////////////////////////////////////////////////////////////////////////////
// random requests of several sessions against a model
//////////////////////////////////////////////////////////////////////////////
struct Model_Session
{
 Raw raw;
 bool open = false, waiting = false;
 char wait_code = 0;
 int64_t wait_checkpoint = 0;
};

static void model(Rng &g, bool shared)
{
 g_trace = shared ? "shared: " : "exclusive: ";
 World w(shared, 0);
 const int n = int(g.in(2, 5));
 std::vector<std::unique_ptr<Model_Session>> s(static_cast<size_t>(n));
 for (auto &x: s) x = std::make_unique<Model_Session>();
 int owner = -1;
 std::deque<int> queue;       // sessions waiting for the lock, dead ones included
 std::set<int> pull_waiters;
 std::string body;

 auto end_of = [&]() {return 41 + int64_t(body.size());};
 std::function<void(int)> granted;
 auto release = [&]()
 {
  owner = -1;
  while (!queue.empty())
  {
   const int q = queue.front();
   queue.pop_front();
   if (q < 0) continue;        // it has gone: its turn is skipped
   owner = q;
   granted(q);
   break;
  }
 };
 // the answer to a pull
 auto pull_reply = [&](int i, char code, int64_t from)
 {
  Raw &r = s[size_t(i)]->raw;
  const std::string a = r.recv(9, "pull");
  CHECKP("C26", a[0] == code, a[0], code);
  CHECKP("C26", el(a, 1) == end_of(), "checkpoint announced", el(a, 1), "expected", end_of());
  if (code & 2)
  {
   const std::string d = r.recv(size_t(std::max<int64_t>(0, end_of() - from)), "data");
   CHECKP("C26", d == body.substr(size_t(from - 41)), "data of a pull");
  }
 };
 granted = [&](int i)
 {
  Model_Session &x = *s[size_t(i)];
  x.waiting = false;
  pull_reply(i, x.wait_code, x.wait_checkpoint);
 };
 auto closed = [&](int i)   // the server has closed, or will close this session
 {
  Model_Session &x = *s[size_t(i)];
  x.open = false;
  pull_waiters.erase(i);
  if (owner == i) release();
 };
 auto drop = [&](int i)     // the client goes away
 {
  Model_Session &x = *s[size_t(i)];
  x.raw.close();
  x.open = false;
  for (auto &q: queue) if (q == i) q = -1;
  x.waiting = false;
  w.barrier();
  closed(i);
 };
 auto quiet = [&](const char *what)
 {
  w.barrier();
  for (int i = 0; i < n; i++)
   if (s[size_t(i)]->open && !pull_waiters.count(i))
   {
    s[size_t(i)]->raw.poll_in(0);
    CHECKP("C26", s[size_t(i)]->raw.in.empty(), what, ": unexpected answer to session", i, hex(s[size_t(i)]->raw.in));
    CHECKP("C26", !s[size_t(i)]->raw.eof, what, ": unexpected end of session", i);
   }
  CHECKP("C26", w.checkpoint() == end_of(), what, ": checkpoint", w.checkpoint(), "expected", end_of());
  CHECKP("C26", w.content() == body, what, ": the journal is not the sequence of the accepted pushes");
 };

 const int steps = int(g.in(5, 40));
 for (int k = 0; k < steps; k++)
 {
  const int i = int(g.below(uint64_t(n)));
  Model_Session &x = *s[size_t(i)];
  if (!x.open)
  {
   if (x.waiting) continue;
   bool queued = false;
   for (int q: queue) queued |= q == i;
   if (queued) continue;
   s[size_t(i)] = std::make_unique<Model_Session>();
   step(str("connect", i));
   s[size_t(i)]->raw.connect(w.path);
   s[size_t(i)]->open = true;
   char mode;
   const int64_t c = s[size_t(i)]->raw.hello(&mode);
   CHECKP("C26", c == end_of() && mode == 'W', c, end_of(), mode);
   continue;
  }
  if (x.waiting || pull_waiters.count(i))
  {
   if (g.chance(1, 6)) {step(str("close waiting", i)); drop(i); quiet("close");}
   continue;
  }
  const int what = int(g.below(100));
  if (what < 30)
  {
   // pull or lock-pull
   const char code = "DEFG"[g.below(4)];
   const int64_t from = g.chance(2, 3) ? end_of() : 41 + int64_t(g.below(body.size() + 1));
   const bool wait = !(code & 1) && owner != i && from == end_of() && g.chance(1, 3);
   step(str(code, i, "from", from, wait ? "wait" : ""));
   x.raw.send(std::string(1, code) + le(wait ? 1000000 : 0) + le(from));
   if (wait) {x.wait_code = code; x.wait_checkpoint = from; pull_waiters.insert(i);}
   else if (!(code & 1)) pull_reply(i, code, from);
   else if (owner == i)
   {
    // locking twice ends the session, and gives the lock back
    CHECKP("C26", x.raw.wait_eof(), "locking twice: the session goes on");
    closed(i);
   }
   else if (owner < 0) {owner = i; pull_reply(i, code, from);}
   else {x.waiting = true; x.wait_code = code; x.wait_checkpoint = from; queue.push_back(i);}
   eval(owner >= 0);
  }
  else if (what < 45)
  {
   step(str("M", i));
   x.raw.send("M");
   const std::string r = x.raw.recv(1, "unlock");
   CHECKP("C26", r == "M", hex(r));
   if (owner == i) release();
   eval(true);
  }
  else if (what < 90)
  {
   const bool unlock = g.chance(1, 2);
   const std::string data = g.bytes(g.chance(1, 4) ? g.below(3000) : g.below(30), 20);
   const int64_t from = g.chance(3, 4) ? end_of() : std::max<int64_t>(41, end_of() + g.in(-30, 3));
   const char code = unlock ? 'O' : 'N';
   const std::string m = std::string(1, code) + le(from) + le(from + int64_t(data.size()));
   const bool stop = g.chance(1, 8) && !data.empty();
   step(str(code, i, "from", from, "size", data.size(), stop ? "cut" : "", owner));
   if (owner >= 0 && owner != i)
   {
    x.raw.send(m + data);
    CHECKP("C26", x.raw.wait_eof(), "push while another session has the lock: the session goes on");
    closed(i);
   }
   else if (stop)
   {
    // the client goes away in the middle of its push: nothing of it counts
    x.raw.send(m + data.substr(0, g.below(data.size())));
    w.barrier();
    owner = i;
    drop(i);
   }
   else
   {
    owner = i;
    size_t cut = g.below(m.size() + data.size());
    x.raw.send((m + data).substr(0, cut));
    if (g.chance(1, 4)) w.barrier(1);
    x.raw.send((m + data).substr(cut));
    const std::string r = x.raw.recv(1, "push");
    const bool conflict = from != end_of();
    CHECKP("C26", r[0] == (conflict ? 'C' : code), "answer to the push", r, conflict ? "conflict" : "no conflict");
    if (!conflict) body += data;
    if (unlock) release();
    // whoever waited for new data is answered; after a refused push, it may be
    if (!conflict && !data.empty())
    {
     for (int p: pull_waiters) pull_reply(p, s[size_t(p)]->wait_code, s[size_t(p)]->wait_checkpoint);
     pull_waiters.clear();
    }
    else if (!pull_waiters.empty())
    {
     w.barrier();
     for (auto p = pull_waiters.begin(); p != pull_waiters.end();)
     {
      Model_Session &y = *s[size_t(*p)];
      y.raw.poll_in(0);
      if (y.raw.in.empty()) {++p; continue;}
      pull_reply(*p, y.wait_code, y.wait_checkpoint);
      p = pull_waiters.erase(p);
     }
    }
   }
   eval(true);
  }
  else if (what < 96)
  {
   step(str("close", i));
   if (g.chance(1, 3)) x.raw.send("Q");
   drop(i);
   eval(true);
  }
  else
  {
   // a request that does not exist ends the session
   step(str("bad", i));
   x.raw.send("z");
   CHECKP("C26", x.raw.wait_eof(), "unknown request: the session goes on");
   closed(i);
  }
  quiet("after the step");
 }
 // a file shared with other processes is locked only while a client has the lock
 for (int i = 0; i < n; i++) if (s[size_t(i)]->open) drop(i);
 w.barrier();
 CHECKP("C26", !shared || !w.server->has_client_lock(), "the lock of the shared file is kept after the last session");
 CHECKP("C26", !shared || w.file.held() == 0, "the shared file is still locked", w.file.held());
 quiet("end");
 // the lock is free again
 Raw r;
 r.connect(w.path);
 r.hello();
 r.send("E" + le(0) + le(end_of()));
 CHECKP("C26", r.recv(9, "lock after all sessions have ended")[0] == 'E');
}

//////////////////////////////////////////////////////////////////////////////
// timeouts
//////////////////////////////////////////////////////////////////////////////
static void timeouts(Rng &g, bool shared)
{
 g_trace = shared ? "timeout, shared: " : "timeout, exclusive: ";
 World w(shared, int(g.in(5, 40)));
 Raw a, b;
 a.connect(w.path); a.hello();
 b.connect(w.path); b.hello();
 const std::string da = g.bytes(size_t(g.in(2, 2000)), 20), db = g.bytes(size_t(g.in(1, 50)), 20);
 std::string body;
 if (g.chance(1, 2))
 {
  // an earlier push of the same session
  const std::string d0 = g.bytes(7);
  step("first push");
  a.send("O" + le(41) + le(48) + d0);
  const std::string r = a.recv(1, "first push");
  if (r == "O") body += d0;
 }
 const int64_t e = 41 + int64_t(body.size());
 const bool in_push = g.chance(1, 2);
 const size_t half = g.below(da.size());
 step(str("a locks", in_push ? "and starts to push" : ""));
 if (g.chance(1, 2)) {a.send("E" + le(0) + le(e)); a.recv(9, "lock");}
 if (in_push) a.send("N" + le(e) + le(e + int64_t(da.size())) + da.substr(0, half));
 else {a.send("G" + le(0) + le(e)); }
 // b obtains the lock although a never gives it back
 step("b locks");
 b.send("G" + le(0) + le(e));
 {
  const std::string r = b.recv(9, "lock of a session whose predecessor went silent");
  CHECKP("C26", r[0] == 'G' && el(r, 1) == e, hex(r), e);
 }
 step("b pushes");
 b.send("N" + le(e) + le(e + int64_t(db.size())) + db);
 const std::string rb = b.recv(1, "push of b");
 // b may have timed out in turn
 CHECKP("C26", rb == "N" || rb == "t", "answer to the push of b", rb);
 if (rb == "N") body += db;
 CHECKP("C26", w.content() == body, "journal after the push of b");
 // the rest of the push of a comes too late
 if (in_push)
 {
  step("late data of a");
  a.send(da.substr(half));
  a.wait_for(1);
  CHECKP("C26", a.eof || a.in == "t", "late push of a", hex(a.in));
  CHECKP("C26", w.content() == body, "journal changed by a push that had timed out");
 }
 eval(true);
}

//////////////////////////////////////////////////////////////////////////////
// a session ends, or asks again, while its timeout expires: the server is busy with
// another request, so that it sees both at the same time
//////////////////////////////////////////////////////////////////////////////
static void timeout_race(Rng &g)
{
 g_trace = "timeout while the server is busy: ";
 World w(false, 10);
 Raw b;
 b.connect(w.path); b.hello();
 b.send("O" + le(41) + le(51) + "0123456789");
 CHECKP("C26", b.recv(1, "push") == "O");
 std::vector<std::unique_ptr<Raw>> a(size_t(g.in(1, 3)));
 for (auto &x: a)
 {
  x = std::make_unique<Raw>();
  x->connect(w.path);
  x->hello();
 }
 w.barrier();
 w.store->log_reads = true;
 w.store->on_op = [](const Op &o) {if (o.k == Op::read) usleep(30000);};
 // the first one takes the lock
 a[0]->send("E" + le(0) + le(51));
 a[0]->recv(9, "lock");
 // the server reads its file for b
 b.send("r" + le(41) + le(51));
 usleep(3000);
 const int how = int(g.below(3));
 step(str("how", how));
 if (how == 0) a[0]->close();
 else if (how == 1) a[0]->send("M");
 else a[0]->send("N" + le(51) + le(52) + "x");
 for (size_t i = 1; i < a.size(); i++) a[i]->send("E" + le(0) + le(51));
 CHECKP("C26", b.recv(19, "read").substr(9) == "0123456789");
 for (size_t i = 1; i < a.size(); i++) CHECKP("C26", a[i]->recv(9, "lock")[0] == 'E');
 w.barrier();
 w.store->on_op = nullptr;
 b.send("E" + le(0) + le(51));
 CHECKP("C26", b.recv(9, "lock")[0] == 'E');
 eval(true);
}

//////////////////////////////////////////////////////////////////////////////
// a server without write access
//////////////////////////////////////////////////////////////////////////////
static void readonly_server(Rng &g)
{
 g_trace = "read-only server: ";
 auto store = std::make_shared<Store>();
 const std::string body = g.bytes(g.below(100));
 {
  TFile f(Open_Mode::create_new, store);
  Writable_Journal j(f);
  f.pwrite(body.data(), body.size(), 41);
  j.hard_checkpoint_at(41 + int64_t(body.size()));
 }
 TFile f(Open_Mode::read_existing, store);
 const std::string path = g_dir + "/s" + std::to_string(g_server++);
 Readonly_Client client(f);
 Server server(Logger::dummy_logger, 0, 1, path, client, std::chrono::milliseconds(0));
 {
  Raw r;
  r.connect(path);
  char mode;
  const int64_t c = r.hello(&mode);
  CHECKP("C26", c == 41 + int64_t(body.size()) && mode == 'R');
  r.send("N" + le(c) + le(c + 4) + "abcd");
  const std::string a = r.recv(1, "push to a read-only server");
  CHECKP("C26", a == "R", hex(a));
  r.send("D" + le(0) + le(41));
  CHECKP("C26", el(r.recv(9, "pull"), 1) == c);
  CHECKP("C26", store->data.size() == 41 + body.size(), "read-only journal modified");
 }
 server.stop();
 eval(true);
}

int main()
{
 signal(SIGPIPE, SIG_IGN);
 char d[] = "/tmp/vserver_XXXXXX";
 if (!mkdtemp(d)) return 1;
 g_dir = d;
 struct Clean {~Clean() {for (int i = 0; i < g_server; i++) unlink((g_dir + "/s" + std::to_string(i)).c_str()); rmdir(g_dir.c_str());}} clean;
 const uint64_t n = 500 * effort;
 for (uint64_t k = 0; k < n && !time_up(); k++)
 {
  Rng g(1000 + k);
  model(g, k & 1);
  if (k % 3 == 0) timeouts(g, k & 2);
  if (k % 10 == 0) readonly_server(g);
  if (k % 10 == 1) timeout_race(g);
 }
 sample(g_trace.substr(0, 400));
 return done();
}
