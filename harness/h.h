// Support for the native bounded stand-ins. Everything runs on the real code of
// /repo; the only thing defined here is an in-memory Abstract_File whose short
// reads, faults, crash points and locks are controlled by the harness.
#ifndef VERIF_H
#define VERIF_H
#include "joedb/journal/Abstract_File.h"
#include "joedb/error/Exception.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>

namespace h
{
 inline uint64_t g_eval = 0, g_nontrivial = 0;
 inline std::string g_case;
 inline std::vector<std::string> g_samples;

 inline uint64_t envu(const char *n, uint64_t d)
 {
  const char *s = getenv(n);
  return s ? strtoull(s, nullptr, 10) : d;
 }
 inline const uint64_t seed = envu("VERIF_SEED", 1);
 inline const uint64_t effort = envu("VERIF_EFFORT", 1);
 inline const double time_limit = double(envu("VERIF_TIME", 100));
 inline const auto t0 = std::chrono::steady_clock::now();
 inline double elapsed()
 {
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
 }
 // only a safety net: the amount of work is fixed by the effort
 inline bool time_up() {return elapsed() > time_limit;}

 struct Rng
 {
  uint64_t s;
  Rng(uint64_t a = 0): s(seed * 0x9E3779B97F4A7C15ull + a * 0xD1B54A32D192ED03ull + 12345) {next(); next();}
  uint64_t next()
  {
   uint64_t z = (s += 0x9E3779B97F4A7C15ull);
   z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
   z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
   return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) {return n ? next() % n : 0;}
  int64_t in(int64_t a, int64_t b) {return a + int64_t(below(uint64_t(b - a + 1)));}
  bool chance(int num, int den) {return int(below(den)) < num;}
  std::string bytes(size_t n, int alpha = 256)
  {
   std::string r(n, 0);
   for (auto &c: r) c = char(below(alpha));
   return r;
  }
 };

 [[noreturn]] inline void fail(const std::string &m);
 // an exception that nothing expected
 inline const auto old_terminate = std::set_terminate([]()
 {
  std::string m = "unexpected exception";
  try {if (auto e = std::current_exception()) std::rethrow_exception(e);} catch (const std::exception &e) {m += std::string(": ") + e.what();} catch (...) {}
  fail(m);
 });
 [[noreturn]] inline void fail(const std::string &m)
 {
  printf("FAIL %s\n", m.c_str());
  printf("CASE %s\n", g_case.c_str());
  printf("replay: VERIF_SEED=%llu VERIF_EFFORT=%llu\n", (unsigned long long)seed, (unsigned long long)effort);
  fflush(stdout);
  _Exit(3);
 }
 inline void note(const std::string &c) {g_case = c;}
 inline void eval(bool nontrivial = true) {g_eval++; if (nontrivial) g_nontrivial++;}
 inline void sample(const std::string &s) {if (g_samples.size() < 4) g_samples.push_back(s);}
 inline int done()
 {
  for (auto &s: g_samples) printf("SAMPLE %s\n", s.c_str());
  printf("EVALUATIONS %llu %llu\n", (unsigned long long)g_eval, (unsigned long long)g_nontrivial);
  fflush(stdout);
  return 0;
 }
 template<typename... A> std::string str(const A &...a)
 {
  std::ostringstream o;
  ((o << a << ' '), ...);
  return o.str();
 }
 inline std::string hex(const std::string &s)
 {
  std::string r;
  char b[4];
  for (size_t i = 0; i < s.size() && i < 200; i++) {snprintf(b, 4, "%02x", (unsigned char)s[i]); r += b;}
  return r + (s.size() > 200 ? "..." : "");
 }
 // checks that belong to the listed properties only
 inline bool wants(const char *props) {static const char *p = getenv("VERIF_PROP"); return !p || strstr(props, p);}
#define CHECKP(p, c, ...) do {if (h::wants(p) && !(c)) h::fail(h::str(p, #c, __VA_OPT__(__VA_ARGS__,) "line", __LINE__));} while (0)
#define CHECK(c, ...) do {if (!(c)) h::fail(h::str(#c, __VA_OPT__(__VA_ARGS__,) "line", __LINE__));} while (0)

 // a throwing action
 template<typename F> bool throws(F f, std::string *what = nullptr)
 {
  try {f();}
  catch (const joedb::Exception &e) {if (what) *what = e.what(); return true;}
  catch (const std::exception &e) {if (what) *what = e.what(); return true;}
  return false;
 }

 struct Op
 {
  enum K {write, sync, datasync, shared, exclusive, unlock, read} k;
  int64_t off;
  std::string data;
  int64_t len;
 };

 struct Fault: std::runtime_error {Fault(): std::runtime_error("injected fault") {}};

 struct Store   // the contents, shared by several TFile handles
 {
  std::string data;
  std::vector<Op> log;
  bool logging = false, log_reads = false;
  // faults: operations counted over all kinds enabled in fault_mask
  int64_t countdown = -1;   // throw when it reaches 0
  bool dead = false;        // every operation fails after the fault
  bool sticky = false;
  bool torn = true;         // a failing write writes a prefix
  uint64_t ops = 0;
  // locks
  std::map<std::pair<int64_t, int64_t>, int> shared_held, exclusive_held;
  int lock_errors = 0;
  std::string lock_error;
  std::function<void(const Op &)> on_op;
 };

 class TFile: public joedb::Abstract_File
 {
  public:
   std::shared_ptr<Store> s;
   mutable Rng rng;
   int short_reads = 0;   // 0: full, 1: random, 2: one byte at a time, 3: all but one byte
   size_t small_ok = 41;  // reads up to this size are not truncated (documented assumption)
   bool known_size = true;
   // locks owned by this handle
   std::map<std::pair<int64_t, int64_t>, int> owned;

   TFile(joedb::Open_Mode m, std::shared_ptr<Store> st, int sr = 0): joedb::Abstract_File(m), s(st), rng(77), short_reads(sr) {}
   explicit TFile(joedb::Open_Mode m = joedb::Open_Mode::create_new, const std::string &d = {}): joedb::Abstract_File(m), s(std::make_shared<Store>()), rng(77) {s->data = d;}
   void readonly() {make_readonly();}

   bool fault() const
   {
    s->ops++;
    if (s->dead) return true;
    if (s->countdown >= 0 && s->countdown-- == 0)
    {
     if (s->sticky) s->dead = true;
     return true;
    }
    return false;
   }
   void emit(Op o) const
   {
    if (s->on_op) s->on_op(o);
    if (s->logging) s->log.push_back(std::move(o));
   }
   int64_t get_size() const override {return known_size ? int64_t(s->data.size()) : -1;}
   size_t pread(char *d, size_t n, int64_t off) const override
   {
    if (fault()) throw Fault();
    if (off < 0) h::fail("pread at a negative offset");
    if (s->log_reads) emit({Op::read, off, {}, int64_t(n)});
    if (off >= int64_t(s->data.size()) || n == 0) return 0;
    size_t r = std::min(n, s->data.size() - size_t(off));
    if (n > small_ok)
    {
     if (short_reads == 1) r = 1 + rng.below(r);
     else if (short_reads == 2) r = 1;
     else if (short_reads == 3 && r > 1) r--;
    }
    memcpy(d, s->data.data() + off, r);
    // bytes after the returned ones are unspecified
    if (r < n && (short_reads || r == 0)) d[r] = char(rng.next());
    return r;
   }
   void pwrite(const char *d, size_t n, int64_t off) override
   {
    if (off < 0) h::fail("pwrite at a negative offset");
    if (is_readonly()) h::fail("pwrite to a read-only file");
    const bool f = fault();
    if (f && s->dead && s->countdown < -1000000) throw Fault();
    size_t m = f ? (s->torn ? rng.below(n + 1) : 0) : n;
    if (f && n <= 8 && off < 41) m = m > n / 2 ? n : 0;   // a checkpoint slot is written atomically
    if (m)
    {
     if (off + m > s->data.size()) s->data.resize(off + m);
     memcpy(&s->data[off], d, m);
    }
    emit({Op::write, off, std::string(d, m), int64_t(m)});
    if (f) throw Fault();
   }
   void sync() override {if (fault()) throw Fault(); emit({Op::sync, 0, {}, 0});}
   void datasync() override {if (fault()) throw Fault(); emit({Op::datasync, 0, {}, 0});}
   void shared_lock(int64_t a, int64_t n) override
   {
    if (fault()) throw Fault();
    emit({Op::shared, a, {}, n});
    owned[{a, n}]++;
   }
   void exclusive_lock(int64_t a, int64_t n) override
   {
    if (fault()) throw Fault();
    emit({Op::exclusive, a, {}, n});
    owned[{a, n}]++;
   }
   void unlock(int64_t a, int64_t n) noexcept override
   {
    emit({Op::unlock, a, {}, n});
    if (--owned[{a, n}] < 0) {s->lock_errors++; s->lock_error = "unlock without lock";}
   }
   int held() const
   {
    int r = 0;
    for (auto &x: owned) r += x.second;
    return r;
   }
 };
}
#endif
