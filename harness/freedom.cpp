// C09: record identifiers behave as a set, in each representation and across the switch
// sources: auto
// flags: -fsanitize=address -D_GLIBCXX_ASSERTIONS
#include "h.h"
#include <algorithm>
#include "joedb/Freedom_Keeper.h"

using namespace joedb;
using namespace h;
constexpr Record_Id UL{-2}, FL{-1};

struct Model
{
 std::set<index_t> used;
 index_t size = 0;
 bool is_used(index_t i) const {return used.count(i) > 0;}
 bool all_used(index_t i, uint64_t n) const
 {
  if (i < 0 || n > uint64_t(size)) return false;
  for (uint64_t k = 0; k < n; k++) if (!is_used(i + index_t(k))) return false;
  return true;
 }
 // no identifier is used, and all of them are valid
 bool all_free(index_t i, uint64_t n) const
 {
  if (i < 0 || n > uint64_t(INT64_MAX) || uint64_t(i) + n > uint64_t(INT64_MAX)) return false;
  auto it = used.lower_bound(i);
  return it == used.end() || uint64_t(*it) - uint64_t(i) >= n;
 }
};

static const int64_t extremes[] = {INT64_MIN, INT64_MIN + 1, -1000000, -5, -2, -1, 0, 1, INT64_MAX, INT64_MAX - 1, INT64_MAX / 2, INT64_MAX / 2 + 1, 1ll << 32, (1ll << 32) - 1};

static std::string show(const Model &m) {std::string r = "size " + std::to_string(m.size) + " used"; for (auto i: m.used) r += " " + std::to_string(i); return r;}

template<typename K> void list(const K &k, const Model &m, Record_Id head, Record_Id other, bool used)
{
 std::vector<index_t> f, b;
 for (Record_Id i = k.get_next(head); i != head; i = k.get_next(i))
 {
  CHECK(index_t(i) >= 0 && index_t(i) < m.size, "iteration leaves the structure", index_t(i));
  f.push_back(index_t(i));
  CHECK(index_t(f.size()) <= m.size, "iteration does not end");
 }
 for (Record_Id i = k.get_previous(head); i != head; i = k.get_previous(i))
 {
  CHECK(index_t(i) >= 0 && index_t(i) < m.size, "backward iteration leaves the structure", index_t(i), used ? "used" : "free");
  b.push_back(index_t(i));
  CHECK(index_t(b.size()) <= m.size, "backward iteration does not end");
 }
 std::reverse(b.begin(), b.end());
 CHECK(f == b, "backward iteration visits the reverse of forward iteration");
 std::sort(f.begin(), f.end());
 std::vector<index_t> want;
 for (index_t i = 0; i < m.size; i++) if (m.is_used(i) == used) want.push_back(i);
 CHECK(f == want, used ? "iteration over used identifiers" : "iteration over free identifiers", show(m));
}

template<typename K> void verify(const K &k, const Model &m, Rng &r, bool full)
{
 CHECK(index_t(k.get_size()) == m.size, index_t(k.get_size()), show(m));
 CHECK(k.size() == size_t(m.size));
 CHECK(index_t(k.get_used_count()) == index_t(m.used.size()), index_t(k.get_used_count()), show(m));
 const index_t fu = index_t(k.get_first_used()), ff = index_t(k.get_first_free());
 CHECK(m.used.empty() ? fu == -2 : m.is_used(fu), fu, show(m));
 CHECK(index_t(m.used.size()) == m.size ? ff == -1 : ff >= 0 && ff < m.size && !m.is_used(ff), ff, show(m));
 CHECK(k.get_next(UL) == k.get_first_used() && k.get_next(FL) == k.get_first_free(), show(m));
 if (full)
 {
  list(k, m, UL, FL, true);
  list(k, m, FL, UL, false);
  for (index_t i = 0; i < m.size; i++)
  {
   const Record_Id x(i);
   CHECK(k.get_next(k.get_previous(x)) == x, i, show(m));
   CHECK(k.get_previous(k.get_next(x)) == x, i, show(m));
  }
  for (index_t i = -3; i < m.size + 3; i++) CHECK(k.is_used(Record_Id(i)) == m.is_used(i), i, show(m));
 }
 for (int j = 0; j < 12; j++)
 {
  index_t i = r.chance(1, 3) ? extremes[r.below(std::size(extremes))] : r.in(-3, m.size + 3);
  uint64_t n = r.chance(1, 4) ? uint64_t(extremes[r.below(std::size(extremes))]) : r.chance(1, 3) ? uint64_t(m.size) - uint64_t(i) + r.below(3) - 1 : r.chance(1, 4) ? uint64_t(r.in(-4, 4) - i) : 1 + r.below(uint64_t(m.size) + 4);
  if (n == 0) n = 1;
  note(str("query", i, n, show(m)));
  CHECK(k.is_used(Record_Id(i)) == m.is_used(i));
  if (i >= 0) CHECK(k.is_free(Record_Id(i)) == !m.is_used(i));
  CHECK(k.is_used_vector(Record_Id(i), n) == m.all_used(i, n), "range of used identifiers");
  CHECK(k.is_free_vector(Record_Id(i), n) == m.all_free(i, n), "range of free identifiers");
 }
}

enum Bias {mixed, lifo, growing, ranges};

template<typename K> struct Apply
{
 static bool use(K &k, Record_Id i) {k.use(i); return true;}
 static bool free(K &k, Record_Id i) {k.free(i); return true;}
 static bool use_vector(K &k, Record_Id i, size_t n) {k.use_vector(i, n); return true;}
 static bool free_vector(K &k, Record_Id i, size_t n) {k.free_vector(i, n); return true;}
};
// the compact representation refuses what it cannot represent
template<> struct Apply<Dense_Freedom_Keeper>
{
 using K = Dense_Freedom_Keeper;
 static bool use(K &k, Record_Id i) {return k.use(i);}
 static bool free(K &k, Record_Id i) {return k.free(i);}
 static bool use_vector(K &k, Record_Id i, size_t n) {return k.use_vector(i, n);}
 static bool free_vector(K &k, Record_Id i, size_t n) {return k.free_vector(i, n);}
};

template<typename K> void history(uint64_t id, const char *name)
{
 Rng r(id);
 K k;
 Model m;
 using A = Apply<K>;
 const int bias = int(r.below(4));
 const index_t limit = r.chance(1, 4) ? 3 : r.chance(1, 10) ? 200 : 16;
 std::string log = name;
 const int steps = int(r.in(1, 60));
 for (int s = 0; s < steps; s++)
 {
  const int op = int(r.below(9));
  std::vector<index_t> fr;
  for (index_t i = 0; i < m.size; i++) if (!m.is_used(i)) fr.push_back(i);
  if (op == 0 || (op == 1 && bias == growing))
  {
   if (m.size >= limit) continue;
   log += " push"; note(log);
   const index_t x = index_t(k.push_back());
   m.size++;
   CHECK(x == m.size - 1, "push_back returns the new identifier", x);
  }
  else if (op == 1)
  {
   const index_t n = r.in(-2, limit);
   log += str(" resize", n); note(log);
   k.resize(Record_Id(n));
   m.size = std::max(m.size, n);
  }
  else if (op == 2)
  {
   if (m.size >= limit && fr.empty()) continue;
   log += " free?"; note(log);
   const index_t x = index_t(k.get_free_record());
   if (fr.empty()) m.size++;
   CHECK(x >= 0 && x < m.size && !m.is_used(x), "identifier proposed as free", x, show(m));
   if (r.chance(3, 4))
   {
    log += str(" use", x); note(log);
    CHECK(A::use(k, Record_Id(x)), "use of the proposed identifier");
    m.used.insert(x);
   }
  }
  else if (op <= 4)
  {
   if (fr.empty()) continue;
   const index_t x = bias == lifo ? fr[0] : fr[r.below(fr.size())];
   log += str(" use", x); note(log);
   if (A::use(k, Record_Id(x))) m.used.insert(x);
  }
  else if (op <= 6)
  {
   if (m.used.empty()) continue;
   auto it = m.used.begin();
   std::advance(it, r.below(m.used.size()));
   const index_t x = bias == lifo ? *m.used.rbegin() : *it;
   log += str(" del", x); note(log);
   if (A::free(k, Record_Id(x))) m.used.erase(x);
  }
  else
  {
   const bool u = op == 7;
   std::vector<std::pair<index_t, index_t>> c;
   for (index_t i = 0; i < m.size; i++)
    for (index_t n = 1; i + n <= m.size && m.is_used(i + n - 1) != u; n++) c.push_back({i, n});
   if (c.empty() || bias == lifo && r.chance(1, 2)) continue;
   const auto [i, n] = c[r.below(c.size())];
   log += str(u ? " use" : " del", i, "x", n); note(log);
   if (u ? A::use_vector(k, Record_Id(i), size_t(n)) : A::free_vector(k, Record_Id(i), size_t(n)))
    for (index_t j = i; j < i + n; j++) {if (u) m.used.insert(j); else m.used.erase(j);}
  }
  verify(k, m, r, r.chance(1, 2) || s + 1 == steps);
  note(log);
 }
 eval(m.size > 0);
 if (id < 2) sample(log);
}

// every short history of the smallest structures
static void exhaustive(int depth)
{
 uint64_t n = 1;
 for (int i = 0; i < depth; i++) n *= 8;
 for (uint64_t c = 0; c < n && !time_up(); c++)
 {
  Freedom_Keeper k;
  Model m;
  Rng r(c);
  std::string log = "exhaustive";
  bool ok = true;
  uint64_t x = c;
  for (int i = 0; i < depth && ok; i++, x /= 8)
  {
   const index_t j = index_t(x % 8) / 2;
   log += str(" toggle", j); note(log);
   if (x % 8 == 7) {log += " push"; k.push_back(); m.size++; continue;}
   if (x % 8 == 6) {index_t f = index_t(k.get_free_record()); if (index_t(m.used.size()) == m.size) m.size++; CHECK(f >= 0 && f < m.size && !m.is_used(f), log); continue;}
   if (j >= m.size || (m.is_used(j) != (x % 2 == 1))) {ok = false; break;}
   if (x % 2) {k.free(Record_Id(j)); m.used.erase(j);} else {k.use(Record_Id(j)); m.used.insert(j);}
  }
  if (!ok) continue;
  verify(k, m, r, true);
  eval();
 }
}

int main()
{
 exhaustive(effort > 1 ? 7 : 6);
 const uint64_t n = 3000 * effort;
 for (uint64_t i = 0; i < n && !time_up(); i++)
 {
  history<Freedom_Keeper>(i, "switching:");
  history<List_Freedom_Keeper>(i + 1000000, "linked:");
  history<Dense_Freedom_Keeper>(i + 2000000, "compact:");
 }
 return done();
}
