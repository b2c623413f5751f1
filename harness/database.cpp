// C10 C11: the interpreted database against a direct model
// sources: auto
// flags: -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS
#include "h.h"
#include "rec.h"
#include <optional>
#include "joedb/interpreted/Database.h"
#include "joedb/is_identifier.h"

using namespace joedb;
using namespace h;

// [letters, digits, _]+, no leading digit, no __
static bool valid_name(const std::string &s)
{
 if (s.empty() || (s[0] >= '0' && s[0] <= '9') || s.find("__") != s.npos) return false;
 for (char c: s) if (!strchr("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_", c) || c == 0) return false;
 return true;
}

struct MField {std::string name; int type; int table; std::map<index_t, std::string> v;};
struct MTable {std::string name; std::map<int, MField> fields; int last_field = 0; std::set<index_t> used; index_t size = 0;};
struct Model {std::map<int, MTable> t; int last_table = 0;};

static std::string value(const Database &d, int t, index_t r, int f, int type)
{
 switch (Type::Type_Id(type))
 {
  #define TYPE_MACRO(a, b, type_id, R, W) case Type::Type_Id::type_id: return h::show(d.get_##type_id(Table_Id(t), Record_Id(r), Field_Id(f)));
  #include "joedb/TYPE_MACRO.h"
  default: return "";
 }
}

static void compare(const Database &d, Model &m, const char *prop)
{
 CHECKP("C10 C11", d.get_tables().size() == m.t.size(), "number of tables");
 for (auto &[id, name]: d.get_tables())
 {
  const int t = to_underlying(id);
  CHECKP("C10 C11", m.t.count(t), "unexpected table", t);
  if (!m.t.count(t)) continue;
  MTable &mt = m.t[t];
  CHECKP("C11", mt.name == name, "table name", t, name, "wanted", mt.name);
  CHECKP("C11", d.find_table(name) == id, "find_table", t);
  auto &fields = d.get_fields(id);
  CHECKP("C11", fields.size() == mt.fields.size(), "number of fields", t, fields.size(), mt.fields.size());
  for (auto &[fid, fname]: fields)
  {
   const int f = to_underlying(fid);
   CHECKP("C11", mt.fields.count(f), "unexpected field", t, f);
   if (!mt.fields.count(f)) continue;
   CHECKP("C11", mt.fields[f].name == fname, "field name", t, f, fname, "wanted", mt.fields[f].name);
   CHECKP("C11", d.find_field(id, fname) == fid, "find_field", t, f);
   const Type &ty = d.get_field_type(id, fid);
   CHECKP("C10 C11", int(ty.get_type_id()) == mt.fields[f].type, "field type", t, f);
   CHECKP("C10 C11", mt.fields[f].type != int(Type::Type_Id::reference) || to_underlying(ty.get_table_id()) == mt.fields[f].table, "referenced table", t, f);
  }
  const Freedom_Keeper &k = d.get_freedom(id);
  std::set<index_t> u;
  for (Record_Id r = k.get_first_used(); r != Record_Id{-2}; r = k.get_next(r)) {CHECKP("C10", u.insert(index_t(r)).second && index_t(r) >= 0, "iteration", t, index_t(r)); if (index_t(r) < 0) break;}
  CHECKP("C10", u == mt.used, "used records of table", t, u.size(), mt.used.size());
  for (index_t r: mt.used) CHECKP("C10", d.is_used(id, Record_Id(r)), "is_used", t, r);
  if (u == mt.used) for (index_t r: mt.used) for (auto &[f, mf]: mt.fields)
  {
   if (!mf.type) continue;
   const std::string v = value(d, t, r, f, mf.type);
   auto it = mf.v.find(r);
   if (it == mf.v.end()) mf.v[r] = v;   // a new cell: any value, from now on fixed
   else CHECKP("C10", it->second == v, "cell of table", t, "record", r, "field", f, "is", v, "wanted", it->second);
  }
 }
}

struct History
{
 Rng r;
 Model m;
 const index_t max;
 Database d;
 std::string log;
 int accepted = 0, refused = 0;
 History(uint64_t id): r(id), max(r.chance(1, 2) ? -1 : r.in(0, 40)), d(Record_Id(max)) {log = str("max", max, ":");}

 template<typename F> void run(bool ok, const std::string &what, const char *prop, F f)
 {
  for (char c: what) log += c < 32 || c > 126 ? '?' : c;
  log += (ok ? "; " : "(refused); ");
  
  note(log);
  bool threw = false;
  try {f();} catch (const std::exception &) {threw = true;}
  CHECKP(prop, threw == !ok, threw ? "an operation that must succeed was refused:" : "an operation that must be refused was accepted:", what);
  (ok ? accepted : refused)++;
 }

 std::string name()
 {
  static const char *n[] = {"a", "b", "_c", "x_1", "T", "a_", "A9_z"};
  if (r.chance(1, 8))
  {
   static const std::string bad[] = {"", "1a", "a__b", "__", "a b", "a-", "\xc3\xa9", std::string("a\0b", 3), "a\n", "a@", "a[", "`", "{", "/", ":", "9", "__a", "a__"};
   return bad[r.below(std::size(bad))];
  }
  return n[r.below(std::size(n))];
 }
 int table() {return m.t.empty() || r.chance(1, 8) ? int(r.chance(1, 6) ? 65535 : r.below(uint64_t(m.last_table) + 2)) : std::next(m.t.begin(), r.below(m.t.size()))->first;}
 int field(int t)
 {
  auto it = m.t.find(t);
  if (it == m.t.end() || it->second.fields.empty() || r.chance(1, 8)) return int(r.chance(1, 6) ? 65535 : r.below(6));
  return std::next(it->second.fields.begin(), r.below(it->second.fields.size()))->first;
 }
 bool table_named(const std::string &n) {for (auto &x: m.t) if (x.second.name == n) return true; return false;}
 bool field_named(const MTable &t, const std::string &n) {for (auto &x: t.fields) if (x.second.name == n) return true; return false;}
 static constexpr int64_t ext[] = {INT64_MIN, -1, -2, INT64_MAX, INT64_MAX - 1, 1ll << 62, 1ll << 32};
 index_t record(const MTable *t)
 {
  if (t && !t->used.empty() && r.chance(1, 2)) return *std::next(t->used.begin(), r.below(t->used.size()));
  if (r.chance(1, 8)) return r.chance(1, 2) ? -1 : ext[r.below(max >= 0 ? 7 : 3)];
  return r.in(0, t ? t->size + 3 : 5);
 }
 static void grow(MTable &t, index_t last) {t.size = std::max(t.size, last + 1);}
 static void add(MTable &t, index_t rec) {t.used.insert(rec); grow(t, rec); for (auto &f: t.fields) f.second.v.erase(rec);}

 void schema_op()
 {
  const int t = table();
  MTable *mt = m.t.count(t) ? &m.t[t] : nullptr;
  const std::string n = name();
  switch (r.below(8))
  {
   case 0: case 1: if (m.t.size() < 4 || r.chance(1, 4))
   {
    const bool ok = valid_name(n) && !table_named(n);
    run(ok, "create_table " + n, "C11", [&]{d.create_table(n);});
    if (ok) {m.t[++m.last_table].name = n; m.t[m.last_table].size = 0;}
   } break;
   case 2: if (r.chance(1, 3))
   {
    run(mt, str("drop_table", t), "C11", [&]{d.drop_table(Table_Id(t));});
    m.t.erase(t);
   } break;
   case 3:
   {
    const bool ok = valid_name(n) && !table_named(n) && mt;
    run(ok, str("rename_table", t, n), "C11", [&]{d.rename_table(Table_Id(t), n);});
    if (ok) mt->name = n;
   } break;
   case 4: case 5: if (!mt || mt->fields.size() < 4 || r.chance(1, 4))
   {
    const int type = 1 + int(r.below(10));
    const int rt = int(r.below(4));
    const bool ok = valid_name(n) && mt && !field_named(*mt, n);
    run(ok, str("add_field", t, n, "type", type), "C11", [&]{d.add_field(Table_Id(t), n, Type::Type_Id(type) == Type::Type_Id::reference ? Type::reference(Table_Id(rt)) : Type(Type::Type_Id(type)));});
    if (ok) mt->fields[++mt->last_field] = {n, type, rt, {}};
   } break;
   case 6: if (r.chance(1, 3))
   {
    const int f = field(t);
    const bool ok = mt && mt->fields.count(f);
    run(ok, str("drop_field", t, f), "C11", [&]{d.drop_field(Table_Id(t), Field_Id(f));});
    if (ok) mt->fields.erase(f);
   } break;
   default:
   {
    const int f = field(t);
    const bool ok = valid_name(n) && mt && mt->fields.count(f) && !field_named(*mt, n);
    run(ok, str("rename_field", t, f, n), "C11", [&]{d.rename_field(Table_Id(t), Field_Id(f), n);});
    if (ok) mt->fields[f].name = n;
   }
  }
 }

 bool all(const MTable &t, index_t i, size_t n, bool used)
 {
  for (size_t k = 0; k < n; k++) if (t.used.count(i + index_t(k)) != used) return false;
  return true;
 }

 void record_op()
 {
  const int t = table();
  MTable *mt = m.t.count(t) ? &m.t[t] : nullptr;
  const index_t i = record(mt);
  switch (r.below(9))
  {
   case 0: case 1:
   {
    const bool ok = mt && i >= 0 && (max < 0 || i <= max) && !mt->used.count(i);
    run(ok, str("insert", t, i), "C10", [&]{d.insert_into(Table_Id(t), Record_Id(i));});
    if (ok) add(*mt, i);
   } break;
   case 2: case 3:
   {
    size_t n = 1 + r.below(6);
    index_t j = r.chance(1, 2) && mt ? mt->size : i;
    bool wide = mt && !mt->fields.empty();
    if (mt) for (auto &f: mt->fields) wide = wide && f.second.type != int(Type::Type_Id::boolean) && f.second.type != int(Type::Type_Id::int8) && f.second.type != int(Type::Type_Id::int16);
    if (r.chance(1, 8))
    {
     // cannot be stored, or overflows
     if (max >= 0) {if (r.chance(1, 2)) n = size_t(max) + r.below(3); else n = size_t(ext[r.below(7)]);}
     else if (mt && j == mt->size && wide && d.get_freedom(Table_Id(t)).is_dense() && r.chance(1, 2)) n = size_t(1) << 62;
     else n = (size_t(1) << 63) + (r.chance(1, 2) ? 0 : size_t(0) - uint64_t(r.in(1, 9)) + (size_t(1) << 63));
     if (n == 0) n = 1;
    }
    const bool over = n > 1000 || j < 0 || j > 1000000;
    const bool ok = mt && !over && (max < 0 || (j < max && n < size_t(max))) && all(*mt, j, n, false);
    run(ok, str("insert_vector", t, j, n), "C10", [&]{d.insert_vector(Table_Id(t), Record_Id(j), n);});
    if (ok) for (size_t k = 0; k < n; k++) add(*mt, j + index_t(k));
   } break;
   case 4:
   {
    const bool ok = mt && mt->used.count(i);
    run(ok, str("delete", t, i), "C10", [&]{d.delete_from(Table_Id(t), Record_Id(i));});
    if (ok) {mt->used.erase(i); for (auto &f: mt->fields) f.second.v.erase(i);}
   } break;
   case 5:
   {
    size_t n = 1 + r.below(4);
    if (r.chance(1, 8)) n = r.chance(1, 2) ? size_t(ext[r.below(7)]) : size_t(0) - uint64_t(r.in(1, 9));
    const bool ok = mt && n < 1000 && i >= 0 && all(*mt, i, n, true);
    run(ok, str("delete_vector", t, i, n), "C10", [&]{d.delete_vector(Table_Id(t), Record_Id(i), n);});
    if (ok) for (size_t k = 0; k < n; k++) {mt->used.erase(i + index_t(k)); for (auto &f: mt->fields) f.second.v.erase(i + index_t(k));}
   } break;
   default: update(t, mt, i);
  }
 }

 void update(int t, MTable *mt, index_t i)
 {
  const int f = field(t);
  MField *mf = mt && mt->fields.count(f) ? &mt->fields[f] : nullptr;
  const int type = mf && !r.chance(1, 10) ? mf->type : 1 + int(r.below(10));
  const bool vec = r.chance(1, 3);
  const size_t n = vec ? 1 + r.below(4) : 1;
  const index_t last = index_t(uint64_t(i) + n - 1);
  const bool ok = mf && mf->type == type && mt->used.count(i) && mt->used.count(last);
  switch (Type::Type_Id(type))
  {
   #define TYPE_MACRO(type, return_type, type_id, R, W)\
   case Type::Type_Id::type_id:\
   {\
    std::vector<type> v(n);\
    for (auto &x: v) some_value(r, x);\
    if (vec) run(ok, str("update_vector_" #type_id, t, i, f, n), "C10", [&]{d.update_vector_##type_id(Table_Id(t), Record_Id(i), Field_Id(f), n, v.data());});\
    else run(ok, str("update_" #type_id, t, i, f), "C10", [&]{d.update_##type_id(Table_Id(t), Record_Id(i), Field_Id(f), v[0]);});\
    if (ok) for (size_t k = 0; k < n; k++) if (mt->used.count(i + index_t(k))) mf->v[i + index_t(k)] = h::show(v[k]);\
   } break;
   #include "joedb/TYPE_MACRO.h"
   default: break;
  }
 }
};

static void history(uint64_t id)
{
 History x(id);
 note(x.log);
 const int steps = int(x.r.in(5, 70));
 const int sch = int(x.r.in(1, 5));
 for (int s = 0; s < steps; s++)
 {
  if (s < 4 || int(x.r.below(10)) < sch) x.schema_op(); else x.record_op();
  compare(x.d, x.m, "");
 }
 eval(x.accepted > 2 && x.refused > 0);
 if (id < 2) sample(x.log.substr(0, 500));
}

// identifiers are exhausted, never reused
static void exhaustion()
{
 note("exhaustion of table identifiers");
 {
  Database d;
  std::set<int> seen;
  d.create_table("keep");
  d.add_field(Table_Id(1), "f", Type::int32());
  seen.insert(1);
  bool refused = false;
  for (int i = 0; i < 70000 && !refused; i++)
  {
   const auto before = d.get_tables();
   try {d.create_table("t");} catch (const std::exception &) {refused = true;}
   if (refused) {CHECKP("C11", d.get_tables() == before, "a refused creation changes nothing"); break;}
   int id = 0, n = 0;
   for (auto &[k, v]: d.get_tables()) {n++; if (v == "t") id = to_underlying(k);}
   CHECKP("C11", n == 2 && id > 0 && seen.insert(id).second, "table identifier reused", id, "after", i);
   CHECKP("C11", d.get_fields(Table_Id(1)).size() == 1, "another table was changed");
   d.drop_table(Table_Id(id));
  }
  CHECKP("C11", refused && seen.size() > 60000, "creation is refused once identifiers are exhausted", seen.size());
 }
 note("exhaustion of field identifiers");
 {
  Database d;
  std::set<int> seen;
  d.create_table("keep");
  bool refused = false;
  for (int i = 0; i < 70000 && !refused; i++)
  {
   const auto before = d.get_fields(Table_Id(1));
   try {d.add_field(Table_Id(1), "t", Type::int32());} catch (const std::exception &) {refused = true;}
   if (refused) {CHECKP("C11", d.get_fields(Table_Id(1)) == before, "a refused creation changes nothing"); break;}
   int id = 0, n = 0;
   for (auto &[k, v]: d.get_fields(Table_Id(1))) {n++; id = to_underlying(k);}
   CHECKP("C11", n == 1 && id > 0 && seen.insert(id).second, "field identifier reused", id, "after", i);
   d.drop_field(Table_Id(1), Field_Id(id));
  }
  CHECKP("C11", refused && seen.size() > 60000, "creation is refused once identifiers are exhausted", seen.size());
 }
 eval();
}

static void identifiers()
{
 note("names");
 for (int a = 0; a < 256; a++)
  for (int b = -1; b < 256; b++)
  {
   std::string s(1, char(a));
   if (b >= 0) s += char(b);
   CHECKP("C11", is_identifier(s) == valid_name(s), "is_identifier", a, b);
  }
 static const char alphabet[] = {'a', 'Z', '0', '9', '_', '_', '@', '{'};
 Rng r(1);
 for (int i = 0; i < 300000; i++)
 {
  std::string s;
  for (uint64_t n = r.below(8); n-- > 0;) s += alphabet[r.below(r.chance(1, 4) ? 8 : 6)];
  CHECKP("C11", is_identifier(s) == valid_name(s), "is_identifier", s);
 }
 eval();
}

int main()
{
 if (wants("C11")) identifiers();
 if (wants("C11") && true) exhaustion();
 const uint64_t n = 4000 * effort;
 for (uint64_t i = 0; i < n && !time_up(); i++) history(i);
 return done();
}
