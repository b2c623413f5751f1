// sources: auto
// flags: -fsanitize=address,undefined -fno-sanitize-recover=undefined
// C17: values and databases written as text by the dump are read back as they were.
#include "rec.h"
#include "joedb/ui/type_io.h"
#include "joedb/ui/dump.h"
#include "joedb/ui/Interpreter_Dump_Writable.h"
#include "joedb/ui/Interpreter.h"
#include "joedb/interpreted/Database.h"
#include "joedb/Multiplexer.h"
#include <cmath>
#include <limits>

using namespace h;

using joedb::write_string;
static std::string printable(const std::string &s)
{
 std::string r;
 char b[8];
 for (unsigned char c: s) if (c >= 32 && c < 127 && c != '\\') r += char(c); else {snprintf(b, 8, "\\x%02x", c); r += b;}
 return r;
}
static std::string rest(std::istream &in)
{
 in.clear();
 return std::string(std::istreambuf_iterator<char>(in), {});
}
static void string_case(const std::string &s, int spaces, const std::string &suffix)
{
 g_eval++;
 if (s.size()) g_nontrivial++;
 std::ostringstream out;
 write_string(out, s);
 const std::string text = out.str();
 const std::string w = "string '" + printable(s) + "' written as '" + printable(text) + "' followed by '" + printable(suffix) + "'";
 std::istringstream in(std::string(spaces, ' ') + text + suffix);
 const std::string r = read_string(in);
 CHECK(r == s, w + ": read back as '" + printable(r) + "'");
 const std::string left = rest(in);
 CHECK(left == suffix, w + ": '" + printable(left) + "' is left in the stream");
 CHECK(text.find('\n') == std::string::npos, w + ": a line break in a command");
}
static void strings()
{
 static const std::string suffixes[] = {"", " ", " tail", "\"", "\\", " \"x\"", "0", "\xc3\xa9"};
 string_case("", 0, ""); string_case("", 1, " x"); string_case("", 0, "\"");
 unsigned k = 0;
 for (int a = 0; a < 256; a++) for (auto &s: suffixes) string_case(std::string(1, char(a)), a % 3, s);
 for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) string_case({char(a), char(b)}, k % 3, suffixes[k % 8]), k++;
 static const unsigned char cls[] = {0, 1, 7, 9, 10, 13, 0x1f, ' ', '"', '\\', '?', '0', '7', '8', 'x', 'n', 'a', 0x7f, 0x80, 0xbf, 0xc2, 0xdf, 0xe0, 0xef, 0xf0, 0xf7, 0xf8, 0xff};
 for (auto a: cls) for (auto b: cls) for (auto c: cls)
 {
  string_case({char(a), char(b), char(c)}, k % 3, suffixes[k % 8]), k++;
  if (time_up()) return;
 }
 for (auto b: cls) for (auto c: cls) for (auto d: cls) for (unsigned char a: {0xe2, 0xf0, 0xf4, 0xc3, 0x3f, 0x5c})
  string_case({char(a), char(b), char(c), char(d)}, k % 3, suffixes[k % 8]), k++;
 for (uint64_t i = 0; i < 20000 * effort && !time_up(); i++)
 {
  Rng r(i);
  std::string s;
  const size_t n = r.below(r.chance(1, 10) ? 300 : 12);
  for (size_t j = 0; j < n; j++) s += r.chance(1, 3) ? char(r.next()) : char(cls[r.below(sizeof cls)]);
  string_case(s, int(r.below(3)), suffixes[r.below(8)]);
 }
}
template<typename T> static bool same(const T &a, const T &b) {return a == b;}
static bool same(float a, float b) {return (std::isnan(a) && std::isnan(b)) || show(a) == show(b);}
static bool same(double a, double b) {return (std::isnan(a) && std::isnan(b)) || show(a) == show(b);}
// the known finding float_precision: a value that needs more than 6 significant digits is written with 6
static bool same(Blob a, Blob b) {return a.get_position() == b.get_position() && a.get_size() == b.get_size();}

template<typename T> static T six(T v) {return v;}
static double six(double v) {char b[64]; snprintf(b, sizeof b, "%g", v); return std::strtod(b, nullptr);}
static float six(float v) {char b[64]; snprintf(b, sizeof b, "%g", double(v)); return std::strtof(b, nullptr);}
static void six_digits(const char *type, const std::string &value, const std::string &text)
{
 static bool done = false;
 if (!done) std::cout << "KNOWN float_precision " << type << ' ' << value << " is written as " << text << '\n';
 done = true;
}
template<typename T, typename R, typename W> static void value_case(const T &v, const char *type, R read, W write)
{
 g_eval++;
 g_nontrivial++;
 std::ostringstream out;
 write(out, v);
 for (const char *suffix: {"", " 77"})
 {
  std::istringstream in(out.str() + suffix);
  const T r = read(in);
  const bool good = !in.fail();
  if (good && !same(r, v) && same(r, six(v))) six_digits(type, show(v), out.str());
  else CHECK(good && same(r, v), std::string(type) + " " + show(v) + " written as '" + printable(out.str()) + "' is read back as " + show(r) + (good ? "" : " with an error"));
  CHECK(rest(in) == suffix, std::string(type) + " " + show(v) + ": the wrong text is consumed");
 }
}
static void values()
{
 #define V(t, v) value_case(v, #t, [](std::istream &i) {return read_##t(i);}, [](std::ostream &o, auto x) {write_##t(o, x);})
 for (int i = -128; i < 128; i++) V(int8, int8_t(i));
 for (int i = -32768; i < 32768; i += 7) V(int16, int16_t(i));
 V(int16, int16_t(32767));
 for (int32_t x: {INT32_MIN, INT32_MIN + 1, -1, 0, 1, INT32_MAX}) V(int32, x);
 for (int64_t x: {INT64_MIN, INT64_MIN + 1, -1l, 0l, 1l, INT64_MAX}) {V(int64, x); V(reference, Record_Id(x));}
 value_case(char(0), "boolean", [](std::istream &i) {return char(read_boolean(i));}, [](std::ostream &o, char x) {write_boolean(o, x);});
 value_case(char(1), "boolean", [](std::istream &i) {return char(read_boolean(i));}, [](std::ostream &o, char x) {write_boolean(o, x);});
 for (double d: {0.0, -0.0, 0.1, 1.0 / 3, 1e6, 123456789.0, 1e22, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1e-7})
 {
  V(float64, d);
  if (std::fabs(d) < 1e30) V(float32, float(d));
 }
 V(float64, HUGE_VAL); V(float64, -HUGE_VAL); V(float64, std::nan("")); V(float64, -std::nan(""));
 V(float32, HUGE_VALF); V(float32, -HUGE_VALF); V(float32, std::nanf(""));
 V(float32, std::numeric_limits<float>::denorm_min()); V(float32, std::numeric_limits<float>::max());
 for (uint64_t i = 0; i < 20000 * effort && !time_up(); i++)
 {
  Rng r(i + 1000000);
  int32_t a; some_value(r, a); V(int32, a);
  int64_t b; some_value(r, b); V(int64, b);
  Record_Id c; some_value(r, c); V(reference, c);
  int64_t p = some_int(r), n = some_int(r); V(blob, Blob(p, n));
  float f; some_value(r, f); V(float32, f);
  double d; some_value(r, d); V(float64, d);
  V(float64, double(int64_t(r.next() >> r.below(60))) / 1000);
 }
}
static std::string value(const Readable &d, Table_Id t, Record_Id r, Field_Id f)
{
 switch (d.get_field_type(t, f).get_type_id())
 {
  case Type::Type_Id::null: break;
  #define TYPE_MACRO(type, return_type, type_id, R, W)\
  case Type::Type_Id::type_id: return show(type(d.get_##type_id(t, r, f)));
  #include "joedb/TYPE_MACRO.h"
 }
 return "?";
}
// contents, with tables and fields named rather than numbered
static std::vector<std::string> contents(const Readable &d)
{
 std::vector<std::string> r;
 for (auto &[t, name]: d.get_tables())
 {
  r.push_back("table " + name);
  for (auto &[f, fname]: d.get_fields(t))
  {
   const Type &ty = d.get_field_type(t, f);
   std::string target;
   if (ty.get_type_id() == Type::Type_Id::reference) target = " -> " + d.get_tables().at(ty.get_table_id());
   r.push_back("field " + name + "." + fname + " type " + std::to_string(int(ty.get_type_id())) + target);
  }
  for (Record_Id i{0}; i < d.get_size(t); ++i) if (d.is_used(t, i))
  {
   std::string s = "record " + name + rid(i) + ":";
   for (auto &[f, fname]: d.get_fields(t)) s += " " + fname + "=" + value(d, t, i, f);
   r.push_back(s);
  }
 }
 return r;
}
static void same_lines(const std::vector<std::string> &a, const std::vector<std::string> &b, const std::string &what)
{
 for (size_t i = 0; i < std::max(a.size(), b.size()); i++)
 {
  const std::string x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
  CHECK(x == y, what + ": '" + printable(x) + "' becomes '" + printable(y) + "'");
 }
}
// a value whose text form is not finer than its contents (NaN payloads are not kept; 6 digits)
static void nan_out(float &f) {f = std::isnan(f) ? 1.5f : six(f);}
static void nan_out(double &f) {f = std::isnan(f) ? 1.5 : six(f);}
template<typename T> static void nan_out(T &) {}

static void history(uint64_t id)
{
 Rng r(id + 5000000);
 Database db;
 Recorder rec;
 rec.loops = true;
 std::ostringstream text, log;
 Interpreter_Dump_Writable dumper(text);
 int counter = 0;
 const size_t n = r.below(60) + 3;
 auto each = [&](auto f)
 {
  f((Writable &)db); f((Writable &)rec); f((Writable &)dumper);
 };
 auto name = [&]() {return (r.chance(1, 3) ? "_x" : r.chance(1, 2) ? "A" : "abc") + std::to_string(++counter);};
 for (size_t i = 0; i < n; i++)
 {
  g_eval++;
  std::vector<Table_Id> ts;
  for (auto &[t, x]: db.get_tables()) ts.push_back(t);
  if (ts.empty() || r.chance(1, 8))
  {
   const std::string s = name();
   each([&](Writable &w) {w.create_table(s);});
   continue;
  }
  const Table_Id t = ts[r.below(ts.size())];
  std::vector<Field_Id> fs;
  for (auto &[f, x]: db.get_fields(t)) fs.push_back(f);
  std::vector<Record_Id> rs;
  for (Record_Id k{0}; k < db.get_size(t); ++k) if (db.is_used(t, k)) rs.push_back(k);
  switch (r.below(20))
  {
   case 0: case 1: case 2:
   {
    const std::string s = name();
    const Type ty = r.chance(1, 4) ? Type::reference(ts[r.below(ts.size())]) : Type(Type::Type_Id(1 + r.below(Type::type_ids - 1)));
    if (ty.get_type_id() == Type::Type_Id::reference && ty.get_table_id() == Table_Id(0)) continue;
    each([&](Writable &w) {w.add_field(t, s, ty);});
   }
   break;
   case 3: if (fs.size() && r.chance(1, 3)) {const Field_Id f = fs[r.below(fs.size())]; each([&](Writable &w) {w.drop_field(t, f);});} break;
   case 4: if (fs.size()) {const Field_Id f = fs[r.below(fs.size())]; const std::string s = name(); each([&](Writable &w) {w.rename_field(t, f, s);});} break;
   case 5: {const std::string s = name(); each([&](Writable &w) {w.rename_table(t, s);});} break;
   case 6:
   {
    bool referenced = false;
    for (auto &[u, x]: db.get_tables()) for (auto &[f, y]: db.get_fields(u))
     if (db.get_field_type(u, f).get_type_id() == Type::Type_Id::reference && db.get_field_type(u, f).get_table_id() == t) referenced = true;
    if (!referenced && r.chance(1, 3)) each([&](Writable &w) {w.drop_table(t);});
   }
   break;
   case 7: {const std::string s = some_string(r); each([&](Writable &w) {w.comment(s);});} break;
   case 8: {const int64_t s = some_int(r); each([&](Writable &w) {w.timestamp(s);});} break;
   case 9: each([&](Writable &w) {w.valid_data();}); break;
   case 10: {const std::string s = name(); each([&](Writable &w) {w.custom(s);}); each([&](Writable &w) {w.soft_checkpoint();});} break;
   case 11: case 12:
   {
    const Record_Id k = db.get_size(t) + r.below(3);
    if (r.chance(1, 2)) each([&](Writable &w) {w.insert_into(t, k);});
    else {const size_t m = 1 + r.below(5); each([&](Writable &w) {w.insert_vector(t, k, m);});}
   }
   break;
   case 13:
    if (rs.size() && r.chance(1, 2))
    {
     const size_t b = r.below(rs.size());
     size_t m = 1;
     while (b + m < rs.size() && rs[b + m] == rs[b] + m && r.chance(2, 3)) m++;
     if (m == 1 && r.chance(1, 2)) each([&](Writable &w) {w.delete_from(t, rs[b]);});
     else each([&](Writable &w) {w.delete_vector(t, rs[b], m);});
    }
   break;
   default:
   if (rs.size() && fs.size())
   {
    g_nontrivial++;
    const Field_Id f = fs[r.below(fs.size())];
    const size_t b = r.below(rs.size());
    size_t m = 1;
    while (b + m < rs.size() && rs[b + m] == rs[b] + m && r.chance(2, 3)) m++;
    const bool one = m == 1 && r.chance(1, 2);
    switch (db.get_field_type(t, f).get_type_id())
    {
     case Type::Type_Id::null: break;
     #define TYPE_MACRO(type, return_type, type_id, R, W)\
     case Type::Type_Id::type_id:\
     {\
      std::unique_ptr<type[]> v(new type[m]);\
      for (size_t j = 0; j < m; j++) {some_value(r, v[j]); nan_out(v[j]);}\
      if (one) each([&](Writable &w) {w.update_##type_id(t, rs[b], f, v[0]);});\
      else each([&](Writable &w) {w.update_vector_##type_id(t, rs[b], f, m, v.get());});\
     }\
     break;
     #include "joedb/TYPE_MACRO.h"
    }
   }
  }
 }
 g_case = "history " + std::to_string(id);
 // the log of the operations, interpreted
 {
  Database db2;
  Recorder rec2;
  rec2.loops = true;
  Multiplexer both{db2, rec2};
  Interpreter interpreter(db2, both, Record_Id{100000});
  interpreter.set_rethrow(true);
  interpreter.set_echo(false);
  std::istringstream in(text.str());
  try {interpreter.main_loop(in, log);}
  catch (const Exception &e) {CHECK(false, std::string("the log of a history is refused: ") + e.what());}
  same_lines(rec.ops, rec2.ops, "operation read from the log");
  same_lines(contents(db), contents(db2), "database rebuilt from the log");
 }
 // the dump of the final state, interpreted
 {
  std::ostringstream state;
  {
   Interpreter_Dump_Writable w(state);
   dump(db, w);
  }
  Database db2;
  Interpreter interpreter(db2, db2, Record_Id{100000});
  interpreter.set_rethrow(true);
  interpreter.set_echo(false);
  std::istringstream in(state.str());
  try {interpreter.main_loop(in, log);}
  catch (const Exception &e) {CHECK(false, std::string("the dump of a database is refused: ") + e.what());}
  same_lines(contents(db), contents(db2), "database rebuilt from its dump");
 }
 if (id < 3) sample(g_case + ": " + std::to_string(rec.ops.size()) + " operations, log of " + std::to_string(text.str().size()) + " bytes");
}
// a field that references a dropped table has no text form
static void dangling()
{
 Database db;
 db.create_table("a");
 db.create_table("b");
 db.add_field(Table_Id(1), "f", Type::reference(Table_Id(2)));
 db.drop_table(Table_Id(2));
 std::ostringstream state, log;
 {
  Interpreter_Dump_Writable w(state);
  dump(db, w);
 }
 Database db2;
 Interpreter interpreter(db2, db2, Record_Id{100000});
 interpreter.set_rethrow(true);
 interpreter.set_echo(false);
 std::istringstream in(state.str());
 try {interpreter.main_loop(in, log);}
 catch (const Exception &)
 {
  printf("KNOWN dangling_reference the dump of a database in which a field references a dropped table is refused by the interpreter\n");
 }
}
int main()
{
 dangling();
 strings();
 sample("every string of up to two bytes, three and four bytes over 28 classes, random longer ones, eight suffixes");
 values();
 for (uint64_t i = 0; i < 1500 * effort && !time_up(); i++) history(i);
 return done();
}
