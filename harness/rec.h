// A receiver that records every virtual call with its arguments, and a generator of random operations.
#ifndef VERIF_REC_H
#define VERIF_REC_H
#include "h.h"
#include "joedb/Writable.h"
#include <bit>
namespace h
{
 using namespace joedb;
 inline std::string show(const std::string &v) {return "'" + v + "'";}
 inline std::string show(std::string_view v) {return "'" + std::string(v) + "'";}
 inline std::string show(int32_t v) {return std::to_string(v);}
 inline std::string show(int64_t v) {return std::to_string(v);}
 inline std::string show(int8_t v) {return std::to_string(int(v));}
 inline std::string show(int16_t v) {return std::to_string(int(v));}
 inline std::string show(char v) {return v ? "true" : "false";}
 inline std::string show(bool v) {return v ? "true" : "false";}
 inline std::string show(float v) {uint32_t u; memcpy(&u, &v, 4); return "f" + std::to_string(u);}
 inline std::string show(double v) {uint64_t u; memcpy(&u, &v, 8); return "d" + std::to_string(u);}
 inline std::string show(Record_Id v) {return "#" + std::to_string(index_t(v));}
 inline std::string show(Blob v) {return "b" + std::to_string(v.get_position()) + "+" + std::to_string(v.get_size());}
 inline std::string tid(Table_Id t) {return " t" + std::to_string(to_underlying(t));}
 inline std::string fid(Field_Id t) {return " f" + std::to_string(to_underlying(t));}
 inline std::string rid(Record_Id t) {return " r" + std::to_string(index_t(t));}

 struct Recorder: Writable
 {
  std::vector<std::string> ops;     // journal operations
  std::vector<std::string> aux;     // positions, checkpoints, flushes
  int64_t position = 0;
  bool blobs = false;
  bool storage = false;
  bool loops = false;               // receive ranges one by one
  int fail_at = -1;                 // throw on this operation
  size_t capacity = 0;
  std::map<std::string, std::vector<std::string>> S;
  Blob next_blob{100, 3};

  void add(std::string s) {if (fail_at >= 0 && int(ops.size()) == fail_at) throw Fault(); ops.push_back(std::move(s));}
  int64_t get_position() const override {return position;}
  void start_writing(int64_t p) override {aux.push_back("start " + std::to_string(p));}
  void end_writing(int64_t p) override {aux.push_back("end " + std::to_string(p));}
  void soft_checkpoint() override {aux.push_back("soft");}
  void hard_checkpoint() override {aux.push_back("hard");}
  void flush() override {aux.push_back("flush");}
  void create_table(const std::string &n) override {add("create_table " + n);}
  void drop_table(Table_Id t) override {add("drop_table" + tid(t));}
  void rename_table(Table_Id t, const std::string &n) override {add("rename_table" + tid(t) + n);}
  void add_field(Table_Id t, const std::string &n, Type ty) override {add("add_field" + tid(t) + n + " type" + std::to_string(int(ty.get_type_id())) + tid(ty.get_table_id()));}
  void drop_field(Table_Id t, Field_Id f) override {add("drop_field" + tid(t) + fid(f));}
  void rename_field(Table_Id t, Field_Id f, const std::string &n) override {add("rename_field" + tid(t) + fid(f) + n);}
  void custom(const std::string &n) override {add("custom " + n);}
  void comment(const std::string &n) override {add("comment " + n);}
  void timestamp(int64_t t) override {add("timestamp " + std::to_string(t));}
  void valid_data() override {add("valid_data");}
  void insert_into(Table_Id t, Record_Id r) override {add("insert_into" + tid(t) + rid(r));}
  void delete_from(Table_Id t, Record_Id r) override {add("delete_from" + tid(t) + rid(r));}
  void insert_vector(Table_Id t, Record_Id r, size_t n) override
  {
   if (loops) Writable::insert_vector(t, r, n);
   else add("insert_vector" + tid(t) + rid(r) + " n" + std::to_string(n));
  }
  void delete_vector(Table_Id t, Record_Id r, size_t n) override
  {
   if (loops) Writable::delete_vector(t, r, n);
   else add("delete_vector" + tid(t) + rid(r) + " n" + std::to_string(n));
  }
  #define TYPE_MACRO(type, return_type, type_id, R, W)\
  std::vector<type> own_##type_id;\
  void update_##type_id(Table_Id t, Record_Id r, Field_Id f, return_type v) override\
  {add("update_" #type_id + tid(t) + rid(r) + fid(f) + " " + show(v));}\
  void update_vector_##type_id(Table_Id t, Record_Id r, Field_Id f, size_t n, const type *v) override\
  {\
   if (loops) {Writable::update_vector_##type_id(t, r, f, n, v); return;}\
   std::string s = "update_vector_" #type_id + tid(t) + rid(r) + fid(f) + " n" + std::to_string(n) + ":";\
   for (size_t i = 0; i < n; i++) s += " " + show(v[i]);\
   add(s);\
  }\
  type *get_own_##type_id##_storage(Table_Id t, Record_Id r, Field_Id f, size_t &c) override\
  {\
   if (!storage) {c = 0; return nullptr;}\
   if (own_##type_id.size() != capacity) own_##type_id = std::vector<type>(capacity);\
   c = capacity;\
   return (type *)(uintptr_t(own_##type_id.data()) + uintptr_t(index_t(r)) * sizeof(type)); /* not accessed unless in range */\
  }
  #include "joedb/TYPE_MACRO.h"
  void on_blob(Blob b) override {add("on_blob " + show(b));}
  bool wants_blob_data() const override {return blobs;}
  Blob write_blob(std::string_view d) override {add("write_blob " + std::string(d)); return next_blob;}
 };

 inline int64_t some_int(Rng &r)
 {
  switch (r.below(6))
  {
   case 0: return r.in(-3, 40);
   case 1: return int64_t(r.next());
   case 2: return (1ll << r.below(61)) + r.in(-1, 1);
   case 3: return -(1ll << r.below(61)) + r.in(-1, 1);
   case 4: return r.in(0, 3) * 0x2020202020202020ll;
   default: return r.in(-200, 200);
  }
 }
 inline std::string some_string(Rng &r) {return r.chance(1, 40) ? r.bytes(r.below(9000)) : r.bytes(r.chance(1, 3) ? r.below(40) : r.below(5), r.chance(1, 2) ? 256 : 4);}
 inline void some_value(Rng &r, std::string &v) {v = some_string(r);}
 inline void some_value(Rng &r, int32_t &v) {v = int32_t(some_int(r));}
 inline void some_value(Rng &r, int64_t &v) {v = some_int(r);}
 inline void some_value(Rng &r, int8_t &v) {v = int8_t(some_int(r));}
 inline void some_value(Rng &r, int16_t &v) {v = int16_t(some_int(r));}
 inline void some_value(Rng &r, char &v) {v = char(r.below(2));}
 inline void some_value(Rng &r, float &v) {uint32_t u = uint32_t(r.next()); if (r.chance(1, 3)) u = uint32_t(r.below(4)) << 30; memcpy(&v, &u, 4);}
 inline void some_value(Rng &r, double &v) {uint64_t u = r.next(); if (r.chance(1, 3)) u = r.below(4) << 62; memcpy(&v, &u, 8);}
 inline void some_value(Rng &r, Record_Id &v) {v = Record_Id(r.chance(1, 4) ? r.in(-1, 300) : r.chance(1, 3) ? (index_t(1) << r.below(60)) + r.in(-1, 1) : r.in(-1, 5));}
 inline void some_value(Rng &r, Blob &v) {v = Blob(int64_t(1) << r.below(60), int64_t(r.below(1 + (1ull << r.below(60)))));}

 // applies one random operation to each target; blob positions are those of the first one
 struct Generator
 {
  Rng rng;
  index_t last_record = 0;
  uint16_t last_table = 1, last_field = 0;
  bool allow_blob = true;
  size_t max_range = 20;
  Generator(uint64_t id): rng(id) {}
  Table_Id table() {if (!rng.chance(2, 3)) last_table = uint16_t(rng.chance(1, 10) ? rng.next() : rng.below(3)); return Table_Id(last_table);}
  Field_Id field() {if (!rng.chance(2, 3)) last_field = uint16_t(rng.chance(1, 10) ? rng.next() : rng.below(3)); return Field_Id(last_field);}
  Record_Id record()
  {
   if (rng.chance(1, 8)) some_value(rng, *new (&tmp) Record_Id);
   switch (rng.below(8))
   {
    case 0: case 1: case 2: last_record++; break;
    case 3: case 4: break;
    case 5: last_record = rng.in(0, 5); break;
    case 6: last_record = (index_t(1) << rng.below(60)) + rng.in(-1, 1); break;
    default: last_record = rng.in(0, 1000); break;
   }
   return Record_Id(last_record);
  }
  Record_Id tmp;
  // returns false for an operation that may deliver nothing (empty range update)
  template<typename F> bool step(F each)
  {
   switch (rng.below(allow_blob ? 36 : 34))
   {
    case 0: {auto n = some_string(rng); each([&](Writable &w) {w.create_table(n);});} return true;
    case 1: {auto t = table(); each([&](Writable &w) {w.drop_table(t);});} return true;
    case 2: {auto t = table(); auto n = some_string(rng); each([&](Writable &w) {w.rename_table(t, n);});} return true;
    case 3:
    {
     auto t = table(); auto n = some_string(rng);
     Type ty = rng.chance(1, 3) ? Type::reference(table()) : Type(Type::Type_Id(rng.below(Type::type_ids)));
     each([&](Writable &w) {w.add_field(t, n, ty);});
    }
    return true;
    case 4: {auto t = table(); auto f = field(); each([&](Writable &w) {w.drop_field(t, f);});} return true;
    case 5: {auto t = table(); auto f = field(); auto n = some_string(rng); each([&](Writable &w) {w.rename_field(t, f, n);});} return true;
    case 6: {auto n = some_string(rng); each([&](Writable &w) {w.custom(n);});} return true;
    case 7: {auto n = some_string(rng); each([&](Writable &w) {w.comment(n);});} return true;
    case 8: {auto n = some_int(rng); each([&](Writable &w) {w.timestamp(n);});} return true;
    case 9: each([&](Writable &w) {w.valid_data();}); return true;
    case 10: case 11: case 12: case 13: {auto t = table(); auto r = record(); each([&](Writable &w) {w.insert_into(t, r);});} return true;
    case 14: {auto t = table(); auto r = record(); each([&](Writable &w) {w.delete_from(t, r);});} return true;
    case 15: {auto t = table(); auto r = record(); size_t n = range(); each([&](Writable &w) {w.insert_vector(t, r, n);});} return true;
    case 16: {auto t = table(); auto r = record(); size_t n = range(); each([&](Writable &w) {w.delete_vector(t, r, n);});} return true;
    default:
    {
     auto t = table(); auto r = record(); auto f = field();
     const bool vec = rng.chance(1, 3);
     size_t n = rng.below(max_range);
     bool ok = true;
     switch (rng.below(10))
     {
      #define TYPE_MACRO(type, return_type, type_id, R, W)\
      case int(Type::Type_Id::type_id) - 1:\
       if (vec)\
       {\
        std::unique_ptr<type[]> v(new type[n + 1]);\
        for (size_t i = 0; i < n; i++) some_value(rng, v[i]);\
        each([&](Writable &w) {w.update_vector_##type_id(t, r, f, n, v.get());});\
        ok = n > 0;\
       }\
       else\
       {\
        type v; some_value(rng, v);\
        each([&](Writable &w) {w.update_##type_id(t, r, f, v);});\
       }\
      break;
      #include "joedb/TYPE_MACRO.h"
     }
     return ok;
    }
    case 34: case 35: {auto n = some_string(rng); each([&](Writable &w) {w.write_blob(n);});} return true;
   }
  }
  size_t range() {return max_range > 1000 && rng.chance(1, 4) ? size_t(1) << rng.below(60) : rng.below(max_range);}
 };
}
#endif
