// sources: auto
// generate: encoded_file
// flags: -fsanitize=address,undefined -fno-sanitize-recover=undefined
// C15: Encoded_File against a byte array, over a journal in an in-memory file,
// with several codecs, failing decoders, failing files and reopenings.
#include "h.h"
#include "joedb/journal/Encoded_File.h"
#include "joedb/journal/Identity_Codec.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/db/encoded_file/Writable_Database.h"
#include "joedb/db/encoded_file/Readonly_Database.h"

using namespace joedb;
namespace joedb::db::encoded_file {}
namespace enc = joedb::db::encoded_file;

namespace
{
 // inverts itself; the encoding has another size and hides its contents
 struct Mix: public Codec
 {
  int64_t decodes = 0, fail_at = -1;
  size_t fail_prefix = 0;
  std::string encode(const std::string_view d) override
  {
   std::string r = "<" + std::to_string(d.size()) + ">";
   for (size_t i = 0; i < d.size(); i++) r += char(d[i] ^ char(i * 37 + 11));
   return r;
  }
  void decode(const std::string_view e, char *d, size_t n) override
  {
   const std::string p = "<" + std::to_string(n) + ">";
   CHECK(e.size() == p.size() + n && e.substr(0, p.size()) == p);
   if (++decodes == fail_at || fail_at == -2)
   {
    for (size_t i = 0; i < std::min(n, fail_prefix); i++) d[i] = char(0xEE);
    throw Exception("decoding failed");
   }
   for (size_t i = 0; i < n; i++) d[i] = char(e[p.size() + i] ^ char(i * 37 + 11));
  }
 };
 struct Model
 {
  std::string data;
  std::vector<bool> def;   // written at least once
  void write(const std::string &b, int64_t o)
  {
   if (o + b.size() > data.size()) {data.resize(o + b.size()); def.resize(o + b.size());}
   memcpy(&data[o], b.data(), b.size());
   std::fill(def.begin() + o, def.begin() + o + b.size(), true);
  }
  // size of the readable part of a range: up to the last written byte in it
  size_t readable(int64_t o, size_t n) const
  {
   for (int64_t e = std::min<int64_t>(o + n, data.size()); e > o; e--) if (def[e - 1]) return e - o;
   return 0;
  }
 };
 void check_read(const Abstract_File &f, const Model &m, int64_t o, size_t n, const std::string &what)
 {
  std::vector<char> b(n + 32, char(0x5A));
  const size_t r = f.pread(b.data() + 16, n, o);
  CHECK(r == m.readable(o, n), what, "returned", r, "instead of", m.readable(o, n), "offset", o, "size", n, "file size", m.data.size());
  for (size_t i = 0; i < r; i++) CHECK(!m.def[o + i] || b[16 + i] == m.data[o + i], what, "byte", o + i, "offset", o, "size", n);
  for (size_t i = 0; i < 16; i++) CHECK(b[i] == 0x5A && b[n + 16 + i] == 0x5A, what, "wrote outside of the buffer");
  h::eval(r > 0);
 }
 void reads(const Abstract_File &f, const Model &m, h::Rng &r, int k, int64_t maxo, const std::string &what)
 {
  CHECK(f.get_size() == int64_t(m.data.size()), what, f.get_size(), m.data.size());
  for (int i = 0; i < k; i++)
  {
   int64_t o = r.in(0, maxo);
   size_t n = size_t(r.in(0, r.chance(1, 3) ? maxo : 20));
   if (r.chance(1, 8)) o = m.data.size() + r.in(0, 3);
   check_read(f, m, o, n, what);
  }
  check_read(f, m, 0, m.data.size() + 3, what);
 }
 template<typename C> void scenario(uint64_t k, bool big, bool holes)
 {
  h::Rng r(k * 3 + big);
  h::TFile store(Open_Mode::write_existing_or_create_new);
  Model m;
  const int64_t unit = big ? (1 << 20) : 64;
  const int sessions = int(r.in(1, 3));
  for (int s = 0; s < sessions; s++)
  {
   const std::string what = h::str("scenario", k, big, holes, "session", s);
   h::note(what);
   {
    enc::Writable_Database db(store);
    C codec;
    Encoded_File f(codec, db);
    reads(f, m, r, 3, 2 * unit, what + "after opening");
    const int ops = big ? 8 : int(r.in(1, 25));
    for (int i = 0; i < ops; i++)
    {
     const int a = int(r.in(0, 9));
     if (a < 6)
     {
      int64_t o = m.data.size();
      const int p = int(r.in(0, 4));
      if (p == 0) o = r.in(0, int64_t(m.data.size()));
      else if (p == 1 && m.data.size() > 4) o = m.data.size() - r.in(1, 4);
      else if (p == 2 && holes) o = m.data.size() + r.in(0, 7);
      size_t n = size_t(r.in(1, 16));
      if (big)
      {
       const int64_t c[] = {1, 7, unit - 1, unit, unit + 1, unit / 2, unit / 2 + 1};
       n = size_t(c[r.below(7)]);
      }
      std::string b = r.bytes(n);
      f.pwrite(b.data(), n, o);
      m.write(b, o);
      if (r.chance(1, 3)) reads(f, m, r, 2, int64_t(m.data.size()) + 4, what + "after a write");
     }
     else if (a < 7) f.sync();
     else reads(f, m, r, 2, int64_t(m.data.size()) + 4, what + "read");
    }
    CHECK(f.get_size() == int64_t(m.data.size()), what);
    if (r.chance(1, 2)) f.sync();
   }
   {
    h::TFile rf(Open_Mode::read_existing, store.s, int(k % 4));
    enc::Readonly_Database db(rf);
    C codec;
    Readonly_Encoded_File f(codec, db, rf);
    struct A: public Abstract_File   // pread is protected there
    {
     const Abstract_File &f;
     A(const Abstract_File &f): Abstract_File(Open_Mode::read_existing), f(f) {}
     int64_t get_size() const override {return f.get_size();}
     size_t pread(char *b, size_t n, int64_t o) const override {return f.pread(b, n, o);}
    };
    reads(f, m, r, 10, int64_t(m.data.size()) + 4, what + "reopened");
   }
  }
 }
 // a block that cannot be decoded fails, then everything can still be read
 void failures(uint64_t k)
 {
  h::Rng r(k + 1000);
  h::TFile store(Open_Mode::write_existing_or_create_new);
  Model m;
  enc::Writable_Database db(store);
  Mix codec;
  Encoded_File f(codec, db);
  const int blocks = int(r.in(2, 6));
  for (int i = 0; i < blocks; i++)
  {
   std::string b = r.bytes(size_t(r.in(1, 40)));
   int64_t o = r.chance(2, 3) ? int64_t(m.data.size()) : r.in(0, int64_t(m.data.size()));
   f.pwrite(b.data(), b.size(), o);
   m.write(b, o);
   f.sync();
  }
  for (int i = 0; i < 30; i++)
  {
   h::note(h::str("failures", k, i));
   codec.decodes = 0;
   codec.fail_at = r.chance(1, 2) ? r.in(1, 3) : -1;
   codec.fail_prefix = size_t(r.in(0, 40));
   const int64_t o = r.in(0, int64_t(m.data.size()));
   const size_t n = size_t(r.in(1, 30));
   const int64_t fail = codec.fail_at;
   std::vector<char> b(n);
   const bool t = h::throws([&]() {f.pread(b.data(), n, o);});
   CHECK(t == (fail > 0 && codec.decodes == fail), "a decoding error is reported");
   codec.fail_at = -1;
   check_read(f, m, r.in(0, int64_t(m.data.size())), size_t(r.in(1, 8)), "after a failed block");
  }
  check_read(f, m, 0, m.data.size() + 5, "after failed blocks");
 }
 // the file below fails: what was accepted before can still be read, or the
 // operation is reported
 void read_failures(uint64_t k)
 {
  h::Rng r(k + 5000);
  h::TFile store(Open_Mode::write_existing_or_create_new);
  Model m;
  enc::Writable_Database db(store);
  Mix codec;
  Encoded_File f(codec, db);
  for (int i = 0; i < 5; i++)
  {
   std::string b = r.bytes(size_t(r.in(1, 40)));
   f.pwrite(b.data(), b.size(), int64_t(m.data.size()));
   m.write(b, int64_t(m.data.size()));
   f.sync();
  }
  for (int i = 0; i < 30; i++)
  {
   h::note(h::str("read failures", k, i));
   store.s->countdown = r.in(0, 2);
   std::vector<char> b(100);
   const int64_t o = r.in(0, int64_t(m.data.size()));
   const size_t n = size_t(r.in(1, 60));
   size_t got = 0;
   const bool t = h::throws([&]() {got = f.pread(b.data(), n, o);});
   if (!t) CHECK(got == m.readable(o, n));
   store.s->countdown = -1;
   check_read(f, m, r.in(0, int64_t(m.data.size())), size_t(r.in(1, 60)), "after a failed read");
  }
 }
}
int main()
{
 h::sample("random writes and reads against a byte array, identity and length-changing codecs, sessions");
 for (uint64_t k = 0; k < 150 * h::effort && !h::time_up(); k++)
 {
  scenario<Mix>(k, false, false);
  scenario<Identity_Codec>(k, false, true);
  failures(k);
  read_failures(k);
 }
 for (uint64_t k = 0; k < 3 * h::effort && !h::time_up(); k++)
 {
  scenario<Mix>(k, true, k & 1);
  scenario<Identity_Codec>(k, true, k & 1);
 }
 return h::done();
}
