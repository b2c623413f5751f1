// sources: auto
// flags: -fsanitize=address,undefined -fno-sanitize-recover=all -DNDEBUG
#include "h.h"
#include "joedb/journal/File_Buffer.h"
using namespace joedb;
using h::TFile;

// reference encoder, straight from the format description
static std::string enc(uint64_t x)
{
 int n = 1;
 while (n < 8 && x >= (1ull << (8 * n - 3))) n++;
 std::string r;
 for (int i = n - 1; i >= 0; i--) r += char(x >> (8 * i));
 r[0] = char(uint8_t(r[0]) | ((n - 1) << 5));
 return r;
}
template<typename T> static std::string raw(T x) {return std::string((const char *)&x, sizeof x);}

static uint64_t value(h::Rng &r)
{
 const int bits = int(r.below(62));
 uint64_t x = bits ? r.next() >> (64 - bits) : 0;
 switch (r.below(6))
 {
  case 0: {const int k = 1 + int(r.below(7)); x = (1ull << (8 * k - 3)) - 1; break;}
  case 1: {const int k = 1 + int(r.below(7)); x = (1ull << (8 * k - 3)); break;}
  case 2: x = (1ull << r.below(61)); break;
  case 3: x = (1ull << 61) - 1 - r.below(3); break;
 }
 return x & ((1ull << 61) - 1);
}

struct Item {int kind; uint64_t x; std::string s; int64_t p, n;};

int main()
{
 h::Rng r(2);
 for (uint64_t it = 0; it < 4000 * h::effort && !h::time_up(); it++)
 {
  const std::string init = r.bytes(r.chance(1, 3) ? 0 : r.below(300));
  TFile f(Open_Mode::write_existing, init);
  f.s->logging = true;
  std::string model = init;
  std::vector<Item> items;
  std::vector<int64_t> starts;
  const int64_t start = r.in(0, int64_t(init.size()));
  int64_t pos = start;
  {
   File_Buffer b(f);
   auto put = [&](const std::string &d) {if (d.empty()) return; if (model.size() < pos + d.size()) model.resize(pos + d.size()); model.replace(pos, d.size(), d); pos += d.size();};
   b.set_position(pos);
   const int nops = 1 + int(r.below(r.chance(1, 4) ? 900 : 60));
   // land close to the end of the buffer
   if (r.chance(1, 2)) {const std::string d = r.bytes(r.in(4070, 4110)); b.write_data(d.data(), d.size()); put(d); items.push_back({8, 0, d, 0, 0}); starts.push_back(start);}
   for (int k = 0; k < nops; k++)
   {
    Item i{int(r.below(10)), value(r), {}, 0, 0};
    starts.push_back(pos);
    switch (i.kind)
    {
     case 0: b.compact_write<int64_t>(int64_t(i.x)); put(enc(i.x)); break;
     case 1: b.compact_write<size_t>(i.x); put(enc(i.x)); break;
     case 2: i.x &= 0xffff; b.compact_write<uint16_t>(uint16_t(i.x)); put(enc(i.x)); break;
     case 3: {int64_t id = r.chance(1, 5) ? -1 : int64_t(i.x % ((1ull << 61) - 1)); i.p = id; b.write_reference(Record_Id(id)); put(enc(uint64_t(id + 1))); break;}
     case 4: i.p = int64_t(i.x); i.n = int64_t(value(r)); b.write_blob(Blob(i.p, i.n)); put(enc(i.p) + enc(i.n)); break;
     case 5: b.write<uint8_t>(uint8_t(i.x)); put(raw(uint8_t(i.x))); break;
     case 6: b.write<int32_t>(int32_t(i.x)); put(raw(int32_t(i.x))); break;
     case 7: b.write<int64_t>(int64_t(i.x)); put(raw(int64_t(i.x))); break;
     case 8: i.s = r.bytes(r.chance(1, 12) ? r.below(9000) : r.below(20)); b.write_data(i.s.data(), i.s.size()); put(i.s); break;
     case 9: i.s = r.bytes(r.chance(1, 12) ? r.in(3900, 4400) : r.below(40)); b.write_string(i.s); put(enc(i.s.size()) + i.s); break;
    }
    items.push_back(i);
    CHECK(b.get_position() == pos, "write position", b.get_position(), pos, "item", i.kind, "it", it);
    if (r.chance(1, 20)) {b.flush(); CHECK(f.s->data == model, "file after flush, it", it); CHECK(b.get_position() == pos, "position after flush");}
   }
   h::note(h::str("write it", it, "items", items.size(), "init", init.size(), "start", start, "pos", pos));
   b.flush();
   CHECK(f.s->data == model, "file contents after flush");
   // nothing outside [start, pos) may be written
   for (auto &o: f.s->log) CHECK(o.k != h::Op::write || (o.off >= start && o.off + o.len <= pos), "write outside the stream", o.off, o.len);
   h::eval(pos - start > 4096);
   h::eval();
  }
  // read back
  f.short_reads = int(r.below(4)); f.small_ok = r.chance(1, 2) ? 0 : 41; f.rng = h::Rng(it);
  if (model.size() > 30000 && f.short_reads == 2) f.short_reads = 1;
  File_Buffer b(f);
  b.set_position(start);
  auto check_item = [&](size_t k)
  {
   const Item &i = items[k];
   const int64_t next = k + 1 < starts.size() ? starts[k + 1] : pos;
   h::note(h::str("read it", it, "item", k, "kind", i.kind, "x", i.x, "at", starts[k], "mode", f.short_reads));
   CHECK(b.get_position() == starts[k], "read position", b.get_position(), starts[k]);
   if (r.chance(1, 12)) {b.ignore(next - starts[k]); CHECK(b.get_position() == next, "position after ignore"); return;}
   switch (i.kind)
   {
    case 0: CHECK(b.compact_read<int64_t>() == int64_t(i.x), "compact int64"); break;
    case 1: CHECK(b.compact_read<size_t>() == i.x, "compact size_t"); break;
    case 2: CHECK(b.compact_read<uint16_t>() == uint16_t(i.x), "compact uint16"); break;
    case 3: CHECK(to_underlying(b.read_reference()) == i.p, "reference"); break;
    case 4: {Blob x = b.read_blob(); CHECK(x.get_position() == i.p && x.get_size() == i.n, "blob"); break;}
    case 5: CHECK(b.read<uint8_t>() == uint8_t(i.x), "uint8"); break;
    case 6: CHECK(b.read<int32_t>() == int32_t(i.x), "int32"); break;
    case 7: CHECK(b.read<int64_t>() == int64_t(i.x), "int64"); break;
    case 8:
    {
     std::string s(i.s.size() + 8, '\x11');
     CHECK(b.read_data(s.data(), i.s.size()) == i.s.size(), "read_data count");
     CHECK(s.substr(0, i.s.size()) == i.s, "read_data bytes");
     CHECK(s.substr(i.s.size()) == std::string(8, '\x11'), "read_data overran");
     break;
    }
    case 9:
     if (r.chance(1, 2)) CHECK(b.read_string() == i.s, "string");
     else
     {
      const bool ok = r.chance(2, 3);
      const int64_t mx = ok ? int64_t(i.s.size()) + 1 + int64_t(r.below(3)) : int64_t(r.below(i.s.size() + 1));
      const std::string s = b.safe_read_string(mx);
      if (int64_t(i.s.size()) < mx) CHECK(s == i.s, "safe string");
      else {CHECK(s.empty(), "safe string over the limit"); b.set_position(next);}
     }
     break;
   }
   CHECK(b.get_position() == next, "position after reading", b.get_position(), next);
   h::eval();
  };
  for (size_t k = 0; k < items.size(); k++) check_item(k);
  for (int q = 0; q < 10; q++)
  {
   const size_t k = r.below(items.size());
   b.set_position(starts[k]);
   for (size_t j = k; j < items.size() && j < k + 4; j++) check_item(j);
  }
  // reading past the end throws
  b.set_position(pos);
  CHECK(int64_t(model.size()) > pos || h::throws([&] {b.read<int64_t>();}), "read past the end");
  b.set_position(std::max<int64_t>(0, int64_t(model.size()) - 3));
  CHECK(h::throws([&] {b.read<int64_t>();}), "read across the end");
 }
 h::sample(h::g_case);
 return h::done();
}
