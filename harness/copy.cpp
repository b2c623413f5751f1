// sources: auto
// flags: -fsanitize=address,undefined -fno-sanitize-recover=all
#include "h.h"
#include "joedb/journal/Async_Reader.h"
#include "joedb/journal/Async_Writer.h"
using namespace joedb;
using h::TFile;

static std::string content(h::Rng &r, size_t n) {return r.bytes(n, r.chance(1, 2) ? 256 : 2);}

int main()
{
 const size_t sizes[] = {0, 1, 2, 40, 41, 42, 100, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 12289, 20000};
 h::Rng r(1);
 for (uint64_t it = 0; it < 3000 * h::effort && !h::time_up(); it++)
 {
  const size_t n = r.chance(1, 3) ? r.below(60) : sizes[r.below(16)];
  const std::string a = content(r, n), b = content(r, r.chance(1, 3) ? 0 : r.below(2 * n + 2));
  TFile src(Open_Mode::read_existing, a), dst(Open_Mode::write_existing, b);
  src.short_reads = int(r.below(4)); src.small_ok = r.chance(1, 2) ? 0 : 41;
  dst.short_reads = int(r.below(4)); dst.small_ok = r.chance(1, 2) ? 0 : 41;
  src.rng = h::Rng(it); dst.rng = h::Rng(it + 7);
  if (n > 9000 && (src.short_reads == 2 || dst.short_reads == 2)) src.short_reads = dst.short_reads = 1;
  const int64_t start = r.chance(1, 3) ? 0 : r.in(0, int64_t(n) + 3);
  const int64_t size = r.chance(1, 6) ? -1 - int64_t(r.below(3)) : r.chance(1, 2) ? std::max<int64_t>(0, int64_t(n) - start) : r.in(0, int64_t(n) + 5);
  h::note(h::str("copy n", n, "dst", b.size(), "start", start, "size", size, "modes", src.short_reads, dst.short_reads, "it", it));
  // copy_to
  {
   bool threw = false;
   try {static_cast<Abstract_File &>(src).copy_to(dst, start, size);} catch (const Exception &) {threw = true;}
   const int64_t avail = std::max<int64_t>(0, int64_t(n) - start);
   const int64_t want = size < 0 ? avail : size;
   CHECK(threw == (want > avail), "copy_to throws exactly when the source is too short");
   const size_t got = size_t(std::min(want, avail));
   std::string e = b;
   if (got && e.size() < start + got) e.resize(start + got);
   if (got) e.replace(start, got, a, start, got);
   CHECK(src.s->data == a, "source changed");
   CHECK(dst.s->data == e, "destination after copy_to");
   h::eval(got > 0);
  }
  // equal_to
  for (int k = 0; k < 3; k++)
  {
   std::string c = a;
   const int64_t from = r.chance(1, 3) ? 0 : r.in(0, int64_t(n)), until = r.chance(1, 2) ? int64_t(n) : r.in(0, int64_t(n));
   if (k == 1 && n) c[r.chance(1, 4) ? n - 1 : r.chance(1, 3) && from < int64_t(n) ? from : r.below(n)] ^= char(1 << r.below(8));
   if (k == 2) c = a.substr(0, r.below(n + 1));
   if (r.chance(1, 4)) c += 'x';
   dst.s->data = c;
   h::note(h::str("equal_to n", n, "other", c.size(), "from", from, "until", until, "modes", src.short_reads, dst.short_reads, src.small_ok, dst.small_ok, "it", it));
   const bool expect = from >= until || (int64_t(c.size()) >= until && a.compare(from, until - from, c, from, until - from) == 0);
   bool got = false, threw = false;
   try {got = src.equal_to(dst, from, until);} catch (const Exception &) {threw = true;}
   CHECK(!threw, "equal_to threw");
   CHECK(got == expect, "equal_to result", got);
   if (n)
   {
    // range beyond the end of this file cannot be "equal"
    bool res = false;
    try {res = src.equal_to(dst, from, int64_t(n) + 1);} catch (const Exception &) {}
    CHECK(!res, "equal_to true beyond the end of the file");
   }
   h::eval(from < until);
  }
  // Async_Reader
  {
   const int64_t end = r.in(0, int64_t(n) + 3);
   h::note(h::str("async n", n, "start", start, "end", end, "mode", src.short_reads, "it", it));
   Async_Reader ar(src, start, end);
   const int64_t lo = std::min(start, end);
   std::string got;
   for (int k = 0; k < 40; k++)
   {
    const size_t cap = r.chance(1, 5) ? 30000 : r.below(n + 2);
    std::string buf(cap + 16, '\x5a');
    const int64_t rem = ar.get_remaining();
    const size_t m = ar.read(buf.data(), cap);
    CHECK(m <= cap, "read more than the capacity");
    for (size_t j = cap; j < cap + 16; j++) CHECK(buf[j] == '\x5a', "wrote past the capacity");
    got.append(buf, 0, m);
    CHECK(ar.get_remaining() == rem - int64_t(m), "remaining");
    const bool all = size_t(std::min<int64_t>(rem, cap)) == m;
    CHECK(all || ar.is_end_of_file(), "stopped early without end of file");
    if (ar.is_end_of_file()) CHECK(lo + int64_t(got.size()) >= int64_t(n) || rem == 0, "end of file reported early");
    CHECK(ar.get_current() == lo + int64_t(got.size()), "current");
    CHECK(ar.get_end() == end, "end");
   }
   std::string buf(30000, 0);
   while (size_t m = ar.read(buf.data(), buf.size())) got.append(buf, 0, m);
   const std::string expect = lo < int64_t(n) ? a.substr(lo, std::min<int64_t>(end, n) - lo) : "";
   CHECK(got == expect, "bytes read by Async_Reader");
   h::eval(!got.empty());
  }
  // read_blob
  {
   const int64_t pos = r.in(0, int64_t(n) + 1), sz = r.in(0, int64_t(n) + 1);
   const int64_t mx = r.chance(1, 2) ? -1 : r.in(0, int64_t(n) + 2);
   h::note(h::str("read_blob n", n, "pos", pos, "size", sz, "max", mx, "it", it));
   bool threw = false;
   std::string got;
   try {got = src.read_blob(Blob(pos, sz), mx);} catch (const Exception &) {threw = true;}
   const bool bad = (mx >= 0 && sz >= mx) || (sz > 0 && pos + sz > int64_t(n));
   CHECK(threw == bad, "read_blob exception", threw);
   if (!threw) CHECK(got == (sz ? a.substr(pos, sz) : std::string()), "read_blob contents");
   CHECK(h::throws([&] {src.read_blob(Blob(-1 - int64_t(r.below(5)), 3), mx);}), "negative position accepted");
   CHECK(h::throws([&] {src.read_blob(Blob(0, -1 - int64_t(r.below(5))), mx);}), "negative size accepted");
   h::eval(sz > 0);
  }
  // Async_Writer
  {
   dst.s->data = b;
   std::string e = b;
   Async_Writer w(dst, start);
   int64_t p = start;
   for (int k = 0; k < 6; k++)
   {
    const std::string d = r.bytes(r.below(50));
    w.write(d.data(), d.size());
    if (!d.empty()) {if (e.size() < p + d.size()) e.resize(p + d.size()); e.replace(p, d.size(), d);}
    p += d.size();
    CHECK(w.get_position() == p, "writer position");
   }
   CHECK(dst.s->data == e, "Async_Writer contents");
   h::eval();
  }
 }
 h::sample(h::g_case);
 return h::done();
}
