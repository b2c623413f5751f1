// C12: SHA-256 against an independent implementation written from FIPS 180-4
// (constants recomputed from the primes), File_Hasher on files with short reads.
// sources: auto
#include "h.h"
#include "joedb/journal/File_Hasher.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include <cmath>
using namespace h;
using namespace joedb;

typedef unsigned __int128 u128;
static uint32_t R(uint32_t x, int n) {return (x >> n) | (x << (32 - n));}
struct Ref
{
 uint32_t K[64], H0[8];
 // floor(2^32 frac(p^(1/n))): integer root of p * 2^(32 n)
 static uint32_t froot(uint64_t p, int n)
 {
  uint64_t lo = 0, hi = uint64_t(1) << 40;
  while (lo + 1 < hi)
  {
   uint64_t m = (lo + hi) / 2;
   bool le;
   if (n == 2) le = u128(m) * m <= (u128(p) << 64);
   else
   {
    // m^3 <= p << 96, compared by long division
    long double a = (long double)m; a = a * a * a;
    long double b = (long double)p * powl(2.0L, 96);
    if (fabsl(a - b) > b * 1e-15L) le = a < b;
    else
    {
     // exact: m*m as two halves times m, in 192 bits
     u128 q = u128(m) * m;
     u128 l = u128(uint64_t(q)) * m, h = u128(uint64_t(q >> 64)) * m + (l >> 64);
     u128 top = h >> 32;               // floor(m^3 / 2^96)
     bool rest = uint32_t(h) != 0 || uint64_t(l) != 0;
     le = top < p || (top == p && !rest);
    }
   }
   (le ? lo : hi) = m;
  }
  return uint32_t(lo);
 }
 Ref()
 {
  int n = 0;
  for (uint64_t p = 2; n < 64; p++)
  {
   bool prime = true;
   for (uint64_t d = 2; d * d <= p; d++) if (p % d == 0) prime = false;
   if (!prime) continue;
   K[n] = froot(p, 3);
   if (n < 8) H0[n] = froot(p, 2);
   n++;
  }
 }
 std::array<uint32_t, 8> operator()(std::string m) const {
  uint64_t bits = m.size() * 8;
  m += char(0x80);
  while (m.size() % 64 != 56) m += char(0);
  for (int i = 7; i >= 0; i--) m += char(bits >> (8 * i));
  return blocks(m);
 }
 std::array<uint32_t, 8> blocks(const std::string &m) const {
  uint32_t H[8]; std::copy(H0, H0 + 8, H);
  for (size_t b = 0; b < m.size(); b += 64)
  {
   uint32_t W[64];
   for (int t = 0; t < 16; t++) {W[t] = 0; for (int j = 0; j < 4; j++) W[t] = W[t] << 8 | uint8_t(m[b + 4 * t + j]);}
   for (int t = 16; t < 64; t++)
    W[t] = (R(W[t-2], 17) ^ R(W[t-2], 19) ^ W[t-2] >> 10) + W[t-7] + (R(W[t-15], 7) ^ R(W[t-15], 18) ^ W[t-15] >> 3) + W[t-16];
   uint32_t a=H[0],bb=H[1],c=H[2],d=H[3],e=H[4],f=H[5],g=H[6],hh=H[7];
   for (int t = 0; t < 64; t++)
   {
    uint32_t T1 = hh + (R(e,6)^R(e,11)^R(e,25)) + ((e&f)^(~e&g)) + K[t] + W[t];
    uint32_t T2 = (R(a,2)^R(a,13)^R(a,22)) + ((a&bb)^(a&c)^(bb&c));
    hh=g; g=f; f=e; e=d+T1; d=c; c=bb; bb=a; a=T1+T2;
   }
   H[0]+=a;H[1]+=bb;H[2]+=c;H[3]+=d;H[4]+=e;H[5]+=f;H[6]+=g;H[7]+=hh;
  }
  std::array<uint32_t, 8> r; std::copy(H, H + 8, r.begin()); return r;
 }
};

int main()
{
 Ref ref;
 CHECK(ref("abc")[0] == 0xba7816bf && ref("")[7] == 0x7852b855, "reference vectors");
 Rng r(12);
 // every length around several block boundaries
 for (int n = 0; n < 300; n++)
  for (int k = 0; k < 4; k++)
  {
   std::string s = k == 0 ? std::string(n, char(0)) : k == 1 ? std::string(n, char(255)) : r.bytes(n);
   note(str("string of", n, "bytes", hex(s)));
   CHECK(File_Hasher::get_hash(s) == ref(s), n);
   SHA_256 h; size_t i = 0;
   for (; i + 64 <= s.size(); i += 64) h.process_chunk(s.data() + i);
   h.process_final_chunk(s.data() + i, s.size());
   CHECK(h.get_hash() == ref(s), n);
   eval();
  }
 // lengths above 2^29 and 2^32 bytes in the final block (only the length is large)
 for (uint64_t total: {uint64_t(1) << 29, (uint64_t(1) << 32) + 5, (uint64_t(1) << 40) + 60, uint64_t(0x1234567890abcd)})
 {
  std::string t = r.bytes(total & 63), m = t;
  m += char(0x80);
  while (m.size() % 64 != 56) m += char(0);
  for (int i = 7; i >= 0; i--) m += char((total * 8) >> (8 * i));
  SHA_256 h; h.process_final_chunk(t.data(), total);
  CHECK(h.get_hash() == ref.blocks(m), total);
  eval();
 }
 sample("all lengths 0..299, four fillings; lengths up to 2^52 in the padding");
 // ranges of files, with short reads
 for (int k = 0; k < int(300 * effort) && !time_up(); k++)
 {
  int sr = k % 4;
  size_t n = k % 10 == 0 ? size_t(r.in(120000, 300000)) : k % 10 == 1 ? 131072 + size_t(r.in(-2, 2)) : size_t(r.in(0, 3000));
  if (sr == 2 && n > 3000) sr = 1;
  TFile f(Open_Mode::create_new, r.bytes(n)); f.short_reads = sr; f.small_ok = 0;
  int64_t start = r.chance(1, 3) ? 0 : int64_t(r.below(n + 1)), size = r.chance(1, 3) ? int64_t(n) - start : int64_t(r.below(n - size_t(start) + 1));
  note(str("file of", n, "bytes, start", start, "size", size, "short-read pattern", sr));
  CHECK(File_Hasher::get_hash(f, start, size) == ref(f.s->data.substr(size_t(start), size_t(size))), "range hash");
  eval(size > 0);
 }
 sample("random ranges of files up to 300 kB, four short-read patterns");
 for (int k = 0; k < int(16 * effort) && !time_up(); k++)
 {
  size_t n = (4 << 20) + size_t(k < 3 ? k - 1 : r.in(-5, 3000000)) ;
  int64_t start = k % 2 ? 41 : 0;
  int64_t size = int64_t(n);
  auto st = std::make_shared<Store>(); st->data = r.bytes(n + size_t(start));
  TFile a(Open_Mode::create_new), b(Open_Mode::create_new); a.s = b.s = st; b.short_reads = 1 + 2 * (k & 1); b.small_ok = 0;
  note(str("fast hash, size", size, "start", start));
  auto x = File_Hasher::get_fast_hash(a, start, size);
  CHECK(x == File_Hasher::get_fast_hash(b, start, size), "short reads change the fast hash");
  CHECK(x == File_Hasher::get_fast_hash(a, start, size), "fast hash is not a function of the contents");
  if (size < (4 << 20)) CHECK(x == ref(st->data.substr(size_t(start), size_t(size))), "small fast hash is the full hash");
  else
  {
   // the documented sampling: first block, aligned blocks, last block
   std::string m;
   for (int i = 0; i < 256; i++)
   {
    int64_t p = i == 0 ? start : i == 255 ? start + size - 4096 : 4096 * ((start + i * size) / (4096 * 255));
    m += st->data.substr(size_t(p), 4096);
   }
   CHECK(x == ref.blocks(m), "fast hash sampling");
  }
  eval();
 }
 sample("fast hashes around the 4 MiB threshold and above");
 return done();
}
