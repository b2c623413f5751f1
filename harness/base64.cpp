// C16: base64 against a direct bit-by-bit reference; arbitrary text decoded under sanitizers.
// sources: auto joedb/ui/base64_decode.cpp
// flags: -fsanitize=address,undefined -fno-sanitize-recover=all
#include "h.h"
#include "joedb/ui/base64.h"
using namespace h;
static std::string rfc(const std::string &s)
{
 const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
 std::string r;
 size_t bits = s.size() * 8;
 for (size_t i = 0; i < bits; i += 6)
 {
  int v = 0;
  for (size_t j = i; j < i + 6; j++) v = v * 2 + (j < bits ? (uint8_t(s[j / 8]) >> (7 - j % 8)) & 1 : 0);
  r += A[v];
 }
 while (r.size() % 4) r += '=';
 return r;
}
static void one(const std::string &s)
{
 note("string " + hex(s));
 // exact-size heap copy: reads outside are detected
 std::unique_ptr<char[]> p(new char[s.size()]); memcpy(p.get(), s.data(), s.size());
 const std::string e = joedb::base64_encode(std::string_view(p.get(), s.size()));
 CHECK(e == rfc(s), e);
 std::unique_ptr<char[]> q(new char[e.size()]); memcpy(q.get(), e.data(), e.size());
 CHECK(joedb::base64_decode(std::string_view(q.get(), e.size())) == s, e);
 eval(!s.empty());
}
int main()
{
 Rng r(16);
 one("");
 for (int a = 0; a < 256; a++) one(std::string(1, char(a)));
 for (int a = 0; a < 65536; a++) one({char(a), char(a >> 8)});
 for (int k = 0; k < int(20000 * effort); k++) one(r.bytes(3));
 for (int k = 0; k < int(20000 * effort); k++) one(r.bytes(size_t(r.below(100))));
 one(r.bytes(100000)); one(std::string(3001, char(255)));
 sample("all strings of 0, 1 and 2 bytes; random longer ones");
 for (int k = 0; k < int(60000 * effort); k++)
 {
  std::string s = k & 1 ? r.bytes(size_t(r.below(12))) : rfc(r.bytes(size_t(r.below(12))));
  if (k % 3 == 0) for (auto &c: s) if (r.chance(1, 3)) c = '=';
  if (k % 5 == 0 && !s.empty()) s.resize(s.size() - 1);
  note("text " + hex(s));
  std::unique_ptr<char[]> p(new char[s.size()]); memcpy(p.get(), s.data(), s.size());
  CHECK(joedb::base64_decode(std::string_view(p.get(), s.size())).size() <= s.size(), "decoded size");
  eval();
 }
 sample("60000 malformed texts");
 return done();
}
