// C14: random operations on every file implementation against a byte array;
// system calls return short counts at random.
// sources: auto
// flags: -fsanitize=address,undefined -fno-sanitize-recover=all
// libs: -Wl,--wrap=pread -Wl,--wrap=pwrite
#include "h.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/journal/File_Slice.h"
#include "joedb/journal/Stream_File.h"
#include "joedb/journal/Portable_File.h"
#include "joedb/journal/Posix_File.h"
#include <fcntl.h>
#include <unistd.h>
#include <sstream>
using namespace h;
using namespace joedb;

static Rng sysrng(140);
static int sysmode = 0;      // 0: as is, 1: short counts, 2: errors
static int64_t sys_countdown = -1;
extern "C" ssize_t __real_pread(int, void *, size_t, off_t);
extern "C" ssize_t __real_pwrite(int, const void *, size_t, off_t);
extern "C" ssize_t __wrap_pread(int fd, void *p, size_t n, off_t o)
{
 if (sys_countdown >= 0 && sys_countdown-- == 0) {errno = EIO; return -1;}
 if (sysmode == 1 && n > 1) n = 1 + sysrng.below(n);
 return __real_pread(fd, p, n, o);
}
extern "C" ssize_t __wrap_pwrite(int fd, const void *p, size_t n, off_t o)
{
 if (sys_countdown >= 0 && sys_countdown-- == 0) {errno = ENOSPC; return -1;}
 if (sysmode == 1 && n > 1) n = 1 + sysrng.below(n);
 return __real_pwrite(fd, p, n, o);
}

static bool seek_may_fail = false;
static void read_check(const Abstract_File &f, const std::string &m, size_t n, int64_t off, const char *what)
{
 std::unique_ptr<char[]> b(new char[n]);   // exact size: overflow is detected
 note(str(what, "pread", n, "at", off, "size", m.size()));
 size_t r;
 if (seek_may_fail && off > int64_t(m.size()))   // a string stream cannot seek past its end
 {
  try {r = f.pread(b.get(), n, off);} catch (const Exception &) {return;}
 }
 else
  r = f.pread(b.get(), n, off);
 CHECK(r <= n, r);
 if (off >= int64_t(m.size()) || n == 0) CHECK(r == 0, r);
 else
 {
  CHECK(r > 0, "nothing read before the end of the file");
  CHECK(uint64_t(off) + r <= m.size(), "read past the end");
  CHECK(!memcmp(b.get(), m.data() + off, r), "bytes differ");
 }
 eval(r > 0);
}

static void readers(const Abstract_File &f, const std::string &m, Rng &r, int it, const char *what, bool huge)
{
 int64_t s = f.get_size();
 CHECK(s == int64_t(m.size()), what, s);
 for (int i = 0; i < it; i++)
  read_check(f, m, size_t(r.chance(1, 4) ? r.below(3) : r.below(m.size() + 20)), r.chance(1, 5) ? int64_t(m.size()) + r.in(-2, 2) < 0 ? 0 : int64_t(m.size()) + r.in(-2, 2) < 0 ? 0 : int64_t(m.size()) : int64_t(r.below(m.size() + 10)), what);
 read_check(f, m, 10, int64_t(m.size()), what);
 read_check(f, m, 10, int64_t(m.size()) + 1, what);
 if (!m.empty()) {read_check(f, m, 10, int64_t(m.size()) - 1, what); read_check(f, m, 1, int64_t(m.size()) - 1, what);}
 read_check(f, m, m.size() + 5, 0, what);
 if (huge) for (int64_t o: {int64_t(1) << 40, (int64_t(1) << 62) + 5, (int64_t(1) << 63) - 1}) read_check(f, m, 16, o, what);
}

static void mutate(Abstract_File &f, std::string &m, Rng &r, int it, const char *what, bool gaps)
{
 for (int i = 0; i < it; i++)
 {
  if (r.chance(1, 2))
  {
   size_t n = r.chance(1, 6) ? 1 : r.chance(1, 12) ? size_t(r.below(9000)) : size_t(r.below(60)) + 1;
   int64_t off = int64_t(r.below(m.size() + (gaps ? 30 : 1)));
   std::string d = r.bytes(n);
   std::unique_ptr<char[]> b(new char[n]); memcpy(b.get(), d.data(), n);
   note(str(what, "pwrite", n, "at", off, "size", m.size(), "step", i));
   f.pwrite(b.get(), n, off);
   if (size_t(off) + n > m.size()) m.resize(size_t(off) + n);
   memcpy(&m[size_t(off)], d.data(), n);
   eval();
  }
  else readers(f, m, r, 2, what, false);
 }
 readers(f, m, r, 5, what, false);
}

int main()
{
 Rng r(14);
 char dir[] = "filesXXXXXX";
 CHECK(mkdtemp(dir), "scratch directory");
 for (int k = 0; k < int(60 * effort) && !time_up(); k++)
 {
  {std::string m; Memory_File f; mutate(f, m, r, 40, "Memory_File", true); CHECK(f.get_data() == m, "data"); readers(f, m, r, 3, "Memory_File", true);
   f.resize(m.size() / 2); m.resize(m.size() / 2); readers(f, m, r, 3, "Memory_File", true);}
  {
   std::string m = r.bytes(size_t(k < 3 ? k : r.below(6000)));
   std::unique_ptr<char[]> p(new char[m.size()]); memcpy(p.get(), m.data(), m.size());
   Readonly_Memory_File f(p.get(), m.size()); const Abstract_File &a = f;
   CHECK(a.is_readonly(), "read-only");
   readers(a, m, r, 20, "Readonly_Memory_File", true);
   Readonly_Memory_File g(std::vector<char>(m.begin(), m.begin())); CHECK(((Abstract_File &)g).get_size() == 0, "empty");
  }
  {
   std::string m = r.bytes(size_t(r.below(20000)) + 1);
   std::string name = std::string(dir) + "/slice";
   {FILE *o = fopen(name.c_str(), "wb"); fwrite(m.data(), 1, m.size(), o); fclose(o);}
   int fd = open(name.c_str(), O_RDONLY);
   size_t a = size_t(r.below(m.size())), n = size_t(r.below(m.size() - a + 1));
   if (a + n > 0) {File_Slice s(fd, a, n); readers((const Abstract_File &)s, m.substr(a, n), r, 20, "File_Slice", true);}
   close(fd); unlink(name.c_str());
  }
  {
   std::stringbuf sb(std::ios::in | std::ios::out | std::ios::binary); std::string m;
   Stream_File f(sb, Open_Mode::create_new);
   char c = 'x'; f.pwrite(&c, 1, 0); m = "x";
   seek_may_fail = true; mutate(f, m, r, 40, "Stream_File", false); seek_may_fail = false;
   CHECK(sb.str() == m, "stream contents");
  }
  {
   std::string name = std::string(dir) + "/portable", m;
   {Portable_File f(name, Open_Mode::create_new); mutate(f, m, r, 30, "Portable_File", true);}
   CHECK(throws([&]{Portable_File f(name, Open_Mode::create_new);}), "create_new of an existing file");
   {Portable_File f(name, Open_Mode::write_existing); mutate(f, m, r, 10, "Portable_File again", true);}
   {Portable_File f(name, Open_Mode::read_existing); readers(f, m, r, 10, "Portable_File read", false); CHECK(throws([&]{f.pwrite("a", 1, 0);}), "write to a read-only file");}
   unlink(name.c_str());
   CHECK(throws([&]{Portable_File f(name, Open_Mode::read_existing);}), "missing file");
   CHECK(throws([&]{Portable_File f(name, Open_Mode::write_existing);}), "missing file");
  }
  for (int md = 0; md < 2; md++)
  {
   sysmode = md;
   std::string name = std::string(dir) + "/posix", m;
   const char *what = md ? "Posix_File short" : "Posix_File";
   {
    Posix_File f(name, k % 2 ? Open_Mode::create_new : Open_Mode::write_existing_or_create_new); mutate(f, m, r, 40, what, true);
    // sparse: far offsets
    f.pwrite("far", 3, int64_t(5) << 32);
    CHECK(f.get_size() == (int64_t(5) << 32) + 3, f.get_size());
    char b[3]; CHECK(f.pread(b, 3, int64_t(5) << 32) > 0 && b[0] == 'f', "64-bit offsets");
   }
   CHECK(truncate(name.c_str(), off_t(m.size())) == 0, "truncate");
   CHECK(throws([&]{Posix_File f(name, Open_Mode::create_new);}), "create_new of an existing file");
   {Posix_File f(name, Open_Mode::write_existing); mutate(f, m, r, 10, what, true);
    CHECK(throws([&]{Posix_File g(name, Open_Mode::write_existing);}), "a second exclusive opening");
    f.sync(); f.datasync();}
   {Posix_File f(name, Open_Mode::shared_write), g(name, Open_Mode::shared_write); std::string m2 = m; mutate(f, m2, r, 5, what, true); readers(g, m2, r, 5, what, false); m = m2;}
   {Posix_File f(name, Open_Mode::read_existing); readers(f, m, r, 10, what, false); read_check(f, m, 16, int64_t(1) << 40, what); CHECK(throws([&]{f.pwrite("a", 1, 0);}), "write to a read-only file");}
   // errors are reported, never ignored
   {
    Posix_File f(name, Open_Mode::write_existing);
    char b[64];
    sys_countdown = 0; CHECK(throws([&]{f.pread(b, 8, 0);}), "read error ignored");
    sys_countdown = 0; CHECK(throws([&]{f.pwrite(b, 8, 0);}), "write error ignored");
    sys_countdown = -1;
   }
   unlink(name.c_str());
   CHECK(throws([&]{Posix_File f(name, Open_Mode::read_existing);}), "missing file");
   CHECK(throws([&]{Posix_File f(name, Open_Mode::write_existing);}), "missing file");
   sysmode = 0;
  }
 }
 sample("random reads and writes, far offsets, short system calls, system call errors on Memory_File, Readonly_Memory_File, File_Slice, Stream_File, Portable_File, Posix_File");
 rmdir(dir);
 return done();
}
