// instantiates inline members of the public API, nothing else
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/journal/Memory_File.h"

namespace verif
{
 size_t ro_pread(const joedb::Abstract_File &f, char *b, size_t n, int64_t o) {return f.pread(b, n, o);}
 void ro_make(joedb::Readonly_Memory_File *p, const void *m, size_t n) {new (p) joedb::Readonly_Memory_File(m, n);}
 int64_t mem_size(const joedb::Memory_File &f) {return f.get_size();}
}
