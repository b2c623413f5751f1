// public-API instantiations: no logic of its own
#include "joedb/journal/Async_Writer.h"
#include "joedb/journal/Async_Reader.h"
namespace verif
{
 void async_write(joedb::Async_Writer &w, const char *b, size_t n) {w.write(b, n);}
 size_t async_read(joedb::Async_Reader &r, char *b, size_t n) {return r.read(b, n);}
}
