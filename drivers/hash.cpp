// instantiates the inline members of the public API, nothing else
#include "joedb/journal/SHA_256.h"
#include "joedb/journal/File_Hasher.h"
#include "joedb/journal/Abstract_File.h"

namespace verif
{
 void sha_init(joedb::SHA_256 *p) {new (p) joedb::SHA_256();}
 void sha_chunk(joedb::SHA_256 &h, const char *data) {h.process_chunk(data);}
 void sha_final(joedb::SHA_256 &h, const char *data, uint64_t n) {h.process_final_chunk(data, n);}
}
