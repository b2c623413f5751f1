// instantiates inline members of the public API, nothing else
#include "joedb/journal/Writable_Journal.h"

namespace verif
{
 void j_flush(joedb::Writable_Journal &j) {j.joedb::Writable_Journal::flush();}
}
