// public-API instantiations: no logic of its own
#include "joedb/concurrency/File_Connection.h"
namespace verif
{
 int64_t pull_from(joedb::Writable_Journal &j, const joedb::Readonly_Journal &k) {return j.pull_from(k);}
}
