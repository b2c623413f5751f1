// public-API instantiations: no logic of its own
#include "joedb/concurrency/Server_Connection.h"
#include "joedb/journal/Writable_Journal.h"
namespace verif
{
 void ping(joedb::Server_Client &c) {c.ping();}
 bool pullonly(const joedb::Server_Connection &c) {return c.is_pullonly();}
}
