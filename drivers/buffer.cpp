// public-API instantiations: no logic of its own
#include "joedb/journal/File_Buffer.h"
using joedb::File_Buffer;
namespace verif
{
#define W(T) void w_##T(File_Buffer &b, T x) {b.write<T>(x);} T r_##T(File_Buffer &b) {return b.read<T>();}
 W(uint8_t) W(int8_t) W(int16_t) W(int32_t) W(int64_t)
#undef W
#define C(T) void cw_##T(File_Buffer &b, T x) {b.compact_write<T>(x);} T cr_##T(File_Buffer &b) {return b.compact_read<T>();}
 C(int64_t) C(size_t) C(uint16_t)
#undef C
 void w_ref(File_Buffer &b, int64_t id) {b.write_reference(joedb::Record_Id(id));}
 int64_t r_ref(File_Buffer &b) {return joedb::to_underlying(b.read_reference());}
 void w_blob(File_Buffer &b, int64_t p, int64_t n) {b.write_blob(joedb::Blob(p, n));}
 void r_blob(File_Buffer &b, joedb::Blob &out) {out = b.read_blob();}
 void w_data(File_Buffer &b, const char *d, size_t n) {b.write_data(d, n);}
 size_t r_data(File_Buffer &b, char *d, size_t n) {return b.read_data(d, n);}
 void ignore(File_Buffer &b, int64_t n) {b.ignore(n);}
 int64_t get_position(const File_Buffer &b) {return b.get_position();}
 void w_string(File_Buffer &b, const char *d, size_t n) {b.write_string(std::string_view(d, n));}
}
