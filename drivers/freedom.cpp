// instantiates the inline members of the public API, nothing else
#include "joedb/Freedom_Keeper.h"
using namespace joedb;
namespace verif
{
#define OPS(N, K)\
 Record_Id N##_get_used_count(const K &k) {return k.get_used_count();}\
 Record_Id N##_get_size(const K &k) {return k.get_size();}\
 size_t N##_size(const K &k) {return k.size();}\
 Record_Id N##_get_first_free(const K &k) {return k.get_first_free();}\
 Record_Id N##_get_first_used(const K &k) {return k.get_first_used();}\
 Record_Id N##_get_next(const K &k, Record_Id i) {return k.get_next(i);}\
 Record_Id N##_get_previous(const K &k, Record_Id i) {return k.get_previous(i);}\
 bool N##_is_used(const K &k, Record_Id i) {return k.is_used(i);}\
 bool N##_is_free(const K &k, Record_Id i) {return k.is_free(i);}\
 bool N##_is_free_vector(const K &k, Record_Id i, size_t n) {return k.is_free_vector(i, n);}\
 bool N##_is_used_vector(const K &k, Record_Id i, size_t n) {return k.is_used_vector(i, n);}\
 bool N##_is_dense(const K &k) {return k.is_dense();}\
 Record_Id N##_get_free_record(K &k) {return k.get_free_record();}\
 Record_Id N##_push_back(K &k) {return k.push_back();}\
 void N##_resize(K &k, Record_Id n) {k.resize(n);}\
 void N##_use_vector(K &k, Record_Id i, size_t n) {k.use_vector(i, n);}\
 void N##_free_vector(K &k, Record_Id i, size_t n) {k.free_vector(i, n);}\
 void N##_use(K &k, Record_Id i) {k.use(i);}\
 void N##_free(K &k, Record_Id i) {k.free(i);}\
 void N##_make(K *k) {new (k) K();}
 OPS(list, List_Freedom_Keeper)
 OPS(dense, Dense_Freedom_Keeper)
 OPS(both, Freedom_Keeper)
 Record_Id both_get_last_free(const Freedom_Keeper &k) {return k.get_last_free();}
 Record_Id both_get_last_used(const Freedom_Keeper &k) {return k.get_last_used();}
}
