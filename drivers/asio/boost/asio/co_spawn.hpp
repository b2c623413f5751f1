#include "boost/asio/all.hpp"
namespace boost::asio
{
 // co_spawn(executor, coroutine(), handler): the coroutine and the handler are verified separately.
 // An awaitable<void> is a void, which can not be an argument: hence the comma operator.
 void set_completion(void *, std::size_t, void (*)(void *, std::exception_ptr));
 template<class E, class H> void co_spawn_erased(E &, H h)
 {
  set_completion(&h, sizeof(H), [](void *p, std::exception_ptr e) {(*(H *)p)(e);});
 }
 template<class E> void co_spawn_erased(E &, detached_t) {}
}
#define co_spawn(e, ...) co_spawn_erased(e, (__VA_ARGS__))
