// Declarations standing for Boost.Asio when the server is translated for verification. The
// translation unit of /repo is compiled unchanged with co_await and co_return erased, so that an
// awaitable<T> is a T and a suspension is a call of one of the functions declared here, whose
// contracts say what the other sessions may do meanwhile. Nothing here has a body, except the
// part of async_wait that makes the handler reachable.
#pragma once
#include <chrono>
#include <csignal>
#include <cstddef>
#include <exception>
#include <string>
#include <system_error>
#include <type_traits>
#include <utility>
namespace boost::system
{
 struct error_code
 {
  int v = 0;
  explicit operator bool() const {return v != 0;}
  operator std::error_code() const {return std::error_code(v, std::system_category());}
 };
}
namespace boost::asio
{
 template<class T> struct erase_awaitable {using type = T;};
 template<class T> using awaitable = typename erase_awaitable<T>::type;
 struct use_awaitable_t {};
 inline constexpr use_awaitable_t use_awaitable;
 struct detached_t {};
 inline constexpr detached_t detached;
 struct redirect_t {boost::system::error_code *ec;};
 inline redirect_t redirect_error(use_awaitable_t, boost::system::error_code &ec) {return {&ec};}
 struct any_executor {int x;};
 struct thread_pool
 {
  using executor_type = any_executor;
  thread_pool(std::size_t);
  ~thread_pool();
  executor_type get_executor();
  void stop();
  void join();
  int x;
 };
 template<class E> struct strand {strand(E); ~strand(); int x;};
 struct signal_set
 {
  signal_set(thread_pool &, int, int);
  ~signal_set();
  template<class H> void async_wait(H &&) {}
  int x;
 };
 struct steady_timer
 {
  using duration = std::chrono::steady_clock::duration;
  template<class S> explicit steady_timer(S &);
  ~steady_timer();
  std::size_t cancel();
  std::size_t expires_after(duration);
  std::size_t expires_at(std::chrono::steady_clock::time_point);
  void async_wait(redirect_t);                    // suspends
  void set_handler(void *, std::size_t, void (*)(void *, const boost::system::error_code &));
  template<class H> void async_wait(H h)          // does not suspend
  {
   set_handler(&h, sizeof(H), [](void *p, const boost::system::error_code &e) {(*(H *)p)(e);});
  }
  int x;
 };
 struct buffer_t {const void *p; std::size_t n;};
 inline buffer_t buffer(const void *p, std::size_t n) {return {p, n};}
 namespace local
 {
  struct stream_protocol
  {
   struct endpoint {endpoint(const std::string &); ~endpoint(); int x;};
   struct socket {socket(socket &&); ~socket(); void close(); int x;};
   struct acceptor
   {
    acceptor(thread_pool &, endpoint &, bool);
    ~acceptor();
    socket async_accept(use_awaitable_t);         // suspends
    int x;
   };
  };
 }
 std::size_t async_read(local::stream_protocol::socket &, buffer_t, use_awaitable_t);    // suspends
 std::size_t async_write(local::stream_protocol::socket &, buffer_t, use_awaitable_t);   // suspends
}
