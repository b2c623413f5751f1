// public-API instantiations: no logic of its own
#include "joedb/concurrency/Writable_Client.h"
namespace verif
{
 void body(joedb::Writable_Client &);
 int64_t body_value(joedb::Writable_Client &);
 struct Access: public joedb::Writable_Client
 {
  void run() {transaction([this]{body(*this);});}
  int64_t run_value() {return transaction([this]{return body_value(*this);});}
 };
 void transaction(Access &c) {c.run();}
 int64_t transaction_value(Access &c) {return c.run_value();}
 void pull_push(joedb::Writable_Client &c) {c.pull_push();}
 int64_t pull(joedb::Writable_Client &c, std::chrono::milliseconds w) {return c.joedb::Writable_Client::pull(w);}
 int64_t push_if_ahead(joedb::Writable_Client &c, int64_t until) {return c.joedb::Writable_Client::push_if_ahead(until);}
 int64_t push_unlock(joedb::Writable_Client &c) {return c.push_unlock();}
 void construct(joedb::Writable_Client *p, joedb::Writable_Journal &j, joedb::Connection &c, joedb::Content_Check k) {struct B: joedb::Writable_Client {using Writable_Client::Writable_Client;}; new (p) B(j, c, k);}
 void lock_construct(joedb::Client_Lock *p, joedb::Writable_Client &c) {new (p) joedb::Client_Lock(c);}
 void lock_checkpoint(joedb::Client_Lock &l) {l.do_checkpoint();}
 void lock_push_if_ahead(joedb::Client_Lock &l) {l.push_if_ahead();}
 void lock_checkpoint_and_push(joedb::Client_Lock &l) {l.checkpoint_and_push();}
 void lock_checkpoint_and_push_unlock(joedb::Client_Lock &l) {l.checkpoint_and_push_unlock();}
 void lock_unlock(joedb::Client_Lock &l) {l.unlock();}
 void lock_destroy(joedb::Client_Lock &l) {l.~Client_Lock();}
}
