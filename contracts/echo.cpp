#include "irv.hpp"
#include <nbdl/context.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/echo_producer.hpp>
#include <nbdl/send_upstream_message.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/message.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/key.hpp>
#include <boost/hana.hpp>
using namespace irv;
namespace hana = boost::hana; namespace message = nbdl::message;

template <int I> struct Val {
  u64 v;
  Val() : v(0) {}
  explicit Val(u64 x) : v(x) {}
  Val(Val const& o) : v(o.v) {}
  Val(Val&& o) : v(o.v) { o.v = ~o.v; }
  Val& operator=(Val const& o) { v = o.v; return *this; }
  Val& operator=(Val&& o) { u64 x = o.v; o.v = ~o.v; v = x; return *this; }
};
using P1 = Val<1>; using P2 = Val<2>; using Uid = Val<3>; using Pay = Val<4>;
struct wrapped { int value; };
struct NoKey {};
// what the context is given
struct Sent { int calls = 0; int kind = -1; u64 p1 = 0, p2 = 0, uid = 0, pay = 0; long long key = 0; bool has_uid = false, confirmed = false, down = false; int path_len = 0; };
static Sent* sent;
struct ctx_tag {};
struct Ctx { using hana_tag = ctx_tag; };
static inline void part(Sent& s, P1 const& x) { s.p1 = x.v; }
static inline void part(Sent& s, P2 const& x) { s.p2 = x.v; }
static inline void part(Sent& s, int k) { s.key = k; }
static inline void part(Sent& s, unsigned k) { s.key = k; }
static inline void part(Sent& s, u64 k) { s.key = (long long)k; }
static inline void part(Sent& s, wrapped k) { s.key = k.value; }
static inline void part(Sent& s, Uid const& k) { s.p2 = k.v; }
static inline void part(Sent& s, NoKey) {}
namespace nbdl {
  template <> struct apply_message_impl<ctx_tag> {
    template <typename S, typename M> static bool apply(S&&, M const& m) {
      Sent& s = *sent; ++s.calls;
      s.down = message::is_downstream<M> && !message::is_upstream<M>;
      s.kind = message::is_create<M> ? 0 : message::is_read<M> ? 1 : message::is_update<M> ? 2 : message::is_delete<M> ? 3 : 9;
      hana::for_each(message::get_path(m), [&](auto const& x) { ++s.path_len; part(s, x); });
      s.has_uid = message::has_uid<M>;
      if constexpr (message::has_uid<M>) s.uid = message::get_uid(m).v;
      if constexpr (message::has_payload<M>) s.pay = message::get_payload(m).v;
      s.confirmed = bool(message::is_confirmed(m));
      return true;
    }
  };
}
using Echo = nbdl::echo_producer_impl<Ctx>;
static inline Echo producer() { return Echo(nbdl::actor_initializer<Ctx, nbdl::echo_producer>{Ctx{}}); }
#define ONE "echo: exactly one downstream message of the same kind"
#define SAME "echo: same path, identifier and payload"
#define FRESH "echo: a supplied key was not supplied before"
static inline void one(Sent const& s, int kind) { ENSURES(s.calls == 1 && s.down && s.kind == kind && !s.confirmed, ONE); }

CONTRACT(C21_update_and_delete) {
  u64 a = any<u64>("p1"), b = any<u64>("p2"), u = any<u64>("uid"), y = any<u64>("payload");
  auto e = producer(); auto path = hana::make_tuple(P1{a}, P2{b});
  COVER("echo: update, delete");
  { Sent s; sent = &s; nbdl::send_upstream_message(e, message::make_upstream_update(path, message::no_uid, Pay{y})); one(s, 2);
    ENSURES(s.path_len == 2 && s.p1 == a && s.p2 == b && !s.has_uid && s.pay == y, SAME); }
  { Sent s; sent = &s; nbdl::send_upstream_message(e, message::make_upstream_update(path, Uid{u}, Pay{y})); one(s, 2);
    ENSURES(s.path_len == 2 && s.p1 == a && s.p2 == b && s.has_uid && s.uid == u && s.pay == y, SAME); }
  { Sent s; sent = &s; nbdl::send_upstream_message(e, message::make_upstream_delete(path, message::no_uid)); one(s, 3);
    ENSURES(s.path_len == 2 && s.p1 == a && s.p2 == b && !s.has_uid, SAME); }
  { Sent s; sent = &s; nbdl::send_upstream_message(e, message::make_upstream_delete(path, Uid{u})); one(s, 3);
    ENSURES(s.path_len == 2 && s.p1 == a && s.p2 == b && s.has_uid && s.uid == u, SAME); }
}
CONTRACT(C21_create_with_path) {
  u64 a = any<u64>("p1"), b = any<u64>("p2"), u = any<u64>("uid"), y = any<u64>("payload");
  auto e = producer();
  COVER("echo: create with a path");
  { Sent s; sent = &s; nbdl::send_upstream_message(e, message::make_upstream_create(hana::make_tuple(P1{a}, P2{b}), Uid{u}, Pay{y})); one(s, 0);
    ENSURES(s.path_len == 2 && s.p1 == a && s.p2 == b && s.has_uid && s.uid == u && s.pay == y, SAME); }
  { Sent s; sent = &s; nbdl::send_upstream_message(e, message::make_upstream_create(hana::make_tuple(P1{a}, P2{b}), message::no_uid, Pay{y})); one(s, 0);
    ENSURES(s.path_len == 2 && s.p1 == a && s.p2 == b && !s.has_uid && s.pay == y, SAME); }
}
CONTRACT(C21_create_with_empty_key) {
  u64 a = any<u64>("p1"), y = any<u64>("payload");
  auto e = producer();
  Sent s; sent = &s;
  nbdl::send_upstream_message(e, message::make_upstream_create(message::make_create_path<wrapped>(hana::make_tuple(P1{a})), message::no_uid, Pay{y}));
  one(s, 0);
  ENSURES(s.path_len == 2 && s.p1 == a && s.pay == y, SAME);
}
// any number of requests, each answered with a key that is larger than all before
template <typename Key> static inline void history(u64 max) {
  u64 n = upto("requests", max);
  auto e = producer(); long long last = 0; bool none = true;
  Sent s; sent = &s;
  COVER("echo: history");
  for (u64 i = 0; i < n; ++i) {
    u64 a = any<u64>("p1"), y = any<u64>("payload"), u = any<u64>("uid");
    s = Sent{};
    nbdl::send_upstream_message(e, message::make_upstream_create(message::make_create_path<Key>(hana::make_tuple(P1{a})), message::no_uid, Pay{y}));
    one(s, 0);
    ENSURES(s.path_len == 2 && s.p1 == a && !s.has_uid && s.pay == y, SAME);
    ENSURES(s.key > last, FRESH);
    last = s.key;
  }
  COVER("echo: history done");
}
#ifdef IRV_NATIVE
#define MAX 100
#else
#define MAX 0x7fffffff
#endif
CONTRACT(C21_history_of_int_keys) { history<int>(MAX); }
CONTRACT(C21_history_of_wide_keys) { history<u64>(MAX); }
CONTRACT(C21_history_of_wrapped_keys) { history<wrapped>(MAX); }
