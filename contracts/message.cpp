#include "irv.hpp"
#include <nbdl/message.hpp>
#include <nbdl/variant.hpp>
#include <boost/hana.hpp>
#include <utility>
using namespace irv;
namespace hana = boost::hana; namespace message = nbdl::message;

// A value whose moved-from state is different, so that using something after it was moved out shows.
template <int I> struct Val {
  u64 v;
  Val() : v(0) {}
  explicit Val(u64 x) : v(x) {}
  Val(Val const& o) : v(o.v) {}
  Val(Val&& o) : v(o.v) { o.v = ~o.v; }
  Val& operator=(Val const& o) { v = o.v; return *this; }
  Val& operator=(Val&& o) { u64 x = o.v; o.v = ~o.v; v = x; return *this; }
};
using K1 = Val<1>; using K2 = Val<2>; using Uid = Val<3>; using Pay = Val<4>; using Priv = Val<5>;
using Key = nbdl::variant<K2, Uid>;
struct Empty {};
struct Sym { u64 k1, k2, uid, pay, priv; bool conf; };
static inline Sym sym() { return { any<u64>("k1"), any<u64>("k2"), any<u64>("uid"), any<u64>("payload"), any<u64>("private"), any<bool>("confirmed") }; }
static inline auto path(Sym const& s) { return hana::make_tuple(K1{s.k1}, K2{s.k2}); }
template <typename P> static inline void path_is(P const& p, Sym const& s, char const* n) {
  static_assert(decltype(hana::size(p))::value == 2);
  irv_assert((hana::at_c<0>(p).v == s.k1) & (hana::at_c<1>(p).v == s.k2), n);
}
template <typename K> static inline bool key_is(K const& k, int alt, u64 v) {
  bool ok = k.get_type_id() == alt, r = false;
  k.match([&](K2 const& x) { r = ok && alt == 1 && x.v == v; }, [&](Uid const& x) { r = ok && alt == 2 && x.v == v; }, [](auto const&) {});
  return r;
}
#define KIND "message: kind and parts are those it was made with"
#define PATH "message: path stays the path it was made with"
#define UID "message: identifier stays the one it was made with"
#define PAY "message: payload stays the one it was made with"
#define PRIV "message: private payload stays the one it was made with"
#define CONF "message: confirmation is the one given"
#define KEYPATH "message: the path of a created object ends in the given key or the identifier"

// with Move the message is handed over as an rvalue, which may be emptied by it but must still convert completely
template <bool Move, typename M> static inline decltype(auto) give(M& m) { if constexpr (Move) return std::move(m); else return std::as_const(m); }

// the accessors of every kind of message
CONTRACT(C14_accessors_upstream) {
  Sym s = sym();
  COVER("message: upstream");
  {
    auto m = message::make_upstream_create(message::make_create_path<Key>(hana::make_tuple(K1{s.k1})), Uid{s.uid}, Pay{s.pay}, Priv{s.priv});
    using M = decltype(m);
    ENSURES((message::has_uid<M> && message::has_payload<M> && message::has_private_payload<M> && !message::has_is_confirmed<M>), KIND);
    ENSURES((message::is_upstream<M> && message::is_create<M> && !message::is_downstream<M> && !message::is_read<M> && !message::is_update<M> && !message::is_delete<M>), KIND);
    ENSURES(hana::at_c<0>(message::get_path(m).parent_path).v == s.k1, PATH);
    ENSURES(message::get_uid(m).v == s.uid, UID); ENSURES(message::get_payload(m).v == s.pay, PAY);
    ENSURES(static_cast<Priv>(message::get_private_payload(m)).v == s.priv, PRIV);
    auto n = message::get_normalized_path(m);
    ENSURES(hana::at_c<0>(n).v == s.k1, PATH); ENSURES(key_is(Key(hana::at_c<1>(n)), 2, s.uid), KEYPATH);
    ENSURES(!message::is_confirmed(m), CONF);
  }
  {
    auto m = message::make_upstream_create(message::make_create_path<Key>(hana::make_tuple(K1{s.k1})), message::no_uid, Pay{s.pay}, Priv{s.priv});
    using M = decltype(m);
    ENSURES((!message::has_uid<M> && message::has_payload<M> && message::has_private_payload<M> && !message::is_path_normalizable<M> && message::requires_key_for_downstream<M>), KIND);
    ENSURES(message::get_payload(m).v == s.pay, PAY); ENSURES(message::get_private_payload(m).v == s.priv, PRIV);
    ENSURES(hana::at_c<0>(message::get_path(m).parent_path).v == s.k1, PATH);
  }
  {
    auto m = message::make_upstream_create(message::make_create_path<Key>(hana::make_tuple(K1{s.k1})), Uid{s.uid}, Pay{s.pay});
    ENSURES((!message::has_private_payload<decltype(m)> && message::has_uid<decltype(m)>), KIND);
    ENSURES(message::get_uid(m).v == s.uid, UID); ENSURES(message::get_payload(m).v == s.pay, PAY);
  }
  {
    auto m = message::make_upstream_read(path(s), Uid{s.uid});
    using M = decltype(m);
    ENSURES((message::is_upstream<M> && message::is_read<M> && !message::is_create<M> && !message::has_payload<M> && message::has_uid<M>), KIND);
    path_is(message::get_path(m), s, PATH); path_is(message::get_normalized_path(m), s, PATH); ENSURES(message::get_uid(m).v == s.uid, UID);
    auto m2 = message::make_upstream_read(path(s));
    ENSURES((!message::has_uid<decltype(m2)>), KIND);
    path_is(message::get_path(m2), s, PATH);
  }
  {
    auto m = message::make_upstream_update(path(s), Uid{s.uid}, Pay{s.pay});
    ENSURES((message::is_upstream<decltype(m)> && message::is_update<decltype(m)>), KIND);
    path_is(message::get_path(m), s, PATH); ENSURES(message::get_uid(m).v == s.uid, UID); ENSURES(message::get_payload(m).v == s.pay, PAY);
  }
  {
    auto m = message::make_upstream_delete(path(s), Uid{s.uid});
    ENSURES((message::is_upstream<decltype(m)> && message::is_delete<decltype(m)> && !message::has_payload<decltype(m)>), KIND);
    path_is(message::get_path(m), s, PATH); ENSURES(message::get_uid(m).v == s.uid, UID);
  }
}
CONTRACT(C14_accessors_downstream) {
  Sym s = sym();
  COVER("message: downstream");
  {
    auto m = message::make_downstream_create(path(s), Uid{s.uid}, Pay{s.pay}, s.conf);
    using M = decltype(m);
    ENSURES((message::is_downstream<M> && message::is_create<M> && !message::is_upstream<M> && message::has_is_confirmed<M>), KIND);
    path_is(message::get_path(m), s, PATH); path_is(message::get_normalized_path(m), s, PATH);
    ENSURES(message::get_uid(m).v == s.uid, UID); ENSURES(message::get_payload(m).v == s.pay, PAY); ENSURES(message::is_confirmed(m) == s.conf, CONF);
  }
  {
    auto m = message::make_downstream_read(path(s), Uid{s.uid}, Pay{s.pay});
    ENSURES((message::is_downstream<decltype(m)> && message::is_read<decltype(m)>), KIND);
    path_is(message::get_path(m), s, PATH); ENSURES(message::get_uid(m).v == s.uid, UID); ENSURES(message::get_payload(m).v == s.pay, PAY);
    ENSURES(!message::is_confirmed(m), CONF);
  }
  {
    auto m = message::make_downstream_update(path(s), Uid{s.uid}, Pay{s.pay}, s.conf);
    ENSURES((message::is_downstream<decltype(m)> && message::is_update<decltype(m)>), KIND);
    path_is(message::get_path(m), s, PATH); ENSURES(message::get_uid(m).v == s.uid, UID); ENSURES(message::get_payload(m).v == s.pay, PAY); ENSURES(message::is_confirmed(m) == s.conf, CONF);
  }
  {
    auto m = message::make_downstream_delete(path(s), Uid{s.uid}, s.conf);
    ENSURES((message::is_downstream<decltype(m)> && message::is_delete<decltype(m)>), KIND);
    path_is(message::get_path(m), s, PATH); ENSURES(message::get_uid(m).v == s.uid, UID); ENSURES(message::is_confirmed(m) == s.conf, CONF);
  }
  {
    auto m = message::make_downstream_update(path(s), message::no_uid, Pay{s.pay}, message::no_is_confirmed);
    ENSURES((!message::has_uid<decltype(m)> && !message::has_is_confirmed<decltype(m)>), KIND);
    ENSURES(!message::is_confirmed(m), CONF); ENSURES(message::get_payload(m).v == s.pay, PAY);
  }
}
template <bool Move> static inline void convert(Sym const& s) {
  auto create = [&](auto uid, auto priv) {
    if constexpr (std::is_same_v<decltype(priv), message::no_impl>) return message::make_upstream_create(message::make_create_path<Key>(hana::make_tuple(K1{s.k1})), uid, Pay{s.pay});
    else return message::make_upstream_create(message::make_create_path<Key>(hana::make_tuple(K1{s.k1})), uid, Pay{s.pay}, priv);
  };
  auto storage_has_no_private = [](auto const& d) {
    ENSURES((!message::has_private_payload<decltype(d)>), KIND);
    ENSURES((!decltype(hana::contains(hana::transform(hana::to_tuple(d.storage), [](auto const& x) { return hana::type_c<std::decay_t<decltype(x)>>; }), hana::type_c<Priv>))::value), KIND);
  };
  auto with_key = [&](auto m, auto d, bool uid, auto confirmed) {
    using D = decltype(d);
    ENSURES((message::is_downstream<D> && message::is_create<D>), KIND);
    storage_has_no_private(d);
    ENSURES(hana::at_c<0>(message::get_path(d)).v == s.k1, PATH);
    ENSURES(key_is(Key(hana::at_c<1>(message::get_path(d))), 1, s.k2), KEYPATH);
    ENSURES(message::get_payload(d).v == s.pay, PAY);
    if constexpr (message::has_uid<decltype(m)>) ENSURES(message::get_uid(d).v == s.uid, UID);
    else { ENSURES((!message::has_uid<D>), KIND); }
    ENSURES((message::has_is_confirmed<D> == decltype(confirmed)::value), KIND);
    ENSURES(message::is_confirmed(d) == confirmed(), CONF);
  };
  { auto m = create(Uid{s.uid}, Priv{s.priv}); with_key(m, message::to_downstream_with_key(give<Move>(m), K2{s.k2}), true, hana::false_c); }
  { auto m = create(Uid{s.uid}, Priv{s.priv}); with_key(m, message::to_downstream_with_key_confirmed(give<Move>(m), K2{s.k2}), true, hana::true_c); }
  { auto m = create(message::no_uid, Priv{s.priv}); with_key(m, message::to_downstream_with_key(give<Move>(m), K2{s.k2}), false, hana::false_c); }
  { auto m = create(message::no_uid, message::no_impl{}); with_key(m, message::to_downstream_with_key_confirmed(give<Move>(m), K2{s.k2}), false, hana::true_c); }
  {
    auto m = create(Uid{s.uid}, Priv{s.priv});
    auto d = message::to_downstream(give<Move>(m), s.conf);
    ENSURES((message::is_downstream<decltype(d)> && message::is_create<decltype(d)>), KIND);
    storage_has_no_private(d);
    auto n = message::get_normalized_path(d);
    ENSURES(hana::at_c<0>(n).v == s.k1, PATH); ENSURES(key_is(Key(hana::at_c<1>(n)), 2, s.uid), KEYPATH);
    ENSURES(message::get_uid(d).v == s.uid, UID); ENSURES(message::get_payload(d).v == s.pay, PAY); ENSURES(message::is_confirmed(d) == s.conf, CONF);
  }
  {
    auto m = message::make_upstream_update(path(s), Uid{s.uid}, Pay{s.pay});
    auto d = message::to_downstream(give<Move>(m), s.conf);
    ENSURES((message::is_downstream<decltype(d)> && message::is_update<decltype(d)>), KIND);
    path_is(message::get_path(d), s, PATH); ENSURES(message::get_uid(d).v == s.uid, UID); ENSURES(message::get_payload(d).v == s.pay, PAY); ENSURES(message::is_confirmed(d) == s.conf, CONF);
  }
  {
    auto m = message::make_upstream_update(path(s), Uid{s.uid}, Pay{s.pay});
    auto d = message::to_downstream_confirmed(give<Move>(m));
    path_is(message::get_path(d), s, PATH); ENSURES(message::get_uid(d).v == s.uid, UID); ENSURES(message::get_payload(d).v == s.pay, PAY); ENSURES(message::is_confirmed(d), CONF);
  }
  {
    auto m = message::make_upstream_update(path(s), message::no_uid, Pay{s.pay});
    auto d = message::to_downstream(give<Move>(m), message::no_is_confirmed);
    ENSURES((!message::has_uid<decltype(d)> && !message::has_is_confirmed<decltype(d)>), KIND);
    path_is(message::get_path(d), s, PATH); ENSURES(message::get_payload(d).v == s.pay, PAY); ENSURES(!message::is_confirmed(d), CONF);
  }
  {
    auto m = message::make_upstream_delete(path(s), Uid{s.uid});
    auto d = message::to_downstream(give<Move>(m), s.conf);
    ENSURES((message::is_downstream<decltype(d)> && message::is_delete<decltype(d)>), KIND);
    path_is(message::get_path(d), s, PATH); ENSURES(message::get_uid(d).v == s.uid, UID); ENSURES(message::is_confirmed(d) == s.conf, CONF);
  }
  {
    auto m = message::make_upstream_read(path(s), Uid{s.uid});
    auto d = message::to_downstream_read(give<Move>(m), Pay{s.pay});
    ENSURES((message::is_downstream<decltype(d)> && message::is_read<decltype(d)>), KIND);
    path_is(message::get_path(d), s, PATH); ENSURES(message::get_uid(d).v == s.uid, UID); ENSURES(message::get_payload(d).v == s.pay, PAY);
  }
  {
    auto m = message::make_upstream_read(path(s), message::no_uid);
    auto d = message::to_downstream_read(give<Move>(m), Pay{s.pay});
    ENSURES((!message::has_uid<decltype(d)>), KIND);
    path_is(message::get_path(d), s, PATH); ENSURES(message::get_payload(d).v == s.pay, PAY);
  }
}
CONTRACT(C14_convert) { Sym s = sym(); COVER("message: convert"); convert<false>(s); }
CONTRACT(C14_convert_moved) { Sym s = sym(); COVER("message: convert moved"); convert<true>(s); }
// what a message binds is what it was made with, in the documented order
CONTRACT(C14_bind) {
  Sym s = sym();
  COVER("message: bind");
  auto m = message::make_downstream_update(path(s), Uid{s.uid}, Pay{s.pay}, s.conf);
  bool called = false;
  nbdl::bind_sequence(m, [&](auto const& p, auto const& u, auto const& y, auto const& c) {
    called = true; path_is(p, s, PATH); ENSURES(u.v == s.uid, UID); ENSURES(y.v == s.pay, PAY); ENSURES(c == s.conf, CONF);
  });
  ENSURES(called, "message: binding hands out the parts");
  auto r = message::make_upstream_create(message::make_create_path<Key>(hana::make_tuple(K1{s.k1})), message::no_uid, Pay{s.pay});
  called = false;
  nbdl::bind_sequence(r, [&](auto const& p, auto const& y) { called = true; ENSURES(hana::at_c<0>(p.parent_path).v == s.k1, PATH); ENSURES(y.v == s.pay, PAY); });
  ENSURES(called, "message: binding hands out the parts");
}
