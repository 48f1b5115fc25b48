#include "irv.hpp"
#include <nbdl/entity.hpp>
#include <nbdl/match.hpp>
#include <nbdl/match_path.hpp>
#include <nbdl/get.hpp>
#include <nbdl/get_path.hpp>
#include <nbdl/store_compose.hpp>
#include <nbdl/apply_action.hpp>
#include <nbdl/context_store.hpp>
#include <nbdl/variant.hpp>
#include <boost/hana.hpp>
using namespace irv;
namespace hana = boost::hana;
using namespace hana::literals;

template <int I> struct Val {
  u64 v;
  Val() : v(0) {}
  explicit Val(u64 x) : v(x) {}
  Val(Val const& o) : v(o.v) {}
  Val(Val&& o) : v(o.v) { o.v = ~o.v; }
  Val& operator=(Val const& o) { v = o.v; return *this; }
  Val& operator=(Val&& o) { u64 x = o.v; o.v = ~o.v; v = x; return *this; }
  friend bool operator==(Val const& a, Val const& b) { return a.v == b.v; }
};
struct inner { Val<1> x; Val<1> y; };
struct other { Val<1> x; Val<2> z; };
struct outer { inner first_one; inner second_one; other third; nbdl::optional<inner> maybe; };
namespace nbdl { NBDL_ENTITY(inner, x, y); NBDL_ENTITY(other, x, z); NBDL_ENTITY(outer, first_one, second_one, third, maybe); }
#define REACH "lookup: a key reaches exactly the element it selects"
#define ONCE "lookup: the function is called exactly once with the element"
#define REF "lookup: an element is handed over by reference"
#define PATHR "lookup: a path reaches exactly the element its keys select, level by level"
#define KEPT "lookup: looking up changes nothing"
#define COMP "store_compose: a key reaches exactly the store composed under it"
#define ACT "store_compose: an action reaches exactly the store composed under its key, or the rest"

static inline Val<1> v1(char const* n) { return Val<1>(any<u64>(n)); }
static inline Val<2> v2(char const* n) { return Val<2>(any<u64>(n)); }
#define EXACTLY(expr_with_f, target, n1) do { int calls = 0; bool hit = false; void const* want = static_cast<void const*>(&(target)); auto f = [&](auto&& e_) { ++calls; if constexpr (std::is_lvalue_reference_v<decltype(e_)>) hit = static_cast<void const*>(&e_) == want && std::is_same_v<std::decay_t<decltype(e_)>, std::decay_t<decltype(target)>>; }; expr_with_f; ENSURES(calls == 1, ONCE); ENSURES(hit, n1); } while (0)

CONTRACT(C19_match_key) {
  inner e{v1("x"), v1("y")}; inner const& ce = e;
  u64 x = e.x.v, y = e.y.v;
  COVER("lookup: match");
  EXACTLY(nbdl::match(e, "x"_s, f), e.x, REACH);
  EXACTLY(nbdl::match(e, "y"_s, f), e.y, REACH);
  EXACTLY(nbdl::match(ce, "x"_s, f), e.x, REACH);
  auto m = hana::make_map(hana::make_pair("k1"_s, v1("m1")), hana::make_pair("k2"_s, v1("m2")), hana::make_pair(hana::type_c<int>, v2("m3")));
  EXACTLY(nbdl::match(m, "k1"_s, f), hana::at_key(m, "k1"_s), REACH);
  EXACTLY(nbdl::match(m, "k2"_s, f), hana::at_key(m, "k2"_s), REACH);
  EXACTLY(nbdl::match(m, hana::type_c<int>, f), hana::at_key(m, hana::type_c<int>), REACH);
  auto t = hana::make_tuple(v1("t1"), v2("t2"), Val<3>(any<u64>("t3")));
  EXACTLY(nbdl::match(t, hana::type_c<Val<1>>, f), hana::at_c<0>(t), REACH);
  EXACTLY(nbdl::match(t, hana::type_c<Val<2>>, f), hana::at_c<1>(t), REACH);
  EXACTLY(nbdl::match(t, hana::type_c<Val<3>>, f), hana::at_c<2>(t), REACH);
  auto p = hana::make_pair(v1("p1"), v1("p2"));
  EXACTLY(nbdl::match(p, hana::first, f), hana::first(p), REACH);
  EXACTLY(nbdl::match(p, hana::second, f), hana::second(p), REACH);
  EXACTLY(nbdl::match(std::ref(e), "x"_s, f), e.x, REACH);
  EXACTLY(nbdl::match(std::ref(e), "y"_s, f), e.y, REACH);
  EXACTLY(nbdl::match(std::cref(e), "y"_s, f), e.y, REACH);
  EXACTLY(nbdl::match(e, f), e, REACH);
  ENSURES(e.x.v == x && e.y.v == y, KEPT);
}
CONTRACT(C19_get_key) {
  inner e{v1("x"), v1("y")}; u64 x = e.x.v, y = e.y.v;
  COVER("lookup: get");
  ENSURES(&nbdl::get(e, "x"_s) == &e.x && &nbdl::get(e, "y"_s) == &e.y && &nbdl::get(std::as_const(e), "y"_s) == &e.y, REF);
  auto m = hana::make_map(hana::make_pair("k1"_s, v1("m1")), hana::make_pair("k2"_s, v1("m2")));
  ENSURES(&nbdl::get(m, "k1"_s) == &hana::at_key(m, "k1"_s) && &nbdl::get(m, "k2"_s) == &hana::at_key(m, "k2"_s), REF);
  auto t = hana::make_tuple(v1("t1"), v2("t2"));
  ENSURES(&nbdl::get(t, hana::type_c<Val<1>>) == &hana::at_c<0>(t) && &nbdl::get(t, hana::type_c<Val<2>>) == &hana::at_c<1>(t), REF);
  auto p = hana::make_pair(v1("p1"), v1("p2"));
  ENSURES(&nbdl::get(p, hana::first) == &hana::first(p) && &nbdl::get(p, hana::second) == &hana::second(p), REF);
  ENSURES(&nbdl::get(std::ref(e), "x"_s) == &e.x && &nbdl::get(std::ref(e), "y"_s) == &e.y, REF);
  nbdl::get(e, "y"_s) = Val<1>(5);
  ENSURES(e.x.v == x && e.y.v == 5, REF);
}
static inline outer any_outer(bool has) {
  outer o{{v1("1x"), v1("1y")}, {v1("2x"), v1("2y")}, {v1("3x"), v2("3z")}, {}};
  if (has) o.maybe = inner{v1("4x"), v1("4y")};
  return o;
}
CONTRACT(C19_path) {
  bool has = any<bool>("held");
  outer o = any_outer(has); outer const& c = o;
  COVER("lookup: path");
  auto fo = "first_one"_s; auto so = "second_one"_s; auto th = "third"_s; auto mb = "maybe"_s; auto x = "x"_s; auto y = "y"_s; auto z = "z"_s;
  EXACTLY(nbdl::match_path(o, hana::make_tuple(fo, x), f), o.first_one.x, PATHR);
  EXACTLY(nbdl::match_path(o, hana::make_tuple(fo, y), f), o.first_one.y, PATHR);
  EXACTLY(nbdl::match_path(o, hana::make_tuple(so, x), f), o.second_one.x, PATHR);
  EXACTLY(nbdl::match_path(c, hana::make_tuple(so, y), f), o.second_one.y, PATHR);
  EXACTLY(nbdl::match_path(o, hana::make_tuple(th, z), f), o.third.z, PATHR);
  EXACTLY(nbdl::match_path(o, hana::make_tuple(th), f), o.third, PATHR);
  EXACTLY(nbdl::match_path(o, hana::make_tuple(), f), o, PATHR);
  ENSURES(&nbdl::get_path(o, hana::make_tuple(fo, x)) == &o.first_one.x, PATHR);
  ENSURES(&nbdl::get_path(o, hana::make_tuple(so, x)) == &o.second_one.x, PATHR);
  ENSURES(&nbdl::get_path(o, hana::make_tuple(so, y)) == &o.second_one.y, PATHR);
  ENSURES(&nbdl::get_path(o, hana::make_tuple(th, z)) == &o.third.z, PATHR);
  ENSURES(&nbdl::get_path(o, hana::make_tuple(th)) == &o.third, PATHR);
  // through a variant: the element if it is there, else what is there instead
  int calls = 0, empty = 0; bool hit = true; u64 want = 0;
  nbdl::match(o.maybe, hana::overload([&](inner const& i) { want = i.y.v; }, [](auto const&) {}));
  nbdl::match_path(o, hana::make_tuple(mb, y), [&](Val<1> const& e) { ++calls; hit = hit && e.v == want; }, [&](nbdl::nothing const&) { ++empty; }, [&](auto const&) { hit = false; });
  ENSURES(hit && calls == (has ? 1 : 0) && empty == (has ? 0 : 1), PATHR);
  // one of several functions: the first that accepts
  int one = 0, two = 0;
  nbdl::match_path(o, hana::make_tuple(th, z), [&](Val<1> const&) { ++one; }, [&](Val<2> const& e) { two += e.v == o.third.z.v; });
  ENSURES(one == 0 && two == 1, ONCE);
}
CONTRACT(C19_match_when_key) {
  inner e{v1("x"), v1("y")}; int a = 0, b = 0;
  nbdl::match_when<Val<1>>(e, "y"_s, [&](Val<1> const& v) { a += v.v == e.y.v; });
  nbdl::match_when<Val<2>>(e, "y"_s, [&](auto const&) { ++b; });
  ENSURES(a == 1 && b == 0, ONCE);
  int c = 0, d = 0, o = 0;
  auto mo = nbdl::mapped_overload(hana::make_map(hana::make_pair(hana::type_c<Val<1>>, [&](Val<1> const& v) { c += v.v == e.x.v; }), hana::make_pair(hana::type_c<Val<2>>, [&](Val<2> const&) { ++d; })), [&](auto const&) { ++o; });
  nbdl::match(e, "x"_s, mo);
  ENSURES(c == 1 && d == 0 && o == 0, ONCE);
}
template <int I> struct Key {};
CONTRACT(C19_compose) {
  Val<1> shared = v1("shared"); inner base{v1("x"), v1("y")}, nested{v1("nx"), v1("ny")};
  u64 bx = base.x.v, by = base.y.v, sh = shared.v;
  Val<1> own = v1("own"); u64 ow = own.v; u64 nx = nested.x.v, ny = nested.y.v;
  auto s = nbdl::store_compose(Key<1>{}, own, nbdl::store_compose(Key<2>{}, std::ref(shared), nbdl::store_compose(Key<3>{}, nested, base)));
  COVER("lookup: compose");
  int n = 0; u64 got = 0;
  auto see = [&](auto& v) { ++n; if constexpr (std::is_same_v<std::decay_t<decltype(v)>, Val<1>>) got = v.v; else if constexpr (std::is_same_v<std::decay_t<decltype(v)>, std::reference_wrapper<Val<1>>>) got = v.get().v; else got = 0; };
  nbdl::match(s, Key<1>{}, see); ENSURES(n == 1 && got == ow, COMP);
  nbdl::match(s, Key<2>{}, see); ENSURES(n == 2 && got == sh, COMP);
  nbdl::match(s, "x"_s, see); ENSURES(n == 3 && got == bx, COMP);
  nbdl::match(s, "y"_s, see); ENSURES(n == 4 && got == by, COMP);
  nbdl::match(s, Key<3>{}, [&](auto& v) { ++n; if constexpr (std::is_same_v<std::decay_t<decltype(v)>, inner>) got = v.x.v ^ (v.y.v * 3); else got = ~(nx ^ (ny * 3)); });
  ENSURES(n == 5 && got == (nx ^ (ny * 3)), COMP);
  ENSURES(own.v == ow && shared.v == sh && base.x.v == bx && base.y.v == by && nested.x.v == nx, KEPT);
}
// the composed parts are handed over by reference: a change through it is seen by the next lookup, and only there
CONTRACT(C19_compose_by_reference) {
  Val<1> shared = v1("shared"); inner base{v1("x"), v1("y")}, nested{v1("nx"), v1("ny")};
  u64 own = any<u64>("own"), sh = shared.v, bx = base.x.v, by = base.y.v, nx = nested.x.v, ny = nested.y.v, to = any<u64>("new value");
  auto s = nbdl::store_compose(Key<1>{}, Val<2>(own), nbdl::store_compose(Key<2>{}, std::ref(shared), nbdl::store_compose(Key<3>{}, nested, nbdl::store_compose(Key<4>{}, 7u, base))));
  int which = (int)irv_value(below("key", 5));
  COVER("lookup: compose by reference");
  switch (which) {
    case 0: nbdl::match(s, Key<1>{}, [&](auto& v) { v.v = to; }); break;
    case 1: nbdl::match(s, Key<2>{}, [&](auto& v) { if constexpr (std::is_same_v<std::decay_t<decltype(v)>, Val<1>>) v.v = to; else v.get().v = to; }); break;
    case 2: nbdl::match(s, Key<3>{}, [&](auto& v) { v.y.v = to; }); break;
    case 3: nbdl::match(s, Key<4>{}, [&](auto& v) { v = (unsigned)to; }); break;
    case 4: nbdl::match(s, "x"_s, [&](auto& v) { v.v = to; }); break;
  }
  u64 g1 = 0, g3 = 0, g3x = 0, gx = 0, gy = 0; unsigned g4 = 0; void const* p1 = nullptr;
  nbdl::match(s, Key<1>{}, [&](auto& v) { g1 = v.v; p1 = &v; }); nbdl::match(s, Key<3>{}, [&](auto& v) { g3 = v.y.v; g3x = v.x.v; }); nbdl::match(s, Key<4>{}, [&](auto& v) { g4 = v; });
  nbdl::match(s, "x"_s, [&](auto& v) { gx = v.v; }); nbdl::match(s, "y"_s, [&](auto& v) { gy = v.v; });
  ENSURES(g1 == (which == 0 ? to : own) && shared.v == (which == 1 ? to : sh) && g3 == (which == 2 ? to : ny) && g3x == nx && g4 == (which == 3 ? (unsigned)to : 7u) && gx == (which == 4 ? to : bx) && gy == by, REF);
  ENSURES(nested.y.v == ny && base.x.v == bx, KEPT);
  // the element is a part of the store, the same one each time
  nbdl::match(s, Key<1>{}, [&](auto& v) { ENSURES(static_cast<void const*>(&v) == p1, REF); });
}
CONTRACT(C19_compose_action) {
  Val<1> a = v1("a"), b = v1("b"); inner base{v1("x"), v1("y")}; Val<1> c = v1("c");
  u64 av = a.v, bv = b.v, cv = c.v, x = base.x.v, y = base.y.v;
  auto s = nbdl::store_compose(Key<1>{}, a, nbdl::store_compose(Key<2>{}, std::ref(b), nbdl::store_compose(Key<3>{}, c, base)));
  int which = below("key", 4); u64 to = any<u64>("new value"); int ran = 0;
  auto set = [&](auto& v) { ++ran; if constexpr (std::is_same_v<std::decay_t<decltype(v)>, Val<1>>) v.v = to; else { v.x.v = to; } };
  COVER("lookup: action");
  switch (which) {
    case 0: nbdl::apply_action(s, set); break;
    case 1: nbdl::apply_action(s, nbdl::store_composite_action(Key<1>{}, set)); break;
    case 2: nbdl::apply_action(s, nbdl::store_composite_action(Key<2>{}, set)); break;
    case 3: nbdl::apply_action(s, nbdl::store_composite_action(Key<3>{}, set)); break;
  }
  ENSURES(ran == 1, ACT);
  u64 g1 = 0, g2 = b.v, g3 = 0, gx = 0, gy = 0;
  nbdl::match(s, Key<1>{}, [&](auto& v) { g1 = v.v; }); nbdl::match(s, Key<3>{}, [&](auto& v) { g3 = v.v; });
  nbdl::match(s, "x"_s, [&](auto& v) { gx = v.v; }); nbdl::match(s, "y"_s, [&](auto& v) { gy = v.v; });
  ENSURES(g1 == (which == 1 ? to : av) && g2 == (which == 2 ? to : bv) && g3 == (which == 3 ? to : cv) && gx == (which == 0 ? to : x) && gy == y, ACT);
  ENSURES(a.v == av && c.v == cv && base.x.v == x, ACT);
  // assigning actions
  Val<1> w = v1("w"); u64 wv = w.v; nbdl::apply_action(s, nbdl::store_composite_action(Key<3>{}, w));
  nbdl::match(s, Key<3>{}, [&](auto& v) { g3 = v.v; }); nbdl::match(s, Key<1>{}, [&](auto& v) { g1 = v.v; }); nbdl::match(s, "x"_s, [&](auto& v) { gx = v.v; });
  ENSURES(g3 == wv && g1 == (which == 1 ? to : av) && gx == (which == 0 ? to : x) && b.v == (which == 2 ? to : bv), ACT);
}
CONTRACT(C19_action) {
  inner e{v1("x"), v1("y")}, f{v1("fx"), v1("fy")}; u64 fx = f.x.v, fy = f.y.v;
  COVER("lookup: plain action");
  auto r = nbdl::apply_action(e, f);
  ENSURES(r && e.x.v == fx && e.y.v == fy && f.x.v == fx, "apply_action: assigns the action if it can be assigned");
  u64 to = any<u64>("to"); int ran = 0;
  auto q = nbdl::apply_action(e, [&](inner& i) { ++ran; i.y.v = to; });
  ENSURES(q && ran == 1 && e.x.v == fx && e.y.v == to, "apply_action: else applies it to the store");
  ran = 0;
  nbdl::apply_action(std::ref(e), [&](inner& i) { ++ran; i.x.v = to; });
  ENSURES(ran == 1 && e.x.v == to && e.y.v == to, "apply_action: reaches through references");
}
CONTRACT(C19_context_store) {
  nbdl::context_store_t<Val<1>> s; s.store = v1("value"); u64 v = s.store.v;
  auto path = hana::make_tuple(1, 2);
  COVER("lookup: context store");
  EXACTLY(nbdl::match(s, path, f), s.store, REACH);
  ENSURES(&nbdl::get(s, path) == &s.store, REF);
  Val<1> n = v1("new"); u64 nv = n.v;
  bool changed = nbdl::apply_message(s, nbdl::message::make_downstream_update(path, nbdl::message::no_uid, n, nbdl::message::no_is_confirmed));
  ENSURES(changed && s.store.v == nv, "context_store: a downstream update replaces the value");
  bool c2 = nbdl::apply_message(s, nbdl::message::make_downstream_create(path, nbdl::message::no_uid, v1("p"), nbdl::message::no_is_confirmed));
  bool c3 = nbdl::apply_message(s, nbdl::message::make_upstream_update(path, nbdl::message::no_uid, v1("p")));
  bool c4 = nbdl::apply_message(s, nbdl::message::make_downstream_delete(path, nbdl::message::no_uid, nbdl::message::no_is_confirmed));
  ENSURES(!c2 && !c3 && !c4 && s.store.v == nv, "context_store: no other message changes the value");
  nbdl::context_store_t<inner> t; t.store = inner{v1("x"), v1("y")};
  EXACTLY(nbdl::match(t, path, f), t.store, REACH);
  int calls = 0; nbdl::match_path(t, hana::make_tuple(path, "y"_s), [&](Val<1> const& e) { calls += &e == &t.store.y; });
  ENSURES(calls == 1, PATHR);
}
