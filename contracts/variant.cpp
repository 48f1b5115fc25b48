#include "irv.hpp"
#include <nbdl/variant.hpp>
#include <nbdl/bind_variant.hpp>
#include <nbdl/match.hpp>
#include <nbdl/get.hpp>
#include <boost/hana.hpp>
using namespace irv;
namespace hana = boost::hana;

// Alternatives that count how many of them are alive and notice that they were moved out of.
static int live;
template <int I> struct Alt {
  u64 v;
  Alt() : v(0) { ++live; }
  explicit Alt(u64 x) : v(x) { ++live; }
  Alt(Alt const& o) : v(o.v) { ++live; }
  Alt(Alt&& o) : v(o.v) { o.v = ~o.v; ++live; }
  Alt& operator=(Alt const& o) { v = o.v; return *this; }
  Alt& operator=(Alt&& o) { u64 x = o.v; o.v = ~o.v; v = x; return *this; }
  ~Alt() { --live; }
  friend bool operator==(Alt const& a, Alt const& b) { return a.v == b.v; }
  friend bool operator!=(Alt const& a, Alt const& b) { return a.v != b.v; }
};
struct Empty {};
using A = Alt<1>; using B = Alt<2>; using C = unsigned char; using X = Alt<9>;
using V = nbdl::variant<A, B, C, Empty>;          // alternatives 0 (unresolved) to 4
struct S { int id; u64 v; };                        // which alternative, which value
#define DEFAULT "variant: a new variant holds its default alternative"
#define HOLDS "variant: holds exactly the alternative and value last assigned"
#define ONCE "variant: matching calls exactly one handler, once, with the held value"
#define WHEN "variant: matching one type calls its handler exactly when that type is held"
#define EQ "variant: equal exactly when the same alternative is held with an equal value"
#define BIND "variant: an equal variant is reconstructed from what it binds"
#define UNKNOWN "variant: an unknown type id changes nothing"
#define LIVE "variant: keeps exactly one alternative alive"

static inline S any_s(char const* n) { S s{(int)below(n, 5), any<u64>(n)}; if (s.id == 0 || s.id == 4) s.v = 0; if (s.id == 3) s.v &= 0xff; return s; }
static inline V make(S const& s) {
  switch (s.id) { case 1: return V(A(s.v)); case 2: return V(B(s.v)); case 3: return V(C(s.v)); case 4: return V(Empty{}); }
  return V(nbdl::unresolved{});
}
static inline void put(V& v, S const& s) {
  switch (s.id) { case 1: v = A(s.v); return; case 2: v = B(s.v); return; case 3: v = C(s.v); return; case 4: v = Empty{}; return; }
  v = nbdl::unresolved{};
}
struct Seen { int calls = 0, id = -1; u64 v = 0; };
// a handler for each alternative, a shared record
template <typename Vr> static inline Seen visit(Vr&& v) {
  Seen s;
  v.match([&](nbdl::unresolved const&) { ++s.calls; s.id = 0; }, [&](A const& a) { ++s.calls; s.id = 1; s.v = a.v; }, [&](B const& b) { ++s.calls; s.id = 2; s.v = b.v; },
          [&](C const& c) { ++s.calls; s.id = 3; s.v = c; }, [&](Empty const&) { ++s.calls; s.id = 4; });
  return s;
}
static inline bool is(Seen const& s, S const& w) { return (s.calls == 1) & (s.id == w.id) & (s.v == w.v); }
static inline int alive(S const& w) { return (w.id == 1) | (w.id == 2); }

CONTRACT(C12_default) {
  live = 0;
  V v; nbdl::optional<A> o;
  ENSURES(v.get_type_id() == 0 && v.is<nbdl::unresolved>() && is(visit(v), S{0, 0}), DEFAULT);
  ENSURES(o.get_type_id() == 0 && o.is<nbdl::nothing>(), DEFAULT);
  ENSURES(live == 0, LIVE);
}
CONTRACT(C12_assign) {
  live = 0;
  {
    S a = any_s("before"), b = any_s("after");
    V v = make(a);
    ENSURES(live == alive(a), LIVE);
    COVER("variant: assign");
    put(v, b);
    ENSURES(v.get_type_id() == b.id, HOLDS);
    ENSURES(v.is<A>() == (b.id == 1) && v.is<B>() == (b.id == 2) && v.is<C>() == (b.id == 3) && v.is<Empty>() == (b.id == 4) && v.is<nbdl::unresolved>() == (b.id == 0), HOLDS);
    ENSURES(is(visit(v), b), HOLDS);
    ENSURES(live == alive(b), LIVE);
    V w = make(a); w = v;
    ENSURES(is(visit(w), b) && is(visit(v), b), HOLDS);
    ENSURES(live == 2 * alive(b), LIVE);
    V u(std::move(w));
    ENSURES(is(visit(u), b), HOLDS);
  }
  ENSURES(live == 0, LIVE);
}
CONTRACT(C12_match) {
  live = 0;
  S a = any_s("held"); V v = make(a); V const& cv = v;
  COVER("variant: match");
  ENSURES(is(visit(v), a) && is(visit(cv), a), ONCE);
  Seen s; int other = 0;
  // through nbdl::match, with a handler for some and a handler for all others
  nbdl::match(v, hana::overload([&](B const& b) { ++s.calls; s.id = 2; s.v = b.v; }, [&](C const& c) { ++s.calls; s.id = 3; s.v = c; }, [&](auto const&) { ++other; }));
  ENSURES((a.id == 2 || a.id == 3) ? (is(s, a) && other == 0) : (s.calls == 0 && other == 1), ONCE);
  // in order, the first that accepts
  int first = 0, second = 0;
  v.match([&](A&) { ++first; }, [&](auto&) { ++second; });
  ENSURES(first == (a.id == 1) && second == (a.id != 1), ONCE);
  // a reference to what is held
  v.match([&](A& x) { x.v = 7; }, [&](auto&) {});
  v.match([&](A& x) { ENSURES(x.v == 7, ONCE); }, [&](auto&) {});
  // with a key
  int k = 0; nbdl::match(cv, 5, [&](auto const&) { ++k; }); ENSURES(k == 1, ONCE);
}
CONTRACT(C12_match_when) {
  live = 0;
  S a = any_s("held"); V v = make(a);
  int na = 0, nb = 0, nc = 0, ne = 0, nu = 0, nx = 0; bool val = true;
  nbdl::match_when<A>(v, [&](A const& x) { ++na; val = val & (x.v == a.v); });
  nbdl::match_when<B>(v, [&](B const& x) { ++nb; val = val & (x.v == a.v); });
  nbdl::match_when<C>(v, [&](C const& x) { ++nc; val = val & (x == a.v); });
  nbdl::match_when<Empty>(v, [&](Empty const&) { ++ne; });
  nbdl::match_when<nbdl::unresolved>(v, [&](nbdl::unresolved const&) { ++nu; });
  nbdl::match_when<X>(v, [&](auto const&) { ++nx; });
  ENSURES(nu == (a.id == 0) && na == (a.id == 1) && nb == (a.id == 2) && nc == (a.id == 3) && ne == (a.id == 4) && nx == 0, WHEN);
  ENSURES(val, WHEN);
  ENSURES(is(visit(v), a), WHEN);
}
CONTRACT(C12_equal) {
  live = 0;
  S a = any_s("left"), b = any_s("right");
  V x = make(a), y = make(b);
  COVER("variant: equal");
  bool want = (a.id == b.id) & (a.v == b.v);
  bool e = hana::equal(x, y), f = hana::equal(y, x), n = hana::not_equal(x, y);
  ENSURES(e == want && f == want && n == !want, EQ);
  ENSURES(hana::equal(x, x), EQ);
  ENSURES(is(visit(x), a) && is(visit(y), b), EQ);
}
// alternatives of other kinds: trivially copyable ones, pointers, enums, one that does not look at all of itself
struct Plain { u32 a, b; friend bool operator==(Plain const& x, Plain const& y) { return (x.a == y.a) & (x.b == y.b); } friend bool operator!=(Plain const& x, Plain const& y) { return !(x == y); } };
struct Lax { u32 a, junk; friend bool operator==(Lax const& x, Lax const& y) { return x.a == y.a; } friend bool operator!=(Lax const& x, Lax const& y) { return !(x == y); } };
enum class Colour : u8 { red, green };
using Kinds = nbdl::variant<Plain, Lax, Colour, bool, u64, hana::tuple<u8, u8>>;
struct KS { int id; u64 v; };
static inline KS any_ks(char const* n) { KS s{(int)below(n, 7), any<u64>(n)}; return s; }
static inline Kinds make(KS const& s) {
  switch (s.id) { case 1: return Kinds(Plain{(u32)s.v, (u32)(s.v >> 32)}); case 2: return Kinds(Lax{(u32)s.v, (u32)(s.v >> 32)}); case 3: return Kinds((Colour)(u8)s.v); case 4: return Kinds((s.v & 1) != 0); case 5: return Kinds(s.v); case 6: return Kinds(hana::make_tuple((u8)s.v, (u8)(s.v >> 8))); }
  return Kinds();
}
static inline u64 part_of(KS const& s) { switch (s.id) { case 1: return s.v; case 2: return (u32)s.v; case 3: return (u8)s.v; case 4: return s.v & 1; case 5: return s.v; case 6: return (u16)s.v; } return 0; }
CONTRACT(C12_kinds) {
  KS a = any_ks("left"), b = any_ks("right");
  Kinds x = make(a), y = make(b);
  COVER("variant: kinds");
  bool want = (a.id == b.id) & (part_of(a) == part_of(b));
  ENSURES(hana::equal(x, y) == want && hana::equal(y, x) == want && hana::not_equal(x, y) == !want, EQ);
  Seen s; auto see = [&](int id, u64 v) { ++s.calls; s.id = id; s.v = v; };
  x.match([&](auto const& p) {
    using T = std::decay_t<decltype(p)>;
    if constexpr (std::is_same_v<T, nbdl::unresolved>) see(0, 0); else if constexpr (std::is_same_v<T, Plain>) see(1, p.a | (u64)p.b << 32); else if constexpr (std::is_same_v<T, Lax>) see(2, p.a); else if constexpr (std::is_same_v<T, Colour>) see(3, (u8)p);
    else if constexpr (std::is_same_v<T, bool>) see(4, p); else if constexpr (std::is_same_v<T, u64>) see(5, p); else see(6, hana::at_c<0>(p) | (u64)hana::at_c<1>(p) << 8);
  });
  ENSURES(s.calls == 1 && s.id == a.id && s.v == part_of(a), ONCE);
  ENSURES(x.get_type_id() == a.id, HOLDS);
}
CONTRACT(C12_bind) {
  live = 0;
  {
    S a = any_s("bound"), b = any_s("old");
    V x = make(a), y = make(b);
    COVER("variant: bind");
    int calls = 0, calls2 = 0;
    // alternatives without state bind their type id only
    nbdl::bind_variant(std::as_const(x), [&](int id, auto const&... value) {
      ++calls;
      ENSURES(id == a.id, BIND);
      ENSURES((sizeof...(value) == 0) == (a.id == 0 || a.id == 4), BIND);
      nbdl::bind_variant(id, y, [&](int id2, auto&... out) {
        ++calls2;
        ENSURES(id2 == id, BIND);
        constexpr bool same = std::is_same_v<hana::basic_tuple<std::decay_t<decltype(out)>...>, hana::basic_tuple<std::decay_t<decltype(value)>...>>;
        ENSURES(same, BIND);
        if constexpr (same) ((out = value), ...);
      });
    });
    ENSURES(calls == 1 && calls2 == 1, BIND);
    ENSURES(is(visit(y), a) && is(visit(x), a), BIND);
    ENSURES(bool(hana::equal(x, y)), BIND);
    ENSURES(live == 2 * alive(a), LIVE);
  }
  ENSURES(live == 0, LIVE);
}
CONTRACT(C12_unknown) {
  live = 0;
  S b = any_s("old"); V y = make(b);
  int id = (int)any<u32>("type id"); REQUIRES(id < 0 || id > 4);
  COVER("variant: unknown");
  int calls = 0;
  nbdl::bind_variant(id, y, [&](int, auto&...) { ++calls; });
  ENSURES(calls == 0 && is(visit(y), b), UNKNOWN);
  y.match_by_type(id, [&](auto) { ++calls; });
  ENSURES(calls == 0, UNKNOWN);
}
CONTRACT(C12_by_type) {
  live = 0;
  V y; int id = below("type id", 5), calls = 0, got = -1;
  y.match_by_type(id, [&](auto t) {
    using T = typename decltype(t)::type; ++calls;
    got = std::is_same_v<T, nbdl::unresolved> ? 0 : std::is_same_v<T, A> ? 1 : std::is_same_v<T, B> ? 2 : std::is_same_v<T, C> ? 3 : std::is_same_v<T, Empty> ? 4 : -2;
  });
  ENSURES(calls == 1 && got == id, "variant: a type id names its alternative");
}
CONTRACT(C12_optional) {
  live = 0;
  {
    u64 x = any<u64>("x"); bool c = any<bool>("condition");
    A a(x);
    auto o = nbdl::make_optional(a);
    auto p = nbdl::make_optional_if(c, a);
    ENSURES(a.v == x, "optional: its source stays");
    int j = 0, n = 0; o.match([&](nbdl::nothing) { ++n; }, [&](A const& y) { j += y.v == x; }); ENSURES(j == 1 && n == 0, "optional: holds the value given");
    j = n = 0; p.match([&](nbdl::nothing) { ++n; }, [&](A const& y) { j += y.v == x; }); ENSURES(j == (c ? 1 : 0) && n == (c ? 0 : 1), "optional: holds the value exactly if the condition holds");
  }
  ENSURES(live == 0, LIVE);
}
// a variant of variants reaches the innermost value, once
CONTRACT(C12_nested) {
  live = 0;
  using W = nbdl::variant<V, X>;
  S a = any_s("inner"); bool in = any<bool>("nested"); u64 xv = any<u64>("x");
  W w = in ? W(make(a)) : W(X(xv));
  Seen s; int nx = 0;
  nbdl::match(w, hana::overload([&](nbdl::unresolved const&) { ++s.calls; s.id = 0; }, [&](A const& q) { ++s.calls; s.id = 1; s.v = q.v; }, [&](B const& q) { ++s.calls; s.id = 2; s.v = q.v; },
          [&](C const& c) { ++s.calls; s.id = 3; s.v = c; }, [&](Empty const&) { ++s.calls; s.id = 4; }, [&](X const& x) { ++nx; ENSURES(x.v == xv, ONCE); }));
  ENSURES(in ? (is(s, a) && nx == 0) : (s.calls == 0 && nx == 1), ONCE);
}
