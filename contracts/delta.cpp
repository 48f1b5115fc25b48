#include "irv.hpp"
#include <nbdl/entity.hpp>
#include <nbdl/delta.hpp>
#include <boost/hana/equal.hpp>
using namespace irv;
namespace hana = boost::hana;

// An entity of four fields of different types; Tok notices moves, so that a field taken twice shows.
struct Tok {
  u64 v;
  Tok() : v(0) {}
  explicit Tok(u64 x) : v(x) {}
  Tok(Tok const& o) : v(o.v) {}
  Tok(Tok&& o) : v(o.v) { o.v = ~o.v; }
  Tok& operator=(Tok const& o) { v = o.v; return *this; }
  Tok& operator=(Tok&& o) { u64 x = o.v; o.v = ~o.v; v = x; return *this; }
  friend bool operator==(Tok const& a, Tok const& b) { return a.v == b.v; }
  friend bool operator!=(Tok const& a, Tok const& b) { return a.v != b.v; }
};
struct entity { int a; Tok b; unsigned char c; bool d; };
namespace nbdl { NBDL_ENTITY(entity, a, b, c, d); }
using Delta = nbdl::delta<entity>;
#define REC "delta: exactly the differing fields are recorded"
#define CONTENT "delta: a recorded field has the first value's contents"
#define UNTOUCHED "delta: what it is made from or applied from does not change"
#define APPLIED "delta: applying changes exactly the recorded fields, to the recorded contents"
#define REPORT "delta: a change is reported exactly if a field's value changed"
#define COMPOSED "delta: composing keeps the later contents and the earlier ones of all other fields"

// plain picture of an entity and of a delta
struct E { u64 f[4]; };
struct D { bool has[4]; u64 f[4]; };
static inline E any_e(char const* n) { return E{{any<u32>(n), any<u64>(n), any<u8>(n), (u64)any<bool>(n)}}; }
static inline entity real(E const& e) { return entity{(int)(u32)e.f[0], Tok(e.f[1]), (unsigned char)e.f[2], e.f[3] != 0}; }
static inline E look(entity const& e) { return E{{(u32)e.a, e.b.v, e.c, (u64)e.d}}; }
static inline u64 num(int x) { return (u32)x; }
static inline u64 num(Tok const& x) { return x.v; }
static inline u64 num(unsigned char x) { return x; }
static inline u64 num(bool x) { return x; }
static inline D look(Delta const& d) {
  D r{};
  nbdl::bind_sequence(d, [&](auto const& ...o) {
    static_assert(sizeof...(o) == 4);
    int i = 0;
    ((o.match([&](nbdl::nothing) { r.has[i] = false; }, [&](auto const& x) { r.has[i] = true; r.f[i] = num(x); }), ++i), ...);
  });
  return r;
}
template <typename T> static inline nbdl::optional<T> opt(bool has, T const& x) { if (has) return nbdl::optional<T>(x); return nbdl::optional<T>(nbdl::nothing{}); }
static inline D any_d(char const* n) {
  E e = any_e(n); D d;
  for (int i = 0; i < 4; i++) { d.has[i] = any<bool>("present"); d.f[i] = e.f[i]; }
  return d;
}
static inline Delta real(D const& d) {
  entity e = real(E{{d.f[0], d.f[1], d.f[2], d.f[3]}});
  return Delta(typename Delta::storage_t(opt(d.has[0], e.a), opt(d.has[1], e.b), opt(d.has[2], e.c), opt(d.has[3], e.d)));
}
static inline bool same(E const& x, E const& y) { bool r = true; for (int i = 0; i < 4; i++) r = r & (x.f[i] == y.f[i]); return r; }
static inline bool same(D const& x, D const& y) { bool r = true; for (int i = 0; i < 4; i++) r = r & (x.has[i] == y.has[i]) & (!x.has[i] | (x.f[i] == y.f[i])); return r; }

CONTRACT(C11_make_from_two) {
  E x = any_e("first"), y = any_e("second");
  entity a = real(x), b = real(y);
  COVER("delta: made from two");
  Delta d = nbdl::make_delta<nbdl::delta_tag>(a, b);
  D r = look(d);
  for (int i = 0; i < 4; i++) {
    ENSURES(r.has[i] == (x.f[i] != y.f[i]), REC);
    ENSURES(!r.has[i] | (r.f[i] == x.f[i]), CONTENT);
  }
  ENSURES(same(look(a), x) & same(look(b), y), UNTOUCHED);
  bool changed = nbdl::apply_delta(d, b);
  ENSURES(same(look(b), x), "delta: applying the difference to the second value gives the first");
  ENSURES(changed == !same(x, y), REPORT);
  ENSURES(same(look(d), r), UNTOUCHED);
}
CONTRACT(C11_make_from_one) {
  E x = any_e("value"); entity a = real(x);
  Delta d = nbdl::make_delta<nbdl::delta_tag>(a);
  D r = look(d);
  for (int i = 0; i < 4; i++) { ENSURES(r.has[i], "delta: a delta of one value records every field"); ENSURES(r.f[i] == x.f[i], CONTENT); }
  ENSURES(same(look(a), x), UNTOUCHED);
}
CONTRACT(C11_apply) {
  D p = any_d("delta"); E y = any_e("value");
  Delta d = real(p); entity b = real(y);
  COVER("delta: apply");
  bool changed = nbdl::apply_delta(d, b);
  E after = look(b); bool diff = false;
  for (int i = 0; i < 4; i++) {
    u64 want = ite(p.has[i], p.f[i], y.f[i]); diff = diff | (want != y.f[i]);
    ENSURES(after.f[i] == want, APPLIED);
  }
  ENSURES(changed == diff, REPORT);
  ENSURES(same(look(d), p), UNTOUCHED);
  ENSURES(!nbdl::apply_delta(d, b), REPORT);
  ENSURES(same(look(b), after), APPLIED);
}
CONTRACT(C11_compose) {
  D p = any_d("later"), q = any_d("earlier");
  Delta d = real(p), e = real(q);
  COVER("delta: compose");
  bool changed = nbdl::apply_delta(d, e);
  D want = q; bool diff = false, some = false;
  for (int i = 0; i < 4; i++) {
    want.has[i] = p.has[i] | q.has[i]; want.f[i] = ite(p.has[i], p.f[i], q.f[i]);
    diff = diff | (p.has[i] & (!q.has[i] | (p.f[i] != q.f[i]))); some = some | p.has[i];
  }
  ENSURES(same(look(e), want), COMPOSED);
  ENSURES(same(look(d), p), UNTOUCHED);
  ENSURES(changed | !diff, "delta: composing reports a change");
  ENSURES(some | !changed, "delta: composing nothing reports no change");
}
CONTRACT(C11_default) {
  Delta d; E y = any_e("value"); entity b = real(y);
  D r = look(d); bool none = true; for (int i = 0; i < 4; i++) none = none & !r.has[i];
  ENSURES(none, "delta: a fresh delta records nothing");
  ENSURES(!nbdl::apply_delta(d, b), REPORT);
  ENSURES(same(look(b), y), APPLIED);
}
