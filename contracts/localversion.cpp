#include "irv.hpp"
#include <nbdl/entity.hpp>
#include <nbdl/local_version.hpp>
#include <nbdl/message.hpp>
#include <nbdl/match.hpp>
#include <nbdl/get.hpp>
#include <boost/hana.hpp>
using namespace irv;
namespace hana = boost::hana; namespace message = nbdl::message;

struct Tok {
  u64 v;
  Tok() : v(0) {}
  explicit Tok(u64 x) : v(x) {}
  Tok(Tok const& o) : v(o.v) {}
  Tok(Tok&& o) : v(o.v) { o.v = ~o.v; }
  Tok& operator=(Tok const& o) { v = o.v; return *this; }
  Tok& operator=(Tok&& o) { u64 x = o.v; o.v = ~o.v; v = x; return *this; }
  friend bool operator==(Tok const& a, Tok const& b) { return a.v == b.v; }
  friend bool operator!=(Tok const& a, Tok const& b) { return a.v != b.v; }
};
struct entity { int a; Tok b; };
namespace nbdl { NBDL_ENTITY(entity, a, b); }
using Delta = nbdl::delta<entity>; using Local = nbdl::local_version<entity>;
static constexpr int NF = 2;
#define SEEN "local_version: a change of another client or a local change is visible at once, and nothing else changes"
#define KEEP "local_version: confirming an own change while others are outstanding does not change the visible value"
#define CONVERGE "local_version: without outstanding changes the visible value is the confirmed one"
#define BOOK "local_version: exactly the unconfirmed local changes are outstanding"
#define PENDING "local_version: a field no outstanding change touches is pending with, or already shows, its confirmed value"
#define LOOK "local_version: lookups show the visible value"

struct E { u64 f[NF]; };
struct D { bool has[NF]; u64 f[NF]; };
static inline u64 num(int x) { return (u32)x; }
static inline u64 num(Tok const& x) { return x.v; }
static inline E any_e(char const* n) { return E{{any<u32>(n), any<u64>(n)}}; }
static inline entity real(E const& e) { return entity{(int)(u32)e.f[0], Tok(e.f[1])}; }
static inline E look(entity const& e) { return E{{num(e.a), e.b.v}}; }
static inline D look(Delta const& d) {
  D r{}; int i = 0;
  nbdl::bind_sequence(d, [&](auto const& ...o) { ((o.match([&](nbdl::nothing) { r.has[i] = false; }, [&](auto const& x) { r.has[i] = true; r.f[i] = num(x); }), ++i), ...); });
  return r;
}
template <typename T> static inline nbdl::optional<T> opt(bool has, T const& x) { if (has) return nbdl::optional<T>(x); return nbdl::optional<T>(nbdl::nothing{}); }
static inline D any_d(char const* n) { E e = any_e(n); D d; for (int i = 0; i < NF; i++) { d.has[i] = any<bool>("touches"); d.f[i] = e.f[i]; } return d; }
static inline Delta real(D const& d) {
  entity e = real(E{{d.f[0], d.f[1]}});
  return Delta(typename Delta::storage_t(opt(d.has[0], e.a), opt(d.has[1], e.b)));
}
static inline bool same(E const& x, E const& y) { bool r = true; for (int i = 0; i < NF; i++) r = r & (x.f[i] == y.f[i]); return r; }
static inline E with(E const& x, D const& d) { E r; for (int i = 0; i < NF; i++) r.f[i] = ite(d.has[i], d.f[i], x.f[i]); return r; }
static inline E seen(Local& s) {
  E got{}; int calls = 0;
  nbdl::match(s, [&](entity const& e) { ++calls; got = look(e); });
  E g2 = look(nbdl::get(s));
  ENSURES(calls == 1 && same(got, g2), LOOK);
  return got;
}
static inline nbdl::uid id(u64 hi, u64 lo) { nbdl::uid r; for (int i = 0; i < 8; ++i) { r[i] = (u8)(hi >> 8 * i); r[8 + i] = (u8)(lo >> 8 * i); } return r; }
static inline auto local(nbdl::uid const& u, D const& d) { return message::make_upstream_update(hana::make_tuple(), u, real(d)); }
static inline auto confirmed(nbdl::uid const& u, D const& d) { return message::make_downstream_update(hana::make_tuple(), u, real(d), hana::true_c); }

// What is known about a store after any history: conf is the result of all confirmed changes, touched[f] how many outstanding changes touch f.
struct Ghost { E conf; u64 touched[NF]; u64 outstanding; };
static inline void invariant(Local& s, Ghost const& g, bool assume) {
  E v = look(s.value); D p = look(s.pending_delta);
  u64 n = s.local_uids.size();
  if (assume) irv_assume(n == g.outstanding); else ENSURES(n == g.outstanding, BOOK);
  for (int f = 0; f < NF; ++f) {
    bool a = (g.touched[f] <= g.outstanding);
    bool settled = (g.outstanding != 0) | (v.f[f] == g.conf.f[f]);
    bool ok = (g.touched[f] != 0) | (ite(p.has[f], p.f[f], v.f[f]) == g.conf.f[f]);
    bool bare = p.has[f] | ((g.touched[f] == 0) & (v.f[f] == g.conf.f[f]));
    if (assume) irv_assume(a & settled & ok & bare); else { ENSURES(a, BOOK); ENSURES(settled, CONVERGE); ENSURES(ok & bare, PENDING); }
  }
}
struct State { Local s; Ghost g; nbdl::uid mine, other, fresh; bool has_mine; };
static inline void any_state(State& x) {
  x.s.value = real(any_e("value")); x.s.pending_delta = real(any_d("pending"));
  u64 a = any<u64>("own"), b = any<u64>("own low"), c = any<u64>("another"), d = any<u64>("another low"), e = any<u64>("new"), f = any<u64>("new low");
  REQUIRES((a != c) | (b != d)); REQUIRES((a != e) | (b != f)); REQUIRES((c != e) | (d != f));
  x.mine = id(a, b); x.other = id(c, d); x.fresh = id(e, f);
  x.has_mine = any<bool>("own is outstanding");
  if (x.has_mine) x.s.local_uids.insert(x.mine);
#ifdef IRV_NATIVE
  u64 n = upto("others outstanding", 3); REQUIRES(a != 1 || b > 3); REQUIRES(e != 1 || f > 3); for (u64 i = 0; i < n; ++i) x.s.local_uids.insert(i ? id(1, i) : x.other);
#else
  x.s.local_uids.irv_rest = upto("others outstanding", 1u << 30); x.s.local_uids.irv_other = x.other;
#endif
  x.g.conf = any_e("confirmed"); x.g.outstanding = x.s.local_uids.size();
  for (int i = 0; i < NF; ++i) x.g.touched[i] = any<u32>("outstanding changes that touch it");
  invariant(x.s, x.g, true);
}
CONTRACT(C10_start) {
  E e = any_e("value"); Local s(real(e)); Ghost g{e, {0, 0}, 0};
  COVER("local_version: start");
  invariant(s, g, false); ENSURES(same(seen(s), e), CONVERGE);
  Local t; Ghost h{look(t.value), {0, 0}, 0};
  invariant(t, h, false);
}
CONTRACT(C10_local_change) {
  State x; any_state(x); D d = any_d("change"); E before = look(x.s.value);
  COVER("local_version: local change");
  nbdl::apply_message(x.s, local(x.fresh, d));
  ++x.g.outstanding; for (int i = 0; i < NF; ++i) x.g.touched[i] += d.has[i];
  ENSURES(same(seen(x.s), with(before, d)), SEEN);
  invariant(x.s, x.g, false);
  ENSURES(x.s.local_uids.count(x.fresh) == 1 && x.s.local_uids.count(x.mine) == x.has_mine, BOOK);
}
CONTRACT(C10_change_of_another) {
  State x; any_state(x); D d = any_d("change"); E before = look(x.s.value);
  COVER("local_version: change of another client");
  nbdl::apply_message(x.s, confirmed(x.fresh, d));
  x.g.conf = with(x.g.conf, d);
  ENSURES(same(seen(x.s), with(before, d)), SEEN);
  ENSURES(x.g.outstanding != 0 || same(seen(x.s), x.g.conf), CONVERGE);
  invariant(x.s, x.g, false);
  ENSURES(x.s.local_uids.count(x.fresh) == 0 && x.s.local_uids.count(x.mine) == x.has_mine, BOOK);
}
// the confirmation of an outstanding change carries at least the fields that change touched
CONTRACT(C10_confirmation) {
  State x; any_state(x); REQUIRES(x.has_mine);
  D d = any_d("confirmed change"); E before = look(x.s.value);
  for (int i = 0; i < NF; ++i) {
    bool touched = any<bool>("the change touched it"); REQUIRES(!touched | (d.has[i] & (x.g.touched[i] != 0)));
    REQUIRES((x.g.touched[i] < x.g.outstanding) | touched);   // some other change is outstanding for every touch that is not this one's
    x.g.touched[i] -= touched;
  }
  COVER("local_version: confirmation");
  nbdl::apply_message(x.s, confirmed(x.mine, d));
  --x.g.outstanding; x.g.conf = with(x.g.conf, d);
  E v = seen(x.s);
  if (x.g.outstanding) ENSURES(same(v, before), KEEP); else ENSURES(same(v, x.g.conf), CONVERGE);
  invariant(x.s, x.g, false);
  ENSURES(x.s.local_uids.count(x.mine) == 0, BOOK);
}
// the same without any knowledge of the representation, for short histories
struct Hist { Local s; E conf, vis; D own[6]; bool out[6]; int made, left; };
template <int K, int N> static inline void step(Hist& h) {
  if constexpr (K == N) { COVER("local_version: history done"); }
  else {
    D d; d.has[0] = true; d.has[1] = false; d.f[0] = any<u32>("change"); d.f[1] = 0;
    int what = (int)below("event", 2 + h.made);
    if (what == 0) { nbdl::apply_message(h.s, local(id(7, h.made), d)); h.own[h.made] = d; h.out[h.made] = true; ++h.made; ++h.left; h.vis = with(h.vis, d); }
    else if (what == 1) { nbdl::apply_message(h.s, confirmed(id(8, K), d)); h.conf = with(h.conf, d); h.vis = with(h.vis, d); }
    else {
      int i = (int)irv_value(what - 2); REQUIRES(h.out[i]);
      nbdl::apply_message(h.s, confirmed(id(7, i), h.own[i])); h.out[i] = false; --h.left; h.conf = with(h.conf, h.own[i]);
      if (!h.left) h.vis = h.conf;
    }
    E v = seen(h.s);
    ENSURES(same(v, h.vis), SEEN);
    ENSURES(h.left || same(v, h.conf), CONVERGE);
    step<K + 1, N>(h);
  }
}
CONTRACT(C10_histories_of_four) {
  E start = any_e("value"); Hist h{Local(real(start)), start, start, {}, {}, 0, 0};
  COVER("local_version: history");
  step<0, 4>(h);
}
// other payloads are actions on the value
CONTRACT(C10_actions) {
  Local s(real(any_e("value"))); E to = any_e("to"); u64 u = any<u64>("uid");
  COVER("local_version: action");
  nbdl::apply_message(s, message::make_downstream_create(hana::make_tuple(), id(u, u), real(to), hana::true_c));
  ENSURES(same(seen(s), to) && s.local_uids.empty(), "local_version: an action reaches the value");
}
