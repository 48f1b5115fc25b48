#include "irv.hpp"
#include <nbdl/map_store.hpp>
#include <nbdl/match.hpp>
#include <boost/hana.hpp>
using namespace irv;
namespace hana = boost::hana; namespace message = nbdl::message;

template <int I> struct Val {
  u64 v;
  Val() : v(0) {}
  explicit Val(u64 x) : v(x) {}
  Val(Val const& o) : v(o.v) {}
  Val(Val&& o) : v(o.v) { o.v = ~o.v; }
  Val& operator=(Val const& o) { v = o.v; return *this; }
  Val& operator=(Val&& o) { u64 x = o.v; o.v = ~o.v; v = x; return *this; }
  friend bool operator==(Val const& a, Val const& b) { return a.v == b.v; }
  friend bool operator!=(Val const& a, Val const& b) { return a.v != b.v; }
};
using P1 = Val<1>; using P2 = Val<2>; using Uid = Val<3>; using Pay = Val<4>;
namespace nbdl { template <int I> struct bind_sequence_impl<Val<I>> { template <typename F> static constexpr auto apply(Val<I> const& x, F&& f) { return f(x.v); } }; }
using Path = hana::tuple<P1, P2>;
using Store = nbdl::map_store<Path, Pay>;
using Basic = nbdl::basic_map_store<u32, u32>;

#define SET "map_store: a downstream create or update stores exactly the payload and reports a change"
#define READ "map_store: a downstream read stores the payload exactly if nothing was resolved, and reports a change exactly then"
#define DEL "map_store: a downstream delete removes the key and reports a change"
#define UPREAD "map_store: an upstream read marks an absent key unresolved, leaves any other alone and reports no change"
#define UP "map_store: no other upstream message changes or reports anything"
#define OTHER "map_store: no other key is affected"
#define LOOK "map_store: looking up yields exactly the stored value, or the signal for an absent key, once"
#define SIZE "map_store: exactly the message's key is added or removed"

// what is stored under a key: 0 nothing, 1 unresolved, 2 a value, 3 not_found
struct Entry { int kind; u64 v; };
template <typename M, typename K> static inline Entry peek(M& m, K const& k) {
  auto i = m.find(k);
  if (i == m.end()) return {0, 0};
  Entry r{9, 0};
  i->second.match([&](nbdl::unresolved) { r.kind = 1; }, [&](Pay const& p) { r.kind = 2; r.v = p.v; }, [&](nbdl::not_found) { r.kind = 3; });
  return r;
}
static inline Entry seen(Store& s, Path const& k) {
  Entry r{9, 0}; int calls = 0;
  nbdl::match(s, k, hana::overload_linearly(
    [&](nbdl::trigger_read) { r.kind = 0; ++calls; }, [&](nbdl::unresolved) { r.kind = 1; ++calls; }, [&](Pay const& p) { r.kind = 2; r.v = p.v; ++calls; }, [&](nbdl::not_found) { r.kind = 3; ++calls; }, [](nbdl::not_in_set) {}));
  ENSURES(calls == 1, LOOK);
  return r;
}
static inline bool same(Entry a, Entry b) { return (a.kind == b.kind) & ((a.kind != 2) | (a.v == b.v)); }
static inline void put(Store& s, Path const& k, Entry e) {
  if (e.kind == 1) s.map[k] = nbdl::unresolved{};
  if (e.kind == 2) s.map[k] = Pay(e.v);
  if (e.kind == 3) s.map[k] = nbdl::not_found{};
}
template <typename M> static inline void rest(M& m, u64 n, u64 avoid) {
#ifdef IRV_NATIVE
  for (u64 i = 0; i < n; ++i) m.emplace(Path{P1{avoid ^ (i + 1)}, P2{avoid}}, Pay{i});
#else
  m.irv_rest = n;
#endif
}
struct Setup { Path k, k1; Entry e, e1; u64 n; };
static inline Setup setup(Store& s) {
  u64 a = any<u64>("key a"), b = any<u64>("key b"), c = any<u64>("other a"), d = any<u64>("other b");
  REQUIRES((a != c) | (b != d));
  Setup x{Path{P1{a}, P2{b}}, Path{P1{c}, P2{d}}, {(int)below("held", 4), any<u64>("value")}, {(int)below("other held", 4), any<u64>("other value")}, 0};
#ifdef IRV_NATIVE
  REQUIRES(b != 77 && d != 77); u64 r = upto("further elements", 500); rest(s.map, r, 77);
#else
  rest(s.map, upto("further elements", 1u << 30), 0);
#endif
  put(s, x.k, x.e); put(s, x.k1, x.e1);
  x.n = s.map.size();
  return x;
}
static inline void after(Store& s, Setup const& x, Entry want, char const* name) {
  ENSURES(same(peek(s.map, x.k), want), name);
  ENSURES(same(peek(s.map, x.k1), x.e1), OTHER);
  ENSURES(s.map.size() == x.n - (x.e.kind != 0) + (want.kind != 0), SIZE);
  ENSURES(same(seen(s, x.k), want) && same(seen(s, x.k1), x.e1), LOOK);
  ENSURES(s.map.size() == x.n - (x.e.kind != 0) + (want.kind != 0), SIZE);
}
CONTRACT(C09_downstream_create) {
  Store s; Setup x = setup(s); u64 y = any<u64>("payload");
  COVER("map_store: create");
  bool r = nbdl::apply_message(s, message::make_downstream_create(x.k, Uid{any<u64>("uid")}, Pay{y}, any<bool>("confirmed")));
  ENSURES(r, SET);
  after(s, x, {2, y}, SET);
}
CONTRACT(C09_downstream_update) {
  Store s; Setup x = setup(s); u64 y = any<u64>("payload");
  COVER("map_store: update");
  auto m = message::make_downstream_update(x.k, message::no_uid, Pay{y}, any<bool>("confirmed"));
  bool r = nbdl::apply_message(s, m);
  ENSURES(r && message::get_payload(m).v == y && hana::equal(message::get_path(m), x.k), SET);
  after(s, x, {2, y}, SET);
}
CONTRACT(C09_downstream_read) {
  Store s; Setup x = setup(s); u64 y = any<u64>("payload");
  bool fresh = x.e.kind == 0 || x.e.kind == 1;
  COVER("map_store: read");
  bool r = nbdl::apply_message(s, message::make_downstream_read(x.k, Uid{any<u64>("uid")}, Pay{y}));
  ENSURES(r == fresh, READ);
  after(s, x, fresh ? Entry{2, y} : x.e, READ);
}
CONTRACT(C09_downstream_delete) {
  Store s; Setup x = setup(s);
  COVER("map_store: delete");
  bool r = nbdl::apply_message(s, message::make_downstream_delete(x.k, Uid{any<u64>("uid")}, any<bool>("confirmed")));
  ENSURES(r, DEL);
  after(s, x, {0, 0}, DEL);
}
CONTRACT(C09_upstream_read) {
  Store s; Setup x = setup(s);
  COVER("map_store: upstream read");
  auto r = nbdl::apply_message(s, message::make_upstream_read(x.k, Uid{any<u64>("uid")}));
  ENSURES(!r, UPREAD);
  after(s, x, x.e.kind ? x.e : Entry{1, 0}, UPREAD);
}
CONTRACT(C09_other_upstream) {
  Store s; Setup x = setup(s); u64 y = any<u64>("payload"), u = any<u64>("uid");
  COVER("map_store: other upstream");
  ENSURES(!nbdl::apply_message(s, message::make_upstream_create(x.k, Uid{u}, Pay{y})), UP);
  after(s, x, x.e, UP);
  ENSURES(!nbdl::apply_message(s, message::make_upstream_update(x.k, message::no_uid, Pay{y})), UP);
  after(s, x, x.e, UP);
  ENSURES(!nbdl::apply_message(s, message::make_upstream_delete(x.k, message::no_uid)), UP);
  after(s, x, x.e, UP);
  ENSURES(!nbdl::apply_message(s, message::make_upstream_create(message::make_create_path<P2>(hana::make_tuple(P1{u})), message::no_uid, Pay{y})), UP);
  after(s, x, x.e, UP);
}
CONTRACT(C09_lookup) {
  Store s; Setup x = setup(s);
  COVER("map_store: lookup");
  after(s, x, x.e, LOOK);
  // by reference, reaching the held value itself
  int calls = 0; bool exact = false;
  nbdl::match(s, x.k, hana::overload_linearly([&](Pay& p) { ++calls; p.v ^= 1; }, [](auto const&) {}));
  ENSURES(calls == (x.e.kind == 2), LOOK);
  after(s, x, x.e.kind == 2 ? Entry{2, x.e.v ^ 1} : x.e, LOOK);
}
// the basic store holds values as they are
CONTRACT(C09_basic) {
  Basic s; u32 k = any<u32>("key"), k1 = any<u32>("other key"), v = any<u32>("value"), v1 = any<u32>("other value"), y = any<u32>("payload"); bool has = any<bool>("held"), has1 = any<bool>("other held");
  REQUIRES(k != k1);
  if (has) s.map[k] = v;
  if (has1) s.map[k1] = v1;
  auto look = [&](u32 key, bool want, u32 val, char const* name) {
    int in = 0, out = 0; u32 got = 0;
    nbdl::match(s, key, hana::overload_linearly([&](nbdl::not_in_set) { ++out; }, [&](u32 const& x) { ++in; got = x; }));
    ENSURES(in == want && out == !want && (!want || got == val), name);
  };
  int op = below("message", 4);
  COVER("map_store: basic");
  if (op == 0) { bool r = nbdl::apply_message(s, message::make_downstream_create(k, message::no_uid, y, true)); ENSURES(r, SET); look(k, true, y, SET); }
  if (op == 1) { bool r = nbdl::apply_message(s, message::make_downstream_update(k, message::no_uid, y, true)); ENSURES(r, SET); look(k, true, y, SET); }
  if (op == 2) { bool r = nbdl::apply_message(s, message::make_downstream_delete(k, message::no_uid, true)); ENSURES(r, DEL); look(k, false, 0, DEL); }
  if (op == 3) { bool r = nbdl::apply_message(s, message::make_upstream_update(k, message::no_uid, y)); ENSURES(!r, UP); look(k, has, v, UP); }
  look(k1, has1, v1, OTHER);
}
