#include "irv.hpp"
#include <nbdl/make_context.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/null_store.hpp>
#include <nbdl/apply_foreign_message.hpp>
#include <nbdl/message.hpp>
#include <nbdl/match.hpp>
#include <nbdl/get.hpp>
#include <nbdl/def/directives.hpp>
#include <boost/hana.hpp>
using namespace irv;
namespace hana = boost::hana; namespace message = nbdl::message;

template <int I> struct Key { u64 v; friend bool operator==(Key a, Key b) { return a.v == b.v; } friend bool operator!=(Key a, Key b) { return a.v != b.v; } };
namespace nbdl { template <int I> struct bind_sequence_impl<Key<I>> { template <typename F> static constexpr auto apply(Key<I> const& x, F&& f) { return f(x.v); } }; }
template <int I> struct Ent { u64 v; };
struct Uid { u64 v; };
template <int I> struct name_t {};
template <int I> struct producer_tag {}; template <int I> struct consumer_tag {};
struct ctx_def {}; struct map_def {}; struct st_tag {};
// Which store, producer and listener belongs to which path; paths 0 (producer 0), 1, 2, 3, 4 (producer 1); the stores of paths 2 and 3 listen to path 1, the store of path 4 holds nothing.
template <int I> using Path = hana::tuple<Key<10 + (I > 0)>, Key<I>>;
static constexpr int NP = 5;
constexpr bool listens(int q, int p) { return p == 1 && (q == 2 || q == 3); }
namespace defs {
  using namespace nbdl_def;
  constexpr auto make() {
    return Context(
      Producers(
        Producer(Name(hana::type_c<name_t<0>>), Type<producer_tag<0>>,
          AccessPoint(Name(hana::type_c<void>), Entity<Ent<10>>, PathKey<Key<10>>,
            AccessPoint(Name(hana::type_c<void>), Entity<Ent<0>>, PathKey<Key<0>>, Store<st_tag>, Actions(Create(), Read(), Update(), Delete())))),
        Producer(Name(hana::type_c<name_t<1>>), Type<producer_tag<1>>,
          AccessPoints(
            AccessPoint(Name(hana::type_c<void>), Entity<Ent<11>>, PathKey<Key<11>>,
              AccessPoint(Name(hana::type_c<void>), Entity<Ent<1>>, PathKey<Key<1>>, Store<st_tag>, Actions(Create(), Read(), Update(), Delete()))),
            AccessPoint(Name(hana::type_c<void>), Entity<Ent<11>>, PathKey<Key<11>>,
              AccessPoint(Name(hana::type_c<void>), Entity<Ent<2>>, PathKey<Key<2>>, Store<st_tag>, Actions(Create(), Read(), Update(), Delete()), ListenPaths(nbdl_def::Path<Key<11>, Key<1>>))),
            AccessPoint(Name(hana::type_c<void>), Entity<Ent<11>>, PathKey<Key<11>>,
              AccessPoint(Name(hana::type_c<void>), Entity<Ent<3>>, PathKey<Key<3>>, Store<st_tag>, Actions(Create(), Read(), Update(), Delete()), ListenPaths(nbdl_def::Path<Key<11>, Key<1>>))),
            AccessPoint(Name(hana::type_c<void>), Entity<Ent<11>>, PathKey<Key<11>>,
              AccessPoint(Name(hana::type_c<void>), Entity<Ent<4>>, PathKey<Key<4>>, Store<nbdl::null_store>, Actions(Create(), Read(), Update(), Delete())))))),
      Consumers(
        Consumer(Name(hana::type_c<name_t<2>>), Type<consumer_tag<2>>),
        Consumer(Name(hana::type_c<name_t<3>>), Type<consumer_tag<3>>),
        Consumer(Name(hana::type_c<name_t<4>>), Type<consumer_tag<4>>)));
  }
  constexpr auto make_map_def() {
    return Context(
      Producers(
        Producer(Name(hana::type_c<name_t<0>>), Type<producer_tag<0>>,
          AccessPoint(Name(hana::type_c<void>), Entity<Ent<10>>, PathKey<Key<10>>,
            AccessPoint(Name(hana::type_c<void>), Entity<Ent<0>>, PathKey<Key<0>>, Store<nbdl::map_store_tag>, Actions(Create(), Read(), Update(), Delete()))))),
      Consumers(
        Consumer(Name(hana::type_c<name_t<2>>), Type<consumer_tag<2>>),
        Consumer(Name(hana::type_c<name_t<4>>), Type<consumer_tag<4>>)));
  }
}
namespace nbdl {
  template <> struct make_def_impl<ctx_def> { static constexpr auto apply() { return defs::make(); } };
  template <> struct make_def_impl<map_def> { static constexpr auto apply() { return defs::make_map_def(); } };
}
// ---- what every party is given; actor 0, 1 are producers, 2 and 4 consumers, 1, 3 and 4 state consumers
struct Rec { int calls, kind, path; bool down, has_uid, has_pay, confirmed, found; u64 k, l, uid, pay; int at; };
struct StoreState { int held; u64 v; bool changes, notes; int tells; Rec applied, foreign; };
struct Note { int calls[NP]; u64 k, l; int first, last; bool same; };
static int now; static Rec sent[5]; static Note note[5]; static StoreState S[NP];
static inline void clear() { now = 0; for (auto& r : sent) r = Rec{}; for (auto& n : note) { n = Note{}; n.same = true; } for (auto& s : S) { s.applied = Rec{}; s.foreign = Rec{}; } }
template <typename P> static constexpr int index_of = -1;
template <int I> constexpr int index_of<Path<I>> = I;
template <int I> static inline u64 pay_of(Ent<I> const& e) { return e.v; }
static inline u64 pay_of(nbdl::not_found) { return 404; }
static inline u64 pay_of(nbdl::not_in_set) { return 405; }
template <typename M> static inline void record(Rec& r, M const& m) {
  ++r.calls; r.at = ++now; r.down = message::is_downstream<M> && !message::is_upstream<M>;
  r.kind = message::is_create<M> ? 0 : message::is_read<M> ? 1 : message::is_update<M> ? 2 : message::is_delete<M> ? 3 : 9;
  r.has_uid = message::has_uid<M>; r.has_pay = message::has_payload<M>;
  if constexpr (message::has_uid<M>) r.uid = message::get_uid(m).v;
  if constexpr (message::has_payload<M>) { r.pay = pay_of(message::get_payload(m)); r.found = !std::is_same_v<std::decay_t<decltype(message::get_payload(m))>, nbdl::not_found>; }
  r.confirmed = bool(message::is_confirmed(m));
  r.path = index_of<typename decltype(message::get_path_type(m))::type>;
  if constexpr (message::is_path_normalizable<M>) { r.k = hana::at_c<0>(message::get_path(m)).v; r.l = hana::at_c<1>(message::get_path(m)).v; }
}
template <int I, typename C> struct Actor {
  C context;
  template <typename A> Actor(nbdl::actor_initializer<C, A>&& p) : context(p.context) {}
};
template <int I, typename C> struct Prod : Actor<I, C> { using hana_tag = producer_tag<I>; using Actor<I, C>::Actor; };
template <int I, typename C> struct Cons : Actor<I, C> { using hana_tag = consumer_tag<I>; using Actor<I, C>::Actor; };
template <typename P> struct St { using hana_tag = st_tag; using path = P; static constexpr int I = index_of<P>; };
template <int I> static inline void noted(Path<0> const&);
template <int A, typename P> static inline void notified(P const& p) {
  Note& n = note[A]; constexpr int i = index_of<P>; ++n.calls[i]; if (!n.first) n.first = ++now; n.last = ++now;
  n.k = hana::at_c<0>(p).v; n.l = hana::at_c<1>(p).v;
}
namespace nbdl {
  template <int I, typename C> struct actor_type<producer_tag<I>, C> { using type = Prod<I, C>; };
  template <int I, typename C> struct actor_type<consumer_tag<I>, C> { using type = Cons<I, C>; };
  template <int I> struct send_upstream_message_impl<producer_tag<I>> { template <typename P, typename M> static void apply(P&&, M const& m) { record(sent[I], m); } };
  template <> struct send_downstream_message_impl<consumer_tag<2>> { template <typename P, typename M> static void apply(P&&, M const& m) { record(sent[2], m); } };
  template <> struct send_downstream_message_impl<consumer_tag<4>> { template <typename P, typename M> static void apply(P&&, M const& m) { record(sent[4], m); } };
  template <> struct notify_state_change_impl<producer_tag<1>> { template <typename A, typename P> static void apply(A&&, P const& p) { notified<1>(p); } };
  template <> struct notify_state_change_impl<consumer_tag<3>> { template <typename A, typename P> static void apply(A&&, P const& p) { notified<3>(p); } };
  template <> struct notify_state_change_impl<consumer_tag<4>> { template <typename A, typename P> static void apply(A&&, P const& p) { notified<4>(p); } };
  template <> struct make_store_impl<st_tag> { template <typename P, typename E> static constexpr auto apply(P, E) -> St<typename P::type> { return {}; } };
  template <> struct apply_message_impl<st_tag> {
    template <typename Store, typename M> static bool apply(Store&&, M const& m) {
      StoreState& s = S[std::decay_t<Store>::I]; record(s.applied, m);
      if (message::is_upstream<M> && message::is_read<M> && s.held == 0 && s.notes) s.held = 1;
      return s.changes;
    }
  };
  template <> struct apply_foreign_message_impl<st_tag> {
    template <typename Store, typename M, typename F> static void apply(Store&&, M const& m, F&& f) {
      constexpr int i = std::decay_t<Store>::I; StoreState& s = S[i]; record(s.foreign, m);
      typename std::decay_t<Store>::path p{{m_first(m)}, {s.v}};
      if (s.tells > 0) f(p);
      if (s.tells > 1) f(p);
    }
    template <typename M> static u64 m_first(M const& m) { return hana::at_c<0>(message::get_path(m)).v; }
  };
  template <> struct match_impl<st_tag> {
    template <typename Store, typename K, typename F> static void apply(Store&&, K const&, F&& f) {
      StoreState& s = S[std::decay_t<Store>::I];
      switch (s.held) {
        case 0: f(nbdl::trigger_read{}); break;
        case 1: f(nbdl::unresolved{}); break;
        case 2: f(Ent<std::decay_t<Store>::I>{s.v}); break;
        default: f(nbdl::not_found{}); break;
      }
    }
  };
  template <> struct get_impl<st_tag> { template <typename Store, typename K> static u64 apply(Store const&, K const& k) { return S[Store::I].v ^ hana::at_c<1>(k).v; } };
}
#define APPLY "context: a message is applied once to the store of its path, and to no other"
#define LISTEN "context: a listening store sees the message once, no other store does"
#define NOTIFY "context: every state consumer is notified once with the path exactly if the state changed"
#define TOLD "context: a path a listener marks as changed is notified to every state consumer"
#define UP "context: an upstream message reaches exactly the producer of its path, once and unchanged"
#define DOWN "context: a downstream message reaches every consumer, once and unchanged, and no producer"
#define ORDER "context: the store is updated before anyone is told, the state consumers before the message goes on"
#define READUP "context: an upstream read reaches the producer exactly if the value is absent"
#define READDOWN "context: an upstream read is answered with the stored value exactly if there is one"
#define LOOK "context: looking up calls the function once with the stored value, or unresolved while there is none"
#define TRIGGER "context: looking up an absent value triggers exactly one read"

struct Msg { int path, kind; bool down; u64 k, l, uid, pay; bool has_pay, confirmed, has_uid; };
static inline bool is(Rec const& r, Msg const& m) {
  return (r.path == m.path) & (r.kind == m.kind) & (r.down == m.down) & (r.k == m.k) & (r.l == m.l) & (r.has_uid == m.has_uid) & (!m.has_uid | (r.uid == m.uid)) & (r.has_pay == m.has_pay) & (!m.has_pay | ((r.pay == m.pay) & r.found)) & (r.confirmed == m.confirmed);
}
static inline void any_stores() {
  for (auto& s : S) { s = StoreState{}; s.held = (int)below("held", 4); s.v = any<u64>("value"); s.changes = any<bool>("changes"); s.notes = any<bool>("notes"); s.tells = (int)below("tells", 3); }
  clear();
}
// applied to the right stores, listeners served
static inline void stores_after(Msg const& m) {
  for (int q = 0; q < NP; ++q) {
    if (q == 4) { ENSURES(S[q].applied.calls == 0 && S[q].foreign.calls == 0, APPLY); continue; }
    ENSURES(S[q].applied.calls == (q == m.path), APPLY);
    ENSURES(q != m.path || is(S[q].applied, m), APPLY);
    ENSURES(S[q].foreign.calls == listens(q, m.path), LISTEN);
    ENSURES(!listens(q, m.path) || is(S[q].foreign, m), LISTEN);
  }
}
static inline void notified_after(Msg const& m, bool changed) {
  for (int a : {1, 3, 4}) for (int q = 0; q < NP; ++q) {
    int want = listens(q, m.path) ? S[q].tells : (q == m.path) & changed;
    ENSURES(note[a].calls[q] == want, listens(q, m.path) ? TOLD : NOTIFY);
  }
  for (int a : {0, 2}) for (int q = 0; q < NP; ++q) ENSURES(note[a].calls[q] == 0, NOTIFY);
  if (m.path != 1) for (int a : {1, 3, 4}) ENSURES(!changed || (note[a].k == m.k && note[a].l == m.l), NOTIFY);
}
template <typename M> static inline void push(nbdl::context<ctx_def>& c, M const& m, Msg const& e) {
  bool handle = any<bool>("through an actor's handle");
  COVER("context: push");
  if (handle) nbdl::apply_message(c.template actor<2>().context, m); else nbdl::apply_message(c, m);
  bool changed = e.path != 4 && S[e.path].changes;
  stores_after(e); notified_after(e, changed);
  int prod = e.path > 0;
  if (e.down) {
    for (int a = 0; a < 5; ++a) { ENSURES(sent[a].calls == (a == 2 || a == 4), DOWN); ENSURES(!(a == 2 || a == 4) || is(sent[a], e), DOWN); }
  } else {
    for (int a = 0; a < 5; ++a) { ENSURES(sent[a].calls == (a == prod), UP); ENSURES(a != prod || is(sent[a], e), UP); }
  }
  for (int a = 0; a < 5; ++a) {
    ENSURES(!sent[a].calls || e.path == 4 || S[e.path].applied.at < sent[a].at, ORDER);
    for (int b : {1, 3, 4}) if (changed) { ENSURES(S[e.path].applied.at < note[b].first, ORDER); ENSURES(!sent[a].calls || note[b].first < sent[a].at, ORDER); }
  }
}
template <typename C> static inline void expect_read(C& c, int p, Msg const& e, StoreState const& before) {
  int prod = p > 0;
  ENSURES(sent[prod].calls == (before.held == 0) && sent[1 - prod].calls == 0, READUP);
  ENSURES(before.held != 0 || is(sent[prod], e), READUP);
  bool answer = before.held >= 2;
  for (int a : {2, 4}) {
    ENSURES(sent[a].calls == answer, READDOWN);
    Rec const& r = sent[a];
    ENSURES(!answer || (r.down && r.kind == 1 && r.path == p && r.k == e.k && r.l == e.l && r.has_uid == e.has_uid && (!e.has_uid || r.uid == e.uid) && r.found == (before.held == 2) && (before.held != 2 || r.pay == before.v)), READDOWN);
  }
  ENSURES(sent[3].calls == 0, READDOWN);
  for (int a : {1, 3, 4}) for (int q = 0; q < NP; ++q) ENSURES(note[a].calls[q] == (listens(q, p) ? S[q].tells : 0), NOTIFY);
}
template <int I> static inline Path<I> path(u64 k, u64 l) { return Path<I>{{k}, {l}}; }
template <int I> static inline void one_upstream(int op) {
  nbdl::context<ctx_def> c; any_stores();
  u64 k = any<u64>("key"), l = any<u64>("last key"), u = any<u64>("uid"), y = any<u64>("payload");
  if (op == 0) push(c, message::make_upstream_create(path<I>(k, l), Uid{u}, Ent<I>{y}), {I, 0, false, k, l, u, y, true, false, true});
  if (op == 1) push(c, message::make_upstream_update(path<I>(k, l), Uid{u}, Ent<I>{y}), {I, 2, false, k, l, u, y, true, false, true});
  if (op == 2) push(c, message::make_upstream_delete(path<I>(k, l), message::no_uid), {I, 3, false, k, l, u, y, false, false, false});
}
template <int I> static inline void one_downstream(int op) {
  nbdl::context<ctx_def> c; any_stores();
  u64 k = any<u64>("key"), l = any<u64>("last key"), u = any<u64>("uid"), y = any<u64>("payload");
  if (op == 0) push(c, message::make_downstream_create(path<I>(k, l), message::no_uid, Ent<I>{y}, hana::true_c), {I, 0, true, k, l, u, y, true, true, false});
  if (op == 1) push(c, message::make_downstream_read(path<I>(k, l), Uid{u}, Ent<I>{y}), {I, 1, true, k, l, u, y, true, false, true});
  if (op == 2) push(c, message::make_downstream_update(path<I>(k, l), Uid{u}, Ent<I>{y}, message::no_is_confirmed), {I, 2, true, k, l, u, y, true, false, true});
  if (op == 3) push(c, message::make_downstream_delete(path<I>(k, l), message::no_uid, message::no_is_confirmed), {I, 3, true, k, l, u, y, false, false, false});
}
CONTRACT(C13_upstream_0) { one_upstream<0>((int)below("message", 3)); }
CONTRACT(C13_upstream_1) { one_upstream<1>((int)below("message", 3)); }
CONTRACT(C13_upstream_2) { one_upstream<2>((int)below("message", 3)); }
CONTRACT(C13_upstream_4) { one_upstream<4>((int)below("message", 3)); }
CONTRACT(C13_downstream_0) { one_downstream<0>((int)below("message", 4)); }
CONTRACT(C13_downstream_1) { one_downstream<1>((int)below("message", 4)); }
CONTRACT(C13_downstream_3) { one_downstream<3>((int)below("message", 4)); }
CONTRACT(C13_downstream_4) { one_downstream<4>((int)below("message", 4)); }
// a message without a complete path only goes to the producer
CONTRACT(C13_create_without_key) {
  nbdl::context<ctx_def> c; any_stores(); u64 k = any<u64>("key"), y = any<u64>("payload"); bool first = any<bool>("which");
  COVER("context: create");
  if (first) nbdl::apply_message(c, message::make_upstream_create(message::make_create_path<Key<0>>(hana::make_tuple(Key<10>{k})), message::no_uid, Ent<0>{y}));
  else nbdl::apply_message(c, message::make_upstream_create(message::make_create_path<Key<1>>(hana::make_tuple(Key<11>{k})), message::no_uid, Ent<1>{y}));
  for (int a = 0; a < 5; ++a) ENSURES(sent[a].calls == (a == (first ? 0 : 1)), UP);
  Rec const& r = sent[first ? 0 : 1]; ENSURES(r.kind == 0 && !r.down && r.pay == y && r.path == (first ? 0 : 1), UP);
  for (int q = 0; q < NP; ++q) ENSURES(S[q].applied.calls == 0 && S[q].foreign.calls == 0, APPLY);
  for (int a = 0; a < 5; ++a) for (int q = 0; q < NP; ++q) ENSURES(note[a].calls[q] == 0, NOTIFY);
}
template <int I> static inline void one_read() {
  nbdl::context<ctx_def> c; any_stores(); u64 k = any<u64>("key"), l = any<u64>("last key"), u = any<u64>("uid"); bool with = any<bool>("with uid");
  StoreState before = S[I];
  COVER("context: read");
  if (with) nbdl::apply_message(c.template actor<2>().context, message::make_upstream_read(path<I>(k, l), Uid{u})); else nbdl::apply_message(c, message::make_upstream_read(path<I>(k, l), message::no_uid));
  Msg e{I, 1, false, k, l, u, 0, false, false, with};
  stores_after(e); expect_read(c, I, e, before);
  ENSURES(!sent[I > 0].calls || S[I].applied.at < sent[I > 0].at, ORDER);
  for (int a : {2, 4}) ENSURES(!sent[a].calls || S[I].applied.at < sent[a].at, ORDER);
}
CONTRACT(C13_read_0) { one_read<0>(); }
CONTRACT(C13_read_1) { one_read<1>(); }
CONTRACT(C13_read_2) { one_read<2>(); }
template <int I> static inline void one_match() {
  nbdl::context<ctx_def> c; any_stores(); u64 k = any<u64>("key"), l = any<u64>("last key");
  StoreState before = S[I]; int calls = 0; int saw = -1; u64 got = 0;
  auto f = hana::overload_linearly([&](nbdl::unresolved) { ++calls; saw = 1; }, [&](nbdl::trigger_read) { ++calls; saw = 0; }, [&](Ent<I> const& e) { ++calls; saw = 2; got = e.v; }, [&](nbdl::not_found) { ++calls; saw = 3; });
  COVER("context: lookup");
  bool handle = any<bool>("through an actor's handle");
  if (handle) nbdl::match(c.template actor<3>().context, path<I>(k, l), f); else nbdl::match(c, path<I>(k, l), f);
  ENSURES(calls == 1 && saw == (before.held == 0 ? 1 : before.held) && (saw != 2 || got == before.v), LOOK);
  for (int a = 0; a < 5; ++a) ENSURES(sent[a].calls == (a == (I > 0) && before.held == 0), TRIGGER);
  Msg e{I, 1, false, k, l, 0, 0, false, false, false};
  ENSURES(before.held != 0 || is(sent[I > 0], e), TRIGGER);
  for (int q = 0; q < NP; ++q) ENSURES(S[q].applied.calls == (q == I && before.held == 0), APPLY);
  for (int a = 0; a < 5; ++a) for (int q = 0; q < NP; ++q) ENSURES(note[a].calls[q] == (before.held == 0 && listens(q, I) && (a == 1 || a >= 3) ? S[q].tells : 0), NOTIFY);
}
CONTRACT(C13_lookup_0) { one_match<0>(); }
CONTRACT(C13_lookup_1) { one_match<1>(); }
CONTRACT(C13_get) {
  nbdl::context<ctx_def> c; any_stores(); u64 k = any<u64>("key"), l = any<u64>("last key");
  COVER("context: get");
  ENSURES(nbdl::get(c, path<0>(k, l)) == (S[0].v ^ l) && nbdl::get(c, path<2>(k, l)) == (S[2].v ^ l) && nbdl::get(c.template actor<3>().context, path<1>(k, l)) == (S[1].v ^ l), "context: get reaches the store of the path");
  for (int a = 0; a < 5; ++a) ENSURES(sent[a].calls == 0, TRIGGER);
}
// together with a real store: a value is requested once, pending reads are swallowed, then it is answered from the store
CONTRACT(C13_reads_with_a_map_store) {
  clear(); nbdl::context<map_def> c; u64 k = any<u64>("key"), l = any<u64>("last key"), y = any<u64>("payload"), z = any<u64>("payload of the answer"); bool by_lookup = any<bool>("asked for by a lookup"), again = any<bool>("asked again by a lookup"), missing = any<bool>("found to be missing");
  auto p = path<0>(k, l);
  auto ask = [&](bool look) {
    int calls = 0;
    if (look) { nbdl::match(c, p, hana::overload_linearly([&](nbdl::unresolved) { ++calls; }, [&](auto const&) { calls += 10; })); ENSURES(calls == 1, LOOK); }
    else nbdl::apply_message(c, message::make_upstream_read(p, message::no_uid));
  };
  COVER("context: map store");
  ask(by_lookup);
  ENSURES(sent[0].calls == 1 && sent[2].calls == 0 && sent[4].calls == 0 && sent[0].k == k && sent[0].l == l && sent[0].kind == 1, TRIGGER);
  ask(again);
  ENSURES(sent[0].calls == 1 && sent[2].calls == 0 && sent[4].calls == 0, READUP);
  nbdl::apply_message(c, message::make_downstream_read(p, message::no_uid, Ent<0>{y}));
  ENSURES(sent[0].calls == 1 && sent[2].calls == 1 && sent[4].calls == 1 && sent[4].pay == y, DOWN);
  ENSURES(note[4].calls[0] == 1, NOTIFY);
  nbdl::apply_message(c, message::make_upstream_read(p, message::no_uid));
  ENSURES(sent[0].calls == 1 && sent[2].calls == 2 && sent[4].calls == 2 && sent[2].pay == y && sent[4].kind == 1 && sent[4].down, READDOWN);
  ENSURES(note[4].calls[0] == 1, NOTIFY);
  nbdl::apply_message(c, message::make_downstream_update(p, message::no_uid, Ent<0>{z}, hana::true_c));
  ENSURES(note[4].calls[0] == 2 && sent[2].calls == 3 && sent[0].calls == 1, NOTIFY);
  u64 got = 0; int calls = 0;
  nbdl::match(c, p, hana::overload_linearly([&](Ent<0> const& e) { ++calls; got = e.v; }, [&](auto const&) { calls += 10; }));
  ENSURES(calls == 1 && got == z && sent[0].calls == 1, LOOK);
}
