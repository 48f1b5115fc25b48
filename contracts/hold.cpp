#include "pipe_steps.hpp"
#include <nbdl/hold.hpp>
#include <nbdl/hold_lazy.hpp>
#define RELEASED "pipeline: its state is released exactly once, when it ends"
#define KEPT "pipeline: its state stays alive until it ends"
#define HOLD "hold: the value is the pipeline's own, handed over by reference"
#define LAZY "hold_lazy: the value is constructed once, before its use, and destroyed once"

// a value that is held: counted, with an identity
static int alive_, made, gone;
struct Held {
  u64 v; bool ok = true;
  explicit Held(u64 x) : v(x) { ++alive_; ++made; }
  Held(Held const& o) : v(o.v) { ENSURES(o.ok, KEPT); ++alive_; ++made; }
  Held(Held&& o) : v(o.v) { ENSURES(o.ok, KEPT); o.v = ~o.v; ++alive_; ++made; }
  ~Held() { ENSURES(ok, RELEASED); ok = false; --alive_; ++gone; }
};
static Held* seen; static u64 seen_v; static int nseen;
struct See { Track t; template <typename R> void operator()(R& r, Held& h) { ENSURES(h.ok && !irv_dead(&h), KEPT); ++nseen; seen = &h; seen_v = h.v; ++h.v; r.resolve(); } };
static inline void begin() { start(); alive_ = made = gone = nseen = 0; seen = nullptr; }

// values kept by hold while the pipeline waits, then it ends in every possible way
CONTRACT(C16_hold) {
  irv_unroll(60); begin(); u64 heap = irv_heap_count();
  choose(0, 7); choose(1, 7); u64 v = any<u64>("value"); bool lvalue = any<bool>("copied");
  int outside;
  { Held own(v);
    auto go = [&](auto&& held) { nbdl::run_async(nbdl::pipe(nbdl::promise(Step<0>{}), nbdl::pipe(std::forward<decltype(held)>(held), nbdl::promise(See{})), nbdl::promise(Step<1>{}), nbdl::catch_(AnyHandler<9>{})), Val(3)); };
    if (lvalue) go(nbdl::hold(own)); else go(nbdl::hold(std::move(own)));
    ENSURES(!lvalue || own.v == v, HOLD);
  }
  COVER("hold: started");
  // the original is gone
  if (waiting && waiter == 0) { ENSURES(alive_ >= 1 && !irv_dead(waiting), KEPT); resume(); }
  bool through = nseen != 0;
  if (through) ENSURES(nseen == 1 && seen_v == v && nlog >= 2 && log_[1].who == 1 && log_[1].n == 0, HOLD);
  if (waiting) { ENSURES(waiter == 1 && alive_ == 1 && !irv_dead(waiting) && !irv_dead(seen) && seen->ok && seen->v == v + 1, KEPT); resume(); }
  ENSURES(!waiting && alive_ == 0 && made == gone && live == 0 && irv_heap_count() == heap, RELEASED);
}
// a value made on demand, which cannot be moved; it resolves later, by itself
static void* lazy_at; static u64 lazy_got; static int lazy_calls;
struct Lazy {
  Held h;
  Lazy(u64 x) : h(x) { lazy_at = this; }
  Lazy(Lazy const&) = delete;
};
template <int N> struct Make {
  Track t;
  template <typename R, typename... A> Lazy operator()(R& r, A&&... a) {
    ENSURES(t.ok, KEPT); ENSURES(sizeof...(a) == N, LAZY);
    ++lazy_calls; waiting = &r; waiter = 2;
    resume_ = [](void* p, Plan const& q) { R& r = *static_cast<R*>(p); Lazy& l = *static_cast<Lazy*>(lazy_at); ENSURES(!irv_dead(lazy_at) && l.h.ok, LAZY); if (q.later == RESOLVE1) r.resolve(l); else finish(r, q.later, q); };
    u64 x = 5; ((x = get(a)), ...);
    return Lazy(x);
  }
  static u64 get(Val const& v) { return v.v; }
  static u64 get(Held& h) { return h.v; }
};
struct SeeLazy { Track t; template <typename R, typename... A> void operator()(R& r, A&&... a) { ++nseen; (see(a), ...); r.resolve(); }
  static void see(Lazy& l) { ENSURES(&l == lazy_at && l.h.ok, LAZY); lazy_got = l.h.v; } static void see(Val const&) {} };
struct One { Val operator()() const { return Val(0); } Val operator()(Val const& a) const { return a; } Val operator()(Val const& a, Val const&) const { return a; } };
static inline void lazy_begin() { begin(); lazy_at = nullptr; lazy_calls = 0; lazy_got = 0; plan[2] = Plan{WAIT, (int)below("what the lazy value does", WAIT), any<u64>("x"), any<u64>("y")}; }
CONTRACT(C16_hold_lazy) {
  irv_unroll(60); lazy_begin(); u64 heap = irv_heap_count();
  plan[0] = Plan{(int)below("step", 3), 0, any<u64>("x"), any<u64>("y")}; plan[0].what = plan[0].what == 0 ? RESOLVE1 : plan[0].what == 1 ? REJECT_A : WAIT; plan[0].later = (int)below("later", 3); plan[0].later = plan[0].later == 0 ? RESOLVE1 : plan[0].later == 1 ? REJECT_B : TERMINATE;
  choose(1, 7);
  nbdl::run_async(nbdl::pipe(nbdl::promise(Step<0>{}), nbdl::catch_(Handler<8, 1>{}), One{}, nbdl::hold_lazy(Make<1>{}, nbdl::lazy_args<Val>), nbdl::promise(SeeLazy{}), nbdl::promise(Step<1>{}), nbdl::catch_(AnyHandler<9>{})), Val(3));
  COVER("hold_lazy: started");
  if (waiting && waiter == 0) { ENSURES(alive_ == 0 && lazy_calls == 0 && live > 0, LAZY); resume(); }
  if (lazy_calls) {
    ENSURES(lazy_calls == 1 && alive_ == 1 && made == 1 && waiting && waiter == 2 && live > 0 && nseen == 0, LAZY);
    Lazy& l = *static_cast<Lazy*>(lazy_at); ENSURES(!irv_dead(lazy_at) && l.h.v == plan[0].x, LAZY);
    resume();
    if (plan[2].later == RESOLVE1) ENSURES(nseen == 1 && lazy_got == plan[0].x, LAZY);
    if (waiting) { ENSURES(waiter == 1 && alive_ == 1 && !irv_dead(lazy_at), LAZY); resume(); }
  }
  ENSURES(!waiting && alive_ == 0 && made == lazy_calls && gone == made, LAZY);
  ENSURES(live == 0 && irv_heap_count() == heap, RELEASED);
}
// in a loop the value held stays the same one, with what the steps did to it
CONTRACT(C16_hold_in_a_loop) {
  begin(); u64 heap = irv_heap_count(); u64 v = any<u64>("value"), n = upto("passes", irv_symbolic() ? 1u << 30 : 30);
  plan[1] = Plan{WAIT, RESOLVE0, 0, 0};
  nbdl::run_async_loop(nbdl::pipe(nbdl::hold(Held(v)), nbdl::promise(See{}), nbdl::promise(Step<1>{}), nbdl::catch_(AnyHandler<9>{})));
  Held* first = seen;
  COVER("hold: loop");
  for (u64 k = 0; k < n; ++k) {
    ENSURES(alive_ == 1 && seen == first && waiting && seen_v == v + k, HOLD);
    nlog = 0; nseen = 0; resume();
    ENSURES(nseen == 1, HOLD);
  }
  COVER("hold: loop done");
  plan[1].later = any<bool>("how") ? TERMINATE : REJECT_A; nlog = 0; resume();
  ENSURES(alive_ == 0 && made == gone && live == 0 && irv_heap_count() == heap, RELEASED);
}
// a lazy value in a loop is made anew in each pass; every one is destroyed once, and never two are alive
template <int N> static inline void pass() {
  if constexpr (N > 0) {
    if (plan[2].what == WAIT && waiting) {
      ENSURES(alive_ == 1 && !irv_dead(lazy_at) && static_cast<Lazy*>(lazy_at)->h.ok, LAZY);
      plan[2].later = (int)below("what the lazy value does", WAIT); plan[2].x = any<u64>("x");
      nlog = 0; nseen = 0;
      resume();
      pass<N - 1>();
    }
  } else if (waiting) { plan[2].later = TERMINATE; resume(); }
}
CONTRACT(C16_hold_lazy_in_a_loop) {
  irv_unroll(60); lazy_begin(); u64 heap = irv_heap_count(); plan[2].later = 0;
  nbdl::run_async_loop(nbdl::pipe(One{}, nbdl::hold_lazy(Make<1>{}, nbdl::lazy_args<Val>), nbdl::promise(SeeLazy{}), nbdl::catch_(AnyHandler<9>{})), Val(3));
  COVER("hold_lazy: loop");
  pass<3>();
  ENSURES(!waiting && alive_ == 0 && made == lazy_calls && gone == made, LAZY);
  ENSURES(live == 0 && irv_heap_count() == heap, RELEASED);
}
// what a pipeline is built from may be gone when it runs on
CONTRACT(C16_own_copies) {
  irv_unroll(60); begin(); u64 heap = irv_heap_count(); choose(1, 3); plan[1].what = WAIT; plan[1].later = plan[1].later % 2 ? REJECT_A : REJECT_B; u64 v = any<u64>("value");
  {
    Handler<8, 1> h; AnyHandler<9> a; Held held(v); Step<1> s; See see; VoidFn<7> f; One one;
    auto hp = nbdl::hold(held); auto sp = nbdl::promise(s);
    nbdl::run_async(nbdl::pipe(hp, nbdl::promise(see), nbdl::tap(f), sp, nbdl::catch_(h), one, nbdl::catch_(a)));
  }
  COVER("hold: own copies");
  ENSURES(waiting && alive_ == 1, KEPT);
  resume();
  ENSURES(nlog == 3 && log_[2].who == (plan[1].later == REJECT_A ? 8 : 9) && log_[2].a == plan[1].x, KEPT);
  ENSURES(!waiting && alive_ == 0 && made == gone && live == 0 && irv_heap_count() == heap, RELEASED);
}
// whatever comes last, reaching the end releases everything: a step that calls its resolver, a function, a tap, a held value, a handler
template <bool FAILS> struct Pause { Track t;
  template <typename R, typename... A> void operator()(R& r, A&&...) {
    ENSURES(t.ok, KEPT); ++nlog;
    if (plan[0].what != WAIT) { r.resolve(Val(7)); return; }
    waiting = &r; waiter = 0;
    resume_ = [](void* p, Plan const& q) { R& r = *static_cast<R*>(p); if constexpr (FAILS) finish(r, q.later, q); else r.resolve(Val(q.x)); };
  } };
template <int I> struct AnyFn { Track t; template <typename... A> Val operator()(A const&...) const { ++nlog; return Val(1); } };
template <int I> struct AnyVoid { Track t; template <typename... A> void operator()(A const&...) const { ++nlog; } };
struct Call { Track t; template <typename R, typename... A> void operator()(R& r, A&&...) { r(Val(1)); } };
struct CallNone { Track t; template <typename R, typename... A> void operator()(R& r, A&&...) { r(); } };
struct CallMany { Track t; template <typename R, typename... A> void operator()(R& r, A&&...) { Val v(4); r(v, Val(2)); } };
template <typename... T> static inline void ends(u64 heap, bool waits, T&&... last) {
  int lo = live, al = alive_; nlog = 0; waiting = nullptr; plan[0] = Plan{waits ? (int)WAIT : (int)RESOLVE1, RESOLVE1, any<u64>("x"), 0};
  nbdl::run_async(nbdl::pipe(nbdl::hold(Held(1)), nbdl::promise(Pause<false>{}), std::forward<T>(last)...), Val(3));
  if (waits) { ENSURES(waiting && alive_ > al && live > lo && !irv_dead(waiting), KEPT); resume(); }
  ENSURES(!waiting && alive_ == al && made - gone == al && live == lo && irv_heap_count() == heap, RELEASED);
}
CONTRACT(C16_every_end) {
  begin(); u64 heap = irv_heap_count(); bool w = any<bool>("waits");
  switch (below("last", 11)) {
    case 0: ends(heap, w); break;
    case 1: ends(heap, w, nbdl::promise(Call{})); break;
    case 2: ends(heap, w, nbdl::promise(CallNone{})); break;
    case 3: ends(heap, w, nbdl::promise(CallMany{})); break;
    case 4: ends(heap, w, AnyFn<10>{}); break;
    case 5: ends(heap, w, AnyVoid<10>{}); break;
    case 6: ends(heap, w, nbdl::tap(AnyVoid<10>{})); break;
    case 7: ends(heap, w, nbdl::hold(Held(2))); break;
    case 8: ends(heap, w, nbdl::pipe(nbdl::promise(Call{}), nbdl::hold(Held(2)))); break;
    case 9: ends(heap, w, nbdl::catch_(AnyHandler<9>{})); break;
    default: ends(heap, w, nbdl::pipe(nbdl::catch_(AnyHandler<9>{}), nbdl::promise(CallMany{})), nbdl::hold(Held(2)), nbdl::hold(Held(3)));
  }
  COVER("pipeline: ended");
}
// a loop is released by what ends it, however the values go round
template <typename... T> static inline void loop_ends(u64 heap, T&&... last) {
  int lo = live, al = alive_; plan[0] = Plan{WAIT, RESOLVE1, any<u64>("x"), 0}; nlog = 0; u64 n = upto("passes", irv_symbolic() ? 1u << 30 : 20);
  nbdl::run_async_loop(nbdl::pipe(nbdl::hold(Held(1)), nbdl::promise(See{}), nbdl::promise(Pause<true>{}), nbdl::catch_(Handler<8, 1>{}), std::forward<T>(last)..., nbdl::catch_(AnyHandler<9>{})), Val(3));
  int held = alive_;
  for (u64 k = 0; k < n; ++k) { ENSURES(alive_ == held && waiting && !irv_dead(seen), KEPT); nlog = 0; nseen = 0; resume(); }
  COVER("pipeline: loop ends");
  int how = (int)below("end", 3); plan[0].later = how == 0 ? TERMINATE : how == 1 ? REJECT_A : REJECT_B; nlog = 0; resume();
  ENSURES(!waiting && alive_ == al && made - gone == al && live == lo && irv_heap_count() == heap, RELEASED);
}
CONTRACT(C16_every_end_of_a_loop) {
  begin(); u64 heap = irv_heap_count();
  switch (below("last", 4)) {
    case 0: loop_ends(heap, nbdl::promise(Call{})); break;
    case 1: loop_ends(heap, AnyVoid<10>{}, nbdl::promise(CallMany{})); break;
    case 2: loop_ends(heap, nbdl::hold(Held(2))); break;
    default: loop_ends(heap, nbdl::pipe(nbdl::tap(AnyVoid<10>{}), nbdl::pipe(nbdl::promise(CallNone{}))));
  }
}
