#include "pipe_steps.hpp"
#define RELEASED "pipeline: its state is released exactly when it has ended"
#define KEPT "pipeline: its state stays alive while it waits"
template <typename P, int N> static inline void run(P&& p, El const (&el)[N], u64 heap) {
  nwant = 0; n_ = 1; va = any<u64>("argument");
  u64 a = va; int i = 0;
  bool end = model(el, N, i, false, -1);
  int outside = live;
  nbdl::run_async(std::forward<P>(p), Val(a));
  COVER("pipeline: ran");
  same_log();
  for (int k = 0; k < 4 && !end; ++k) {
    ENSURES(waiting != nullptr && !irv_dead(waiting), KEPT);
    int who = el[i].who;
    ENSURES(waiter == who && live > outside, KEPT);
    resume();
    end = model(el, N, i, false, plan[who].later);
    same_log();
  }
  ENSURES(end && waiting == nullptr, RELEASED);
  ENSURES(irv_heap_count() == heap && live == outside, RELEASED);
}
CONTRACT(C15_steps_in_order) {
  irv_unroll(60);
  start(); u64 heap = irv_heap_count();
  for (int i = 0; i < 3; ++i) choose(i, 7);
  static constexpr El el[] = {{STEP, 0}, {FN, 10}, {STEP, 1}, {TAP, 11}, {STEP, 2}, {CATCH_ALL, 12}};
  run(nbdl::pipe(nbdl::promise(Step<0>{}), Fn<10>{}, nbdl::promise(Step<1>{}), nbdl::tap(VoidFn<11>{}), nbdl::promise(Step<2>{}), nbdl::catch_(AnyHandler<12>{})), el, heap);
  ENSURES(live == 0, RELEASED);
}

// handlers in several places, nested pipelines act like their steps in their place
CONTRACT(C15_rejections) {
  irv_unroll(60);
  start(); u64 heap = irv_heap_count();
  for (int i = 0; i < 3; ++i) choose(i, 7);
  static constexpr El el[] = {{CATCH_B, 9}, {STEP, 0}, {CATCH_A, 10}, {STEP, 1}, {CATCH_A, 11}, {CATCH_B, 12}, {STEP, 2}, {CATCH_A, 13}, {VOIDFN, 14}, {CATCH_ALL, 15}, {CATCH_ALL, 16}};
  run(nbdl::pipe(nbdl::catch_(Handler<9, 2>{}), nbdl::promise(Step<0>{}), nbdl::catch_(Handler<10, 1>{}), nbdl::pipe(nbdl::promise(Step<1>{}), nbdl::catch_(Handler<11, 1>{})), nbdl::pipe(nbdl::catch_(Handler<12, 2>{}), nbdl::promise(Step<2>{}), nbdl::pipe(nbdl::catch_(Handler<13, 1>{}), VoidFn<14>{})), nbdl::catch_(AnyHandler<15>{}), nbdl::catch_(AnyHandler<16>{})), el, heap);
  ENSURES(live == 0, RELEASED);
}
CONTRACT(C15_functions_and_taps) {
  irv_unroll(60);
  start(); u64 heap = irv_heap_count();
  for (int i = 0; i < 2; ++i) choose(i, 7);
  static constexpr El el[] = {{FN, 10}, {TAP, 11}, {STEP, 0}, {TAP, 12}, {FN, 13}, {FN, 14}, {VOIDFN, 15}, {FN, 16}, {STEP, 1}, {VOIDFN, 17}, {TAP, 18}, {CATCH_ALL, 19}};
  auto tail = nbdl::pipe(VoidFn<17>{}, nbdl::tap(VoidFn<18>{}), nbdl::catch_(AnyHandler<19>{}));
  auto all = nbdl::pipe(Fn<10>{}, nbdl::tap(VoidFn<11>{}), nbdl::promise(Step<0>{}), nbdl::pipe(nbdl::tap(VoidFn<12>{}), Fn<13>{}), Fn<14>{}, VoidFn<15>{}, nbdl::pipe(Fn<16>{}), nbdl::promise(Step<1>{}), tail);
  run(std::move(all), el, heap);
}
// the pipeline itself is left as it is and can be run again
CONTRACT(C15_again) {
  irv_unroll(60);
  start(); u64 heap = irv_heap_count();
  static constexpr El el[] = {{STEP, 0}, {STEP, 1}, {CATCH_ALL, 12}};
  auto p = nbdl::pipe(nbdl::promise(Step<0>{}), nbdl::promise(Step<1>{}), nbdl::catch_(AnyHandler<12>{}));
  auto const& q = p;
  plan[0] = Plan{RESOLVE1, 0, any<u64>("x"), 0}; plan[1] = Plan{WAIT, (int)below("later", WAIT), any<u64>("x"), 0};
  run(q, el, heap);
  choose(0, 7); choose(1, 7); nlog = 0;
  run(p, el, heap);
}
// what is resolved by reference arrives as that reference, what is resolved as a temporary as a temporary
struct Passed { void const* at; bool lvalue, constant; };
static Passed passed[4];
template <int I> struct Catcher { template <typename R, typename A> void operator()(R& r, A&& a) { passed[I] = Passed{&a, std::is_lvalue_reference_v<A>, std::is_const_v<std::remove_reference_t<A>>}; r.resolve(std::forward<A>(a)); } };
CONTRACT(C15_references) {
  start(); Val x(any<u64>("x")); Val const& c = x; int which = (int)below("kind", 3); u64 v = x.v;
  for (auto& p : passed) p = Passed{};
  auto pipe = [] { return nbdl::pipe(nbdl::promise(Catcher<0>{}), nbdl::promise(Catcher<1>{}), nbdl::pipe(nbdl::catch_([](Err<1>) {}), nbdl::promise(Catcher<2>{})), nbdl::tap([](auto&&...) {}), nbdl::promise(Catcher<3>{})); };
  COVER("pipeline: references");
  switch (which) { case 0: nbdl::run_async(pipe(), x); break; case 1: nbdl::run_async(pipe(), c); break; default: nbdl::run_async(pipe(), std::move(x)); }
  for (auto& p : passed) ENSURES(p.at == &x && p.lvalue == (which < 2) && p.constant == (which == 1), "pipeline: values are passed on as they are, not copied");
  ENSURES(x.v == v, "pipeline: values are passed on as they are, not copied");
}
// run_sync runs the given pipeline in place, with the same order and values
CONTRACT(C15_sync) {
  irv_unroll(60);
  start(); u64 heap = irv_heap_count();
  for (int i = 0; i < 2; ++i) choose(i, 6);
  static constexpr El el[] = {{STEP, 0}, {TAP, 11}, {CATCH_A, 12}, {STEP, 1}, {CATCH_B, 13}, {CATCH_ALL, 14}};
  nwant = 0; n_ = 1; va = any<u64>("argument"); u64 a = va; int i = 0;
  { auto p = nbdl::pipe(nbdl::promise(Step<0>{}), nbdl::pipe(nbdl::tap(VoidFn<11>{}), nbdl::catch_(Handler<12, 1>{})), nbdl::promise(Step<1>{}), nbdl::catch_(Handler<13, 2>{}), nbdl::catch_(AnyHandler<14>{}));
    int outside = live;
    model(el, 6, i, false, -1);
    nbdl::run_sync(p, Val(a));
    COVER("pipeline: sync");
    same_log();
    ENSURES(live == outside && irv_heap_count() == heap, RELEASED);
  }
  ENSURES(live == 0, RELEASED);
}
// a looping pipeline: every pass starts with the values the last step resolved with, for any number of passes
template <typename P> static inline void loop(P&& p, u64 heap, bool nested) {
  plan[0] = Plan{RESOLVE1, 0, any<u64>("x"), 0}; plan[1] = Plan{WAIT, RESOLVE1, any<u64>("x"), any<u64>("y")};
  u64 a = any<u64>("argument"); int outside = live;
  nbdl::run_async_loop(std::forward<P>(p), Val(a));
  u64 n = upto("passes", irv_symbolic() ? 1u << 30 : 40);
  COVER("pipeline: loop");
  ENSURES(nlog == 2 && log_[0].who == 0 && log_[0].n == 1 && log_[0].a == a && log_[1].who == 1 && log_[1].a == plan[0].x && waiting != nullptr && live > outside, "pipeline: a loop runs its steps in order");
  for (u64 k = 0; k < n; ++k) {
    plan[0].x = any<u64>("x of the next pass"); plan[1].x = any<u64>("x"); plan[1].y = any<u64>("y"); plan[1].later = RESOLVE1;
    u64 x = plan[1].x; nlog = 0;
    resume();
    ENSURES(nlog == 2 && log_[0].who == 0 && log_[1].who == 1, "pipeline: a loop runs its steps in order");
    ENSURES(log_[0].n == 1 && log_[0].a == x, "pipeline: a pass starts with the values of the last step");
    ENSURES(log_[1].n == 1 && log_[1].a == plan[0].x, "pipeline: each step is given exactly the values of the one before");
    ENSURES(waiting != nullptr && waiter == 1, KEPT);
  }
  COVER("pipeline: loop done");
  int how = (int)below("end", 4); u64 z = any<u64>("z");
  plan[1].later = how < 2 ? TERMINATE : REJECT_A; plan[1].x = z;
  plan[0].what = how == 2 ? REJECT_B : how == 3 ? TERMINATE : RESOLVE1; plan[0].x = z;
  if (how >= 2) { plan[1].later = RESOLVE2; }
  nlog = 0;
  if (how == 0) { resume(); ENSURES(nlog == 0, "pipeline: nothing runs after the end"); }
  else if (how == 1) { plan[1].later = REJECT_A; resume(); ENSURES(nlog == 1 && log_[0].who == 12 && log_[0].n == -1 && log_[0].a == z, "pipeline: a rejection ends a loop at its handler"); }
  else { resume(); ENSURES(nlog == (how == 2 ? 2 : 1) && log_[0].who == 0 && log_[0].n == 2 && log_[0].a == z, "pipeline: a pass starts with the values of the last step"); if (how == 2) ENSURES(log_[1].who == 12 && log_[1].n == -2 && log_[1].a == z, "pipeline: a rejection ends a loop at its handler"); }
  ENSURES(waiting == nullptr && irv_heap_count() == heap && live == outside, RELEASED);
}
CONTRACT(C15_loop) {
  start(); u64 heap = irv_heap_count();
  loop(nbdl::pipe(nbdl::promise(Step<0>{}), nbdl::pipe(nbdl::catch_(Handler<13, 3>{}), nbdl::promise(Step<1>{})), nbdl::catch_(AnyHandler<12>{})), heap, false);
  ENSURES(live == 0, RELEASED);
}
// functions and steps may take what they are given by value, by reference or by temporary; nobody else's value suffers from it
static u64 got_[12]; static int ngot;
static inline void put(u64 v) { got_[ngot++] = v; }
struct ByValue { void operator()(Val a, Val b) const { put(a.v); put(b.v); Val(std::move(a)); b.v = 7; } };
struct ByRef { Val& operator()(Val const& a, Val& b) const { put(a.v); put(b.v); return b; } };
struct TakeAll { Val operator()(Val a) const { put(a.v); return a; } };
struct OnlyTemp { Val operator()(Val&& a) const { put(a.v); return Val(std::move(a)); } };
CONTRACT(C15_value_kinds) {
  start(); u64 heap = irv_heap_count(); ngot = 0; u64 x = any<u64>("x"), y = any<u64>("y"); int which = (int)below("resolved with", 3); bool called = any<bool>("by call");
  Val outer(y), outer2(x); void* at = nullptr; u64 last = 0; int runs = 0;
  auto step = nbdl::promise([&](auto& r) {
    if (which == 0) { if (called) r(Val(x), outer); else r.resolve(Val(x), outer); }
    else if (which == 1) { if (called) r(outer2, outer); else r.resolve(outer2, outer); }
    else { if (called) r(std::as_const(outer2), outer); else r.resolve(std::as_const(outer2), outer); }
  });
  nbdl::run_async(nbdl::pipe(step, nbdl::tap(ByValue{}), nbdl::tap([](auto a, auto b) { put(a.v); put(b.v); }), ByRef{}, nbdl::promise([&](auto& r, Val& b) { at = &b; ++runs; Val t(b.v); if (called) r(std::move(t)); else r.resolve(std::move(t)); }), nbdl::tap(TakeAll{}), OnlyTemp{}, nbdl::tap([](Val a) { put(a.v); }), TakeAll{}, nbdl::promise([&](auto& r, Val const& v) { ++runs; last = v.v; r(); })));
  COVER("pipeline: value kinds");
  ENSURES(ngot == 10 && runs == 2, "pipeline: exactly the expected steps run, each once per pass");
  for (int i = 0; i < 10; ++i) ENSURES(got_[i] == (i < 6 && i % 2 == 0 ? x : y), "pipeline: each step is given exactly the values of the one before");
  ENSURES(last == y && at == &outer && outer.v == y && outer2.v == x, "pipeline: each step is given exactly the values of the one before");
  ENSURES(irv_heap_count() == heap, RELEASED);
}
// which handler a rejection reaches follows from what the handlers accept: kinds of references, several values, none, conversions
struct F1 { u64 v; }; struct F2 : F1 {};
template <int W, int I> struct Kinds {          // W: what this handler accepts
  Track t;
  void operator()(F1& e) requires (W == 0) { note_(e.v, 0); }
  void operator()(F1&& e) requires (W == 1) { note_(e.v, 0); }
  void operator()(F1 e) requires (W == 2) { note_(e.v, 0); }
  void operator()(F1 const& e) requires (W == 3) { note_(e.v, 0); }
  void operator()(F1 const& e, u64 b) requires (W == 4) { note_(e.v, b); }
  void operator()() requires (W == 5) { note_(0, 0); }
  void operator()(u64 a) requires (W == 6) { note_(a, 0); }
  template <typename... A> void operator()(A const&... a) requires (W == 7) { note_(0, sizeof...(a)); }
  static void note_(u64 a, u64 b) { log_[nlog++] = Ev{I, W, a, b}; }
};
enum { R_LREF, R_TEMP, R_CONST, R_PAIR, R_NONE, R_INT, R_DERIVED, R_OTHER, NREJ };
static constexpr bool takes(int w, int r) {
  switch (w) {
    case 0: return r == R_LREF;
    case 1: return r == R_TEMP || r == R_DERIVED;
    case 2: case 3: return r == R_LREF || r == R_TEMP || r == R_CONST || r == R_DERIVED;
    case 4: return r == R_PAIR;
    case 5: return r == R_NONE;
    case 6: return r == R_INT;
    default: return true;
  }
}
template <int... W> static inline void reject_kinds(int r, u64 x, u64 y, bool later) {
  nlog = 0; F1 mine{x}; int after = 0; static void* res; static void (*go)(void*, F1&, int, u64, u64);
  go = nullptr;
  auto step = nbdl::promise([&](auto& rr) {
    using R = std::remove_reference_t<decltype(rr)>; res = &rr;
    go = [](void* p, F1& mine, int r, u64 x, u64 y) {
      R& q = *static_cast<R*>(p);
      switch (r) {
        case R_LREF: q.reject(mine); break; case R_TEMP: q.reject(F1{x}); break; case R_CONST: q.reject(std::as_const(mine)); break;
        case R_PAIR: q.reject(F1{x}, y); break; case R_NONE: q.reject(); break; case R_INT: q.reject(x); break; case R_DERIVED: { F2 d; d.v = x; q.reject(std::move(d)); break; } default: q.reject("other", 'x', 3.0);
      }
    };
    if (!later) go(res, mine, r, x, y);
  });
  auto skip = nbdl::promise([&](auto& rr, auto&&...) { ++after; rr.resolve(); });
  [&]<int... I>(std::integer_sequence<int, I...>) { nbdl::run_async(nbdl::pipe(step, skip, nbdl::pipe(nbdl::catch_(Kinds<W, I>{}), skip)..., nbdl::catch_(Kinds<7, 100>{}))); }(std::make_integer_sequence<int, sizeof...(W)>{});
  if (later) { ENSURES(live > 0 && nlog == 0 && !irv_dead(res), KEPT); go(res, mine, r, x, y); }
  int const ws[] = {W..., 7}; int expect = -1, w = 0;
  for (int i = 0; i <= (int)sizeof...(W); ++i) if (expect < 0 && takes(ws[i], r)) { expect = i == sizeof...(W) ? 100 : i; w = ws[i]; }
  ENSURES(nlog == 1 && after == 0, "pipeline: exactly the expected steps run, each once per pass");
  ENSURES(log_[0].who == expect && log_[0].n == w, "pipeline: a rejection reaches the first later handler that accepts it");
  if (w < 4 || w == 6) ENSURES(log_[0].a == x && log_[0].b == 0, "pipeline: a handler is given what was rejected");
  if (w == 4) ENSURES(log_[0].a == x && log_[0].b == y, "pipeline: a handler is given what was rejected");
}
CONTRACT(C15_rejection_kinds) {
  irv_unroll(60); start(); u64 heap = irv_heap_count(); int r = (int)below("rejection", NREJ); u64 x = any<u64>("x"), y = any<u64>("y"); bool later = any<bool>("later");
  switch (below("handlers", 5)) {
    case 0: reject_kinds<0, 1, 2, 4, 5, 6>(r, x, y, later); break;
    case 1: reject_kinds<1, 0, 3, 5, 4>(r, x, y, later); break;
    case 2: reject_kinds<5, 4, 3, 1, 0>(r, x, y, later); break;
    case 3: reject_kinds<6, 5, 0, 7, 2>(r, x, y, later); break;
    default: reject_kinds<>(r, x, y, later);
  }
  COVER("pipeline: rejection kinds");
  ENSURES(irv_heap_count() == heap && live == 0, RELEASED);
}
