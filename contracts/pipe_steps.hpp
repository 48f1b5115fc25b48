// Steps of a pipeline that do whatever the contract chose for them, and a record of what they were given.
#pragma once
#include "irv.hpp"
#include <nbdl/promise.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_async_loop.hpp>
#include <nbdl/run_sync.hpp>
#include <boost/hana.hpp>
using namespace irv;
namespace hana = boost::hana;

struct Val {
  u64 v;
  explicit Val(u64 x) : v(x) {}
  Val(Val const& o) : v(o.v) {}
  Val(Val&& o) : v(o.v) { o.v = ~o.v; }
  Val& operator=(Val const& o) = delete;
};
template <int K> struct Err { u64 v; };
// a part of the pipeline's state
static int live, born;
struct Track {
  bool ok = true;
  Track() { ++live; ++born; }
  Track(Track const& o) { ENSURES(o.ok, "pipeline: only living state is used"); ++live; ++born; }
  Track(Track&& o) { ENSURES(o.ok, "pipeline: only living state is used"); ++live; ++born; }
  Track& operator=(Track const&) = delete;
  ~Track() { ENSURES(ok, "pipeline: state is released once"); ok = false; --live; }
};
enum What { RESOLVE1, RESOLVE2, RESOLVE0, REJECT_A, REJECT_B, TERMINATE, WAIT };
static constexpr int NSTEP = 4;
struct Plan { int what, later; u64 x, y; };               // what the step does, and if it waits, what it does later
struct Ev { int who, n; u64 a, b; };
static Plan plan[NSTEP]; static Ev log_[24]; static int nlog;
static void* waiting; static void (*resume_)(void*, Plan const&); static int waiter;
static inline void note(int who) { log_[nlog++] = Ev{who, 0, 0, 0}; }
static inline void note(int who, Val const& a) { log_[nlog++] = Ev{who, 1, a.v, 0}; }
static inline void note(int who, Val const& a, Val const& b) { log_[nlog++] = Ev{who, 2, a.v, b.v}; }
template <typename R> static inline void finish(R& r, int what, Plan const& p) {
  switch (what) {
    case RESOLVE1: r.resolve(Val(p.x)); break;
    case RESOLVE2: { Val y(p.y); r.resolve(Val(p.x), y); break; }
    case RESOLVE0: r.resolve(); break;
    case REJECT_A: r.reject(Err<1>{p.x}); break;
    case REJECT_B: r.reject(Err<2>{p.x}); break;
    case TERMINATE: r.terminate(); break;
  }
}
template <typename R> static void resume_with(void* r, Plan const& p) { finish(*static_cast<R*>(r), p.later, p); }
static inline void resume() { void* r = waiting; waiting = nullptr; resume_(r, plan[waiter]); }
template <int I> struct Step {
  Track t;
  template <typename R, typename... A> void operator()(R& r, A&&... a) {
    ENSURES(t.ok, "pipeline: only living state is used");
    note(I, a...);
    Plan const& p = plan[I];
    if (p.what == WAIT) { waiting = &r; resume_ = &resume_with<R>; waiter = I; }
    else finish(r, p.what, p);
  }
};
template <int I, int K> struct Handler { Track t; void operator()(Err<K> const& e) const { ENSURES(t.ok, "pipeline: only living state is used"); log_[nlog++] = Ev{I, -K, e.v, 0}; } };
template <int I> struct AnyHandler { Track t; template <int K> void operator()(Err<K> const& e) const { ENSURES(t.ok, "pipeline: only living state is used"); log_[nlog++] = Ev{I, -K, e.v, 0}; } };
static inline void choose(int i, int kinds) { plan[i].what = (int)below("step", kinds); plan[i].later = plan[i].what == WAIT ? (int)below("later", WAIT) : 0; plan[i].x = any<u64>("x"); plan[i].y = any<u64>("y"); }
static inline void start() { nlog = 0; waiting = nullptr; live = born = 0; }
// what a pipeline is expected to do
enum Kind { STEP, FN, VOIDFN, TAP, CATCH_A, CATCH_B, CATCH_ALL };
struct El { Kind kind; int who; };
static Ev want[24]; static int nwant; static bool ended; static int at; static int n_; static u64 va, vb;
static inline bool reject(El const* el, int n, int i, int k, u64 x) {
  for (; i < n; ++i) if (el[i].kind == CATCH_ALL || (el[i].kind == CATCH_A && k == 1) || (el[i].kind == CATCH_B && k == 2)) { want[nwant++] = Ev{el[i].who, -k, x, 0}; break; }
  return true;
}
// runs the model from element i with n_ values va, vb; true if the pipeline came to an end, i is where it waits otherwise; turns: how often a loop may start again
static inline bool model(El const* el, int n, int& i, bool loop, int what_at_first) {
  for (;;) {
    if (i == n) { if (!loop) return true; i = 0; continue; }
    El const& e = el[i];
    int what = what_at_first;
    switch (e.kind) {
      case STEP: {
        Plan const& p = plan[e.who];
        if (what < 0) { want[nwant++] = Ev{e.who, n_, n_ > 0 ? va : 0, n_ > 1 ? vb : 0}; what = p.what; }
        what_at_first = -1;
        if (what == WAIT) return false;
        if (what == TERMINATE) return true;
        if (what == REJECT_A) return reject(el, n, i + 1, 1, p.x);
        if (what == REJECT_B) return reject(el, n, i + 1, 2, p.x);
        n_ = what == RESOLVE1 ? 1 : what == RESOLVE2 ? 2 : 0; va = p.x; vb = p.y;
        break;
      }
      case FN: want[nwant++] = Ev{e.who, n_, n_ > 0 ? va : 0, n_ > 1 ? vb : 0}; va = (n_ > 0 ? va : 1) * 3 + (n_ > 1 ? vb : 0); n_ = 1; break;
      case VOIDFN: want[nwant++] = Ev{e.who, n_, n_ > 0 ? va : 0, n_ > 1 ? vb : 0}; n_ = 0; break;
      case TAP: want[nwant++] = Ev{e.who, n_, n_ > 0 ? va : 0, n_ > 1 ? vb : 0}; break;
      default: break;
    }
    ++i;
  }
}
template <int I> struct Fn { Track t;
  Val operator()() const { note(I); return Val(3); }
  Val operator()(Val const& a) const { note(I, a); return Val(a.v * 3); }
  Val operator()(Val const& a, Val const& b) const { note(I, a, b); return Val(a.v * 3 + b.v); } };
template <int I> struct VoidFn { Track t; template <typename... A> void operator()(A const&... a) const { note(I, a...); } };
static inline void same_log() {
  ENSURES(nlog == nwant, "pipeline: exactly the expected steps run, each once per pass");
  for (int i = 0; i < nwant; ++i) {
    ENSURES(log_[i].who == want[i].who, "pipeline: the steps run in order, a rejection reaches the first later handler that accepts it");
    ENSURES(log_[i].n == want[i].n && log_[i].a == want[i].a && log_[i].b == want[i].b, "pipeline: each step is given exactly the values of the one before");
  }
}
