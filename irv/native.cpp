// Native side of the contract language: replays a concrete input (or lets libFuzzer look for one) against the real code.
#include "irv.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <map>
#include <string>
#include <new>
#include <vector>
#include <sanitizer/asan_interface.h>
namespace {
  std::map<std::string, void (*)()>& table() { static std::map<std::string, void (*)()> t; return t; }
  unsigned char const* cur; unsigned char const* end_;
  std::jmp_buf out; bool verbose = false; long live_blocks = 0; long long allocated_mark = 0; unsigned long evals = 0, discards = 0; bool running = false;
  std::vector<void*> buffers;
  std::uint64_t byte() { return cur < end_ ? *cur++ : 0; }
  std::uint64_t bytes(unsigned n) { std::uint64_t r = 0; for (unsigned i = 0; i < n; ++i) r |= byte() << (8 * i); return r; }
  [[noreturn]] void discard() { ++discards; std::longjmp(out, 1); }
}
struct Rec { std::function<std::uint64_t(std::uint64_t)> f; std::uint64_t n; std::vector<char> known; std::vector<std::uint64_t> v; };
static std::map<std::string, Rec>& recs() { static std::map<std::string, Rec> r; return r; }
namespace irv {
  void native_def(char const* name, u64 n, std::function<u64(u64)> f) { bool r = running; running = false; Rec& x = recs()[name]; x.f = f; x.n = n; x.known.assign(n + 1, 0); x.v.assign(n + 1, 0); running = r; }
  u64 native_rec(char const* name, u64 i) {
    auto it = recs().find(name); if (it == recs().end()) return 0;
    Rec& x = it->second; if (i > x.n) return 0;
    if (!x.known[i]) { u64 v = x.f(i); x.v[i] = v; x.known[i] = 1; }
    return x.v[i];
  }
}
namespace irv { Reg::Reg(char const* n, void (*f)()) { table()[n] = f; } }
extern "C" {
  std::uint64_t irv_nondet(char const* name, unsigned bits) {
    std::uint64_t v = bytes((bits + 7) / 8); if (bits < 64) v &= (1ull << bits) - 1;
    if (verbose) std::fprintf(stderr, "IRV-INPUT %s = %llu\n", name, (unsigned long long)v);
    return v;
  }
  std::uint64_t irv_size(char const* name, std::uint64_t max) {
    std::uint64_t b = byte(), v;
    if (b < 200) v = b; else if (b < 254) v = bytes(2); else if (b == 254) v = bytes(4); else v = bytes(8);
    if (v > max) v = max == ~0ull ? v : v % (max + 1);
    if (verbose) std::fprintf(stderr, "IRV-INPUT %s = %llu\n", name, (unsigned long long)v);
    return v;
  }
  void irv_assume(bool b) { if (!b) discard(); }
  void irv_assert(bool b, char const* name) { if (!b) { std::fprintf(stderr, "IRV-FAIL %s\n", name); std::fflush(stderr); std::abort(); } }
  void irv_cover(char const*) {}
  void* irv_buffer(char const* name, std::uint64_t n) {
    if (n > (64u << 20)) discard();
    bool r = running; running = false; unsigned char* p = (unsigned char*)std::malloc(n); running = r; buffers.push_back(p);
    std::uint64_t have = end_ - cur, m = have < n ? have : n;
    if (m) std::memcpy(p, cur, m); cur += m;
    if (n > m) std::memset(p + m, m ? p[m - 1] : 0, n - m);
    if (verbose) { std::fprintf(stderr, "IRV-INPUT %s[%llu] =", name, (unsigned long long)n); for (std::uint64_t i = 0; i < n && i < 400; ++i) std::fprintf(stderr, " %02x", p[i]); std::fprintf(stderr, "\n"); }
    return p;
  }
  bool irv_symbolic() { return false; }
  void irv_hint(std::uint64_t) {}
  std::uint64_t irv_heap_count() { return live_blocks; }
  void irv_unroll(std::uint64_t) {}
  bool irv_fork(bool b) { return b; }
  void irv_split_min() {}
  void irv_peel() {}
  std::uint64_t irv_value(std::uint64_t v) { return v; }
  std::uint64_t irv_ite(bool c, std::uint64_t a, std::uint64_t b) { return c ? a : b; }
  bool irv_dead(void const* p) { return __asan_address_is_poisoned(p); }
  std::uint64_t irv_uf1(char const* n, std::uint64_t a) { std::uint64_t h = 1469598103934665603ull; for (; *n; ++n) h = (h ^ (unsigned char)*n) * 1099511628211ull; h = (h ^ a) * 0x9E3779B97F4A7C15ull; return h ^ (h >> 29); }
  std::uint64_t irv_uf2(char const* n, std::uint64_t a, std::uint64_t b) { return irv_uf1(n, irv_uf1(n, a) * 31 + b); }
  void irv_discard() { discard(); }
}
// every block of the contract run is counted (memory that outlives its owner is a defect where a contract says so)
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) std::abort(); if (running) ++live_blocks; return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p && running) --live_blocks; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

static void run(void (*f)(), unsigned char const* d, std::size_t n) {
  cur = d; end_ = d + n; live_blocks = 0; ++evals;
  if (setjmp(out) == 0) { running = true; f(); }
  running = false;
  for (void* p : buffers) std::free(p);
  buffers.clear();
}
extern "C" int LLVMFuzzerTestOneInput(unsigned char const* d, std::size_t n) {
  static void (*f)() = nullptr;
  if (!f) {
    char const* c = std::getenv("IRV_CONTRACT");
    if (!c || !table().count(c)) { std::fprintf(stderr, "IRV-NO-CONTRACT\n"); std::_Exit(99); }
    f = table()[c]; verbose = std::getenv("IRV_VERBOSE");
    std::atexit([] { std::fprintf(stderr, "IRV-EVALS %lu %lu\n", evals, discards); });
  }
  run(f, d, n);
  return 0;
}
