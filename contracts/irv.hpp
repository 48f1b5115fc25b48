// The contract language.  A contract is a C++ function that sets up an arbitrary state (irv::any, irv::buffer ...), states its
// preconditions (REQUIRES), calls the real code and states what has to hold afterwards (ENSURES).  The same text is compiled to LLVM IR
// for the deductive verifier and, with IRV_NATIVE, to a program that replays one concrete input.
#pragma once
#include <cstdint>
#include <cstddef>
#include <type_traits>
#ifdef IRV_NATIVE
#include <functional>
#endif
extern "C" {
  std::uint64_t irv_nondet(char const* name, unsigned bits);
  std::uint64_t irv_size(char const* name, std::uint64_t max);      // an arbitrary number that is at most max
  void  irv_assume(bool);
  void  irv_assert(bool, char const* name);
  void  irv_cover(char const* name);
  void* irv_buffer(char const* name, std::uint64_t n);
  bool  irv_symbolic();
  void  irv_hint(std::uint64_t);
  std::uint64_t irv_heap_count();
  void  irv_unroll(std::uint64_t);
  bool  irv_fork(bool);
  void  irv_split_min();
  void  irv_peel();
  std::uint64_t irv_rec(char const*, std::uint64_t);
  void  irv_def(char const*, std::uint64_t, std::uint64_t);
  std::uint64_t irv_index();
  void  irv_fact(std::uint64_t, std::uint64_t, bool);
  unsigned char irv_peek(void const*, std::uint64_t);
  std::uint64_t irv_value(std::uint64_t);
  std::uint64_t irv_ite(bool, std::uint64_t, std::uint64_t);
  bool  irv_dead(void const*);
  std::uint64_t irv_uf1(char const*, std::uint64_t);
  std::uint64_t irv_uf2(char const*, std::uint64_t, std::uint64_t);
}
namespace irv {
  using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
  template <typename T> inline T any(char const* name) {
    if constexpr (std::is_same_v<T, bool>) return irv_nondet(name, 1) != 0;
    else return static_cast<T>(irv_nondet(name, sizeof(T) * 8));
  }
  // conditional without a branch (keeps the number of paths of a specification at one)
  template <typename T> inline T ite(bool c, T a, T b) { return static_cast<T>(irv_ite(c, static_cast<u64>(a), static_cast<u64>(b))); }
  inline u64 below(char const* name, u64 n) { irv_assume(n != 0); return irv_size(name, n - 1); }
  inline u64 upto(char const* name, u64 n) { return irv_size(name, n); }
  template <typename T = unsigned char> inline T* buffer(char const* name, u64 n) { return static_cast<T*>(irv_buffer(name, n)); }
  // for all k < n: f(k).  The verifier takes one arbitrary k, the native build runs through all of them.
  template <typename F> inline void forall(u64 n, F f) {
    if (irv_symbolic()) { u64 k = irv_nondet("forall", 64); if (k < n) f(k); }
    else for (u64 k = 0; k < n; ++k) f(k);
  }
  // assume for all k < n: f(k)
  template <typename F> inline void assume_all(u64 n, F f) {
#ifdef IRV_NATIVE
    for (u64 k = 0; k < n; ++k) irv_assume(f(k));
#else
    u64 k = irv_index(); irv_fact(k, n, f(k));
#endif
  }
  // specification functions over the positions of a buffer of n bytes, defined by recursion towards its end:
  // define("f", n, [](u64 i) { ... spec_at("f", i + 1) ... }) makes f(i) equal to that expression for every i (and undefined beyond n)
#ifdef IRV_NATIVE
  u64 native_rec(char const*, u64);
  void native_def(char const*, u64, std::function<u64(u64)>);
  inline u64 spec_at(char const* f, u64 i) { return native_rec(f, i); }
  template <typename F> inline void define(char const* f, u64 n, F body) { native_def(f, n, body); }
  inline u8 peek(void const* p, u64 n, u64 i) { return i < n ? static_cast<u8 const*>(p)[i] : 0; }
#else
  inline u64 spec_at(char const* f, u64 i) { return irv_rec(f, i); }
  template <typename F> inline void define(char const* f, u64, F body) { u64 i = irv_index(); irv_def(f, i, body(i)); }
  inline u8 peek(void const* p, u64, u64 i) { return irv_peek(p, i); }
#endif
  // a read-only view of bytes with the interface of a container
  template <typename C>
  struct Bytes {
    using value_type = C; using iterator = C const*; using const_iterator = C const*; using reference = C const&; using const_reference = C const&; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    C const* p; std::size_t n;
    C const* data() const { return p; } std::size_t size() const { return n; } bool empty() const { return n == 0; }
    C const* begin() const { return p; } C const* end() const { return p + n; }
    C const& operator[](std::size_t i) const { return p[i]; }
  };
}
#define REQUIRES(c) irv_assume(c)
#define ENSURES(c, name) irv_assert((c), name)
#define COVER(name) irv_cover(name)
#ifdef IRV_NATIVE
namespace irv { struct Reg { Reg(char const*, void (*)()); }; }
#define CONTRACT(name) extern "C" void contract_##name(); static irv::Reg irv_reg_##name(#name, contract_##name); extern "C" void contract_##name()
#else
#define CONTRACT(name) extern "C" __attribute__((used)) void contract_##name()
// models of C library functions (their text is verified together with the caller)
#define IRVM extern "C" __attribute__((used, noinline)) inline
IRVM int irvm_memcmp(void const* a, void const* b, std::size_t n) {
  unsigned char const* x = (unsigned char const*)a; unsigned char const* y = (unsigned char const*)b;
  for (std::size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
IRVM int irvm_bcmp(void const* a, void const* b, std::size_t n) { return irvm_memcmp(a, b, n); }
IRVM std::size_t irvm_strlen(char const* s) { std::size_t i = 0; while (s[i]) ++i; return i; }
IRVM void* irvm_memchr(void const* s, int c, std::size_t n) {
  unsigned char const* p = (unsigned char const*)s;
  for (std::size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i);
  return nullptr;
}
IRVM int irvm_iswspace(unsigned c) { return (c == 32) | (c - 9 <= 4); }     // in the "C" locale
IRVM int irvm_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
IRVM int irvm_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
#endif
