#include "irv.hpp"
#include <nbdl/detail/beast_sha1.hpp>
#include <cstring>
using namespace irv;
namespace bs = nbdl::detail::beast_sha1;
// ---- FIPS 180-4, section 6.1.2, as written there
static inline u32 rotl(u32 x, unsigned n) { return x << n | x >> (32 - n); }
static inline u32 f(unsigned t, u32 b, u32 c, u32 d) {
  if (t < 20) return (b & c) ^ (~b & d);
  if (t < 40) return b ^ c ^ d;
  if (t < 60) return (b & c) ^ (b & d) ^ (c & d);
  return b ^ c ^ d;
}
static inline u32 K(unsigned t) { return t < 20 ? 0x5a827999u : t < 40 ? 0x6ed9eba1u : t < 60 ? 0x8f1bbcdcu : 0xca62c1d6u; }
template <unsigned T> struct Round {
  static __attribute__((always_inline)) void go(u32* W, u32 a, u32 b, u32 c, u32 d, u32 e, u32* H) {
    if constexpr (T == 80) { H[0] += a; H[1] += b; H[2] += c; H[3] += d; H[4] += e; }
    else {
      if constexpr (T >= 16) W[T] = rotl(W[T - 3] ^ W[T - 8] ^ W[T - 14] ^ W[T - 16], 1);
      u32 t = rotl(a, 5) + f(T, b, c, d) + e + K(T) + W[T];
      Round<T + 1>::go(W, t, a, rotl(b, 30), c, d, H);
    }
  }
};
static inline void fips(u32* H, u32 const* M) {
  u32 W[80]; for (int i = 0; i < 16; ++i) W[i] = M[i];
  Round<0>::go(W, H[0], H[1], H[2], H[3], H[4], H);
}
#ifndef MODULAR
CONTRACT(C05_compress) {
  u32 h[5], H[5], m[16], M[16];
  for (int i = 0; i < 5; ++i) h[i] = H[i] = any<u32>("state");
  for (int i = 0; i < 16; ++i) m[i] = M[i] = any<u32>("word");
  COVER("sha1: compress");
  bs::sha1::transform(h, m);
  fips(H, M);
  for (int i = 0; i < 5; ++i) ENSURES(h[i] == H[i], "sha1: one block is compressed as FIPS 180-4 prescribes");
}
#else
// ---- above the compression function. The ghost G holds a message and the chaining state after its first G.done
// blocks; every call of transform is verified against this contract: it is given that state and the next block of the
// message, and leaves the next state (C05_compress says which one that is).
struct Ghost { unsigned char const* msg; u64 size, done; u32 state[5]; bool pad; };
static Ghost G;
static inline u32 word(unsigned char const* p) { return (u32)p[0] << 24 | (u32)p[1] << 16 | (u32)p[2] << 8 | p[3]; }
#define BLOCK "sha1: the blocks compressed are those of the padded message, in order"
#define STATE "sha1: the state is the one after the blocks so far"
#ifdef IRV_NATIVE
static void state_after(u64 d, u32* h) {
  for (int i = 0; i < 5; ++i) h[i] = G.state[i];
  for (u64 k = 0; k < d; ++k) { u32 m[16]; for (int w = 0; w < 16; ++w) m[w] = word(G.msg + 64 * k + 4 * w); fips(h, m); }
}
#else
static inline void state_after(u64, u32* h) { for (int i = 0; i < 5; ++i) h[i] = G.state[i]; }
IRVM void irvr_transform(u32* digest, u32* block) {
  u64 const d = G.done;
  for (unsigned i = 0; i < 5; ++i) ENSURES(digest[i] == G.state[i], STATE);
  ENSURES(64 * d + 64 <= G.size, BLOCK);
  for (unsigned w = 0; w < 16; ++w) ENSURES(block[w] == word(G.msg + 64 * d + 4 * w), BLOCK);
  for (unsigned i = 0; i < 5; ++i) digest[i] = G.state[i] = any<u32>("next state");
  for (unsigned i = 0; i < 16; ++i) block[i] = any<u32>("scratch");
  G.done = d + 1;
}
#endif
// a context in the middle of a message: b blocks compressed, r bytes buffered
static void context(bs::sha1_context& c, u64 b, u64 r, unsigned char const* m) {
  G.done = 0;
  for (int i = 0; i < 5; ++i) c.digest[i] = G.state[i] = any<u32>("state");
  c.blocks = b; c.buflen = r;
  std::memcpy(c.buf, m, r);
}
static void update_from(u64 r) {
  u64 b = any<u64>("blocks so far"), t, s;
  irv_split_min(); irv_peel();
  if (any<bool>("block completed")) { t = upto("size past the block", irv_symbolic() ? 1ull << 40 : 400); s = 64 - r + t; } else s = below("size", 64 - r);
  unsigned char* m = buffer("message", r + s);
  G.msg = m; G.size = r + s;
  bs::sha1_context c; context(c, b, r, m);
  COVER("sha1: update");
  bs::update(c, m + r, s);
  u64 d = c.blocks - b;
  if (irv_symbolic()) ENSURES(G.done == d, STATE);
  ENSURES(c.buflen < 64 && 64 * d + c.buflen == G.size, STATE);
  u32 h[5]; state_after(d, h);
  for (int i = 0; i < 5; ++i) ENSURES(c.digest[i] == h[i], STATE);
  forall(c.buflen, [&](u64 k) { ENSURES(c.buf[k] == m[64 * d + k], "sha1: what is not yet compressed is kept"); });
}
static void finish_from(u64 r) {
  u64 b = upto("blocks so far", (1ull << 55) - 1);
  unsigned char* m = buffer("message", r);
  unsigned char p[128]; u64 n = r < 56 ? 64 : 128, bits = (64 * b + r) * 8;    // the end of the message, padded as section 5.1.1 prescribes
  for (u64 i = 0; i < n; ++i) p[i] = i < r ? m[i] : i == r ? 0x80 : i >= n - 8 ? (unsigned char)(bits >> 8 * (n - 1 - i)) : 0;
  G.msg = p; G.size = n;
  bs::sha1_context c; context(c, b, r, m);
  unsigned char out[22]; out[0] = out[21] = 0xa5;
  COVER("sha1: finish");
  bs::finish(c, out + 1);
  if (irv_symbolic()) ENSURES(64 * G.done == n, STATE);
  u32 h[5]; state_after(n / 64, h);
  for (int i = 0; i < 5; ++i) ENSURES(word(out + 1 + 4 * i) == h[i], "sha1: the digest is the final state, most significant byte first");
  ENSURES(out[0] == 0xa5 && out[21] == 0xa5, "sha1: nothing but the digest is written");
}
#define CASES(x, lo) \
  CONTRACT(C05_update_##x) { update_from(irv_value(lo + below("buffered", 8))); } \
  CONTRACT(C05_finish_##x) { irv_unroll(200); finish_from(irv_value(lo + below("buffered", 8))); }
CASES(0, 0) CASES(1, 8) CASES(2, 16) CASES(3, 24) CASES(4, 32) CASES(5, 40) CASES(6, 48) CASES(7, 56)
CONTRACT(C05_init) {
  bs::sha1_context c; bs::init(c);
  COVER("sha1: init");
  ENSURES(c.buflen == 0 && c.blocks == 0 && c.digest[0] == 0x67452301u && c.digest[1] == 0xefcdab89u && c.digest[2] == 0x98badcfeu && c.digest[3] == 0x10325476u && c.digest[4] == 0xc3d2e1f0u, "sha1: the initial state");
}
#endif
