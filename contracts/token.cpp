#include "irv.hpp"
#include <nbdl/websocket/detail/send_handshake_response.hpp>
#include <cstring>
using namespace irv;
namespace bs = nbdl::detail::beast_sha1;
// RFC 6455, section 4.2.2: the base64 text of the SHA-1 of the key followed by this GUID
static char const guid[37] = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
static inline u8 letter(u8 s) { return ite<u8>(s < 26, 'A' + s, ite<u8>(s < 52, 'a' + (s - 26), ite<u8>(s < 62, '0' + (s - 52), ite<u8>(s == 62, '+', '/')))); }
// the ghost of the hash: what has been hashed so far has to be the start of key + guid
struct Ghost { char const* key; u64 n, done; unsigned phase; u8 digest[20]; };
static Ghost G;
#define TEXT "token: the text hashed is the key followed by the GUID"
#ifdef IRV_NATIVE
static u32 rotl(u32 x, unsigned n) { return x << n | x >> (32 - n); }
static void sha1(unsigned char const* m, u64 n, u8* out) {      // FIPS 180-4
  u32 H[5] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u};
  u64 blocks = n / 64 + (n % 64 > 55 ? 2 : 1);
  for (u64 b = 0; b < blocks; ++b) {
    u32 W[80];
    for (int t = 0; t < 80; ++t) {
      if (t < 16) { W[t] = 0; for (int k = 0; k < 4; ++k) { u64 j = 64 * b + 4 * t + k; W[t] = W[t] << 8 | (u8)(j < n ? m[j] : j == n ? 0x80 : j + 8 >= 64 * blocks ? n * 8 >> 8 * (64 * blocks - 1 - j) : 0); } }
      else W[t] = rotl(W[t - 3] ^ W[t - 8] ^ W[t - 14] ^ W[t - 16], 1);
    }
    u32 a = H[0], bb = H[1], c = H[2], d = H[3], e = H[4];
    for (int t = 0; t < 80; ++t) {
      u32 f = t < 20 ? (bb & c) ^ (~bb & d) : t < 40 ? bb ^ c ^ d : t < 60 ? (bb & c) ^ (bb & d) ^ (c & d) : bb ^ c ^ d;
      u32 K = t < 20 ? 0x5a827999u : t < 40 ? 0x6ed9eba1u : t < 60 ? 0x8f1bbcdcu : 0xca62c1d6u;
      u32 x = rotl(a, 5) + f + e + K + W[t]; e = d; d = c; c = rotl(bb, 30); bb = a; a = x;
    }
    H[0] += a; H[1] += bb; H[2] += c; H[3] += d; H[4] += e;
  }
  for (int i = 0; i < 20; ++i) out[i] = H[i / 4] >> 8 * (3 - i % 4);
}
#else
// the contracts of the hash (C05_init, C05_update, C05_finish), as its callers see them
IRVM void irvr_init(bs::sha1_context* c) { G.phase = 1; G.done = 0; c->buflen = any<u64>("context"); }
IRVM void irvr_update(bs::sha1_context* c, void const* p, std::size_t size) {
  char const* q = static_cast<char const*>(p);
  u64 at = G.done;
  ENSURES(G.phase == 1, "token: the hash is started before it is used");
  ENSURES(at + size <= G.n + 36, TEXT);
  forall(size, [&](u64 k) { if (at + k < G.n) ENSURES(q[k] == G.key[at + k], TEXT); else ENSURES(q[k] == guid[at + k - G.n], TEXT); });
  G.done = at + size;
}
IRVM void irvr_finish(bs::sha1_context* c, void* out) {
  ENSURES(G.phase == 1 && G.done == G.n + 36, TEXT);
  G.phase = 2;
  for (int i = 0; i < 20; ++i) static_cast<u8*>(out)[i] = G.digest[i] = any<u8>("digest");
}
#endif
CONTRACT(C05_token) {
  u64 n = upto("length of the key", irv_symbolic() ? 1ull << 40 : 200);
  char* k = buffer<char>("key", n);
  std::string const key(k, n);
  G.key = k; G.n = n; G.phase = 0;
  COVER("token: made");
  std::string t = nbdl::websocket::detail::generate_accept_token(key);
#ifdef IRV_NATIVE
  std::string all(k, n); all += guid; sha1(reinterpret_cast<unsigned char const*>(all.data()), all.size(), G.digest); G.phase = 2;
#endif
  ENSURES(G.phase == 2, "token: made from the finished digest");
  ENSURES(t.size() == 28, "token: 20 bytes are 28 characters of base64");
  for (int i = 0; i < 27; ++i) {
    unsigned bit = i * 6, b0 = G.digest[bit / 8], b1 = bit / 8 + 1 < 20 ? G.digest[bit / 8 + 1] : 0;
    ENSURES((u8)t[i] == letter((b0 << 8 | b1) >> (10 - bit % 8) & 63), "token: the base64 text of the digest");
  }
  ENSURES(t[27] == '=', "token: the base64 text of the digest");
}
