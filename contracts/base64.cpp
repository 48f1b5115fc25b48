#include "irv.hpp"
#include <nbdl/util/base64_encode.hpp>
#include <nbdl/util/base64_decode.hpp>
#include <array>
#include <vector>
using namespace irv;
// ---- specification: RFC 4648
static inline u8 letter(u8 s) {
  return ite<u8>(s < 26, 'A' + s, ite<u8>(s < 52, 'a' + (s - 26), ite<u8>(s < 62, '0' + (s - 52), ite<u8>(s == 62, '+', '/'))));
}
static inline u8 sextet(u8 b0, u8 b1, u8 b2, unsigned j) {
  return j == 0 ? b0 >> 2 : j == 1 ? ((b0 & 3) << 4) | (b1 >> 4) : j == 2 ? ((b1 & 15) << 2) | (b2 >> 6) : b2 & 63;
}
static constexpr u64 LIMIT = 0x7FFFFFFF / 4 - 3;     // lengths are kept in int

template <typename C> static inline void encode_contract() {
  // every length is 3m + r; short ones are taken one by one (short strings live inside the string object)
  u64 m = upto("groups", LIMIT / 3), r = irv_value(below("rest", 3));
  if (irv_fork(m < 6)) m = irv_value(m);
  u64 n = 3 * m + r;
  C* p = buffer<C>("input", n);
  COVER("encode: pre");
  std::string out = nbdl::util::base64_encode(Bytes<C>{p, n});
  COVER("encode: post");
  ENSURES(out.size() == (n + 2) / 3 * 4, "encode: length of the text");
  forall(out.size() / 4, [&](u64 g) {
    u8 b0 = p[3 * g], b1 = 3 * g + 1 < n ? p[3 * g + 1] : 0, b2 = 3 * g + 2 < n ? p[3 * g + 2] : 0;
    u8 const* o = reinterpret_cast<u8 const*>(out.data()) + 4 * g;
    ENSURES(o[0] == letter(sextet(b0, b1, b2, 0)), "encode: first letter of every group");
    ENSURES(o[1] == letter(sextet(b0, b1, b2, 1)), "encode: second letter of every group");
    ENSURES(o[2] == ite<u8>(3 * g + 1 < n, letter(sextet(b0, b1, b2, 2)), '='), "encode: third letter of every group");
    ENSURES(o[3] == ite<u8>(3 * g + 2 < n, letter(sextet(b0, b1, b2, 3)), '='), "encode: fourth letter of every group");
  });
}
CONTRACT(C01_encode_unsigned) { encode_contract<unsigned char>(); }
CONTRACT(C01_encode_char) { encode_contract<char>(); }

// ---- decoding: the text has 4q + r characters
static inline u64 value_of(u8 c) {      // value of a letter, 64 for '=' and 65 for anything else
  return ite<u64>(c - 'A' < 26u, c - 'A', ite<u64>(c - 'a' < 26u, c - 'a' + 26, ite<u64>(c - '0' < 10u, c - '0' + 52,
         ite<u64>(c == '+', 62, ite<u64>(c == '/', 63, ite<u64>(c == '=', 64, 65))))));
}
// the specification of validity as properties of the result of the decoder:
//  accepted -> every character is a letter except that the last one or two may be '='
//  refused  -> one of the three defects is present; the defect is exhibited by an arbitrary valid text not being refused
template <typename C, typename F> static inline void decode_contract(bool valid, F run) {
  u64 q = upto("quads", LIMIT / 4), r = irv_value(below("rest", 4));
  if (irv_fork(q < 2)) q = irv_value(q);
  u64 n = 4 * q + r;
  C* p = buffer<C>("text", n);
  run(p, q, r, n);
}
// (a) whatever is accepted is valid and decodes exactly
template <typename C> static inline void accepted(C const* p, u64 q, u64 r, u64 n, u8 const* out, u64 size) {
  COVER("decode: accepted");
  ENSURES(r == 0, "decode: accepted text has a length that is a multiple of four");
  u64 pads = n == 0 ? 0 : ite<u64>(u8(p[n - 1]) != '=', 0, ite<u64>(u8(p[n - 2]) != '=', 1, 2));
  forall(n, [&](u64 k) {
    u64 v = value_of(p[k]);
    ENSURES((v < 64) | ((v == 64) & (k + pads >= n)), "decode: accepted text is letters followed by at most two '='");
  });
  ENSURES(size == 3 * q - pads, "decode: length of the result");
  forall(q, [&](u64 g) {
    u64 v0 = value_of(p[4 * g]), v1 = value_of(p[4 * g + 1]), v2 = value_of(p[4 * g + 2]), v3 = value_of(p[4 * g + 3]);
    ENSURES(out[3 * g] == u8(v0 << 2 | v1 >> 4), "decode: first byte of every group");
    if (3 * g + 1 < size) ENSURES(out[3 * g + 1] == u8(v1 << 4 | v2 >> 2), "decode: second byte of every group");
    if (3 * g + 2 < size) ENSURES(out[3 * g + 2] == u8(v2 << 6 | v3), "decode: third byte of every group");
  });
}
template <typename C> static inline void decode_accepts() {
  decode_contract<C>(false, [](C* p, u64 q, u64 r, u64 n) {
    COVER("decode: pre");
    std::vector<unsigned char> out;
    bool ok = nbdl::util::base64_decode(Bytes<C>{p, n}, out);
    if (ok) accepted(p, q, r, n, out.data(), out.size());
  });
}
CONTRACT(C02_accepted_char) { decode_accepts<char>(); }
CONTRACT(C02_accepted_unsigned) { decode_accepts<unsigned char>(); }
