#include "irv.hpp"
#include <nbdl/websocket/detail/parse_handshake_request.hpp>
#include <string>
using namespace irv;
static inline u64 big() { return irv_symbolic() ? 1ull << 40 : 400; }
static inline u8 lower(u8 c) { return c + ((c >= 'A') & (c <= 'Z')) * 32; }
// the name in front of the first ':' is this one, ignoring case
static inline bool named(unsigned char const* p, u64 n, char const* name, u64 len) {
  bool r = (n > len) & (peek(p, n, len) == ':');
  for (u64 k = 0; k < len; ++k) r = r & (lower(peek(p, n, k)) == (u8)name[k]);
  return r;
}
CONTRACT(C06_header) {
  u64 n = upto("length", big()); unsigned char* p = buffer("header", n);
  // start(i): the first position from i that is no space, or the end
  define("start", n, [=](u64 i) { return ite((i >= n) | (peek(p, n, i) != ' '), ite(i < n, i, n), spec_at("start", i + 1)); });
  std::string header; header.reserve(n + 16); header.assign(reinterpret_cast<char const*>(p), n);
  nbdl::websocket::detail::handshake_info_t h{};
  char const a = any<char>("key before"), b = any<char>("cookies before");
  h.websocket_key = std::string(3, a); h.cookies = std::string(2, b);
  COVER("header");
  nbdl::websocket::detail::parse_header(h, std::move(header));
  bool const key = named(p, n, "sec-websocket-key", 17), cookies = named(p, n, "cookies", 7);
  auto check = [&](bool mine, std::string const& v, u64 len, u64 before, char c) {
    u64 const s = spec_at("start", len + 1);
    ENSURES(!mine | (v.size() == n - s), "header: the rest of the line without its leading spaces");
    ENSURES(mine | (v.size() == before), "header: other lines leave it alone");
    forall(v.size(), [&](u64 k) {
      ENSURES(!mine | ((u8)v[k] == peek(p, n, s + k)), "header: the rest of the line without its leading spaces");
      ENSURES(mine | (v[k] == c), "header: other lines leave it alone");
    });
  };
  check(key, h.websocket_key, 17, 3, a);
  check(cookies, h.cookies, 7, 2, b);
}
