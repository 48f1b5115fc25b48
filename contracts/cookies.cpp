#include "irv.hpp"
#include <nbdl/app/detail/cookie_parser.hpp>
#include <nbdl/websocket/detail/get_auth_token.hpp>
#include <string>
#include <string_view>
using namespace irv;
// ---- specification: a list of cookies separated by ';', each with blanks in front of its name
static u64 const NONE = ~0ull;
static inline bool is(unsigned char const* p, u64 n, u64 i, char const* name, u64 len) {    // name and '=' stand at i
  bool r = (i <= n) & (n - i >= len);
  for (u64 k = 0; k < len; ++k) r = r & (peek(p, n, i + k) == (u8)name[k]);
  return r;
}
// value(i): where the value of the first cookie with that name in p[i..n) starts; rest(i): the same, past the end of the cookie that i is in;
// end(i): the next ';' or the end
template <typename B> static inline void cookies(unsigned char const* p, u64 n, char const* name, u64 len, B blank) {
  define("value", n, [=](u64 i) { return ite(i >= n, NONE, ite(blank(peek(p, n, i)), spec_at("value", i + 1), ite(is(p, n, i, name, len), i + len, spec_at("rest", i)))); });
  define("rest", n, [=](u64 i) { return ite(i >= n, NONE, ite(peek(p, n, i) == ';', spec_at("value", i + 1), spec_at("rest", i + 1))); });
  define("end", n, [=](u64 i) { return ite((i >= n) | (peek(p, n, i) == ';'), ite(i < n, i, n), spec_at("end", i + 1)); });
}
#ifndef IRV_NATIVE
// std::string_view::find as the standard specifies it: a position at which the text stands, or npos; pos itself if it stands there
// (that it is the first one is not needed)
IRVM u64 irvr_sv_find(std::string_view const* v, char const* s, u64 pos, u64 len) {
  unsigned char const* p = reinterpret_cast<unsigned char const*>(v->data()); u64 n = v->size();
  u64 r = any<u64>("found");
  auto at = [=](u64 i) { bool m = true; for (u64 k = 0; k < len; ++k) m = m & (peek(p, n, i + k) == (u8)s[k]); return m; };
  bool const found = r != NONE;
  REQUIRES((!found) | ((r >= pos) & (r <= n) & (n - r >= len) & at(r)));
  REQUIRES((r == pos) | (pos > n) | (n - pos < len) | !at(pos));
  return r;
}
#endif
static inline u64 big() { return irv_symbolic() ? 1ull << 40 : 3000; }
CONTRACT(C07_session) {
  u64 n = upto("length", big()); unsigned char* p = buffer("cookies", n);
  cookies(p, n, "NBDL_SESS=", 10, [](u8 c) { return (c == ' ') | ((c >= 9) & (c <= 13)); });
  COVER("cookie: session");
  std::string_view r = nbdl::app::detail::get_session_cookie(std::string_view(reinterpret_cast<char const*>(p), n));
  u64 v = spec_at("value", 0);
  u64 e = spec_at("end", v);
  ENSURES((v != NONE) | (r.size() == 0), "cookie: no value unless a cookie has that name");
  ENSURES((v == NONE) | (r.size() == e - v), "cookie: up to the next ';' or the end");
  ENSURES((v == NONE) | (r.size() == 0) | (reinterpret_cast<unsigned char const*>(r.data()) == p + v), "cookie: the value of the first cookie with that name");
}
CONTRACT(C07_auth) {
  u64 n = upto("length", big());
  unsigned char* p = buffer("cookies", n);
  std::string t0; t0.reserve(n + 16);     // (the text is on the heap, also when it is short)
  t0.assign(reinterpret_cast<char const*>(p), n);
  std::string const& s = t0;
  cookies(p, n, "nbdl_auth=", 10, [](u8 c) { return c == ' '; });
  COVER("cookie: auth token");
  nbdl::auth_token_t t = nbdl::websocket::detail::get_auth_token(s);
  std::string const& r = t.value;
  u64 v = spec_at("value", 0);
  u64 e = spec_at("end", v);
  ENSURES((v != NONE) | (r.size() == 0), "cookie: no value unless a cookie has that name");
  ENSURES((v == NONE) | (r.size() == e - v), "cookie: up to the next ';' or the end");
  forall(r.size(), [&](u64 k) { ENSURES((u8)r[k] == peek(p, n, v + k), "cookie: the value of the first cookie with that name"); });
}
