#include "irv.hpp"
#include <nbdl/detail/string_concat.hpp>
#include <boost/hana.hpp>
using namespace irv;
namespace hana = boost::hana;
#define LEN "concat: the length is the sum of the lengths"
#define TEXT "concat: exactly the characters of the operands, in order"
static u64 const BIG = 1ull << 40;
static inline u64 big() { return irv_symbolic() ? BIG : 3000; }
CONTRACT(C17_two_strings) {
  u64 n = upto("n", big()), m = upto("m", big());
  char* a = buffer<char>("a", n); char* b = buffer<char>("b", m);
  std::string x(a, n), y(b, m);
  COVER("concat: two strings");
  std::string r = nbdl::detail::string_concat(hana::make_tuple(x, y));
  ENSURES(r.size() == n + m, LEN);
  forall(n, [&](u64 k) { ENSURES(r[k] == a[k], TEXT); });
  forall(m, [&](u64 k) { ENSURES(r[n + k] == b[k], TEXT); });
  forall(n, [&](u64 k) { ENSURES(x[k] == a[k], "concat: the operands are unchanged"); });
}
// any contents of three operands of any length
CONTRACT(C17_three_views) {
  u64 n[3]; char* p[3]; std::array<std::string_view, 3> v;
  for (int i = 0; i < 3; ++i) { n[i] = upto("n", big()); p[i] = buffer<char>("operand", n[i]); v[i] = std::string_view(p[i], n[i]); }
  COVER("concat: three views");
  std::string r = nbdl::detail::string_concat.with_views(v);
  ENSURES(r.size() == n[0] + n[1] + n[2], LEN);
  u64 at = 0;
  for (int i = 0; i < 3; ++i) { forall(n[i], [&](u64 k) { ENSURES(r[at + k] == p[i][k], TEXT); }); at += n[i]; }
}
// a C string ends at its first zero, a sized string does not
template <typename S> static inline bool same(S const& s, u64 at, char const* text, u64 n) { u64 bad = 0; for (u64 k = 0; k < n; ++k) bad |= s[at + k] != text[k]; return !bad; }
CONTRACT(C17_kinds) {
  u64 n = upto("n", irv_symbolic() ? BIG : 3000), m = upto("m", irv_symbolic() ? BIG : 3000); char* c = buffer<char>("c string", n + 1); char* a = buffer<char>("a", m); REQUIRES(c[n] == 0);
  std::string const x(a, m);
  auto const zero = hana::string_c<'e', '\0', 'f', '\0'>; auto const empty = hana::string_c<>;
  std::string_view const v = nbdl::detail::to_string_view((char const*)c);
  u64 L = v.size();
  COVER("concat: kinds");
  ENSURES(L <= n && c[L] == 0, LEN);
  forall(L, [&](u64 k) { ENSURES(c[k] != 0, LEN); });
  std::string r = nbdl::detail::string_concat(hana::make_tuple(zero, (char const*)c, empty, x, hana::string_c<'z'>));
  ENSURES(r.size() == 4 + L + m + 1, LEN);
  ENSURES(same(r, 0, "e\0f\0", 4) && r[r.size() - 1] == 'z', TEXT);
  forall(L, [&](u64 k) { ENSURES(r[4 + k] == c[k], TEXT); });
  forall(m, [&](u64 k) { ENSURES(r[4 + L + k] == a[k], TEXT); });
}
CONTRACT(C17_short) {
  ENSURES(nbdl::detail::string_concat(hana::make_tuple()).empty(), LEN);
  u64 n = upto("n", big()); char* a = buffer<char>("a", n); std::string x(a, n);
  COVER("concat: one");
  std::string r = nbdl::detail::string_concat(hana::make_tuple(x));
  ENSURES(r.size() == n, LEN);
  forall(n, [&](u64 k) { ENSURES(r[k] == a[k], TEXT); });
  std::string q = nbdl::detail::string_concat(hana::make_tuple(hana::string_c<>, x, "", hana::string_c<'a', '\0'>));
  ENSURES(q.size() == n + 2 && q[n] == 'a' && q[n + 1] == 0, LEN);
  forall(n, [&](u64 k) { ENSURES(q[k] == a[k], TEXT); });
}
