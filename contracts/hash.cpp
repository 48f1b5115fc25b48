#include "irv.hpp"
#include <nbdl/binder/hash.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/uid.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/concept/Container.hpp>
#include <boost/hana.hpp>
#include <vector>
using namespace irv;
namespace hana = boost::hana;

// A part: its std::hash is an arbitrary function of what makes two parts equal, and every use of it is recorded.
static u64 ghost_digest, ghost_parts, ghost_next; static bool ghost_order;
static inline u64 combine(u64 seed, u64 h) { return seed ^ (h + 0x9e3779b9ull + (seed << 6) + (seed >> 2)); }   // the documented combination
template <int I> struct Part { u64 v; friend bool operator==(Part const& a, Part const& b) { return a.v == b.v; } friend bool operator!=(Part const& a, Part const& b) { return a.v != b.v; } };
#ifdef IRV_NATIVE
static inline u64 hashed(int i, u64 v) { v ^= v >> 31; v *= 0x7fb5d329728ea185ull + 2 * i; return v ^ (v >> 27); }
#else
static inline u64 hashed(int i, u64 v) { return irv_uf2("std_hash", i, v); }
#endif
namespace std { template <int I> struct hash<Part<I>> { size_t operator()(Part<I> const& p) const { return hashed(I, p.v); } }; }
struct rec { Part<1> a; Part<2> b; int c; };
struct outer { rec r; Part<3> d; };
struct Nil {};
struct with_nil { Part<1> a; Nil n; Part<2> b; };
namespace nbdl { NBDL_ENTITY(rec, a, b, c); NBDL_ENTITY(outer, r, d); NBDL_ENTITY(with_nil, a, n, b); }
#define FOLD "hash: the parts' hashes combined in order, all of them, nothing else"
#define AGREE "hash: equal values have equal hashes"
#define LAST "hash: changing one part's hash changes the combination"
static inline rec any_rec() { return rec{{any<u64>("a")}, {any<u64>("b")}, (int)any<u32>("c")}; }
static inline u64 spec(u64 s, rec const& r) { return combine(combine(combine(s, hashed(1, r.a.v)), hashed(2, r.b.v)), std::hash<int>{}(r.c)); }

CONTRACT(C18_combine) {
  u64 seed = any<u64>("seed"), x = any<u64>("x"), y = any<u64>("y");
  std::size_t s = seed, t = seed;
  nbdl::detail::hash_combine(s, Part<1>{x}); nbdl::detail::hash_combine(t, Part<1>{y});
  ENSURES(s == combine(seed, hashed(1, x)), FOLD);
  ENSURES((s == t) == (hashed(1, x) == hashed(1, y)), LAST);
}
CONTRACT(C18_sequence) {
  rec r = any_rec();
  COVER("hash: sequence");
  ENSURES(nbdl::binder::hash(r) == spec(0, r), FOLD);
  outer o{r, {any<u64>("d")}};
  ENSURES(nbdl::binder::hash(o) == combine(spec(0, r), hashed(3, o.d.v)), FOLD);
  with_nil w{{any<u64>("a")}, {}, {any<u64>("b")}};
  ENSURES(nbdl::binder::hash(w) == combine(combine(0, hashed(1, w.a.v)), hashed(2, w.b.v)), FOLD);
  ENSURES(nbdl::binder::hash(hana::make_tuple(r, w.b)) == combine(spec(0, r), hashed(2, w.b.v)), FOLD);
  ENSURES(nbdl::binder::hash(hana::make_pair(w.b, w.a)) == combine(combine(0, hashed(2, w.b.v)), hashed(1, w.a.v)), FOLD);
  ENSURES(nbdl::binder::hash(w.b) == combine(0, hashed(2, w.b.v)), FOLD);
  ENSURES(nbdl::binder::hash(7ull) == combine(0, std::hash<unsigned long long>{}(7)), FOLD);
}
CONTRACT(C18_agrees_with_equality) {
  rec x = any_rec(), y = any_rec();
  COVER("hash: agree");
  if (hana::equal(x, y)) { ENSURES(nbdl::binder::hash(x) == nbdl::binder::hash(y), AGREE); }
  // dependence on the last and on every other part (through the combination so far)
  rec z = x; z.c = y.c;
  ENSURES((nbdl::binder::hash(x) == nbdl::binder::hash(z)) == (std::hash<int>{}(x.c) == std::hash<int>{}(z.c)), LAST);
}
CONTRACT(C18_variant) {
  using V = nbdl::variant<Part<1>, Part<2>, Nil>;
  int id = below("held", 4); u64 v = any<u64>("value");
  V x = id == 1 ? V(Part<1>{v}) : id == 2 ? V(Part<2>{v}) : id == 3 ? V(Nil{}) : V();
  COVER("hash: variant");
  u64 want = combine(0, std::hash<int>{}(id));
  if (id == 1) want = combine(want, hashed(1, v));
  if (id == 2) want = combine(want, hashed(2, v));
  ENSURES(nbdl::binder::hash(x) == want, FOLD);
  int id2 = below("other held", 4); u64 v2 = any<u64>("other value");
  V y = id2 == 1 ? V(Part<1>{v2}) : id2 == 2 ? V(Part<2>{v2}) : id2 == 3 ? V(Nil{}) : V();
  if (hana::equal(x, y)) { ENSURES(nbdl::binder::hash(x) == nbdl::binder::hash(y), AGREE); }
}
// a container of any length: its elements know their place, hashing one records it
struct Elem { u64 v; };
static inline u64 take(Elem const& e);
namespace std { template <> struct hash<Elem> { size_t operator()(Elem const& e) const { return take(e); } }; }
static Elem const* ghost_base; static u64 ghost_n;
static inline u64 take(Elem const& e) {
  ENSURES(&e == ghost_base + ghost_next, "hash: every element takes part, in order");
  u64 h = hashed(5, e.v);
  ++ghost_next; ghost_digest = combine(ghost_digest, h);
  return h;
}
CONTRACT(C18_container) {
  ghost_n = below("elements", 1ull << 32);
  ghost_base = reinterpret_cast<Elem const*>(buffer<u64>("content", ghost_n * 8));
  ghost_next = 0; ghost_digest = 0;
  COVER("hash: container");
  u64 d = nbdl::binder::hash(Bytes<Elem>{ghost_base, ghost_n});
  ENSURES(ghost_next == ghost_n, "hash: every element takes part, in order");
  ENSURES(d == ghost_digest, FOLD);
  COVER("hash: container done");
}
// containers as members, elements of sequences of sequences and alternatives of variants
struct holder { Part<1> a; Bytes<Part<4>> c; Part<2> b; };
namespace nbdl { NBDL_ENTITY(holder, a, c, b); }
static inline u64 spec(u64 s, Part<4> const* p, u64 n) { for (u64 i = 0; i < n; ++i) s = combine(s, hashed(4, p[i].v)); return s; }
CONTRACT(C18_container_as_part) {
  Part<4> e[3] = {{any<u64>("e0")}, {any<u64>("e1")}, {any<u64>("e2")}};
  u64 n = irv_value(below("elements", 4));
  holder h{{any<u64>("a")}, {e, n}, {any<u64>("b")}};
  COVER("hash: container as a part");
  u64 want = combine(spec(combine(0, hashed(1, h.a.v)), e, n), hashed(2, h.b.v));
  ENSURES(nbdl::binder::hash(h) == want, FOLD);
  using V = nbdl::variant<Part<1>, Bytes<Part<4>>, rec>;
  ENSURES(nbdl::binder::hash(V(Bytes<Part<4>>{e, n})) == spec(combine(0, std::hash<int>{}(2)), e, n), FOLD);
  rec r = any_rec();
  ENSURES(nbdl::binder::hash(V(r)) == spec(combine(0, std::hash<int>{}(3)), r), FOLD);
  ENSURES(nbdl::binder::hash(hana::make_tuple(h.a, V(r), h.c)) == spec(spec(combine(combine(0, hashed(1, h.a.v)), std::hash<int>{}(3)), r), e, n), FOLD);
}
// parts of the kinds the language has, and one whose representation says more than its value
struct Lax { u64 v, junk; friend bool operator==(Lax const& a, Lax const& b) { return a.v == b.v; } friend bool operator!=(Lax const& a, Lax const& b) { return a.v != b.v; } };
namespace std { template <> struct hash<Lax> { size_t operator()(Lax const& e) const { return hashed(6, e.v); } }; }
enum class Colour : int { red, green };
struct kinds { double d; Lax l; Colour c; bool b; char ch; float f; long long w; };
namespace nbdl { NBDL_ENTITY(kinds, d, l, c, b, ch, f, w); }
CONTRACT(C18_kinds) {
  auto one = [] { kinds k{}; u64 d = any<u64>("double"); __builtin_memcpy(&k.d, &d, 8); u32 f = any<u32>("float"); __builtin_memcpy(&k.f, &f, 4);
    k.l = Lax{any<u64>("lax"), any<u64>("junk")}; k.c = (Colour)(int)any<u32>("enum"); k.b = any<bool>("bool"); k.ch = any<char>("char"); k.w = (long long)any<u64>("long"); return k; };
  kinds x = one(), y = one();
  COVER("hash: kinds");
  u64 want = combine(combine(combine(combine(combine(combine(combine(0, std::hash<double>{}(x.d)), hashed(6, x.l.v)), std::hash<Colour>{}(x.c)), std::hash<bool>{}(x.b)), std::hash<char>{}(x.ch)), std::hash<float>{}(x.f)), std::hash<long long>{}(x.w));
  ENSURES(nbdl::binder::hash(x) == want, FOLD);
  bool equal = (x.d == y.d) & (x.l == y.l) & (x.c == y.c) & (x.b == y.b) & (x.ch == y.ch) & (x.f == y.f) & (x.w == y.w);
  if (equal) { ENSURES(nbdl::binder::hash(x) == nbdl::binder::hash(y), AGREE); }
  using V = nbdl::variant<double, Lax, Colour>;
  if (x.d == y.d) ENSURES(nbdl::binder::hash(V(x.d)) == nbdl::binder::hash(V(y.d)), AGREE);
  if (x.l == y.l) ENSURES(nbdl::binder::hash(V(x.l)) == nbdl::binder::hash(V(y.l)), AGREE);
}
CONTRACT(C18_uid) {
  unsigned char* b = buffer("identifier", 16);
  nbdl::uid u; for (int i = 0; i < 16; i++) u[i] = b[i];
  u64 want = 0; for (int i = 0; i < 16; i++) want = combine(want, std::hash<u8>{}(b[i]));
  COVER("hash: uid");
  ENSURES(nbdl::binder::hash(u) == want, FOLD);
  ENSURES(std::hash<nbdl::uid>{}(u) == want, FOLD);
}
