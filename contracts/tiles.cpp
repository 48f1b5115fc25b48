#include "irv.hpp"
#include <nbdl.hpp>
#include <tiles/game.hpp>
using namespace irv;

// An arbitrary board: w x h squares of the 64, exactly one of them (z) is blank, what lies behind them is arbitrary.
struct Any { tiles::game g; unsigned w, h, z, move; unsigned char before[64]; };
static inline void any_board(Any& a) {
  a.w = 1 + below("width", 64); a.h = 1 + below("height", 64); REQUIRES(a.w * a.h <= 64);
  a.z = below("blank", a.w * a.h);
  unsigned char* b = buffer("board", 64);
  a.g.width = a.w; a.g.height = a.h;
  bool one = true; unsigned n = a.w * a.h;
  for (unsigned k = 0; k < 64; ++k) {
    a.g.board[k] = b[k]; a.before[k] = b[k];
    one = one & ((k >= n) | ((b[k] == 0) == (k == a.z)));
  }
  REQUIRES(one);
  a.move = any<u8>("move");
}
static inline bool legal(Any const& a) {
  unsigned i = a.move, z = a.z, w = a.w;
  return (i < a.w * a.h) & (((i / w == z / w) & ((i + 1 == z) | (z + 1 == i))) | (i + w == z) | (z + w == i));
}
// The known finding (known_findings.jsonl C22-1): exactly these inputs are kept apart in a contract of their own.
static inline bool finding(Any const& a) {
  unsigned i = a.move, n = a.w * a.h, z = a.z;
  return (i < n) & (i + a.w == n) & (z != i) & !((z == i + 1) & (a.w > 1)) & (z + a.w != i) & ((n == 64) | (a.before[n & 63] == 0));
}
static inline void moved_exactly(Any const& a, bool did) {
  bool ok = legal(a);
  ENSURES(did == ok, "tiles: a move is reported exactly if it is legal");
  ENSURES((a.g.width == (int)a.w) & (a.g.height == (int)a.h), "tiles: the size of the board stays");
  u8 tile = a.before[a.move & 63];
  forall(64, [&](u64 k) {
    u8 want = ite<u8>(ok & (k == a.move), 0, a.before[k]);
    want = ite<u8>(ok & (k == a.z), tile, want);
    ENSURES(a.g.board[k] == want, "tiles: exactly the blank and the moved tile trade places");
  });
}
CONTRACT(C22_apply_game_move) {
  Any a; any_board(a); REQUIRES(!finding(a));
  COVER("tiles: pre");
  bool did = tiles::detail::apply_game_move(a.g, tiles::game_move{(unsigned char)a.move});
  COVER("tiles: post");
  moved_exactly(a, did);
}
CONTRACT(C22_store) {
  Any a; any_board(a); REQUIRES(!finding(a));
  tiles::game_store_impl<tiles::game_path> s; s.game_ = a.g;
  COVER("tiles store: pre");
  bool notified = nbdl::apply_message(s, nbdl::message::make_downstream_create(boost::hana::make_tuple(1, 2), nbdl::message::no_uid, tiles::game_move{(unsigned char)a.move}, nbdl::message::no_is_confirmed));
  a.g = s.game_;
  COVER("tiles store: post");
  moved_exactly(a, notified);
}
CONTRACT(C22_start) {
  tiles::game_store_impl<tiles::game_path> s;
  ENSURES(s.game_.width >= 1 && s.game_.height >= 1 && s.game_.width * s.game_.height <= 64, "tiles: the first board fits");
  unsigned seen[64] = {}, n = s.game_.width * s.game_.height; bool perm = true;
  for (unsigned k = 0; k < n; ++k) { unsigned t = s.game_.board[k]; perm = perm && t < n && !seen[t]; if (t < 64) seen[t] = 1; }
  ENSURES(perm, "tiles: the first board is a permutation of its tiles");
}
CONTRACT(C22_first_square_of_the_bottom_row) {
  Any a; any_board(a); REQUIRES(finding(a));
  bool did = tiles::detail::apply_game_move(a.g, tiles::game_move{(unsigned char)a.move});
  moved_exactly(a, did);
}
