// C03: zero-terminated strings own, refer to and free exactly what they should
// FLAGS: -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memchr -fno-builtin-memset -fno-builtin-strlen -fno-builtin-memcmp
#include "cstr_all.h"
using K = c::basic_cstring<c::raw::ptr<char const>>;
using KV = c::basic_cstring_view<c::raw::ptr<char const>>;
ALL(k, K) PLAIN(k, K, true) CHARS(k, K, true) COPIES(k, K, true, true) MOVES(k, K, true, false)
SELFS(k, K, self_assign, true, true, [](K& a) { auto const& r = a; a = r; })
SELFS(k, K, self_move, true, false, [](K& a) { auto& r = a; a = std::move(r); })
ALL(kv, KV) PLAIN(kv, KV, false) CHARS(kv, KV, false)
using KG = c::generic_cstring<c::raw::ptr<char const>>;
ALL(kg, KG) COPIES(kg, KG, true, false) MOVES(kg, KG, true, false) SELF(kg, KG, true, false)
