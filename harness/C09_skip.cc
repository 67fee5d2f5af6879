// C09: iterating over hash tables
// ENGINE: -unroll-peel-count=5 -unroll-threshold=100000 -inline-threshold=20000 -disable-loop-idiom-memcpy -disable-loop-idiom-memset -unroll-max-count=2000 -unroll-full-max-count=2000
#include "d_std.h"
#include "cista/containers/hash_set.h"
namespace c = cista;
using U = std::uint64_t;
using T = c::raw::hash_set<U>;
using G = T::group;
using C = T::ctrl_t;
using S = T::size_type;
constexpr unsigned W = 8;
static_assert(T::WIDTH == W);
static inline unsigned char uc(C x) { return static_cast<unsigned char>(x); }
static inline G load(U w) { C m[W]; __builtin_memcpy(m, &w, W); return G{m}; }
// K free slots, then one that is not
template <unsigned K, bool END> static inline U leading() {
  constexpr U ones = K == 8 ? ~U{0} : (U{1} << (8 * (K % 8))) - 1;
  constexpr U set = (0x8080808080808080ULL & ones) | (K != 8 && END ? U{0xFF} << (8 * (K % 8)) : 0);
  constexpr U clear = (0x0101010101010101ULL & ones) | (K != 8 && !END ? U{0x80} << (8 * (K % 8)) : 0);
  return (an_any_u64() & ~(set | clear)) | set;
}
// iterating: K free slots are skipped, the next one is reached
template <unsigned K, unsigned J, bool END> static inline void free_word(U* m) {
  if constexpr (8 * J <= K) { m[J] = leading<(K - 8 * J < 8 ? K - 8 * J : 8), END>(); } else m[J] = an_any_u64();
}
template <unsigned K, bool END> static inline void skip() {
  U m[5], e[40];
  free_word<K, 0, END>(m); free_word<K, 1, END>(m); free_word<K, 2, END>(m); free_word<K, 3, END>(m); free_word<K, 4, END>(m);
  auto const at = reinterpret_cast<C*>(m);
  T::iterator it{at, e}; it.skip_empty_or_deleted();
  CHECK(it.ctrl_ == at + K && it.entry_ == e + K, "iterating misses an entry or stops at a free slot");
}
#define SKIP(K) OB ob_skip_##K() { skip<K, true>(); skip<K, false>(); REACH("done"); }
SKIP(0) SKIP(1) SKIP(2) SKIP(3) SKIP(4) SKIP(5) SKIP(6) SKIP(7) SKIP(8) SKIP(9) SKIP(12) SKIP(15) SKIP(16) SKIP(17) SKIP(24)
