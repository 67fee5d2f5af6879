// C09: control bytes of hash tables
// ENGINE: -unroll-threshold=100000 -inline-threshold=20000 -disable-loop-idiom-memcpy -disable-loop-idiom-memset -unroll-max-count=2000 -unroll-full-max-count=2000
#include "d_std.h"
#include "cista/containers/hash_set.h"
namespace c = cista;
using U = std::uint64_t;
using T = c::raw::hash_set<U>;
using G = T::group;
using C = T::ctrl_t;
using S = T::size_type;
constexpr unsigned W = 8;
static_assert(T::WIDTH == W);
static inline unsigned char uc(C x) { return static_cast<unsigned char>(x); }
static inline G load(U w) { C m[W]; __builtin_memcpy(m, &w, W); return G{m}; }
// eight arbitrary bytes, byte P is b
template <unsigned P> static inline U with(unsigned char b) { return (an_any_u64() & ~(U{0xFF} << (8 * P))) | (U{b} << (8 * P)); }
template <unsigned P> static inline bool has(T::bit_mask m) { return (m.mask_ >> (8 * P) & 0xFF) != 0; }
template <unsigned P, unsigned B> static inline void byte() {
  if constexpr (B < 128) {
    CHECK(has<P>(load(with<P>(B)).match(B)), "a slot with the hash that is looked for is not found");
    CHECK(T::is_full(static_cast<C>(B)) && !T::is_empty(static_cast<C>(B)) && !T::is_deleted(static_cast<C>(B)) && !T::is_empty_or_deleted(static_cast<C>(B)), "a full slot is not recognised");
  }
  if constexpr (B < 128 || B == 0x80 || B == 0xFE || B == 0xFF) {
    CHECK(has<P>(load(with<P>(B)).match_empty()) == (B == 0x80), "empty slots are not recognised exactly");
    CHECK(has<P>(load(with<P>(B)).match_empty_or_deleted()) == (B == 0x80 || B == 0xFE), "free slots are not recognised exactly");
    auto const x = static_cast<C>(B);
    CHECK(T::is_empty(x) == (B == 0x80) && T::is_deleted(x) == (B == 0xFE) && T::is_full(x) == (B < 128) && T::is_empty_or_deleted(x) == (B == 0x80 || B == 0xFE), "the state of a slot is not recognised");
  }
}
template <unsigned P, unsigned... B> static inline void bytes(std::integer_sequence<unsigned, B...>) { (byte<P, B>(), ...); }
#define BYTE(P) OB ob_byte_##P() { bytes<P>(std::make_integer_sequence<unsigned, 256>{}); REACH("done"); }
BYTE(0) BYTE(1) BYTE(2) BYTE(3) BYTE(4) BYTE(5) BYTE(6) BYTE(7)
// K free slots, then one that is not
template <unsigned K, bool END> static inline U leading() {
  constexpr U ones = K == 8 ? ~U{0} : (U{1} << (8 * (K % 8))) - 1;
  constexpr U set = (0x8080808080808080ULL & ones) | (K != 8 && END ? U{0xFF} << (8 * (K % 8)) : 0);
  constexpr U clear = (0x0101010101010101ULL & ones) | (K != 8 && !END ? U{0x80} << (8 * (K % 8)) : 0);
  return (an_any_u64() & ~(set | clear)) | set;
}
template <unsigned K> static inline void count() {
  CHECK(load(leading<K, true>()).count_leading_empty_or_deleted() == K, "leading free slots are not counted right");
  CHECK(load(leading<K, false>()).count_leading_empty_or_deleted() == K, "leading free slots are not counted right");
  REACH("done");
}
#define COUNT(K) OB ob_count_##K() { count<K>(); }
COUNT(1) COUNT(2) COUNT(3) COUNT(4) COUNT(5) COUNT(6) COUNT(7) COUNT(8)
// iterating over a mask
template <unsigned M> static inline void mask() {
  U w = 0; for (unsigned i = 0; i != W; ++i) if (M >> i & 1) w |= U{0x80} << (8 * i);
  unsigned at = 0, n = 0; unsigned got = 0; bool asc = true;
  for (auto const i : T::bit_mask{w}) { if (n != 0 && i <= at) asc = false; at = static_cast<unsigned>(i); got |= 1U << i; ++n; }
  CHECK(got == M && asc, "iterating over matching slots misses one or yields another");
  CHECK(static_cast<bool>(T::bit_mask{w}) == (M != 0), "whether there is a match is wrong");
  unsigned lo = 8, hi = 8; for (unsigned i = 0; i != W; ++i) if (M >> i & 1) { if (lo == 8) lo = i; hi = W - 1 - i; }
  if (M != 0) CHECK(T::bit_mask{w}.trailing_zeros() == lo && T::bit_mask{w}.leading_zeros() == hi, "the number of slots before the first or after the last match is wrong");
}
template <unsigned O, unsigned... M> static inline void masks(std::integer_sequence<unsigned, M...>) { (mask<O + M>(), ...); }
#define MASK(O) OB ob_mask_##O() { masks<O>(std::make_integer_sequence<unsigned, 64>{}); REACH("done"); }
MASK(0) MASK(64) MASK(128) MASK(192)
// control bytes of a table with CAP slots, anything in them
template <unsigned CAP> struct table {
  table() { _Pragma("unroll") for (unsigned i = 0; i != CAP + 1 + W; ++i) { auto const x = static_cast<C>(an_any_u64()); mem[i] = x; was[i] = x; } t.ctrl_ = mem; t.capacity_ = CAP; t.entries_ = nullptr; t.size_ = 0; t.growth_left_ = 0; t.self_allocated_ = false; }
  ~table() { t.capacity_ = 0; }
  C mem[CAP + 1 + W], was[CAP + 1 + W]; T t;
};
// a probe that starts anywhere sees the new state of slot I; no other slot changes
template <unsigned CAP, unsigned I> static inline void set() {
  table<CAP> x; auto const h = static_cast<T::h2_t>(an_any_u64());
  x.t.set_ctrl(I, h);
  CHECK(uc(x.mem[I]) == h, "the state of a slot is not stored");
  _Pragma("unroll") for (unsigned q = 0; q != CAP + 1 + W; ++q) {
    unsigned const slot = q & CAP;
    if (slot == I && q <= 2 * CAP + 1 && q < CAP + W) CHECK(uc(x.mem[q]) == h, "a probe starting near the end does not see the state of a slot");
    if (slot != I && (q <= CAP || q <= 2 * CAP + 1)) CHECK(x.mem[q] == x.was[q], "the state of another slot changes");
    if (q > 2 * CAP + 1) CHECK(x.mem[q] == x.was[q], "a control byte changes that belongs to no slot");
  }
}
template <unsigned CAP, unsigned... I> static inline void sets(std::integer_sequence<unsigned, I...>) { (set<CAP, I>(), ...); }
template <unsigned CAP> static inline void reset() {
  table<CAP> x; x.t.reset_ctrl();
  _Pragma("unroll") for (unsigned q = 0; q != CAP + W; ++q) CHECK(uc(x.mem[q]) == (q == CAP ? 0xFF : 0x80), "a slot of a fresh table is not empty");
}
#define TABLE(CAP) OB ob_set_##CAP() { sets<CAP>(std::make_integer_sequence<unsigned, CAP>{}); REACH("done"); } OB ob_reset_##CAP() { reset<CAP>(); REACH("done"); }
TABLE(1) TABLE(3) TABLE(7) TABLE(15) TABLE(31)
// every probe sequence visits every slot before it repeats
template <U CAP, U R> static inline void probe() {
  U const h = (an_any_u64() & ~CAP) | R; auto s = T::probe_seq{h, CAP};
  constexpr U groups = (CAP + 1) / W == 0 ? 1 : (CAP + 1) / W;
  U seen[(groups + 63) / 64] = {};
  CHECK(s.offset_ <= CAP, "a probe starts outside of the table");
  _Pragma("unroll") for (U g = 0; g != groups; ++g) {
    if constexpr (CAP + 1 >= W) { U const d = (s.offset_ - h) & CAP; CHECK(d % W == 0, "a probe skips slots"); seen[d / W / 64] |= U{1} << (d / W % 64); }
    CHECK(s.index_ == g * W, "the length of a probe is wrong");
    CHECK(s.offset(0) == s.offset_ && s.offset(W - 1) == ((s.offset_ + W - 1) & CAP), "the slot of a match is wrong");
    s.next();
    CHECK(s.offset_ <= CAP, "a probe leaves the table");
  }
  if constexpr (CAP + 1 >= W) { U n = 0; for (auto const w : seen) n += static_cast<U>(__builtin_popcountll(w)); CHECK(n == groups, "a probe sequence repeats before it has visited every slot"); }
}
template <U CAP, unsigned... R> static inline void probes(std::integer_sequence<unsigned, R...>) { (probe<CAP, R>(), ...); }
#define PROBE(CAP) OB ob_probe_##CAP() { probes<CAP>(std::make_integer_sequence<unsigned, CAP + 1>{}); REACH("done"); }
#define PROBE0(CAP) OB ob_probe_##CAP() { probe<CAP, 0>(); probe<CAP, 1>(); probe<CAP, CAP - 3>(); probe<CAP, CAP>(); REACH("done"); }
PROBE(1) PROBE(3) PROBE(7) PROBE(15) PROBE(31) PROBE(63) PROBE0(127) PROBE0(255) PROBE0(511)
// erasing: a slot becomes empty only if no probe passed it: a probe that passes a group finds or occupies the slot behind it, so the run has nine
template <unsigned B, unsigned A> static inline void erased() {
  constexpr unsigned CAP = 31, I = 8;
  U m[5]; for (auto& w : m) w = an_any_u64();
  m[0] &= 0x7F7F7F7F7F7F7F7FULL; m[1] &= 0x7F7F7F7F7F7F7F7FULL;
  if constexpr (B != 0) m[0] = (m[0] & ~(U{0xFF} << (8 * (I - B)))) | (U{0x80} << (8 * (I - B)));
  if constexpr (A != 0) m[1] = (m[1] & ~(U{0xFF} << (8 * A))) | (U{0x80} << (8 * A));
  T t; t.ctrl_ = reinterpret_cast<C*>(m); t.capacity_ = CAP;
  bool const ok = t.was_never_full(I);
  if (ok) CHECK(B != 0 && A != 0 && A + B <= W + 1, "an erased slot becomes empty though probes passed it");
  t.capacity_ = 0;
  REACH("done");
}
#define ERASED1(B, A) OB ob_erased_##B##_##A() { erased<B, A>(); }
#define ERASED(B) ERASED1(B, 0) ERASED1(B, 1) ERASED1(B, 2) ERASED1(B, 3) ERASED1(B, 4) ERASED1(B, 5) ERASED1(B, 6) ERASED1(B, 7)
ERASED(0) ERASED(1) ERASED(2) ERASED(3) ERASED(4) ERASED(5) ERASED(6) ERASED(7) ERASED(8)
// capacities: of the form 2^k - 1; there is always an empty slot in a group
template <unsigned K> static inline void capacity() {
  constexpr U cap = K == 64 ? ~U{0} : (U{1} << (K % 64)) - 1;
  U const n = (cap / 2 + 1) | (an_any_u64() & (cap / 2));  // any number of K bits
  CHECK(T::normalize_capacity(n) == cap, "a capacity is not the next one of the form 2^k - 1");
  CHECK(T::capacity_to_growth(cap) <= cap, "more entries than slots are accepted");
  if (cap >= W - 1) CHECK(T::capacity_to_growth(cap) < cap, "a table can become so full that a search does not end");
  if (cap > 1) CHECK(T::capacity_to_growth(cap) > cap / 2, "a table grows without need");
}
template <unsigned... K> static inline void capacities(std::integer_sequence<unsigned, K...>) { (capacity<K + 1>(), ...); }
OB ob_capacity() { CHECK(T::normalize_capacity(0) == 1, "the smallest capacity is wrong"); capacities(std::make_integer_sequence<unsigned, 64>{}); REACH("done"); }
OB ob_h2() { U const h = an_any_u64(); CHECK(T::h2(h) < 128, "a full slot is not marked as full"); REACH("done"); }
