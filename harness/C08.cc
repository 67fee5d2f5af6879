// C08: bit sets: every operation acts on exactly the bits it names
// ENGINE: -unroll-threshold=20000 -disable-loop-idiom-memcpy
#include "d_std.h"
#include "cista/containers/bitset.h"
namespace c = cista;
using U64 = std::uint64_t;
template <unsigned N> struct t {
  static constexpr unsigned W = (N + 63) / 64;
  struct words { U64 w[W]; bool operator()(unsigned i) const { return (w[i / 64] >> (i % 64)) & 1U; } };
  static U64 last(U64 x) { return N % 64 == 0 ? x : x & ((U64{1} << (N % 64)) - 1); }
  // a bit set with arbitrary content (bits behind the end included)
  static inline void any(c::bitset<N>& b, words& w) {
    _Pragma("unroll") for (unsigned i = 0; i != W; ++i) { w.w[i] = an_any_u64(); b.blocks_[i] = w.w[i]; }
  }
  template <typename Fn> static inline void is(c::bitset<N> const& b, char const*, Fn&& fn) {
    _Pragma("unroll") for (unsigned i = 0; i != N; ++i) CHECK(b.test(i) == fn(i), "an operation on a bit set yields a wrong bit");
    REACH("done");
  }
  static void test() {
    c::bitset<N> b; words w; any(b, w);
    CHECK(b.size() == N, "a bit set has the wrong size");
    CHECK(!b.test(N) && !b.test(N + 1) && !b.test(~std::size_t{0}), "a bit behind the end is set");
    _Pragma("unroll") for (unsigned i = 0; i != N; ++i) CHECK(b[i] == w(i), "a bit set reads a wrong bit");
    is(b, "", w);
    c::bitset<N> const z; is(z, "", [](unsigned) { return false; });
    is(c::bitset<N>::max(), "", [](unsigned) { return true; });
    b.reset(); is(b, "", [](unsigned) { return false; });
  }
  template <unsigned I> static void set() {
    { c::bitset<N> b; words w; any(b, w); b.set(I); is(b, "", [&](unsigned i) { return i == I || w(i); }); }
    { c::bitset<N> b; words w; any(b, w); b.set(I, false); is(b, "", [&](unsigned i) { return i != I && w(i); }); }
    { c::bitset<N> b; words w; any(b, w); bool const v = an_any_u64() & 1; b.set(I, v); is(b, "", [&](unsigned i) { return i == I ? v : w(i); }); }
  }
  template <unsigned I> static inline void bit(c::bitset<N> const& b, bool v) { CHECK(b.test(I) == v, "an operation on a bit set yields a wrong bit"); }
  template <unsigned I> static void logic() {
    c::bitset<N> a, b; words v, w; any(a, v); any(b, w);
    bit<I>(a & b, v(I) && w(I));
    bit<I>(a | b, v(I) || w(I));
    bit<I>(a ^ b, v(I) != w(I));
    bit<I>(~a, !v(I));
    bit<I>(~~a, v(I));
    bit<I>(a, v(I)); bit<I>(b, w(I));
    { auto x = a; x &= a; bit<I>(x, v(I)); x |= a; bit<I>(x, v(I)); x ^= a; bit<I>(x, false); }
    REACH("done");
  }
  template <U64 S, unsigned I> static inline void shifted() {
    if constexpr (I < N) {
      c::bitset<N> a; words v; any(a, v);
      bit<I>(a >> S, S < N && I + S < N ? v((I + S) % N) : false);
      bit<I>(a << S, S <= I ? v((I - S) % N) : false);
      bit<I>(a, v(I));
      { auto x = ~a; x >>= S; bit<I>(x, S < N && I + S < N ? !v((I + S) % N) : false); }
    }
  }
  template <U64 S, unsigned I> static void shift() { shifted<S, I>(); REACH("done"); }
  static inline void ordered(c::bitset<N> const& a, c::bitset<N> const& b, bool lt, bool eq) {
    CHECK((a == b) == eq && (a != b) == !eq && (b == a) == eq, "equality of bit sets does not compare exactly their bits");
    CHECK((a < b) == lt && (b > a) == lt && (a >= b) == !lt && (b <= a) == !lt, "bit sets are not ordered like the numbers they represent");
    CHECK((b < a) == (!lt && !eq) && (a > b) == (!lt && !eq) && (b >= a) == (lt || eq) && (a <= b) == (lt || eq), "bit sets are not ordered like the numbers they represent");
  }
  // the same bits, behind the end anything
  static void compare() {
    c::bitset<N> a, b; words v; any(a, v); b = a;
    if (N % 64 != 0) { auto const m = (~U64{0}) << (N % 64); b.blocks_[W - 1] = (b.blocks_[W - 1] & ~m) | (an_any_u64() & m); }
    ordered(a, b, false, true);
    REACH("done");
  }
  // the bits above I are the same, a has not bit I but b has
  template <unsigned I> static void order() {
    c::bitset<N> a, b; words v, w; any(a, v); any(b, w);
    _Pragma("unroll") for (unsigned i = I / 64 + 1; i < W; ++i) b.blocks_[i] = a.blocks_[i];
    auto const low = (U64{1} << (I % 64)) - 1, high = ~low << 1;
    auto const h = an_any_u64() & high;
    a.blocks_[I / 64] = h | (an_any_u64() & low); b.blocks_[I / 64] = h | (U64{1} << (I % 64)) | (an_any_u64() & low);
    ordered(a, b, true, false);
    REACH("done");
  }
  static void count() {
    c::bitset<N> a; words v; any(a, v);
    U64 n = 0; bool some = false;
    _Pragma("unroll") for (unsigned i = 0; i != W; ++i) { auto const x = i + 1 == W ? last(v.w[i]) : v.w[i]; n += static_cast<U64>(__builtin_popcountll(x)); some = some || x != 0; }
    CHECK(a.count() == n, "the number of set bits is wrong");
    CHECK(a.any() == some && a.none() == !some, "any() or none() is wrong");
    REACH("done");
  }
  template <unsigned I> static void each() {
    c::bitset<N> a; words v; any(a, v); unsigned hits = 0; bool out = false;
    a.for_each_set_bit([&](std::size_t i) { if (i == I) ++hits; if (i >= N) out = true; });
    CHECK(hits == (v(I) ? 1U : 0U), "a function is not called exactly once for every set bit");
    CHECK(!out, "a function is called for a bit behind the end");
    REACH("done");
  }
};
#define SIZE(N) \
  OB ob_test_##N() { t<N>::test(); } OB ob_compare_##N() { t<N>::compare(); } OB ob_count_##N() { t<N>::count(); }
SIZE(1) SIZE(33) SIZE(64) SIZE(65) SIZE(128) SIZE(130)
#define ORDER(N, I) OB ob_order_##N##_##I() { t<N>::order<I>(); }
#define SET(N, I) OB ob_logic_##N##_##I() { t<N>::logic<I>(); } OB ob_set_##N##_##I() { t<N>::set<I>(); } OB ob_each_##N##_##I() { t<N>::each<I>(); }
SET(1, 0) SET(33, 0) SET(33, 30) SET(33, 32) SET(64, 0) SET(64, 30) SET(64, 32) SET(64, 63)
SET(65, 63) SET(65, 64) SET(128, 64) SET(128, 127) SET(130, 0) SET(130, 63) SET(130, 64) SET(130, 100) SET(130, 127) SET(130, 128) SET(130, 129)
ORDER(1, 0) ORDER(33, 1) ORDER(33, 32) ORDER(64, 1) ORDER(64, 33) ORDER(64, 63) ORDER(65, 1) ORDER(65, 63) ORDER(65, 64)
ORDER(128, 1) ORDER(128, 63) ORDER(128, 65) ORDER(128, 127) ORDER(130, 1) ORDER(130, 63) ORDER(130, 65) ORDER(130, 127) ORDER(130, 128) ORDER(130, 129)
#define SH(N, S, I) OB ob_shift_##N##_##S##_##I() { t<N>::shift<S, I>(); }
#define SHIFT1(N, S) SH(N, S, 0)
#define SHIFT33(N, S) SH(N, S, 0) SH(N, S, 1) SH(N, S, 30) SH(N, S, 32)
#define SHIFT64(N, S) SHIFT33(N, S) SH(N, S, 62) SH(N, S, 63)
#define SHIFT65(N, S) SHIFT64(N, S) SH(N, S, 64)
#define SHIFT128(N, S) SHIFT65(N, S) SH(N, S, 65) SH(N, S, 100) SH(N, S, 126) SH(N, S, 127)
#define SHIFT130(N, S) SHIFT128(N, S) SH(N, S, 128) SH(N, S, 129)
SHIFT1(1, 0) SHIFT1(1, 1) SHIFT33(33, 0) SHIFT33(33, 1) SHIFT33(33, 32) SHIFT33(33, 33) SHIFT64(64, 0) SHIFT64(64, 1) SHIFT64(64, 63) SHIFT64(64, 64) SHIFT64(64, 65)
SHIFT65(65, 0) SHIFT65(65, 1) SHIFT65(65, 63) SHIFT65(65, 64) SHIFT65(65, 65) SHIFT128(128, 0) SHIFT128(128, 5) SHIFT128(128, 64) SHIFT128(128, 127) SHIFT128(128, 128)
SHIFT130(130, 0) SHIFT130(130, 1) SHIFT130(130, 2) SHIFT130(130, 63) SHIFT130(130, 64) SHIFT130(130, 65) SHIFT130(130, 127) SHIFT130(130, 128) SHIFT130(130, 129) SHIFT130(130, 130) SHIFT130(130, 18446744073709551615U)
