// C08: bit vectors: every operation acts on exactly the bits it names, whatever was in them before
// FLAGS: -fstrict-aliasing
// ENGINE: -unroll-threshold=20000 -inline-threshold=20000 -disable-loop-idiom-memcpy
#include "d_std.h"
#include <atomic>
// the values atomic operations yield when nobody else is at work
#define __atomic_or_fetch(p, m, o) (*(p) |= (m))
#define __atomic_and_fetch(p, m, o) (*(p) &= (m))
#define __atomic_fetch_or(p, m, o) (*(p) |= (m))
#define __atomic_fetch_and(p, m, o) (*(p) &= (m))
#include "cista/containers/bitvec.h"
#include "cista/containers/vector.h"
namespace c = cista;
using U64 = std::uint64_t;
using V = c::basic_bitvec<c::raw::vector<U64>>;
constexpr unsigned C = 4;  // words there is space for
template <unsigned N> struct t {
  static constexpr unsigned W = (N + 63) / 64;
  struct words { U64 w[C]; bool operator()(unsigned i) const { return (w[i / 64] >> (i % 64)) & 1U; } };
  static U64 last(U64 x) { return N % 64 == 0 ? x : x & ((U64{1} << (N % 64)) - 1); }
  // a bit vector with arbitrary content (behind the end anything) in the given memory
  struct any {
    any() {
      _Pragma("unroll") for (unsigned i = 0; i != C; ++i) { w.w[i] = an_any_u64(); mem[i] = w.w[i]; }
      b.blocks_.el_ = mem; b.blocks_.used_size_ = W; b.blocks_.allocated_size_ = C; b.blocks_.self_allocated_ = false; b.size_ = N;
    }
    U64 mem[C]; words w; V b;
  };
  template <typename B, typename Fn> static inline void is(B const& b, Fn&& fn) {
    CHECK(b.size() == N, "a bit vector has the wrong size");
    _Pragma("unroll") for (unsigned i = 0; i != N; ++i) CHECK(b.test(i) == fn(i), "an operation on a bit vector yields a wrong bit");
    CHECK(!b.test(N) && !b.test(N + 1) && !b.test(~0U), "a bit behind the end is set");
    REACH("done");
  }
  static void test() {
    any a; is(a.b, a.w);
    _Pragma("unroll") for (unsigned i = 0; i != N; ++i) CHECK(a.b[i] == a.w(i), "a bit vector reads a wrong bit");
    { any z; z.b.zero_out(); is(z.b, [](unsigned) { return false; }); }
    { any z; z.b.one_out(); is(z.b, [](unsigned) { return true; }); }
    { any z; z.b.reset(); is(z.b, [](unsigned) { return false; }); CHECK(z.b.blocks_.size() == W, "a bit vector loses the space for its bits"); }
  }
  template <unsigned I> static void set() {
    { any a; a.b.set(I); is(a.b, [&](unsigned i) { return i == I || a.w(i); }); }
    { any a; a.b.set(I, false); is(a.b, [&](unsigned i) { return i != I && a.w(i); }); }
    { any a; bool const v = an_any_u64() & 1; a.b.set(I, v); is(a.b, [&](unsigned i) { return i == I ? v : a.w(i); }); }
    { any a; a.b.template set<true>(I, true); is(a.b, [&](unsigned i) { return i == I || a.w(i); }); }
    { any a; a.b.template set<true>(I, false); is(a.b, [&](unsigned i) { return i != I && a.w(i); }); }
  }
  template <unsigned I> static inline void bit(V const& b, bool v) { CHECK(b.size() == N, "a bit vector has the wrong size"); CHECK(b.test(I) == v, "an operation on a bit vector yields a wrong bit"); }
  template <unsigned I> static void logic() {
    any const b;
    { any a; a.b &= b.b; bit<I>(a.b, a.w(I) && b.w(I)); }
    { any a; a.b |= b.b; bit<I>(a.b, a.w(I) || b.w(I)); }
    { any a; a.b ^= b.b; bit<I>(a.b, a.w(I) != b.w(I)); }
    bit<I>(b.b, b.w(I));
    { any a; a.b &= a.b; bit<I>(a.b, a.w(I)); a.b |= a.b; bit<I>(a.b, a.w(I)); a.b ^= a.b; bit<I>(a.b, false); }
    REACH("done");
  }
  template <U64 S, unsigned I> static void shift() {
    if constexpr (I < N) {
      { any a; a.b >>= S; bit<I>(a.b, S < N && I + S < N ? a.w((I + S) % N) : false); CHECK(a.b.blocks_.size() == W, "a bit vector loses the space for its bits"); }
      { any a; a.b <<= S; bit<I>(a.b, S <= I ? a.w((I - S) % N) : false); CHECK(a.b.blocks_.size() == W, "a bit vector loses the space for its bits"); }
    }
    REACH("done");
  }
  // bits kept, new ones are not set
  template <unsigned M> static void resize() {
    any a; a.b.resize(M);
    CHECK(a.b.size() == M && a.b.empty() == (M == 0), "a bit vector has the wrong size");
    CHECK(a.b.blocks_.size() == (M + 63) / 64, "a bit vector has not the space for its bits");
    _Pragma("unroll") for (unsigned i = 0; i != M; ++i) CHECK(a.b.test(i) == (i < N && a.w(i)), "resizing a bit vector changes a bit");
    CHECK(!a.b.test(M), "a bit behind the end is set");
    // and back
    a.b.resize(N);
    CHECK(a.b.size() == N, "a bit vector has the wrong size");
    _Pragma("unroll") for (unsigned i = 0; i != N; ++i) CHECK(a.b.test(i) == (i < M && a.w(i)), "resizing a bit vector changes a bit");
    REACH("done");
  }
  static inline void ordered(V const& a, V const& b, bool lt, bool eq) {
    CHECK((a == b) == eq && (a != b) == !eq && (b == a) == eq, "equality of bit vectors does not compare exactly their bits");
    CHECK((a < b) == lt && (b > a) == lt && (a >= b) == !lt && (b <= a) == !lt, "bit vectors are not ordered like the numbers they represent");
    CHECK((b < a) == (!lt && !eq) && (a > b) == (!lt && !eq) && (b >= a) == (lt || eq) && (a <= b) == (lt || eq), "bit vectors are not ordered like the numbers they represent");
  }
  static void compare() {
    any a, b; _Pragma("unroll") for (unsigned i = 0; i != W; ++i) b.mem[i] = a.w.w[i];
    if (N % 64 != 0) { auto const m = (~U64{0}) << (N % 64); b.mem[W - 1] = (b.mem[W - 1] & ~m) | (an_any_u64() & m); }
    ordered(a.b, b.b, false, true);
    REACH("done");
  }
  template <unsigned I> static void order() {
    any a, b; _Pragma("unroll") for (unsigned i = I / 64 + 1; i < W; ++i) b.mem[i] = a.w.w[i];
    auto const low = (U64{1} << (I % 64)) - 1, high = ~low << 1;
    auto const h = an_any_u64() & high;
    a.mem[I / 64] = h | (an_any_u64() & low); b.mem[I / 64] = h | (U64{1} << (I % 64)) | (an_any_u64() & low);
    ordered(a.b, b.b, true, false);
    REACH("done");
  }
  static void count() {
    any a; U64 n = 0; bool some = false;
    _Pragma("unroll") for (unsigned i = 0; i != W; ++i) { auto const x = i + 1 == W ? last(a.w.w[i]) : a.w.w[i]; n += static_cast<U64>(__builtin_popcountll(x)); some = some || x != 0; }
    CHECK(a.b.count() == n, "the number of set bits is wrong");
    CHECK(a.b.any() == some && a.b.none() == !some, "any() or none() is wrong");
    REACH("done");
  }
  template <unsigned I> static void each() {
    any a; unsigned hits = 0; bool out = false;
    a.b.for_each_set_bit([&](std::size_t i) { if (i == I) ++hits; if (i >= N) out = true; });
    CHECK(hits == (a.w(I) ? 1U : 0U), "a function is not called exactly once for every set bit");
    CHECK(!out, "a function is called for a bit behind the end");
    REACH("done");
  }
  // from F on, the first set bit is I (I == N: there is none)
  template <unsigned F, unsigned I> static void next() {
    any a;
    _Pragma("unroll") for (unsigned i = 0; i != W; ++i) {
      // clear the bits in [F, I)
      U64 keep = 0; for (unsigned j = 0; j != 64; ++j) { auto const x = i * 64 + j; if (x < F || x >= I) keep |= U64{1} << j; }
      a.mem[i] &= keep;
    }
    if (I != N) a.mem[I / 64] |= U64{1} << (I % 64);
    auto const r = a.b.next_set_bit(F);
    CHECK(r.has_value() == (I != N), "the next set bit is not found or one is found that is not set");
    if (I != N) CHECK(*r == I, "another bit than the next set bit is found");
    CHECK(!a.b.next_set_bit(N).has_value() && !a.b.next_set_bit(~0U).has_value(), "a set bit is found behind the end");
    REACH("done");
  }
};
#define SIZE(N) \
  OB ob_vtest_##N() { t<N>::test(); } OB ob_vcompare_##N() { t<N>::compare(); } OB ob_vcount_##N() { t<N>::count(); }
SIZE(1) SIZE(33) SIZE(64) SIZE(65) SIZE(128) SIZE(130)
#define ORDER(N, I) OB ob_vorder_##N##_##I() { t<N>::order<I>(); }
#define SET(N, I) OB ob_vlogic_##N##_##I() { t<N>::logic<I>(); } OB ob_vset_##N##_##I() { t<N>::set<I>(); } OB ob_veach_##N##_##I() { t<N>::each<I>(); }
SET(1, 0) SET(33, 0) SET(33, 30) SET(33, 32) SET(64, 0) SET(64, 30) SET(64, 32) SET(64, 63)
SET(65, 63) SET(65, 64) SET(128, 64) SET(128, 127) SET(130, 0) SET(130, 63) SET(130, 64) SET(130, 100) SET(130, 127) SET(130, 128) SET(130, 129)
ORDER(1, 0) ORDER(33, 1) ORDER(33, 32) ORDER(64, 1) ORDER(64, 33) ORDER(64, 63) ORDER(65, 1) ORDER(65, 63) ORDER(65, 64)
ORDER(128, 1) ORDER(128, 63) ORDER(128, 65) ORDER(128, 127) ORDER(130, 1) ORDER(130, 63) ORDER(130, 65) ORDER(130, 127) ORDER(130, 128) ORDER(130, 129)
#define RESIZE(N, M) OB ob_vresize_##N##_##M() { t<N>::resize<M>(); }
RESIZE(1, 0) RESIZE(1, 64) RESIZE(1, 2) RESIZE(33, 1) RESIZE(33, 32) RESIZE(33, 33) RESIZE(33, 34) RESIZE(33, 64) RESIZE(33, 65) RESIZE(33, 256)
RESIZE(64, 0) RESIZE(64, 1) RESIZE(64, 63) RESIZE(64, 65) RESIZE(64, 130) RESIZE(65, 1) RESIZE(65, 63) RESIZE(65, 64) RESIZE(65, 66) RESIZE(65, 128) RESIZE(65, 130)
RESIZE(128, 64) RESIZE(128, 65) RESIZE(128, 129) RESIZE(128, 200) RESIZE(130, 0) RESIZE(130, 1) RESIZE(130, 63) RESIZE(130, 64) RESIZE(130, 65) RESIZE(130, 128) RESIZE(130, 129) RESIZE(130, 131) RESIZE(130, 192) RESIZE(130, 256)
#define NEXT(N, F, I) OB ob_vnext_##N##_##F##_##I() { t<N>::next<F, I>(); }
NEXT(1, 0, 0) NEXT(1, 0, 1) NEXT(33, 0, 0) NEXT(33, 0, 32) NEXT(33, 0, 33) NEXT(33, 5, 5) NEXT(33, 5, 30) NEXT(33, 32, 32) NEXT(33, 32, 33)
NEXT(64, 0, 0) NEXT(64, 0, 62) NEXT(64, 0, 64) NEXT(64, 62, 64) NEXT(65, 0, 62) NEXT(65, 0, 64) NEXT(65, 0, 65) NEXT(65, 62, 64) NEXT(65, 64, 64) NEXT(65, 64, 65) NEXT(65, 60, 65)
NEXT(128, 0, 64) NEXT(128, 1, 126) NEXT(128, 1, 128) NEXT(128, 64, 64) NEXT(128, 70, 128) NEXT(130, 0, 0) NEXT(130, 0, 62) NEXT(130, 0, 64) NEXT(130, 0, 128) NEXT(130, 0, 129) NEXT(130, 0, 130)
NEXT(130, 64, 64) NEXT(130, 65, 100) NEXT(130, 65, 129) NEXT(130, 65, 130) NEXT(130, 128, 128) NEXT(130, 128, 129) NEXT(130, 128, 130) NEXT(130, 129, 130)
#define SH(N, S, I) OB ob_vshift_##N##_##S##_##I() { t<N>::shift<S, I>(); }
#define SHIFT1(N, S) SH(N, S, 0)
#define SHIFT33(N, S) SH(N, S, 0) SH(N, S, 1) SH(N, S, 30) SH(N, S, 32)
#define SHIFT64(N, S) SHIFT33(N, S) SH(N, S, 62) SH(N, S, 63)
#define SHIFT65(N, S) SHIFT64(N, S) SH(N, S, 64)
#define SHIFT128(N, S) SHIFT65(N, S) SH(N, S, 65) SH(N, S, 100) SH(N, S, 126) SH(N, S, 127)
#define SHIFT130(N, S) SHIFT128(N, S) SH(N, S, 128) SH(N, S, 129)
SHIFT1(1, 0) SHIFT1(1, 1) SHIFT33(33, 0) SHIFT33(33, 1) SHIFT33(33, 32) SHIFT33(33, 33) SHIFT64(64, 0) SHIFT64(64, 1) SHIFT64(64, 63) SHIFT64(64, 64) SHIFT64(64, 65)
SHIFT65(65, 0) SHIFT65(65, 1) SHIFT65(65, 63) SHIFT65(65, 64) SHIFT65(65, 65) SHIFT128(128, 0) SHIFT128(128, 5) SHIFT128(128, 64) SHIFT128(128, 127) SHIFT128(128, 128)
SHIFT130(130, 0) SHIFT130(130, 1) SHIFT130(130, 2) SHIFT130(130, 63) SHIFT130(130, 64) SHIFT130(130, 65) SHIFT130(130, 127) SHIFT130(130, 128) SHIFT130(130, 129) SHIFT130(130, 130) SHIFT130(130, 18446744073709551615U)
