// I04: rounding and bit counting
// ENGINE: -unroll-threshold=20000 -inline-threshold=20000
#include "d_std.h"
#include "cista/aligned_alloc.h"
#include "cista/bit_counting.h"
#include "cista/next_power_of_2.h"
namespace c = cista;
using U = std::uint64_t;
// every number of exactly K bits, less one
template <typename T, unsigned K> static inline void pow2() {
  constexpr T top = static_cast<T>(T{1} << (K - 1));
  T const m = static_cast<T>(top | (static_cast<T>(an_any_u64()) & (top - 1)));  // 2^(K-1) <= m < 2^K
  T const r = c::next_power_of_two(static_cast<T>(m + 1));
  CHECK(r == static_cast<T>(T{2} << (K - 1)), "not the next power of two");
}
template <typename T, unsigned... K> static inline void pow2s(std::integer_sequence<unsigned, K...>) {
  (pow2<T, K + 1>(), ...);
  CHECK(c::next_power_of_two(T{1}) == 1, "not the next power of two");
}
#define POW2(T) OB ob_pow2_##T() { pow2s<std::T##_t>(std::make_integer_sequence<unsigned, sizeof(std::T##_t) * 8 - 1>{}); REACH("done"); }
POW2(uint8) POW2(uint16) POW2(uint32) POW2(uint64)
// bit K is the lowest (highest) one that is set
template <typename T, unsigned K> static inline void zeros() {
  constexpr unsigned N = sizeof(T) * 8; constexpr T bit = T{1} << K;
  T const lo = static_cast<T>(an_any_u64()) & static_cast<T>(~(bit | (bit - 1)));
  T const hi = static_cast<T>(an_any_u64()) & (bit - 1);
  CHECK(c::trailing_zeros(static_cast<T>(lo | bit)) == K, "the number of trailing zeros is wrong");
  CHECK(c::constexpr_trailing_zeros(static_cast<T>(lo | bit)) == K, "the number of trailing zeros is wrong");
  CHECK(c::leading_zeros(static_cast<T>(hi | bit)) == N - 1 - K, "the number of leading zeros is wrong");
}
template <typename T, unsigned... K> static inline void zeross(std::integer_sequence<unsigned, K...>) { (zeros<T, K>(), ...); CHECK(c::trailing_zeros(T{0}) == sizeof(T) * 8 && c::leading_zeros(T{0}) == sizeof(T) * 8, "the number of zeros in 0 is wrong"); }
#define ZEROS(T) OB ob_zeros_##T() { zeross<std::T##_t>(std::make_integer_sequence<unsigned, sizeof(std::T##_t) * 8>{}); REACH("done"); }
ZEROS(uint32) ZEROS(uint64)
// rounding up
template <typename T, U M> static inline void multiple() {
  T const n = static_cast<T>(an_any_u64()); ASSUME(n <= static_cast<T>(~T{0}) - M);
  T const r = c::to_next_multiple(n, static_cast<T>(M));
  CHECK(r >= n && r - n < M, "not the next multiple");
  CHECK(r % M == 0, "not a multiple");
}
#define MULT(T, M) OB ob_multiple_##T##_##M() { multiple<std::T##_t, M>(); REACH("done"); }
#define MULTS(M) MULT(uint64, M)
MULTS(1) MULTS(2) MULTS(3) MULTS(7) MULTS(8) MULTS(16) MULTS(24) MULTS(64) MULTS(1000) MULTS(4096)
