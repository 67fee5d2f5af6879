// FLAGS: -DCISTA_XXH3 -I@H/stub
// ROOTS: 14
// D08: version / checksum / range gates of deserialisation
#include "d_common.h"
#include <map>

namespace pr {
struct root { std::uint64_t a; };
struct alignas(16) wide_root { std::uint64_t a; };
static std::uint64_t wanted;      // the type hash of the reader's type
static unsigned asked;
static inline c::hash_t type_hash(root const&, c::hash_t, std::map<c::hash_t, unsigned>&) noexcept { ++asked; return wanted; }
static inline c::hash_t type_hash(wide_root const&, c::hash_t, std::map<c::hash_t, unsigned>&) noexcept { ++asked; return wanted; }
static unsigned digests;
static void const* dig_ptr;
static std::uint64_t dig_len, dig_seed, dig_val;
}  // namespace pr
extern "C" std::uint64_t model_an_digest(void const* p, std::size_t n, std::uint64_t seed) noexcept {
  ++pr::digests; pr::dig_ptr = p; pr::dig_len = n; pr::dig_seed = seed;
  return pr::dig_val = an_any_u64();
}
constexpr auto V = c::mode::WITH_VERSION, I = c::mode::WITH_INTEGRITY, B = c::mode::SERIALIZE_BIG_ENDIAN,
               SV = c::mode::SKIP_VERSION, SI = c::mode::SKIP_INTEGRITY, U = c::mode::UNCHECKED, D = c::mode::DEEP_CHECK;
template <c::mode M> static inline std::uint64_t field(std::uint8_t const* p) {
  auto const v = *reinterpret_cast<std::uint64_t const*>(p);
  return (M & B) == B ? __builtin_bswap64(v) : v;
}
template <c::mode M, typename R = pr::root>
static inline void gate(std::uint8_t* f, std::uint8_t* t) {
  constexpr bool ver = (M & V) == V, integ = (M & I) == I;
  constexpr std::uint64_t istart = ver || (M & SV) == SV ? 8 : 0, dstart = istart + (integ || (M & SI) == SI ? 8 : 0);
  ASSUME(adr(f) > 0U && adr(f) < (1ULL << 47) && adr(t) < (1ULL << 47) && adr(t) > 0U);
  std::uint64_t const stored_version = ver ? field<M>(f) : 0, stored_sum = integ ? field<M>(f + istart) : 0;
  pr::wanted = an_any_u64();
  pr::digests = 0; pr::asked = 0;
  auto const el = c::deserialize<R, M>(f, t);
  REACH("image accepted");
  CHECK(zu(adr(t)) - zu(adr(f)) > zu(dstart), "accepted without room for the payload");
  CHECK(adr(el) == adr(f) + (dstart + alignof(R) - 1) / alignof(R) * alignof(R), "root object is not taken from the first aligned position behind the header");
  if ((M & U) == c::mode::NONE) CHECK(zu(adr(el)) + sizeof(R) <= zu(adr(t)), "root object exceeds the buffer");
  if (ver) {

    CHECK(stored_version == pr::wanted, "accepted with a foreign version");
  }
  if (integ) {
    CHECK(pr::digests >= 1U, "no digest computed");
    CHECK(adr(pr::dig_ptr) == adr(f) + dstart && zu(pr::dig_len) == zu(adr(t)) - zu(adr(f)) - dstart && pr::dig_seed == c::BASE_HASH, "digest does not cover exactly the payload");
    CHECK(stored_sum == pr::dig_val, "accepted with a wrong checksum");
  }
}
#define GATE(N, M) OB ob_gate_##N(std::uint8_t* f, std::uint8_t* t) { gate<(M)>(f, t); }
GATE(none, c::mode::NONE)
#define WIDE(N, M) OB ob_wide_##N(std::uint8_t* f, std::uint8_t* t) { gate<(M), pr::wide_root>(f, t); }
WIDE(none, c::mode::NONE)
WIDE(version, V)
WIDE(integrity, I)
WIDE(both_be, V | I | B)
GATE(version, V)
GATE(integrity, I)
GATE(both, V | I)
GATE(both_be, V | I | B)
GATE(skip_version, SV | I)
GATE(skip_integrity, V | SI)
GATE(skip_both, SV | SI)
GATE(deep_both, V | I | D)
GATE(unchecked_both, V | I | U)

// well-formed images pass the gates
template <c::mode M>
static inline void pass(std::uint8_t* f, std::uint8_t* t) {
  constexpr bool ver = (M & V) == V;
  constexpr std::uint64_t istart = ver || (M & SV) == SV ? 8 : 0, dstart = istart + ((M & SI) == SI ? 8 : 0);
  ASSUME(adr(f) > 0U && adr(f) < (1ULL << 46) && adr(t) < (1ULL << 47) && (adr(f) & 7) == 0);
  ASSUME(adr(t) >= adr(f) + dstart + sizeof(pr::root));
  pr::wanted = ver ? field<M>(f) : 0;
  c::deserialize<pr::root, M>(f, t);
  REACH("image accepted");
}
OB ob_accept_none(std::uint8_t* f, std::uint8_t* t) { pass<c::mode::NONE>(f, t); }
OB ob_accept_version(std::uint8_t* f, std::uint8_t* t) { pass<V>(f, t); }
OB ob_accept_skip(std::uint8_t* f, std::uint8_t* t) { pass<SV | SI>(f, t); }
OB ob_accept_version_skip_be(std::uint8_t* f, std::uint8_t* t) { pass<V | SI | B>(f, t); }
