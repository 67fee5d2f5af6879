// ROOTS: 2
// D08: compile-time version gate
#include "d_common.h"
namespace pr { struct root { std::uint64_t a; std::uint32_t b; }; }
static_assert(c::static_type_hash<pr::root>() != 0U, "");
template <c::mode M>
static inline void gate(std::uint8_t* f, std::uint8_t* t) {
  ASSUME(adr(f) > 0U && adr(f) < (1ULL << 47) && adr(t) < (1ULL << 47) && adr(t) > 0U);
  auto stored = *reinterpret_cast<std::uint64_t const*>(f);
  if ((M & c::mode::SERIALIZE_BIG_ENDIAN) != c::mode::NONE) stored = __builtin_bswap64(stored);
  c::deserialize<pr::root, M>(f, t);
  REACH("image accepted");
  CHECK(zu(adr(t)) - zu(adr(f)) > zu(8), "accepted without room for the payload");
  constexpr auto want = c::static_type_hash<pr::root>();
  CHECK(stored == want, "accepted with a foreign static version");
}
OB ob_static_version(std::uint8_t* f, std::uint8_t* t) { gate<c::mode::WITH_STATIC_VERSION>(f, t); }
OB ob_static_version_be(std::uint8_t* f, std::uint8_t* t) { gate<c::mode::WITH_STATIC_VERSION | c::mode::SERIALIZE_BIG_ENDIAN>(f, t); }
