// ROOTS: 10
// D09: absolute pointers are relocated exactly, the null marker becomes null
#include "d_common.h"
template <c::mode M>
static inline std::uint64_t raw_of(void const* slot) {
  auto const v = *reinterpret_cast<std::uint64_t const*>(slot);
  return (M & c::mode::SERIALIZE_BIG_ENDIAN) != c::mode::NONE ? __builtin_bswap64(v) : v;
}
constexpr auto NUL = static_cast<std::uint64_t>(c::NULLPTR_OFFSET);
template <c::mode M, typename T, typename P>
static inline void reloc(std::uint8_t* f, std::uint8_t* t, T* v, P* slot) {
  c::deserialization_context<M> x{f, t};
  auto const stored = raw_of<M>(slot);
  c::deserialize(x, v);
  REACH("accepted");
  auto const now = *reinterpret_cast<std::uint64_t const*>(slot);
  if (stored == NUL) CHECK(now == 0U, "null marker does not become null");
  else CHECK(zs(now) == zs(adr(slot)) + zs(stored), "pointer is not its own position plus the stored distance");
}
constexpr auto N = c::mode::NONE, B = c::mode::SERIALIZE_BIG_ENDIAN, U = c::mode::UNCHECKED;
struct twop { std::uint64_t x; std::uint64_t* p; std::uint32_t* q; };
#define R(NAME, M, T, EXPR) OB ob_##NAME(std::uint8_t* f, std::uint8_t* t, T* v) { reloc<(M)>(f, t, v, &(EXPR)); }
using p64 = std::uint64_t*;
using vec = c::raw::vector<std::uint64_t>;
using str = c::raw::string;
using u16s = c::raw::u16string;
// the pointee is opaque: its own conversion is a separate visit (D07, D11)
struct opq { std::uint64_t v; };
template <typename Ctx, typename Fn> static inline void recurse(Ctx const&, opq*, Fn&&) {}
using uptr = c::raw::unique_ptr<opq>;
R(ptr, N, p64, *v)
R(ptr_be, B, p64, *v)
R(ptr_unchecked, U, p64, *v)
R(ptr_unchecked_be, U | B, p64, *v)
R(struct, N, twop, v->q)
R(struct_be, B, twop, v->p)
R(uptr, N, uptr, v->el_)
R(uptr_be, B, uptr, v->el_)
// the image's own flag decides whether the heap representation is used
OB ob_string(std::uint8_t* f, std::uint8_t* t, str* v) { ASSUME(byte_of(v->s_.is_short_) == 0U); reloc<N>(f, t, v, &v->h_.ptr_); }
OB ob_string_be(std::uint8_t* f, std::uint8_t* t, str* v) { ASSUME(byte_of(v->s_.is_short_) == 0U); reloc<B>(f, t, v, &v->h_.ptr_); }
using ovec = c::raw::vector<opq>;
R(vec, N, ovec, v->el_)
R(vec_be, B, ovec, v->el_)
using hs = c::raw::hash_set<std::uint32_t>;
template <c::mode M>
static inline void hash(std::uint8_t* f, std::uint8_t* t, hs* v) {
  c::deserialization_context<M> x{f, t};
  auto const e = raw_of<M>(&v->entries_), k = raw_of<M>(&v->ctrl_);
  c::convert_endian_and_ptr(x, v);
  REACH("converted");
  if (e == NUL) CHECK(adr(v->entries_) == 0U, "null entries");
  else CHECK(zs(adr(v->entries_)) == zs(adr(&v->entries_)) + zs(e), "entries");
  if (k == NUL) CHECK(adr(v->ctrl_) == 0U, "null ctrl");
  else CHECK(zs(adr(v->ctrl_)) == zs(adr(&v->ctrl_)) + zs(k), "ctrl");
}
OB ob_hash(std::uint8_t* f, std::uint8_t* t, hs* v) { hash<N>(f, t, v); }
OB ob_hash_be(std::uint8_t* f, std::uint8_t* t, hs* v) { hash<B>(f, t, v); }
