// ROOTS: 18
// D11: every multi-byte scalar of a big-endian image is converted exactly once
#include "d_common.h"
#include <chrono>
constexpr auto B = c::mode::SERIALIZE_BIG_ENDIAN;
using bctx = c::deserialization_context<B>;
template <typename T> static inline T swp(T const& v) { return c::endian_swap(v); }
static inline std::uint16_t sw(std::uint16_t v) { return __builtin_bswap16(v); }
static inline std::uint32_t sw(std::uint32_t v) { return __builtin_bswap32(v); }
static inline std::uint64_t sw(std::uint64_t v) { return __builtin_bswap64(v); }
static inline std::uint16_t sw(std::int16_t v) { return __builtin_bswap16(static_cast<std::uint16_t>(v)); }
static inline std::uint32_t sw(std::int32_t v) { return __builtin_bswap32(static_cast<std::uint32_t>(v)); }
static inline std::uint64_t sw(std::int64_t v) { return __builtin_bswap64(static_cast<std::uint64_t>(v)); }
static inline std::uint16_t sw(char16_t v) { return __builtin_bswap16(v); }
static inline std::uint32_t sw(char32_t v) { return __builtin_bswap32(v); }
static inline std::uint8_t sw(std::uint8_t v) { return v; }
template <typename T> static inline std::uint64_t u(T v) { return static_cast<std::make_unsigned_t<T>>(v); }

#define GO(v) ASSUME(adr(v) != 0U); bctx x{f, t}; c::deserialize(x, v); REACH("accepted")
#define SCALAR(N, T)                                                      \
  OB ob_scalar_##N(std::uint8_t* f, std::uint8_t* t, T* v) {             \
    auto const was = *v;                                                 \
    GO(v);                                                               \
    CHECK(static_cast<std::uint64_t>(static_cast<std::make_unsigned_t<T>>(*v)) == sw(was), "scalar is not converted"); \
  }
SCALAR(u16, std::uint16_t)
SCALAR(i16, std::int16_t)
SCALAR(u32, std::uint32_t)
SCALAR(i32, std::int32_t)
SCALAR(u64, std::uint64_t)
SCALAR(i64, std::int64_t)
SCALAR(c16, char16_t)
SCALAR(c32, char32_t)
using dur = std::chrono::duration<std::int64_t>;
using tp = std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<std::int64_t>>;
OB ob_duration(std::uint8_t* f, std::uint8_t* t, dur* v) { auto const was = v->count(); GO(v); CHECK(static_cast<std::uint64_t>(v->count()) == sw(was), "duration is not converted"); }
OB ob_time_point(std::uint8_t* f, std::uint8_t* t, tp* v) { auto const was = v->time_since_epoch().count(); GO(v); CHECK(static_cast<std::uint64_t>(v->time_since_epoch().count()) == sw(was), "time point is not converted"); }
OB ob_pair(std::uint8_t* f, std::uint8_t* t, c::pair<std::uint16_t, std::uint32_t>* v) {
  auto const a = v->first; auto const b = v->second; GO(v);
  CHECK(v->first == sw(a) && v->second == sw(b), "pair member is not converted");
}
OB ob_tuple(std::uint8_t* f, std::uint8_t* t, c::tuple<std::uint64_t, std::uint16_t, std::uint32_t>* v) {
  auto const a = c::get<0>(*v); auto const b = c::get<1>(*v); auto const d = c::get<2>(*v); GO(v);
  CHECK(c::get<0>(*v) == sw(a) && c::get<1>(*v) == sw(b) && c::get<2>(*v) == sw(d), "tuple member is not converted");
}
struct agg { std::uint8_t a; std::uint16_t b; std::uint64_t c; std::int32_t d; };
OB ob_struct(std::uint8_t* f, std::uint8_t* t, agg* v) {
  auto const w = *v; GO(v);
  CHECK(v->a == w.a && v->b == sw(w.b) && v->c == sw(w.c) && static_cast<std::uint32_t>(v->d) == sw(w.d), "member is not converted");
}
OB ob_array(std::uint8_t* f, std::uint8_t* t, c::array<std::uint32_t, 3>* v) {
  auto const a = (*v)[0], b = (*v)[1], d = (*v)[2]; GO(v);
  CHECK((*v)[0] == sw(a) && (*v)[1] == sw(b) && (*v)[2] == sw(d), "array element is not converted");
}
OB ob_bitset(std::uint8_t* f, std::uint8_t* t, c::bitset<128>* v) {
  auto const a = v->blocks_[0], b = v->blocks_[1]; GO(v);
  CHECK(v->blocks_[0] == sw(a) && v->blocks_[1] == sw(b), "bitset block is not converted");
}
OB ob_optional(std::uint8_t* f, std::uint8_t* t, c::optional<std::uint32_t>* v) {
  ASSUME(byte_of(v->valid_) == 1U);
  auto const a = v->value(); GO(v);
  CHECK(v->value() == sw(a), "optional value is not converted");
}
OB ob_variant(std::uint8_t* f, std::uint8_t* t, c::variant<std::uint32_t, std::uint64_t>* v) {
  ASSUME(v->idx_ == 1U);
  auto const a = *reinterpret_cast<std::uint64_t*>(&v->storage_); GO(v);
  CHECK(v->idx_ == 1U && *reinterpret_cast<std::uint64_t*>(&v->storage_) == sw(a), "variant value is not converted");
}
// headers
OB ob_offset_ptr(std::uint8_t* f, std::uint8_t* t, c::offset::ptr<std::uint64_t>* v) {
  auto const a = v->offset_; GO(v);
  CHECK(static_cast<std::uint64_t>(v->offset_) == sw(a), "offset is not converted");
}
template <typename V> static inline void vec(std::uint8_t* f, std::uint8_t* t, V* v) {
  auto const a = v->allocated_size_; auto const b = v->used_size_; bctx x{f, t};
  c::convert_endian_and_ptr(x, v);
  REACH("converted");
  CHECK(v->allocated_size_ == sw(a) && v->used_size_ == sw(b), "vector header is not converted");
}
OB ob_vec_raw(std::uint8_t* f, std::uint8_t* t, c::raw::vector<std::uint32_t>* v) { vec(f, t, v); }
OB ob_vec_off(std::uint8_t* f, std::uint8_t* t, c::offset::vector<std::uint32_t>* v) { vec(f, t, v); CHECK(true, ""); }
OB ob_vec_off_ptr(std::uint8_t* f, std::uint8_t* t, c::offset::vector<std::uint32_t>* v) {
  auto const a = v->el_.offset_; bctx x{f, t};
  c::convert_endian_and_ptr(x, v);
  REACH("converted");
  CHECK(static_cast<std::uint64_t>(v->el_.offset_) == sw(a), "offset is not converted");
}
OB ob_vec64(std::uint8_t* f, std::uint8_t* t, c::basic_vector<std::uint32_t, c::offset::ptr, false, std::uint64_t>* v) { vec(f, t, v); }
template <typename S> static inline void str(std::uint8_t* f, std::uint8_t* t, S* v) {
  ASSUME(byte_of(v->s_.is_short_) == 0U);
  auto const n = v->h_.size_; bctx x{f, t};
  c::convert_endian_and_ptr(x, v);
  REACH("converted");
  CHECK(v->h_.size_ == sw(n), "string size is not converted");
  CHECK(byte_of(v->s_.is_short_) == 0U, "representation flag changed");
}
OB ob_str_raw(std::uint8_t* f, std::uint8_t* t, c::raw::string* v) { str(f, t, v); }
OB ob_str_off(std::uint8_t* f, std::uint8_t* t, c::offset::string* v) { str(f, t, v); }
OB ob_strview(std::uint8_t* f, std::uint8_t* t, c::offset::string_view* v) { str(f, t, v); }
OB ob_u16str(std::uint8_t* f, std::uint8_t* t, c::offset::u16string* v) { str(f, t, v); }
template <typename H> static inline void hash(std::uint8_t* f, std::uint8_t* t, H* v) {
  auto const a = v->size_; auto const b = v->capacity_; auto const g = v->growth_left_; bctx x{f, t};
  c::convert_endian_and_ptr(x, v);
  REACH("converted");
  CHECK(v->size_ == sw(a) && v->capacity_ == sw(b) && v->growth_left_ == sw(g), "hash header is not converted");
}
OB ob_hash_raw(std::uint8_t* f, std::uint8_t* t, c::raw::hash_set<std::uint32_t>* v) { hash(f, t, v); }
OB ob_hash_off(std::uint8_t* f, std::uint8_t* t, c::offset::hash_set<std::uint32_t>* v) { hash(f, t, v); }
OB ob_hash_off_ptr(std::uint8_t* f, std::uint8_t* t, c::offset::hash_set<std::uint32_t>* v) {
  auto const a = v->entries_.offset_; auto const b = v->ctrl_.offset_; bctx x{f, t};
  c::convert_endian_and_ptr(x, v);
  REACH("converted");
  CHECK(static_cast<std::uint64_t>(v->entries_.offset_) == sw(a) && static_cast<std::uint64_t>(v->ctrl_.offset_) == sw(b), "offset is not converted");
}
OB ob_uptr_off(std::uint8_t* f, std::uint8_t* t, c::offset::unique_ptr<std::uint32_t>* v) {
  auto const a = v->el_.offset_; bctx x{f, t};
  c::convert_endian_and_ptr(x, v);
  REACH("converted");
  CHECK(static_cast<std::uint64_t>(v->el_.offset_) == sw(a), "offset is not converted");
}
