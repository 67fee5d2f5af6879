// D02: vector images
#include "d_common.h"

template <typename V>
static inline std::uint64_t tgt(V const* v) { return adr(static_cast<typename V::value_type*>(v->el_)); }

template <typename V>
static inline void sound(ctx_t const& x, V* v) {
  using T = typename V::value_type;
  ASSUME(bounded(x));
  c::deserialize(x, v);
  REACH("vector image accepted");
  CHECK(byte_of(v->self_allocated_) == 0U, "image claims to own its storage");
  CHECK(v->allocated_size_ == v->used_size_, "capacity and size of the image disagree");
  CHECK((tgt(v) == 0U) == (v->used_size_ == 0U), "null storage does not coincide with size 0");
  if (tgt(v) != 0U) {
    CHECK(zs(tgt(v)) >= zs(x.from_), "element storage starts before the buffer");
    CHECK(zs(tgt(v)) + zu(v->used_size_) * static_cast<Z>(sizeof(T)) <= zs(x.to_), "element storage (size * element size) ends after the buffer");
    CHECK(aligned(tgt(v), alignof(T)), "element storage misaligned");
  }
}
template <typename V>
static inline void accept(ctx_t const& x, V* v) {
  using T = typename V::value_type;
  ASSUME(real_buffer(x));
  ASSUME(in_range(x, adr(v), sizeof(V)));
  ASSUME(byte_of(v->self_allocated_) == 0U);
  ASSUME(v->allocated_size_ == v->used_size_);
  ASSUME((v->used_size_ == 0U) == (v->el_ == nullptr));
  ASSUME(zu(v->used_size_) < zu(1ULL << 40));
  if (v->el_ != nullptr) {
    ASSUME(tgt(v) >= static_cast<std::uint64_t>(x.from_));
    ASSUME(zs(tgt(v)) >= zs(x.from_) && zs(tgt(v)) + zu(v->used_size_) * static_cast<Z>(sizeof(T)) <= zs(x.to_));
    ASSUME(aligned(tgt(v), alignof(T)));
  }
  c::check_state(x, v);
  REACH("ok");
}
#define INST(N, ...)                                                                    \
  OB ob_##N(std::uint8_t* f, std::uint8_t* t, __VA_ARGS__* v) { sound(ctx_t{f, t}, v); } \
  OB ob_accept_##N(std::uint8_t* f, std::uint8_t* t, __VA_ARGS__* v) { accept(ctx_t{f, t}, v); }

INST(raw_u8, c::raw::vector<std::uint8_t>)
INST(raw_u64, c::raw::vector<std::uint64_t>)
INST(raw_pod, c::raw::vector<pod16>)
INST(off_u8, c::offset::vector<std::uint8_t>)
INST(off_u64, c::offset::vector<std::uint64_t>)
INST(off_pod, c::offset::vector<pod16>)
INST(raw_szt, c::basic_vector<std::uint32_t, c::raw::ptr, false, std::uint64_t>)
INST(off_szt, c::basic_vector<std::uint32_t, c::offset::ptr, false, std::uint64_t>)
INST(raw_idx, c::raw::indexed_vector<std::uint32_t>)
