// D05: hash container images
#include "d_common.h"
template <bool EMPTY = true, typename H, typename W>
static inline void sound(ctx_t x, H* h, W&& when) {
  using T = typename H::entry_t;
  ASSUME(bounded(x) && real_buffer(x) && user_space(x, h) && when(h));
  c::check_state(x, h);
  REACH("hash image accepted");
  auto const ctrl = adr(static_cast<typename H::ctrl_t*>(h->ctrl_));
  auto const ent = adr(static_cast<T*>(h->entries_));
  CHECK(byte_of(h->self_allocated_) == 0U, "image claims to own its storage");
  CHECK(ctrl != 0U, "control bytes missing");
  CHECK(zs(ctrl) >= zs(x.from_), "control bytes start before the buffer");
  CHECK(zs(ctrl) + zu(h->capacity_) + 1 + H::WIDTH <= zs(x.to_), "control bytes end after the buffer");
  if (EMPTY) CHECK((ent == 0U) == (h->capacity_ == 0U && h->size_ == 0U), "null entries do not coincide with an empty table");
  if (ent != 0U) {
    CHECK(zs(ent) >= zs(x.from_), "entries start before the buffer");
    CHECK(aligned(ent, alignof(T)), "entries misaligned");
    CHECK(zs(ent) + zu(h->capacity_) * static_cast<Z>(sizeof(T)) + zu(h->capacity_) + 1 + H::WIDTH <= zs(x.to_), "entries and control bytes end after the buffer");
    CHECK(zu(ctrl) == zu(ent) + zu(h->capacity_) * static_cast<Z>(sizeof(T)), "control bytes do not directly follow the entries");
  }
}
// entries without capacity and size: never accepted
template <typename H>
static inline void none(ctx_t x, H* h) {
  ASSUME(bounded(x) && real_buffer(x) && user_space(x, h));
  ASSUME(adr(static_cast<typename H::entry_t*>(h->entries_)) != 0U && h->capacity_ == 0U && h->size_ == 0U);
  REACH("image with entries but no capacity");
  c::check_state(x, h);
  CHECK(false, "entries accepted although the table is empty");
}
#define INST(N, ...)                                                                        \
  OB ob_##N(std::uint8_t* f, std::uint8_t* t, __VA_ARGS__* v) { sound(ctx_t{f, t}, v, [](auto* h) { return true; }); }
INST(raw_set64, c::raw::hash_set<std::uint64_t>)
INST(raw_map, c::raw::hash_map<std::uint32_t, pod16>)
// relative pointers: the two cases (with / without entries) are separate roots
#define INSTO(N, ...)                                                                       \
  OB ob_##N##_entries(std::uint8_t* f, std::uint8_t* t, __VA_ARGS__* v) { sound<false>(ctx_t{f, t}, v, [](auto* h) { return h->entries_.offset_ != c::NULLPTR_OFFSET; }); } \
  OB ob_##N##_entries_but_empty(std::uint8_t* f, std::uint8_t* t, __VA_ARGS__* v) { none(ctx_t{f, t}, v); } \
  OB ob_##N##_null(std::uint8_t* f, std::uint8_t* t, __VA_ARGS__* v) { sound(ctx_t{f, t}, v, [](auto* h) { return h->entries_.offset_ == c::NULLPTR_OFFSET; }); }
INSTO(off_set32, c::offset::hash_set<std::uint32_t>)
INSTO(off_map, c::offset::hash_map<std::uint64_t, pod16>)
