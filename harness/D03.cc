// D03: string images
#include "d_common.h"

template <typename S>
static inline std::uint64_t tgt(S const* s) { return adr(static_cast<typename S::CharT const*>(s->h_.ptr_)); }

template <typename S>
static inline void sound(ctx_t x, S* s) {
  ASSUME(bounded(x));
  c::deserialize(x, s);
  REACH("string image accepted");
  CHECK(byte_of(s->s_.is_short_) <= 1U, "short-string flag is not a boolean");
  if (byte_of(s->s_.is_short_) == 0U) {
    CHECK(byte_of(s->h_.self_allocated_) == 0U, "image claims to own its characters");
    CHECK((tgt(s) == 0U) == (s->h_.size_ == 0U), "null storage does not coincide with size 0");
    if (tgt(s) != 0U) {
      CHECK(zs(tgt(s)) >= zs(x.from_), "characters start before the buffer");
      CHECK(zs(tgt(s)) + zu(s->h_.size_) * static_cast<Z>(sizeof(typename S::CharT)) <= zs(x.to_), "characters end after the buffer");
    }
  }
}
template <typename S>
static inline void accept(ctx_t x, S* s) {
  ASSUME(real_buffer(x));
  ASSUME(in_range(x, adr(s), sizeof(S)));
  ASSUME(byte_of(s->s_.is_short_) <= 1U);
  if (byte_of(s->s_.is_short_) == 0U) {
    ASSUME(byte_of(s->h_.self_allocated_) == 0U);
    ASSUME((s->h_.size_ == 0U) == (s->h_.ptr_ == nullptr));
    if (s->h_.ptr_ != nullptr) {
      ASSUME(zs(tgt(s)) >= zs(x.from_) && zs(tgt(s)) + zu(s->h_.size_) * static_cast<Z>(sizeof(typename S::CharT)) <= zs(x.to_));
      ASSUME(aligned(tgt(s), alignof(typename S::CharT)));
    }
  }
  c::check_state(x, s);
  REACH("ok");
}
#define INST(N, ...)                                                                        \
  OB ob_##N(std::uint8_t* f, std::uint8_t* t, __VA_ARGS__* v) { sound(ctx_t{f, t}, v); }    \
  OB ob_accept_##N(std::uint8_t* f, std::uint8_t* t, __VA_ARGS__* v) { accept(ctx_t{f, t}, v); }

INST(raw_string, c::raw::string)
INST(off_string, c::offset::string)
INST(raw_view, c::raw::string_view)
INST(off_view, c::offset::string_view)
INST(raw_generic, c::raw::generic_string)
INST(off_generic, c::offset::generic_string)
INST(raw_u16, c::raw::u16string)
INST(off_u32, c::offset::u32string)
