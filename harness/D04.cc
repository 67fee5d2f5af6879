// D04: unique_ptr images
#include "d_common.h"
template <typename P>
static inline void sound(ctx_t x, P* p) {
  ASSUME(bounded(x));
  c::deserialize(x, p);
  REACH("pointer image accepted");
  CHECK(byte_of(p->self_allocated_) == 0U, "image claims to own the pointee");
  auto const t = adr(p->get());
  if (t != 0U) {
    CHECK(in_range(x, t, sizeof(*p->get())), "pointee not inside the buffer");
    CHECK(aligned(t, alignof(decltype(*p->get()))), "pointee misaligned");
  }
}
#define INST(N, ...)                                                                        \
  OB ob_##N(std::uint8_t* f, std::uint8_t* t, __VA_ARGS__* v) { sound(ctx_t{f, t}, v); }
INST(raw_u64, c::raw::unique_ptr<std::uint64_t>)
INST(off_u64, c::offset::unique_ptr<std::uint64_t>)
INST(raw_pod, c::raw::unique_ptr<pod16>)
INST(off_pod, c::offset::unique_ptr<pod16>)
