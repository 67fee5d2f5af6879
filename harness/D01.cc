// D01: pointer range check
#include "d_common.h"

template <typename T>
static inline void raw_sound(ctx_t const& x, T* p, std::size_t n) {
  ASSUME(bounded(x) && p != nullptr);
  x.check_ptr(p, n);
  REACH("pointer accepted");
  CHECK(zs(adr(p)) >= zs(x.from_), "accepted pointer lies before the buffer");
  CHECK(zs(adr(p)) + zu(n) <= zs(x.to_), "accepted extent ends after the buffer (or its size wraps)");
  if constexpr (!std::is_void_v<T>) {
    CHECK(aligned(adr(p), alignof(T)), "accepted pointer is misaligned for its type");
  }
}
template <typename T>
static inline void raw_accept(ctx_t const& x, T* p, std::size_t n) {
  ASSUME(real_buffer(x));
  ASSUME(p == nullptr || (in_range(x, adr(p), n) && n < (1ULL << 62)));
  if constexpr (!std::is_void_v<T>) ASSUME(aligned(adr(p), alignof(T)));
  x.check_ptr(p, n);
  REACH("ok");
}
template <typename T>
static inline void off_sound(ctx_t const& x, c::offset_ptr<T>& p, std::size_t n) {
  ASSUME(bounded(x) && p.get() != nullptr);
  x.check_ptr(p, n);
  REACH("pointer accepted");
  auto const t = zs(adr(&p)) + zs(p.offset_);  // exact target
  CHECK(t >= zs(x.from_), "accepted relative pointer targets memory before the buffer");
  CHECK(t + zu(n) <= zs(x.to_), "accepted relative extent ends after the buffer (or wraps)");
  if constexpr (!std::is_void_v<T>) {
    CHECK(aligned(adr(&p) + static_cast<std::uint64_t>(p.offset_), alignof(T)), "accepted relative pointer is misaligned");
  }
}
template <typename T>
static inline void off_accept(ctx_t const& x, c::offset_ptr<T>& p, std::size_t n) {
  ASSUME(real_buffer(x));
  ASSUME(in_range(x, adr(&p), 8));
  ASSUME(n < (1ULL << 62));
  if (p.offset_ != c::NULLPTR_OFFSET) {
    auto const t = zs(adr(&p)) + zs(p.offset_);
    ASSUME(t >= zs(x.from_) && t + zu(n) <= zs(x.to_));
    if constexpr (!std::is_void_v<T>) ASSUME(aligned(adr(&p) + static_cast<std::uint64_t>(p.offset_), alignof(T)));
  }
  x.check_ptr(p, n);
  REACH("ok");
}
#define INST(N, T)                                                              \
  OB ob_raw_##N(ctx_t const& x, T* p, std::size_t n) { raw_sound<T>(x, p, n); } \
  OB ob_accept_raw_##N(ctx_t const& x, T* p, std::size_t n) { raw_accept<T>(x, p, n); } \
  OB ob_off_##N(ctx_t const& x, c::offset_ptr<T>& p, std::size_t n) { off_sound<T>(x, p, n); } \
  OB ob_accept_off_##N(ctx_t const& x, c::offset_ptr<T>& p, std::size_t n) { off_accept<T>(x, p, n); }
INST(u8, std::uint8_t)
INST(u16, std::uint16_t)
INST(u32, std::uint32_t)
INST(u64, std::uint64_t)
INST(pod, pod16)
INST(cpod, pod16 const)
INST(dbl, double)
INST(ptr, void*)
INST(v, void)

// default extent = object size
OB ob_raw_default_size(ctx_t const& x, pod16* p) {
  ASSUME(bounded(x) && p != nullptr);
  x.check_ptr(p);
  REACH("accepted");
  CHECK(in_range(x, adr(p), sizeof(pod16)), "default extent does not cover the whole object");
}
OB ob_off_default_size(ctx_t const& x, c::offset_ptr<pod16>& p) {
  ASSUME(bounded(x) && p != nullptr);
  x.check_ptr(p);
  REACH("accepted");
  CHECK(zs(adr(&p)) + zs(p.offset_) >= zs(x.from_) && zs(adr(&p)) + zs(p.offset_) + sizeof(pod16) <= zs(x.to_),
        "default extent does not cover the whole object");
}
OB ob_raw_object(ctx_t const& x, pod16** p) {
  ASSUME(bounded(x));
  c::check_state(x, p);
  REACH("accepted");
  CHECK(*p == nullptr || in_range(x, adr(*p), sizeof(pod16)), "plain pointer field not range-checked");
}
OB ob_off_object(ctx_t const& x, c::offset_ptr<pod16>* p) {
  ASSUME(bounded(x));
  c::check_state(x, p);
  REACH("accepted");
  CHECK(*p == nullptr || (zs(adr(p)) + zs(p->offset_) >= zs(x.from_) && zs(adr(p)) + zs(p->offset_) + sizeof(pod16) <= zs(x.to_)), "relative pointer field not range-checked");
}
