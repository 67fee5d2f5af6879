#pragma once
#include "d_std.h"
#include "cista/containers.h"
#include "cista/serialization.h"

namespace c = cista;
using ctx_t = c::deserialization_context<c::mode::NONE>;

struct pod16 { std::uint32_t a; std::uint64_t b; };

// [p, p+n) lies inside the buffer, without any wrap around
template <typename Ctx>
static inline bool in_range(Ctx const& x, std::uint64_t p, std::uint64_t n) {
  return zs(p) >= zs(x.from_) && zs(p) + zu(n) <= zs(x.to_);
}
static inline bool aligned(std::uint64_t p, std::uint64_t a) { return (p & (a - 1)) == 0; }

// a real buffer in the lower half of the address space
template <typename Ctx>
static inline bool real_buffer(Ctx const& x) { return x.from_ > 0 && x.to_ > x.from_; }
// a context with an upper bound (to_ == 0 disables checks by contract)
template <typename Ctx>
static inline bool bounded(Ctx const& x) { return x.to_ != 0; }

// user-space addresses (x86-64 / AArch64: below 2^47) for the buffer bounds and
// the object under inspection; pointers *stored in the image* stay arbitrary
template <typename Ctx, typename T>
static inline bool user_space(Ctx const& x, T const* p) {
  return static_cast<std::uint64_t>(x.from_) < (1ULL << 47) && static_cast<std::uint64_t>(x.to_) < (1ULL << 47) && adr(p) < (1ULL << 47);
}
