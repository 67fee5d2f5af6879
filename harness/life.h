// A tracked element: every object knows whether it is alive.
#pragma once
#include "ob.h"
extern "C" void* an_fresh(void) noexcept;
extern "C" [[noreturn]] void an_stop(void) noexcept;
#define MUST(c) do { if (!(c)) an_stop(); } while (0)
namespace lf {
constexpr std::uint64_t ALIVE = 0xA11FE0A11FE0ULL, DEAD = 0xDEADDEADDEADULL;
static std::int64_t live;                 // objects constructed and not destroyed
static std::uint64_t w_lo[2], w_hi[2];    // storages whose dead objects are known to be dead
static inline bool watched(void const* p) { return (adr(p) >= w_lo[0] && adr(p) < w_hi[0]) || (adr(p) >= w_lo[1] && adr(p) < w_hi[1]); }
template <int N> struct life {
  void born() { if (watched(this)) CHECK(st != (ALIVE ^ N), "an object is constructed over a living one"); st = ALIVE ^ N; ++live; }
  void needed() const { CHECK(st == (ALIVE ^ N), "an object is used that is not alive"); }
  life() : v{0} { born(); }
  explicit life(std::uint64_t x) : v{x} { born(); }
  life(life const& o) { o.needed(); born(); v = o.v; }
  life(life&& o) noexcept { o.needed(); born(); v = o.v; o.v = ~v; }
  life& operator=(life const& o) { needed(); o.needed(); v = o.v; return *this; }
  life& operator=(life&& o) noexcept { needed(); o.needed(); auto const x = o.v; o.v = ~x; v = x; return *this; }
  ~life() { needed(); st = DEAD; --live; }
  friend bool operator==(life const& a, life const& b) { a.needed(); b.needed(); return a.v == b.v; }
  friend bool operator!=(life const& a, life const& b) { return !(a == b); }
  friend bool operator<(life const& a, life const& b) { a.needed(); b.needed(); return a.v < b.v; }
  friend bool operator>(life const& a, life const& b) { return b < a; }
  friend bool operator<=(life const& a, life const& b) { return !(b < a); }
  friend bool operator>=(life const& a, life const& b) { return !(a < b); }
  std::uint64_t pad, st, v;  // the marker does not share its place with the scalars of other types
};
// storage for one object, dead at first
template <typename X> static inline X* storage(int i) {
  auto const m = static_cast<X*>(an_fresh());
  MUST(m != nullptr && adr(m) < (1ULL << 46) && (adr(m) & (alignof(X) - 1)) == 0);
  __builtin_memset(static_cast<void*>(m), 0, sizeof(X));
  w_lo[i] = adr(m); w_hi[i] = adr(m) + sizeof(X);
  return m;
}
static inline void start() { live = 0; w_lo[0] = w_hi[0] = w_lo[1] = w_hi[1] = 0; }
#define NO_LEAK CHECK(lf::live == 0, "objects are not destroyed exactly once")
}  // namespace lf
