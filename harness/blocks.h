// Elements of arrays.  Nothing is stored in them: constructing, using and
// destroying one is checked against what is known about the storage it lies in.
//
// A storage (block) holds living objects at [lo, a) and [b, hi), both possibly
// empty; they grow and shrink at their ends.  Storages are placed in windows of
// the address space so that an address tells its storage; objects below the
// windows are temporaries on the stack.
#pragma once
#include "d_std.h"
extern "C" void* an_fresh(void) noexcept;
extern "C" [[noreturn]] void an_stop(void) noexcept;
#define MUST(c) do { if (!(c)) an_stop(); } while (0)
namespace bl {
constexpr unsigned N = 4;
constexpr std::uint64_t W = 1ULL << 50;  // window i: [(i + 1) * W, (i + 2) * W), storages are smaller than W / 2
static std::uint64_t base[N], bytes[N], lo[N], a[N], b[N], hi[N];
static std::uint64_t heap[N];   // 1: allocated, 2: freed, 0: not from the heap
static std::int64_t temps;      // living objects outside the storages
static std::uint64_t last_from, last_to;
static std::uint64_t fresh_block;  // the window the next allocation is placed in
static std::uint64_t fresh_split;  // its gap, in bytes from its start
static std::uint64_t can_fail;

template <unsigned I> static inline void block(std::uint64_t p, std::uint64_t n, std::uint64_t from_heap) {
  MUST(p >= (I + 1) * W && p < (I + 1) * W + W / 4 && n < W / 2 && (p & 15) == 0);
  base[I] = p; bytes[I] = n; lo[I] = a[I] = b[I] = hi[I] = p; heap[I] = from_heap;
}
static inline void start() {
  for (unsigned i = 0; i < N; ++i) { base[i] = bytes[i] = lo[i] = a[i] = b[i] = hi[i] = heap[i] = 0; }
  temps = 0; last_from = last_to = 0; fresh_block = N; fresh_split = 0; can_fail = 0;
}
template <unsigned I> static inline void born_in(std::uint64_t p, std::uint64_t s) {
  CHECK(p >= base[I] && p + s <= base[I] + bytes[I], "an element is constructed outside of the storage");
  if (p == a[I] && (p + s <= b[I] || b[I] == hi[I])) a[I] += s;
  else if (p + s == b[I] && p >= a[I]) b[I] -= s;
  else if (p == hi[I]) hi[I] += s;
  else CHECK(false, "an element is constructed over a living one or leaving a gap");
}
template <unsigned I> static inline void died_in(std::uint64_t p, std::uint64_t s) {
  if (p == lo[I] && p < a[I]) lo[I] += s;
  else if (p == b[I] && p < hi[I]) b[I] += s;
  else if (p + s == hi[I] && p >= b[I]) hi[I] -= s;
  else if (p + s == a[I] && p >= lo[I]) a[I] -= s;
  else CHECK(false, "an element is destroyed that is not alive");
}
template <unsigned I> static inline void used_in(std::uint64_t p, std::uint64_t s) {
  CHECK((p >= lo[I] && p + s <= a[I]) || (p >= b[I] && p + s <= hi[I]), "an element is used that is not alive");
}
#define BL_DISPATCH(F, p, s)                                  \
  if (p < 2 * W) F<0>(p, s); else if (p < 3 * W) F<1>(p, s);  \
  else if (p < 4 * W) F<2>(p, s); else if (p < 5 * W) F<3>(p, s); \
  else CHECK(false, "an element lies outside of every storage")
static inline void born(void const* x, std::uint64_t s) {
  auto const p = adr(x);
  if (p < W) { ++temps; return; }
  BL_DISPATCH(born_in, p, s);
}
static inline void died(void const* x, std::uint64_t s) {
  auto const p = adr(x);
  if (p < W) { --temps; return; }
  BL_DISPATCH(died_in, p, s);
}
static inline void used(void const* x, std::uint64_t s) {
  auto const p = adr(x);
  if (p < W) return;
  BL_DISPATCH(used_in, p, s);
}
static inline void moved(void const* to, void const* from) { last_to = adr(to); last_from = adr(from); }

template <std::size_t S> struct alignas(8) el {
  el() { born(this, S); }
  explicit el(std::uint64_t) { born(this, S); }
  el(el const& o) { used(&o, S); born(this, S); moved(this, &o); }
  el(el&& o) noexcept { used(&o, S); born(this, S); moved(this, &o); }
  el& operator=(el const& o) { used(this, S); used(&o, S); moved(this, &o); return *this; }
  el& operator=(el&& o) noexcept { used(this, S); used(&o, S); CHECK(adr(this) != adr(&o), "an element is moved onto itself"); moved(this, &o); return *this; }
  ~el() { died(this, S); }
  friend bool operator==(el const& x, el const& y) { used(&x, S); used(&y, S); return an_any_u64() & 1; }
  friend bool operator<(el const& x, el const& y) { used(&x, S); used(&y, S); return an_any_u64() & 1; }
  char space[S];
};
// exactly n elements live in storage I, from its start
template <unsigned I> static inline bool holds(std::uint64_t n, std::uint64_t s) {
  auto const e = base[I] + n * s;
  if (n == 0) return lo[I] == a[I] && b[I] == hi[I];
  return (lo[I] == base[I] && a[I] == e && b[I] == hi[I]) || (lo[I] == base[I] && a[I] == b[I] && hi[I] == e) || (lo[I] == a[I] && b[I] == base[I] && hi[I] == e);
}
template <unsigned I> static inline bool nothing() { return lo[I] == a[I] && b[I] == hi[I]; }
}  // namespace bl
extern "C" void* model_malloc(std::size_t n) {
  using namespace bl;
  if (bl::can_fail && (an_any_u64() & 1)) return nullptr;
  if (n >= W / 2) return nullptr;
  auto const m = an_fresh();
  CHECK(fresh_block < N, "storage is allocated that is not needed");
  if (fresh_block == 1) { block<1>(adr(m), n, 1); b[1] = hi[1] = a[1] + fresh_split; fresh_block = 2; }
  else { block<2>(adr(m), n, 1); b[2] = hi[2] = a[2] + fresh_split; fresh_block = N; }
  return m;
}
namespace bl {
template <unsigned I> static inline void freed_in(std::uint64_t p, std::uint64_t) {
  CHECK(p == base[I], "the address of an allocation is not what is freed");
  CHECK(heap[I] == 1, "storage is freed that is not owned");
  CHECK(nothing<I>(), "storage is freed with living elements in it");
  heap[I] = 2;
}
}  // namespace bl
extern "C" void model_free(void* x) {
  using namespace bl;
  auto const p = adr(x);
  if (p == 0) return;
  CHECK(p >= W, "storage is freed that is not owned");
  BL_DISPATCH(freed_in, p, 0);
}
// std::rotate: permutes living elements in place
namespace std {
template <typename T> T* bl_rotate(T* first, T* mid, T* last) {
  CHECK(adr(first) <= adr(mid) && adr(mid) <= adr(last), "a range is reversed");
  if (first != last) { bl::used(first, sizeof(T)); bl::used(last - 1, sizeof(T)); }
  return first + (last - mid);
}
}  // namespace std
#define rotate bl_rotate
