#pragma once
// Hash tables: one arbitrary slot (K) of every table is followed; what holds
// for it holds for all of them.
#include "d_std.h"
#include "cista/containers/hash_set.h"
#include "cista/containers/hash_map.h"
extern "C" void* an_fresh(void) noexcept;
extern "C" [[noreturn]] void an_stop(void) noexcept;
extern "C" void an_phase(void) noexcept;
extern "C" void an_watch(void const*) noexcept;
extern "C" void an_split(void) noexcept;
#define MUST(c) do { if (!(c)) an_stop(); } while (0)
namespace c = cista;
namespace hs {
constexpr std::uint64_t W = 1ULL << 50, S = 24;  // table i lies in [(i + 1) * W, (i + 1) * W + W / 2)
constexpr unsigned N = 3;
static std::uint64_t base[N], cap[N], K[N], heap[N], bytes[N];
static std::uint64_t alive[N];   // whether an element lives in slot K
static std::uint64_t born_k[N], died_k[N];
static std::int64_t temps;
static std::uint64_t mon[N];  // whether slot K is followed
static std::uint64_t fresh, new_cap, new_k;
static std::uint64_t calls;   // whether constructors of elements are taken to throw
static inline void start() {
  for (unsigned i = 0; i < N; ++i) { base[i] = cap[i] = K[i] = heap[i] = bytes[i] = alive[i] = born_k[i] = died_k[i] = 0; mon[i] = 1; }
  temps = 0; fresh = N; new_cap = 0; new_k = 0; calls = 0;
}
template <unsigned I> static inline void born_in(std::uint64_t p) {
  MUST(p < base[I] + cap[I] * S);
  CHECK(p >= base[I], "an element is constructed outside of the slots");
  if (mon[I] && p == base[I] + K[I] * S) { MUST(!alive[I]); alive[I] = 1; ++born_k[I]; an_phase(); }
}
template <unsigned I> static inline void died_in(std::uint64_t p) {
  CHECK(p >= base[I] && p < base[I] + cap[I] * S, "an element is destroyed outside of the slots");
  if (mon[I] && p == base[I] + K[I] * S) { CHECK(alive[I], "an element is destroyed that is not alive"); alive[I] = 0; ++died_k[I]; an_phase(); }
}
template <unsigned I> static inline void used_in(std::uint64_t p) {
  CHECK(p >= base[I] && p < base[I] + cap[I] * S, "an element is used outside of the slots");
  if (mon[I] && p == base[I] + K[I] * S) CHECK(alive[I], "an element is used that is not alive");
}
#define HS_DISPATCH(F, p)                                     \
  if (p < 2 * W) F<0>(p); else if (p < 3 * W) F<1>(p);        \
  else if (p < 4 * W) F<2>(p);                                \
  else CHECK(false, "an element lies outside of every table")
template <unsigned I> static inline void agrees();
// code of the user runs that may throw: every table must be in order
static inline void may_throw() {
  if (calls && mon[0] && base[0]) agrees<0>();
}
struct alignas(8) el {
  static void born(void const* x) { auto const p = adr(x); if (p < W) { ++temps; return; } HS_DISPATCH(born_in, p); }
  static void died(void const* x) { auto const p = adr(x); if (p < W) { --temps; return; } HS_DISPATCH(died_in, p); }
  static void used(void const* x) { auto const p = adr(x); if (p < W) return; HS_DISPATCH(used_in, p); }
  el() { may_throw(); born(this); }
  explicit el(std::uint64_t) { may_throw(); born(this); }
  el(el&& o, el&& p) { used(&o); used(&p); may_throw(); born(this); }
  el(el const& o) { used(&o); may_throw(); born(this); }
  el(el&& o) noexcept { used(&o); born(this); }
  el& operator=(el const& o) { used(this); used(&o); return *this; }
  el& operator=(el&& o) noexcept { used(this); used(&o); return *this; }
  ~el() { died(this); }
  char space[S];
};
struct ident { template <typename T> auto&& operator()(T&& t) noexcept { return std::forward<T>(t); } };
struct hasher { std::size_t operator()(el const& e) const { el::used(&e); return an_any_u64(); } };
struct equal { bool operator()(el const& a, el const& b) const { el::used(&b); (void)a; return an_any_u64() & 1; } };
template <template <typename> typename P> using table = c::hash_storage<el, P, ident, ident, hasher, equal>;
enum kind { EMPTY, OWN, VIEW };

// a table in window I whose slot K is occupied or not
template <typename T, unsigned I> static inline T* make(kind k, std::uint64_t n, std::uint64_t x, bool full, std::uint64_t size, std::uint64_t growth) {
  auto const t = static_cast<T*>(an_fresh());
  MUST(t != nullptr && adr(t) < W / 4 && (adr(t) & 7) == 0);
  new (t) T();
  if (k == EMPTY) return t;
  MUST(n >= 1 && n < W / 4 / S && x < n && size <= n && growth <= n);
  auto const m = static_cast<std::uint8_t*>(an_fresh());
  MUST(adr(m) >= (I + 1) * W && adr(m) < (I + 1) * W + W / 8 && (adr(m) & 15) == 0);
  base[I] = adr(m); cap[I] = n; K[I] = x; heap[I] = k == OWN; bytes[I] = n * S + n + 9; alive[I] = full;
  auto const ctrl = reinterpret_cast<signed char*>(m + n * S);
  if (mon[I]) an_watch(ctrl + x);
  if (!mon[I]) {} else if (full) MUST(ctrl[x] >= 0); else MUST(ctrl[x] == -128 || ctrl[x] == -2);
  t->entries_ = reinterpret_cast<el*>(m); t->ctrl_ = reinterpret_cast<typename T::ctrl_t*>(ctrl);
  t->capacity_ = n; t->size_ = size; t->growth_left_ = growth; t->self_allocated_ = k == OWN;
  return t;
}
template <typename T> static inline void empty(T& t) {
  CHECK(t.entries_ == nullptr && t.capacity_ == 0 && t.size_ == 0 && t.growth_left_ == 0, "the table does not end up empty");
  CHECK(static_cast<typename T::ctrl_t*>(t.ctrl_) == T::empty_group(), "the table does not end with the empty group");
}
// t describes the table in window I
template <unsigned I, typename T> static inline void describes(T& t, std::uint64_t size, std::uint64_t growth) {
  CHECK(adr(static_cast<el*>(t.entries_)) == base[I] && adr(static_cast<typename T::ctrl_t*>(t.ctrl_)) == base[I] + cap[I] * S && t.capacity_ == cap[I], "the table does not describe its storage");
  CHECK(t.self_allocated_ == (heap[I] == 1), "the table does not know whether it owns its storage");
  CHECK(t.size_ == size && t.growth_left_ == growth, "the number of elements or free slots is wrong");
}
// slot K holds an element exactly if its control byte says so
template <unsigned I> static inline void agrees() {
  auto const b = *reinterpret_cast<signed char const*>(base[I] + cap[I] * S + K[I]);
  CHECK((b >= 0) == (alive[I] == 1), "a slot's control byte does not tell whether it holds an element");
}
#define GONE(I) CHECK((!hs::mon[I] || !hs::alive[I]) && hs::heap[I] != 1, "storage or elements are lost")
}  // namespace hs
extern "C" void* model_aligned_alloc(std::size_t al, std::size_t n) {
  using namespace hs;
  CHECK(al >= 8 && (al & (al - 1)) == 0 && (n & (al - 1)) == 0, "storage is requested with a wrong alignment");
  if (an_any_u64() & 1) return nullptr;
  CHECK(fresh == 1, "storage is allocated that is not needed");
  CHECK(n >= new_cap * S + new_cap + 9, "too little storage is requested");
  auto const m = static_cast<std::uint8_t*>(an_fresh());
  MUST(adr(m) >= 2 * W && adr(m) < 2 * W + W / 8 && (adr(m) & 15) == 0);
  base[1] = adr(m); cap[1] = new_cap; K[1] = new_k; heap[1] = 1; bytes[1] = n; fresh = N;
  if (mon[1]) an_watch(m + new_cap * S + new_k);
  return m;
}
namespace hs {
template <unsigned I> static inline void freed_in(std::uint64_t p) {
  CHECK(p == base[I], "the address of an allocation is not what is freed");
  CHECK(heap[I] == 1, "storage is freed that is not owned");
  CHECK(!mon[I] || !alive[I], "storage is freed with living elements in it");
  heap[I] = 2;
}
}  // namespace hs
extern "C" void model_free(void* x) {
  using namespace hs;
  auto const p = adr(x);
  if (p == 0) return;
  CHECK(p >= W, "storage is freed that is not owned");
  HS_DISPATCH(freed_in, p);
}
