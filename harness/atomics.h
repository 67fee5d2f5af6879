// A01: a shared value that other threads change between any two accesses.
// The atomic builtins act on the ghost value `cur`; the memory itself is a trap:
// a plain load yields something unrelated, a plain store is noticed in the end.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
extern "C" std::uint64_t an_any_u64(void) noexcept;
extern "C" [[noreturn]] void an_stop() noexcept;
extern "C" [[noreturn]] void an_violation(char const*) noexcept;
namespace at {
static std::uint64_t cur;        // the shared value (sign extended)
static std::uint64_t seen;       // what the last access saw
static std::int16_t seen16;
static std::uint64_t writes;     // how often it was written
static std::uint64_t last;       // 1: the last access wrote
static std::uint64_t place;      // the shared memory
enum { NONE, MIN, MAX, OR, AND, NEXT };
static int op;                   // what may be written
static std::uint64_t arg, wrote, bound;  // bound: everything claimed so far lies below
template <typename T> static inline T val(std::uint64_t x) { return static_cast<T>(x); }
template <typename P> static inline void at_place(P* p) { if (reinterpret_cast<std::uint64_t>(p) != place) an_violation("an atomic operation is performed elsewhere"); }
template <typename T> static inline void write(T n) {
  T const c = val<T>(cur), a = val<T>(arg);
  if (op == MIN && n != (c < a ? c : a)) an_violation("an update of another thread is lost");
  if (op == MAX && n != (c < a ? a : c)) an_violation("an update of another thread is lost");
  if (op == OR && n != static_cast<T>(c | a)) an_violation("an update of another thread is lost");
  if (op == AND && n != static_cast<T>(c & a)) an_violation("an update of another thread is lost");
  if (op == NEXT && !(n > c)) an_violation("something is handed out twice");
  if (op == NONE) an_violation("an unexpected write to a shared value");
  if (writes != 0) an_violation("an update is performed twice");
  ++writes; last = 1; wrote = static_cast<std::uint64_t>(n);
}
template <typename P> static inline auto load(P* p) {
  using T = std::remove_cv_t<std::remove_reference_t<decltype(*p)>>;
  at_place(p); T const x = static_cast<T>(an_any_u64()); cur = static_cast<std::uint64_t>(x); if (op == NEXT && cur > bound) an_stop(); seen = cur; seen16 = static_cast<std::int16_t>(x); last = 0; return x;
}
template <typename P, typename E, typename D> static inline bool cas(P* p, E* e, D d) {
  using T = std::remove_cv_t<std::remove_reference_t<decltype(*p)>>;
  at_place(p); T const x = static_cast<T>(an_any_u64()); cur = static_cast<std::uint64_t>(x); if (op == NEXT && cur > bound) an_stop(); seen = cur; seen16 = static_cast<std::int16_t>(x); last = 0;
  if (x == *e && an_any_u64() != 0) { seen = static_cast<std::uint64_t>(*e); seen16 = static_cast<std::int16_t>(*e); cur = seen; write<T>(static_cast<T>(d)); return true; }
  *e = x; return false;
}
template <typename P, typename M> static inline auto rmw(P* p, M m, bool o, bool fresh) {
  using T = std::remove_cv_t<std::remove_reference_t<decltype(*p)>>;
  at_place(p); T const x = static_cast<T>(an_any_u64()); cur = static_cast<std::uint64_t>(x); if (op == NEXT && cur > bound) an_stop(); seen = cur; seen16 = static_cast<std::int16_t>(x); last = 0;
  T const n = o ? static_cast<T>(x | static_cast<T>(m)) : static_cast<T>(x & static_cast<T>(m)); write<T>(n); return fresh ? n : x;
}
}  // namespace at
#define __atomic_load_n(p, o) at::load(p)
#define __atomic_compare_exchange_n(p, e, d, w, s, f) at::cas(p, e, d)
#define __atomic_or_fetch(p, m, o) at::rmw(p, m, true, true)
#define __atomic_and_fetch(p, m, o) at::rmw(p, m, false, true)
#define __atomic_fetch_or(p, m, o) at::rmw(p, m, true, false)
#define __atomic_fetch_and(p, m, o) at::rmw(p, m, false, false)
#include <type_traits>
#include "d_std.h"
#include <atomic>
#include "cista/atomic.h"
#include "cista/containers/bitvec.h"
#include "cista/containers/vector.h"
namespace c = cista;
template <typename T> static inline void start(T* p, int o, std::uint64_t a) { at::op = o; at::arg = a; at::place = adr(p); at::writes = 0; at::last = 0; }
using S = std::int16_t;
template <bool MIN> static inline void minmax() {
  S mem = static_cast<S>(an_any_u64()); S const trap = mem, v = static_cast<S>(an_any_u64());
  start(&mem, MIN ? at::MIN : at::MAX, static_cast<std::uint64_t>(v));
  S const r = MIN ? c::fetch_min(mem, v) : c::fetch_max(mem, v);
  CHECK(mem == trap, "a shared value is written without an atomic operation");
  CHECK(r == at::seen16, "not the value before the operation is returned");
  CHECK(at::last == 1 || (MIN ? at::seen16 <= v : at::seen16 >= v), "an update is not performed");
  if (at::last == 1) REACH("written"); else REACH("nothing to do");
}
OB ob_min() { minmax<true>(); }
OB ob_max() { minmax<false>(); }
template <bool OR> static inline void mask() {
  std::uint64_t mem = an_any_u64(); auto const trap = mem, m = an_any_u64();
  start(&mem, OR ? at::OR : at::AND, m);
  auto const r = OR ? c::fetch_or(mem, m) : c::fetch_and(mem, m);
  CHECK(mem == trap, "a shared value is written without an atomic operation");
  CHECK(at::writes == 1, "an update is not performed");
  CHECK(r == at::seen, "not the value before the operation is returned");
  REACH("done");
}
OB ob_or() { mask<true>(); }
OB ob_and() { mask<false>(); }
using V = c::basic_bitvec<c::basic_vector<std::uint64_t, c::raw::ptr, false, std::uint64_t>>;
struct bits {
  explicit bits(unsigned n) { for (auto& m : mem) m = 0; mem[0] = t0 = an_any_u64(); mem[1] = t1 = an_any_u64(); mem[2] = t2 = an_any_u64();
    b.blocks_.el_ = mem; b.blocks_.used_size_ = (n + 63) / 64; b.blocks_.allocated_size_ = 3; b.blocks_.self_allocated_ = false; b.size_ = n; }
  std::uint64_t mem[3], t0, t1, t2; V b;
};
template <unsigned N, unsigned I, bool VAL> static inline void set() {
  bits x{N}; auto const m = std::uint64_t{1} << (I % 64);
  start(&x.mem[I / 64], VAL ? at::OR : at::AND, VAL ? m : ~m);
  x.b.template set<true>(I, VAL);
  CHECK(x.mem[0] == x.t0 && x.mem[1] == x.t1 && x.mem[2] == x.t2, "a shared value is written without an atomic operation");
  CHECK(at::writes == 1, "an update is not performed");
  REACH("done");
}
#define SET(N, I) OB ob_set_##N##_##I() { set<N, I, true>(); } OB ob_clear_##N##_##I() { set<N, I, false>(); }
SET(1, 0) SET(64, 30) SET(64, 63) SET(65, 64) SET(130, 5) SET(130, 63) SET(130, 64) SET(130, 127) SET(130, 129)
template <unsigned N> static inline void next() {
  bits x{N}; std::atomic_size_t n; *reinterpret_cast<std::size_t*>(&n) = 0;
  start(&n, at::NEXT, 0); at::bound = N;
  auto const r = x.b.get_next(n);
  if (r.has_value()) {
    CHECK(at::last == 1, "something is handed out that was not claimed");
    CHECK(at::wrote == static_cast<std::uint64_t>(*r) + 1, "something else is handed out than what was claimed");
    CHECK(static_cast<std::uint64_t>(*r) >= at::seen, "something is handed out that others may have got");
    CHECK(*r < N, "something behind the end is handed out");
    REACH("claimed");
  } else {
    CHECK(at::writes == 0, "something is claimed but not handed out");
    REACH("nothing left");
  }
}
OB ob_next_1() { next<1>(); }
OB ob_next_2() { next<2>(); }
OB ob_next_64() { next<64>(); }
OB ob_next_63() { next<63>(); }
