// Nested containers: a constant number of entries whose positions in the data
// are arbitrary. What is inserted into or removed from the data is recorded.
#pragma once
#include "d_std.h"
#include "cista/containers/vector.h"
#include "cista/strong.h"
extern "C" void* an_fresh(void) noexcept;
extern "C" [[noreturn]] void an_stop(void) noexcept;
#define MUST(c) do { if (!(c)) an_stop(); } while (0)
namespace c = cista;
using U = std::uint64_t;
namespace nest {
constexpr unsigned ROOM = 8;          // entries the index has room for
constexpr U MAX = U{1} << 14;         // elements at most
static U ops, at, n, from;            // the last change of the data: position, number of elements, where they come from
static U before;                      // elements before it
static inline void changed(U a, U k, U f, U b) { ++ops; at = a; n = k; from = f; before = b; }
static inline U some(U max) { auto const x = an_any_u64() & 0xFFFF; MUST(x <= max); return x; }
template <typename It> static inline U source(It a) { auto&& r = *a; return adr(&r); }
// elements
template <typename T> struct dvec : c::raw::vector<T> {
  using base = c::raw::vector<T>;
  using base::base;
  using V = T;
  T* insert(T* p, T const& x) { auto const b = this->used_size_; changed(static_cast<U>(p - this->el_), 1, adr(&x), b); this->used_size_ = static_cast<decltype(this->used_size_)>(b + 1); return p; }
  T* insert(T* p, typename base::size_type k, T const& x) { auto const b = this->used_size_; changed(static_cast<U>(p - this->el_), k, adr(&x), b); this->used_size_ = static_cast<decltype(this->used_size_)>(b + k); return p; }
  template <typename It> T* insert(T* p, It a, It e) {
    auto const b = this->used_size_; auto const k = static_cast<U>(e - a);
    changed(static_cast<U>(p - this->el_), k, k ? source(a) : 0, b); this->used_size_ = static_cast<decltype(this->used_size_)>(b + k); return p;
  }
  void resize(typename base::size_type k, T = T{}) { auto const b = this->used_size_; changed(b, k, 0, b); this->used_size_ = k; }
  T* erase(T* p) { return erase(p, p + 1); }
  T* erase(T* a, T* e) { auto const b = this->used_size_; changed(static_cast<U>(a - this->el_), b - static_cast<U>(e - a), 0, b); this->used_size_ = static_cast<decltype(this->used_size_)>(b - static_cast<U>(e - a)); return a; }
};
static inline void start() { ops = at = n = from = before = 0; }
template <typename D> static inline void at_mem(D& d, void* mem, U size) {
  d.el_ = static_cast<typename D::V*>(mem); d.used_size_ = static_cast<decltype(d.used_size_)>(size); d.allocated_size_ = static_cast<decltype(d.allocated_size_)>(4 * MAX); d.self_allocated_ = false;
}
template <typename D> static inline void place(D& d, U size) {
  auto const mem = an_fresh(); MUST(mem != nullptr && adr(mem) < (U{1} << 46) && (adr(mem) & 15) == 0);
  at_mem(d, mem, size);
}
template <typename I, typename T> static inline void index(I& v, T* mem, unsigned size) {
  v.el_ = mem; v.used_size_ = static_cast<decltype(v.used_size_)>(size); v.allocated_size_ = ROOM; v.self_allocated_ = false;
}
template <typename T> struct range { T* a; T* e; T* begin() const { return a; } T* end() const { return e; } std::size_t size() const { return static_cast<std::size_t>(e - a); } bool empty() const { return a == e; } };
template <typename T> static inline range<T> any_range(U k) {
  auto const mem = static_cast<T*>(an_fresh()); MUST(mem != nullptr && adr(mem) < (U{1} << 46)); return {mem, mem + k};
}
}  // namespace nest
