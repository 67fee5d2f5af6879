#pragma once
// vectors construct, use, destroy and free exactly what they own
#include "blocks.h"
#include "cista/containers/vector.h"
namespace c = cista;
constexpr std::uint64_t S = 24;
using T = bl::el<S>;
enum kind { EMPTY, OWN, VIEW };  // nothing allocated; elements on the heap; elements in an image
template <typename V, unsigned I> static inline V* make(kind k, std::uint64_t used, std::uint64_t cap) {
  using sz = typename V::size_type;
  auto const v = static_cast<V*>(an_fresh());
  MUST(v != nullptr && adr(v) < bl::W / 4 && (adr(v) & 7) == 0);
  new (v) V();
  if (k == EMPTY) return v;
  MUST(used <= cap && cap != 0 && cap <= static_cast<std::uint64_t>(static_cast<sz>(-1)) && (k == OWN || used == cap) && cap < bl::W / 2 / S);
  auto const m = static_cast<T*>(an_fresh());
  bl::block<I>(adr(m), cap * S, k == OWN ? 1 : 0);
  bl::a[I] = bl::b[I] = bl::hi[I] = adr(m) + used * S;
  v->el_ = m; v->used_size_ = static_cast<sz>(used); v->allocated_size_ = static_cast<sz>(cap); v->self_allocated_ = k == OWN;
  return v;
}
// the elements of v are n living ones in storage it owns (or has been given)
template <unsigned I, typename V> static inline bool fine_in(V& v, std::uint64_t n) {
  return adr(static_cast<T*>(v.el_)) == bl::base[I] && bl::holds<I>(n, S) && static_cast<std::uint64_t>(v.allocated_size_) * S <= bl::bytes[I] && v.used_size_ <= v.allocated_size_ && bl::heap[I] == (v.self_allocated_ ? 1U : 0U);
}
#define GONE(I) CHECK(bl::nothing<I>() && bl::heap[I] != 1, "storage or elements are lost")
template <typename V> struct t {
  using sz = typename V::size_type;
  static void empty(V& v) { CHECK(v.el_ == nullptr && v.used_size_ == 0 && v.allocated_size_ == 0 && !v.self_allocated_, "the vector does not end up empty"); }
  static void fine(V& v, std::uint64_t n) {
    auto const p = adr(static_cast<T*>(v.el_));
    CHECK(bl::temps == 0, "a temporary element is lost");
    CHECK(v.used_size_ == n, "the vector does not have the expected number of elements");
    if (p == 0) { CHECK(n == 0 && v.allocated_size_ == 0 && !v.self_allocated_, "the vector does not describe its storage"); }
    else if (p < 2 * bl::W) CHECK(fine_in<0>(v, n), "the vector does not describe its elements");
    else { CHECK(fine_in<1>(v, n), "the vector does not describe its elements"); GONE(0); }
    REACH("done");
  }
  static void destroy(kind k, std::uint64_t n, std::uint64_t m) {
    bl::start(); auto& v = *make<V, 0>(k, n, m);
    v.~V();
    if (k == OWN) CHECK(bl::nothing<0>() && bl::heap[0] == 2, "storage or elements are lost");
    else CHECK(k == EMPTY || bl::holds<0>(n, S), "elements of an image are destroyed");
    REACH("done");
  }
  static void reserve(kind k, std::uint64_t n, std::uint64_t m, sz x) {
    bl::start(); auto& v = *make<V, 0>(k, n, m); bl::fresh_block = 1;
    v.reserve(x);
    fine(v, n * (k != EMPTY));
    CHECK(v.allocated_size_ >= x, "less is reserved than requested");
  }
  static void clear(kind k, std::uint64_t n, std::uint64_t m) { bl::start(); auto& v = *make<V, 0>(k, n, m); v.clear(); fine(v, 0); }
  static void pop(kind k, std::uint64_t n, std::uint64_t m) { bl::start(); auto& v = *make<V, 0>(k, n, m); MUST(n >= 1); v.pop_back(); fine(v, n - 1); }
  static void push(kind k, std::uint64_t n, std::uint64_t m) { bl::start(); auto& v = *make<V, 0>(k, n, m); bl::fresh_block = 1; { T e; v.push_back(e); } fine(v, n * (k != EMPTY) + 1); }
  static void push_move(kind k, std::uint64_t n, std::uint64_t m) { bl::start(); auto& v = *make<V, 0>(k, n, m); bl::fresh_block = 1; { T e; v.push_back(std::move(e)); } fine(v, n * (k != EMPTY) + 1); }
  static void emplace(kind k, std::uint64_t n, std::uint64_t m) { bl::start(); auto& v = *make<V, 0>(k, n, m); bl::fresh_block = 1; auto& r = v.emplace_back(7U); fine(v, n * (k != EMPTY) + 1); CHECK(&r == v.el_ + (v.used_size_ - 1U), "not the new element is returned"); }
  static void push_own(kind k, std::uint64_t n, std::uint64_t m, std::uint64_t i) { bl::start(); auto& v = *make<V, 0>(k, n, m); MUST(i < n); bl::fresh_block = 1; v.push_back(v[typename V::access_type{static_cast<sz>(i)}]); fine(v, n + 1); }
  static void emplace_own(kind k, std::uint64_t n, std::uint64_t m, std::uint64_t i) { bl::start(); auto& v = *make<V, 0>(k, n, m); MUST(i < n); bl::fresh_block = 1; v.emplace_back(v[typename V::access_type{static_cast<sz>(i)}]); fine(v, n + 1); }
  static void resize(kind k, std::uint64_t n, std::uint64_t m, sz x) {
    bl::start(); auto& v = *make<V, 0>(k, n, m); bl::fresh_block = 1;
    if (k != EMPTY && x < n) { bl::a[0] = bl::b[0] = bl::base[0] + x * S; }
    v.resize(x); fine(v, x);
  }
  static void resize_init(kind k, std::uint64_t n, std::uint64_t m, sz x) {
    bl::start(); auto& v = *make<V, 0>(k, n, m); bl::fresh_block = 1;
    if (k != EMPTY && x < n) { bl::a[0] = bl::b[0] = bl::base[0] + x * S; }
    { T e; v.resize(x, e); } fine(v, x);
  }

  // what lives in storage 0 makes room for something else
  static void upper(kind k) { if (k != EMPTY) bl::a[0] = bl::b[0] = bl::base[0]; }

  // ---- two vectors / ranges ----
  static void copy(kind k, std::uint64_t n, std::uint64_t m) {
    bl::start(); auto& o = *make<V, 3>(k, n, m); bl::fresh_block = 1;
    auto const v = static_cast<V*>(an_fresh()); MUST(adr(v) < bl::W / 4 && v != nullptr);
    new (v) V(o);
    source(o, k, n);
    fine(*v, n * (k != EMPTY));
  }
  static void source(V& o, kind k, std::uint64_t n) {
    if (k == EMPTY) empty(o); else CHECK(fine_in<3>(o, n) && o.used_size_ == n, "the source of a copy is changed");
  }
  static void assign(kind k, std::uint64_t n, std::uint64_t m, kind l, std::uint64_t p, std::uint64_t q) {
    bl::start(); auto& v = *make<V, 0>(k, n, m); auto& o = *make<V, 3>(l, p, q); MUST(&v != &o); bl::fresh_block = 1;
    upper(k);
    v = o;
    source(o, l, p);
    fine(v, p * (l != EMPTY));
  }
  static void assign_self(kind k, std::uint64_t n, std::uint64_t m) {
    bl::start(); auto& v = *make<V, 0>(k, n, m); auto const& r = v; v = r; fine(v, n * (k != EMPTY));
  }
  static void move(kind k, std::uint64_t n, std::uint64_t m) {
    bl::start(); auto& o = *make<V, 0>(k, n, m);
    auto const v = static_cast<V*>(an_fresh()); MUST(adr(v) < bl::W / 4 && v != nullptr);
    new (v) V(std::move(o));
    empty(o);
    fine(*v, n * (k != EMPTY));
    CHECK(k == EMPTY || v->allocated_size_ == m, "the capacity is not taken over");
  }
  static void move_assign(kind k, std::uint64_t n, std::uint64_t m, kind l, std::uint64_t p, std::uint64_t q) {
    bl::start(); auto& v = *make<V, 3>(k, n, m); auto& o = *make<V, 0>(l, p, q); MUST(&v != &o);
    v = std::move(o);
    empty(o);
    if (k == OWN) CHECK(bl::nothing<3>() && bl::heap[3] == 2, "storage or elements are lost");
    if (k == VIEW) CHECK(bl::holds<3>(n, S), "elements of an image are destroyed");
    fine(v, p * (l != EMPTY));
  }
  static void move_self(kind k, std::uint64_t n, std::uint64_t m) {
    bl::start(); auto& v = *make<V, 0>(k, n, m); auto& r = v; v = std::move(r);
    if (v.el_ == nullptr && k == OWN) GONE(0);
    fine(v, v.used_size_);
  }
  // a range of x living elements to insert
  static T* range(std::uint64_t x) {
    auto const m = static_cast<T*>(an_fresh());
    MUST(x < bl::W / 2 / S);
    bl::block<3>(adr(m), x * S, 0);
    bl::a[3] = bl::b[3] = bl::hi[3] = adr(m) + x * S;
    return m;
  }
  static void unchanged(std::uint64_t x) { CHECK(bl::holds<3>(x, S), "the source of a copy is changed"); }
  static void set(kind k, std::uint64_t n, std::uint64_t m, std::uint64_t x) {
    bl::start(); auto& v = *make<V, 0>(k, n, m); T const* const r = range(x); bl::fresh_block = 1;
    upper(k);
    v.set(r, r + x);
    unchanged(x); fine(v, x);
  }
  static void ctor_range(std::uint64_t x) {
    bl::start(); T const* const r = range(x); bl::fresh_block = 1;
    auto const v = static_cast<V*>(an_fresh()); MUST(adr(v) < bl::W / 4 && v != nullptr);
    new (v) V(r, r + x);
    unchanged(x); fine(*v, x);
  }
  static void ctor_size(sz x) {
    bl::start(); bl::fresh_block = 1;
    auto const v = static_cast<V*>(an_fresh()); MUST(adr(v) < bl::W / 4 && v != nullptr);
    new (v) V(x);
    fine(*v, x);
  }
  static void ctor_fill(sz x) {
    bl::start(); bl::fresh_block = 1;
    auto const v = static_cast<V*>(an_fresh()); MUST(adr(v) < bl::W / 4 && v != nullptr);
    { T const e; new (v) V(x, e); }
    fine(*v, x);
  }
  static void insert(kind k, std::uint64_t n, std::uint64_t m, std::uint64_t i) {
    bl::start(); auto& v = *make<V, 0>(k, n, m); MUST(i <= n * (k != EMPTY)); bl::fresh_block = 1;
    T* r; { T e; r = v.insert(v.begin() + i, e); }
    fine(v, n * (k != EMPTY) + 1);
    CHECK(r == v.begin() + i, "not the inserted element is returned");
  }
  static void insert_own(kind k, std::uint64_t n, std::uint64_t m, std::uint64_t i, std::uint64_t j) {
    bl::start(); auto& v = *make<V, 0>(k, n, m); MUST(i <= n && j < n); bl::fresh_block = 1;
    T const& e = v.begin()[j];
    auto const r = v.insert(v.begin() + i, e);
    fine(v, n + 1);
    CHECK(r == v.begin() + i, "not the inserted element is returned");
  }
  static void insert_count(kind k, std::uint64_t n, std::uint64_t m, std::uint64_t i, sz x) {
    bl::start(); auto& v = *make<V, 0>(k, n, m); MUST(i <= n * (k != EMPTY)); bl::fresh_block = 1;
    T* r; { T e; r = v.insert(v.begin() + i, x, e); }
    fine(v, n * (k != EMPTY) + x);
    CHECK(r == v.begin() + i, "not the inserted element is returned");
  }
  static void insert_count_own(kind k, std::uint64_t n, std::uint64_t m, std::uint64_t i, std::uint64_t j, sz x) {
    bl::start(); auto& v = *make<V, 0>(k, n, m); MUST(i <= n && j < n); bl::fresh_block = 1;
    T const& e = v.begin()[j];
    auto const r = v.insert(v.begin() + i, x, e);
    fine(v, n + x);
    CHECK(r == v.begin() + i, "not the inserted element is returned");
  }
  // x elements in front of the last y ones
  static void insert_range(kind k, sz z, std::uint64_t m, std::uint64_t y, std::uint64_t x) {
    std::uint64_t const n = z, i = k == EMPTY ? 0 : n - y;
    bl::start(); auto& v = *make<V, 0>(k, n, m); MUST(k == EMPTY || y <= n); T const* const s = range(x);
    // the elements behind the place make room for the new ones
    bl::fresh_block = 1;
    if (k != EMPTY) { bl::b[0] = bl::hi[0] = bl::base[0] + (n + x) * S; bl::fresh_split = (n + x) * S; }
    auto const r = v.insert(v.begin() + i, s, s + x);
    unchanged(x); fine(v, n * (k != EMPTY) + x);
    CHECK(r == v.begin() + i, "not the inserted element is returned");
  }
  static void erase(kind k, std::uint64_t n, std::uint64_t m, std::uint64_t i) {
    bl::start(); auto& v = *make<V, 0>(k, n, m); MUST(i < n);
    auto const r = v.erase(v.begin() + i);
    fine(v, n - 1);
    CHECK(r == v.begin() + i, "not the element behind the erased one is returned");
  }
  static void erase_range(kind k, std::uint64_t n, std::uint64_t m, std::uint64_t i, std::uint64_t j) {
    bl::start(); auto& v = *make<V, 0>(k, n, m); MUST(i <= j && j <= n);
    bl::a[0] = bl::b[0] = bl::base[0] + (n - (j - i)) * S;
    auto const r = v.erase(v.begin() + i, v.begin() + j);
    fine(v, n - (j - i));
    CHECK(r == v.begin() + i, "not the element behind the erased ones is returned");
  }
  static void compare(kind k, std::uint64_t n, std::uint64_t m, kind l, std::uint64_t p, std::uint64_t q) {
    bl::start(); auto& v = *make<V, 0>(k, n, m); auto& o = *make<V, 3>(l, p, q);
    auto const e = v == o;
    if (n * (k != EMPTY) != p * (l != EMPTY)) CHECK(!e && v != o, "vectors of different sizes compare equal");
    (void)(v < o); (void)(v > o); (void)(v <= o); (void)(v >= o);
    REACH("done");
  }
  static void access(kind k, std::uint64_t n, std::uint64_t m, std::uint64_t i) {
    bl::start(); auto& v = *make<V, 0>(k, n, m); auto const& w = v; MUST(i < n);
    auto const b = bl::base[0];
    auto const x = typename V::access_type{static_cast<sz>(i)};
    CHECK(adr(&v[x]) == b + i * S && adr(&w[x]) == b + i * S, "not the designated element is accessed");
    CHECK(adr(&v.front()) == b && adr(&w.front()) == b && adr(&v.back()) == b + (n - 1) * S && adr(&w.back()) == b + (n - 1) * S, "not the designated element is accessed");
    CHECK(adr(v.begin()) == b && adr(w.begin()) == b && adr(v.data()) == b && adr(w.data()) == b && adr(w.cbegin()) == b, "the range of elements is wrong");
    CHECK(adr(v.end()) == b + n * S && adr(w.end()) == b + n * S && adr(w.cend()) == b + n * S, "the range of elements is wrong");
    CHECK(v.size() == n && !v.empty(), "the number of elements is wrong");
    CHECK(v.contains(v.begin() + i) && !v.contains(v.end()) && v.index_of(v.begin() + i) == i, "an element is not found");
    REACH("done");
  }
  static void at(kind k, std::uint64_t n, std::uint64_t m, sz i) {  // must throw
    bl::start(); auto& v = *make<V, 0>(k, n, m); MUST(k == EMPTY || i >= n);
    REACH("done");
    (void)v.at(typename V::access_type{i});
    CHECK(false, "an invalid index is accepted");
  }
};
