// C07: hash tables own their storage and elements
#include "hs.h"
using namespace hs;
template <typename T> struct t {
  static void destroy(kind k, std::uint64_t n, std::uint64_t x, bool full, std::uint64_t z, std::uint64_t g) {
    start(); auto& v = *make<T, 0>(k, n, x, full, z, g);
    v.~T();
    if (k == OWN) GONE(0); else CHECK(heap[0] == 0, "storage is freed that is not owned");
    CHECK(temps == 0, "a temporary element is lost");
    REACH("done");
  }
  static void clear(kind k, std::uint64_t n, std::uint64_t x, bool full, std::uint64_t z, std::uint64_t g) {
    start(); auto& v = *make<T, 0>(k, n, x, full, z, g);
    v.clear();
    if (k == OWN) GONE(0);
    empty(v);
    REACH("done");
  }
  static void move(kind k, std::uint64_t n, std::uint64_t x, bool full, std::uint64_t z, std::uint64_t g) {
    start(); auto& o = *make<T, 0>(k, n, x, full, z, g);
    auto const v = static_cast<T*>(an_fresh()); MUST(adr(v) < W / 4 && v != nullptr);
    new (v) T(std::move(o));
    empty(o); CHECK(!o.self_allocated_, "the source of a move still owns storage");
    if (k == EMPTY) empty(*v); else { describes<0>(*v, z, g); agrees<0>(); }
    CHECK(alive[0] == (full && k != EMPTY), "elements are changed by a move");
    REACH("done");
  }
  static void move_assign(kind k, std::uint64_t n, std::uint64_t x, bool full, std::uint64_t z, std::uint64_t g, kind l, std::uint64_t m, std::uint64_t y, bool ofull, std::uint64_t w, std::uint64_t h) {
    start(); auto& v = *make<T, 0>(k, n, x, full, z, g); auto& o = *make<T, 2>(l, m, y, ofull, w, h); MUST(&v != &o);
    v = std::move(o);
    if (k != OWN) CHECK(heap[0] == 0, "storage is freed that is not owned");
    empty(o); CHECK(!o.self_allocated_, "the source of a move still owns storage");
    if (l == EMPTY) empty(v); else { describes<2>(v, w, h); agrees<2>(); }
    CHECK(alive[2] == (ofull && l != EMPTY), "elements are changed by a move");
    REACH("done");
  }
  // what a table held before another is moved into it
  static void replaced(std::uint64_t n, std::uint64_t x, std::uint64_t z, std::uint64_t g, std::uint64_t m, std::uint64_t y, std::uint64_t w, std::uint64_t h) {
    start(); auto& v = *make<T, 0>(OWN, n, x, true, z, g); auto& o = *make<T, 2>(OWN, m, y, true, w, h); MUST(&v != &o);
    v = std::move(o);
    REACH("done");
    CHECK(!alive[0] && heap[0] != 1, "a table loses its entries and storage when another is moved into it");
  }
  static void self(kind k, std::uint64_t n, std::uint64_t x, bool full, std::uint64_t z, std::uint64_t g, bool mv) {
    start(); auto& v = *make<T, 0>(k, n, x, full, z, g); auto& r = v;
    if (mv) v = std::move(r); else v = static_cast<T const&>(r);
    if (k == EMPTY) empty(v); else { describes<0>(v, z, g); agrees<0>(); }
    CHECK(alive[0] == (full && k != EMPTY), "elements are changed by a self assignment");
    REACH("done");
  }
};
#define A1 std::uint64_t n, std::uint64_t x, std::uint64_t z, std::uint64_t g
#define OPS(P, F, ...) \
  OB ob_##P##_##F##_empty() { t<__VA_ARGS__>::F(EMPTY, 0, 0, false, 0, 0); } \
  OB ob_##P##_##F##_own_full(A1) { t<__VA_ARGS__>::F(OWN, n, x, true, z, g); } \
  OB ob_##P##_##F##_own_free(A1) { t<__VA_ARGS__>::F(OWN, n, x, false, z, g); } \
  OB ob_##P##_##F##_view_full(A1) { t<__VA_ARGS__>::F(VIEW, n, x, true, z, g); } \
  OB ob_##P##_##F##_view_free(A1) { t<__VA_ARGS__>::F(VIEW, n, x, false, z, g); }
#define A2 std::uint64_t m, std::uint64_t y, std::uint64_t w, std::uint64_t h
#define MV(P, a, b, ka, kb, ...) OB ob_##P##_assign_##a##_##b(A1, A2) { t<__VA_ARGS__>::move_assign(ka, n, x, true, z, g, kb, m, y, true, w, h); } \
  OB ob_##P##_assign0_##a##_##b(A1, A2) { t<__VA_ARGS__>::move_assign(ka, n, x, false, z, g, kb, m, y, false, w, h); }
#define ALL(P, ...) \
  OPS(P, destroy, __VA_ARGS__) OPS(P, clear, __VA_ARGS__) OPS(P, move, __VA_ARGS__) \
  OB ob_##P##_replaced(A1, A2) { t<__VA_ARGS__>::replaced(n, x, z, g, m, y, w, h); } \
  MV(P, e, e, EMPTY, EMPTY, __VA_ARGS__) MV(P, e, o, EMPTY, OWN, __VA_ARGS__) MV(P, e, v, EMPTY, VIEW, __VA_ARGS__) \
  MV(P, o, e, OWN, EMPTY, __VA_ARGS__) MV(P, o, o, OWN, OWN, __VA_ARGS__) MV(P, o, v, OWN, VIEW, __VA_ARGS__) \
  MV(P, v, e, VIEW, EMPTY, __VA_ARGS__) MV(P, v, o, VIEW, OWN, __VA_ARGS__) MV(P, v, v, VIEW, VIEW, __VA_ARGS__) \
  OB ob_##P##_self_move_own(A1) { t<__VA_ARGS__>::self(OWN, n, x, true, z, g, true); } \
  OB ob_##P##_self_move_view(A1) { t<__VA_ARGS__>::self(VIEW, n, x, true, z, g, true); } \
  OB ob_##P##_self_copy_own(A1) { t<__VA_ARGS__>::self(OWN, n, x, true, z, g, false); } \
  OB ob_##P##_self_copy_view(A1) { t<__VA_ARGS__>::self(VIEW, n, x, true, z, g, false); } \
  OB ob_##P##_self_copy_empty() { t<__VA_ARGS__>::self(EMPTY, 0, 0, false, 0, 0, false); }
ALL(raw, table<c::raw::ptr>)
ALL(off, table<c::offset::ptr>)
