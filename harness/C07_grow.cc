// C07: growing and rehashing hash tables, erasing and inserting
#include "hs.h"
namespace hs { static std::uint64_t watching; }
using namespace hs;
constexpr std::uint64_t growth(std::uint64_t n) { return n == 7 ? 6 : n - n / 8; }
static table<c::raw::ptr>* raw_subject;
static table<c::offset::ptr>* off_subject;
static std::uint64_t size0, growth0, no_memory;
// growing fails: the table is what it was
template <typename T> static inline void unchanged(T& t) {
  if (base[0] == 0) empty(t); else { describes<0>(t, size0, growth0); agrees<0>(); }
}
extern "C" void model___cxa_throw(void*, void*, void (*)(void*)) {
  if (no_memory) {
    if (raw_subject) unchanged(*raw_subject);
    if (off_subject) unchanged(*off_subject);
  }
  an_stop();
}
static inline void subject(table<c::raw::ptr>* t) { raw_subject = t; off_subject = nullptr; }
static inline void subject(table<c::offset::ptr>* t) { off_subject = t; raw_subject = nullptr; }
template <typename T, std::uint64_t NEW> struct t {
  static void fails(kind k, std::uint64_t n, std::uint64_t x, bool full, std::uint64_t z, std::uint64_t g) {
    start(); auto& v = *make<T, 0>(k, n, x, full, z, g); subject(&v); size0 = z; growth0 = g; no_memory = 1;
    fresh = 1; new_cap = NEW; mon[1] = 0;
    REACH("done");
    v.resize(NEW);
  }
  // an element is inserted without growing, which element and where is arbitrary
  static void emplace(kind k, std::uint64_t x, bool full, std::uint64_t z, std::uint64_t g, int how) {
    MUST(g >= 1);
    start(); auto& v = *make<T, 0>(k, NEW, x, full, z, g); calls = 1; no_memory = 0;
    if (how == 0) {
      auto const r = v.emplace(an_any_u64());
      CHECK(r.second || (alive[0] == full && v.size_ == z), "inserting a key that exists changes the table");
      CHECK(!r.second || v.size_ == z + 1, "the number of elements is wrong");
    } else {
      el key;
      if (how == 1) v[key]; else v.insert(key);
    }
    CHECK(v.size_ == z || v.size_ == z + 1, "the number of elements is wrong");
    CHECK(v.growth_left_ == g || (v.growth_left_ == g - 1 && v.size_ == z + 1), "the number of free slots is wrong");
    agrees<0>();
    CHECK(!full || alive[0], "an element is lost");
    CHECK(temps == 0, "a temporary element is lost");
    REACH("done");
  }
  static void erase(kind k, std::uint64_t x, bool full, std::uint64_t z, std::uint64_t g, std::uint64_t j) {
    start(); auto& v = *make<T, 0>(k, NEW, x, full, z, g); calls = 1; no_memory = 0;
    MUST(z >= 1 && j < NEW && (j != x || full));
    v.erase(v.iterator_at(j));
    CHECK(v.size_ == z - 1, "the number of elements is wrong");
    CHECK(v.growth_left_ == g || v.growth_left_ == g + 1, "the number of free slots is wrong");
    agrees<0>();
    CHECK(alive[0] == (full && j != x), "an element is lost or not erased");
    REACH("done");
  }
  static void resize(kind k, std::uint64_t n, std::uint64_t x, bool full, std::uint64_t z, std::uint64_t g, std::uint64_t y, unsigned follow) {
    start(); no_memory = 0; mon[1 - follow] = 0; auto& v = *make<T, 0>(k, n, x, full, z, g);
    MUST(y < NEW && z <= growth(NEW)); fresh = 1; new_cap = NEW; new_k = y;
    v.resize(NEW);
    REACH("done");
    describes<1>(v, k == EMPTY ? 0 : z, growth(NEW) - (k == EMPTY ? 0 : z)); if (follow == 1) agrees<1>();
    if (k == OWN) GONE(0); else CHECK(heap[0] == 0, "storage is freed that is not owned");
    CHECK(follow == 1 || died_k[0] == (full && k != EMPTY), "an element is lost when the table grows");
    CHECK(temps == 0, "a temporary element is lost");
  }
};
#define A1 std::uint64_t n, std::uint64_t x, std::uint64_t z, std::uint64_t g
#define OPS(P, NEW, T) \
  OB ob_##P##_resize_##NEW##_empty(std::uint64_t y) { t<T, NEW>::resize(EMPTY, 0, 0, false, 0, 0, y, 1); } \
  OB ob_##P##_resize_##NEW##_own_full(A1) { t<T, NEW>::resize(OWN, n, x, true, z, g, 0, 0); } \
  OB ob_##P##_resize_##NEW##_own_free(A1) { t<T, NEW>::resize(OWN, n, x, false, z, g, 0, 0); } \
  OB ob_##P##_resize_##NEW##_own_new(A1, std::uint64_t y) { t<T, NEW>::resize(OWN, n, x, false, z, g, y, 1); } \
  OB ob_##P##_resize_##NEW##_view_full(A1) { t<T, NEW>::resize(VIEW, n, x, true, z, g, 0, 0); } \
  OB ob_##P##_resize_##NEW##_view_new(A1, std::uint64_t y) { t<T, NEW>::resize(VIEW, n, x, false, z, g, y, 1); } \
  OB ob_##P##_fails_##NEW##_empty() { t<T, NEW>::fails(EMPTY, 0, 0, false, 0, 0); } \
  OB ob_##P##_fails_##NEW##_own_full(A1) { t<T, NEW>::fails(OWN, n, x, true, z, g); } \
  OB ob_##P##_fails_##NEW##_own_free(A1) { t<T, NEW>::fails(OWN, n, x, false, z, g); } \
  OB ob_##P##_fails_##NEW##_view_full(A1) { t<T, NEW>::fails(VIEW, n, x, true, z, g); } \
  OB ob_##P##_erase_##NEW##_full(A1, std::uint64_t y) { t<T, NEW>::erase(OWN, x, true, z, g, y); } \
  OB ob_##P##_erase_##NEW##_free(A1, std::uint64_t y) { t<T, NEW>::erase(VIEW, x, false, z, g, y); } \
  OB ob_##P##_emplace_##NEW##_full(A1) { t<T, NEW>::emplace(OWN, x, true, z, g, 0); } \
  OB ob_##P##_emplace_##NEW##_free(A1) { t<T, NEW>::emplace(OWN, x, false, z, g, 0); } \
  OB ob_##P##_bracket_##NEW##_full(A1) { t<T, NEW>::emplace(OWN, x, true, z, g, 1); } \
  OB ob_##P##_bracket_##NEW##_free(A1) { t<T, NEW>::emplace(VIEW, x, false, z, g, 1); } \
  OB ob_##P##_insert_##NEW##_full(A1) { t<T, NEW>::emplace(VIEW, x, true, z, g, 2); } \
  OB ob_##P##_insert_##NEW##_free(A1) { t<T, NEW>::emplace(OWN, x, false, z, g, 2); }
OPS(raw, 7, table<c::raw::ptr>)
OPS(raw, 1023, table<c::raw::ptr>)
