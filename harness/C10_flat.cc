// C10: matrices, maps of entries and nested vectors with a fixed number of levels
// FLAGS: -fstrict-aliasing
// ENGINE: -unroll-threshold=20000 -inline-threshold=20000 -disable-loop-idiom-memcpy -disable-loop-idiom-memset
#include "nest.h"
#include "cista/containers/flat_matrix.h"
#include "cista/containers/fws_multimap.h"
#include "cista/containers/nvec.h"
using namespace nest;
// ---- matrices
template <typename T, unsigned C> struct matrix {
  using M = c::base_flat_matrix<dvec<T>>;
  static inline U setup(M& m) { start(); auto const r = some(MAX / (C ? C : 1)); m.n_rows_ = static_cast<std::uint32_t>(r); m.n_columns_ = C; place(m.entries_, r * C); return r; }
  static void read() {
    M m; auto const r = setup(m); auto const& cm = m; auto const d = m.entries_.el_;
    MUST(r != 0); auto const i = static_cast<std::uint32_t>(some(r - 1));
    auto row = m[i]; auto const& crow = row; auto const fixed = cm[i]; auto at = m.at(i); auto const fixed_at = cm.at(i);
    CHECK(row.begin() == d + C * U{i} && row.end() == row.begin() + C && begin(row) == row.begin() && end(row) == row.end(), "a row of a matrix starts or ends at the wrong element");
    CHECK(crow.begin() == d + C * U{i} && crow.end() == crow.begin() + C && begin(crow) == crow.begin() && end(crow) == crow.end(), "a row of a matrix starts or ends at the wrong element");
    CHECK(fixed.begin() == d + C * U{i} && fixed.end() == fixed.begin() + C && begin(fixed) == fixed.begin() && end(fixed) == fixed.end(), "a row of a matrix starts or ends at the wrong element");
    CHECK(at.begin() == row.begin() && at.end() == row.end() && fixed_at.begin() == row.begin() && fixed_at.end() == row.end(), "a row of a matrix starts or ends at the wrong element");
    for (std::uint32_t j = 0; j != C; ++j) CHECK(&row[j] == d + C * U{i} + j && &fixed[j] == d + C * U{i} + j && &at[j] == d + C * U{i} + j && &m(i, j) == d + C * U{i} + j, "a matrix yields a wrong element");
    REACH("done");
  }
  static void outside() {
    M m; setup(m); auto const i = static_cast<std::uint32_t>(an_any_u64()); MUST(i >= m.n_rows_); REACH("arrives");
    if (an_any_u64() & 1) m.at(i); else std::as_const(m).at(i);
    CHECK(false, "a row that a matrix does not have is accepted");
  }
  static void resize() {
    M m; setup(m); auto const r = static_cast<std::uint32_t>(some(MAX / (C ? C : 1))); m.resize(r, C);
    CHECK(m.n_rows_ == r && m.n_columns_ == C && m.entries_.size() == C * r, "a resized matrix has the wrong size"); REACH("done");
  }
};
static void fill() {
  c::base_flat_matrix<dvec<U>> m; U mem[6]; at_mem(m.entries_, mem, 6); m.n_rows_ = 2; m.n_columns_ = 3;
  auto const x = an_any_u64(); m.reset(x);
  for (unsigned i = 0; i != 2; ++i) for (unsigned j = 0; j != 3; ++j) CHECK(m[i][j] == x && m(i, j) == x, "an element of a reset matrix has another value");
  m[1][2] = ~x; m(0, 1) = ~x;
  for (unsigned i = 0; i != 2; ++i) for (unsigned j = 0; j != 3; ++j) CHECK(m[i][j] == ((i == 1 && j == 2) || (i == 0 && j == 1) ? ~x : x), "elements of a matrix overlap");
  REACH("done");
}
OB ob_accept_matrix3() { matrix<std::uint32_t, 3>::read(); }
OB ob_accept_matrix1() { matrix<U, 1>::read(); }
OB ob_accept_matrix0() { matrix<U, 0>::read(); }
OB ob_accept_matrix5() { matrix<unsigned char, 5>::read(); }
OB ob_matrix_outside() { matrix<U, 3>::outside(); }
OB ob_matrix_outside1() { matrix<U, 1>::outside(); }
OB ob_matrix_outside0() { matrix<U, 0>::outside(); }
OB ob_accept_matrix_resize() { matrix<U, 3>::resize(); }
OB ob_accept_matrix_resize0() { matrix<U, 0>::resize(); }
OB ob_accept_matrix_fill() { fill(); }
// ---- maps
template <typename T, typename K> struct map {
  using M = c::fws_multimap<dvec<T>, c::raw::vector<K>>;
  static void read() {
    start(); M m; K mem[ROOM]; U s[5]; U sum = 0;
    for (unsigned i = 0; i != 5; ++i) { s[i] = sum; mem[i] = static_cast<K>(sum); if (i != 4) sum += some(MAX / 4); }
    place(m.data_, s[4]); index(m.index_, mem, 5); m.complete_ = true; auto const d = m.data_.el_;
    CHECK(m.index_size() == 5 && m.data_size() == s[4] && m.finished(), "the size of a map is wrong");
    for (unsigned k = 0; k != 4; ++k) {
      auto const e = m[static_cast<K>(k)]; auto const n = s[k + 1] - s[k];
      CHECK(e.size() == n, "an entry of a map has the wrong size");
      if (n == 0) CHECK(e.empty(), "an entry of a map has the wrong size"); else CHECK(!e.empty(), "an entry of a map has the wrong size");
      CHECK(e.begin() == d + s[k] && e.end() == d + s[k + 1] && e.cbegin() == d + s[k] && e.cend() == d + s[k + 1] && begin(e) == d + s[k] && end(e) == d + s[k + 1], "an entry of a map starts or ends at the wrong element");
      if (n != 0) { auto const i = static_cast<K>(some(n - 1)); CHECK(&e[i] == d + s[k] + i && e.data_index(i) == s[k] + i, "an entry of a map yields a wrong element"); }
    }
    auto const b = m.begin(), e = m.end();
    CHECK(b.index_ == 0 && e.index_ == 4 && &b.map_ == &m && &e.map_ == &m && begin(m) == b && end(m) == e && m.cbegin() == b && m.cend() == e, "iterating over a map misses entries");
    CHECK(e - b == 4 && b - e == -4 && b + 4 == e && e - 4 == b && b != e, "iterators of a map are not counted right");
    auto const k = static_cast<int>(some(3)), l = static_cast<int>(some(4)); auto x = b; x += k; auto const y = b + l;
    CHECK(x.index_ == static_cast<U>(k) && x - b == k && e - (4 - k) == x, "an iterator of a map steps wrongly");
    CHECK((x == y) == (k == l) && (x != y) == (k != l) && (x < y) == (k < l) && (x > y) == (k > l) && (x <= y) == (k <= l) && (x >= y) == (k >= l), "iterators of a map compare wrongly");
    ++x; CHECK(x.index_ == static_cast<U>(k) + 1, "an iterator of a map steps wrongly"); --x; CHECK(x.index_ == static_cast<U>(k), "an iterator of a map steps wrongly"); x -= k; CHECK(x == b, "an iterator of a map steps wrongly");
    REACH("done");
  }
  template <unsigned J> static void deref() {
    start(); M m; K mem[ROOM]; U s[5]; U sum = 0;
    for (unsigned i = 0; i != 5; ++i) { s[i] = sum; mem[i] = static_cast<K>(sum); if (i != 4) sum += some(MAX / 4); }
    place(m.data_, s[4]); index(m.index_, mem, 5); m.complete_ = true; auto const d = m.data_.el_;
    auto it = m.begin(); it += J; auto const e = *it;
    CHECK(e.begin() == d + s[J] && e.end() == d + s[J + 1], "iterating over a map yields another entry"); REACH("done");
  }
  // filling: the elements given between two ends of keys are those of the key
  static void fill() {
    start(); M m; K mem[ROOM]; place(m.data_, 0); index(m.index_, mem, 0); U s[4] = {};
    for (unsigned k = 0; k != 3; ++k) {
      CHECK(m.current_key() == k, "a map counts its keys wrongly");
      auto const n = some(MAX / 4); m.data_.used_size_ += static_cast<std::uint32_t>(n); s[k + 1] = s[k] + n; m.finish_key();
    }
    m.finish_map(); CHECK(m.index_size() == 4 && m.finished(), "a finished map has the wrong number of keys");
    for (unsigned k = 0; k != 4; ++k) CHECK(mem[k] == s[k], "the elements of a map belong to another key");
    REACH("done");
  }
  static void push() {
    start(); M m; K mem[ROOM]; auto const n = some(MAX); place(m.data_, n); index(m.index_, mem, 0); T const x = static_cast<T>(an_any_u64());
    auto const d = m.data_.el_; m.push_back(x); CHECK(m.data_size() == n + 1 && d[n] == x && m.data_.el_ == d, "a map adds another element");
    auto const y = static_cast<T>(an_any_u64()); m.emplace_back(y); CHECK(m.data_size() == n + 2 && d[n + 1] == y && m.data_.el_ == d, "a map adds another element");
    CHECK(m.index_size() == 0 && m.current_start_ == 0 && !m.finished(), "adding an element ends a key"); REACH("done");
  }
};
#define MAP(N, ...)                                               \
  OB ob_accept_map_##N##_read() { map<__VA_ARGS__>::read(); }     \
  OB ob_accept_map_##N##_deref0() { map<__VA_ARGS__>::deref<0>(); } \
  OB ob_accept_map_##N##_deref3() { map<__VA_ARGS__>::deref<3>(); } \
  OB ob_accept_map_##N##_fill() { map<__VA_ARGS__>::fill(); }     \
  OB ob_accept_map_##N##_push() { map<__VA_ARGS__>::push(); }
MAP(u32, std::uint32_t, std::uint32_t)
MAP(u64, unsigned char, std::uint64_t)
MAP(u16, std::uint64_t, std::uint32_t)
// ---- nested vectors: three levels
using I = c::raw::vector<std::uint32_t>;
using D = dvec<U>;
using N3 = c::basic_nvec<std::uint32_t, D, I, 3>;
using N2 = c::basic_nvec<std::uint32_t, D, I, 2>;
// entries with 2, 0 and 3 children, these with 1, 0, 2, 0 and 1 buckets
struct n3 {
  N3 v; std::uint32_t top[ROOM] = {0, 2, 2, 5}, mid[ROOM] = {0, 1, 1, 3, 3, 4}, low[ROOM]; U s[5];
  __attribute__((always_inline)) n3() {
    start(); U sum = some(MAX); for (unsigned i = 0; i != 5; ++i) { s[i] = sum; low[i] = static_cast<std::uint32_t>(sum); if (i != 4) sum += some(MAX / 4); }
    place(v.data_, s[4]); index(v.index_[2], top, 4); index(v.index_[1], mid, 6); index(v.index_[0], low, 5);
  }
};
template <typename B> static inline void leaf(B&& b, U const* s, unsigned k, U* d) {
  CHECK(b.size() == s[k + 1] - s[k], "a bucket has the wrong size");
  CHECK(b.begin() == d + s[k] && b.end() == d + s[k + 1] && begin(b) == b.begin() && end(b) == b.end(), "a bucket starts or ends at the wrong element");
  if (s[k] == s[k + 1]) { CHECK(b.empty(), "a bucket has the wrong size"); return; }
  CHECK(!b.empty(), "a bucket has the wrong size");
  auto const i = some(s[k + 1] - s[k] - 1);
  CHECK(&b[i] == d + s[k] + i && &b.at(i) == d + s[k] + i && &b.front() == d + s[k] && &b.back() == d + s[k + 1] - 1, "a bucket yields a wrong element");
}
template <unsigned A, unsigned B, unsigned C, unsigned K, typename V> static inline void path(V& v, U const* s, U* d) {
  leaf(v[A][B][C], s, K, d); leaf(v.at(A, B, C), s, K, d);
  CHECK(v.size(A, B, C) == s[K + 1] - s[K], "the size of a bucket is wrong");
}
template <typename V> static inline void shape(V& v) {
  CHECK(v.size() == 3 && v.end().i_ - v.begin().i_ == 3, "a nested vector has the wrong number of entries");
  constexpr unsigned n[] = {2, 0, 3}, at[] = {0, 2, 2}, k[] = {1, 0, 2, 0, 1};
  for (unsigned i = 0; i != 3; ++i) {
    auto e = v[i]; CHECK(e.size() == n[i] && v.size(i) == n[i], "an entry of a nested vector has the wrong size");
    for (unsigned j = 0; j != n[i]; ++j) CHECK(e[j].size() == k[at[i] + j] && v.size(i, j) == k[at[i] + j], "an entry of a nested vector has the wrong size");
  }
  unsigned x = 0; for (auto e : v) { unsigned y = 0; for (auto f : e) { unsigned z = 0; for (auto g : f) { ++z; (void)g; } CHECK(z == k[at[x] + y], "iterating over a nested vector misses entries"); ++y; } CHECK(y == n[x], "iterating over a nested vector misses entries"); ++x; }
  CHECK(x == 3, "iterating over a nested vector misses entries");
  CHECK(v.front().i_ == 0 && v.back().i_ == 2, "the first or last entry is wrong");
  auto a = v.begin(); ++a; CHECK(a.i_ == 1, "an iterator of a nested vector steps wrongly"); a += 1; CHECK(a.i_ == 2 && a == v.begin() + 2 && a != v.begin() + 1, "an iterator of a nested vector steps wrongly");
  --a; CHECK(a.i_ == 1, "an iterator of a nested vector steps wrongly"); a -= 1; CHECK(a == v.begin() && v.end() - 3 == a, "an iterator of a nested vector steps wrongly");
  auto b = v[2][0].begin(), e = v[2][0].end(); CHECK(e - b == 2 && b - e == -2 && b + 2 == e && e - 2 == b && b != e, "iterators of a nested vector are not counted right");
  ++b; CHECK(e - b == 1, "an iterator of a nested vector steps wrongly"); b += 1; CHECK(b == e, "an iterator of a nested vector steps wrongly"); --b; b -= 1; CHECK(e - b == 2, "an iterator of a nested vector steps wrongly");
}
OB ob_accept_nvec_shape() { n3 m; shape(m.v); REACH("done"); }
OB ob_accept_nvec_const_shape() { n3 m; shape(std::as_const(m.v)); REACH("done"); }
#define PATH(A, B, C, K)                                                                                                       \
  OB ob_accept_nvec_##A##B##C() { n3 m; path<A, B, C, K>(m.v, m.s, m.v.data_.el_); REACH("done"); }                           \
  OB ob_accept_nvec_const_##A##B##C() { n3 m; path<A, B, C, K>(std::as_const(m.v), m.s, m.v.data_.el_); REACH("done"); }
PATH(0, 0, 0, 0) PATH(2, 0, 0, 1) PATH(2, 0, 1, 2) PATH(2, 2, 0, 3)
OB ob_nvec_outside() {
  n3 m; auto const i = static_cast<std::uint32_t>(an_any_u64()); MUST(i >= 3); REACH("arrives");
  auto const w = an_any_u64() % 5; if (w == 0) m.v.at(i, 0U, 0U); else if (w == 1) std::as_const(m.v).at(i, 0U, 0U); else if (w == 2) (void)m.v.size(i); else if (w == 3) (void)m.v.size(i, 0U); else (void)m.v.size(i, 0U, 0U);
  CHECK(false, "an entry that a nested vector does not have is accepted");
}
OB ob_nvec_bucket_outside() {
  n3 m; auto b = m.v[2][0][1]; auto const i = an_any_u64(); MUST(i >= m.s[3] - m.s[2]); REACH("arrives");
  if (an_any_u64() & 1) b.at(i); else std::as_const(m.v)[2][0][1].at(i);
  CHECK(false, "an element that a bucket does not have is accepted");
}
template <typename T, unsigned N> struct list { T a[N ? N : 1]; T* begin() { return a; } T* end() { return a + N; } T const* begin() const { return a; } T const* end() const { return a + N; } std::size_t size() const { return N; } };
// two entries are added to an empty vector of two levels: one with two buckets, one with one
OB ob_accept_nvec_add2() {
  N2 v; start(); std::uint32_t top[ROOM], low[ROOM]; place(v.data_, 0); index(v.index_[1], top, 0); index(v.index_[0], low, 0);
  CHECK(v.size() == 0, "an empty nested vector is not empty");
  U const x = some(MAX), y = some(MAX), z = some(MAX);
  list<range<U>, 2> a{{any_range<U>(x), any_range<U>(y)}}; list<range<U>, 1> b{{any_range<U>(z)}};
  v.emplace_back(a); CHECK(v.size() == 1 && ops <= 2 && (y == 0 || (at == x && n == y && from == adr(a.a[1].a))), "the elements of a new entry are not appended");
  v.emplace_back(b); CHECK(v.size() == 2 && (z == 0 || (at == x + y && n == z && from == adr(b.a[0].a))), "the elements of a new entry are not appended");
  CHECK(top[0] == 0 && top[1] == 2 && top[2] == 3 && low[0] == 0 && low[1] == x && low[2] == x + y && low[3] == x + y + z, "a new entry of a nested vector has wrong borders");
  CHECK(v.data_.size() == x + y + z && v.index_[0].size() == 4 && v.index_[1].size() == 3, "a new entry of a nested vector has wrong borders");
  REACH("done");
}
OB ob_accept_nvec_add3() {
  N3 v; start(); std::uint32_t top[ROOM], mid[ROOM], low[ROOM]; place(v.data_, 0); index(v.index_[2], top, 0); index(v.index_[1], mid, 0); index(v.index_[0], low, 0);
  U const x = some(MAX), y = some(MAX), z = some(MAX);
  list<list<range<U>, 2>, 1> a{{{{any_range<U>(x), any_range<U>(y)}}}}; list<list<range<U>, 0>, 2> e{}; list<list<range<U>, 1>, 1> b{{{{any_range<U>(z)}}}};
  v.emplace_back(a); v.emplace_back(e); v.emplace_back(b);
  CHECK(v.size() == 3 && top[0] == 0 && top[1] == 1 && top[2] == 3 && top[3] == 4, "a new entry of a nested vector has wrong borders");
  CHECK(v.index_[1].size() == 5 && mid[0] == 0 && mid[1] == 2 && mid[2] == 2 && mid[3] == 2 && mid[4] == 3, "a new entry of a nested vector has wrong borders");
  CHECK(v.index_[0].size() == 4 && low[0] == 0 && low[1] == x && low[2] == x + y && low[3] == x + y + z && v.data_.size() == x + y + z, "a new entry of a nested vector has wrong borders");
  REACH("done");
}
