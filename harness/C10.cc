// C10: vectors of vectors: a bucket names exactly its elements
// FLAGS: -fstrict-aliasing
// ENGINE: -unroll-threshold=20000 -inline-threshold=20000 -disable-loop-idiom-memcpy -disable-loop-idiom-memset
#include "nest.h"
#include "cista/containers/vecvec.h"
using namespace nest;
template <typename Key, typename S, typename T> struct t {
  using D = dvec<T>;
  using V = c::basic_vecvec<Key, D, c::raw::vector<S>>;
  static inline Key key(U i) { return Key{static_cast<c::base_t<Key>>(i)}; }
  // B buckets
  template <unsigned B> struct made {
    V v; S mem[ROOM]; U s[B + 1];
    made() __attribute__((always_inline)) {
      start();
      U sum = some(MAX); for (unsigned i = 0; i <= B; ++i) { s[i] = sum; mem[i] = static_cast<S>(sum); if (i != B) sum += some(MAX / B); }
      place(v.data_, s[B]); index(v.bucket_starts_, mem, B + 1);
    }
    T* data() const { return v.data_.el_; }
    // its buckets are those of the numbers
    template <unsigned M> inline void is(U const (&e)[M]) const {
      CHECK(v.size() == M - 1 && v.bucket_starts_.size() == M, "a change of a vecvec leaves the wrong number of buckets");
      for (unsigned i = 0; i != M; ++i) CHECK(v.bucket_starts_.el_[i] == e[i], "a change of a vecvec leaves a wrong border of a bucket");
    }
  };
  template <unsigned B, unsigned J, typename Vec> static inline void bucket(Vec& v, U const (&s)[B + 1], T* d) {
    auto b = v[key(J)]; auto const& cb = b; auto const n = s[J + 1] - s[J];
    CHECK(b.size() == n && size(b) == n && b.empty() == (n == 0), "a bucket has the wrong size");
    CHECK(b.begin() == d + s[J] && b.end() == d + s[J + 1], "a bucket starts or ends at the wrong element");
    CHECK(cb.begin() == d + s[J] && cb.end() == d + s[J + 1], "a bucket starts or ends at the wrong element");
    CHECK(begin(b) == d + s[J] && end(b) == d + s[J + 1] && begin(cb) == d + s[J] && end(cb) == d + s[J + 1], "a bucket starts or ends at the wrong element");
    if (n == 0) return;
    auto const i = some(n - 1);
    CHECK(&b[i] == d + s[J] + i && &cb[i] == d + s[J] + i, "a bucket yields a wrong element");
    CHECK(&b.at(i) == d + s[J] + i && &cb.at(i) == d + s[J] + i, "a bucket yields a wrong element");
    CHECK(&b.front() == d + s[J] && &b.back() == d + s[J + 1] - 1 && &cb.front() == d + s[J] && &cb.back() == d + s[J + 1] - 1, "the first or last element of a bucket is wrong");
    CHECK(data(b) == d + s[J] && cb.data() == d + s[J], "a bucket yields a wrong element");
    REACH("elements");
  }
  template <unsigned J> static void read() { made<4> m; bucket<4, J>(m.v, m.s, m.data()); bucket<4, J>(std::as_const(m.v), m.s, m.data()); }
  template <unsigned J> static void outside() {
    made<4> m; auto b = m.v[key(J)]; auto const i = an_any_u64(); MUST(i >= m.s[J + 1] - m.s[J]); REACH("arrives");
    if (an_any_u64() & 1) b.at(i); else if (an_any_u64() & 1) std::as_const(b).at(i); else std::as_const(m.v)[key(J)].at(i);
    CHECK(false, "an element that a bucket does not have is accepted");
  }
  static void at() {
    made<4> m; auto const i = some(3); auto const j = m.v.at(key(i)); auto const k = std::as_const(m.v).at(key(i));
    CHECK(j.i_ == i && j.map_ == &m.v && k.i_ == i && k.map_ == &m.v, "at yields another bucket");
    REACH("done");
  }
  static void at_outside() {
    made<4> m; auto const i = static_cast<c::base_t<Key>>(an_any_u64()); MUST(i >= 4); REACH("arrives");
    if (an_any_u64() & 1) m.v.at(key(i)); else std::as_const(m.v).at(key(i));
    CHECK(false, "a bucket that a vecvec does not have is accepted");
  }
  static void none() {
    V v; CHECK(v.empty() && v.size() == 0 && v.begin() == v.end() && std::as_const(v).begin() == std::as_const(v).end(), "an empty vecvec is not empty");
    REACH("done");
  }
  static void none_at() {
    V v; REACH("arrives");
    auto const w = an_any_u64() % 4; if (w == 0) v.at(key(0)); else if (w == 1) std::as_const(v).at(key(0)); else if (w == 2) v.front(); else std::as_const(v).front();
    CHECK(false, "a bucket of an empty vecvec is accepted");
  }
  template <typename Vec> static inline void walk(Vec& v) {
    CHECK(v.size() == 4 && !v.empty(), "a vecvec has the wrong number of buckets");
    unsigned i = 0; for (auto const b : v) { CHECK(b.i_ == i && b.map_ == &v, "iterating over a vecvec yields another bucket"); ++i; }
    CHECK(i == 4, "iterating over a vecvec misses buckets");
    auto const b = v.begin(), e = v.end();
    CHECK(e - b == 4 && b - e == -4 && e - 4 == b && b + 4 == e && b != e && begin(v) == b && end(v) == e, "iterators of a vecvec are not counted right");
    CHECK(v.front().i_ == 0 && v.back().i_ == 3, "the first or last bucket is wrong");
    auto x = b; auto const k = static_cast<int>(some(4)), l = static_cast<int>(some(4)); x += k; CHECK(x.i_ == static_cast<U>(k) && x - b == k, "an iterator of a vecvec steps wrongly");
    x -= k; CHECK(x == b, "an iterator of a vecvec steps wrongly"); x += k;
    CHECK((x == b + l) == (k == l) && (x != b + l) == (k != l), "iterators of a vecvec compare wrongly");
    if (k < 4) { ++x; CHECK(x.i_ == static_cast<U>(k) + 1, "an iterator of a vecvec steps wrongly"); --x; }
    if (k > 0) { --x; CHECK(x.i_ == static_cast<U>(k) - 1, "an iterator of a vecvec steps wrongly"); }
    REACH("done");
  }
  static void iterate() { made<4> m; walk(m.v); walk(std::as_const(m.v)); }
  template <unsigned J> static void push() {
    made<4> m; T x; m.v[key(J)].push_back(x);
    CHECK(ops == 1 && nest::at == m.s[J + 1] && n == 1 && from == adr(&x), "an element is not appended to the end of its bucket");
    U e[5]; for (unsigned i = 0; i <= 4; ++i) e[i] = m.s[i] + (i > J ? 1 : 0);
    m.is(e); REACH("done");
  }
  template <unsigned J> static void grow() {
    made<4> m; auto const k = m.s[J + 1] - m.s[J] + some(MAX); m.v[key(J)].grow(k); auto const d = k - (m.s[J + 1] - m.s[J]);
    CHECK(ops == 1 ? nest::at == m.s[J + 1] && n == d : ops == 0 && d == 0, "a bucket does not grow at its end");
    U e[5]; for (unsigned i = 0; i <= 4; ++i) e[i] = m.s[i] + (i > J ? d : 0);
    m.is(e); REACH("done");
  }
  static void shrink() {
    made<4> m; auto const k = some(MAX); MUST(k < m.s[2] - m.s[1]); REACH("arrives"); m.v[key(1)].grow(k);
    CHECK(false, "growing a bucket to fewer elements is accepted");
  }
  template <unsigned B> static void add() {
    made<B> m; auto const k = some(MAX); auto r = any_range<T>(k); m.v.emplace_back(r);
    CHECK(ops == 1 ? nest::at == m.s[B] && n == k && (k == 0 || from == adr(r.a)) : ops == 0 && k == 0, "the elements of a new bucket are not appended");
    U e[B + 2]; for (unsigned i = 0; i <= B; ++i) e[i] = m.s[i]; e[B + 1] = m.s[B] + k;
    m.is(e); REACH("done");
  }
  template <unsigned B> static void add_list() {
    made<B> m; T x = 0, y = 0, z = 0; m.v.emplace_back({x, y, z});
    CHECK(ops == 1 && nest::at == m.s[B] && n == 3, "the elements of a new bucket are not appended");
    U e[B + 2]; for (unsigned i = 0; i <= B; ++i) e[i] = m.s[i]; e[B + 1] = m.s[B] + 3;
    m.is(e); REACH("done");
  }
  template <unsigned B> static void add_sized() {
    made<B> m; auto const k = some(MAX); auto const b = m.v.add_back_sized(k);
    CHECK(m.v.data_.size() == m.s[B] + k, "a new bucket has no room for its elements");
    CHECK(b.i_ == B && b.map_ == &m.v, "add_back_sized yields another bucket");
    U e[B + 2]; for (unsigned i = 0; i <= B; ++i) e[i] = m.s[i]; e[B + 1] = m.s[B] + k;
    m.is(e); REACH("done");
  }
  // the first bucket
  static void first() {
    V v; start(); S mem[ROOM]; place(v.data_, 0); index(v.bucket_starts_, mem, 0);
    auto const k = some(MAX); auto const w = an_any_u64() & 1; T x = 0;
    if (w) { auto r = any_range<T>(k); v.emplace_back(r); } else v.add_back_sized(k);
    CHECK(v.size() == 1 && mem[0] == 0 && mem[1] == k && v.data_.size() == k, "the first bucket is wrong"); REACH("done");
    index(v.bucket_starts_, mem, 0); place(v.data_, 0); v.emplace_back({x, x});
    CHECK(v.size() == 1 && mem[0] == 0 && mem[1] == 2 && v.data_.size() == 2, "the first bucket is wrong"); REACH("list");
  }
  // from B buckets to M
  template <unsigned B, unsigned M> static inline void resize() {
    made<B> m; m.v.resize(M);
    U e[M + 1]; for (unsigned i = 0; i <= M; ++i) e[i] = m.s[i < B ? i : B];
    m.is(e);
    CHECK(m.v.data_.size() == e[M], "resizing a vecvec leaves elements that belong to no bucket");
    REACH("done");
  }
  template <unsigned B> static void resizes() { resize<B, 0>(); resize<B, 1>(); resize<B, 2>(); resize<B, 3>(); resize<B, 4>(); resize<B, 6>(); }
  static void clear() {
    made<4> m; m.v.clear(); CHECK(m.v.empty() && m.v.size() == 0 && m.v.data_.size() == 0, "a cleared vecvec is not empty"); REACH("done");
  }
};
using strong = c::strong<std::uint32_t, struct strong_>;
#define X(K, F) OB ob_accept_##K##_##F() 
#define ALL(K, ...)                                                                    \
  X(K, read0) { t<__VA_ARGS__>::template read<0>(); } X(K, read2) { t<__VA_ARGS__>::template read<2>(); } X(K, read3) { t<__VA_ARGS__>::template read<3>(); } \
  OB ob_##K##_outside0() { t<__VA_ARGS__>::template outside<0>(); } OB ob_##K##_outside3() { t<__VA_ARGS__>::template outside<3>(); } \
  X(K, at) { t<__VA_ARGS__>::at(); } OB ob_##K##_at_outside() { t<__VA_ARGS__>::at_outside(); } \
  X(K, none) { t<__VA_ARGS__>::none(); } OB ob_##K##_none_at() { t<__VA_ARGS__>::none_at(); } \
  X(K, iterate) { t<__VA_ARGS__>::iterate(); } \
  X(K, push0) { t<__VA_ARGS__>::template push<0>(); } X(K, push2) { t<__VA_ARGS__>::template push<2>(); } X(K, push3) { t<__VA_ARGS__>::template push<3>(); } \
  X(K, grow0) { t<__VA_ARGS__>::template grow<0>(); } X(K, grow2) { t<__VA_ARGS__>::template grow<2>(); } X(K, grow3) { t<__VA_ARGS__>::template grow<3>(); } \
  OB ob_##K##_shrink() { t<__VA_ARGS__>::shrink(); } \
  X(K, add1) { t<__VA_ARGS__>::template add<1>(); } X(K, add4) { t<__VA_ARGS__>::template add<4>(); } \
  X(K, list1) { t<__VA_ARGS__>::template add_list<1>(); } X(K, list4) { t<__VA_ARGS__>::template add_list<4>(); } \
  X(K, sized1) { t<__VA_ARGS__>::template add_sized<1>(); } X(K, sized4) { t<__VA_ARGS__>::template add_sized<4>(); } \
  X(K, first) { t<__VA_ARGS__>::first(); } X(K, clear) { t<__VA_ARGS__>::clear(); } \
  X(K, resize1) { t<__VA_ARGS__>::template resizes<1>(); } X(K, resize4) { t<__VA_ARGS__>::template resizes<4>(); }
ALL(u32, std::uint32_t, std::uint32_t, std::uint32_t)
ALL(u64, std::uint64_t, std::uint64_t, unsigned char)
ALL(key, strong, std::uint32_t, U)
