// C12: paged vectors: buckets own disjoint pages and keep exactly their elements
// FLAGS: -fstrict-aliasing
// ENGINE: -unswitch-loops -unroll-threshold=20000 -inline-threshold=20000 -disable-loop-idiom-memcpy -disable-loop-idiom-memset
#include "nest.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
using namespace nest;
using K = std::uint32_t;
constexpr unsigned MEM = 48;
// elements move whenever there are more of them; where they were is something else then
struct moving : c::raw::vector<U> {
  using base = c::raw::vector<U>;
  using base::base;
  static U* spare;
  void resize(unsigned n, U = U{}) {
    if (n > used_size_) {
      U* const to = spare; U* const old = el_; spare = nullptr;
      MUST(to != nullptr);
      for (unsigned i = 0; i != used_size_; ++i) to[i] = old[i];
      for (unsigned i = 0; i != used_size_; ++i) old[i] = an_any_u64();
      for (unsigned i = used_size_; i < n; ++i) to[i] = an_any_u64();
      el_ = to;
    }
    used_size_ = n;
  }
};
U* moving::spare;
template <typename D> struct types {
  using P = c::paged<D, K, std::uint16_t, 2, 8>;
  using G = typename P::page_t;
  using V = c::paged_vecvec<c::raw::vector<G>, P, K>;
};
constexpr unsigned order(unsigned cap) { return cap <= 2 ? 0 : cap == 4 ? 1 : 2; }
constexpr K NONE = ~K{0};
// ---- reading: pages anywhere
using DV = types<dvec<U>>;
struct spread {
  DV::V v; DV::G mem[ROOM]; U at[3], n[3];
  __attribute__((always_inline)) spread() {
    start(); place(v.paged_.data_, some(2 * MAX)); MUST(v.paged_.data_.used_size_ >= 24); auto const last = v.paged_.data_.used_size_ - 8;
    for (unsigned i = 0; i != 3; ++i) {
      at[i] = an_any_u64() & 0xFFFF; MUST(at[i] <= last); n[i] = some(8);
      mem[i].start_ = static_cast<K>(at[i]); mem[i].size_ = static_cast<std::uint16_t>(n[i]); mem[i].capacity_ = 8;
    }
    index(v.idx_, mem, 3);
  }
};
template <unsigned J, typename V> static inline void bucket(V& v, spread const& s) {
  auto b = v[J]; auto const& cb = b; auto const d = s.v.paged_.data_.el_; auto const at = s.at[J], n = s.n[J];
  CHECK(b.size() == n, "a bucket has the wrong size");
  CHECK(b.begin() == d + at && b.end() == d + at + n && cb.begin() == d + at && cb.end() == d + at + n && begin(cb) == d + at && end(cb) == d + at + n, "a bucket starts or ends at the wrong element");
  CHECK(v.data(J) == d + at && v.data(v.page(J)) == d + at, "a bucket starts or ends at the wrong element");
  if (n == 0) { CHECK(b.empty() && cb.empty(), "an empty bucket is not empty"); return; }
  CHECK(!b.empty() && !cb.empty(), "a bucket with elements is empty");
  auto const i = some(n - 1);
  CHECK(&b[i] == d + at + i && &cb[i] == d + at + i && &cb.at(i) == d + at + i, "a bucket yields a wrong element");
  CHECK(&b.front() == d + at && &b.back() == d + at + n - 1 && &cb.front() == d + at && &cb.back() == d + at + n - 1, "the first or last element of a bucket is wrong");
  REACH("elements");
}
OB ob_accept_read0() { spread s; bucket<0>(s.v, s); }
OB ob_accept_read2() { spread s; bucket<2>(s.v, s); }
OB ob_accept_read0_const() { spread s; bucket<0>(std::as_const(s.v), s); }
OB ob_accept_read2_const() { spread s; bucket<2>(std::as_const(s.v), s); }
OB ob_outside() {
  spread s; auto b = s.v[1]; auto const i = an_any_u64(); MUST(i >= s.n[1]); REACH("arrives");
  auto const w = an_any_u64() % 3; if (w == 0) b.at(i); else if (w == 1) std::as_const(b).at(i); else { auto const x = std::as_const(s.v)[1]; x.at(i); }
  CHECK(false, "an element that a bucket does not have is accepted");
}
OB ob_outside_at() {
  spread s; auto const i = static_cast<K>(an_any_u64()); MUST(i >= 3); REACH("arrives");
  if (an_any_u64() & 1) s.v.at(i); else std::as_const(s.v).at(i);
  CHECK(false, "a bucket that a paged vector does not have is accepted");
}
OB ob_accept_at() { spread s; auto const i = static_cast<K>(some(2)); auto const a = s.v.at(i); auto const b = std::as_const(s.v).at(i); CHECK(a.i_ == i && a.pv_ == &s.v && b.i_ == i && b.pv_ == &s.v, "at yields another bucket"); REACH("done"); }
template <typename V> static inline void walk(V& v) {
  auto const b = v.begin(), e = v.end();
  CHECK(v.size() == 3 && !v.empty() && e - b == 3 && b - e == -3 && b + 3 == e && e - 3 == b && b != e && begin(v) == b && end(v) == e, "iterators of a paged vector are not counted right");
  unsigned i = 0; for (auto const x : v) { CHECK(x.i_ == i && x.pv_ == &v, "iterating over a paged vector yields another bucket"); ++i; }
  CHECK(i == 3, "iterating over a paged vector misses buckets");
  CHECK(v.front().i_ == 0 && v.back().i_ == 2, "the first or last bucket is wrong");
  auto const k = static_cast<int>(some(2)); auto x = b; x += k; CHECK(x.i_ == static_cast<U>(k) && x - b == k, "an iterator of a paged vector steps wrongly");
  ++x; CHECK(x.i_ == static_cast<U>(k) + 1, "an iterator of a paged vector steps wrongly"); --x; x -= k; CHECK(x == b, "an iterator of a paged vector steps wrongly");
  REACH("done");
}
OB ob_accept_walk() { spread s; walk(s.v); }
OB ob_accept_walk_const() { spread s; walk(std::as_const(s.v)); }
OB ob_accept_none() {
  DV::V v; CHECK(v.empty() && v.size() == 0 && v.begin() == v.end() && std::as_const(v).begin() == std::as_const(v).end(), "an empty paged vector is not empty");
  unsigned n = 0; for (auto const b : v) { (void)b; ++n; } CHECK(n == 0, "an empty paged vector is not empty"); REACH("done");
}
OB ob_none_front() { DV::V v; REACH("arrives"); if (an_any_u64() & 1) v.front(); else std::as_const(v).front(); CHECK(false, "a bucket of an empty paged vector is accepted"); }
// ---- changing: bucket 0 has [0, 2), bucket 1 S elements of [2, 2 + CAP), bucket 2 the next two; behind them are F free pages of FREE elements
using MV = types<moving>;
template <unsigned CAP, unsigned S, unsigned FREE, unsigned F, bool UP = false> struct made {
  MV::V v; MV::G mem[ROOM]; U one[MEM], two[MEM], was[S ? S : 1], left[2], right[2];
  static constexpr unsigned n = 4 + CAP + FREE * F;
  __attribute__((always_inline)) made() {
    for (unsigned i = 0; i != n; ++i) one[i] = an_any_u64();
    left[0] = one[0]; left[1] = one[1]; for (unsigned i = 0; i != S; ++i) was[i] = one[2 + i];
    right[0] = one[2 + CAP]; right[1] = one[3 + CAP];
    index(v.paged_.data_, one, n); v.paged_.data_.allocated_size_ = MEM; moving::spare = two;
    mem[0].size_ = 2; mem[0].capacity_ = 2; mem[0].start_ = 0;
    mem[1].size_ = S; mem[1].capacity_ = CAP; mem[1].start_ = CAP ? 2 : 0;
    mem[2].size_ = 2; mem[2].capacity_ = 2; mem[2].start_ = 2 + CAP; index(v.idx_, mem, 3);
    for (unsigned i = 0; i != 3; ++i) v.paged_.free_list_[i].next_ = NONE;
    for (unsigned i = 0; i != F; ++i) free_page(4 + CAP + (UP ? F - 1 - i : i) * FREE);
  }
  // what freeing a page is: the last one freed is the first of the list, each names the next
  void free_page(unsigned at) { K& head = v.paged_.free_list_[order(FREE)].next_; K const next = head; __builtin_memcpy(&one[at], &next, sizeof next); head = at; }
  template <unsigned N> inline void is(U const (&e)[N], unsigned k = N, unsigned others = 0) {
    MV::V const& m = v;
    CHECK(m.size() == 3 + others, "a paged vector has the wrong number of buckets");
    auto const one = m[1]; CHECK(one.size() == k, "a bucket has the wrong number of elements");
    for (unsigned i = 0; i != k; ++i) CHECK(one.begin()[i] == e[i], "a bucket has another element");
    auto const l = m[0], r = m[2];
    CHECK(l.size() == 2 && l.begin()[0] == left[0] && l.begin()[1] == left[1], "an element of another bucket changes");
    CHECK(r.size() == 2 && r.begin()[0] == right[0] && r.begin()[1] == right[1], "an element of another bucket changes");
    CHECK(mem[1].start_ + mem[1].capacity_ <= v.paged_.data_.size() && mem[1].size_ <= mem[1].capacity_, "a bucket lies outside of the data");
    REACH("done");
  }
  K head(unsigned cap) const { return v.paged_.free_list_[order(cap)].next_; }
  // the page at p is the first free one of its size
  inline void freed(unsigned p, unsigned cap, K before) {
    CHECK(head(cap) == p, "a page that is not used any more is not free"); K next; __builtin_memcpy(&next, v.paged_.data_.el_ + p, sizeof next); CHECK(next == before, "a page that is not used any more hides other free ones");
  }
  inline void heads(K a, K b, K c_) { CHECK(v.paged_.free_list_[0].next_ == a && v.paged_.free_list_[1].next_ == b && v.paged_.free_list_[2].next_ == c_, "a change of a bucket changes the free pages"); }
};
template <unsigned CAP, unsigned S, unsigned FREE, unsigned F, bool UP = false> struct t {
  using made = ::made<CAP, S, FREE, F, UP>;
  static constexpr unsigned NEW = CAP == 0 ? 2 : 2 * CAP;
  static constexpr K first = F ? 4 + CAP + (UP ? 0 : F - 1) * FREE : NONE, second = F > 1 ? (UP ? first + FREE : first - FREE) : NONE;
  // the bucket needs a bigger page: a free one if there is, else a new one; its old one is free
  static inline void grown(made& s) {
    CHECK(s.mem[1].capacity_ == NEW && s.mem[1].start_ == (F && FREE == NEW ? first : made::n), "a bucket gets a page that is not free");
    CHECK(s.v.paged_.data_.size() == made::n + (F && FREE == NEW ? 0 : NEW), "the data of a paged vector has the wrong size");
    if constexpr (CAP != 0) s.freed(2, CAP, F && FREE == CAP ? first : NONE);
    if constexpr (F != 0 && FREE == NEW) CHECK(s.head(NEW) == second, "a page in use is free");
  }
  static inline void push() {
    made s; auto const x = an_any_u64(); s.v[1].push_back(x); U e[S + 1]; for (unsigned i = 0; i != S; ++i) e[i] = s.was[i]; e[S] = x; s.is(e);
    if constexpr (S == CAP) grown(s); else { CHECK(s.mem[1].start_ == 2 && s.mem[1].capacity_ == CAP && s.v.paged_.data_.size() == made::n, "a bucket with room moves"); s.heads(order(FREE) == 0 ? first : NONE, order(FREE) == 1 ? first : NONE, order(FREE) == 2 ? first : NONE); }
  }
  static inline void push_self() {
    { made s; s.v[1].push_back(s.v[0][1]); U e[S + 1]; for (unsigned i = 0; i != S; ++i) e[i] = s.was[i]; e[S] = s.left[1]; s.is(e); }
    if constexpr (S != 0) { made s; s.v[1].push_back(s.v[1][0]); U e[S + 1]; for (unsigned i = 0; i != S; ++i) e[i] = s.was[i]; e[S] = s.was[0]; s.is(e); }
  }
  template <unsigned Q> static inline void insert() {
    constexpr unsigned P = Q <= S ? Q : S;
    made s; auto b = s.v[1]; auto const x = an_any_u64(); auto const it = b.insert(b.begin() + P, x);
    U e[S + 1]; for (unsigned i = 0; i <= S; ++i) e[i] = i < P ? s.was[i] : i == P ? x : s.was[i - 1];
    s.is(e); CHECK(it == s.v[1].begin() + P, "insert yields another element");
  }
  template <unsigned Q> static inline void insert_self() {
    if constexpr (S != 0) {
      constexpr unsigned P = Q < S ? Q : S - 1;
      made s; auto b = s.v[1]; auto const it = b.insert(b.begin() + P, s.v[1][S - 1]);
      U e[S + 1]; for (unsigned i = 0; i <= S; ++i) e[i] = i < P ? s.was[i] : i == P ? s.was[S - 1] : s.was[i - 1];
      s.is(e); CHECK(it == s.v[1].begin() + P, "insert yields another element");
    } else insert<0>();
  }
  template <unsigned N> static inline void add() {
    made s; U from[N ? N : 1]; for (unsigned i = 0; i != N; ++i) from[i] = an_any_u64();
    s.v.emplace_back(range<U>{from, from + N}); s.is(s.was, S, 1);
    constexpr unsigned cap = N <= 2 ? 2 : N <= 4 ? 4 : 8;
    CHECK(s.mem[3].size_ == N && s.mem[3].capacity_ == cap && s.mem[3].start_ == (F && FREE == cap ? first : made::n), "a new bucket gets a page that is not free");
    if constexpr (F != 0 && FREE == cap) CHECK(s.head(cap) == second, "a page in use is free");
    for (unsigned i = 0; i != N; ++i) CHECK(s.v.paged_.data_.el_[s.mem[3].start_ + i] == from[i], "a new bucket has another element");
  }
  static inline void add_empty() { made s; s.v.emplace_back_empty(); s.is(s.was, S, 1); CHECK(s.mem[3].size_ == 0 && s.mem[3].capacity_ == 2 && s.mem[3].start_ == (F && FREE == 2 ? first : made::n), "a new bucket gets a page that is not free"); if constexpr (F != 0 && FREE == 2) CHECK(s.head(2) == second, "a page in use is free"); }
  // the buckets behind are removed, their pages are free
  static inline void shrink() {
    made s; s.v.resize(1); CHECK(s.v.size() == 1 && s.v[0].size() == 2 && s.v[0].begin()[0] == s.left[0] && s.v[0].begin()[1] == s.left[1], "resizing changes a bucket that stays");
    U const here = 2 + CAP; K const two = s.head(2); CHECK(two == (CAP == 2 ? 2 : here) || two == here, "the page of a removed bucket is not free");
    if constexpr (CAP > 2) s.freed(2, CAP, F && FREE == CAP ? first : NONE);
    if constexpr (CAP != 2) s.freed(here, 2, F && FREE == 2 ? first : NONE);
    if constexpr (CAP == 2) {
      K a, b; __builtin_memcpy(&a, s.v.paged_.data_.el_ + 2, sizeof a); __builtin_memcpy(&b, s.v.paged_.data_.el_ + here, sizeof b); K const end = F && FREE == 2 ? first : NONE;
      CHECK((two == 2 && a == here && b == end) || (two == here && b == 2 && a == end), "the page of a removed bucket is not free");
    }
    REACH("done");
  }
  static inline void grow() { made s; s.v.resize(5); s.is(s.was, S, 2); CHECK(s.v[3].size() == 0 && s.v[4].size() == 0 && s.mem[3].capacity_ == 0 && s.mem[4].capacity_ == 0, "resizing adds buckets that are not empty"); }
  static inline void clear() { made s; s.v.clear(); CHECK(s.v.empty() && s.v.paged_.data_.size() == 0, "a cleared paged vector is not empty"); s.heads(NONE, NONE, NONE); REACH("done"); }
};
#define T(N, ...)                                                             \
  OB ob_accept_push_##N() { t<__VA_ARGS__>::push(); }                          \
  OB ob_accept_push_self_##N() { t<__VA_ARGS__>::push_self(); }                \
  OB ob_accept_insert0_##N() { t<__VA_ARGS__>::insert<0>(); } OB ob_accept_insert1_##N() { t<__VA_ARGS__>::insert<1>(); } OB ob_accept_insert2_##N() { t<__VA_ARGS__>::insert<2>(); } OB ob_accept_insert4_##N() { t<__VA_ARGS__>::insert<4>(); } \
  OB ob_accept_insert_self0_##N() { t<__VA_ARGS__>::insert_self<0>(); } OB ob_accept_insert_self1_##N() { t<__VA_ARGS__>::insert_self<1>(); } \
  OB ob_accept_add0_##N() { t<__VA_ARGS__>::add<0>(); } OB ob_accept_add2_##N() { t<__VA_ARGS__>::add<2>(); } OB ob_accept_add3_##N() { t<__VA_ARGS__>::add<3>(); } OB ob_accept_add8_##N() { t<__VA_ARGS__>::add<8>(); } \
  OB ob_accept_add_empty_##N() { t<__VA_ARGS__>::add_empty(); }                \
  OB ob_accept_shrink_##N() { t<__VA_ARGS__>::shrink(); }                      \
  OB ob_accept_grow_##N() { t<__VA_ARGS__>::grow(); }                          \
  OB ob_accept_clear_##N() { t<__VA_ARGS__>::clear(); }
T(new, 0, 0, 2, 0) T(new_free, 0, 0, 2, 2) T(none, 2, 0, 2, 1) T(one, 2, 1, 4, 1) T(two, 2, 2, 2, 0) T(two_free, 2, 2, 4, 1) T(two_frees, 2, 2, 4, 2) T(two_other, 2, 2, 2, 2) T(three, 4, 3, 4, 1) T(four, 4, 4, 2, 1) T(four_free, 4, 4, 8, 2) T(two_up, 2, 2, 4, 2, true) T(new_up, 0, 0, 2, 2, true)
// more elements than a page may have
OB ob_push_too_many() { made<8, 8, 2, 1> s; REACH("arrives"); s.v[1].push_back(an_any_u64()); CHECK(false, "a bucket has more elements than allowed"); }
OB ob_add_too_many() {
  made<2, 2, 2, 1> s; auto const k = an_any_u64() & 0xFFFFFFFFFFFF; MUST(k > 8); auto const p = static_cast<U*>(an_fresh()); REACH("arrives");
  s.v.emplace_back(range<U>{p, p + k}); CHECK(false, "a bucket has more elements than allowed");
}
OB ob_page_too_big() {
  made<2, 2, 2, 1> s; auto const k = an_any_u64(); MUST(k > 8); REACH("arrives");
  s.v.paged_.create_page(k); CHECK(false, "a bucket has more elements than allowed");
}
// a bucket is inserted before others
OB ob_accept_insert_bucket() {
  made<2, 2, 2, 1> s; U from[3] = {an_any_u64(), an_any_u64(), an_any_u64()}; s.v.insert(1U, range<U>{from, from + 3}); MV::V const& v = s.v;
  CHECK(v.size() == 4 && v[0].size() == 2 && v[1].size() == 3 && v[2].size() == 2 && v[3].size() == 2, "an inserted bucket is at another place");
  for (unsigned i = 0; i != 3; ++i) CHECK(v[1].begin()[i] == from[i], "an inserted bucket has another element");
  for (unsigned i = 0; i != 2; ++i) CHECK(v[0].begin()[i] == s.left[i] && v[2].begin()[i] == s.was[i] && v[3].begin()[i] == s.right[i], "an inserted bucket changes others");
  REACH("done");
}
