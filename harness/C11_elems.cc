// C11: multimaps with growing buckets: every operation keeps exactly the elements it should
// FLAGS: -fstrict-aliasing
// ENGINE: -unroll-threshold=20000 -inline-threshold=20000 -disable-loop-idiom-memcpy -disable-loop-idiom-memset
#include "nest.h"
#include "cista/containers/mutable_fws_multimap.h"
using namespace nest;
using K = std::uint32_t;
// elements move whenever there are more of them; where they were is something else then
constexpr unsigned MEM = 40;
struct moving : c::raw::vector<U> {
  using base = c::raw::vector<U>;
  using base::base;
  U* next; static U* spare;
  void resize(unsigned n, U = U{}) {
    if (n > used_size_) {
      U* const to = spare; U* const old = el_; spare = nullptr;
      MUST(to != nullptr);
      for (unsigned i = 0; i != used_size_; ++i) to[i] = old[i];
      for (unsigned i = 0; i != used_size_; ++i) old[i] = an_any_u64();
      for (unsigned i = used_size_; i < n; ++i) to[i] = an_any_u64();
      el_ = to;
    }
    used_size_ = n;
  }
};
U* moving::spare;
template <typename T> using vec = std::conditional_t<std::is_same_v<T, U>, moving, c::raw::vector<T>>;
using M = c::dynamic_fws_multimap_base<U, K, vec, 3>;
using X = M::index_type;
constexpr unsigned order(unsigned cap) { unsigned o = 0; while ((1U << o) < cap) ++o; return o; }
// the data: [0, 2) of bucket 0, [2, 2 + CAP) of bucket 1 with S elements, then, unless LAST, [.., + 2) of bucket 2, and FREE elements of a free bucket
template <unsigned CAP, unsigned S, bool LAST, unsigned FREE> struct made {
  M m; X mem[ROOM]; X fre[4][ROOM]; U one[MEM], two[MEM], was[S ? S : 1], left[2], right[2];
  __attribute__((always_inline)) made() {
    constexpr unsigned n = 2 + CAP + (LAST ? 0 : 2) + FREE;
    for (unsigned i = 0; i != n; ++i) one[i] = an_any_u64();
    left[0] = one[0]; left[1] = one[1]; right[0] = right[1] = 0; for (unsigned i = 0; i != S; ++i) was[i] = one[2 + i];
    if (!LAST) { right[0] = one[2 + CAP]; right[1] = one[3 + CAP]; }
    index(m.data_, one, n); m.data_.allocated_size_ = MEM; moving::spare = two;
    mem[0] = X{0, 2, 2}; mem[1] = X{2, S, CAP}; mem[2] = LAST ? X{} : X{2 + CAP, 2, 2}; mem[3] = X{}; index(m.index_, mem, 4);
    if (CAP == 0) mem[1].begin_ = 0;
    for (unsigned i = 0; i != 4; ++i) index(m.free_buckets_[i], fre[i], 0);
    if (FREE) { fre[order(FREE)][0] = X{n - FREE, 0, FREE}; m.free_buckets_[order(FREE)].used_size_ = 1; }
    m.element_count_ = S + (LAST ? 2 : 4);
  }
  template <unsigned N> inline void is(U const (&e)[N], unsigned k = N) {
    M const& m = this->m;
    CHECK(m[1].size() == k && m[1].begin() + k == m[1].end(), "a bucket has the wrong number of elements");
    for (unsigned i = 0; i != k; ++i) CHECK(m[1][i] == e[i] && m[1].begin()[i] == e[i], "a bucket has another element");
    CHECK(m[0].size() == 2 && m[0][0] == left[0] && m[0][1] == left[1], "an element of another bucket changes");
    if (LAST) CHECK(m[2].size() == 0, "an element of another bucket changes"); else CHECK(m[2].size() == 2 && m[2][0] == right[0] && m[2][1] == right[1], "an element of another bucket changes");
    CHECK(m.element_count() == k + (LAST ? 2U : 4U), "the number of elements of a multimap is wrong");
    CHECK(mem[1].begin_ + mem[1].capacity_ <= m.data_.size() && mem[1].size_ <= mem[1].capacity_, "a bucket lies outside of the data");
    REACH("done");
  }
  U at(unsigned i) const { return m[1][i]; }
};
template <unsigned CAP, unsigned S, bool LAST, unsigned FREE> struct t {
  using made = ::made<CAP, S, LAST, FREE>;
  static inline void push() {
    { made s; auto const x = an_any_u64(); s.m[1].push_back(x); U e[S + 1]; for (unsigned i = 0; i != S; ++i) e[i] = s.was[i]; e[S] = x; s.is(e); }
    { made s; auto const x = an_any_u64(); s.m[1].emplace_back(x); U e[S + 1]; for (unsigned i = 0; i != S; ++i) e[i] = s.was[i]; e[S] = x; s.is(e); }
  }
  // elements of the multimap itself
  static inline void push_self() {
    { made s; s.m[1].push_back(s.m[0][1]); U e[S + 1]; for (unsigned i = 0; i != S; ++i) e[i] = s.was[i]; e[S] = s.left[1]; s.is(e); }
    { made s; s.m[1].emplace_back(s.m[0][1]); U e[S + 1]; for (unsigned i = 0; i != S; ++i) e[i] = s.was[i]; e[S] = s.left[1]; s.is(e); }
    if constexpr (S != 0) { made s; s.m[1].push_back(s.m[1][S - 1]); U e[S + 1]; for (unsigned i = 0; i != S; ++i) e[i] = s.was[i]; e[S] = s.was[S - 1]; s.is(e); }
  }
  template <unsigned W, unsigned P> static inline void insert_at() {
    made s; auto b = s.m[1]; auto const x = W == 0 ? an_any_u64() : s.was[S ? S - 1 : 0];
    auto const it = W == 0 ? b.insert(b.begin() + P, x) : W == 1 ? b.insert(b.begin() + P, b.begin()[S - 1]) : b.insert(b.begin() + P, std::move(b.begin()[S - 1]));
    U e[S + 1]; for (unsigned i = 0; i <= S; ++i) e[i] = i < P ? s.was[i] : i == P ? x : s.was[i - 1];
    s.is(e); CHECK(it == s.m[1].begin() + P, "insert yields another element");
  }
  template <unsigned P> static inline void insert() { insert_at<0, (P <= S ? P : S)>(); }
  template <unsigned W> static inline void insert_self() { if constexpr (S != 0) { insert_at<W, 0>(); insert_at<W, S - 1>(); } else insert_at<0, 0>(); }
  template <unsigned N> static inline void resize() {
    { made s; auto const x = an_any_u64(); s.m[1].resize(N, x); U e[N + 1]; for (unsigned i = 0; i != N; ++i) e[i] = i < S ? s.was[i] : x; s.is(e, N); }
    { made s; s.m[1].resize(N); U e[N + 1]; for (unsigned i = 0; i != N; ++i) e[i] = i < S ? s.was[i] : 0; s.is(e, N); }
    { made s; s.m[1].reserve(N); U e[S + 1]; for (unsigned i = 0; i != S; ++i) e[i] = s.was[i]; s.is(e, S); CHECK(s.m[1].capacity() >= N, "a bucket has less room than reserved"); }
    if constexpr (N != 0) resize<N - 1>();
  }
  template <unsigned A, unsigned B> static inline void erase_range() {
    made s; auto b = s.m[1]; auto const it = b.erase(b.begin() + A, b.begin() + B);
    U e[S + 1]; for (unsigned i = 0; i + (B - A) < S; ++i) e[i] = i < A ? s.was[i] : s.was[i + (B - A)]; s.is(e, S - (B - A));
    CHECK(it == s.m[1].begin() + A, "erase does not yield the element behind the erased ones");
    if constexpr (A != 0) erase_range<A - 1, B>(); else if constexpr (B != 0) erase_range<B - 1, B - 1>();
  }
  template <unsigned P> static inline void erase_one() {
    made s; auto b = s.m[1]; auto const it = b.erase(b.begin() + P);
    U e[S + 1]; for (unsigned i = 0; i + 1 < S; ++i) e[i] = i < P ? s.was[i] : s.was[i + 1]; s.is(e, S - 1);
    CHECK(it == s.m[1].begin() + P, "erase does not yield the element behind the erased ones");
    if constexpr (P != 0) erase_one<P - 1>();
  }
  static inline void erase() {
    erase_range<S, S>(); if constexpr (S != 0) erase_one<S - 1>();
    { made s; s.m[1].clear(); U e[1]; s.is(e, 0); }
    { made s; s.m[1].pop_back(); s.is(s.was, S ? S - 1 : 0); }
    { made s; s.m.erase(1); U e[1]; s.is(e, 0); CHECK(s.m[1].capacity() == 0, "an erased bucket keeps its room"); }
  }
};
#define T(N, CAP, S, LAST, FREE)                                                               \
  OB ob_accept_push_##N() { t<CAP, S, LAST, FREE>::push(); }                                    \
  OB ob_accept_push_self_##N() { t<CAP, S, LAST, FREE>::push_self(); }                          \
  OB ob_accept_insert0_##N() { t<CAP, S, LAST, FREE>::insert<0>(); } OB ob_accept_insert1_##N() { t<CAP, S, LAST, FREE>::insert<1>(); } OB ob_accept_insert2_##N() { t<CAP, S, LAST, FREE>::insert<2>(); } OB ob_accept_insert3_##N() { t<CAP, S, LAST, FREE>::insert<3>(); } OB ob_accept_insert4_##N() { t<CAP, S, LAST, FREE>::insert<4>(); } \
  OB ob_accept_insert_self1_##N() { t<CAP, S, LAST, FREE>::insert_self<1>(); } OB ob_accept_insert_self2_##N() { t<CAP, S, LAST, FREE>::insert_self<2>(); } \
  OB ob_accept_resize_##N() { t<CAP, S, LAST, FREE>::resize<6>(); }                             \
  OB ob_accept_erase_##N() { t<CAP, S, LAST, FREE>::erase(); }
T(empty, 0, 0, false, 0) T(empty_free, 0, 0, false, 1) T(empty_last, 0, 0, true, 0)
T(one, 1, 1, false, 0) T(one_last, 1, 1, true, 0) T(one_free, 1, 1, false, 2)
T(two, 2, 2, false, 0) T(two_last, 2, 2, true, 0) T(two_free, 2, 2, false, 4)
T(four, 4, 4, false, 0) T(four_last, 4, 4, true, 0) T(four_free, 4, 4, false, 8)
T(three, 4, 3, false, 0) T(three_last, 4, 3, true, 4) T(none, 4, 0, false, 0)
// a copy of a multimap
OB ob_accept_copy() {
  made<4, 3, false, 0> s; auto const* const d = s.m.data_.el_; M const& m = s.m; auto const e = m[1];
  CHECK(e.begin() == d + 2 && std::distance(e.begin(), e.end()) == 3 && e.at(2) == s.was[2] && e.front() == s.was[0] && e.back() == s.was[2], "a bucket has another element"); REACH("done");
}
