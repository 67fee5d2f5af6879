// C11: multimaps with growing buckets: buckets own disjoint parts of the data
// FLAGS: -fstrict-aliasing
// ENGINE: -unroll-threshold=20000 -inline-threshold=20000 -disable-loop-idiom-memcpy -disable-loop-idiom-memset
#include "nest.h"
#include "cista/containers/mutable_fws_multimap.h"
using namespace nest;
using K = std::uint32_t;
template <typename T> using vec = std::conditional_t<std::is_same_v<T, U>, dvec<T>, c::raw::vector<T>>;
using M = c::dynamic_fws_multimap_base<U, K, vec, 3>;
using X = M::index_type;
static_assert(M::MAX_ENTRIES_PER_BUCKET == 8);
constexpr unsigned order(unsigned cap) { unsigned o = 0; while ((1U << o) < cap) ++o; return o; }
static inline bool apart(U a, U n, U b, U m) { return a + n <= b || b + m <= a; }
struct entry { U begin_, size_, capacity_; };
static inline void any(entry& x, unsigned cap) { x.begin_ = some(MAX); x.capacity_ = cap; x.size_ = some(cap); }
static inline void put(X& x, entry const& e) { x.begin_ = static_cast<K>(e.begin_); x.size_ = static_cast<K>(e.size_); x.capacity_ = static_cast<K>(e.capacity_); }
// bucket 1 has room for CAP, buckets 0 and 2 are others; F: whether there is a free one for NEW
template <unsigned CAP, bool F, unsigned NEW> struct made {
  M m; X mem[ROOM]; X fre[4][ROOM]; entry a, o, f; U size, count;
  __attribute__((always_inline)) made() {
    start(); any(a, CAP); any(o, 2); any(f, NEW); f.size_ = 0;
    size = some(2 * MAX); place(m.data_, size); count = some(MAX); m.element_count_ = static_cast<K>(count);
    MUST(o.begin_ + U{2} <= size); MUST(count >= U{a.size_} + o.size_);
    if (CAP != 0) { MUST(a.begin_ + U{CAP} <= size); MUST(apart(a.begin_, CAP, o.begin_, 2)); } else MUST(a.begin_ < size);
    if (F) { MUST(f.begin_ + U{NEW} <= size); MUST(apart(f.begin_, NEW, o.begin_, 2)); if (CAP != 0) MUST(apart(f.begin_, NEW, a.begin_, CAP)); }
    put(mem[0], o); put(mem[1], a); put(mem[2], entry{});
    index(m.index_, mem, 3);
    for (unsigned i = 0; i != 4; ++i) index(m.free_buckets_[i], fre[i], 0);
    if (F) { put(fre[order(NEW)][0], f); m.free_buckets_[order(NEW)].used_size_ = 1; }
  }
  unsigned frees(unsigned o) const { return m.free_buckets_[o].size(); }
  // bucket 1 has n elements of more and room for cap; the rest is as before
  inline void is(U n, unsigned cap, U elements) {
    CHECK(m.index_.size() == 3 && mem[0].begin_ == o.begin_ && mem[0].size_ == o.size_ && mem[0].capacity_ == 2 && mem[2].begin_ == 0 && mem[2].size_ == 0 && mem[2].capacity_ == 0, "an operation on a bucket changes another bucket");
    CHECK(mem[1].size_ == n && mem[1].capacity_ == cap, "a bucket has the wrong size or capacity");
    CHECK(mem[1].begin_ + U{cap} <= m.data_.size(), "a bucket lies outside of the data");
    if (cap != 0) CHECK(apart(mem[1].begin_, cap, mem[0].begin_, 2), "two buckets share elements");
    CHECK(m.element_count() == elements, "the number of elements of a multimap is wrong");
    CHECK(m.data_.size() >= size, "the data of a multimap shrinks");
  }
  // the bucket has not grown
  inline void stays() { CHECK(mem[1].begin_ == a.begin_ && ops == 0, "a bucket with room moves"); for (unsigned i = 0; i != 4; ++i) CHECK(frees(i) == (F && i == order(NEW) ? 1 : 0), "a bucket with room changes the free ones"); }
  // the bucket has grown to NEW
  inline void grown() {
    bool const moved = mem[1].begin_ != a.begin_;
    if (F) CHECK(mem[1].begin_ == f.begin_, "a free bucket is not used again");
    for (unsigned i = 0; i != 4; ++i) CHECK(frees(i) == (CAP != 0 && moved && i == order(CAP) ? 1 : 0), "the part of the data that a bucket leaves is not free, or is so twice");
    if (CAP != 0 && moved) {
      auto const& x = fre[order(CAP)][0];
      CHECK(x.begin_ == a.begin_ && x.capacity_ == CAP && x.size_ == 0, "the part of the data that a bucket leaves is not free");
      CHECK(apart(mem[1].begin_, NEW, a.begin_, CAP), "a bucket shares elements with a free one");
    }
    if (!moved && CAP != 0) CHECK(a.begin_ + U{CAP} == size, "a bucket grows over others");
  }
};
// ---- an element is added to a bucket with room, to a full one
template <unsigned CAP, bool F, unsigned NEW, unsigned HOW> static inline void push(bool full) {
  made<CAP, F, NEW> s; MUST((s.a.size_ == CAP) == full); auto const x = an_any_u64(); U r;
  if (HOW == 0) r = s.m[1].push_back(x); else if (HOW == 1) r = s.m.at(1).emplace_back(x); else if (HOW == 2) r = s.m.push_back_entry(1, x); else r = s.m.emplace_back_entry(1, x);
  s.is(U{s.a.size_} + 1, full ? NEW : CAP, s.count + 1);
  CHECK(r == U{s.mem[1].begin_} + s.a.size_ && s.m.data_.el_[r] == x, "an element is not added behind the last one of its bucket");
  if (full) s.grown(); else s.stays();
  REACH("done");
}
#define PUSH(CAP, NEW)                                                        \
  OB ob_accept_push_##CAP() { push<CAP, false, NEW, 0>(true); }               \
  OB ob_accept_emplace_##CAP() { push<CAP, false, NEW, 1>(true); }            \
  OB ob_accept_push_entry_##CAP() { push<CAP, false, NEW, 2>(true); }         \
  OB ob_accept_emplace_entry_##CAP() { push<CAP, false, NEW, 3>(true); }      \
  OB ob_accept_push_free_##CAP() { push<CAP, true, NEW, 0>(true); }
PUSH(0, 1) PUSH(1, 2) PUSH(2, 4) PUSH(4, 8)
#define ROOMY(CAP, NEW)                                                       \
  OB ob_accept_push_room_##CAP() { push<CAP, true, NEW, 0>(false); }          \
  OB ob_accept_emplace_room_##CAP() { push<CAP, false, NEW, 1>(false); }
ROOMY(1, 2) ROOMY(2, 4) ROOMY(4, 8) ROOMY(8, 8)
OB ob_too_many() {
  made<8, false, 8> s; MUST(s.a.size_ == 8); auto const x = an_any_u64(); REACH("arrives");
  if (an_any_u64() & 1) s.m[1].push_back(x); else s.m[1].reserve(9);
  CHECK(false, "a bucket has more elements than allowed");
}
OB ob_accept_first() {
  start(); M m; X mem[ROOM], fre[4][ROOM]; place(m.data_, 0); index(m.index_, mem, 0); for (unsigned i = 0; i != 4; ++i) index(m.free_buckets_[i], fre[i], 0);
  auto const x = an_any_u64(); auto const r = m[1].push_back(x);
  CHECK(r == 0 && m.size() == 2 && mem[0].capacity_ == 0 && mem[0].size_ == 0 && mem[1].begin_ == 0 && mem[1].size_ == 1 && mem[1].capacity_ == 1 && m.data_.size() == 1 && m.element_count() == 1 && m.data_.el_[0] == x, "the first element of a multimap is wrong");
  REACH("done");
}
// ---- room is reserved
template <unsigned CAP, bool F, unsigned WANT, unsigned NEW> static inline void reserve() {
  made<CAP, F, NEW> s; s.m[1].reserve(WANT);
  s.is(s.a.size_, WANT > CAP ? NEW : CAP, s.count);
  if (WANT > CAP) s.grown(); else s.stays();
  REACH("done");
}
#define RESERVE(CAP, WANT, NEW)                                                                  \
  OB ob_accept_reserve_##CAP##_##WANT() { reserve<CAP, false, WANT, NEW>(); }                    \
  OB ob_accept_reserve_free_##CAP##_##WANT() { reserve<CAP, true, WANT, NEW>(); }
RESERVE(0, 3, 4) RESERVE(1, 5, 8) RESERVE(2, 3, 4) RESERVE(4, 5, 8) RESERVE(2, 8, 8) RESERVE(4, 4, 8) RESERVE(4, 0, 8) RESERVE(0, 0, 1) RESERVE(0, 8, 8)
// ---- elements are removed
OB ob_accept_clear() { made<4, true, 8> s; s.m[1].clear(); s.is(0, 4, s.count - s.a.size_); s.stays(); REACH("done"); }
OB ob_accept_pop() { made<4, true, 8> s; auto const n = s.a.size_; s.m[1].pop_back(); s.is(n ? n - 1 : 0, 4, s.count - (n ? 1 : 0)); s.stays(); REACH("done"); }
OB ob_accept_erase_key() {
  made<4, false, 8> s; s.m.erase(1);
  s.is(0, 0, s.count - s.a.size_);
  CHECK(ops == 0 && s.frees(2) == 1 && s.frees(0) == 0 && s.frees(1) == 0 && s.frees(3) == 0 && s.fre[2][0].begin_ == s.a.begin_ && s.fre[2][0].capacity_ == 4 && s.fre[2][0].size_ == 0, "the part of the data of an erased bucket is not free");
  REACH("done");
}
OB ob_accept_erase_no_key() { made<4, true, 8> s; auto const i = static_cast<K>(an_any_u64()); MUST(i >= 3); s.m.erase(i); s.is(s.a.size_, 4, s.count); s.stays(); REACH("done"); }
OB ob_accept_clear_all() {
  made<4, true, 8> s; s.m.clear();
  CHECK(s.m.empty() && s.m.size() == 0 && s.m.element_count() == 0 && s.m.data_size() == 0, "a cleared multimap is not empty");
  for (unsigned i = 0; i != 4; ++i) CHECK(s.frees(i) == 0, "a cleared multimap has free buckets"); REACH("done");
}
// ---- buckets
template <typename T> static inline void read(T& m, made<4, true, 8>& s) {
  auto b = m[1]; auto const& cb = b; auto const d = s.m.data_.el_; U const at = s.a.begin_, n = s.a.size_;
  CHECK(b.size() == n && b.capacity() == 4 && b.index() == 1, "a bucket has the wrong size");
  if (n == 0) CHECK(b.empty(), "a bucket has the wrong size"); else CHECK(!b.empty(), "a bucket has the wrong size");
  CHECK(b.begin() == d + at && b.end() == d + at + n && cb.begin() == d + at && cb.end() == d + at + n && b.cbegin() == d + at && b.cend() == d + at + n, "a bucket starts or ends at the wrong element");
  CHECK(begin(b) == d + at && end(b) == d + at + n && begin(cb) == d + at && end(cb) == d + at + n, "a bucket starts or ends at the wrong element");
  if (n == 0) return;
  auto const i = static_cast<K>(some(n - 1));
  CHECK(&b[i] == d + at + i && &cb[i] == d + at + i && &b.at(i) == d + at + i && &cb.at(i) == d + at + i && b.data_index(i) == at + i, "a bucket yields a wrong element");
  CHECK(&b.front() == d + at && &cb.front() == d + at && &b.back() == d + at + n - 1 && &cb.back() == d + at + n - 1, "the first or last element of a bucket is wrong");
  CHECK(b.bucket_index(d + at + i) == i, "the index of an element is wrong");
  REACH("elements");
}
OB ob_accept_read() { made<4, true, 8> s; read(s.m, s); }
OB ob_accept_read_const() { made<4, true, 8> s; read(std::as_const(s.m), s); }
OB ob_outside() {
  made<4, true, 8> s; auto b = s.m[1]; auto const i = static_cast<K>(an_any_u64()); MUST(i >= s.mem[1].size_); REACH("arrives");
  if (an_any_u64() & 1) b.at(i); else std::as_const(b).at(i);
  CHECK(false, "an element that a bucket does not have is accepted");
}
OB ob_outside_index() {
  made<4, true, 8> s; auto const i = some(MAX); MUST(i < s.a.begin_ || i >= U{s.a.begin_} + s.a.size_); REACH("arrives");
  s.m[1].bucket_index(s.m.data_.el_ + i);
  CHECK(false, "an element of another bucket has an index");
}
OB ob_outside_at() {
  made<4, true, 8> s; auto const i = static_cast<K>(an_any_u64()); MUST(i >= 3); REACH("arrives");
  if (an_any_u64() & 1) s.m.at(i); else std::as_const(s.m).at(i);
  CHECK(false, "a bucket that a multimap does not have is accepted");
}
OB ob_accept_at() { made<4, true, 8> s; auto const i = static_cast<K>(some(2)); CHECK(s.m.at(i).index() == i && std::as_const(s.m).at(i).index() == i && s.m[i].index() == i && std::as_const(s.m)[i].index() == i && &s.m.at(i).multimap_ == &s.m, "at yields another bucket"); CHECK(s.m.size() == 3, "reading adds a bucket"); REACH("done"); }
// asking for a bucket behind the end adds empty ones
template <unsigned W> static inline void extend() {
  made<4, true, 8> s; M::mutable_bucket const b = W == 0 ? s.m[4] : W == 1 ? s.m.get_or_create(4) : s.m.emplace_back();
  unsigned const n = W == 2 ? 4 : 5;
  CHECK(b.index() == n - 1 && s.m.size() == n, "a new bucket has the wrong index");
  for (unsigned i = 2; i != n; ++i) CHECK(s.mem[i].begin_ == 0 && s.mem[i].size_ == 0 && s.mem[i].capacity_ == 0, "a new bucket is not empty");
  CHECK(s.mem[0].begin_ == s.o.begin_ && s.mem[0].size_ == s.o.size_ && s.mem[0].capacity_ == 2 && s.mem[1].begin_ == s.a.begin_ && s.mem[1].size_ == s.a.size_ && s.mem[1].capacity_ == 4 && s.m.element_count() == s.count, "a new bucket changes others");
  REACH("done");
}
OB ob_accept_extend() { extend<0>(); }
OB ob_accept_get_or_create() { extend<1>(); }
OB ob_accept_emplace_back() { extend<2>(); }
template <unsigned I> static inline void get() { made<4, true, 8> s; CHECK(s.m.get_or_create(I).index() == I, "get_or_create yields another bucket"); s.is(s.a.size_, 4, s.count); s.stays(); REACH("done"); }
OB ob_accept_get0() { get<0>(); }
OB ob_accept_get1() { get<1>(); }
OB ob_accept_get2() { get<2>(); }
// ---- iterators
template <typename T> static inline void walk(T& m) {
  auto const b = m.begin(), e = m.end();
  CHECK(e - b == 3 && b - e == -3 && b + 3 == e && e - 3 == b && b != e && begin(m) == b && end(m) == e, "iterators of a multimap are not counted right");
  unsigned i = 0; for (auto const x : m) { CHECK(x.index() == i && &x.multimap_ == &m, "iterating over a multimap yields another bucket"); ++i; }
  CHECK(i == 3, "iterating over a multimap misses buckets");
  auto const k = static_cast<int>(some(2)), l = static_cast<int>(some(3)); auto x = b; auto bb = b; x += k; auto const y = b + l;
  CHECK(x.index_ == static_cast<U>(k) && x - b == k && (*x).index() == static_cast<U>(k) && bb[k].index() == static_cast<U>(k), "an iterator of a multimap steps wrongly");
  CHECK((x == y) == (k == l) && (x != y) == (k != l) && (x < y) == (k < l) && (x > y) == (k > l) && (x <= y) == (k <= l) && (x >= y) == (k >= l), "iterators of a multimap compare wrongly");
  auto p = x; auto const q = p++; CHECK(q == x && p - x == 1 && p-- - x == 1 && p == x, "an iterator of a multimap steps wrongly");
  ++p; CHECK(p.index_ == static_cast<U>(k) + 1, "an iterator of a multimap steps wrongly"); --p; CHECK(p == x, "an iterator of a multimap steps wrongly"); p -= k; CHECK(p == b, "an iterator of a multimap steps wrongly");
  REACH("done");
}
#pragma clang diagnostic ignored "-Weverything"
OB ob_accept_walk() { made<4, true, 8> s; walk(s.m); CHECK(s.m.front().index() == 0 && s.m.back().index() == 2 && std::as_const(s.m).front().index() == 0 && std::as_const(s.m).back().index() == 2, "the first or last bucket is wrong"); }
OB ob_accept_walk_const() { made<4, true, 8> s; walk(std::as_const(s.m)); }
