// Texts: where the characters of strings lie, who owns them and what they are
// copies of.  Temporaries lie below W; storages lie in windows of the address space:
// 0: what the first object refers to at the start, 1: what the second one refers
// to, 2: what is allocated, 3: a text of the caller, 4: the next allocation, 6 and 7: the string objects themselves
#pragma once
#include "d_std.h"
#include <cstring>
#include <new>
extern "C" void* an_fresh(void) noexcept;
extern "C" void an_copy(void* to, void const* from, std::size_t n) noexcept;  // copies bytes
extern "C" [[noreturn]] void an_stop(void) noexcept;
#define MUST(c) do { if (!(c)) an_stop(); } while (0)
namespace tx {
constexpr unsigned N = 5;
constexpr std::uint64_t W = 1ULL << 50;
static std::uint64_t base[N], bytes[N], from[N], fromn[N];
static std::uint64_t heap[N];     // 1: allocated, 2: freed, 0: not from the heap
static std::uint64_t obj[2];      // the string objects (16 bytes each)
static std::uint64_t next, can_fail, text_n;
static std::uint64_t mv_src, mv_to, mv_from, mv_n, mvs, set_p, set_n, sets;
static std::uint64_t cmp_a, cmp_b, cmp_n, cmps;
template <unsigned I> static inline void block(std::uint64_t p, std::uint64_t n, std::uint64_t h) {
  MUST(p >= (I + 1) * W && p < (I + 1) * W + W / 4 && n < W / 2 && (p & 15) == 0);
  base[I] = p; bytes[I] = n; from[I] = p; fromn[I] = n; heap[I] = h;
}
static inline void start() {
  for (unsigned i = 0; i < N; ++i) base[i] = bytes[i] = from[i] = fromn[i] = heap[i] = 0;
  obj[0] = obj[1] = 0; next = 2; can_fail = 0; text_n = 0;
  mv_to = mv_from = mv_n = mvs = set_p = set_n = sets = cmp_a = cmp_b = cmp_n = cmps = 0;
}
static std::uint64_t o_p, o_n;  // the origin of what is read
static unsigned o_block;         // the storage it is read from
template <unsigned I> static inline void read_in(std::uint64_t p, std::uint64_t n) {
  CHECK(p >= base[I] && p + n <= base[I] + bytes[I], "characters are read outside of the text");
  CHECK(heap[I] != 2, "characters are read from storage that is freed");
  o_block = I;
  if (p - base[I] + n <= fromn[I]) { o_p = from[I] + (p - base[I]); o_n = n; } else { o_p = 0; o_n = 0; }
}
template <unsigned I> static inline void write_in(std::uint64_t p, std::uint64_t n) {
  CHECK(p >= base[I] && p + n <= base[I] + bytes[I], "characters are written outside of the storage");
  CHECK(heap[I] == 1, "characters are written to storage that is not owned");
}
template <unsigned I> static inline void copied_in(std::uint64_t p, std::uint64_t n) {
  write_in<I>(p, n);
  if (p == base[I]) { from[I] = o_p; fromn[I] = o_n; } else { from[I] = 0; fromn[I] = 0; }
}
// moved inside of a storage, or copied from elsewhere
template <unsigned I> static inline void moved_in(std::uint64_t p, std::uint64_t n) {
  if (o_block != I) { copied_in<I>(p, n); return; }
  write_in<I>(p, n);
  mv_to = p; mv_from = mv_src; mv_n = n; ++mvs;
}
template <unsigned I> static inline void freed_in(std::uint64_t p, std::uint64_t) {
  CHECK(p == base[I], "the address of an allocation is not what is freed");
  CHECK(heap[I] == 1, "storage is freed that is not owned");
  heap[I] = 2;
}
#define TX_DISPATCH(F, p, n)                                  \
  if (p < 2 * W) F<0>(p, n); else if (p < 3 * W) F<1>(p, n);  \
  else if (p < 4 * W) F<2>(p, n); else if (p < 5 * W) F<3>(p, n); \
  else if (p < 6 * W) F<4>(p, n); \
  else CHECK(false, "characters outside of every storage are used")
static inline bool in_place(std::uint64_t p) { return p < W || p >= 6 * W; }
template <unsigned I> static inline void place(std::uint64_t p) { MUST(p >= (6 + I) * W && p < (6 + I) * W + W / 2 && (p & 7) == 0); obj[I] = p; }
// an object's own bytes
static inline void object(std::uint64_t p, std::uint64_t n) {
  CHECK(p != 0, "a null pointer is used");
  if (p < 6 * W) { CHECK(p < W, "characters outside of every storage are used"); return; }  // a temporary
  if (p < 7 * W) CHECK(p >= obj[0] && p + n <= obj[0] + 16, "characters outside of the object are used");
  else CHECK(p >= obj[1] && p + n <= obj[1] + 16, "characters outside of the object are used");
}
static inline void source(std::uint64_t p, std::uint64_t n) { if (in_place(p)) { object(p, n); o_p = 0; o_n = 0; o_block = N; } else { TX_DISPATCH(read_in, p, n); } }
#ifndef TX_CHAR
#define TX_CHAR char
#endif
static inline void exact(void* d, void const* s, std::uint64_t n) {
  switch (n) {
#define TX_CASE(K) case K: an_copy(d, s, K); break;
    TX_CASE(1) TX_CASE(2) TX_CASE(3) TX_CASE(4) TX_CASE(5) TX_CASE(6) TX_CASE(7) TX_CASE(8)
    TX_CASE(9) TX_CASE(10) TX_CASE(11) TX_CASE(12) TX_CASE(13) TX_CASE(14) TX_CASE(15) TX_CASE(16)
    default: CHECK(false, "characters outside of the object are used");
  }
}
static inline bool no_blocks() { return heap[0] != 1 && heap[1] != 1 && heap[2] != 1 && heap[4] != 1; }
#define NO_LEAK CHECK(tx::no_blocks(), "storage is lost")
}  // namespace tx
extern "C" {
void* model_malloc(std::size_t n) {
  using namespace tx;
  if (can_fail && (an_any_u64() & 1)) return nullptr;
  if (n >= W / 2) return nullptr;
  auto const m = an_fresh();
  CHECK(next <= 4, "storage is allocated that is not needed");
  if (next == 2) { block<2>(adr(m), n, 1); fromn[2] = 0; next = 4; } else { block<4>(adr(m), n, 1); fromn[4] = 0; next = 5; }
  return m;
}
void model_free(void* x) {
  using namespace tx;
  auto const p = adr(x);
  if (p == 0) return;
  CHECK(!in_place(p), "storage is freed that is not owned");
  TX_DISPATCH(freed_in, p, 0);
}
void* model_memcpy(void* d, void const* s, std::size_t n) {
  using namespace tx;
  if (n == 0) return d;
  auto const p = adr(d);
  if (n == 8 && p < W && adr(s) < W) { __builtin_memcpy(d, s, 8); return d; }  // between temporaries
  source(adr(s), n);
  if (in_place(p)) { object(p, n); exact(d, s, n); return d; }
  CHECK(!in_place(adr(s)), "characters of an object are copied to the heap");
  TX_DISPATCH(copied_in, p, n);
  return d;
}
void* model_memmove(void* d, void const* s, std::size_t n) {
  using namespace tx;
  if (n == 0) return d;
  auto const p = adr(d);
  source(adr(s), n);
  if (in_place(p)) { object(p, n); exact(d, s, n); return d; }
  CHECK(!in_place(adr(s)), "characters of an object are copied to the heap");
  mv_src = adr(s);
  TX_DISPATCH(moved_in, p, n);
  return d;
}
void* model_memset(void* d, int c, std::size_t n) {
  using namespace tx;
  if (n == 0) return d;
  auto const p = adr(d);
  if (in_place(p)) {
    object(p, n);
    switch (n) {
#define TX_SET(K) case K: __builtin_memset(d, c, K); break;
      TX_SET(1) TX_SET(2) TX_SET(3) TX_SET(4) TX_SET(5) TX_SET(6) TX_SET(7) TX_SET(8)
      TX_SET(9) TX_SET(10) TX_SET(11) TX_SET(12) TX_SET(13) TX_SET(14) TX_SET(15) TX_SET(16)
      default: CHECK(false, "characters outside of the object are used");
    }
    return d;
  }
  TX_DISPATCH(write_in, p, n);
  set_p = p; set_n = n; ++sets;
  return d;
}
void* model_memchr(void const* s, int c, std::size_t n) {
  tx::object(adr(s), n);
#pragma unroll
  for (std::size_t i = 0; i < 16; ++i) {
    if (i == n) break;
    if (static_cast<char const*>(s)[i] == static_cast<char>(c)) return const_cast<char*>(static_cast<char const*>(s)) + i;
  }
  CHECK(n <= 16, "characters outside of the object are used");
  return nullptr;
}
std::size_t model_strlen(char const* s) { CHECK(adr(s) == tx::base[3], "the length of another text is taken"); return tx::text_n; }
int model_memcmp(void const* a, void const* b, std::size_t n) {
  using namespace tx;
  if (n == 0) return 0;
  source(adr(a), n); source(adr(b), n);
  cmp_a = adr(a); cmp_b = adr(b); cmp_n = n; ++cmps;
  return static_cast<int>(an_any_u64());
}
}
