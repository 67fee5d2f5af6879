// Serialiser obligations: a target that records what is written where.
#pragma once
#include "d_common.h"
extern "C" [[noreturn]] void an_stop(void) noexcept;
#define MUST(c) do { if (!(c)) an_stop(); } while (0)

namespace sr {
using off = c::offset_t;
// appended blocks
static unsigned blocks;
static void const* b_ptr[3];
static std::uint64_t b_len[3], b_al[3];
static off b_at[3];
// positioned writes: the last value at each watched position
static off w_pos[6];
static std::uint64_t w_val[6], w_len[6];
static unsigned w_cnt[6], others;
// ranges / offsets registered for later pointer resolution
static unsigned ranges, regs;
static void const* r_ptr; static off r_start; static std::uint64_t r_len;
static void const* o_ptr; static off o_at;

static off floor_;  // blocks are appended behind everything written so far
static inline void start(std::initializer_list<off> ws, off fl = 0) {
  floor_ = fl;
  blocks = 0; others = 0; ranges = regs = 0; r_ptr = o_ptr = nullptr; r_start = o_at = 0; r_len = 0;
  for (int i = 0; i < 3; ++i) { b_ptr[i] = nullptr; b_len[i] = b_al[i] = 0; b_at[i] = 0; }
  for (int i = 0; i < 6; ++i) { w_pos[i] = -1; w_cnt[i] = 0; w_val[i] = w_len[i] = 0; }
  int k = 0;
  for (auto w : ws) w_pos[k++] = w;
}
struct target {
  off write(void const* p, std::size_t n, std::size_t a) {
    auto const at = static_cast<off>(an_any_u64());
    MUST(at >= floor_ && at < (1LL << 46));
    if (blocks < 3) { b_ptr[blocks] = p; b_len[blocks] = n; b_al[blocks] = a; b_at[blocks] = at; }
    ++blocks;
    return at;
  }
  template <typename T>
  void write(std::size_t pos, T const& v) {
    bool seen = false;
    for (int i = 0; i < 6; ++i)
      if (w_pos[i] == static_cast<off>(pos)) {
        std::uint64_t x = 0;
        if constexpr (sizeof(T) == 1) x = byte_of(v); else if constexpr (sizeof(T) == 2) x = *reinterpret_cast<std::uint16_t const*>(&v);
        else if constexpr (sizeof(T) == 4) x = *reinterpret_cast<std::uint32_t const*>(&v); else x = *reinterpret_cast<std::uint64_t const*>(&v);
        w_val[i] = x; w_len[i] = sizeof(T); ++w_cnt[i]; seen = true;
      }
    if (!seen) ++others;
  }
  std::uint64_t checksum(off) const { return an_any_u64(); }
};
template <c::mode M>
struct ctx : c::serialization_context<target, M> {
  using parent = c::serialization_context<target, M>;
  using parent::parent;
  struct reg {
    struct slot { void const* p; slot& operator=(off at) { ++regs; o_ptr = p; o_at = at; return *this; } };
    slot operator[](void const* p) { return slot{p}; }
    void emplace(void const* p, off at) { ++regs; o_ptr = p; o_at = at; }
  } offsets_;
  struct rng {
    void emplace(void const* p, c::vector_range r) { ++ranges; r_ptr = p; r_start = r.start_; r_len = r.size_; }
  } vector_ranges_;
};
template <c::mode M> static inline std::uint64_t e64(std::uint64_t v) { return (M & c::mode::SERIALIZE_BIG_ENDIAN) != c::mode::NONE ? __builtin_bswap64(v) : v; }
template <c::mode M> static inline std::uint32_t e32(std::uint32_t v) { return (M & c::mode::SERIALIZE_BIG_ENDIAN) != c::mode::NONE ? __builtin_bswap32(v) : v; }
static inline bool place(off p) { return p >= 0 && p < (1LL << 46); }
template <typename S, typename Mb> static inline off mo(S const* s, Mb const* m) { return static_cast<off>(reinterpret_cast<char const*>(m) - reinterpret_cast<char const*>(s)); }
// the stored distance of pointer slot `i` designates `target`
template <c::mode M> static inline bool designates(int i, off slot, off target) {
  return w_cnt[i] >= 1 && w_len[i] == 8 && zs(static_cast<off>(e64<M>(w_val[i]))) + zs(slot) == zs(target);
}
template <c::mode M> static inline bool is_null(int i) { return w_cnt[i] >= 1 && w_len[i] == 8 && e64<M>(w_val[i]) == static_cast<std::uint64_t>(c::NULLPTR_OFFSET); }
template <c::mode M> static inline bool has32(int i, std::uint32_t v) { return w_cnt[i] >= 1 && w_len[i] == 4 && e32<M>(static_cast<std::uint32_t>(w_val[i])) == v; }
template <c::mode M> static inline bool has64(int i, std::uint64_t v) { return w_cnt[i] >= 1 && w_len[i] == 8 && e64<M>(w_val[i]) == v; }
static inline bool has8(int i, std::uint8_t v) { return w_cnt[i] >= 1 && w_len[i] == 1 && w_val[i] == v; }
}  // namespace sr
constexpr auto N = c::mode::NONE, BE = c::mode::SERIALIZE_BIG_ENDIAN;
// an element type whose own serialisation is recorded
namespace pe {
struct el { std::uint64_t a; std::uint32_t b; };
static std::uint64_t cnt;
static el const* first; static c::offset_t at;
template <typename Ctx> static inline void serialize(Ctx&, el const* p, c::offset_t pos) {
  if (cnt == 0) { first = p; at = pos; }
  else {
    CHECK(p == first + cnt, "elements are not serialised one after the other");
    CHECK(zs(pos) == zs(at) + zu(cnt) * static_cast<Z>(sizeof(el)), "an element is serialised to a wrong position");
  }
  ++cnt;
}
static inline void start() { cnt = 0; first = nullptr; at = 0; }
}  // namespace pe
using pe::el;
