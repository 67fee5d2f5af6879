// FLAGS: -DCISTA_XXH3 -I@H/stub -fno-builtin-memcpy -fno-builtin-memmove
// I01: the in-memory target appends and patches exactly the requested bytes
#include "d_std.h"
#include <cstring>
#include "cista/targets/buf.h"
#include "cista/hash.h"
namespace c = cista;
extern "C" [[noreturn]] void an_stop(void) noexcept;
extern "C" void* an_fresh(void) noexcept;
#define MUST(c) do { if (!(c)) an_stop(); } while (0)
namespace gh {
static std::uint64_t base, size_; static unsigned moves; static std::uint64_t al;
static unsigned copies; static std::uint64_t c_to, c_len; static void const* c_from;
static bool unclean;
struct store {
  using value_type = std::uint8_t;
  std::size_t size() const { return size_; }
  bool empty() const { return size_ == 0; }
  // growing may move the storage; its alignment is kept
  void move() {
    ++moves; base = an_any_u64();
    MUST(base != 0 && base < (1ULL << 46) && (base & (al - 1)) == 0);
  }
  void resize(std::size_t n) {
    MUST(n < (1ULL << 46));
    if (n < size_) unclean = true;
    size_ = n; move();
  }
  void resize(std::size_t n, std::uint8_t) { resize(n); }
  void reserve(std::size_t) { move(); }
  std::uint8_t* data() const { return reinterpret_cast<std::uint8_t*>(base); }
  std::uint8_t* begin() const { return data(); }
  std::uint8_t* end() const { return data() + size_; }
  std::uint8_t& operator[](std::size_t i) const { return data()[i]; }
};
}
static void* copy(void* to, void const* from, std::size_t n) {
  if (n != 0) { ++gh::copies; gh::c_to = adr(to); gh::c_from = from; gh::c_len = n;
    CHECK(zu(gh::c_to) >= zu(gh::base) && zu(gh::c_to) + zu(n) <= zu(gh::base) + zu(gh::size_), "bytes are written outside the buffer"); }
  return to;
}
extern "C" void* model_memcpy(void* to, void const* from, std::size_t n) { return copy(to, from, n); }
extern "C" void* model_memmove(void* to, void const* from, std::size_t n) { return copy(to, from, n); }
static inline bool setup(std::uint64_t al) {
  gh::al = al; gh::copies = 0; gh::moves = 0; gh::unclean = false;
  gh::base = an_any_u64(); gh::size_ = an_any_u64();
  return gh::base != 0 && gh::base < (1ULL << 46) && (gh::base & (al - 1)) == 0 && gh::size_ < (1ULL << 45);
}
using target = c::buf<gh::store>;
static inline void append(void const* p, std::size_t n, std::size_t al) {
  ASSUME(n < (1ULL << 45) && adr(p) != 0U);
  ASSUME(setup(al <= 1 ? 1 : al));
  auto const old = gh::size_;
  target t;
  auto const at = t.write(p, n, al);
  REACH("appended");
  CHECK(at >= 0 && zs(at) >= zu(old), "a block overlaps bytes written earlier");
  if (al > 1) CHECK((static_cast<std::uint64_t>(at) & (al - 1)) == 0, "a block is not aligned");
  CHECK(zs(at) < zu(old) + zu(al <= 1 ? 1 : al), "more than the alignment padding is inserted");
  CHECK(!gh::unclean, "the image is shortened");
  if (n != 0) {
    CHECK(zu(gh::size_) == zs(at) + zu(n), "the image does not end behind the appended block");
    CHECK(gh::copies == 1 && gh::c_from == p && zu(gh::c_to) == zu(gh::base) + zs(at) && gh::c_len == n, "the block is not copied completely to the returned position");
  } else CHECK(zu(gh::size_) <= zs(at) && gh::copies == 0, "an empty block changes the image");
}
OB ob_append_0(void const* p, std::size_t n) { append(p, n, 0); }
OB ob_append_1(void const* p, std::size_t n) { append(p, n, 1); }
OB ob_append_2(void const* p, std::size_t n) { append(p, n, 2); }
OB ob_append_4(void const* p, std::size_t n) { append(p, n, 4); }
OB ob_append_8(void const* p, std::size_t n) { append(p, n, 8); }
OB ob_append_16(void const* p, std::size_t n) { append(p, n, 16); }
OB ob_append_64(void const* p, std::size_t n) { append(p, n, 64); }
OB ob_append_4096(void const* p, std::size_t n) { append(p, n, 4096); }
OB ob_append_default(void const* p, std::size_t n) {
  ASSUME(n < (1ULL << 45) && n != 0 && adr(p) != 0U);
  ASSUME(setup(1)); auto const old = gh::size_;
  target t; auto const at = t.write(p, n);
  REACH("appended");
  CHECK(zs(at) == zu(old) && zu(gh::size_) == zs(at) + zu(n), "a block without alignment is not appended directly");
}
// patching: exactly the value's bytes, or an exception
template <typename T> static inline void patch(std::size_t pos, T const* v, bool must) {
  ASSUME(adr(v) != 0U);
  ASSUME(setup(1));
  auto const old = gh::size_;
  if (must) ASSUME(zu(pos) + sizeof(T) <= zu(old));
  target t; t.write(pos, *v);
  REACH("patched");
  CHECK(zu(pos) + sizeof(T) <= zu(old) && gh::size_ == old, "a value is written beyond the end of the image");
  CHECK(gh::copies == 1 && gh::c_from == v && gh::c_len == sizeof(T) && zu(gh::c_to) == zu(gh::base) + zu(pos), "a value is not written completely to its position");
}
struct odd { char x[3]; };
OB ob_patch_8(std::size_t p, std::uint64_t* v) { patch(p, v, false); }
OB ob_patch_4(std::size_t p, std::uint32_t* v) { patch(p, v, false); }
OB ob_patch_1(std::size_t p, bool* v) { patch(p, v, false); }
OB ob_accept_patch_8(std::size_t p, std::uint64_t* v) { patch(p, v, true); }
OB ob_accept_patch_1(std::size_t p, bool* v) { patch(p, v, true); }
// the checksum covers the image from the given position to its end
static unsigned digests;
extern "C" std::uint64_t model_an_digest(void const* p, std::size_t n, std::uint64_t seed) noexcept {
  ++digests;
  CHECK(zu(adr(p)) == zu(gh::base) + zu(gh::c_to) && zu(n) == zu(gh::size_) - zu(gh::c_to), "the checksum does not cover the image from the given position to its end");
  CHECK(seed == c::BASE_HASH, "the checksum does not start from the fixed seed");
  return gh::c_len = an_any_u64();
}
OB ob_checksum(c::offset_t from) {
  ASSUME(setup(1)); ASSUME(from >= 0 && static_cast<std::uint64_t>(from) <= gh::size_);
  gh::c_to = static_cast<std::uint64_t>(from); digests = 0;
  target t;
  auto const d = t.checksum(from);
  REACH("digested");
  CHECK(digests == 1 && d == gh::c_len, "the checksum is not the digest");
}
