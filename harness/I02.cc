// FLAGS: -DCISTA_XXH3 -I@H/stub
// I02: the file target - every byte at its place, every failure surfaced
#include "d_std.h"
#include <cstring>
#include "cista/targets/file.h"
namespace c = cista;
extern "C" [[noreturn]] void an_stop(void) noexcept;
extern "C" void* an_fresh(void) noexcept;
extern "C" void an_havoc(void*) noexcept;
#define MUST(c) do { if (!(c)) an_stop(); } while (0)
using off = c::offset_t;
namespace gh {
static bool failed, open_; static std::int64_t cur, end_;  // the open file: position and size
static void* handle;
static void const* src; static std::uint64_t done; static std::int64_t at; static bool writing;
static void const* r_ptr; static std::uint64_t r_len, r_total; static std::int64_t r_at;  // last read
static std::uint64_t h_total, h_last; static unsigned closes;
static bool coin() { return (an_any_u64() & 1U) != 0U; }
}
extern "C" int model_fseek(FILE* f, long o, int whence) {
  CHECK(f == gh::handle && gh::open_, "a file that is not open is used");
  CHECK(whence != SEEK_CUR, "relative seek");
  if (gh::coin()) { gh::failed = true; return -1; }
  gh::cur = whence == SEEK_END ? gh::end_ + o : o;
  return 0;
}
extern "C" std::size_t model_fwrite(void const* p, std::size_t s, std::size_t n, FILE* f) {
  CHECK(f == gh::handle && gh::open_, "a file that is not open is used");
  CHECK(s == 1, "byte count");
  if (!gh::writing) { gh::writing = true; gh::at = gh::cur; }
  CHECK(zu(adr(p)) == zu(adr(gh::src)) + zu(gh::done) && zs(gh::cur) == zs(gh::at) + zu(gh::done), "bytes are not written one after the other");
  if (gh::coin()) {
    gh::failed = true;
    auto const r = an_any_u64(); MUST(r < n);
    gh::cur += static_cast<std::int64_t>(r); return r;
  }
  gh::cur += static_cast<std::int64_t>(n); gh::done += n;
  if (gh::cur > gh::end_) gh::end_ = gh::cur;
  return n;
}
extern "C" std::size_t model_fread(void* p, std::size_t s, std::size_t n, FILE* f) {
  CHECK(f == gh::handle && gh::open_, "a file that is not open is used");
  CHECK(s == 1, "byte count");
  an_havoc(p);
  if (gh::coin() || zs(gh::cur) + zu(n) > zs(gh::end_)) {
    gh::failed = true;
    auto const r = an_any_u64(); MUST(r < n); return r;
  }
  gh::r_ptr = p; gh::r_len = n; gh::r_at = gh::cur; gh::r_total += n;
  gh::cur += static_cast<std::int64_t>(n);
  return n;
}
extern "C" std::uint64_t model_an_digest(void const* p, std::size_t n, std::uint64_t seed) noexcept {
  CHECK(p == gh::r_ptr && n == gh::r_len, "the digest does not cover exactly the bytes just read");
  CHECK(seed == gh::h_last, "the digest of a chunk does not continue the previous one");
  gh::h_total += n;
  return gh::h_last = an_any_u64();
}
static inline void setup() {
  gh::failed = false; gh::open_ = true; gh::handle = an_fresh(); gh::cur = static_cast<std::int64_t>(an_any_u64()); gh::end_ = static_cast<std::int64_t>(an_any_u64());
  gh::done = 0; gh::writing = false; gh::at = 0; gh::r_total = 0; gh::h_total = 0; gh::h_last = c::BASE_HASH; gh::closes = 0; gh::r_ptr = nullptr;
  MUST(gh::handle != nullptr && gh::cur >= 0 && gh::cur < (1LL << 46) && gh::end_ >= 0 && gh::end_ < (1LL << 45));
}
union holder { c::file f; holder() {} ~holder() {} };
static inline void append(void const* p, std::size_t n, std::size_t al) {
  ASSUME(n < (1ULL << 45) && n > 0 && adr(p) != 0U && adr(p) < (1ULL << 46));
  setup();
  auto const old = gh::end_;
  holder h; h.f.f_ = static_cast<FILE*>(gh::handle); h.f.size_ = static_cast<std::size_t>(old);
  gh::src = p;
  auto const at = h.f.write(p, n, al);
  REACH("appended");
  CHECK(!gh::failed, "a failing seek or write is not reported");
  CHECK(at >= old, "a block overlaps bytes written earlier");
  if (al > 1) CHECK((static_cast<std::uint64_t>(at) & (al - 1)) == 0, "a block is not aligned");
  CHECK(zs(at) < zs(old) + zu(al <= 1 ? 1 : al), "more than the alignment padding is inserted");
  CHECK(gh::writing && gh::at == at && gh::done == n, "the block is not written completely to the returned position");
  CHECK(zu(h.f.size_) == zs(gh::end_) && zs(gh::end_) == zs(at) + zu(n), "the recorded file size is not the end of the appended block");
}
OB ob_append_0(void const* p, std::size_t n) { append(p, n, 0); }
OB ob_append_1(void const* p, std::size_t n) { append(p, n, 1); }
OB ob_append_2(void const* p, std::size_t n) { append(p, n, 2); }
OB ob_append_8(void const* p, std::size_t n) { append(p, n, 8); }
OB ob_append_16(void const* p, std::size_t n) { append(p, n, 16); }
OB ob_append_4096(void const* p, std::size_t n) { append(p, n, 4096); }
template <typename T> static inline void patch(std::size_t pos, T const* v) {
  ASSUME(adr(v) != 0U && adr(v) < (1ULL << 46));
  setup();
  auto const old = gh::end_;
  ASSUME(zu(pos) + sizeof(T) <= zs(old));
  holder h; h.f.f_ = static_cast<FILE*>(gh::handle); h.f.size_ = static_cast<std::size_t>(old);
  gh::src = v;
  h.f.write(pos, *v);
  REACH("patched");
  CHECK(!gh::failed, "a failing seek or write is not reported");
  CHECK(gh::writing && zs(gh::at) == zu(pos) && gh::done == sizeof(T), "a value is not written completely to its position");
  CHECK(zu(h.f.size_) == zs(old) && gh::end_ == old, "patching changes the file size");
}
OB ob_patch_8(std::size_t p, std::uint64_t* v) { patch(p, v); }
OB ob_patch_4(std::size_t p, std::uint32_t* v) { patch(p, v); }
OB ob_patch_1(std::size_t p, bool* v) { patch(p, v); }
OB ob_checksum(off from) {
  setup();
  ASSUME(from >= 0 && from <= gh::end_);
  holder h; h.f.f_ = static_cast<FILE*>(gh::handle); h.f.size_ = static_cast<std::size_t>(gh::end_);
  auto const d = h.f.checksum(from);
  REACH("digested");
  CHECK(!gh::failed, "a failing seek or read is not reported");
  CHECK(zu(gh::h_total) == zs(gh::end_) - zs(from), "the checksum does not cover the file from the given position to its end");
  CHECK(gh::h_total == gh::r_total && gh::cur == gh::end_, "the checksum covers bytes that were not read");
  CHECK(d == gh::h_last, "the checksum is not the digest");
}
