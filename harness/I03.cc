// I03: file handles and memory mappings are released exactly once, mapped files end with exactly the used size
#include "d_std.h"
#include <cstring>
#include "cista/verify.h"
// The text of the message is irrelevant here; that verify_str() stops on a false condition is checked below.
static void checked_verify_str(bool c) { cista::verify_str(c, std::string{}); }
#define verify_str(c, msg) verify(c, "")
#include "cista/mmap.h"
namespace c = cista;
extern "C" [[noreturn]] void an_stop(void) noexcept;
extern "C" void* an_fresh(void) noexcept;
#define MUST(c) do { if (!(c)) an_stop(); } while (0)
namespace gh {
static bool coin() { return (an_any_u64() & 1U) != 0U; }
static FILE* file_[2]; static unsigned closes[2]; static bool open_[2]; static std::uint64_t fsz[2];
static std::uint64_t addr[2], len[2]; static bool live[2]; static unsigned maps;
static int idx(int fd) { return fd - 3; }
static unsigned opened; static bool failed;
}
extern "C" FILE* model_fopen(char const*, char const*) {
  if (gh::coin()) { gh::failed = true; return nullptr; }
  gh::open_[0] = true; ++gh::opened;
  return gh::file_[0];
}
extern "C" int model_fclose(FILE* f) {
  CHECK(f != nullptr, "a null handle is closed");
  for (int i = 0; i < 2; ++i)
    if (f == gh::file_[i]) { CHECK(gh::open_[i], "a file is closed twice"); gh::open_[i] = false; ++gh::closes[i]; return 0; }
  CHECK(false, "an unknown handle is closed");
  return 0;
}
extern "C" int model_fileno(FILE* f) {
  for (int i = 0; i < 2; ++i) if (f == gh::file_[i]) { CHECK(gh::open_[i], "a closed file is used"); return i + 3; }
  CHECK(false, "an unknown handle is used");
  return -1;
}
extern "C" int model_fstat(int fd, struct stat* s) {
  if (gh::coin()) { gh::failed = true; return -1; }
  s->st_size = static_cast<off_t>(gh::fsz[gh::idx(fd)]);
  return 0;
}
extern "C" int model_ftruncate(int fd, off_t n) {
  auto const i = gh::idx(fd);
  CHECK(!gh::live[i] || zs(n) >= zu(gh::len[i]), "a file is cut below its live mapping");
  if (gh::coin()) { gh::failed = true; return -1; }
  gh::fsz[i] = static_cast<std::uint64_t>(n);
  return 0;
}
extern "C" void* model_mmap(void* hint, std::size_t n, int, int flags, int fd, off_t o) {
  auto const i = gh::idx(fd);
  CHECK(hint == nullptr && o == 0 && (flags & MAP_SHARED) != 0, "not a shared mapping of the file from its start");
  CHECK(!gh::live[i], "a file is mapped while its previous mapping is live");
  CHECK(zu(n) <= zu(gh::fsz[i]), "more than the file is mapped");
  if (n == 0 || gh::coin()) { gh::failed = true; return MAP_FAILED; }
  gh::addr[i] = an_any_u64(); MUST(gh::addr[i] != 0 && gh::addr[i] < (1ULL << 46));
  gh::len[i] = n; gh::live[i] = true; ++gh::maps;
  return reinterpret_cast<void*>(gh::addr[i]);
}
extern "C" int model_munmap(void* a, std::size_t n) {
  for (int i = 0; i < 2; ++i)
    if (gh::live[i] && adr(a) == gh::addr[i]) {
      CHECK(n == gh::len[i], "not exactly the mapped range is unmapped");
      gh::live[i] = false;
      return 0;
    }
  CHECK(false, "something that is not mapped is unmapped");
  return -1;
}
extern "C" int model_msync(void* a, std::size_t n, int) {
  bool k = false;
  for (int i = 0; i < 2; ++i) if (gh::live[i] && adr(a) == gh::addr[i]) { k = true; CHECK(n <= gh::len[i], "more than the mapped range is synced"); }
  CHECK(k, "something that is not mapped is synced");
  if (gh::coin()) { gh::failed = true; return -1; }
  return 0;
}
static void reset() {
  for (int i = 0; i < 2; ++i) { gh::file_[i] = static_cast<FILE*>(an_fresh()); gh::closes[i] = 0; gh::open_[i] = false; gh::live[i] = false; gh::fsz[i] = an_any_u64(); gh::addr[i] = gh::len[i] = 0; MUST(gh::fsz[i] < (1ULL << 45) && gh::file_[i] != nullptr); }
  MUST(gh::file_[0] != gh::file_[1]);
  gh::opened = 0; gh::failed = false; gh::maps = 0;
}
template <typename T> union holder { T v; holder() {} ~holder() {} };
static void own(c::file& f, int i) { f.f_ = gh::file_[i]; f.size_ = gh::fsz[i]; gh::open_[i] = true; }
#define RELEASED(i) CHECK(!gh::open_[i] && gh::closes[i] == 1, "a file handle is not closed exactly once")

OB ob_verify_str(bool b) { checked_verify_str(b); REACH("passed"); CHECK(b, "a false condition does not stop"); }
OB ob_verify(bool b) { c::verify(b, "m"); REACH("passed"); CHECK(b, "a false condition does not stop"); }
OB ob_file_open(char const* path, char const* mode) {
  reset();
  holder<c::file> a;
  new (&a.v) c::file(path, mode);
  REACH("opened");
  CHECK(!gh::failed && gh::open_[0] && a.v.f_ == gh::file_[0] && a.v.size_ == gh::fsz[0], "a file that cannot be opened or measured is not reported");
  a.v.~file();
  RELEASED(0);
}
OB ob_file_move(void) {
  reset();
  holder<c::file> a, b; own(a.v, 0);
  new (&b.v) c::file(std::move(a.v));
  CHECK(b.v.f_ == gh::file_[0] && b.v.size_ == gh::fsz[0], "the moved-to file is not the source");
  a.v.~file();
  CHECK(gh::open_[0], "the moved-to file is closed with its source");
  b.v.~file();
  REACH("moved"); RELEASED(0);
}
OB ob_file_move_assign(void) {
  reset();
  holder<c::file> a, b; own(a.v, 0); own(b.v, 1);
  b.v = std::move(a.v);
  CHECK(b.v.f_ == gh::file_[0] && b.v.size_ == gh::fsz[0], "the moved-to file is not the source");
  a.v.~file(); b.v.~file();
  REACH("moved"); RELEASED(0); RELEASED(1);
}
OB ob_file_move_assign_empty(void) {
  reset();
  holder<c::file> a, b; own(a.v, 0); new (&b.v) c::file();
  b.v = std::move(a.v);
  a.v.~file(); b.v.~file();
  REACH("moved"); RELEASED(0);
}
OB ob_file_self_move(void) {
  reset();
  holder<c::file> a; own(a.v, 0);
  auto& r = a.v;
  a.v = std::move(r);
  CHECK(a.v.f_ == gh::file_[0] && gh::open_[0] && a.v.size_ == gh::fsz[0], "assigning a file to itself loses it");
  a.v.~file();
  REACH("moved"); RELEASED(0);
}
// ---- mappings
using P = c::mmap::protection;
static void mapped(c::mmap& m, int i, P p) {
  own(m.f_, i);
  m.prot_ = p; m.size_ = an_any_u64(); m.used_size_ = an_any_u64();
  MUST(m.used_size_ <= m.size_ && m.size_ <= gh::fsz[i]);
  if (p == P::READ) MUST(m.used_size_ == m.size_ && m.size_ == gh::fsz[i]);
  if (gh::coin()) {
    MUST(m.size_ == 0); m.addr_ = nullptr;
    MUST(gh::fsz[i] == 0);
  } else {
    MUST(m.size_ != 0);
    gh::addr[i] = an_any_u64(); MUST(gh::addr[i] != 0 && gh::addr[i] < (1ULL << 46));
    if (i == 1) MUST(gh::addr[1] != gh::addr[0]);
    gh::live[i] = true; gh::len[i] = m.size_;
    m.addr_ = reinterpret_cast<void*>(gh::addr[i]);
  }
}
static void inv(c::mmap& m, int i) {
  CHECK(m.used_size_ <= m.size_ && m.size_ <= gh::fsz[i], "the mapping claims more bytes than the file has");
  if (m.addr_ == nullptr) CHECK(m.size_ == 0 && !gh::live[i], "bytes are claimed without a mapping");
  else CHECK(gh::live[i] && adr(m.addr_) == gh::addr[i] && m.size_ == gh::len[i], "the mapping in use is not the live one");
}
static void open_map(char const* path, P p) {
  reset();
  holder<c::mmap> m;
  new (&m.v) c::mmap(path, p);
  REACH("mapped");
  CHECK(!gh::failed, "a failing operation is not reported");
  inv(m.v, 0);
  CHECK(m.v.size() == gh::fsz[0], "the mapped size is not the file size");
}
OB ob_map_read(char const* p) { open_map(p, P::READ); }
OB ob_map_write(char const* p) { open_map(p, P::WRITE); }
OB ob_map_modify(char const* p) { open_map(p, P::MODIFY); }
static void resize(std::size_t n, P p, bool reserve) {
  ASSUME(n < (1ULL << 45));
  reset();
  holder<c::mmap> m; mapped(m.v, 0, p);
  auto const old = m.v.used_size_;
  if (reserve) m.v.reserve(n); else m.v.resize(n);
  REACH("resized");
  CHECK(p != P::READ, "a read-only mapping is resized");
  CHECK(!gh::failed, "a failing operation is not reported");
  inv(m.v, 0);
  CHECK(m.v.size_ >= n, "fewer bytes than requested are mapped");
  CHECK(m.v.size() == (reserve ? old : n), "the used size is not the requested one");
}
OB ob_resize_write(std::size_t n) { resize(n, P::WRITE, false); }
OB ob_resize_modify(std::size_t n) { resize(n, P::MODIFY, false); }
OB ob_reserve_write(std::size_t n) { resize(n, P::WRITE, true); }
static void destroy(P p) {
  reset();
  holder<c::mmap> m; mapped(m.v, 0, p);
  auto const used = m.v.used_size_; auto const before = gh::fsz[0];
  m.v.~mmap();
  REACH("destroyed");
  CHECK(!gh::live[0], "the mapping is not released");
  CHECK(gh::fsz[0] == (p == P::READ ? before : used), "the file does not end with exactly the used bytes");
  RELEASED(0);
}
OB ob_destroy_read(void) { destroy(P::READ); }
OB ob_destroy_write(void) { destroy(P::WRITE); }
OB ob_destroy_modify(void) { destroy(P::MODIFY); }
OB ob_map_default(void) {
  reset();
  holder<c::mmap> m;
  std::memset(static_cast<void*>(&m.v), static_cast<int>(an_any_u64()), sizeof(m.v));
  new (&m.v) c::mmap;
  CHECK(m.v.size() == 0 && m.v.data() == nullptr, "a default mapping is not empty");
  m.v.~mmap();
  REACH("destroyed");
}
OB ob_map_move(void) {
  reset();
  holder<c::mmap> a, b; mapped(a.v, 0, P::WRITE);
  auto const used = a.v.used_size_;
  new (&b.v) c::mmap(std::move(a.v));
  inv(b.v, 0);
  CHECK(b.v.size() == used, "the moved-to mapping is not the source");
  a.v.~mmap();
  inv(b.v, 0);
  b.v.~mmap();
  REACH("moved");
  CHECK(!gh::live[0] && gh::fsz[0] == used, "the moved-to mapping is not finished properly");
  RELEASED(0);
}
OB ob_map_move_assign(void) {
  reset();
  holder<c::mmap> a, b; mapped(a.v, 0, P::WRITE); mapped(b.v, 1, P::WRITE);
  auto const used = a.v.used_size_, other = b.v.used_size_;
  b.v = std::move(a.v);
  inv(b.v, 0);
  CHECK(b.v.size() == used, "the moved-to mapping is not the source");
  a.v.~mmap(); b.v.~mmap();
  REACH("moved");
  CHECK(!gh::live[0] && gh::fsz[0] == used, "the moved-to mapping is not finished properly");
  CHECK(!gh::live[1] && gh::fsz[1] == other, "the replaced mapping is not finished properly");
  RELEASED(0); RELEASED(1);
}
OB ob_map_self_move(void) {
  reset();
  holder<c::mmap> a; mapped(a.v, 0, P::WRITE);
  auto const used = a.v.used_size_;
  auto& r = a.v;
  a.v = std::move(r);
  inv(a.v, 0);
  CHECK(a.v.size() == used, "assigning a mapping to itself loses it");
  a.v.~mmap();
  REACH("moved");
  CHECK(!gh::live[0] && gh::fsz[0] == used, "the mapping is not finished properly");
  RELEASED(0);
}
