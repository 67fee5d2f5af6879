// S04: layout of a complete image - header, root object, late pointers, checksum
#include "d_std.h"
#include "cista/containers.h"
#include "cista/hash.h"
#include "cista/reflection/for_each_field.h"
#include "cista/serialized_size.h"
#include "cista/strong.h"
#include "cista/targets/buf.h"
#include "cista/targets/file.h"
#include "cista/type_hash/static_type_hash.h"
#include "cista/type_hash/type_hash.h"
namespace c = cista;
extern "C" [[noreturn]] void an_stop(void) noexcept;
extern "C" void* an_fresh(void) noexcept;
#define MUST(c) do { if (!(c)) an_stop(); } while (0)
using off = cista::offset_t;
namespace gh {
static bool o_has; static void const* o_key; static off o_val; static std::uint64_t o_asked;
static bool r_has, r_empty, r_prev; static void const* r_key; static std::uint64_t r_asked;
static unsigned pend; static void const* p_ptr; static off p_pos;
static unsigned phase;      // 0 header, 1 root block written, 2 root serialised, 3 checksum taken, 4 checksum stored
static unsigned head; static std::uint64_t h_val[2]; static off h_at[2]; static off root_at; static off cursor;
static void const* obj; static std::uint64_t sum; static off sum_from; static bool big;
}
namespace gh { static inline void on_find(void const* k); }
#include "s_ghost.h"
#include "cista/serialization.h"
#include "s_ghost_end.h"
constexpr auto V = c::mode::WITH_VERSION, SV = c::mode::WITH_STATIC_VERSION, I = c::mode::WITH_INTEGRITY, B = c::mode::SERIALIZE_BIG_ENDIAN;
static inline std::uint64_t en(std::uint64_t v) { return gh::big ? __builtin_bswap64(v) : v; }
using pend_t = std::an_pending<c::pending_offset>;
namespace pr {
struct root { std::uint64_t a; std::uint32_t b; };
struct alignas(16) wide_root { std::uint64_t a; std::uint32_t b; };
static std::uint64_t wanted;
static inline c::hash_t type_hash(root const&, c::hash_t, std::map<c::hash_t, unsigned>&) noexcept { return wanted; }
static inline c::hash_t type_hash(wide_root const&, c::hash_t, std::map<c::hash_t, unsigned>&) noexcept { return wanted; }
template <typename Ctx, typename R> static inline void root_reached(Ctx&, R const* p, c::offset_t pos) {
  CHECK(gh::phase == 1, "root object serialised before its block was written, or twice");
  CHECK(p == gh::obj && pos == gh::root_at, "root object is not serialised in its own block");
  gh::phase = 2;
}
template <typename Ctx> static inline void serialize(Ctx& c, root const* p, c::offset_t pos) { root_reached(c, p, pos); }
template <typename Ctx> static inline void serialize(Ctx& c, wide_root const* p, c::offset_t pos) { root_reached(c, p, pos); }
}
namespace gh {
static std::size_t root_size, root_align;
struct target {
  off write(void const* p, std::size_t n, std::size_t al) {
    // an empty target: blocks are placed one after the other at the next aligned position (see I01, I02)
    off const at = al <= 1 ? cursor : (cursor + static_cast<off>(al) - 1) / static_cast<off>(al) * static_cast<off>(al);
    cursor = at + static_cast<off>(n);
    CHECK(phase == 0, "a block is appended after the root object");
    if (p == obj) {
      CHECK(n == root_size && al == root_align, "root object is not written completely and aligned");
      root_at = at; phase = 1;
    } else {
      CHECK(n == 8 && head < 2, "header field is not 8 bytes");
      if (head < 2) { h_val[head] = *reinterpret_cast<std::uint64_t const*>(p); h_at[head] = at; }
      ++head;
    }
    return at;
  }
  template <typename T> void write(std::size_t pos, T const& v) {
    CHECK(sizeof(T) == 8, "a pointer or checksum is not written with 8 bytes");
    std::uint64_t const x = *reinterpret_cast<std::uint64_t const*>(&v);
    if (phase == 3) {
      CHECK(static_cast<off>(pos) == h_at[head - 1], "checksum is not stored in its header field");
      CHECK(x == en(sum), "stored checksum is not the computed one");
      phase = 4;
    } else {
      CHECK(phase == 2 && o_asked >= 1 && o_asked <= pend_t::count, "something is written before the root object was serialised or after the checksum was stored");
      CHECK(static_cast<off>(pos) == pend_t::from[o_asked - 1].pos_, "a late pointer is written to a wrong slot");
      if (o_has) CHECK(zs(static_cast<off>(en(x))) == zs(o_val) - zs(static_cast<off>(pos)), "a late pointer designates a wrong object");
    }
  }
  std::uint64_t checksum(off from) const {
    CHECK(phase == 2 && o_asked == pend_t::count && pend == 0, "checksum is computed before all pointers were written");
    phase = 3; sum_from = from;
    return sum = an_any_u64();
  }
};
static inline void on_find(void const* k) {
  CHECK(phase == 2 && o_asked >= 1 && o_asked <= pend_t::count, "pointers are resolved at a wrong time");
  CHECK(k == pend_t::from[o_asked - 1].origin_ptr_, "late pointers are not resolved one by one");
}
}
template <c::mode M, typename R>
static inline void image(R* v, std::uint64_t n) {
  gh::root_size = sizeof(R); gh::root_align = alignof(R);
  constexpr bool ver = (M & V) == V || (M & SV) == SV, integ = (M & I) == I;
  ASSUME(adr(v) != 0U && n < (1ULL << 32));
  gh::big = (M & B) == B;
  gh::phase = 0; gh::head = 0; gh::cursor = 0; gh::o_asked = 0; gh::pend = 0; gh::obj = v; gh::root_at = -1;
  gh::h_at[0] = gh::h_at[1] = -1;
  pend_t::from = static_cast<c::pending_offset const*>(an_fresh()); pend_t::count = n;
  ASSUME(adr(pend_t::from) != 0U && adr(pend_t::from) < (1ULL << 46));
  pr::wanted = an_any_u64();
  gh::target t;
  c::serialize<M>(t, *v);
  REACH("image written");
  CHECK(gh::o_asked == n && gh::pend == 0, "not every late pointer is resolved");
  CHECK(gh::phase == (integ ? 4U : 2U), "root object, pointers and checksum are not all written");
  CHECK(gh::head == (ver ? 1U : 0U) + (integ ? 1U : 0U), "wrong number of header fields");
  if (ver) {
    CHECK(gh::h_at[0] == 0, "version is not at the start of the image");
    if ((M & V) == V) CHECK(gh::h_val[0] == en(pr::wanted), "stored version is not the type's");
    else CHECK(gh::h_val[0] == en(c::static_type_hash<R>()), "stored version is not the type's");
  }
  constexpr off data = (ver ? 8 : 0) + (integ ? 8 : 0), al = static_cast<off>(alignof(R));
  CHECK(gh::root_at == (data + al - 1) / al * al, "root object is not at the first aligned position behind the header");
  if (integ) CHECK(gh::sum_from == data, "checksum does not cover everything behind the header");
}
#define IMG(N, M) OB ob_image_##N(pr::root* v, std::uint64_t n) { image<(M)>(v, n); } OB ob_wide_##N(pr::wide_root* v, std::uint64_t n) { image<(M)>(v, n); }
IMG(none, c::mode::NONE)
IMG(version, V)
IMG(static_version, SV)
IMG(integrity, I)
IMG(both, V | I)
IMG(static_both, SV | I)
IMG(both_be, V | I | B)
IMG(be, B)
