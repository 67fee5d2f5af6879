// S03: pointers are resolved against exactly the registered objects and element ranges
// The three bookkeeping containers of the serialisation context are replaced by
// nondeterministic models that satisfy their interface's contract.
#include "d_std.h"
#include "cista/containers.h"
#include "cista/hash.h"
#include "cista/reflection/for_each_field.h"
#include "cista/serialized_size.h"
#include "cista/strong.h"
#include "cista/targets/buf.h"
#include "cista/targets/file.h"
#include "cista/type_hash/static_type_hash.h"
#include "cista/type_hash/type_hash.h"
namespace c = cista;
extern "C" [[noreturn]] void an_stop(void) noexcept;
#define MUST(c) do { if (!(c)) an_stop(); } while (0)
using off = cista::offset_t;
namespace gh {
static bool o_has; static void const* o_key; static off o_val; static unsigned o_asked;   // registered objects: the last lookup
static bool r_has, r_empty, r_prev; static void const* r_key; static std::uint64_t r_asked;  // element ranges
static unsigned pend; static void const* p_ptr; static off p_pos;
}
namespace gh { static inline void on_find(void const*) {} }
#include "s_ghost.h"
#include "cista/serialization.h"
#include "s_ghost_end.h"

namespace gh {
static unsigned writes; static std::uint64_t w_pos, w_val; static bool w_short;
struct target {
  off write(void const*, std::size_t, std::size_t) { return static_cast<off>(an_any_u64()); }
  template <typename T> void write(std::size_t pos, T const& v) {
    ++writes; w_pos = pos;
    if constexpr (sizeof(T) == 8) w_val = *reinterpret_cast<std::uint64_t const*>(&v); else w_short = true;
  }
};
}
constexpr auto N = c::mode::NONE, BE = c::mode::SERIALIZE_BIG_ENDIAN;
template <c::mode M> static inline std::uint64_t e64(std::uint64_t v) { return M == BE ? __builtin_bswap64(v) : v; }
struct obj { std::uint64_t a, b; };
constexpr auto MARK = static_cast<std::uint64_t>(c::NULLPTR_OFFSET);

template <c::mode M, typename P>
static inline void resolve(P const& ptr, std::uint64_t p, off pos, bool pend, bool is_void) {
  ASSUME(pos >= 0 && pos < (1LL << 46) && p < (1ULL << 47));
  gh::writes = 0; gh::w_short = false; gh::pend = 0; gh::o_asked = 0; gh::r_asked = 0;
  gh::target t; c::serialization_context<gh::target, M> x{t};
  bool const done = x.resolve_pointer(ptr, pos, pend);
  REACH("resolved");
  CHECK(gh::writes <= 1, "the pointer slot is written twice");
  CHECK(gh::writes == 0 || (gh::w_pos == static_cast<std::uint64_t>(pos) && !gh::w_short), "something other than the pointer slot is written");
  CHECK(done == (gh::writes == 1), "return value does not tell whether the pointer was written");
  auto const v = e64<M>(gh::w_val);
  if (p == 0 || (is_void && pend)) { CHECK(done && v == MARK && gh::pend == 0, "null pointer is not stored as null"); return; }
  CHECK(gh::o_asked >= 1 && adr(gh::o_key) == p, "registered objects are not searched for the pointee");
  if (gh::o_has) { CHECK(done && zs(static_cast<off>(v)) == zs(gh::o_val) - zs(pos) && gh::pend == 0, "stored distance does not designate the registered object"); return; }
  CHECK(gh::r_asked >= 1, "element ranges are not searched");
  bool const inside = !gh::r_empty && gh::r_prev && zu(p) >= zu(adr(gh_ranges[0].first)) && zu(p) < zu(adr(gh_ranges[0].first)) + zu(gh_ranges[0].second.size_);
  if (inside) {
    CHECK(done && gh::pend == 0 && zs(static_cast<off>(v)) == zs(gh_ranges[0].second.start_) + (zu(p) - zu(adr(gh_ranges[0].first))) - zs(pos), "stored distance does not designate the element");
    return;
  }
  if (pend) CHECK(done && v == MARK && gh::pend == 1 && adr(gh::p_ptr) == p && gh::p_pos == pos, "an unresolved pointer is not remembered");
  else CHECK(!done && gh::pend == 0, "a dangling pointer is written");
}
#define R(N, M, T, V) OB ob_##N##_first(T* p, off pos) { resolve<M, T*>(p, adr(p), pos, true, V); } \
                      OB ob_##N##_final(T* p, off pos) { resolve<M, T*>(p, adr(p), pos, false, V); }
R(raw, N, obj, false) R(raw_be, BE, obj, false) R(raw_const, N, obj const, false) R(void, N, void const, true)
OB ob_off_first(c::offset_ptr<obj>* p, off pos) { ASSUME(adr(p) != 0U && adr(p) < (1ULL << 47)); resolve<N, c::offset_ptr<obj>>(*p, p->offset_ == c::NULLPTR_OFFSET ? 0U : adr(p) + static_cast<std::uint64_t>(p->offset_), pos, true, false); }
OB ob_off_first_be(c::offset_ptr<obj>* p, off pos) { ASSUME(adr(p) != 0U && adr(p) < (1ULL << 47)); resolve<BE, c::offset_ptr<obj>>(*p, p->offset_ == c::NULLPTR_OFFSET ? 0U : adr(p) + static_cast<std::uint64_t>(p->offset_), pos, true, false); }
