// D11: bookkeeping fields of composite containers in big-endian images
// ROOTS: 15
#include "d_common.h"
#include "cont.h"
namespace pv {
template <typename Ctx, typename T> static inline void check_state(Ctx const&, vec<T>*) {}
template <typename Ctx, typename T> static inline void convert_endian_and_ptr(Ctx const&, vec<T>*) {}
template <typename Ctx, typename T, typename Fn> static inline void recurse(Ctx const&, vec<T>*, Fn&&) {}
}  // namespace pv
using bctx = c::deserialization_context<c::mode::SERIALIZE_BIG_ENDIAN>;
static inline std::uint32_t sw(std::uint32_t v) { return __builtin_bswap32(v); }
static inline std::uint64_t sw(std::uint64_t v) { return __builtin_bswap64(v); }
static inline std::uint16_t sw(std::uint16_t v) { return __builtin_bswap16(v); }
#define FIELD(NAME, T, EXPR)                                            \
  OB ob_##NAME(std::uint8_t* f, std::uint8_t* t, T* v) {                \
    ASSUME(adr(v) != 0U);                                               \
    auto const was = EXPR;                                              \
    bctx x{f, t};                                                       \
    c::deserialize(x, v);                                               \
    REACH("accepted");                                                  \
    CHECK((EXPR) == sw(was), "container field is not converted");       \
  }
FIELD(fws_start, t_fws, v->current_start_)
FIELD(mm_count, t_mm, v->element_count_)
FIELD(mat_rows, t_matrix, v->n_rows_)
FIELD(mat_cols, t_matrix, v->n_columns_)
using t_small = c::paged<pvec<std::uint64_t>, std::uint32_t, std::uint16_t, 4, 8>;
FIELD(paged_first, t_small, v->free_list_[0].next_)
FIELD(paged_last, t_small, v->free_list_[t_small::free_list_size - 1].next_)
FIELD(bitvec_size, t_bitvec, v->size_)
FIELD(page_cap, t_paged::page_t, v->capacity_)
FIELD(page_start, t_paged::page_t, v->start_)
FIELD(page_size, t_paged::page_t, v->size_)
FIELD(mm_index_begin, t_mm::index_type, v->begin_)
FIELD(mm_index_size, t_mm::index_type, v->size_)
FIELD(mm_index_cap, t_mm::index_type, v->capacity_)
enum class en : std::uint32_t { A, B };
OB ob_enum(std::uint8_t* f, std::uint8_t* t, en* v) {
  ASSUME(adr(v) != 0U);
  auto const was = static_cast<std::uint32_t>(*v);
  bctx x{f, t};
  c::deserialize(x, v);
  REACH("accepted");
  CHECK(static_cast<std::uint32_t>(*v) == sw(was), "enumeration is not converted");
}
OB ob_float(std::uint8_t* f, std::uint8_t* t, double* v) {
  ASSUME(adr(v) != 0U);
  auto const was = *reinterpret_cast<std::uint64_t*>(v);
  bctx x{f, t};
  c::deserialize(x, v);
  REACH("accepted");
  CHECK(*reinterpret_cast<std::uint64_t*>(v) == sw(was), "floating point number is not converted");
}
