// S02: composite containers serialise each of their storages exactly once, in place
#include "s_common.h"
#include "cont.h"
using namespace sr;
namespace pv {
static void const* want[6]; static unsigned hit[6]; static unsigned stray; static std::uint64_t obj; static off base;
template <typename Ctx, typename T> static inline void serialize(Ctx&, vec<T> const* p, c::offset_t pos) {
  CHECK(zs(pos) - zs(base) == zu(adr(p)) - zu(obj), "a storage is serialised to a wrong position");
  bool k = false;
  for (int i = 0; i < 6; ++i) if (want[i] == p) { ++hit[i]; k = true; }
  if (!k) ++stray;
}
}  // namespace pv
template <typename T, typename... P>
static inline void parts(T const* v, off pos, P... p) {
  ASSUME(place(pos) && adr(v) != 0U && adr(v) < (1ULL << 46));
  for (int i = 0; i < 6; ++i) { pv::want[i] = nullptr; pv::hit[i] = 0; }
  pv::stray = 0; pv::obj = adr(v); pv::base = pos;
  int i = 0;
  ((pv::want[i++] = p), ...);
  start({});
  target t; ctx<N> x{t};
  c::serialize(x, v, pos);
  REACH("serialised");
  CHECK(pv::stray == 0 && blocks == 0, "something else is serialised");
  for (int k = 0; k < static_cast<int>(sizeof...(P)); ++k) CHECK(pv::hit[k] == 1U, "a storage is not serialised exactly once");
}
OB ob_vecvec(t_vecvec* v, off p) { parts(v, p, &v->data_, &v->bucket_starts_); }
OB ob_nvec(t_nvec* v, off p) { parts(v, p, &v->data_, &v->index_[0], &v->index_[1], &v->index_[2]); }
OB ob_fws(t_fws* v, off p) { parts(v, p, &v->data_, &v->index_); }
OB ob_paged(t_paged* v, off p) { parts(v, p, &v->data_); }
OB ob_paged_vecvec(t_pvv* v, off p) { parts(v, p, &v->idx_, &v->paged_.data_); }
OB ob_multimap(t_mm* v, off p) { parts(v, p, &v->index_, &v->data_, &v->free_buckets_[0], &v->free_buckets_[1], &v->free_buckets_[2], &v->free_buckets_[3]); }
OB ob_matrix(t_matrix* v, off p) { parts(v, p, &v->entries_); }
OB ob_bitvec(t_bitvec* v, off p) { parts(v, p, &v->blocks_); }
// search tree nodes: leaf payloads are parts, branches carry plain indices
namespace pn { struct item { std::uint64_t a; std::uint32_t b; bool operator==(item const& o) const { return a == o.a; } };
static std::uint64_t obj, cnt; static off base;
template <typename Ctx> static inline void serialize(Ctx&, item const* p, c::offset_t pos) {
  CHECK(zs(pos) - zs(base) == zu(adr(p)) - zu(obj) && zu(adr(p)) == zu(obj) + zu(cnt) * 16, "a leaf item is not serialised in order and in place");
  ++cnt;
} }
using node = c::raw::rtree<pn::item, 2, float, 4>::node;
template <bool LEAF> static inline void tree(node* v, off pos) {
  ASSUME(place(pos) && adr(v) != 0U && adr(v) < (1ULL << 46));
  ASSUME((byte_of(v->kind_) == 0U) == LEAF);
  pn::obj = adr(&v->data_); pn::cnt = 0; pn::base = pos + mo(v, reinterpret_cast<char const*>(&v->data_));
  start({pos + mo(v, &v->count_), pos + mo(v, &v->kind_)});
  target t; ctx<N> x{t};
  serialize(x, v, pos);
  REACH("serialised");
  CHECK(pn::cnt == (LEAF ? 4U : 0U), "leaf items are not all serialised");
  CHECK(has32<N>(0, v->count_) && has8(1, byte_of(v->kind_)), "node header");
}
OB ob_tree_leaf(node* v, off p) { tree<true>(v, p); }
OB ob_tree_branch(node* v, off p) { tree<false>(v, p); }
// bookkeeping fields of big-endian images are written byte-reversed
static inline std::uint64_t sw(std::uint16_t v) { return __builtin_bswap16(v); }
static inline std::uint64_t sw(std::uint32_t v) { return __builtin_bswap32(v); }
static inline std::uint64_t sw(std::uint64_t v) { return __builtin_bswap64(v); }
#define FIELD(NAME, T, EXPR)                                            \
  OB ob_be_##NAME(T* v, off pos) {                                      \
    ASSUME(place(pos) && adr(v) != 0U && adr(v) < (1ULL << 46));        \
    start({pos + mo(v, &(EXPR))});                                      \
    for (int i = 0; i < 6; ++i) pv::want[i] = nullptr;                  \
    pv::obj = adr(v); pv::base = pos;                                   \
    target t; ctx<BE> x{t};                                             \
    c::serialize(x, v, pos);                                            \
    REACH("serialised");                                                \
    CHECK(w_cnt[0] == 1U && w_len[0] == sizeof(EXPR) && w_val[0] == sw(EXPR), "container field is not written byte-reversed"); \
  }
using t_small = c::paged<pvec<std::uint64_t>, std::uint32_t, std::uint16_t, 4, 8>;
FIELD(fws_start, t_fws, v->current_start_)
FIELD(mm_count, t_mm, v->element_count_)
FIELD(mat_rows, t_matrix, v->n_rows_)
FIELD(mat_cols, t_matrix, v->n_columns_)
FIELD(paged_first, t_small, v->free_list_[0].next_)
FIELD(paged_last, t_small, v->free_list_[t_small::free_list_size - 1].next_)
FIELD(bitvec_size, t_bitvec, v->size_)
FIELD(page_cap, t_paged::page_t, v->capacity_)
FIELD(page_start, t_paged::page_t, v->start_)
FIELD(page_size, t_paged::page_t, v->size_)
FIELD(mm_index_begin, t_mm::index_type, v->begin_)
FIELD(mm_index_size, t_mm::index_type, v->size_)
FIELD(mm_index_cap, t_mm::index_type, v->capacity_)
