// D07: composite containers: each of their storages is visited exactly once
// ROOTS: 10
#include "d_common.h"
#include "cont.h"
namespace pv {
static void const* want[6]; static unsigned hit[6]; static unsigned stray;
template <typename Ctx, typename T> static inline void check_state(Ctx const&, vec<T>* p) {
  bool k = false;
  for (int i = 0; i < 6; ++i) if (want[i] == p) { ++hit[i]; k = true; }
  if (!k) ++stray;
}
template <typename Ctx, typename T> static inline void convert_endian_and_ptr(Ctx const&, vec<T>*) {}
template <typename Ctx, typename T, typename Fn> static inline void recurse(Ctx const&, vec<T>*, Fn&&) {}
}  // namespace pv
template <typename T, typename... P>
static inline void parts(std::uint8_t* f, std::uint8_t* t, T* v, P... p) {
  ctx_t x{f, t};
  ASSUME(bounded(x) && user_space(x, v));
  for (int i = 0; i < 6; ++i) { pv::want[i] = nullptr; pv::hit[i] = 0; }
  pv::stray = 0;
  int i = 0;
  ((pv::want[i++] = p), ...);
  c::deserialize(x, v);
  REACH("accepted");
  CHECK(pv::stray == 0, "something else is visited");
  for (int k = 0; k < static_cast<int>(sizeof...(P)); ++k) CHECK(pv::hit[k] == 1U, "a storage is not visited exactly once");
}
#define A std::uint8_t *f, std::uint8_t *t
OB ob_vecvec(A, t_vecvec* v) { parts(f, t, v, &v->data_, &v->bucket_starts_); }
OB ob_nvec(A, t_nvec* v) { parts(f, t, v, &v->data_, &v->index_[0], &v->index_[1], &v->index_[2]); }
OB ob_fws(A, t_fws* v) { parts(f, t, v, &v->data_, &v->index_); }
OB ob_paged(A, t_paged* v) { parts(f, t, v, &v->data_); }
OB ob_paged_vecvec(A, t_pvv* v) { parts(f, t, v, &v->idx_, &v->paged_.data_); }
OB ob_multimap(A, t_mm* v) { parts(f, t, v, &v->index_, &v->data_, &v->free_buckets_[0], &v->free_buckets_[1], &v->free_buckets_[2], &v->free_buckets_[3]); }
OB ob_matrix(A, t_matrix* v) { parts(f, t, v, &v->entries_); }
OB ob_bitvec(A, t_bitvec* v) { parts(f, t, v, &v->blocks_); }
// search tree nodes: the items of a leaf are visited
namespace pn { struct item { std::uint64_t a; std::uint32_t b; bool operator==(item const& o) const { return a == o.a; } };
static std::uint64_t obj, cnt;
template <typename Ctx> static inline void check_state(Ctx const&, item* p) {
  CHECK(zu(adr(p)) == zu(obj) + zu(cnt) * 16, "leaf items are not visited in order");
  ++cnt;
}
template <typename Ctx> static inline void convert_endian_and_ptr(Ctx const&, item*) {}
template <typename Ctx, typename Fn> static inline void recurse(Ctx const&, item*, Fn&&) {}
}
using node = c::raw::rtree<pn::item, 2, float, 4>::node;
template <bool LEAF> static inline void tree(std::uint8_t* f, std::uint8_t* t, node* v) {
  ctx_t x{f, t};
  ASSUME(bounded(x) && user_space(x, v));
  ASSUME((byte_of(v->kind_) == 0U) == LEAF);
  pn::obj = adr(&v->data_); pn::cnt = 0;
  deserialize(x, v);
  REACH("accepted");
  CHECK(pn::cnt == (LEAF ? 4U : 0U), "leaf items are not all visited");
}
OB ob_tree_leaf(A, node* v) { tree<true>(f, t, v); }
OB ob_tree_branch(A, node* v) { tree<false>(f, t, v); }
