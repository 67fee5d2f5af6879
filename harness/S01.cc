// S01: what the serialiser writes for each container header
#include "s_common.h"
using namespace sr;
template <c::mode M, typename V>
static inline void vec(V const* v, off pos, bool idx) {
  using S = decltype(v->used_size_);
  ASSUME(place(pos) && adr(v) != 0U && adr(v) < (1ULL << 47));
  el const* const data = v->el_;
  ASSUME(adr(data) < (1ULL << 47));
  ASSUME((data == nullptr) == (v->allocated_size_ == 0U) && v->used_size_ <= v->allocated_size_ && zu(v->used_size_) < (1LL << 40));
  start({pos + mo(v, &v->el_), pos + mo(v, &v->allocated_size_), pos + mo(v, &v->used_size_), pos + mo(v, &v->self_allocated_)}, pos + static_cast<off>(sizeof(*v)));
  pe::start();
  target t; ctx<M> x{t};
  c::serialize(x, v, pos);
  REACH("serialised");
  auto const n = v->used_size_;
  CHECK(has8(3, 0), "image claims to own its storage");
  if (sizeof(S) == 4) CHECK(has32<M>(1, n) && has32<M>(2, n), "image sizes are not the element count");
  else CHECK(has64<M>(1, n) && has64<M>(2, n), "image sizes are not the element count");
  CHECK(others == 0, "written outside the vector header");
  if (n == 0U) {
    CHECK(blocks == 0 && is_null<M>(0), "empty vector without null marker");
    CHECK(pe::cnt == 0, "an element of an empty vector is serialised");
  } else {
    CHECK(blocks == 1 && b_ptr[0] == data, "element storage is not written once");
    CHECK(zu(b_len[0]) == zu(n) * static_cast<Z>(sizeof(el)), "wrong number of element bytes");
    CHECK(b_al[0] >= alignof(el), "elements are written without their alignment");
    CHECK(designates<M>(0, w_pos[0], b_at[0]), "stored distance does not designate the elements");
    CHECK(pe::cnt == n && pe::first == data && pe::at == b_at[0], "elements are not all serialised in place");
    if (idx) CHECK(ranges == 1 && r_ptr == data && r_start == b_at[0] && zu(r_len) == zu(n) * static_cast<Z>(sizeof(el)), "element range is not registered");
  }
}
using v_raw = c::raw::vector<el>;
using v_off = c::offset::vector<el>;
using v_idx = c::raw::indexed_vector<el>;
using v_64 = c::basic_vector<el, c::raw::ptr, false, std::uint64_t>;
OB ob_vec_raw(v_raw* v, off p) { vec<N>(v, p, false); }
OB ob_vec_raw_be(v_raw* v, off p) { vec<BE>(v, p, false); }
OB ob_vec_off(v_off* v, off p) { vec<N>(v, p, false); }
OB ob_vec_idx(v_idx* v, off p) { vec<N>(v, p, true); }
OB ob_vec_64(v_64* v, off p) { vec<N>(v, p, false); }
OB ob_vec_64_be(v_64* v, off p) { vec<BE>(v, p, false); }
