// S01: what the serialiser writes for strings, owning pointers and hash containers
#include "s_common.h"
#include "cista/containers/cstring.h"
using namespace sr;
template <c::mode M, typename S>
static inline void str_long(S const* v, off pos) {
  using C = typename S::CharT;
  ASSUME(place(pos) && adr(v) != 0U && adr(v) < (1ULL << 47) && byte_of(v->s_.is_short_) == 0U);
  C const* const data = v->data();
  ASSUME(adr(data) < (1ULL << 47) && (data == nullptr) == (v->h_.size_ == 0U));
  start({pos + mo(v, &v->h_.ptr_), pos + mo(v, &v->h_.size_), pos + mo(v, &v->h_.self_allocated_), pos + mo(v, &v->s_.is_short_)}, pos + static_cast<off>(sizeof(*v)));
  target t; ctx<M> x{t};
  c::serialize(x, v, pos);
  REACH("serialised");
  auto const n = v->h_.size_;
  CHECK(has32<M>(1, n), "string size");
  CHECK(has8(2, 0), "image claims to own its storage");
  CHECK(w_cnt[3] == 0 || has8(3, 0), "representation flag");
  if (n == 0U) CHECK(blocks == 0 && is_null<M>(0), "empty string without null marker");
  else {
    CHECK(blocks == 1 && b_ptr[0] == data && zu(b_len[0]) == zu(n) * static_cast<Z>(sizeof(C)), "characters are not written once");
    CHECK(sizeof(C) == 1 || b_al[0] >= alignof(C), "characters are written without their alignment");
    CHECK(designates<M>(0, w_pos[0], b_at[0]), "stored distance does not designate the characters");
  }
}
OB ob_str_raw(c::raw::string* v, off p) { str_long<N>(v, p); }
OB ob_str_raw_be(c::raw::string* v, off p) { str_long<BE>(v, p); }
OB ob_str_off(c::offset::string* v, off p) { str_long<N>(v, p); }
OB ob_strv_raw(c::raw::string_view* v, off p) { str_long<N>(v, p); }
OB ob_u16_raw(c::raw::u16string* v, off p) { str_long<N>(v, p); }
OB ob_u32_off(c::offset::u32string* v, off p) { str_long<N>(v, p); }
// inline strings live inside the already written object: nothing is relocated
template <c::mode M, typename S>
static inline void str_short(S const* v, off pos) {
  using C = typename S::CharT;
  ASSUME(place(pos) && adr(v) != 0U && adr(v) < (1ULL << 47) && byte_of(v->s_.is_short_) == 1U);
  start({pos + mo(v, &v->s_.is_short_), pos + mo(v, &v->s_.s_[0]), pos + mo(v, &v->s_.s_[1]), pos + mo(v, &v->s_.s_[S::short_length_limit - 1])}, pos + static_cast<off>(sizeof(*v)));
  target t; ctx<M> x{t};
  c::serialize(x, v, pos);
  REACH("serialised");
  CHECK(blocks == 0, "an inline string appends a block");
  CHECK(w_cnt[0] == 0 || has8(0, 1), "representation flag");
  if constexpr (sizeof(C) > 1 && M == BE) {
    for (int i = 1; i < 4; ++i) {
      auto const ch = i == 3 ? v->s_.s_[S::short_length_limit - 1] : v->s_.s_[i - 1];
      CHECK(w_cnt[i] == 1 && w_len[i] == sizeof(C) && w_val[i] == c::endian_swap(ch), "inline character is not converted");
    }
  }
}
OB ob_short_raw(c::raw::string* v, off p) { str_short<N>(v, p); }
OB ob_short_raw_be(c::raw::string* v, off p) { str_short<BE>(v, p); }
OB ob_short_u16_be(c::raw::u16string* v, off p) { str_short<BE>(v, p); }
OB ob_short_u32_be(c::raw::u32string* v, off p) { str_short<BE>(v, p); }

// strings that end with a zero: the zero is written with them
template <c::mode M, typename S>
static inline void cstr_long(S const* v, off pos) {
  ASSUME(place(pos) && adr(v) != 0U && adr(v) < (1ULL << 47) && v->s_.remaining_ < 0 && byte_of(v->h_.self_allocated_) == 1U);
  char const* const data = v->data(); auto const n = v->h_.size_; ASSUME(data != nullptr && adr(data) < (1ULL << 47));
  start({pos + mo(v, &v->h_.ptr_), pos + mo(v, &v->h_.size_), pos + mo(v, &v->h_.self_allocated_), pos + mo(v, &v->h_.minus_one_)}, pos + static_cast<off>(sizeof(*v)));
  target t; ctx<M> x{t};
  c::serialize(x, v, pos);
  REACH("serialised");
  CHECK(has32<M>(1, n), "string size");
  CHECK(has8(2, 0), "image claims to own its storage");
  CHECK(w_cnt[3] == 0 || has8(3, 0xFF), "representation flag");
  CHECK(blocks == 1 && b_ptr[0] == data && zu(b_len[0]) == zu(n) + 1, "characters and the zero behind them are not written once");
  CHECK(designates<M>(0, w_pos[0], b_at[0]), "stored distance does not designate the characters");
}
template <c::mode M, typename S>
static inline void cstr_short(S const* v, off pos) {
  ASSUME(place(pos) && adr(v) != 0U && adr(v) < (1ULL << 47) && v->s_.remaining_ >= 0);
  start({pos, pos + 8, pos + 14, pos + 15}, pos + static_cast<off>(sizeof(*v)));
  target t; ctx<M> x{t};
  c::serialize(x, v, pos);
  REACH("serialised");
  CHECK(blocks == 0 && w_cnt[0] == 0 && w_cnt[1] == 0 && w_cnt[2] == 0 && w_cnt[3] == 0, "an inline string appends a block");
}
using cs_raw = c::basic_cstring<c::raw::ptr<char const>>; using cs_off = c::basic_cstring<c::offset::ptr<char const>>;
OB ob_cstr_raw(cs_raw* v, off p) { cstr_long<N>(v, p); }
OB ob_cstr_off(cs_off* v, off p) { cstr_long<N>(v, p); }
OB ob_cstr_raw_be(cs_raw* v, off p) { cstr_long<BE>(v, p); }
OB ob_cstr_short(cs_raw* v, off p) { cstr_short<N>(v, p); }
OB ob_cstr_short_off(cs_off* v, off p) { cstr_short<N>(v, p); }
template <c::mode M, typename U>
static inline void uptr(U const* v, off pos) {
  ASSUME(place(pos) && adr(v) != 0U && adr(v) < (1ULL << 47));
  el const* const data = v->el_;
  ASSUME(adr(data) < (1ULL << 47));
  start({pos + mo(v, &v->el_), pos + mo(v, &v->self_allocated_)}, pos + static_cast<off>(sizeof(*v)));
  pe::start();
  target t; ctx<M> x{t};
  c::serialize(x, v, pos);
  REACH("serialised");
  CHECK(has8(1, 0), "image claims to own its storage");
  if (data == nullptr) CHECK(blocks == 0 && is_null<M>(0) && pe::cnt == 0, "null pointer without null marker");
  else {
    CHECK(blocks == 1 && b_ptr[0] == data && b_len[0] == sizeof(el) && b_al[0] >= alignof(el), "pointee is not written once");
    CHECK(designates<M>(0, w_pos[0], b_at[0]), "stored distance does not designate the pointee");
    CHECK(pe::cnt == 1 && pe::first == data && pe::at == b_at[0], "pointee is not serialised in place");
    CHECK(regs == 1 && o_ptr == data && o_at == b_at[0], "pointee is not registered for pointer resolution");
  }
}
OB ob_uptr_raw(c::raw::unique_ptr<el>* v, off p) { uptr<N>(v, p); }
OB ob_uptr_raw_be(c::raw::unique_ptr<el>* v, off p) { uptr<BE>(v, p); }
OB ob_uptr_off(c::offset::unique_ptr<el>* v, off p) { uptr<N>(v, p); }

// a table slot whose own serialisation is recorded
namespace ps {
struct slot { std::uint64_t a; std::uint32_t b; };
static slot const* base; static std::uint64_t cap; static c::offset_t at; static signed char const* ctl;
template <typename Ctx> static inline void serialize(Ctx&, slot const* p, c::offset_t pos) {
  auto const d = zu(adr(p)) - zu(adr(base));
  CHECK(d >= 0 && d < zu(cap) * static_cast<Z>(sizeof(slot)), "a slot outside the table is serialised");
  CHECK(zs(pos) - zs(sr::b_at[0]) == d, "a slot is serialised to a wrong position");
}
}  // namespace ps
template <c::mode M, typename H>
static inline void hash(H const* v, off pos) {
  using T = typename H::entry_t;
  ASSUME(place(pos) && adr(v) != 0U && adr(v) < (1ULL << 47));
  T const* const ent = v->entries_; auto const ctl = static_cast<typename H::ctrl_t const*>(v->ctrl_);
  ASSUME(adr(ent) < (1ULL << 47) && adr(ctl) < (1ULL << 47) && adr(ctl) > 0 && zu(v->capacity_) < (1LL << 40));
  ASSUME((ent == nullptr) == (v->capacity_ == 0U));
  start({pos + mo(v, &v->entries_), pos + mo(v, &v->ctrl_), pos + mo(v, &v->size_), pos + mo(v, &v->capacity_), pos + mo(v, &v->growth_left_), pos + mo(v, &v->self_allocated_)}, pos + static_cast<off>(sizeof(*v)));
  if constexpr (std::is_same_v<T, ps::slot>) { ps::base = ent; ps::cap = v->capacity_; }
  target t; ctx<M> x{t};
  c::serialize(x, v, pos);
  REACH("serialised");
  CHECK(has8(5, 0), "image claims to own its storage");
  CHECK(has64<M>(2, v->size_) && has64<M>(3, v->capacity_) && has64<M>(4, v->growth_left_), "table counters");
  CHECK(blocks == 1, "table storage is not written once");
  if (ent == nullptr) {
    CHECK(is_null<M>(0), "empty table without null marker");
    CHECK(designates<M>(1, w_pos[1], b_at[0]), "stored distance does not designate the control bytes");
    CHECK(b_ptr[0] == H::empty_group() && b_len[0] >= 1 + H::WIDTH && b_len[0] <= 16, "control bytes of an empty table");
  } else {
    CHECK(b_ptr[0] == ent && zu(b_len[0]) == zu(v->capacity_) * static_cast<Z>(sizeof(T)) + zu(v->capacity_) + 1 + H::WIDTH, "wrong number of table bytes");
    CHECK(b_al[0] >= alignof(T), "entries are written without their alignment");
    CHECK(designates<M>(0, w_pos[0], b_at[0]), "stored distance does not designate the entries");
    CHECK(designates<M>(1, w_pos[1], b_at[0] + static_cast<off>(v->capacity_ * sizeof(T))), "stored distance does not designate the control bytes");
  }
}
using hs = c::raw::hash_set<ps::slot>;
using hm = c::offset::hash_set<ps::slot>;
OB ob_hash_raw(hs* v, off p) { hash<N>(v, p); }
OB ob_hash_raw_be(hs* v, off p) { hash<BE>(v, p); }
OB ob_hash_off(hm* v, off p) { hash<N>(v, p); }
