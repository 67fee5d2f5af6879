// D07: every element / field of an accepted image is itself visited and checked
// ROOTS: 18
#include "d_common.h"

namespace pr {
struct probe { std::uint64_t a; std::uint32_t b; };
static void const* want[6];
static unsigned hit[6];
static probe const* nxt;
static std::uint64_t cnt;
static bool seq;
static probe const* first;
static inline void visit(probe* p) {
  if (seq) {
    if (cnt == 0) first = p;
    else CHECK(p == nxt, "elements are not visited one after the other");
    nxt = p + 1;
    ++cnt;
  } else {
    for (int i = 0; i < 6; ++i)
      if (want[i] == p) ++hit[i];
  }
}
// the library finds these through argument dependent lookup
template <typename Ctx> static inline void check_state(Ctx const&, probe* p) { visit(p); }
template <typename Ctx> static inline void convert_endian_and_ptr(Ctx const&, probe*) {}
template <typename Ctx, typename Fn> static inline void recurse(Ctx const&, probe*, Fn&&) {}
static inline void start(bool s) {
  seq = s; cnt = 0; nxt = first = nullptr;
  for (int i = 0; i < 6; ++i) { want[i] = nullptr; hit[i] = 0; }
}
}  // namespace pr
using pr::probe;

template <typename V>
static inline void elements(ctx_t x, V* v) {
  ASSUME(bounded(x) && real_buffer(x) && user_space(x, v));
  pr::start(true);
  c::deserialize(x, v);
  REACH("accepted");
  CHECK(pr::cnt == v->size(), "number of visited elements differs from the size");
  if (v->size() != 0U) CHECK(pr::first == &(*v)[0], "visiting does not start at the first element");
}
#define ELEMS(N, ...) OB ob_elems_##N(std::uint8_t* f, std::uint8_t* t, __VA_ARGS__* v) { elements(ctx_t{f, t}, v); }
ELEMS(raw_vec, c::raw::vector<probe>)
ELEMS(off_vec, c::offset::vector<probe>)
ELEMS(raw_ivec, c::raw::indexed_vector<probe>)
ELEMS(array, c::array<probe, 7>)
ELEMS(vec64, c::basic_vector<probe, c::raw::ptr, false, std::uint64_t>)

template <typename T, typename... P>
static inline void fields(ctx_t x, T* v, P... p) {
  ASSUME(bounded(x) && user_space(x, v));
  pr::start(false);
  int i = 0;
  ((pr::want[i++] = p), ...);
  c::deserialize(x, v);
  REACH("accepted");
  for (int k = 0; k < static_cast<int>(sizeof...(P)); ++k) CHECK(pr::hit[k] == 1U, "a field is not visited exactly once");
}
struct four { probe a, b; std::uint8_t n; probe c; probe d; };
struct nested { four x; probe y; };
OB ob_fields_pair(std::uint8_t* f, std::uint8_t* t, c::pair<probe, probe>* v) { fields(ctx_t{f, t}, v, &v->first, &v->second); }
OB ob_fields_std_pair(std::uint8_t* f, std::uint8_t* t, std::pair<probe, probe>* v) { fields(ctx_t{f, t}, v, &v->first, &v->second); }
OB ob_fields_tuple(std::uint8_t* f, std::uint8_t* t, c::tuple<probe, std::uint8_t, probe, probe>* v) {
  fields(ctx_t{f, t}, v, &c::get<0>(*v), &c::get<2>(*v), &c::get<3>(*v));
}
OB ob_fields_struct(std::uint8_t* f, std::uint8_t* t, four* v) { fields(ctx_t{f, t}, v, &v->a, &v->b, &v->c, &v->d); }
OB ob_fields_nested(std::uint8_t* f, std::uint8_t* t, nested* v) { fields(ctx_t{f, t}, v, &v->x.a, &v->x.b, &v->x.c, &v->x.d, &v->y); }
OB ob_fields_optional(std::uint8_t* f, std::uint8_t* t, c::optional<probe>* v) {
  ASSUME(byte_of(v->valid_) == 1U);
  fields(ctx_t{f, t}, v, reinterpret_cast<probe*>(&v->storage_[0]));
}
OB ob_fields_optional_off(std::uint8_t* f, std::uint8_t* t, c::optional<probe>* v) {
  ASSUME(byte_of(v->valid_) == 0U && bounded(ctx_t(f, t)) && user_space(ctx_t(f, t), v));
  pr::start(false);
  pr::want[0] = reinterpret_cast<probe*>(&v->storage_[0]);
  c::deserialize(ctx_t{f, t}, v);
  REACH("accepted");
  CHECK(pr::hit[0] == 0U, "the value of a disengaged optional is visited");
}
using var_t = c::variant<std::uint64_t, probe, c::pair<probe, probe>>;
OB ob_fields_variant1(std::uint8_t* f, std::uint8_t* t, var_t* v) {
  ASSUME(v->idx_ == 1U);
  fields(ctx_t{f, t}, v, reinterpret_cast<probe*>(&v->storage_));
}
OB ob_fields_variant2(std::uint8_t* f, std::uint8_t* t, var_t* v) {
  ASSUME(v->idx_ == 2U);
  auto p = reinterpret_cast<c::pair<probe, probe>*>(&v->storage_);
  fields(ctx_t{f, t}, v, &p->first, &p->second);
}
template <typename U>
static inline void unique(ctx_t x, U* v) {
  ASSUME(bounded(x) && real_buffer(x) && user_space(x, v));
  pr::start(true);
  c::deserialize(x, v);
  REACH("accepted");
  auto const p = static_cast<probe*>(v->el_);
  if (p != nullptr) CHECK(pr::cnt == 1U && pr::first == p, "pointee is not visited");
  else CHECK(pr::cnt == 0U, "a pointee is visited through a null pointer");
}
OB ob_unique_raw(std::uint8_t* f, std::uint8_t* t, c::raw::unique_ptr<probe>* v) { unique(ctx_t{f, t}, v); }
OB ob_unique_off(std::uint8_t* f, std::uint8_t* t, c::offset::unique_ptr<probe>* v) { unique(ctx_t{f, t}, v); }

// multi-byte characters of strings are elements, too
namespace pc {
struct chr { std::uint32_t a; chr() = default; explicit chr(int v) : a{static_cast<std::uint32_t>(v)} {} bool operator==(chr const& o) const { return a == o.a; } bool operator<(chr const& o) const { return a < o.a; } };
static std::uint64_t cnt;
static chr const* first;
template <typename Ctx> static inline void check_state(Ctx const&, chr* p) {
  if (cnt == 0) first = p;
  else CHECK(p == first + cnt, "characters are not visited one after the other");
  ++cnt;
}
template <typename Ctx> static inline void convert_endian_and_ptr(Ctx const&, chr*) {}
template <typename Ctx, typename Fn> static inline void recurse(Ctx const&, chr*, Fn&&) {}
}  // namespace pc
template <typename S>
static inline void chars(ctx_t x, S* v) {
  ASSUME(bounded(x) && real_buffer(x) && user_space(x, v) && byte_of(v->s_.is_short_) == 0U);
  pc::cnt = 0; pc::first = nullptr;
  c::deserialize(x, v);
  REACH("accepted");
  CHECK(pc::cnt == v->h_.size_, "number of visited characters differs from the size");
  if (v->h_.size_ != 0U) CHECK(pc::first == static_cast<pc::chr const*>(v->h_.ptr_), "visiting does not start at the first character");
}
using praw = c::generic_string<c::raw::ptr<pc::chr const>>;
using poff = c::generic_string<c::offset::ptr<pc::chr const>>;
OB ob_chars_raw(std::uint8_t* f, std::uint8_t* t, praw* v) { chars(ctx_t{f, t}, v); }
OB ob_chars_off(std::uint8_t* f, std::uint8_t* t, poff* v) { chars(ctx_t{f, t}, v); }
