// S02: every part of an object is serialised exactly once, at its own place
#include "s_common.h"
#include <chrono>
using namespace sr;
namespace pm {
struct prt { std::uint64_t a; std::uint32_t b; };
static void const* want[6]; static unsigned hit[6]; static unsigned stray; static std::uint64_t obj; static off base;
template <typename Ctx> static inline void serialize(Ctx&, prt const* p, c::offset_t pos) {
  CHECK(zs(pos) - zs(base) == zu(adr(p)) - zu(obj), "a part is serialised to a wrong position");
  bool k = false;
  for (int i = 0; i < 6; ++i) if (want[i] == p) { ++hit[i]; k = true; }
  if (!k) ++stray;
}
}  // namespace pm
using pm::prt;
template <typename T, typename... P>
static inline void parts(T const* v, off pos, P... p) {
  ASSUME(place(pos) && adr(v) != 0U && adr(v) < (1ULL << 46));
  for (int i = 0; i < 6; ++i) { pm::want[i] = nullptr; pm::hit[i] = 0; }
  pm::stray = 0; pm::obj = adr(v); pm::base = pos;
  int i = 0;
  ((pm::want[i++] = p), ...);
  start({});
  target t; ctx<N> x{t};
  c::serialize(x, v, pos);
  REACH("serialised");
  CHECK(pm::stray == 0, "something else is serialised");
  for (int k = 0; k < static_cast<int>(sizeof...(P)); ++k) CHECK(pm::hit[k] == 1U, "a part is not serialised exactly once");
  CHECK(blocks == 0, "an extra block is appended");
}
struct four { prt a, b; std::uint8_t n; prt c; prt d; };
struct nested { four x; prt y; };
OB ob_pair(c::pair<prt, prt>* v, off p) { parts(v, p, &v->first, &v->second); }
OB ob_std_pair(std::pair<prt, prt>* v, off p) { parts(v, p, &v->first, &v->second); }
OB ob_tuple(c::tuple<prt, std::uint8_t, prt, prt>* v, off p) { parts(v, p, &c::get<0>(*v), &c::get<2>(*v), &c::get<3>(*v)); }
OB ob_struct(four* v, off p) { parts(v, p, &v->a, &v->b, &v->c, &v->d); }
OB ob_nested(nested* v, off p) { parts(v, p, &v->x.a, &v->x.b, &v->x.c, &v->x.d, &v->y); }
OB ob_array(c::array<prt, 4>* v, off p) { parts(v, p, &(*v)[0], &(*v)[1], &(*v)[2], &(*v)[3]); }
OB ob_optional(c::optional<prt>* v, off p) { ASSUME(byte_of(v->valid_) == 1U); parts(v, p, reinterpret_cast<prt const*>(&v->storage_[0])); }
OB ob_optional_off(c::optional<prt>* v, off p) { ASSUME(byte_of(v->valid_) == 0U); parts(v, p); }
using var_t = c::variant<std::uint64_t, prt, c::pair<prt, prt>>;
OB ob_variant1(var_t* v, off p) { ASSUME(v->idx_ == 1U); parts(v, p, reinterpret_cast<prt const*>(&v->storage_)); }
OB ob_variant2(var_t* v, off p) {
  ASSUME(v->idx_ == 2U);
  auto q = reinterpret_cast<c::pair<prt, prt> const*>(&v->storage_);
  parts(v, p, &q->first, &q->second);
}
struct tag {};
OB ob_strong(c::strong<prt, tag>* v, off p) { parts(v, p, &v->v_); }
using mm = c::raw::mutable_fws_multimap<std::uint32_t, prt>;

// long arrays: element i at its place
struct cell { std::uint64_t a; };
namespace pe2 { struct c8 { std::uint64_t a; };
static std::uint64_t cnt; static std::uint64_t obj; static off base;
template <typename Ctx> static inline void serialize(Ctx&, c8 const* p, c::offset_t pos) {
  CHECK(zu(adr(p)) == zu(obj) + zu(cnt) * 8 && zs(pos) == zs(base) + zu(cnt) * 8, "array elements are not serialised in order and in place");
  ++cnt;
} }
OB ob_array_long(c::array<pe2::c8, 1000>* v, off pos) {
  ASSUME(place(pos) && adr(v) != 0U && adr(v) < (1ULL << 46));
  pe2::cnt = 0; pe2::obj = adr(v); pe2::base = pos;
  start({}); target t; ctx<N> x{t};
  c::serialize(x, v, pos);
  REACH("serialised");
  CHECK(pe2::cnt == 1000, "number of serialised array elements");
}

// scalars of a big-endian image are written byte-reversed, at their place
static inline std::uint64_t sw(std::uint16_t v) { return __builtin_bswap16(v); }
static inline std::uint64_t sw(std::uint32_t v) { return __builtin_bswap32(v); }
static inline std::uint64_t sw(std::uint64_t v) { return __builtin_bswap64(v); }
template <typename T> static inline auto un(T v) { return static_cast<std::make_unsigned_t<T>>(v); }
#define GO(v, ...) ASSUME(place(pos) && adr(v) != 0U && adr(v) < (1ULL << 46)); start({__VA_ARGS__}); target t; ctx<BE> x{t}; c::serialize(x, v, pos); REACH("serialised")
template <typename T> static inline bool wrote(int i, T v) { return w_cnt[i] == 1U && w_len[i] == sizeof(T) && w_val[i] == sw(un(v)); }
#define SCALAR(NAME, T, EXPR) OB ob_be_##NAME(T* v, off pos) { GO(v, pos); CHECK(wrote(0, EXPR), "scalar is not written byte-reversed"); }
SCALAR(u16, std::uint16_t, *v)
SCALAR(i16, std::int16_t, *v)
SCALAR(u32, std::uint32_t, *v)
SCALAR(i32, std::int32_t, *v)
SCALAR(u64, std::uint64_t, *v)
SCALAR(i64, std::int64_t, *v)
SCALAR(c32, char32_t, static_cast<std::uint32_t>(*v))
using dur = std::chrono::duration<std::int64_t>;
using tp = std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<std::int64_t>>;
SCALAR(duration, dur, v->count())
SCALAR(time_point, tp, v->time_since_epoch().count())
using sid = c::strong<std::uint32_t, tag>;
SCALAR(strong, sid, v->v_)
using bs = c::bitset<128>;
OB ob_be_bitset(bs* v, off pos) { GO(v, pos + mo(v, &v->blocks_[0]), pos + mo(v, &v->blocks_[1])); CHECK(wrote(0, v->blocks_[0]) && wrote(1, v->blocks_[1]), "bitset block"); }
struct agg { std::uint8_t a; std::uint16_t b; std::uint64_t c; std::int32_t d; };
OB ob_be_struct(agg* v, off pos) {
  GO(v, pos + mo(v, &v->b), pos + mo(v, &v->c), pos + mo(v, &v->d));
  CHECK(wrote(0, v->b) && wrote(1, v->c) && wrote(2, v->d), "member is not written byte-reversed");
}
OB ob_be_variant(c::variant<std::uint32_t, std::uint64_t>* v, off pos) {
  ASSUME(v->idx_ == 1U);
  auto const q = reinterpret_cast<std::uint64_t const*>(&v->storage_);
  GO(v, pos + mo(v, q));
  CHECK(wrote(0, *q), "variant value is not written byte-reversed");
}
OB ob_be_optional(c::optional<std::uint32_t>* v, off pos) {
  ASSUME(byte_of(v->valid_) == 1U);
  auto const q = reinterpret_cast<std::uint32_t const*>(&v->storage_[0]);
  GO(v, pos + mo(v, q));
  CHECK(wrote(0, *q), "optional value is not written byte-reversed");
}
enum class en : std::uint32_t { A, B };
SCALAR(enum, en, static_cast<std::uint32_t>(*v))
SCALAR(float, double, *reinterpret_cast<std::uint64_t const*>(v))
