#include "d_common.h"
template <typename V, std::size_t N>
static inline void var(ctx_t x, V* v) {
  ASSUME(bounded(x));
  c::deserialize(x, v);
  REACH("variant image accepted");
  CHECK(v->idx_ < N, "discriminator out of range");
}
OB ob_var2(std::uint8_t* f, std::uint8_t* t, c::variant<int, double>* v) { var<c::variant<int,double>,2>(ctx_t{f, t}, v); }
OB ob_var5(std::uint8_t* f, std::uint8_t* t, c::variant<int, double, char, pod16, long>* v) { var<c::variant<int,double,char,pod16,long>,5>(ctx_t{f, t}, v); }
template <typename V>
static inline void opt(ctx_t x, V* v) {
  ASSUME(bounded(x));
  c::deserialize(x, v);
  REACH("optional image accepted");
  CHECK(byte_of(v->valid_)<=1U, "engaged flag is not a boolean");
}
OB ob_opt(std::uint8_t* f, std::uint8_t* t, c::optional<int>* v) { opt(ctx_t{f, t}, v); }
OB ob_opt2(std::uint8_t* f, std::uint8_t* t, c::optional<pod16>* v) { opt(ctx_t{f, t}, v); }
