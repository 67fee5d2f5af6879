// C06: variants manage the lifetime of the active alternative and dispatch on it
#include "d_std.h"
#include "life.h"
#include "cista/containers/variant.h"
namespace c = cista;
using A = lf::life<1>;
using B = lf::life<2>;
using V = c::variant<A, B, std::uint32_t>;
constexpr unsigned NONE = 3;
static inline void make(V* m, unsigned k, std::uint64_t v) {
  MUST(k <= NONE);
  if (k == 0) new (m) V(A(v));
  else if (k == 1) new (m) V(B(v));
  else if (k == 2) new (m) V(static_cast<std::uint32_t>(v));
  else new (m) V();
}
static inline void state(V const& x, unsigned k) {
  CHECK(x.index() == (k == NONE ? static_cast<std::size_t>(V::NO_VALUE) : k), "the index does not name the active alternative");
  CHECK(x.valid() == (k != NONE) && static_cast<bool>(x) == (k != NONE), "validity does not tell whether there is a value");
  CHECK(c::holds_alternative<A>(x) == (k == 0) && c::holds_alternative<B>(x) == (k == 1) && c::holds_alternative<std::uint32_t>(x) == (k == 2), "holds_alternative() does not name the active alternative");
  if (k == 0) x.as<A>().needed();
  if (k == 1) x.as<B>().needed();
}
static inline void is(V& x, unsigned k, std::uint64_t v) {
  state(x, k);
  V const& y = x;
  CHECK((c::get_if<A>(x) != nullptr) == (k == 0) && (c::get_if<1>(x) != nullptr) == (k == 1) && (c::get_if<std::uint32_t>(y) != nullptr) == (k == 2) && (c::get_if<0>(y) != nullptr) == (k == 0), "get_if() does not find exactly the active alternative");
  if (k == 0) CHECK(c::get<A>(x).v == v && c::get<0>(y).v == v && c::get_if<A>(x)->v == v, "the value is not the expected one");
  if (k == 1) CHECK(c::get<1>(x).v == v && c::get<B>(y).v == v && c::get_if<1>(x)->v == v, "the value is not the expected one");
  if (k == 2) CHECK(c::get<std::uint32_t>(x) == static_cast<std::uint32_t>(v) && c::get<2>(y) == static_cast<std::uint32_t>(v) && *c::get_if<2>(x) == static_cast<std::uint32_t>(v), "the value is not the expected one");
}
#define DONE(...) do { __VA_ARGS__; REACH("done"); NO_LEAK; } while (0)
OB ob_construct(unsigned k, std::uint64_t v) { lf::start(); auto a = lf::storage<V>(0); make(a, k, v); is(*a, k, v); DONE(a->~V()); }
template <typename F> static inline void construct(unsigned k, std::uint64_t v, F f) {
  lf::start(); auto a = lf::storage<V>(0), b = lf::storage<V>(1); MUST(a != b);
  make(a, k, v); f(b, a);
  is(*b, k, v); state(*a, k);
  DONE(a->~V(); b->~V());
}
OB ob_copy(unsigned k, std::uint64_t v) { construct(k, v, [](V* b, V* a) { new (b) V(static_cast<V const&>(*a)); }); }
OB ob_copy_nonconst(unsigned k, std::uint64_t v) { construct(k, v, [](V* b, V* a) { new (b) V(*a); }); }
OB ob_move(unsigned k, std::uint64_t v) { construct(k, v, [](V* b, V* a) { new (b) V(std::move(*a)); }); }
template <typename F> static inline void assign(unsigned k, unsigned l, std::uint64_t v, std::uint64_t w, F f) {
  lf::start(); auto a = lf::storage<V>(0), b = lf::storage<V>(1); MUST(a != b);
  make(a, k, v); make(b, l, w); f(b, a);
  is(*b, k, v); state(*a, k);
  DONE(a->~V(); b->~V());
}
OB ob_copy_assign(unsigned k, unsigned l, std::uint64_t v, std::uint64_t w) { assign(k, l, v, w, [](V* b, V* a) { *b = static_cast<V const&>(*a); }); }
OB ob_copy_assign_nonconst(unsigned k, unsigned l, std::uint64_t v, std::uint64_t w) { assign(k, l, v, w, [](V* b, V* a) { *b = *a; }); }
OB ob_move_assign(unsigned k, unsigned l, std::uint64_t v, std::uint64_t w) { assign(k, l, v, w, [](V* b, V* a) { *b = std::move(*a); }); }
OB ob_self_assign(unsigned k, std::uint64_t v) { lf::start(); auto a = lf::storage<V>(0); make(a, k, v); auto const& r = *a; *a = r; is(*a, k, v); DONE(a->~V()); }
OB ob_self_move(unsigned k, std::uint64_t v) { lf::start(); auto a = lf::storage<V>(0); make(a, k, v); auto& r = *a; *a = std::move(r); state(*a, k); DONE(a->~V()); }
template <typename F> static inline void set(unsigned k, unsigned l, std::uint64_t v, std::uint64_t w, F f) {
  lf::start(); auto a = lf::storage<V>(0); make(a, k, v); f(*a, w); is(*a, l, w); DONE(a->~V());
}
OB ob_assign_value_a(unsigned k, std::uint64_t v, std::uint64_t w) { set(k, 0, v, w, [](V& a, std::uint64_t w) { a = A(w); }); }
OB ob_assign_value_b(unsigned k, std::uint64_t v, std::uint64_t w) { set(k, 1, v, w, [](V& a, std::uint64_t w) { a = B(w); }); }
OB ob_assign_value_int(unsigned k, std::uint64_t v, std::uint64_t w) { set(k, 2, v, w, [](V& a, std::uint64_t w) { a = static_cast<std::uint32_t>(w); }); }
OB ob_assign_lvalue_a(unsigned k, std::uint64_t v, std::uint64_t w) { set(k, 0, v, w, [](V& a, std::uint64_t w) { A x(w); a = x; CHECK(x.v == w, "the source of a copy changed"); }); }
OB ob_assign_const_b(unsigned k, std::uint64_t v, std::uint64_t w) { set(k, 1, v, w, [](V& a, std::uint64_t w) { B const x(w); a = x; CHECK(x.v == w, "the source of a copy changed"); }); }
OB ob_assign_lvalue_int(unsigned k, std::uint64_t v, std::uint64_t w) { set(k, 2, v, w, [](V& a, std::uint64_t w) { std::uint32_t x = static_cast<std::uint32_t>(w); a = x; }); }
OB ob_emplace_a(unsigned k, std::uint64_t v, std::uint64_t w) { set(k, 0, v, w, [](V& a, std::uint64_t w) { auto& r = a.emplace<A>(w); CHECK(&r == &c::get<A>(a), "emplace() does not return the new value"); }); }
OB ob_emplace_1(unsigned k, std::uint64_t v, std::uint64_t w) { set(k, 1, v, w, [](V& a, std::uint64_t w) { auto& r = a.emplace<1>(w); CHECK(&r == &c::get<B>(a), "emplace() does not return the new value"); }); }
OB ob_swap(unsigned k, unsigned l, std::uint64_t v, std::uint64_t w) {
  lf::start(); auto a = lf::storage<V>(0), b = lf::storage<V>(1); MUST(a != b);
  make(a, k, v); make(b, l, w); a->swap(*b);
  is(*b, k, v); is(*a, l, w);
  DONE(a->~V(); b->~V());
}
// comparison: by index first, then by value
OB ob_compare(unsigned k, unsigned l, std::uint64_t v, std::uint64_t w) {
  lf::start(); auto a = lf::storage<V>(0), b = lf::storage<V>(1); MUST(a != b);
  make(a, k, v); make(b, l, w);
  MUST((k != 2 || v < (1ULL << 32)) && (l != 2 || w < (1ULL << 32)));
  auto const x = v, y = w;
  bool const eq = k == l && (k == NONE || x == y), less = k == l ? k != NONE && x < y : k < l;
  REACH("compared");
  CHECK((*a == *b) == eq && (*a != *b) == !eq, "equality is not that of the active values");
  CHECK((*a < *b) == less && (*a >= *b) == !less, "order is not that of index and active value");
  CHECK((*a > *b) == (!less && !eq) && (*a <= *b) == (less || eq), "order is not that of index and active value");
}
// dispatch
OB ob_apply_none(void) {
  V a;
  REACH("called");
  a.apply([](auto&&) {});

  CHECK(false, "apply() on a variant without value does not fail");
}
OB ob_apply_none_const(void) {
  V a; V const& k = a;
  REACH("called");
  k.apply([](auto&&) {});
  CHECK(false, "apply() on a variant without value does not fail");
}
OB ob_accept_apply_const(std::uint64_t v) {
  V a{static_cast<std::uint32_t>(v)}; V const& k = a; unsigned calls = 0;
  k.apply([&](auto&&) { ++calls; }); CHECK(calls == 1, "apply() does not call the function once for the active alternative"); REACH("called");
}
template <unsigned I> struct alt { std::uint8_t x[I % 3 + 1]; };
template <typename X> struct list;
template <std::size_t... Is> struct list<std::index_sequence<Is...>> { using type = c::variant<alt<Is>...>; };
template <unsigned I> constexpr unsigned number(alt<I> const&) { return I; }
template <std::size_t N> static inline void dispatch(std::uint8_t* m) {
  using X = typename list<std::make_index_sequence<N>>::type;
  auto& v = *reinterpret_cast<X*>(m);
  std::size_t const k = v.index();
  ASSUME(adr(m) != 0 && k < N);
  std::size_t calls = 0, which = N; void const* at = nullptr;
  v.apply([&](auto& x) { ++calls; which = number(x); at = &x; });
  REACH("dispatched");
  CHECK(calls == 1 && which == k && at == static_cast<void*>(&v.storage_), "apply() does not call the function once for the active alternative");
  auto const& w = v; calls = 0; which = N;
  w.apply([&](auto const& x) { ++calls; which = number(x); at = &x; });
  CHECK(calls == 1 && which == k && at == static_cast<void const*>(&v.storage_), "apply() does not call the function once for the active alternative");
}
OB ob_dispatch_1(std::uint8_t* m) { dispatch<1>(m); }
OB ob_dispatch_2(std::uint8_t* m) { dispatch<2>(m); }
OB ob_dispatch_15(std::uint8_t* m) { dispatch<15>(m); }
OB ob_dispatch_16(std::uint8_t* m) { dispatch<16>(m); }
#ifndef MAX16
OB ob_dispatch_17(std::uint8_t* m) { dispatch<17>(m); }
OB ob_dispatch_40(std::uint8_t* m) { dispatch<40>(m); }
#endif
