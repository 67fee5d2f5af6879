// C05: optionals manage the lifetime of their value
#include "d_std.h"
#include "life.h"
#include "cista/containers/optional.h"
namespace c = cista;
using L = lf::life<0>;
using O = c::optional<L>;
static inline void make(O* m, bool full, std::uint64_t v) { if (full) new (m) O(v); else new (m) O(); }
static inline void is(O& o, bool full, std::uint64_t v, char const*) {
  CHECK(o.has_value() == full && static_cast<bool>(o) == full, "the optional does not tell whether it has a value");
  if (full) { o->needed(); CHECK(o->v == v && (*o).v == v && o.value().v == v, "the value is not the expected one"); }
}
OB ob_default(void) {
  lf::start(); auto a = lf::storage<O>(0);
  __builtin_memset(static_cast<void*>(a), static_cast<int>(an_any_u64() & 0x7FU), sizeof(O));
  new (a) O(); is(*a, false, 0, "");
  a->~O(); REACH("done"); NO_LEAK;
}
OB ob_nullopt(void) { lf::start(); auto a = lf::storage<O>(0); new (a) O(std::nullopt); is(*a, false, 0, ""); a->~O(); REACH("done"); NO_LEAK; }
OB ob_value(std::uint64_t v) { lf::start(); auto a = lf::storage<O>(0); new (a) O(v); is(*a, true, v, ""); a->~O(); REACH("done"); NO_LEAK; }
OB ob_from_value(std::uint64_t v) {
  lf::start(); auto a = lf::storage<O>(0);
  { L x(v); new (a) O(x); CHECK(x.v == v, "the source of a copy changed"); }
  is(*a, true, v, ""); a->~O(); REACH("done"); NO_LEAK;
}
template <typename F> static inline void construct(bool full, std::uint64_t v, F f) {
  lf::start(); auto a = lf::storage<O>(0), b = lf::storage<O>(1); MUST(a != b);
  make(a, full, v);
  f(b, a);
  is(*b, full, v, "");
  CHECK(a->has_value() == full, "the source does not keep its state");
  a->~O(); b->~O(); REACH("done"); NO_LEAK;
}
OB ob_copy(bool f, std::uint64_t v) { construct(f, v, [](O* b, O* a) { new (b) O(static_cast<O const&>(*a)); }); }
OB ob_copy_nonconst(bool f, std::uint64_t v) { construct(f, v, [](O* b, O* a) { new (b) O(*a); }); }
OB ob_move(bool f, std::uint64_t v) { construct(f, v, [](O* b, O* a) { new (b) O(std::move(*a)); }); }
template <typename F> static inline void assign(bool fa, bool fb, std::uint64_t v, std::uint64_t w, F f) {
  lf::start(); auto a = lf::storage<O>(0), b = lf::storage<O>(1); MUST(a != b);
  make(a, fa, v); make(b, fb, w);
  f(b, a);
  is(*b, fa, v, "");
  CHECK(a->has_value() == fa, "the source does not keep its state");
  a->~O(); b->~O(); REACH("done"); NO_LEAK;
}
OB ob_copy_assign(bool fa, bool fb, std::uint64_t v, std::uint64_t w) { assign(fa, fb, v, w, [](O* b, O* a) { *b = static_cast<O const&>(*a); }); }
OB ob_move_assign(bool fa, bool fb, std::uint64_t v, std::uint64_t w) { assign(fa, fb, v, w, [](O* b, O* a) { *b = std::move(*a); }); }
OB ob_self_assign(bool f, std::uint64_t v) {
  lf::start(); auto a = lf::storage<O>(0); make(a, f, v);
  auto const& r = *a; *a = r;
  is(*a, f, v, ""); a->~O(); REACH("done"); NO_LEAK;
}
OB ob_self_move(bool f, std::uint64_t v) {
  lf::start(); auto a = lf::storage<O>(0); make(a, f, v);
  auto& r = *a; *a = std::move(r);
  CHECK(a->has_value() == f, "the optional does not keep its state"); a->~O(); REACH("done"); NO_LEAK;
}
OB ob_assign_value(bool f, std::uint64_t v, std::uint64_t w) { lf::start(); auto a = lf::storage<O>(0); make(a, f, v); *a = O(w); is(*a, true, w, ""); a->~O(); REACH("done"); NO_LEAK; }
OB ob_assign_nullopt(bool f, std::uint64_t v) { lf::start(); auto a = lf::storage<O>(0); make(a, f, v); *a = std::nullopt; is(*a, false, 0, ""); a->~O(); REACH("done"); NO_LEAK; }
OB ob_reset(bool f, std::uint64_t v) { lf::start(); auto a = lf::storage<O>(0); make(a, f, v); a->reset(); is(*a, false, 0, ""); NO_LEAK; a->~O(); REACH("done"); NO_LEAK; }
OB ob_reset_twice(bool f, std::uint64_t v, std::uint64_t w) { lf::start(); auto a = lf::storage<O>(0); make(a, f, v); a->reset(); a->reset(); *a = O(w); is(*a, true, w, ""); a->reset(); NO_LEAK; a->~O(); REACH("done"); NO_LEAK; }
// access
OB ob_value_checked(bool f, std::uint64_t v) {
  lf::start(); auto a = lf::storage<O>(0); make(a, f, v);
  auto const& x = a->value(); REACH("accessed"); CHECK(f && x.v == v, "value() of an empty optional does not fail");
}
OB ob_value_checked_const(bool f, std::uint64_t v) {
  lf::start(); auto a = lf::storage<O>(0); make(a, f, v);
  auto const& k = *a; auto const& x = k.value(); REACH("accessed"); CHECK(f && x.v == v, "value() of an empty optional does not fail");
}
OB ob_accept_value(std::uint64_t v) {
  lf::start();
  O a(v);
  auto const& k = a; CHECK(k.value().v == v && a.value().v == v, "value() is not the value"); REACH("accessed");
}
OB ob_copy_int(std::uint32_t v) {
  using I = c::optional<std::uint32_t>;
  I a(v); I b(a); I d(static_cast<I const&>(a)); I e(std::move(a)); REACH("copied");
  CHECK(b.has_value() && *b == v && *d == v && *e == v, "the value is not the expected one");
}
