// C01: offset pointers are relocated by every operation
#include "d_std.h"
#include "cista/containers.h"
namespace c = cista;
extern "C" void* an_fresh(void) noexcept;
#define MUST(c) do { if (!(c)) an_stop(); } while (0)
extern "C" [[noreturn]] void an_stop(void) noexcept;
struct pod { std::uint64_t a; std::uint32_t b; };
static_assert(!std::is_trivially_copyable_v<c::offset_ptr<pod>> && !std::is_trivially_copyable_v<c::offset_ptr<void>>, "OBLIGATION: offset pointers must not be copied bytewise");
static_assert(sizeof(c::offset_ptr<pod>) == 8 && sizeof(c::offset_ptr<void>) == 8, "OBLIGATION: an offset pointer is one 64-bit distance");
template <typename T> using op = c::offset_ptr<T>;
static inline bool user(std::uint64_t a) { return a < (1ULL << 47); }
template <typename T> static inline bool at(op<T> const& o, T const* p) { return o.get() == p && o.offset_ == (p == nullptr ? c::NULLPTR_OFFSET : static_cast<c::offset_t>(adr(p) - adr(&o))); }
template <typename T> static inline T* target(op<T> const* o) { return o->get(); }
// an object in an arbitrary valid state somewhere in user space
template <typename T> static inline bool some(op<T> const* o) { return adr(o) != 0 && user(adr(o)) && user(adr(o->get())) && (o->offset_ == c::NULLPTR_OFFSET || o->get() != nullptr); }
// two different objects at arbitrary addresses
template <typename X> static inline X* place() { auto const m = static_cast<X*>(an_fresh()); MUST(m != nullptr && user(adr(m)) && (adr(m) & (alignof(X) - 1)) == 0); return m; }
template <typename T> static inline void any_value(op<T>& o) { o.offset_ = static_cast<c::offset_t>(an_any_u64()); MUST(some(&o)); }

template <typename T> static inline void construct(void* m, T* p) {
  ASSUME(adr(m) != 0 && user(adr(m)) && user(adr(p)));
  auto o = new (m) op<T>(p);
  REACH("constructed");
  CHECK(at(*o, p), "the constructed pointer does not designate its target");
  CHECK(static_cast<bool>(*o) == (p != nullptr), "conversion to bool does not tell null from non-null");
  auto n = new (m) op<T>(nullptr); CHECK(at<T>(*n, nullptr) && !static_cast<bool>(*n), "a pointer constructed from null is not null");
  auto d = new (m) op<T>(); CHECK(at<T>(*d, nullptr) && !static_cast<bool>(*d), "a default pointer is not null");
}
template <typename T> static inline void copy() {
  auto const m = place<op<T>>(), s = place<op<T>>(); any_value(*s);
  T* const p = s->get();
  auto o = new (m) op<T>(static_cast<op<T> const&>(*s));
  CHECK(at(*o, p) && at(*s, p), "a copy does not designate the target of its source");
  auto q = new (m) op<T>(std::move(*s));
  REACH("copied");
  CHECK(at(*q, p), "a moved pointer does not designate the target of its source");
}
template <typename T> static inline void assign(bool self) {
  auto const d = place<op<T>>(), s = self ? d : place<op<T>>(); any_value(*d); any_value(*s);
  T *const p = s->get();
  *d = static_cast<op<T> const&>(*s);
  REACH("assigned");
  CHECK(at(*d, p) && at(*s, p), "an assigned pointer does not designate the target of its source");
}
template <typename T> static inline void move_assign(bool self) {
  auto const d = place<op<T>>(), s = self ? d : place<op<T>>(); any_value(*d); any_value(*s);
  T *const p = s->get();
  *d = std::move(*s);
  REACH("assigned");
  CHECK(at(*d, p), "a move-assigned pointer does not designate the target of its source");
}
template <typename T> static inline void set(op<T>* d, T* p) {
  ASSUME(some(d) && user(adr(p)));
  *d = static_cast<T const*>(p);
  CHECK(at(*d, p), "an assigned pointer does not designate its target");
  *d = nullptr;
  REACH("assigned");
  CHECK(at<T>(*d, nullptr), "a pointer assigned null is not null");
}
template <typename T> static inline void swap() {
  auto const d = place<op<T>>(), s = place<op<T>>(); any_value(*d); any_value(*s);
  T *const p = s->get(), *const q = d->get();
  std::swap(*d, *s);
  REACH("swapped");
  CHECK(at(*d, p) && at(*s, q), "swapped pointers do not designate each other's target");
}
#define ALL(N, T) \
  OB ob_construct_##N(void* m, T* p) { construct<T>(m, p); } \
  OB ob_copy_##N(void) { copy<T>(); } \
  OB ob_assign_##N(void) { assign<T>(false); } \
  OB ob_self_assign_##N(void) { assign<T>(true); } \
  OB ob_move_assign_##N(void) { move_assign<T>(false); } \
  OB ob_self_move_assign_##N(void) { move_assign<T>(true); } \
  OB ob_set_##N(op<T>* d, T* p) { set<T>(d, p); } \
  OB ob_swap_##N(void) { swap<T>(); }
ALL(pod, pod)
ALL(u8, std::uint8_t)
ALL(void, void)

// arithmetic
template <typename T> static inline void arith(op<T>* o, std::int64_t i) {
  ASSUME(some(o) && o->get() != nullptr && i > -(1LL << 40) && i < (1LL << 40));
  T* const p = o->get();
  CHECK(*o + i == p + i && *o - i == p - i && &(*o)[static_cast<std::size_t>(i)] == p + i, "an indexed access does not refer to the element of the target");
  CHECK(&**o == p && o->operator->() == p && static_cast<T*>(*o) == p && static_cast<void const*>(*o) == p, "an access does not refer to the target");
  CHECK(*o == p && !(*o != p), "comparison with a plain pointer");
  REACH("computed");
  CHECK(at(*o, p), "an access changes the pointer");
}
OB ob_arith_pod(op<pod>* o, std::int64_t i) { arith(o, i); }
OB ob_arith_u8(op<std::uint8_t>* o, std::int64_t i) { arith(o, i); }
template <typename T> static inline void step(op<T>* o) {
  ASSUME(some(o) && o->get() != nullptr && adr(o->get()) > 64 && user(adr(o->get()) + 64));
  T* const p = o->get();
  { auto& r = ++*o; CHECK(&r == o && at(*o, p + 1), "pre-increment does not advance by one element"); }
  { auto& r = --*o; CHECK(&r == o && at(*o, p), "pre-decrement does not step back by one element"); }
  { auto const r = (*o)++; CHECK(r.get() == p && at(*o, p + 1), "post-increment does not advance by one element and return the old target"); }
  { auto const r = (*o)--; CHECK(r.get() == p + 1 && at(*o, p), "post-decrement does not step back by one element and return the old target"); }
  REACH("stepped");
}
OB ob_step_pod(op<pod>* o) { step(o); }
OB ob_step_u8(op<std::uint8_t>* o) { step(o); }

template <typename T> static inline void null(op<T>* o) {
  ASSUME(some(o));
  bool const n = o->get() == nullptr;
  CHECK((*o == nullptr) == n && (nullptr == *o) == n && (*o != nullptr) == !n && (nullptr != *o) == !n && static_cast<bool>(*o) == !n, "a comparison with null does not tell whether there is a target");
  REACH("compared");
}
OB ob_null_pod(op<pod>* o) { null(o); }
OB ob_null_u8(op<std::uint8_t>* o) { null(o); }
OB ob_null_void(op<void>* o) { null(o); }
// offset pointers inside other objects
template <typename X, typename G> static inline void inside(int how, G get) {
  X *const d = place<X>(), *const s = place<X>();
  MUST(d != s);
  any_value(get(*s)); any_value(get(*d));
  pod* const p = get(*s).get();
  auto const& cs = *s;
  if (how == 0) new (d) X(cs);
  else if (how == 1) *d = cs;
  else if (how == 2) new (d) X(std::move(*s));
  else *d = std::move(*s);
  REACH("copied");
  CHECK(at(get(*d), p), "copying, moving or assigning an object does not relocate a pointer inside it");
}
struct agg { std::uint32_t x; op<pod> p; };
#define IN(N, X, G) \
  OB ob_copied_##N(void) { inside<X>(0, [](X& x) -> op<pod>& { return G; }); } \
  OB ob_copy_assigned_##N(void) { inside<X>(1, [](X& x) -> op<pod>& { return G; }); } \
  OB ob_moved_##N(void) { inside<X>(2, [](X& x) -> op<pod>& { return G; }); } \
  OB ob_move_assigned_##N(void) { inside<X>(3, [](X& x) -> op<pod>& { return G; }); }
using pair_t = c::pair<std::uint32_t, op<pod>>;
using tuple_t = c::tuple<std::uint32_t, op<pod>>;
using array_t = c::array<op<pod>, 3>;
IN(agg, agg, x.p)
IN(pair, pair_t, x.second)
IN(tuple, tuple_t, c::get<1>(x))
IN(array, array_t, x[2])
