// C04: owning pointers destroy and free exactly what they own, exactly once
#include "d_std.h"
#include "life.h"
#include "cista/containers/unique_ptr.h"
namespace c = cista;
namespace gh {
static unsigned frees; static void const* freed[2];
}
struct obj : lf::life<0> {
  using lf::life<0>::life;
  static void* operator new(std::size_t n) { CHECK(n == sizeof(obj), "wrong number of bytes is allocated"); return lf::storage<obj>(0); }
  static void* operator new(std::size_t, void* p) noexcept { return p; }
  static void operator delete(void* p) {
    CHECK(gh::frees < 2, "more is freed than is owned");
    gh::freed[gh::frees & 1U] = p; ++gh::frees;
  }
};
static obj *p, *q;
template <typename U> struct t {
  // two pointees, two pointers
  static U* place() { auto const m = static_cast<U*>(an_fresh()); MUST(m != nullptr && adr(m) < (1ULL << 46)); return m; }
  static void start() {
    lf::start(); gh::frees = 0;
    p = lf::storage<obj>(0); q = lf::storage<obj>(1); MUST(p != q);
    new (p) obj(1); new (q) obj(2);
  }
  static void make(U* m, obj* o, bool null, bool own) { if (null) new (m) U(nullptr); else new (m) U(o, own); }
  static void finish(bool p_owned, bool q_owned) {
    CHECK(gh::frees == (p_owned ? 1U : 0U) + (q_owned ? 1U : 0U), "an owned object is not freed exactly once");
    CHECK(!p_owned || gh::freed[0] == p || (gh::frees > 1 && gh::freed[1] == p), "the owned object is not freed");
    CHECK(!q_owned || gh::freed[0] == q || (gh::frees > 1 && gh::freed[1] == q), "the owned object is not freed");
    CHECK((p->st == lf::ALIVE) == !p_owned && (q->st == lf::ALIVE) == !q_owned, "exactly the owned objects are destroyed");
    REACH("done");
  }
  static void is(U const& u, obj* o, bool null) {
    CHECK(u.get() == (null ? nullptr : o) && static_cast<bool>(u) == !null && (u == nullptr) == null && (nullptr == u) == null && (u != nullptr) == !null && (nullptr != u) == !null, "the pointer does not designate the expected object");
    if (!null) CHECK(&*u == o && u.operator->() == o, "the pointer does not designate the expected object");
  }
  static void destroy(bool null, bool own) { start(); auto a = place(); make(a, p, null, own); is(*a, p, null); a->~U(); finish(!null && own, false); }
  static void deflt() {
    start(); auto a = place(); __builtin_memset(static_cast<void*>(a), static_cast<int>(an_any_u64() & 0xFFU), sizeof(U));
    new (a) U(); is(*a, nullptr, true); a->~U(); finish(false, false);
  }
  // an object that is passed without further ado is owned
  static void owned() { start(); auto a = place(); new (a) U(p); is(*a, p, false); a->~U(); finish(true, false); }
  static void move(bool null, bool own) {
    start(); auto a = place(), b = place(); MUST(a != b); make(a, p, null, own);
    new (b) U(std::move(*a));
    is(*b, p, null); is(*a, nullptr, true);
    CHECK(gh::frees == 0, "a moved object is freed");
    a->~U(); CHECK(gh::frees == 0, "a moved object is freed"); b->~U(); finish(!null && own, false);
  }
  static void assign(bool na, bool oa, bool nb, bool ob) {
    start(); auto a = place(), b = place(); MUST(a != b); make(a, p, na, oa); make(b, q, nb, ob);
    *b = std::move(*a);
    is(*b, p, na); is(*a, nullptr, true);
    CHECK(p->st == lf::ALIVE, "a moved object is destroyed");
    CHECK(gh::frees == (!nb && ob ? 1U : 0U), "the replaced object is not freed");
    a->~U(); b->~U(); finish(!na && oa, !nb && ob);
  }
  static void self(bool null, bool own) {
    start(); auto a = place(); make(a, p, null, own);
    auto& r = *a; *a = std::move(r);
    CHECK(gh::frees == 0 && p->st == lf::ALIVE, "an object is destroyed by assigning its owner to itself");
    is(*a, p, null);
    a->~U(); finish(!null && own, false);
  }
  static void reset(bool null, bool own) { start(); auto a = place(); make(a, p, null, own); a->reset(); is(*a, nullptr, true); finish(!null && own, false); a->~U(); finish(!null && own, false); }
  static void set_null(bool null, bool own) { start(); auto a = place(); make(a, p, null, own); *a = nullptr; is(*a, nullptr, true); a->~U(); finish(!null && own, false); }
};
#define ALL(N, U) \
  OB ob_##N##_destroy(bool n, bool o) { t<U>::destroy(n, o); } \
  OB ob_##N##_default(void) { t<U>::deflt(); } \
  OB ob_##N##_owned(void) { t<U>::owned(); } \
  OB ob_##N##_move(bool n, bool o) { t<U>::move(n, o); } \
  OB ob_##N##_move_assign(bool n, bool o, bool m, bool q) { t<U>::assign(n, o, m, q); } \
  OB ob_##N##_self_move(bool n, bool o) { t<U>::self(n, o); } \
  OB ob_##N##_reset(bool n, bool o) { t<U>::reset(n, o); } \
  OB ob_##N##_assign_null(bool n, bool o) { t<U>::set_null(n, o); }
ALL(raw, c::raw::unique_ptr<obj>)
ALL(off, c::offset::unique_ptr<obj>)
OB ob_make_raw(std::uint64_t v) { lf::start(); gh::frees = 0; { auto u = c::raw::make_unique<obj>(v); CHECK(u.get() != nullptr && u->v == v && lf::live == 1, "make_unique() does not make the object"); } REACH("done"); CHECK(lf::live == 0 && gh::frees == 1, "an owned object is not freed exactly once"); }
OB ob_make_off(std::uint64_t v) { lf::start(); gh::frees = 0; { auto u = c::offset::make_unique<obj>(v); CHECK(u.get() != nullptr && u->v == v && lf::live == 1, "make_unique() does not make the object"); } REACH("done"); CHECK(lf::live == 0 && gh::frees == 1, "an owned object is not freed exactly once"); }
static_assert(!std::is_copy_constructible_v<c::raw::unique_ptr<obj>> && !std::is_copy_assignable_v<c::raw::unique_ptr<obj>> && !std::is_copy_constructible_v<c::offset::unique_ptr<obj>> && !std::is_copy_assignable_v<c::offset::unique_ptr<obj>>, "OBLIGATION: an owning pointer must not be copyable");
