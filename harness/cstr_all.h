#pragma once
#include "str.h"
#include "cista/containers/cstring.h"
namespace c = cista;
enum kind { EMPTY, SHORT, OWN, VIEW };
template <typename S> struct t {
  using C = char;
  static constexpr std::uint64_t cs = 1, lim = 15;
  struct src { std::uint64_t p, n; C e[lim]; C* mem; };  // a text: where it starts, its length, the characters of a short one
  using sv = std::basic_string_view<C>;
  static std::uint64_t longer(std::uint64_t n) { MUST(n > lim && n < 0x100000000ULL); return n; }
  static C some() { return static_cast<C>(an_any_u64() | 1); }
  static void known(src& x, C* p, std::uint64_t n) {
    x.p = adr(p); x.n = n;
    if (n <= lim)
      _Pragma("unroll") for (unsigned i = 0; i < lim; ++i) { if (i < n) { auto const ch = some(); p[i] = ch; x.e[i] = ch; } else x.e[i] = 0; }
  }
  // a string of n characters
  template <unsigned I> static S* make(src& x, kind k, std::uint64_t n) {
    auto const s = static_cast<S*>(an_fresh());
    tx::place<I>(adr(s));
    static_assert(sizeof(S) == 16); using H = decltype(s->h_);
    new (s) S();
    x.p = 0; x.n = 0;
    if (k == EMPTY) return s;
    if (k == SHORT) {
      known(x, s->s_.s_, n);
      s->s_.remaining_ = static_cast<std::int8_t>(lim - n);
      return s;
    }
    MUST((n > lim || (k == VIEW && n != 0)) && n <= 0xFFFFFFFFULL);
    auto const m = static_cast<C*>(an_fresh());
    tx::block<I>(adr(m), n + (k == OWN ? 1 : 0), k == OWN ? 1 : 0);
    new (&s->h_) H();
    s->h_.self_allocated_ = k == OWN; s->h_.size_ = static_cast<std::uint32_t>(n); s->h_.ptr_ = m;
    if (k == OWN) m[n] = 0;
    x.p = adr(m); x.n = n; x.mem = m;
    return s;
  }
  static C* text(src& x, std::uint64_t n) {
    auto const m = static_cast<C*>(an_fresh());
    MUST(n < tx::W / 8);
    tx::block<3>(adr(m), n * cs, 0); tx::bytes[3] = n * cs + cs; tx::text_n = n;
    known(x, m, n);
    return m;
  }
  template <unsigned I> static bool holds(std::uint64_t p, src const& x, bool owning) {
    return p == tx::base[I] && (!owning || (tx::heap[I] == 1 && tx::from[I] == x.p && (tx::fromn[I] == x.n || (tx::from[I] == tx::base[I] && tx::fromn[I] == x.n + 1)) && x.n + 1 <= tx::bytes[I]));
  }
  static void is(S& s, src const& x, bool owning) {
    CHECK(s.size() == x.n, "the string does not have the expected length");
    CHECK(s.empty() == (x.n == 0), "the string is not empty exactly if it has no characters");
    auto const v = s.view();
    CHECK(v.size() == x.n && (x.n == 0 || v.data() == s.data()), "the view does not describe the string");
    CHECK(s.begin() == s.data() && adr(s.end()) == adr(s.data()) + x.n * cs, "begin and end do not span the string");
    CHECK(s.is_owning() == (owning || x.n == 0), "the string does not tell whether it owns its characters");
    if (x.n == 0) { CHECK(s.is_short() && s.c_str()[0] == 0, "an empty string is not terminated"); return; }
    if (x.n <= lim && owning) {
      CHECK(s.is_short(), "a short string is not stored in place");
      _Pragma("unroll") for (unsigned i = 0; i < lim; ++i) if (i < x.n) CHECK(s[i] == x.e[i], "the string does not have the expected characters");
      CHECK(s.c_str()[x.n] == 0, "the string is not terminated");
      return;
    }
    CHECK(!s.is_short(), "a long string is stored in place");
    auto const p = adr(s.data());
    CHECK(s.h_.self_allocated_ == owning, "the string does not tell whether it owns its characters");
    if (!owning) { CHECK(p == x.p, "the view does not refer to the text"); return; }
    CHECK(s.c_str()[x.n] == 0, "the string is not terminated");
    CHECK(holds<0>(p, x, true) || holds<1>(p, x, true) || holds<2>(p, x, true) || holds<4>(p, x, true), "the string does not own a copy of the text");
  }
  static void end(S* a, S* b = nullptr) { a->~S(); if (b) b->~S(); NO_LEAK; REACH("done"); }

  static void destroy(kind k, std::uint64_t n) { tx::start(); src x; auto s = make<0>(x, k, n); is(*s, x, k != VIEW); end(s); CHECK(tx::heap[0] != 1, "storage is lost"); }
  static void reset(kind k, std::uint64_t n) { tx::start(); src x; auto s = make<0>(x, k, n); s->reset(); NO_LEAK; is(*s, src{}, true); end(s); }
  // from a text of the caller
  template <typename F> static void construct(std::uint64_t n, bool owning, F f) { tx::start(); src x; auto const p = text(x, n); auto const s = static_cast<S*>(an_fresh()); tx::place<0>(adr(s)); f(s, p); is(*s, x, owning); end(s); }
  template <typename F> static void assign(kind k, std::uint64_t m, std::uint64_t n, bool owning, F f) { tx::start(); src x, y; auto const s = make<0>(y, k, m); auto const p = text(x, n); f(*s, p); is(*s, x, owning); end(s); }
  // a part of the string itself
  template <typename F> static void own_part(kind k, std::uint64_t m, std::uint64_t off, std::uint64_t n, bool owning, F f) {
    tx::start(); src x, y; auto const s = make<0>(y, k, m); MUST(off <= m && n <= m - off);
    auto const p = (k == SHORT ? s->s_.s_ : y.mem) + off; tx::text_n = n;
    x.p = adr(p); x.n = n;
    if (k == SHORT) { _Pragma("unroll") for (unsigned i = 0; i < lim; ++i) x.e[i] = i < n ? y.e[off + i] : C(0); } else known(x, p, n);
    f(*s, p); is(*s, x, owning); end(s);
  }
  template <typename F> static void two(kind k, std::uint64_t n, kind l, std::uint64_t m, bool owning, bool moved, F f) {
    tx::start(); src x, y; auto const a = make<0>(x, k, n); auto const b = make<1>(y, l, m);
    f(*a, *b);
    is(*a, y, owning);
    if (moved) { CHECK(b->is_short() || b->h_.ptr_ == nullptr || !b->h_.self_allocated_, "the source of a move keeps the storage"); if (l != SHORT) is(*b, src{}, true); }
    else is(*b, y, l != VIEW);
    end(a, b);
  }
  template <typename F> static void construct2(kind l, std::uint64_t m, bool owning, bool moved, F f) {
    tx::start(); src y; auto const b = make<1>(y, l, m);
    auto const a = static_cast<S*>(an_fresh()); tx::place<0>(adr(a));
    f(a, *b);
    is(*a, y, owning);
    if (moved) { if (l != SHORT) is(*b, src{}, true); } else is(*b, y, l != VIEW);
    end(a, b);
  }
  template <typename F> static void self(kind k, std::uint64_t n, bool owning, F f) { tx::start(); src x; auto const s = make<0>(x, k, n); f(*s); is(*s, x, owning); end(s); }
};

#define U64 std::uint64_t
#define ALL(P, TY) \
  using P##_t = t<TY>; using P##_c = char; using P##_v = std::basic_string_view<P##_c>; \
  OB ob_##P##_destroy_empty(void) { P##_t::destroy(EMPTY, 0); } \
  OB ob_##P##_destroy_short(void) { P##_t::destroy(SHORT, 5); } \
  OB ob_##P##_destroy_full(void) { P##_t::destroy(SHORT, P##_t::lim); } \
  OB ob_##P##_destroy_own(U64 n) { P##_t::destroy(OWN, n); } \
  OB ob_##P##_destroy_view(U64 n) { P##_t::destroy(VIEW, n); } \
  OB ob_##P##_reset_empty(void) { P##_t::reset(EMPTY, 0); } \
  OB ob_##P##_reset_short(void) { P##_t::reset(SHORT, 5); } \
  OB ob_##P##_reset_own(U64 n) { P##_t::reset(OWN, n); } \
  OB ob_##P##_reset_view(U64 n) { P##_t::reset(VIEW, n); } \
  CTOR(P, TY, own, true) CTOR(P, TY, view, false) \
  SETS(P, TY, own, true) SETS(P, TY, view, false) \
  PARTS(P, TY) REJECT(P, TY)
// constructors; W is owning or non_owning
#define CTOR1(P, TY, Q, WNAME, W, LEN, LN) \
  OB ob_##P##_ctor_##WNAME##_sv_##LN(U64 n) { (void)n; P##_t::construct(LEN, Q, [](TY* s, P##_c* p) { new (s) TY(P##_v{p, static_cast<std::size_t>(tx::text_n)}, TY::W); }); } \
  OB ob_##P##_ctor_##WNAME##_len_##LN(U64 n) { (void)n; P##_t::construct(LEN, Q, [](TY* s, P##_c* p) { MUST(tx::text_n <= 0xFFFFFFFFULL); new (s) TY(p, static_cast<std::uint32_t>(tx::text_n), TY::W); }); }
#define CTORS(P, TY, Q, WNAME, W) \
  CTOR1(P, TY, true, WNAME, W, 0, 0) CTOR1(P, TY, Q, WNAME, W, 1, 1) CTOR1(P, TY, Q, WNAME, W, P##_t::lim, full) CTOR1(P, TY, Q, WNAME, W, P##_t::longer(n), long)
#define CTOR(P, TY, WNAME, Q) CTOR_##WNAME(P, TY)
#define CTOR_own(P, TY) CTORS(P, TY, true, own, owning)
#define CTOR_view(P, TY) CTORS(P, TY, false, view, non_owning)
#define SET1(P, TY, Q, WNAME, KN, K, M, LEN, LN) \
  OB ob_##P##_set_##WNAME##_##KN##_##LN(U64 n, U64 m) { (void)n; (void)m; P##_t::assign(K, M, LEN, Q, [](TY& s, P##_c* p) { s.set_##WNAME(P##_v{p, static_cast<std::size_t>(tx::text_n)}); }); }
#define SET2(P, TY, Q, W, LEN, LN) \
  SET1(P, TY, Q, W, empty, EMPTY, 0, LEN, LN) SET1(P, TY, Q, W, short, SHORT, 5, LEN, LN) SET1(P, TY, Q, W, own, OWN, m, LEN, LN) SET1(P, TY, Q, W, view, VIEW, m, LEN, LN)
#define SETS(P, TY, WNAME, Q) SETS_##WNAME(P, TY)
#define SETS_own(P, TY) SET2(P, TY, true, owning, 0, 0) SET2(P, TY, true, owning, 1, 1) SET2(P, TY, true, owning, P##_t::lim, full) SET2(P, TY, true, owning, P##_t::longer(n), long)
#define SETS_view(P, TY) SET2(P, TY, true, non_owning, 0, 0) SET2(P, TY, false, non_owning, 1, 1) SET2(P, TY, false, non_owning, P##_t::lim, full) SET2(P, TY, false, non_owning, P##_t::longer(n), long)
#define PART1(P, TY, KN, K, M, WNAME, Q, OFF, LEN, LN) \
  OB ob_##P##_part_##WNAME##_##KN##_##LN(U64 n, U64 m, U64 o) { (void)n; (void)m; (void)o; P##_t::own_part(K, M, OFF, LEN, Q, [](TY& s, P##_c* p) { s.set_##WNAME(P##_v{p, static_cast<std::size_t>(tx::text_n)}); }); }
#define PARTS(P, TY) \
  PART1(P, TY, own, OWN, m, owning, true, o, P##_t::longer(n), long) PART1(P, TY, own, OWN, m, owning, true, o, 0, 0) PART1(P, TY, own, OWN, m, owning, true, o, 1, 1) PART1(P, TY, own, OWN, m, owning, true, o, P##_t::lim, full) \
  PART1(P, TY, view, VIEW, m, owning, true, o, P##_t::longer(n), long) PART1(P, TY, view, VIEW, m, owning, true, o, 3, 3) \
  PART1(P, TY, view, VIEW, m, non_owning, false, o, P##_t::longer(n), long) PART1(P, TY, view, VIEW, m, non_owning, false, o, 3, 3) \
  PART1(P, TY, short, SHORT, 6, owning, true, 0, 6, all) PART1(P, TY, short, SHORT, 6, owning, true, 2, 3, mid) PART1(P, TY, short, SHORT, P##_t::lim, owning, true, 1, P##_t::lim - 1, tail)
// two objects; Q: the result owns its characters, MV: the source is moved from
#define TWO1(P, TY, OPN, Q, MV, KN, K, N_, LN, L, M_, ...) \
  OB ob_##P##_##OPN##_##KN##_##LN(U64 n, U64 m) { (void)n; (void)m; P##_t::two(K, N_, L, M_, Q, MV, __VA_ARGS__); }
#define TWO2(P, TY, OPN, Q, MV, LN, L, M_, ...) \
  TWO1(P, TY, OPN, Q, MV, empty, EMPTY, 0, LN, L, M_, __VA_ARGS__) TWO1(P, TY, OPN, Q, MV, short, SHORT, 5, LN, L, M_, __VA_ARGS__) \
  TWO1(P, TY, OPN, Q, MV, own, OWN, n, LN, L, M_, __VA_ARGS__) TWO1(P, TY, OPN, Q, MV, view, VIEW, n, LN, L, M_, __VA_ARGS__)
#define SOURCES(P, TY, OPN, QO, QV, MV, ...) \
  TWO2(P, TY, OPN, true, MV, empty, EMPTY, 0, __VA_ARGS__) TWO2(P, TY, OPN, true, MV, short, SHORT, 3, __VA_ARGS__) TWO2(P, TY, OPN, true, MV, full, SHORT, P##_t::lim, __VA_ARGS__) \
  TWO2(P, TY, OPN, QO, MV, own, OWN, m, __VA_ARGS__) TWO2(P, TY, OPN, QV, MV, view, VIEW, m, __VA_ARGS__)
#define NEW1(P, TY, OPN, Q, MV, LN, L, M_, ...) \
  OB ob_##P##_##OPN##_##LN(U64 m) { (void)m; P##_t::construct2(L, M_, Q, MV, __VA_ARGS__); }
#define NEWS(P, TY, OPN, QO, QV, MV, ...) \
  NEW1(P, TY, OPN, true, MV, empty, EMPTY, 0, __VA_ARGS__) NEW1(P, TY, OPN, true, MV, short, SHORT, 3, __VA_ARGS__) NEW1(P, TY, OPN, true, MV, full, SHORT, P##_t::lim, __VA_ARGS__) \
  NEW1(P, TY, OPN, QO, MV, own, OWN, m, __VA_ARGS__) NEW1(P, TY, OPN, QV, MV, view, VIEW, m, __VA_ARGS__)
#define SELF1(P, TY, OPN, KN, K, N_, Q, ...) OB ob_##P##_##OPN##_##KN(U64 n) { (void)n; P##_t::self(K, N_, Q, __VA_ARGS__); }
#define SELFS(P, TY, OPN, QO, QV, ...) \
  SELF1(P, TY, OPN, empty, EMPTY, 0, true, __VA_ARGS__) SELF1(P, TY, OPN, short, SHORT, 5, true, __VA_ARGS__) SELF1(P, TY, OPN, own, OWN, n, QO, __VA_ARGS__) SELF1(P, TY, OPN, view, VIEW, n, QV, __VA_ARGS__)
#define COPIES(P, TY, QO, QV) \
  SOURCES(P, TY, copy_assign, QO, QV, false, [](TY& a, TY& b) { auto& r = (a = static_cast<TY const&>(b)); CHECK(&r == &a, "not the string itself is returned"); }) \
  NEWS(P, TY, copy, QO, QV, false, [](TY* a, TY& b) { new (a) TY(static_cast<TY const&>(b)); })
#define MOVES(P, TY, QO, QV) \
  SOURCES(P, TY, move_assign, QO, QV, true, [](TY& a, TY& b) { auto& r = (a = std::move(b)); CHECK(&r == &a, "not the string itself is returned"); }) \
  NEWS(P, TY, move, QO, QV, true, [](TY* a, TY& b) { new (a) TY(std::move(b)); })
#define SELF(P, TY, QO, QV) \
  SELFS(P, TY, self_assign, QO, QV, [](TY& a) { auto const& r = a; a = r; }) \
  SELFS(P, TY, self_move, QO, QV, [](TY& a) { auto& r = a; a = std::move(r); })
// what is too long for the size type, or cannot be allocated, is rejected
#define REJECT(P, TY) \
  OB ob_##P##_too_long_owning(U64 n, U64 m) { tx::start(); P##_t::src x; auto& s = *P##_t::make<0>(x, OWN, m); auto const p = static_cast<P##_c const*>(an_fresh()); MUST(n > 0xFFFFFFFFULL); REACH("done"); s.set_owning(P##_v{p, n}); CHECK(false, "a text that is too long is accepted"); } \
  OB ob_##P##_too_long_view(U64 n, U64 m) { tx::start(); P##_t::src x; auto& s = *P##_t::make<0>(x, OWN, m); auto const p = static_cast<P##_c const*>(an_fresh()); MUST(n > 0xFFFFFFFFULL); REACH("done"); s.set_non_owning(P##_v{p, n}); CHECK(false, "a text that is too long is accepted"); } \
  OB ob_##P##_too_long_ctor(U64 n) { tx::start(); auto const p = static_cast<P##_c const*>(an_fresh()); auto const s = static_cast<TY*>(an_fresh()); tx::place<0>(adr(s)); MUST(n > 0xFFFFFFFFULL); REACH("done"); new (s) TY(P##_v{p, n}, TY::owning); CHECK(false, "a text that is too long is accepted"); } \
  OB ob_##P##_no_memory(U64 n, U64 m) { tx::start(); P##_t::src x, y; auto& s = *P##_t::make<0>(y, OWN, m); tx::can_fail = 1; auto const p = P##_t::text(x, P##_t::longer(n)); s.set_owning(P##_v{p, n}); P##_t::is(s, x, true); P##_t::end(&s); }
#define ASSIGN1(P, TY, Q, KN, K, M, LEN, LN) \
  OB ob_##P##_assign_##KN##_##LN(U64 n, U64 m) { (void)n; (void)m; P##_t::assign(K, M, LEN, Q, [](TY& s, P##_c* p) { s = P##_v{p, static_cast<std::size_t>(tx::text_n)}; }); }
#define CTORS_PLAIN(P, TY, Q, LEN, LN) \
  OB ob_##P##_ctor_sv_##LN(U64 n) { (void)n; P##_t::construct(LEN, Q, [](TY* s, P##_c* p) { new (s) TY(P##_v{p, static_cast<std::size_t>(tx::text_n)}); }); } \
  OB ob_##P##_ctor_len_##LN(U64 n) { (void)n; P##_t::construct(LEN, Q, [](TY* s, P##_c* p) { MUST(tx::text_n <= 0xFFFFFFFFULL); new (s) TY(p, static_cast<std::uint32_t>(tx::text_n)); }); }
#define PLAIN(P, TY, Q) \
  CTORS_PLAIN(P, TY, true, 0, 0) CTORS_PLAIN(P, TY, Q, 2, 2) CTORS_PLAIN(P, TY, Q, P##_t::longer(n), long) \
  ASSIGN1(P, TY, true, own, OWN, m, 0, 0) ASSIGN1(P, TY, Q, own, OWN, m, 4, 4) ASSIGN1(P, TY, Q, own, OWN, m, P##_t::longer(n), long) ASSIGN1(P, TY, Q, short, SHORT, 5, P##_t::longer(n), long) ASSIGN1(P, TY, Q, view, VIEW, m, P##_t::longer(n), long)
// for char: zero-terminated texts, std::string
#define CHARS(P, TY, Q) \
  OB ob_##P##_ctor_cstr_long(U64 n) { P##_t::construct(P##_t::longer(n), Q, [](TY* s, char* p) { new (s) TY(static_cast<char const*>(p)); }); } \
  OB ob_##P##_ctor_cstr_short(void) { P##_t::construct(4, Q, [](TY* s, char* p) { new (s) TY(static_cast<char const*>(p)); }); } \
  OB ob_##P##_assign_cstr_long(U64 n, U64 m) { P##_t::assign(OWN, m, P##_t::longer(n), Q, [](TY& s, char* p) { s = static_cast<char const*>(p); }); } \
  OB ob_##P##_assign_cstr_short(U64 m) { P##_t::assign(OWN, m, 4, Q, [](TY& s, char* p) { s = static_cast<char const*>(p); }); } \
  OB ob_##P##_cstr_too_long(U64 n, U64 m) { tx::start(); P##_t::src x, y; auto& s = *P##_t::make<0>(y, OWN, m); MUST(n > 0xFFFFFFFFULL); auto const p = P##_t::text(x, n); REACH("done"); s = static_cast<char const*>(p); CHECK(false, "a text that is too long is accepted"); }
