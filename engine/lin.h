// Linear-inequality abstract domain (exact integer arithmetic).
//
// An abstract state is a conjunction of constraints  e >= 0  /  e == 0 over
// integer symbols with known ranges.  Emptiness is decided by equality
// substitution + Fourier-Motzkin elimination with integer tightening.  Every
// answer "empty" is exact (sound); arithmetic overflow, or a blow-up of the
// elimination, answers "maybe non-empty".
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace lin {
using i128 = __int128;

struct Overflow {};

inline i128 addc(i128 a, i128 b) {
  i128 r;
  if (__builtin_add_overflow(a, b, &r)) throw Overflow{};
  return r;
}
inline i128 mulc(i128 a, i128 b) {
  i128 r;
  if (__builtin_mul_overflow(a, b, &r)) throw Overflow{};
  return r;
}
inline i128 gcd(i128 a, i128 b) {
  if (a < 0) a = -a;
  if (b < 0) b = -b;
  while (b) { auto t = a % b; a = b; b = t; }
  return a;
}
inline i128 fdiv(i128 a, i128 b) {  // floor, b > 0
  i128 q = a / b;
  if (a % b != 0 && a < 0) --q;
  return q;
}

struct Expr {
  std::vector<std::pair<int, i128>> t;  // sorted by symbol
  i128 c = 0;

  static Expr cst(i128 v) { Expr e; e.c = v; return e; }
  static Expr sym(int s) { Expr e; e.t.push_back({s, 1}); return e; }
  bool isConst() const { return t.empty(); }
  i128 coef(int s) const {
    for (auto& p : t) if (p.first == s) return p.second;
    return 0;
  }
  friend Expr operator+(Expr const& a, Expr const& b) {
    Expr r;
    r.c = addc(a.c, b.c);
    auto i = a.t.begin(), j = b.t.begin();
    while (i != a.t.end() || j != b.t.end()) {
      if (j == b.t.end() || (i != a.t.end() && i->first < j->first)) r.t.push_back(*i++);
      else if (i == a.t.end() || j->first < i->first) r.t.push_back(*j++);
      else {
        auto v = addc(i->second, j->second);
        if (v != 0) r.t.push_back({i->first, v});
        ++i; ++j;
      }
    }
    return r;
  }
  Expr scale(i128 k) const {
    Expr r;
    if (k == 0) return r;
    r.c = mulc(c, k);
    for (auto& p : t) r.t.push_back({p.first, mulc(p.second, k)});
    return r;
  }
  friend Expr operator-(Expr const& a, Expr const& b) { return a + b.scale(-1); }
  friend bool operator==(Expr const& a, Expr const& b) { return a.c == b.c && a.t == b.t; }
  friend bool operator<(Expr const& a, Expr const& b) {
    if (a.c != b.c) return a.c < b.c;
    return a.t < b.t;
  }
};

struct Con {
  Expr e;
  bool eq;  // e == 0 else e >= 0
};

// returns true iff the system is proven empty
struct Range { i128 lo, hi; };

class System {
public:
  std::vector<Con> cons;

  // normalise; returns false if trivially contradictory
  static bool norm(Con& k, bool& trivial) {
    trivial = false;
    i128 g = 0;
    for (auto& p : k.e.t) g = gcd(g, p.second);
    if (g == 0) {
      trivial = true;
      return k.eq ? k.e.c == 0 : k.e.c >= 0;
    }
    if (g > 1) {
      if (k.eq) {
        if (k.e.c % g != 0) return false;
        k.e.c /= g;
      } else {
        k.e.c = fdiv(k.e.c, g);
      }
      for (auto& p : k.e.t) p.second /= g;
    }
    return true;
  }

  // EMPTY is exact.  SAT comes with an integer model.  UNKNOWN: neither shown.
  enum Verdict { EMPTY, SAT, UNKNOWN };
  using Model = std::map<int, i128>;

  static Verdict solve(std::vector<Con> cs, std::vector<Range> const& rng, std::vector<Expr> const& ne, Model& m) {
    try {
      return solveImpl(std::move(cs), rng, ne, m);
    } catch (Overflow const&) {
      return UNKNOWN;
    }
  }
  static i128 eval(Expr const& e, Model const& m) {
    i128 v = e.c;
    for (auto& p : e.t) {
      auto it = m.find(p.first);
      v = addc(v, mulc(p.second, it == m.end() ? 0 : it->second));
    }
    return v;
  }

private:
  struct Elim { int var; std::vector<Con> cons; };
  static Verdict solveImpl(std::vector<Con> cs, std::vector<Range> const& rng, std::vector<Expr> const& ne, Model& m) {
    auto orig = cs;
    // add ranges of every symbol in use
    std::vector<int> used;
    for (auto& k : cs)
      for (auto& p : k.e.t) used.push_back(p.first);
    for (auto& e : ne)
      for (auto& p : e.t) used.push_back(p.first);
    std::sort(used.begin(), used.end());
    used.erase(std::unique(used.begin(), used.end()), used.end());
    for (int s : used) {
      auto const& r = rng[s];
      Con a{Expr::sym(s), false};
      a.e.c = -r.lo;
      cs.push_back(a);
      Con b{Expr::sym(s).scale(-1), false};
      b.e.c = r.hi;
      cs.push_back(b);
    }
    auto withRanges = cs;
    std::vector<std::pair<int, Expr>> subst;
    for (;;) {
      // normalise, find equality
      std::vector<Con> nx;
      for (auto& k : cs) {
        bool tr;
        if (!norm(k, tr)) return EMPTY;
        if (!tr) nx.push_back(k);
      }
      cs.swap(nx);
      int eqi = -1, var = -1;
      for (std::size_t i = 0; i < cs.size() && eqi < 0; ++i)
        if (cs[i].eq)
          for (auto& p : cs[i].e.t)
            if (p.second == 1 || p.second == -1) { eqi = (int)i; var = p.first; break; }
      if (eqi < 0) break;
      // var = -(rest)/coef
      auto e = cs[eqi].e;
      auto co = e.coef(var);
      Expr rest = e - Expr::sym(var).scale(co);
      Expr val = rest.scale(co == 1 ? -1 : 1);
      cs.erase(cs.begin() + eqi);
      for (auto& k : cs) {
        auto cc = k.e.coef(var);
        if (cc != 0) k.e = (k.e - Expr::sym(var).scale(cc)) + val.scale(cc);
      }
      subst.push_back({var, val});
    }
    // remaining equalities w/o unit coefficient -> two inequalities
    std::vector<Con> in;
    for (auto& k : cs) {
      if (k.eq) {
        in.push_back({k.e, false});
        in.push_back({k.e.scale(-1), false});
      } else in.push_back(k);
    }
    if (intervals(in)) return EMPTY;
    std::vector<Elim> el;
    bool gaveUp = false;
    if (fm(std::move(in), el, gaveUp)) return EMPTY;
    if (gaveUp) return UNKNOWN;
    for (int attempt = 0; attempt < 4; ++attempt) {
      Model t;
      bool ok = true;
      try {
        for (auto it = el.rbegin(); it != el.rend() && ok; ++it) {
          bool hasLo = false, hasHi = false;
          i128 lo = 0, hi = 0;
          for (auto& k : it->cons) {
            auto c = k.e.coef(it->var);
            i128 rest = eval(k.e, t) - mulc(c, t.count(it->var) ? t[it->var] : 0);
            // c*x + rest >= 0
            if (c > 0) {
              i128 b = -fdiv(rest, c);  // x >= ceil(-rest/c)
              if (!hasLo || b > lo) { lo = b; hasLo = true; }
            } else {
              i128 b = fdiv(rest, -c);
              if (!hasHi || b < hi) { hi = b; hasHi = true; }
            }
          }
          if (!hasLo) lo = hasHi ? hi : 0;
          if (!hasHi) hi = lo;
          if (lo > hi) { ok = false; break; }
          i128 v = lo;
          switch (attempt) {
            case 0: v = lo; break;
            case 1: v = hi; break;
            case 2: v = lo + (hi - lo) / 2; break;
            case 3: v = std::min(hi, lo + 1 + (i128)(it->var % 7) * 8); break;
          }
          t[it->var] = v;
        }
        if (!ok) continue;
        for (auto it = subst.rbegin(); it != subst.rend(); ++it) t[it->first] = eval(it->second, t);
        for (int s : used)
          if (!t.count(s)) t[s] = rng[s].lo <= 0 && rng[s].hi >= 0 ? 0 : rng[s].lo;
        for (auto& k : withRanges) {
          auto v = eval(k.e, t);
          if (k.eq ? v != 0 : v < 0) { ok = false; break; }
        }
        for (auto& e : ne)
          if (ok && eval(e, t) == 0) { ok = false; break; }
      } catch (Overflow const&) { ok = false; }
      if (ok) { m = std::move(t); return SAT; }
    }
    return UNKNOWN;
  }

  // Bounds of single variables: true if they alone show a contradiction.
  // Constraints implied by the explicit bounds of their variables are dropped.
  static bool intervals(std::vector<Con>& v) {
    if (dedupe(v)) return true;
    std::map<int, Range> b;
    std::map<int, int> known;  // 1: lower, 2: upper
    auto tighten = [&](int x, i128 coef, i128 rest) {  // coef * x + rest >= 0
      auto& r = b[x];
      auto& k = known[x];
      if (coef > 0) {
        i128 l = -fdiv(rest, coef);
        if (!(k & 1) || l > r.lo) { r.lo = l; k |= 1; return true; }
      } else {
        i128 h = fdiv(rest, -coef);
        if (!(k & 2) || h < r.hi) { r.hi = h; k |= 2; return true; }
      }
      return false;
    };
    for (auto& k : v)
      if (k.e.t.size() == 1) tighten(k.e.t[0].first, k.e.t[0].second, k.e.c);
    auto bound = [&](int x, i128 coef, bool max, i128& out) {
      bool hi = (coef > 0) == max;
      auto it = known.find(x);
      if (it == known.end() || !(it->second & (hi ? 2 : 1))) return false;
      out = mulc(coef, hi ? b[x].hi : b[x].lo);
      return true;
    };
    std::vector<Con> keep;
    for (auto& k : v) {
      bool drop = k.e.t.size() > 1;
      try {
        i128 m = k.e.c, t;
        for (auto& p : k.e.t) {
          if (!drop) break;
          if (!bound(p.first, p.second, false, t)) drop = false;
          else m = addc(m, t);
        }
        if (drop && m < 0) drop = false;
      } catch (Overflow const&) { drop = false; }
      if (!drop) keep.push_back(k);
    }
    v.swap(keep);
    for (int round = 0; round < 5; ++round) {
      bool changed = false;
      for (auto& k : v) {
        try {
          i128 m = k.e.c, t;
          int open = 0, which = -1;
          for (auto& p : k.e.t) {
            if (bound(p.first, p.second, true, t)) m = addc(m, t);
            else { ++open; which = p.first; }
          }
          if (open > 1) continue;
          if (open == 0 && m < 0) return true;
          for (auto& p : k.e.t) {
            if (open && p.first != which) continue;
            i128 rest = m;
            if (!open) { bound(p.first, p.second, true, t); rest = addc(m, -t); }
            if (tighten(p.first, p.second, rest)) changed = true;
          }
          for (auto& p : k.e.t)
            if (known[p.first] == 3 && b[p.first].lo > b[p.first].hi) return true;
        } catch (Overflow const&) {}
      }
      if (!changed) break;
    }
    return false;
  }

  static bool dedupe(std::vector<Con>& v) {  // true if contradiction found
    std::map<std::vector<std::pair<int, i128>>, i128> best;
    for (auto& k : v) {
      bool tr;
      if (!norm(k, tr)) return true;
      if (tr) continue;
      auto [it, ins] = best.emplace(k.e.t, k.e.c);
      if (!ins && k.e.c < it->second) it->second = k.e.c;
    }
    v.clear();
    for (auto& [t, c] : best) {
      auto neg = t;
      for (auto& p : neg) p.second = -p.second;
      auto it = best.find(neg);
      // t.x + c >= 0 and -t.x + c2 >= 0  =>  c + c2 >= 0
      if (it != best.end() && c + it->second < 0) return true;
      Con k; k.e.t = t; k.e.c = c; k.eq = false;
      v.push_back(std::move(k));
    }
    return false;
  }

  static bool fm(std::vector<Con> v, std::vector<Elim>& el, bool& gaveUp) {
    for (;;) {
      if (dedupe(v)) return true;
      if (v.empty()) return false;
      std::map<int, std::pair<long, long>> cnt;
      for (auto& k : v)
        for (auto& p : k.e.t) (p.second > 0 ? cnt[p.first].first : cnt[p.first].second)++;
      int var = -1;
      long best = 0;
      for (auto& [s, pn] : cnt) {
        long cost = pn.first * pn.second - pn.first - pn.second;
        if (var < 0 || cost < best) { var = s; best = cost; }
      }
      if (var < 0) return false;
      std::vector<Con> pos, neg, rest;
      for (auto& k : v) {
        auto c = k.e.coef(var);
        (c > 0 ? pos : c < 0 ? neg : rest).push_back(k);
      }
      if (pos.size() * neg.size() + rest.size() > 20000) { gaveUp = true; return false; }
      {
        Elim x{var, pos};
        x.cons.insert(x.cons.end(), neg.begin(), neg.end());
        el.push_back(std::move(x));
      }
      for (auto& a : pos)
        for (auto& b : neg) {
          auto ca = a.e.coef(var), cb = -b.e.coef(var);
          auto g = gcd(ca, cb);
          try {
            Con n{a.e.scale(cb / g) + b.e.scale(ca / g), false};
            rest.push_back(std::move(n));
          } catch (Overflow const&) {
            // dropping a derived constraint only weakens the system: sound
          }
        }
      v.swap(rest);
    }
  }
};
}  // namespace lin
