// Path-insensitive-by-widening, trace-partitioned abstract interpreter over
// LLVM IR using the linear domain of lin.h.
//
//  * values of iN type are abstracted by a linear expression e with
//    value == e (mod 2^N); the wrap-around window is made explicit only where
//    a comparison / extension / division needs it,
//  * loops are not unrolled: loop-carried values are widened to "init + c*n"
//    (induction variables) or to top, memory written by the loop is forgotten,
//    and candidate bounds harvested from the loop exit tests are kept when they
//    are inductive (Houdini),
//  * a block reached by too many partitions is joined to their common facts.
#pragma once
#include <ctime>
#include "lin.h"

#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"

#include <functional>
#include <memory>
#include <set>
#include <unordered_map>

namespace absint {
using namespace llvm;
using lin::Con;
using lin::Expr;
using lin::i128;
using lin::Range;

inline bool isOutputFn(StringRef N) {
  static const std::set<std::string> S{"printf", "puts", "putchar", "fprintf", "fputs", "fputc", "perror", "fflush", "vprintf", "vfprintf"};
  return S.count(N.str()) != 0;
}

inline i128 P2(unsigned n) { return (i128)1 << n; }

struct Val {
  Expr e;
  unsigned w = 0;
  bool bad = false;  // no numeric abstraction
};

struct Cell {
  Expr addr;
  uint64_t size;
  Value* ptr;
  Val v;
  bool fill = false;  // constant-byte fill (memset)
  uint8_t byte = 0;
  uint64_t span = 0;  // the cell lies within this many bytes from ptr (0: it is [ptr, ptr + size))
  uint64_t extent() const { return span ? span : size; }
};

struct TraceEl {
  std::shared_ptr<TraceEl> prev;
  std::string text;
};

struct State {
  std::map<Value*, Val> env;
  std::map<Value*, bool> dec;
  std::map<Value*, Value*> alias;
  std::vector<Con> cons;
  std::vector<Expr> ne;
  std::vector<Cell> mem;
  lin::System::Model model;  // a concrete point of the abstract state
  bool modelOk = true;
  std::shared_ptr<TraceEl> trace;
  std::vector<unsigned> anchor;  // common-ancestor path used to group joins
  int phase = 0;                 // states of different phases (an_phase) are never joined
  std::vector<Expr> watch;       // bytes (an_watch) other byte accesses are told apart from
  BasicBlock* prev = nullptr;
  BasicBlock* bb = nullptr;
  BasicBlock::iterator it;
};

struct ForkAlt {
  std::vector<Con> cons;
  std::vector<Expr> ne;
  Value* dec = nullptr;
  bool decv = false;
};
struct Fork {
  std::vector<ForkAlt> alts;
};
struct Dead {};

struct Result {
  std::map<Instruction*, std::vector<std::string>> open;  // target -> trace
  std::set<Instruction*> reached;
  unsigned long steps = 0, lp = 0, lpReal = 0, loops = 0;
  bool blowup = false;
};

class Interp {
public:
  Interp(Function& F, DominatorTree& DT, LoopInfo& LI, AAResults& AA,
         std::function<bool(Instruction&)> isTarget)
      : F{F}, DL{F.getParent()->getDataLayout()}, DT{DT}, LI{LI}, AA{AA},
        isTarget{std::move(isTarget)} {}

  Result res;
  std::function<bool(Instruction&)> isMark = [](Instruction&) { return false; };
  unsigned long maxSteps = 100000;
  unsigned maxStatesPerBlock = 400;
  unsigned maxExitStates = 3;
  bool merged = false;  // a top-level merge took place: a finer run may do better
  unsigned hdrStates = 64, hdrGroups = 64;  // merging in front of top-level loops
  double deadline = 0;                       // CPU seconds, 0: none


  void run() {
    State s;
    s.bb = &F.getEntryBlock();
    s.it = s.bb->begin();
    std::map<BasicBlock*, std::vector<State>> in;
    in[s.bb].push_back(s);
    std::vector<State> latch;
    region(in, nullptr, latch);
  }

private:
  Function& F;
  DataLayout const& DL;
  DominatorTree& DT;
  LoopInfo& LI;
  AAResults& AA;
  std::function<bool(Instruction&)> isTarget;
  std::vector<Range> rng;
  std::map<std::string, int> memo;
  std::map<int, Expr> bswapOf;
  unsigned anchors = 0;
  bool quiet = false;  // Houdini pre-runs do not report

  int fresh(i128 lo, i128 hi) {
    rng.push_back({lo, hi});
    return (int)rng.size() - 1;
  }
  int memoSym(std::string const& k, i128 lo, i128 hi) {
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    int s = fresh(lo, hi);
    memo.emplace(k, s);
    return s;
  }
  static std::string str(i128 v) {
    if (v == 0) return "0";
    bool n = v < 0;
    std::string s;
    while (v != 0) { int d = (int)(v % 10); s += char('0' + (d < 0 ? -d : d)); v /= 10; }
    if (n) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
  }
  static std::string key(Expr const& e) {
    std::string s = str(e.c);
    for (auto& p : e.t) s += "|" + std::to_string(p.first) + "*" + str(p.second);
    return s;
  }
  // names of values are unique per execution of an instruction: the iterations
  // of a loop that is unrolled (see unroll) are told apart by a suffix
  std::vector<std::pair<Loop*, std::string>> salts;
  std::string pkey(Value const* p) const {
    auto r = std::to_string((uintptr_t)p);
    for (auto& [L, x] : salts) {
      if (auto* I = dyn_cast<Instruction>(p)) { if (L->contains(I)) r += x; }
      else if (auto* B = dyn_cast<BasicBlock>(p)) { if (L->contains(B)) r += x; }
    }
    return r;
  }

  unsigned width(Type* T) const {
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isPointerTy()) return 64;
    return 0;
  }

  // ---- constraint queries ------------------------------------------------
  struct CacheEl { lin::System::Verdict v; std::shared_ptr<lin::System::Model> m; };
  std::unordered_map<std::string, CacheEl> lpCache;
  CacheEl solve(std::vector<Con> const& q, std::vector<Expr> const& ne) {
    std::vector<Con> v = q;
    std::sort(v.begin(), v.end(), [](Con const& a, Con const& b) { return a.eq != b.eq ? a.eq < b.eq : a.e < b.e; });
    std::string k;
    k.reserve(v.size() * 40);
    auto put = [&](void const* p, size_t n) { k.append((char const*)p, n); };
    auto putE = [&](Expr const& e) {
      put(&e.c, 16);
      for (auto& t : e.t) { put(&t.first, 4); put(&t.second, 16); }
      k += ';';
    };
    for (auto& c : v) { k += c.eq ? '=' : '>'; putE(c.e); }
    k += "//";
    for (auto& e : ne) putE(e);
    auto it = lpCache.find(k);
    if (it != lpCache.end()) return it->second;
    ++res.lpReal;
    CacheEl r;
    lin::System::Model m;
    r.v = lin::System::solve(std::move(v), rng, ne, m);
    if (r.v == lin::System::SAT) r.m = std::make_shared<lin::System::Model>(std::move(m));
    lpCache.emplace(std::move(k), r);
    return r;
  }
  bool emptyC(std::vector<Con> const& q) { return solve(q, {}).v == lin::System::EMPTY; }

  i128 mval(State const& s, int sym) const {
    auto it = s.model.find(sym);
    if (it != s.model.end()) return it->second;
    return rng[sym].lo <= 0 && rng[sym].hi >= 0 ? 0 : rng[sym].lo;
  }
  bool evalM(State const& s, Expr const& e, i128& v) const {
    try {
      v = e.c;
      for (auto& p : e.t) v = lin::addc(v, lin::mulc(p.second, mval(s, p.first)));
      return true;
    } catch (lin::Overflow const&) { return false; }
  }
  bool modelSat(State const& s, Con const& c) const {
    i128 v;
    return evalM(s, c.e, v) && (c.eq ? v == 0 : v >= 0);
  }
  bool modelNe(State const& s, Expr const& e) const {
    i128 v;
    return evalM(s, e, v) && v != 0;
  }

  // is  s /\ extra /\ xne  empty?  If not, `m` (when given) receives a model.
  bool isEmpty(State const& s, std::vector<Con> const& extra, std::vector<Expr> const& xne = {}, State* m = nullptr) {
    ++res.lp;
    if (s.modelOk) {
      bool ok = true;
      for (auto& c : extra) ok = ok && modelSat(s, c);
      for (auto& e : xne) ok = ok && modelNe(s, e);
      if (ok) {
        if (m) { m->model = s.model; m->modelOk = true; }
        return false;
      }
    }
    if (m) m->modelOk = false;
    // relevance filter
    std::set<int> syms;
    auto add = [&](Expr const& e) { for (auto& p : e.t) syms.insert(p.first); };
    for (auto& c : extra) add(c.e);
    for (auto& e : xne) add(e);
    std::vector<char> takenC(s.cons.size(), 0), takenN(s.ne.size(), 0);
    std::vector<Con> q = extra;
    std::vector<Expr> nes = xne;
    bool all = !s.modelOk && m;  // need a complete model
    for (bool ch = true; ch;) {
      ch = false;
      for (size_t i = 0; i < s.cons.size(); ++i) {
        if (takenC[i]) continue;
        bool t = all;
        for (auto& p : s.cons[i].e.t) t = t || syms.count(p.first);
        if (t) {
          takenC[i] = 1; ch = true;
          q.push_back(s.cons[i]);
          add(s.cons[i].e);
        }
      }
      for (size_t i = 0; i < s.ne.size(); ++i) {
        if (takenN[i]) continue;
        bool t = all;
        for (auto& p : s.ne[i].t) t = t || syms.count(p.first);
        if (t) {
          takenN[i] = 1; ch = true;
          nes.push_back(s.ne[i]);
          add(s.ne[i]);
        }
      }
    }
    std::sort(nes.begin(), nes.end());
    nes.erase(std::unique(nes.begin(), nes.end()), nes.end());
    auto r = solve(q, nes);
    if (r.v == lin::System::EMPTY) return true;
    if (r.v == lin::System::SAT) {
      if (m && (s.modelOk || all)) {
        m->model = s.model;
        for (auto& [k, v] : *r.m) m->model[k] = v;
        m->modelOk = true;
      }
      return false;
    }
    // disequalities: split lazily, bounded depth
    return splitNe(q, nes, 0, 0);
  }
  bool splitNe(std::vector<Con> const& q, std::vector<Expr> const& nes, size_t i, int depth) {
    if (nes.size() > 10) {
      // try each individually only
      for (auto& e : nes)
        if (emptyC(with(q, e, 0)) && emptyC(with(q, e, 1))) return true;
      return false;
    }
    if (i == nes.size()) return emptyC(q);
    auto& e = nes[i];
    auto a = with(q, e, 0), b = with(q, e, 1);
    bool ea = emptyC(a), eb = emptyC(b);
    if (ea && eb) return true;
    if (ea) return splitNe(b, nes, i + 1, depth);
    if (eb) return splitNe(a, nes, i + 1, depth);
    if (depth >= 3) return splitNe(q, nes, i + 1, depth);
    return splitNe(a, nes, i + 1, depth + 1) && splitNe(b, nes, i + 1, depth + 1);
  }
  static std::vector<Con> with(std::vector<Con> q, Expr const& e, int side) {
    // e > 0 or e < 0
    Con c{side == 0 ? e : e.scale(-1), false};
    c.e.c = lin::addc(c.e.c, -1);
    q.push_back(c);
    return q;
  }

  static Con geZ(Expr e) { return {std::move(e), false}; }
  static Con eqZ(Expr e) { return {std::move(e), true}; }
  static Con le(Expr const& a, Expr const& b) { return geZ(b - a); }
  static Con lt(Expr const& a, Expr const& b) {
    auto e = b - a;
    e.c -= 1;
    return geZ(e);
  }

  Range interval(Expr const& e) {
    i128 lo = e.c, hi = e.c;
    for (auto& p : e.t) {
      auto a = lin::mulc(p.second, rng[p.first].lo), b = lin::mulc(p.second, rng[p.first].hi);
      lo = lin::addc(lo, std::min(a, b));
      hi = lin::addc(hi, std::max(a, b));
    }
    return {lo, hi};
  }

  // ---- interpretation of modular values ------------------------------------
  Expr interp(State& s, Val const& v, bool sgn) {
    unsigned w = v.w;
    if (v.bad || w == 0 || w > 120) throw Dead{};  // callers check first
    i128 off = sgn ? P2(w - 1) : 0;
    Range r{0, 0};
    bool ok = true;
    try {
      r = interval(v.e);
      r.lo = lin::addc(r.lo, off);
      r.hi = lin::addc(r.hi, off);
    } catch (lin::Overflow const&) { ok = false; }
    auto M = P2(w);
    auto opaque = [&] {
      return Expr::sym(memoSym((sgn ? "S" : "U") + std::to_string(w) + ":" + key(v.e),
                               sgn ? -P2(w - 1) : 0, sgn ? P2(w - 1) - 1 : M - 1));
    };
    if (!ok) return opaque();
    auto k0 = lin::fdiv(r.lo, M), k1 = lin::fdiv(r.hi, M);
    if (k0 == k1) return k0 == 0 ? v.e : v.e + Expr::cst(-k0 * M);
    if (k1 - k0 > 6) {
      // the interval is too coarse: use the relational facts
      Expr z = v.e + Expr::cst(off);
      i128 lo = std::max(k0, (i128)-2), hi = std::min(k1, (i128)2);
      try {
        if (k0 < lo && !isEmpty(s, {lt(z, Expr::cst(lo * M))})) return opaque();
        if (k1 > hi && !isEmpty(s, {le(Expr::cst((hi + 1) * M), z)})) return opaque();
      } catch (lin::Overflow const&) { return opaque(); }
      k0 = lo;
      k1 = hi;
    }
    std::vector<ForkAlt> alts;
    i128 lastk = 0;
    for (auto k = k0; k <= k1; ++k) {
      // 0 <= e + off - kM <= M-1
      Expr z = v.e + Expr::cst(off - k * M);
      ForkAlt a;
      a.cons.push_back(geZ(z));
      a.cons.push_back(geZ(Expr::cst(M - 1) - z));
      if (!isEmpty(s, a.cons)) { alts.push_back(a); lastk = k; }
    }
    if (alts.empty()) throw Dead{};
    if (alts.size() == 1) {
      for (auto& c : alts[0].cons) addCon(s, c);
      return v.e + Expr::cst(-lastk * M);
    }
    throw Fork{alts};
  }
  void addCon(State& s, Con const& c) {
    if (c.e.isConst()) return;
    for (auto& k : s.cons)
      if (k.eq == c.eq && k.e == c.e) return;
    s.cons.push_back(c);
    if (s.modelOk && !modelSat(s, c)) s.modelOk = false;
  }
  void addNe(State& s, Expr const& e) {
    if (e.isConst()) return;
    for (auto& k : s.ne)
      if (k == e) return;
    s.ne.push_back(e);
    if (s.modelOk && !modelNe(s, e)) s.modelOk = false;
  }

  // ---- values -----------------------------------------------------------
  Val opaqueVal(std::string const& k, unsigned w) {
    Val v;
    v.w = w;
    if (w == 0 || w > 120) { v.bad = true; return v; }
    v.e = Expr::sym(memoSym(k, 0, P2(w) - 1));
    return v;
  }
  // A trace executes every instruction at most once (loops are summarised), so
  // the unknown produced by an instruction can be named after it.
  Val instVal(Value const* I, unsigned w, char const* tag = "i") {
    return opaqueVal(tag + pkey(I), w);
  }
  Val freshVal(unsigned w) {
    Val v;
    v.w = w;
    if (w == 0 || w > 120) { v.bad = true; return v; }
    v.e = Expr::sym(fresh(0, P2(w) - 1));
    return v;
  }
  Val constVal(i128 c, unsigned w) {
    Val v;
    v.w = w;
    v.e = Expr::cst(c);
    return v;
  }

  Value* resolve(State& s, Value* V) {
    for (;;) {
      auto it = s.alias.find(V);
      if (it == s.alias.end()) return V;
      V = it->second;
    }
  }

  Val get(State& s, Value* V) {
    auto it = s.env.find(V);
    if (it != s.env.end()) return it->second;
    unsigned w = width(V->getType());
    if (auto* CI = dyn_cast<ConstantInt>(V)) {
      if (w > 120) { Val b; b.bad = true; b.w = w; return b; }
      APInt a = CI->getValue().sextOrTrunc(128);
      i128 v = ((i128)(int64_t)a.extractBitsAsZExtValue(64, 64) << 64) | (i128)(unsigned __int128)a.extractBitsAsZExtValue(64, 0);
      if (w == 1) v &= 1;
      return constVal(v, w);
    }
    if (isa<ConstantPointerNull>(V)) return constVal(0, 64);
    if (isa<UndefValue>(V)) return freshVal(w);
    if (auto* G = dyn_cast<GEPOperator>(V); G && isa<Constant>(V)) return gep(s, *G);
    if (auto* GV = dyn_cast<GlobalObject>(V)) {
      (void)GV;
      Val v;
      v.w = 64;
      v.e = Expr::sym(memoSym("g" + pkey(V), 4096, P2(47) - 1));  // user space
      return object(v);
    }
    if (auto* A = dyn_cast<Argument>(V)) {
      if (A->hasNonNullAttr(false) || A->getDereferenceableBytes() > 0) return symNonNull("a" + pkey(V));
      return opaqueVal("a" + pkey(V), w);
    }
    if (isa<Constant>(V)) {
      if (auto* CE = dyn_cast<ConstantExpr>(V)) {
        auto op = CE->getOpcode();
        if (op == Instruction::PtrToInt || op == Instruction::IntToPtr) {
          auto v = get(s, CE->getOperand(0));
          v.w = w;
          return v;
        }
      }
      return opaqueVal("c" + pkey(V), w);
    }
    if (V->getType()->isIntegerTy(1)) {
      if (isa<ICmpInst>(V) || isa<BinaryOperator>(V) || isa<SelectInst>(V) || s.alias.count(V))
        return constVal(evalBool(s, V) ? 1 : 0, 1);
    }
    return opaqueVal("v" + pkey(V), w);
  }
  Val symNonNull(std::string const& k) {
    Val v;
    v.w = 64;
    v.e = Expr::sym(memoSym(k, 1, P2(64) - 4096));
    return v;
  }

  Val gep(State& s, GEPOperator& G) {
    Val b = get(s, G.getPointerOperand());
    if (b.bad || b.w != 64) return opaqueVal("gep" + pkey(&G), 64);
    unsigned bw = DL.getIndexTypeSizeInBits(G.getType());
    MapVector<Value*, APInt> var;
    APInt c(bw, 0);
    if (!G.collectOffset(DL, bw, var, c)) return opaqueVal("gep" + pkey(&G), 64);
    Expr e = b.e + Expr::cst(c.getSExtValue());
    for (auto& [V, sc] : var) {
      Val x = get(s, V);
      if (x.bad) return opaqueVal("gep" + pkey(&G), 64);
      Expr xe = x.w == 64 ? x.e : interp(s, x, true);
      e = e + xe.scale(sc.getSExtValue());
    }
    Val r;
    r.w = 64;
    r.e = e;
    return r;
  }

  // ---- booleans ------------------------------------------------------------
  bool choose(State& s, Value* V, std::vector<Con> t, std::vector<Expr> tn, std::vector<Con> f, std::vector<Expr> fn) {
    bool et = isEmpty(s, t, tn), ef = isEmpty(s, f, fn);
    if (et && ef) throw Dead{};
    if (et || ef) {
      for (auto& c : et ? f : t) addCon(s, c);
      for (auto& e : et ? fn : tn)
        addNe(s, e);
      s.dec[V] = ef;
      return ef;
    }
    Fork k;
    k.alts.push_back({t, tn, V, true});
    k.alts.push_back({f, fn, V, false});
    throw k;
  }
  bool evalBool(State& s, Value* V) {
    V = resolve(s, V);
    if (auto* C = dyn_cast<ConstantInt>(V)) return !C->isZero();
    auto it = s.dec.find(V);
    if (it != s.dec.end()) return it->second;
    auto ev = s.env.find(V);
    if (ev == s.env.end()) {
      if (auto* IC = dyn_cast<ICmpInst>(V)) return icmp(s, *IC);
      if (auto* B = dyn_cast<BinaryOperator>(V)) {
        bool a = evalBool(s, B->getOperand(0));
        switch (B->getOpcode()) {
          case Instruction::And: return a && evalBool(s, B->getOperand(1));
          case Instruction::Or: return a || evalBool(s, B->getOperand(1));
          case Instruction::Xor: return a != evalBool(s, B->getOperand(1));
          default: break;
        }
      }
      if (auto* S = dyn_cast<SelectInst>(V))
        return evalBool(s, S->getCondition()) ? evalBool(s, S->getTrueValue()) : evalBool(s, S->getFalseValue());
      if (auto* Fz = dyn_cast<FreezeInst>(V)) return evalBool(s, Fz->getOperand(0));
      if (auto* X = dyn_cast<ExtractValueInst>(V))
        if (auto* W = dyn_cast<WithOverflowInst>(X->getAggregateOperand()); W && X->getIndices()[0] == 1)
          return overflow(s, V, *W);
    }
    Val v = ev != s.env.end() ? ev->second : get(s, V);
    if (v.bad) {
      v = opaqueVal("b" + pkey(V), 1);
    }
    if (v.e.isConst()) return (v.e.c & 1) != 0;
    Expr e = interp(s, v, false);
    auto one = e;
    one.c -= 1;
    return choose(s, V, {eqZ(one)}, {}, {eqZ(e)}, {});
  }
  bool overflow(State& s, Value* V, WithOverflowInst& W) {
    Val a = get(s, W.getLHS()), b = get(s, W.getRHS());
    bool sg = W.isSigned();
    unsigned w = a.w;
    Expr ea = interp(s, a, sg), eb = interp(s, b, sg), r;
    switch (W.getBinaryOp()) {
      case Instruction::Add: r = ea + eb; break;
      case Instruction::Sub: r = ea - eb; break;
      case Instruction::Mul:
        if (eb.isConst()) r = ea.scale(eb.c);
        else if (ea.isConst()) r = eb.scale(ea.c);
        else return evalOpaqueBool(s, V);
        break;
      default: return evalOpaqueBool(s, V);
    }
    i128 lo = sg ? -P2(w - 1) : 0, hi = sg ? P2(w - 1) - 1 : P2(w) - 1;
    // overflow <=> r < lo or r > hi
    ForkAlt lowA{{lt(r, Expr::cst(lo))}, {}, V, true}, hiA{{lt(Expr::cst(hi), r)}, {}, V, true},
        okA{{le(Expr::cst(lo), r), le(r, Expr::cst(hi))}, {}, V, false};
    std::vector<ForkAlt> alts;
    for (auto* a : {&lowA, &hiA, &okA})
      if (!isEmpty(s, a->cons)) alts.push_back(*a);
    if (alts.empty()) throw Dead{};
    if (alts.size() == 1) {
      for (auto& c : alts[0].cons) addCon(s, c);
      s.dec[V] = alts[0].decv;
      return alts[0].decv;
    }
    throw Fork{alts};
  }
  bool evalOpaqueBool(State& s, Value* V) {
    Val v = opaqueVal("b" + pkey(V), 1);
    auto one = v.e;
    one.c -= 1;
    return choose(s, V, {eqZ(one)}, {}, {eqZ(v.e)}, {});
  }
  bool icmp(State& s, ICmpInst& I) {
    Val a = get(s, I.getOperand(0)), b = get(s, I.getOperand(1));
    if (a.bad || b.bad) return evalOpaqueBool(s, &I);
    auto P = I.getPredicate();
    // ((x ^ y) & low mask) == 0  <=>  x and y agree in their low bits
    if (I.isEquality() && b.e.isConst() && b.e.c == 0)
      if (auto* A = dyn_cast<BinaryOperator>(I.getOperand(0)); A && A->getOpcode() == Instruction::And)
        if (auto* X = dyn_cast<BinaryOperator>(A->getOperand(0)); X && X->getOpcode() == Instruction::Xor)
          if (auto* C = dyn_cast<ConstantInt>(A->getOperand(1)); C && C->getValue().isMask()) {
            Val x = get(s, X->getOperand(0)), y = get(s, X->getOperand(1));
            if (!x.bad && !y.bad) {
              unsigned k = C->getValue().countr_one();
              a.w = b.w = k;
              a.e = modSimplify(x, k);
              b.e = modSimplify(y, k);
            }
          }
    if (I.isEquality()) {
      // quick: identical expressions
      Expr d0 = a.e - b.e;
      bool isEq = P == ICmpInst::ICMP_EQ;
      Expr d;
      bool done = false;
      if (d0.isConst()) {
        auto m = P2(std::min(a.w, 120u));
        bool z = (d0.c % m) == 0;
        return z == isEq;
      }
      try {
        auto r = interval(d0);
        auto M = P2(a.w);
        if (r.lo > -M && r.hi < M) { d = d0; done = true; }
      } catch (lin::Overflow const&) {}
      if (!done) d = interp(s, a, false) - interp(s, b, false);
      std::vector<Con> eq{eqZ(d)};
      std::vector<Expr> ne{d};
      // x == c <=> bswap(x) == bswap(c)
      for (int k = 0; k < 2; ++k) {
        Val const &u = k ? b : a, &cst = k ? a : b;
        if (!cst.e.isConst() || a.w % 16 || a.w > 64) continue;
        auto m = memo.find(bswapKey(u.w, interp(s, u, false)));
        if (m == memo.end()) continue;
        Expr r = Expr::sym(m->second) - Expr::cst(bswapConst(cst.e.c, a.w));
        eq.push_back(eqZ(r));
        ne.push_back(r);
      }
      if (isEq) return choose(s, &I, eq, {}, {}, ne);
      return choose(s, &I, {}, ne, eq, {});
    }
    bool sg = I.isSigned();
    Expr x = interp(s, a, sg), y = interp(s, b, sg);
    switch (P) {
      case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT:
        return choose(s, &I, {lt(y, x)}, {}, {le(x, y)}, {});
      case ICmpInst::ICMP_UGE: case ICmpInst::ICMP_SGE:
        return choose(s, &I, {le(y, x)}, {}, {lt(x, y)}, {});
      case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT:
        return choose(s, &I, {lt(x, y)}, {}, {le(y, x)}, {});
      default:
        return choose(s, &I, {le(x, y)}, {}, {lt(y, x)}, {});
    }
  }
  static std::string bswapKey(unsigned w, Expr const& e) { return "bswap" + std::to_string(w) + ":" + key(e); }
  static i128 bswapConst(i128 c, unsigned w) {
    i128 r = 0;
    c &= P2(w) - 1;
    for (unsigned i = 0; i < w / 8; ++i) { r = r * 256 + c % 256; c /= 256; }
    return r;
  }
  // three-way helper for min/max style
  bool lessEq(State& s, Expr const& x, Expr const& y) {
    std::vector<Con> t{le(x, y)}, f{lt(y, x)};
    bool et = isEmpty(s, t), ef = isEmpty(s, f);
    if (et && ef) throw Dead{};
    if (et) { for (auto& c : f) addCon(s, c); return false; }
    if (ef) { for (auto& c : t) addCon(s, c); return true; }
    throw Fork{{{t, {}, nullptr, false}, {f, {}, nullptr, false}}};
  }

  // ---- memory ----------------------------------------------------------------
  // symbols that are the address of an object: distinct objects do not overlap
  std::set<int> objSym;
  Val object(Val v) {
    if (!v.bad && v.e.t.size() == 1) objSym.insert(v.e.t[0].first);
    return v;
  }
  bool distinctBases(Expr const& a, Expr const& b) const {
    return a.t.size() == 1 && b.t.size() == 1 && a.t[0].second == 1 && b.t[0].second == 1 && a.t[0].first != b.t[0].first &&
           objSym.count(a.t[0].first) && objSym.count(b.t[0].first) && a.c >= 0 && b.c >= 0 && a.c < P2(16) && b.c < P2(16);
  }
  void clobber(State& s, Expr const* addr, uint64_t size, Value* ptr, bool known) {
    std::vector<Cell> keep;
    for (auto& c : s.mem) {
      bool kill = true;
      if (addr) {
        Expr d = c.addr - *addr;
        if (d.isConst() && known) {
          if (d.c >= (i128)size || d.c + (i128)c.size <= 0) kill = false;
          if (kill) {
            bool cv = !c.fill && !c.v.bad && c.v.e.isConst() && c.size <= 8 && c.v.w == c.size * 8;
            if (cv) {
              i128 v = c.v.e.c % P2(c.v.w);
              if (v < 0) v += P2(c.v.w);
              auto part = [&](uint64_t at, uint64_t n) {
                Cell x = c;
                x.addr = c.addr + Expr::cst(at);
                x.size = n;
                x.span = c.extent();
                x.v = constVal((v / P2(at * 8)) % P2(n * 8), n * 8);
                keep.push_back(x);
              };
              if (d.c < 0) part(0, (uint64_t)-d.c);
              if (d.c + (i128)c.size > (i128)size) part((uint64_t)((i128)size - d.c), (uint64_t)(d.c + (i128)c.size - (i128)size));
            }
            if (c.fill) {  // what is not overwritten keeps its bytes
              if (d.c < 0) {
                Cell x = c;
                x.span = c.extent();
                x.size = (uint64_t)-d.c;
                keep.push_back(x);
              }
              if (d.c + (i128)c.size > (i128)size) {
                Cell x = c;
                x.size = (uint64_t)(d.c + (i128)c.size - (i128)size);
                x.addr = *addr + Expr::cst(size);
                x.span = c.extent();
                keep.push_back(x);
              }
            }
            continue;
          }
        }
        if (kill && known && distinctBases(c.addr, *addr)) kill = false;
      }
      if (kill && ptr && c.ptr) {
        auto r = AA.alias(MemoryLocation(c.ptr, LocationSize::precise(c.extent())),
                          known ? MemoryLocation(ptr, LocationSize::precise(size))
                                : MemoryLocation::getBeforeOrAfter(ptr));
        if (r == AliasResult::NoAlias) kill = false;
      }
      if (kill && addr && known && !s.watch.empty()) {
        try { kill = !isEmpty(s, {lt(c.addr, *addr + Expr::cst((i128)size)), lt(*addr, c.addr + Expr::cst((i128)c.size))}); } catch (lin::Overflow const&) {}
      }
      if (!kill) keep.push_back(c);
    }
    s.mem.swap(keep);
  }
  // the watched byte the access is to, if any; decided by splitting
  std::optional<Expr> watched(State& s, Expr const& a) {
    for (auto& x : s.watch) {
      Expr d = a - x;
      if (d.isConst()) { if (d.c == 0) return x; continue; }
      if (distinctBases(a, x) || isEmpty(s, {eqZ(d)})) continue;
      bool lo = !isEmpty(s, {lt(d, Expr::cst(0))}), hi = !isEmpty(s, {lt(Expr::cst(0), d)});
      if (!lo && !hi) return x;
      Fork f;
      f.alts.push_back({{eqZ(d)}, {}});
      if (lo) f.alts.push_back({{lt(d, Expr::cst(0))}, {}});
      if (hi) f.alts.push_back({{lt(Expr::cst(0), d)}, {}});
      throw f;
    }
    return std::nullopt;
  }
  // what is known about a watched byte
  std::optional<Val> held(State& s, Expr const& x) {
    for (auto& c : s.mem) {
      Expr d = x - c.addr;
      if (!c.fill) { if (d.isConst() && d.c == 0 && c.size == 1 && !c.v.bad) return c.v; continue; }
      if (distinctBases(x, c.addr)) continue;
      if (isEmpty(s, {lt(d, Expr::cst(0))}) && isEmpty(s, {le(Expr::cst((i128)c.size), d)})) return constVal(c.byte, 8);
    }
    return std::nullopt;
  }
  Val load(State& s, Value* ptr, Type* T, Instruction* I) {
    unsigned w = width(T);
    Val a = get(s, ptr);
    if (a.bad) return I ? instVal(I, w) : freshVal(w);
    uint64_t sz = DL.getTypeStoreSize(T);
    if (sz == 1)
      if (auto x = watched(s, a.e)) { a.e = *x; if (auto v = held(s, *x); v && w == v->w) return *v; }
    for (auto& c : s.mem) {
      Expr d = a.e - c.addr;
      if (!d.isConst()) continue;
      if (c.fill) {
        if (d.c >= 0 && d.c + (i128)sz <= (i128)c.size && sz <= 8 && w) {
          i128 v = 0;
          for (unsigned i = 0; i < sz; ++i) v = v * 256 + c.byte;
          if (w < sz * 8) v &= P2(w) - 1;
          return constVal(v, w);
        }
        continue;
      }
      if (d.c == 0 && c.size == sz && c.v.w == w) return c.v;
      if (d.c == 0 && c.size > sz && w && !c.v.bad) {
        Val v = c.v;
        v.w = w;
        return v;
      }
      if (d.c > 0 && d.c + (i128)sz <= (i128)c.size && w && !c.v.bad && c.v.w == c.size * 8) {
        // upper part: (v >> 8*d)
        return shiftPart(s, c.v, (unsigned)d.c * 8, w);
      }
    }
    if (T->isIntegerTy() && w == sz * 8 && sz > 1 && sz <= 8) {  // put together from narrower cells
      Expr e = Expr::cst(0);
      uint64_t off = 0;
      while (off < sz) {
        bool found = false;
        for (auto& c : s.mem) {
          Expr d = a.e + Expr::cst(off) - c.addr;
          if (!d.isConst()) continue;
          if (c.fill && d.c >= 0 && d.c < (i128)c.size) { e = e + Expr::cst(c.byte).scale(P2(off * 8)); off += 1; found = true; break; }
          if (!c.fill && d.c == 0 && off + c.size <= sz && !c.v.bad && c.v.w == c.size * 8) {
            Val part = c.v;
            e = e + interp(s, part, false).scale(P2(off * 8));
            off += c.size;
            found = true;
            break;
          }
        }
        if (!found) break;
      }
      if (off == sz) { Val r; r.w = w; r.e = e; return r; }
    }
    Val v = I ? instVal(I, w) : freshVal(w);
    if (v.bad) return v;
    if (I && w == 64) {
      if (I->getMetadata(LLVMContext::MD_nonnull)) rng[v.e.t[0].first].lo = 1;
      // a value added to an address is a displacement: the representative in
      // [-2^63, 2^63) is congruent and keeps sums in one window
      if (T->isIntegerTy() && displacement(I)) {
        rng[v.e.t[0].first].lo = -P2(63);
        rng[v.e.t[0].first].hi = P2(63) - 1;
      }
    }
    if (I)
      if (auto* R = I->getMetadata(LLVMContext::MD_range); R && R->getNumOperands() == 2 && w <= 64) {
        auto lo = mdconst::extract<ConstantInt>(R->getOperand(0))->getValue();
        auto hi = mdconst::extract<ConstantInt>(R->getOperand(1))->getValue();
        if (lo.ult(hi)) {
          rng[v.e.t[0].first].lo = lo.getZExtValue();
          rng[v.e.t[0].first].hi = (i128)hi.getZExtValue() - 1;
        }
      }
    s.mem.push_back({a.e, sz, ptr, v});
    return v;
  }
  static bool displacement(Instruction* I) {
    for (auto* U : I->users()) {
      if (isa<GetElementPtrInst>(U) && U->getOperand(0) != I) return true;
      if (auto* B = dyn_cast<BinaryOperator>(U); B && B->getOpcode() == Instruction::Add)
        for (auto& o : B->operands())
          if (isa<PtrToIntInst>(o.get())) return true;
    }
    return false;
  }
  Val shiftPart(State& s, Val const& v, unsigned sh, unsigned w) {
    Expr u = interp(s, v, false);
    if (u.isConst()) return constVal((u.c >> sh) % P2(w), w);
    std::string k = "lshr" + std::to_string(sh) + ":" + key(u);
    int r = memoSym(k, 0, (P2(v.w) >> sh) - 1), q = memoSym("lo" + k, 0, P2(sh) - 1);
    addCon(s, eqZ(u - Expr::sym(r).scale(P2(sh)) - Expr::sym(q)));
    Val o;
    o.w = w;
    o.e = Expr::sym(r);
    return o;
  }
  void store(State& s, Value* ptr, Value* x) {
    Val a = get(s, ptr);
    Type* T = x->getType();
    uint64_t sz = DL.getTypeStoreSize(T);
    unsigned w = width(T);
    Val v;
    if (w == 1) v = constVal(evalBool(s, x) ? 1 : 0, 1);
    else if (w) v = get(s, x);
    else { v.bad = true; }
    if (a.bad) { clobber(s, nullptr, 0, nullptr, false); return; }
    std::vector<Cell> apart;
    if (sz == 1 && !s.watch.empty()) {
      auto hit = watched(s, a.e);
      if (hit) a.e = *hit;
      for (auto& x : s.watch)
        if (Expr d = a.e - x; !d.isConst())
          if (auto b = held(s, x)) apart.push_back({x, 1, nullptr, *b});
    }
    clobber(s, &a.e, sz, ptr, true);
    for (auto& c : apart) {
      bool there = false;
      for (auto& m : s.mem) there |= m.addr == c.addr && m.size == 1;
      if (!there) s.mem.push_back(c);
    }
    if (w == 1) v.w = 8;
    if (!v.bad) s.mem.push_back({a.e, sz, ptr, v});
  }

  // ---- instructions -----------------------------------------------------------
  void set(State& s, Instruction& I, Val v) { s.env[&I] = std::move(v); }

  void exec(State& s, Instruction& I) {
    unsigned w = width(I.getType());
    if (I.getType()->isIntegerTy(1) &&
        (isa<ICmpInst>(I) || isa<SelectInst>(I) || isa<FreezeInst>(I) ||
         (isa<BinaryOperator>(I) && (I.getOpcode() == Instruction::And || I.getOpcode() == Instruction::Or || I.getOpcode() == Instruction::Xor))))
      return;  // lazily evaluated
    if (auto* B = dyn_cast<BinaryOperator>(&I)) return binop(s, *B);
    switch (I.getOpcode()) {
      case Instruction::ZExt: {
        auto* op = I.getOperand(0);
        if (op->getType()->isIntegerTy(1)) return set(s, I, constVal(evalBool(s, op) ? 1 : 0, w));
        Val v = get(s, op);
        if (v.bad || w > 120) return set(s, I, opaqueVal("v" + pkey(&I), w));
        v.e = interp(s, v, false);
        v.w = w;
        return set(s, I, v);
      }
      case Instruction::SExt: {
        auto* op = I.getOperand(0);
        if (op->getType()->isIntegerTy(1)) return set(s, I, constVal(evalBool(s, op) ? -1 : 0, w));
        Val v = get(s, op);
        if (v.bad || w > 120) {
          if (!v.bad && w == 128) { v.e = interp(s, v, true); v.w = 120; return set(s, I, v); }
          return set(s, I, opaqueVal("v" + pkey(&I), w));
        }
        v.e = interp(s, v, true);
        v.w = w;
        return set(s, I, v);
      }
      case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: {
        Val v = get(s, I.getOperand(0));
        if (v.bad) return set(s, I, opaqueVal("v" + pkey(&I), w));
        if (w > v.w) v.e = interp(s, v, false);
        v.w = w;
        return set(s, I, v);
      }
      case Instruction::BitCast: case Instruction::Freeze: {
        Val v = get(s, I.getOperand(0));
        if (width(I.getOperand(0)->getType()) != w) return set(s, I, instVal(&I, w));
        return set(s, I, v);
      }
      case Instruction::GetElementPtr: return set(s, I, gep(s, cast<GEPOperator>(I)));
      case Instruction::Select: {
        bool c = evalBool(s, I.getOperand(0));
        return set(s, I, get(s, I.getOperand(c ? 1 : 2)));
      }
      case Instruction::Load: {
        auto& L = cast<LoadInst>(I);
        if (L.isVolatile()) return set(s, I, instVal(&I, w));
        return set(s, I, load(s, L.getPointerOperand(), L.getType(), &I));
      }
      case Instruction::Store: {
        auto& S = cast<StoreInst>(I);
        return store(s, S.getPointerOperand(), S.getValueOperand());
      }
      case Instruction::Alloca: {
        auto& A = cast<AllocaInst>(I);
        Val v;
        v.w = 64;
        int id = memoSym("al" + pkey(&I), 1, P2(47));
        int q = memoSym("alq" + pkey(&I), 0, P2(47));
        v.e = Expr::sym(id);
        addCon(s, eqZ(Expr::sym(id) - Expr::sym(q).scale((i128)A.getAlign().value())));
        return set(s, I, object(v));
      }
      case Instruction::Call: return call(s, cast<CallInst>(I));
      case Instruction::ExtractValue: {
        auto& X = cast<ExtractValueInst>(I);
        if (auto* W = dyn_cast<WithOverflowInst>(X.getAggregateOperand())) {
          if (X.getIndices()[0] == 1) return;  // lazily
          Val a = get(s, W->getLHS()), b = get(s, W->getRHS());
          if (a.bad || b.bad) return set(s, I, instVal(&I, w));
          Val r;
          r.w = w;
          switch (W->getBinaryOp()) {
            case Instruction::Add: r.e = a.e + b.e; break;
            case Instruction::Sub: r.e = a.e - b.e; break;
            case Instruction::Mul:
              if (b.e.isConst()) r.e = (W->isSigned() ? interp(s, a, true) : interp(s, a, false)).scale(b.e.c);
              else if (a.e.isConst()) r.e = (W->isSigned() ? interp(s, b, true) : interp(s, b, false)).scale(a.e.c);
              else r = opaqueVal("v" + pkey(&I), w);
              break;
            default: r = opaqueVal("v" + pkey(&I), w);
          }
          return set(s, I, r);
        }
        return set(s, I, instVal(&I, w));
      }
      case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: case Instruction::Fence:
        clobber(s, nullptr, 0, I.getOpcode() == Instruction::Fence ? nullptr : I.getOperand(0), false);
        if (w) set(s, I, instVal(&I, w));
        return;
      default:
        if (!I.getType()->isVoidTy()) {
          set(s, I, instVal(&I, w));
        }
        if (I.mayWriteToMemory()) s.mem.clear();
    }
  }

  Val memoOp(std::string const& k, unsigned w, i128 lo, i128 hi) {
    Val v;
    v.w = w;
    v.e = Expr::sym(memoSym(k, lo, hi));
    return v;
  }

  void binop(State& s, BinaryOperator& I) {
    unsigned w = width(I.getType());
    if (w == 0 || w > 120) {
      if (w == 128) {  // spec arithmetic in i128: treated as exact when operands are small
        Val a = get(s, I.getOperand(0)), b = get(s, I.getOperand(1));
        (void)a; (void)b;
      }
      return set(s, I, instVal(&I, w));
    }
    Val a = get(s, I.getOperand(0)), b = get(s, I.getOperand(1));
    if (a.bad || b.bad) return set(s, I, opaqueVal("v" + pkey(&I), w));
    Val r;
    r.w = w;
    auto opq = [&](char const* n) {
      // functional: equal operands give equal results
      Expr x = interp(s, a, false), y = interp(s, b, false);
      bool comm = I.isCommutative();
      if (comm && y < x) std::swap(x, y);
      return memoOp(std::string(n) + std::to_string(w) + ":" + key(x) + "#" + key(y), w, 0, P2(w) - 1);
    };
    switch (I.getOpcode()) {
      case Instruction::Add: r.e = a.e + b.e; break;
      case Instruction::Sub: r.e = a.e - b.e; break;
      case Instruction::Mul:
        if (b.e.isConst()) r.e = smallScale(s, a, b.e.c);
        else if (a.e.isConst()) r.e = smallScale(s, b, a.e.c);
        else r = opq("mul");
        break;
      case Instruction::Shl:
        if (b.e.isConst() && b.e.c >= 0 && b.e.c < (i128)w) r.e = smallScale(s, a, P2((unsigned)b.e.c));
        else r = opq("shl");
        break;
      case Instruction::LShr: case Instruction::UDiv: {
        if (!b.e.isConst() || b.e.c <= 0) { r = b.e.isConst() && b.e.c == 0 && I.getOpcode() == Instruction::LShr ? a : opq(I.getOpcode() == Instruction::LShr ? "lshr" : "udiv"); break; }
        i128 d = I.getOpcode() == Instruction::LShr ? (b.e.c >= (i128)w ? (i128)0 : P2((unsigned)b.e.c)) : b.e.c;
        if (d == 0) { r = instVal(&I, w); break; }
        divide(s, interp(s, a, false), d, r, nullptr);
        break;
      }
      case Instruction::URem: {
        if (!b.e.isConst() || b.e.c <= 0) { r = opq("urem"); break; }
        Val q;
        q.w = w;
        Expr rem;
        divide(s, interp(s, a, false), b.e.c, q, &rem);
        r.e = rem;
        break;
      }
      case Instruction::SDiv: case Instruction::AShr: {
        bool minus = false;  // x / -c == -(x / c)
        if (I.getOpcode() == Instruction::SDiv && b.e.isConst()) {
          i128 c = b.e.c & (P2(w) - 1);
          if (c > P2(w - 1)) { minus = true; b.e = Expr::cst(P2(w) - c); }
        }
        if (!b.e.isConst() || b.e.c <= 0) { r = opq(I.getOpcode() == Instruction::SDiv ? "sdiv" : "ashr"); break; }
        i128 d = I.getOpcode() == Instruction::AShr ? (b.e.c >= (i128)w ? (i128)0 : P2((unsigned)b.e.c)) : b.e.c;
        if (d == 0) { r = instVal(&I, w); break; }
        Expr x = interp(s, a, true);
        if (I.getOpcode() == Instruction::SDiv && !I.isExact() && !lessEq(s, Expr::cst(0), x)) { r = opq("sdiv"); break; }
        divide(s, x, d, r, nullptr, I.isExact());
        if (minus) r.e = r.e.scale(-1);
        break;
      }
      case Instruction::And: {
        auto* cv = b.e.isConst() ? &b : a.e.isConst() ? &a : nullptr;
        auto& xv = cv == &b ? a : b;
        if (cv) {
          i128 m = cv->e.c & (P2(w) - 1);
          if (((m + 1) & m) == 0) {  // low mask
            unsigned k = 0;
            while (P2(k) <= m) ++k;
            if (k == w) { r = xv; break; }
            try {  // already in range?
              if (interval(xv.e).lo >= 0 && isEmpty(s, {lt(Expr::cst(m), xv.e)})) { r.e = xv.e; break; }
            } catch (lin::Overflow const&) {}
            Val q;
            q.w = w;
            Expr rem;
            divide(s, modSimplify(xv, k), P2(k), q, &rem);
            r.e = rem;
            break;
          }
          i128 inv = (P2(w) - 1) & ~m;
          if (((inv + 1) & inv) == 0) {  // high mask: x - (x & inv)
            unsigned k = 0;
            while (P2(k) <= inv) ++k;
            Val q;
            q.w = w;
            Expr rem;
            Expr u = interp(s, xv, false);
            divide(s, u, P2(k), q, &rem);
            r.e = u - rem;
            break;
          }
          i128 low = m & -m;
          if (m != 0 && ((m + low) & (m + low - 1)) == 0) {  // run of bits: (x mod 2^hi) - (x mod 2^lo)
            unsigned hi = 0;
            while (P2(hi) < m + low) ++hi;
            Val q;
            q.w = w;
            Expr top, rem;
            Expr u = interp(s, xv, false);
            if (lessEq(s, u, Expr::cst(P2(hi) - 1))) top = u;
            else divide(s, modSimplify(xv, hi), P2(hi), q, &top);
            divide(s, top, low, q, &rem);
            r.e = top - rem;
            break;
          }
          Expr u = interp(s, xv, false);
          r = memoOp("and" + std::to_string(w) + ":" + key(u) + "#" + str(m), w, 0, m);
          addCon(s, geZ(u - r.e));
          break;
        }
        r = opq("and");
        addCon(s, le(r.e, interp(s, a, false)));
        addCon(s, le(r.e, interp(s, b, false)));
        break;
      }
      case Instruction::Or:
        if (auto* D = dyn_cast<PossiblyDisjointInst>(&I); D && D->isDisjoint()) r.e = a.e + b.e;
        else {
          r = opq("or");
          Expr x = interp(s, a, false), y = interp(s, b, false);
          addCon(s, le(x, r.e));
          addCon(s, le(y, r.e));
          addCon(s, le(r.e, x + y));
        }
        break;
      case Instruction::Xor: {
        auto* cv = b.e.isConst() ? &b : a.e.isConst() ? &a : nullptr;
        auto& xv = cv == &b ? a : b;
        if (cv) {
          i128 m = cv->e.c & (P2(w) - 1);
          if (m == P2(w) - 1) { r.e = Expr::cst(-1) - xv.e; break; }
          if (m == P2(w - 1)) { r.e = xv.e + Expr::cst(P2(w - 1)); break; }
          if (((m + 1) & m) == 0) {
            Expr u = interp(s, xv, false);
            if (lessEq(s, u, Expr::cst(m))) { r.e = Expr::cst(m) - u; break; }
          }
        }
        r = opq("xor");
        break;
      }
      default: r = instVal(&I, w);
    }
    // no-wrap flags
    if (auto* O = dyn_cast<OverflowingBinaryOperator>(&I)) {
      try {
        if (O->hasNoUnsignedWrap() && !r.e.isConst() && I.getOpcode() != Instruction::Sub) {
          auto ra = interval(a.e), rb = interval(b.e);
          if (ra.lo >= 0 && rb.lo >= 0 && ra.hi < P2(w) && rb.hi < P2(w) && interval(r.e).hi >= P2(w))
            addCon(s, le(r.e, Expr::cst(P2(w) - 1)));
        }
      } catch (lin::Overflow const&) {}
    }
    set(s, I, r);
  }
  // reduce e modulo 2^k when e is only needed modulo 2^k and all terms may be
  // rewritten; keeps the exact expression otherwise (value == e mod 2^w, k<=w)
  Expr modSimplify(Val const& v, unsigned k) {
    Expr r;
    i128 M = P2(k);
    r.c = ((v.e.c % M) + M) % M;
    for (auto& p : v.e.t) {
      auto c = ((p.second % M) + M) % M;
      if (c != 0) r.t.push_back({p.first, c});
    }
    return r;
  }
  Expr smallScale(State& s, Val const& v, i128 k) {
    // canonical signed constant
    i128 M = P2(v.w);
    k %= M;
    if (k < 0) k += M;
    if (k > M / 2) k -= M;
    if (k > P2(62) || k < -P2(62)) {
      return Expr::sym(memoSym("mulk" + std::to_string(v.w) + ":" + key(v.e) + "#" + str(k), 0, M - 1));
    }
    return v.e.scale(k);
  }
  void divide(State& s, Expr const& x, i128 d, Val& q, Expr* rem, bool exact = false) {
    if (x.isConst()) {
      auto f = lin::fdiv(x.c, d);
      q.e = Expr::cst(f);
      if (rem) *rem = Expr::cst(x.c - f * d);
      return;
    }
    bool multiple = true;
    for (auto& [v, k] : x.t) multiple &= k % d == 0;
    if (multiple) {
      auto f = lin::fdiv(x.c, d);
      q.e = Expr::cst(f);
      for (auto& [v, k] : x.t) q.e.t.push_back({v, k / d});
      if (rem) *rem = Expr::cst(x.c - f * d);
      return;
    }
    auto iv = interval(x);
    std::string k = "div" + str(d) + ":" + key(x);
    int qs = memoSym(k, lin::fdiv(iv.lo, d), lin::fdiv(iv.hi, d));
    int rs = memoSym("rem" + k, 0, d - 1);
    if (s.modelOk && !s.model.count(qs) && !s.model.count(rs)) {
      i128 v;
      if (evalM(s, x, v)) { s.model[qs] = lin::fdiv(v, d); s.model[rs] = v - lin::fdiv(v, d) * d; }
    }
    addCon(s, eqZ(x - Expr::sym(qs).scale(d) - Expr::sym(rs)));
    if (exact) addCon(s, eqZ(Expr::sym(rs)));
    q.e = Expr::sym(qs);
    if (rem) *rem = Expr::sym(rs);
    if (!split) return;
    i128 v;
    if (!s.modelOk || !evalM(s, x, v)) { State m; if (isEmpty(s, {}, {}, &m)) throw Dead{}; if (!m.modelOk || !evalM(m, x, v)) return; }
    i128 f = lin::fdiv(v, d);
    bool lo = !isEmpty(s, {lt(x, Expr::cst(f * d))}), hi = !isEmpty(s, {le(Expr::cst((f + 1) * d), x)});
    if (!lo && !hi) { q.e = Expr::cst(f); if (rem) *rem = x - Expr::cst(f * d); return; }
    auto cut = [&](i128 at) { Fork k; k.alts.push_back({{lt(x, Expr::cst(at))}, {}}); k.alts.push_back({{le(Expr::cst(at), x)}, {}}); throw k; };
    if (lo && !hi && isEmpty(s, {lt(x, Expr::cst((f - 1) * d))})) cut(f * d);
    if (hi && !lo && isEmpty(s, {le(Expr::cst((f + 2) * d), x)})) cut((f + 1) * d);
  }
  bool split = false;  // quotients with two possible values are told apart (an_split)

  // copies what is known about the bytes
  void copyBytes(State& s, CallInst& C) {
          Val a = get(s, C.getArgOperand(0)), b = get(s, C.getArgOperand(1)), n = get(s, C.getArgOperand(2));
          if (a.bad) { s.mem.clear(); return; }
          bool k = n.e.isConst();
          std::vector<Cell> add;
          if (k && !b.bad)
            for (auto& c : s.mem) {
              Expr d = c.addr - b.e;
              if (!d.isConst()) continue;
              if (c.fill && d.c < n.e.c && d.c + (i128)c.size > 0) {
                i128 lo = d.c < 0 ? 0 : d.c, hi = d.c + (i128)c.size < n.e.c ? d.c + (i128)c.size : n.e.c;
                Cell x = c;
                x.addr = a.e + Expr::cst(lo);
                x.size = (uint64_t)(hi - lo);
                x.ptr = C.getArgOperand(0);
                x.span = (uint64_t)n.e.c;
                add.push_back(x);
                continue;
              }
              if (d.c >= 0 && d.c + (i128)c.size <= n.e.c) {
                Cell x = c;
                x.addr = a.e + Expr::cst(d.c);
                x.ptr = C.getArgOperand(0);
                x.span = (uint64_t)n.e.c;
                add.push_back(x);
              }
            }
          clobber(s, &a.e, k ? (uint64_t)n.e.c : 0, C.getArgOperand(0), k);
          for (auto& x : add) s.mem.push_back(x);
          return;
  }

  void call(State& s, CallInst& C) {
    unsigned w = width(C.getType());
    if (isa<DbgInfoIntrinsic>(C)) return;
    if (auto* F = C.getCalledFunction(); F && F->getName() == "an_copy") return copyBytes(s, C);
    if (auto* F = C.getCalledFunction(); F && F->getName() == "an_phase") { ++s.phase; return; }
    if (auto* F = C.getCalledFunction(); F && F->getName() == "an_watch") {
      Val v = get(s, C.getArgOperand(0));
      if (!v.bad) s.watch.push_back(v.e);
      return;
    }
    if (auto* F = C.getCalledFunction(); F && F->getName() == "an_split") { split = true; return; }
    if (auto* II = dyn_cast<IntrinsicInst>(&C)) {
      switch (II->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
        case Intrinsic::experimental_noalias_scope_decl: return;
        case Intrinsic::assume:
          if (!evalBool(s, II->getArgOperand(0))) throw Dead{};
          return;
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
          if (!w) break;
          auto id = II->getIntrinsicID();
          bool sg = id == Intrinsic::smin || id == Intrinsic::smax;
          bool mn = id == Intrinsic::umin || id == Intrinsic::smin;
          Val a = get(s, C.getArgOperand(0)), b = get(s, C.getArgOperand(1));
          if (a.bad || b.bad) break;
          Expr x = interp(s, a, sg), y = interp(s, b, sg);
          bool l = lessEq(s, x, y);
          Val r;
          r.w = w;
          r.e = (l == mn) ? x : y;
          return set(s, C, r);
        }
        case Intrinsic::usub_sat: {
          if (!w) break;
          Val a = get(s, C.getArgOperand(0)), b = get(s, C.getArgOperand(1));
          if (a.bad || b.bad) break;
          Expr x = interp(s, a, false), y = interp(s, b, false);
          Val r;
          r.w = w;
          r.e = lessEq(s, x, y) ? Expr::cst(0) : x - y;
          return set(s, C, r);
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow:
        case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
        case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: return;
        case Intrinsic::expect: return set(s, C, get(s, C.getArgOperand(0)));
        case Intrinsic::memset: {
          Val a = get(s, C.getArgOperand(0)), v = get(s, C.getArgOperand(1)), n = get(s, C.getArgOperand(2));
          if (a.bad) { s.mem.clear(); return; }
          bool k = n.e.isConst();
          clobber(s, &a.e, k ? (uint64_t)n.e.c : 0, C.getArgOperand(0), k);
          if (k && v.e.isConst()) s.mem.push_back({a.e, (uint64_t)n.e.c, C.getArgOperand(0), {}, true, (uint8_t)v.e.c});
          return;
        }
        case Intrinsic::memcpy: case Intrinsic::memmove: return copyBytes(s, C);
        case Intrinsic::bswap: {
          Val a = get(s, C.getArgOperand(0));
          if (!w || w > 64 || a.bad) break;
          Expr x = interp(s, a, false);
          i128 v;
          bool known = x.isConst();
          if (known) v = x.c;
          else if (s.modelOk && evalM(s, x, v)) {
            known = isEmpty(s, {}, {x - Expr::cst(v)});
          }
          if (known) return set(s, C, constVal(bswapConst(v, w), w));
          // an involution
          for (auto& [k, m] : memo)
            if (x.t.size() == 1 && x.c == 0 && x.t[0].second == 1 && x.t[0].first == m && k.rfind("bswap" + std::to_string(w) + ":", 0) == 0) {
              auto o = bswapOf.find(m);
              if (o != bswapOf.end()) { Val r; r.w = w; r.e = o->second; return set(s, C, r); }
            }
          Val r = memoOp(bswapKey(w, x), w, 0, P2(w) - 1);
          bswapOf[r.e.t[0].first] = x;
          return set(s, C, r);
        }
        case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
          Val a = get(s, C.getArgOperand(0));
          if (!w || a.bad) break;
          Expr x = interp(s, a, false);
          return set(s, C, memoOp(std::to_string(II->getIntrinsicID()) + "i:" + key(x), w, 0, w));
        }
        default: break;
      }
      if (w && !II->mayReadOrWriteMemory()) {
        std::string k = "int" + std::to_string(II->getIntrinsicID());
        bool ok = true;
        for (auto& A : II->args()) {
          Val a = get(s, A);
          if (a.bad) { ok = false; break; }
          k += ":" + key(interp(s, a, false));
        }
        return set(s, C, ok ? memoOp(k, w, 0, P2(w) - 1) : instVal(&C, w));
      }
    }
    auto* Cal = C.getCalledFunction();
    if (C.mayWriteToMemory() && !(Cal && Cal->onlyAccessesInaccessibleMemory())) {
      // allocation-like functions do not write visible memory
      bool alloc = Cal && (Cal->getName() == "malloc" || Cal->getName() == "aligned_alloc" || Cal->getName() == "_Znwm" || Cal->getName() == "calloc");
      bool fr = Cal && (Cal->getName() == "free" || isOutputFn(Cal->getName()));
      if (!alloc && !fr) {
        std::vector<Cell> keep;
        for (auto& c : s.mem)
          if (c.ptr && ((Cal && Cal->isDeclaration() && privateGlobal(getUnderlyingObject(c.ptr))) ||
                        !isModSet(AA.getModRefInfo(&C, MemoryLocation(c.ptr, LocationSize::precise(c.extent())))))) keep.push_back(c);
        s.mem.swap(keep);
      }
    }
    if (!C.getType()->isVoidTy()) {
      Val v = instVal(&C, w);
      if (!v.bad && w == 64 && C.getType()->isPointerTy() && C.hasRetAttr(Attribute::NonNull)) rng[v.e.t[0].first].lo = 1;
      if (C.hasRetAttr(Attribute::NoAlias)) object(v);
      s.env[&C] = v;
      s.dec.erase(&C);
    }
  }

  // a global no address of which escapes: external code (which does not call
  // back into the harness) leaves it alone
  std::map<Value const*, bool> pglob;
  bool privateGlobal(Value const* V) {
    auto* G = dyn_cast<GlobalVariable>(V);
    if (!G || !G->hasLocalLinkage()) return false;
    auto it = pglob.find(V);
    if (it != pglob.end()) return it->second;
    bool ok = true;
    std::vector<Value const*> wl{G};
    std::set<Value const*> seen;
    while (!wl.empty() && ok) {
      auto* v = wl.back();
      wl.pop_back();
      if (!seen.insert(v).second) continue;
      for (auto* U : v->users()) {
        if (isa<LoadInst>(U) || isa<ICmpInst>(U)) continue;
        if (auto* S = dyn_cast<StoreInst>(U)) { if (S->getValueOperand() == v) ok = false; continue; }
        if (isa<GEPOperator>(U) || isa<BitCastOperator>(U)) { wl.push_back(U); continue; }
        if (isa<PHINode>(U) || isa<SelectInst>(U)) { wl.push_back(U); continue; }
        if (isa<MemIntrinsic>(U) || isa<DbgInfoIntrinsic>(U)) continue;
        ok = false;
      }
    }
    return pglob[V] = ok;
  }

  // ---- control flow --------------------------------------------------------------
  static std::string loc(Instruction& I) {
    auto L = I.getDebugLoc();
    std::string S;
    for (auto* D = L.get(); D; D = D->getInlinedAt()) {
      StringRef f = D->getFilename();
      if (!S.empty()) S += " <- ";
      S += (f + ":" + Twine(D->getLine())).str();
    }
    return S;
  }
  void note(State& s, Instruction& I, std::string t) {
    auto e = std::make_shared<TraceEl>();
    e->prev = s.trace;
    e->text = t + " at " + loc(I);
    s.trace = e;
  }

  // transfers edge prev->bb: evaluates phis
  bool enter(State& s, BasicBlock* from, BasicBlock* to) {
    std::vector<std::pair<PHINode*, Val>> nv;
    std::vector<std::pair<PHINode*, Value*>> na;
    for (auto& P : to->phis()) {
      Value* in = P.getIncomingValueForBlock(from);
      unsigned w = width(P.getType());
      if (w == 1) {
        Value* r = resolve(s, in);
        auto it = s.env.find(r);
        auto d = s.dec.find(r);
        if (isa<ConstantInt>(r)) na.push_back({&P, r});
        else if (d != s.dec.end()) na.push_back({&P, ConstantInt::getBool(P.getContext(), d->second)});
        else if (it != s.env.end()) nv.push_back({&P, it->second});
        else na.push_back({&P, r});
      } else nv.push_back({&P, w ? get(s, in) : Val{{}, 0, true}});
    }
    for (auto& [p, v] : nv) { s.env[p] = v; s.alias.erase(p); s.dec.erase(p); }
    for (auto& [p, a] : na) { s.alias[p] = a; s.env.erase(p); s.dec.erase(p); }
    s.prev = from;
    s.bb = to;
    s.it = to->getFirstNonPHI()->getIterator();
    return true;
  }

  // runs all blocks of region (loop L, or whole function if null) once in RPO.
  // `in` holds the states at block entries.  States leaving through the header
  // of L go to latch; states leaving the region go to the returned map.
  std::map<BasicBlock*, std::vector<State>> region(std::map<BasicBlock*, std::vector<State>>& in, Loop* L, std::vector<State>& latch) {
    std::map<BasicBlock*, std::vector<State>> out;
    std::vector<BasicBlock*> rpo;
    rpoBlocks(L, rpo);
    for (auto* B : rpo) {
      auto it = in.find(B);
      if (it == in.end()) continue;
      std::vector<State> sts = std::move(it->second);
      if (getenv("AI_DEBUG2") && !L) errs() << "BB " << B->getName().take_back(30) << " states " << sts.size() << " @" << loc(*B->getFirstNonPHI()) << "\n";
      in.erase(it);
      bool hdr = LI.isLoopHeader(B) && !(L && L->getHeader() == B);
      if (sts.size() > (L ? std::min(maxStatesPerBlock, 24U) : hdr ? std::min(maxStatesPerBlock, hdrStates) : maxStatesPerBlock)) {
        if (hdr && !L && !quiet) merged = true;
        // merge the partitions with the longest common history first
        size_t G = L ? 8 : hdr ? hdrGroups : 100, depth = 0;
        for (auto& x : sts) depth = std::max(depth, x.anchor.size());
        std::map<std::vector<unsigned>, std::vector<State*>> groups;
        for (;; --depth) {
          groups.clear();
          for (auto& x : sts) groups[std::vector<unsigned>(x.anchor.begin(), x.anchor.begin() + std::min(depth, x.anchor.size()))].push_back(&x);
          if (depth == 0 || groups.size() <= G) break;
        }
        std::vector<State> ns;
        for (auto& [a, g] : groups) {
          std::vector<State> v;
          for (auto* x : g) v.push_back(std::move(*x));
          auto j = v.size() == 1 ? std::move(v) : join(std::move(v), B);
          for (auto& x : j) { x.anchor = a; ns.push_back(std::move(x)); }
        }
        sts = std::move(ns);
      }
      if (sts.size() <= (L ? 4 : 32))
        for (auto& x : sts) x.anchor.push_back(++anchors);
      if (auto* e = getenv("AI_BB"); e && !quiet && B->getName().ends_with(e)) {
        errs() << "STATES " << sts.size() << "\n";
        for (auto& x : sts) { errs() << "STATE\n"; for (auto& c : x.cons) errs() << "  con " << (c.eq ? "= " : ">= ") << key(c.e) << "\n"; for (auto& c : x.ne) errs() << "  ne " << key(c) << "\n"; }
      }
      Loop* IL = LI.getLoopFor(B);
      if (IL && IL->getHeader() == B && IL != L) {
        // inner loop: summarise, push its exit states
        for (auto& s : sts) {
          auto ex = loop(s, IL);
          for (auto& [b, v] : ex)
            for (auto& x : v) place(x, b, in, out, L, latch);
        }
        continue;
      }
      for (auto& s : sts) {
        std::vector<State> work;
        work.push_back(std::move(s));
        while (!work.empty()) {
          State c = std::move(work.back());
          work.pop_back();
          stepBlock(std::move(c), work, [&](State&& n, BasicBlock* from, BasicBlock* to) {
            try {
              enterPlace(std::move(n), from, to, in, out, L, latch);
            } catch (Fork const&) {
            }
          });
        }
      }
    }
    return out;
  }
  void enterPlace(State&& n, BasicBlock* from, BasicBlock* to, std::map<BasicBlock*, std::vector<State>>& in,
                  std::map<BasicBlock*, std::vector<State>>& out, Loop* L, std::vector<State>& latch) {
    if (L && to == L->getHeader()) {
      n.prev = from;
      latch.push_back(std::move(n));
      return;
    }
    enter(n, from, to);
    place(n, to, in, out, L, latch);
  }
  void place(State& n, BasicBlock* to, std::map<BasicBlock*, std::vector<State>>& in,
             std::map<BasicBlock*, std::vector<State>>& out, Loop* L, std::vector<State>& latch) {
    if (L && !L->contains(to)) out[to].push_back(n);
    else in[to].push_back(n);
  }
  void rpoBlocks(Loop* L, std::vector<BasicBlock*>& r) {
    std::set<BasicBlock*> seen;
    std::vector<BasicBlock*> post;
    std::function<void(BasicBlock*)> dfs = [&](BasicBlock* B) {
      if (!seen.insert(B).second) return;
      for (auto* S : successors(B)) {
        if (L && !L->contains(S)) continue;
        dfs(S);
      }
      post.push_back(B);
    };
    dfs(L ? L->getHeader() : &F.getEntryBlock());
    r.assign(post.rbegin(), post.rend());
  }

  std::vector<State> join(std::vector<State> v, BasicBlock* JB) {
    if (getenv("AI_DEBUG")) errs() << "join " << v.size() << " at " << JB->getName().take_back(40) << " quiet " << quiet << "\n";
    {
      std::map<int, std::vector<State>> by;
      for (auto& x : v) by[x.phase].push_back(x);
      if (by.size() > 1) {
        std::vector<State> all;
        for (auto& [p, g] : by)
          for (auto& x : g.size() == 1 ? g : join(std::move(g), JB)) all.push_back(x);
        return all;
      }
    }
    State r = v[0];
    r.modelOk = false;
    auto same = [](Val const& a, Val const& b) { return a.w == b.w && a.bad == b.bad && a.e == b.e; };
    for (size_t i = 1; i < v.size(); ++i) {
      auto& o = v[i];
      std::vector<Con> kc;
      auto has = [&](std::vector<Con> const& v, Con const& c) {
        for (auto& d : v)
          if (c.eq == d.eq && c.e == d.e) return true;
        return false;
      };
      auto entailed = [&](State const& st, Con const& c) {
        try {
          if (c.eq) {
            Con a{c.e, false}, b{c.e.scale(-1), false};
            return isEmpty(st, negate(a)) && isEmpty(st, negate(b));
          }
          return isEmpty(st, negate(c));
        } catch (lin::Overflow const&) { return false; }
      };
      for (auto& c : r.cons)
        if (has(o.cons, c) || entailed(o, c)) kc.push_back(c);
      for (auto& c : o.cons)
        if (!has(kc, c) && !has(r.cons, c) && entailed(r, c)) kc.push_back(c);
      r.cons = kc;
      std::vector<Expr> kn;
      for (auto& c : r.ne)
        for (auto& d : o.ne)
          if (c == d) { kn.push_back(c); break; }
      r.ne = kn;
      for (auto it = r.env.begin(); it != r.env.end();) {
        auto j = o.env.find(it->first);
        if (j == o.env.end()) it = r.env.erase(it);
        else {
          if (!same(it->second, j->second)) it->second = freshVal(it->second.w);
          ++it;
        }
      }
      for (auto it = r.dec.begin(); it != r.dec.end();) {
        auto j = o.dec.find(it->first);
        if (j == o.dec.end() || j->second != it->second) it = r.dec.erase(it);
        else ++it;
      }
      for (auto it = r.alias.begin(); it != r.alias.end();) {
        auto j = o.alias.find(it->first);
        if (j == o.alias.end() || j->second != it->second) {
          r.env[it->first] = freshVal(1);
          it = r.alias.erase(it);
        } else ++it;
      }
      std::vector<Cell> km;
      for (auto& c : r.mem)
        for (auto& d : o.mem)
          if (c.addr == d.addr && c.size == d.size && c.fill == d.fill && c.byte == d.byte && same(c.v, d.v)) { km.push_back(c); break; }
      r.mem = km;
    }
    if (getenv("AI_DEBUG")) errs() << "  joined: cons " << v[0].cons.size() << " -> " << r.cons.size() << " ne " << v[0].ne.size() << " -> " << r.ne.size() << " mem " << v[0].mem.size() << " -> " << r.mem.size() << "\n";
    return {r};
  }

  // ---- loops --------------------------------------------------------------------
  struct Cand { Con c0, c1; };  // at n, at n+1

  typedef std::map<BasicBlock*, std::vector<State>> StateMap;

  // Executes a loop iteration by iteration; applicable if no further iteration
  // is possible after a few.
  static constexpr int maxUnroll = 4;
  bool unroll(State const& s0, Loop* L, StateMap& out) {
    out.clear();
    auto* H = L->getHeader();
    std::vector<State> cur{s0};
    auto const depth = salts.size();
    bool done = false;
    for (int it = 0; it < maxUnroll && !done; ++it) {
      salts.resize(depth);
      salts.push_back({L, "@" + std::to_string(it)});
      StateMap in;
      for (auto& s : cur) {
        for (auto* B : L->blocks())
          for (auto& I : *B) {
            s.dec.erase(&I);
            auto al = s.alias.find(&I);
            if (I.getParent() != H || !isa<PHINode>(I)) { s.env.erase(&I); if (al != s.alias.end()) s.alias.erase(al); }
            else if (al != s.alias.end()) {
              auto* X = dyn_cast<Instruction>(al->second);
              if (X && L->contains(X)) s.alias.erase(al);
            }
          }
        s.bb = H;
        s.it = H->getFirstNonPHI()->getIterator();
        in[H].push_back(s);
      }
      std::vector<State> latch;
      auto o = region(in, L, latch);
      for (auto& [b, x] : o) { auto& d = out[b]; for (auto& y : x) d.push_back(std::move(y)); }
      cur.clear();
      if (latch.size() > 6 || res.steps > maxSteps) break;
      for (auto& l : latch) {
        auto* from = l.prev;
        try { enter(l, from, H); } catch (Fork const&) { latch.clear(); cur.clear(); salts.resize(depth); return false; }
        cur.push_back(std::move(l));
      }
      done = latch.empty();
    }
    salts.resize(depth);
    if (getenv("AI_LOOP")) errs() << "unroll " << done << " at " << H->getName().take_back(30) << "\n";
    if (done)
      for (auto& [b, x] : out)
        if (x.size() > maxExitStates) x = join(std::move(x), b);
    return done;
  }

  StateMap loop(State const& s0, Loop* L) {
    ++res.loops;
    auto* H = L->getHeader();
    // widened header state
    State s = s0;
    // forget decisions about loop-defined booleans
    for (auto* B : L->blocks())
      for (auto& I : *B) {
        s.dec.erase(&I);
        if (I.getParent() != H || !isa<PHINode>(I)) { s.env.erase(&I); s.alias.erase(&I); }
      }
    // memory written in the loop
    for (auto* B : L->blocks())
      for (auto& I : *B) {
        if (!I.mayWriteToMemory()) continue;
        if (auto* S = dyn_cast<StoreInst>(&I)) {
          Value* p = S->getPointerOperand();
          if (L->isLoopInvariant(p) && !isa<Instruction>(p)) {
            Val a = get(s, p);
            clobber(s, a.bad ? nullptr : &a.e, DL.getTypeStoreSize(S->getValueOperand()->getType()), p, !a.bad);
          } else if (L->isLoopInvariant(p)) {
            clobber(s, nullptr, 0, p, false);
          } else {
            clobber(s, nullptr, 0, getUnderlyingObject(p), false);
          }
          continue;
        }
        if (auto* CB = dyn_cast<CallBase>(&I)) {
          auto* Cal = CB->getCalledFunction();
          if (isa<DbgInfoIntrinsic>(CB)) continue;
          if (Cal && (Cal->onlyAccessesInaccessibleMemory() || Cal->doesNotAccessMemory())) continue;
          if (auto* MI = dyn_cast<MemIntrinsic>(CB)) {
            clobber(s, nullptr, 0, getUnderlyingObject(MI->getRawDest()), false);
            continue;
          }
          if (auto* II = dyn_cast<IntrinsicInst>(CB))
            if (II->isLifetimeStartOrEnd() || II->getIntrinsicID() == Intrinsic::assume) continue;
        }
        if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
          clobber(s, nullptr, 0, getUnderlyingObject(I.getOperand(0)), false);
          continue;
        }
        s.mem.clear();
      }
    int n = memoSym("n" + pkey(H), 0, P2(62));
    // hypothesis about memory the loop may write: unchanged, or moved by a
    // constant per iteration (validated below like the loop-carried values)
    struct MI { Cell init, cur; int mode = 0; i128 step = 0; };
    std::vector<MI> keepMem;
    {
      auto eq = [](Cell const& a, Cell const& b) { return a.addr == b.addr && a.size == b.size && a.ptr == b.ptr && a.fill == b.fill; };
      for (auto& c : s0.mem) {
        bool kept = false;
        for (auto& d : s.mem) if (eq(c, d)) { kept = true; break; }
        if (!kept && (c.fill || !c.v.bad)) keepMem.push_back({c, c});
      }
    }
    auto withMem = [&](State& h) { for (auto& k : keepMem) h.mem.push_back(k.cur); };
    struct IV { PHINode* p; Expr init; i128 step; };
    // hypotheses about loop-carried values, validated below: unchanged, moved by
    // a constant per iteration, or moved in lock-step with another one
    struct KI { PHINode* p; Val init, fresh; int mode = 0; i128 step = 0; PHINode* base = nullptr; int k = 0; };
    std::vector<KI> bases;
    std::vector<KI> keepInit;
    std::vector<IV> ivs;
    for (auto& P : H->phis()) {
      unsigned w = width(P.getType());
      auto iit = s0.env.find(&P);
      Val init = iit != s0.env.end() ? iit->second : Val{{}, w, true};
      if (s0.alias.count(&P)) init.bad = true;
      s.alias.erase(&P);
      s.dec.erase(&P);
      bool isIV = false;
      i128 step = 0;
      if (w > 1 && !init.bad) {
        bool ok = true, first = true;
        for (unsigned i = 0; i < P.getNumIncomingValues() && ok; ++i) {
          if (!L->contains(P.getIncomingBlock(i))) continue;
          i128 st = 0;
          auto* V = P.getIncomingValue(i);
          int64_t c;
          if (V == &P) st = 0;
          else if (stepOf(V, &P, c)) st = c;
          else ok = false;
          if (ok && !first && st != step) ok = false;
          step = st;
          first = false;
        }
        isIV = ok && !first;
      }
      Val v;
      if (isIV) {
        v.w = w;
        v.e = init.e + Expr::sym(n).scale(step);
        if (step != 0) ivs.push_back({&P, init.e, step});
      } else {
        v = instVal(&P, w, "phi");
        // tentatively unchanged by the loop (validated below)
        if (w > 1 && !init.bad && L->getLoopLatch()) { keepInit.push_back({&P, init, v}); v = init; }
      }
      s.env[&P] = v;
    }
    // candidate bounds from comparisons inside the loop
    std::vector<Cand> cands;
    for (auto& iv : ivs) {
      unsigned w = width(iv.p->getType());
      auto addc = [&](Expr const& bound) {
        // step>0: e <= bound ; step<0: e >= bound
        Expr e0 = iv.init + Expr::sym(n).scale(iv.step), e1 = e0 + Expr::cst(iv.step);
        if (iv.step > 0) cands.push_back({le(e0, bound), le(e1, bound)});
        else cands.push_back({le(bound, e0), le(bound, e1)});
      };
      for (auto* B : L->blocks())
        for (auto& I : *B) {
          auto* IC = dyn_cast<ICmpInst>(&I);
          if (!IC) continue;
          for (int k = 0; k < 2; ++k) {
            Value *x = IC->getOperand(k), *y = IC->getOperand(1 - k);
            if (!L->isLoopInvariant(y)) continue;
            if (!derivesFrom(x, iv.p, 6)) continue;
            try {
              State t = s;
              Val b = get(t, y);
              if (b.bad) continue;
              Expr X;
              if (x != iv.p && affine(t, L, x, 6, X)) {  // a multiple of it, like an element's address
                i128 k = 0;
                for (auto& [v, c] : X.t) if (v == n) k = c;
                if (k != 0 && !(X - (iv.init + Expr::sym(n).scale(iv.step))).isConst()) {
                  Expr X1 = X + Expr::cst(k);
                  if (k > 0) cands.push_back({le(X, b.e), le(X1, b.e)});
                  if (k > 0) cands.push_back({le(b.e + Expr::cst(k), X), le(b.e + Expr::cst(k), X1)});
                }
              }
              addc(b.e);
              addc(b.e - Expr::cst(iv.step));
              addc(b.e + Expr::cst(iv.step));
              for (int sg = 0; sg < 2; ++sg) {
                try {
                  State t2 = s;
                  Expr be = interp(t2, b, sg);
                  addc(be);
                  addc(be - Expr::cst(iv.step));
                  addc(be - Expr::cst(iv.step > 0 ? 1 : -1));
                } catch (Fork const&) {
                  addc(b.e);
                }
              }
            } catch (Fork const&) {
            } catch (Dead const&) {
            }
          }
        }
      addc(Expr::cst(iv.step > 0 ? P2(w) - 1 : 0));
      addc(Expr::cst(iv.step > 0 ? P2(w - 1) - 1 : 0));
    }
    // equality-tested (x != end) loops: parity facts come from n itself
    // keep candidates true at entry (n == 0)
    std::vector<Cand> good;
    {
      State e = s0;
      for (auto& c : cands) {
        // substitute n = 0: add n == 0
        if (entails(e, c.c0, n)) good.push_back(c);
      }
    }
    // loop-carried values without a known step: bounded by what the loop
    // compares them with, and by their initial value
    struct PC { PHINode* p; Expr bound; bool up, fresh; };  // up: value <= bound
    std::vector<PC> pcands;
    for (auto& k : keepInit) {
      auto addp = [&](Expr const& b, bool both) {
        try {
          State t = s0;
          Expr i = interp(t, k.init, false);
          for (int up = 0; up < (both ? 2 : 1); ++up)
            if (isEmpty(t, negate(up ? le(i, b) : le(b, i)))) pcands.push_back({k.p, b, up == 1, false});
        } catch (Fork const&) {
        } catch (Dead const&) {
        }
      };
      try {
        State t = s0;
        addp(interp(t, k.init, false), false);
      } catch (Fork const&) {
      } catch (Dead const&) {
      }
      for (auto* B : L->blocks())
        for (auto& I : *B) {
          auto* IC = dyn_cast<ICmpInst>(&I);
          if (!IC) continue;
          for (int o = 0; o < 2; ++o) {
            Value *x = IC->getOperand(o), *y = IC->getOperand(1 - o);
            if (!L->isLoopInvariant(y) || width(y->getType()) != k.init.w || !derivesFrom(x, k.p, 6)) continue;
            try {
              State t = s;
              Val b = get(t, y);
              if (b.bad) continue;
              addp(interp(t, b, false), true);
            } catch (Fork const&) {
            } catch (Dead const&) {
            }
          }
        }
    }
    auto withPc = [&](State& h) { for (auto& c : pcands) if (c.fresh) addCon(h, c.up ? le(h.env[c.p].e, c.bound) : le(c.bound, h.env[c.p].e)); };
    // Houdini
    bool q = quiet;
    quiet = true;
    bool lost = false;
    int rounds = 8 + 3 * (int)keepInit.size() + 2 * (int)keepMem.size();
    for (int round = 0; round < rounds; ++round) {
      State h = s;
      withMem(h);
      for (auto& c : good) addCon(h, c.c0);
      withPc(h);
      h.bb = H;
      h.it = H->getFirstNonPHI()->getIterator();
      std::map<BasicBlock*, std::vector<State>> in;
      in[H].push_back(h);
      std::vector<State> latch;
      region(in, L, latch);
      latch.erase(std::remove_if(latch.begin(), latch.end(), [&](State const& l) { return l.phase != s0.phase; }), latch.end());
      std::vector<Cand> keep;
      for (auto& c : good) {
        bool ok = true;
        for (auto& l : latch) {
          std::vector<Con> nc = negate(c.c1);
          if (!isEmpty(l, nc)) { ok = false; break; }
        }
        if (ok) keep.push_back(c);
      }
      bool stable = keep.size() == good.size();
      good.swap(keep);
      {
        std::vector<PC> keptPc;
        for (auto& c : pcands) {
          bool ok = true;
          if (c.fresh)
            for (auto& l : latch) {
              State t = l;
              try {
                Val v = get(t, c.p->getIncomingValueForBlock(L->getLoopLatch()));
                if (v.bad) { ok = false; break; }
                Expr e = interp(t, v, false);
                if (!isEmpty(t, negate(c.up ? le(e, c.bound) : le(c.bound, e)))) { ok = false; break; }
              } catch (Fork const&) { ok = false; break;
              } catch (Dead const&) {
              }
            }
          if (ok) keptPc.push_back(c);
          else stable = false;
        }
        pcands.swap(keptPc);
      }
      // delta of a loop-carried value over one iteration, per latch state
      auto delta = [&](State& t, PHINode* p, Val const& cur, Expr& d) {
        try {
          Val v = get(t, p->getIncomingValueForBlock(L->getLoopLatch()));
          if (v.bad || v.w != cur.w) return 0;
          d = v.e - cur.e;
          return 1;
        } catch (Fork const&) { return 0;
        } catch (Dead const&) { return 2; }
      };
      auto zero = [&](State& t, Expr const& d, unsigned w) {
        if (d.isConst()) return d.c % P2(std::min(w, 120u)) == 0;
        std::vector<Con> no;
        return isEmpty(t, no, {d});
      };
      auto holds = [&](KI const& k) {
        for (auto& l : latch) {
          State t = l;
          Expr d, e;
          int r = delta(t, k.p, s.env[k.p], d);
          if (r == 2) continue;
          if (!r) return false;
          if (k.mode == 2) {
            r = delta(t, k.base, s.env[k.base], e);
            if (r == 2) continue;
            if (!r) return false;
            d = d - e.scale(k.k);
          } else d = d - Expr::cst(k.step);
          if (!zero(t, d, k.init.w)) return false;
        }
        return true;
      };
      std::vector<KI> kept;
      std::vector<std::pair<PHINode*, Val>> upd;
      for (auto& k : keepInit) {
        if (holds(k)) { kept.push_back(k); continue; }
        stable = false;
        if (getenv("AI_LOOP")) { errs() << "round " << round << " fails "; k.p->printAsOperand(errs(), false); errs() << " mode " << k.mode << " step " << (long)k.step << " latches " << latch.size() << "\n"; }
        KI nk = k;
        bool found = false;
        if (k.mode == 0) {  // a constant step?
          bool ok = true, first = true;
          for (auto& l : latch) {
            State t = l;
            Expr d;
            int r = delta(t, k.p, s.env[k.p], d);
            if (r == 2) continue;
            if (!r || !d.isConst() || (!first && d.c != nk.step)) { ok = false; break; }
            nk.step = d.c;
            first = false;
          }
          if (ok && !first) { nk.mode = 1; found = true; upd.push_back({k.p, Val{}}); upd.back().second.w = k.init.w; upd.back().second.e = k.init.e + Expr::sym(n).scale(nk.step); }
        }
        if (!found && k.mode < 2)
          for (auto& q : bases) {
            if (q.init.w != k.init.w) continue;
            for (int f : {1, -1}) {
              nk.mode = 2; nk.base = q.p; nk.k = f; nk.step = 0;
              if (!holds(nk)) continue;
              Val v;
              v.w = k.init.w;
              v.e = k.init.e + (q.fresh.e - q.init.e).scale(f);
              upd.push_back({k.p, v});
              found = true;
              break;
            }
            if (found) break;
          }
        if (found) kept.push_back(nk);
        else {
          upd.push_back({k.p, k.fresh}); bases.push_back(k); lost = true;
          for (auto& c : pcands) if (c.p == k.p) c.fresh = true;
        }
      }
      if (getenv("AI_LOOP")) for (auto& [p, v] : upd) { errs() << "   -> "; p->printAsOperand(errs(), false); errs() << " = " << key(v.e) << "\n"; }
      for (auto& [p, v] : upd) s.env[p] = v;
      keepInit.swap(kept);
      std::vector<MI> keptMem;
      for (auto& k : keepMem) {
        bool same = true, step = !k.cur.fill && k.mode == 0, first = true;
        i128 st = 0;
        for (auto& l : latch) {
          Cell const* f = nullptr;
          for (auto& c : l.mem)
            if (c.addr == k.cur.addr && c.size == k.cur.size) { f = &c; break; }
          if (!f || f->fill != k.cur.fill) { same = step = false; break; }
          if (f->fill) { if (f->byte != k.cur.byte) { same = step = false; break; } continue; }
          if (f->v.bad || f->v.w != k.cur.v.w) { same = step = false; break; }
          Expr d = f->v.e - k.cur.v.e;
          Expr d0 = k.mode ? d - Expr::cst(k.step) : d;
          if (same && !zero(l, d0, k.cur.v.w)) same = false;
          if (!d.isConst() || (!first && d.c != st)) step = false;
          st = d.c;
          first = false;
        }
        if (same) { keptMem.push_back(k); continue; }
        if (getenv("AI_LOOP")) errs() << "round " << round << " fails mem " << key(k.cur.addr) << " size " << k.cur.size << (k.cur.fill ? " fill" : "") << "\n";
        stable = false;
        if (step && !first) {
          k.mode = 1;
          k.step = st;
          k.cur.v.e = k.init.v.e + Expr::sym(n).scale(st);
          keptMem.push_back(k);
        } else lost = true;
      }
      keepMem.swap(keptMem);
      if (round == rounds - 1 && !stable) keepMem.clear();
      if (stable) break;
      if (res.steps > maxSteps) { keepMem.clear(); good.clear(); pcands.clear(); for (auto& k : keepInit) s.env[k.p] = k.fresh; keepInit.clear(); break; }
      if (round == rounds - 1) { good.clear(); pcands.clear(); for (auto& k : keepInit) s.env[k.p] = k.fresh; keepInit.clear(); }
    }
    if (getenv("AI_LOOP")) for (auto& c : good) errs() << "   kept " << key(c.c0.e) << " >= 0 at " << H->getName().take_back(30) << "\n";
    if (lost && !L->getParentLoop() && res.steps < maxSteps) {
      StateMap o;
      if (unroll(s0, L, o)) {
        quiet = q;
        if (!q) unroll(s0, L, o);
        return o;
      }
    }
    quiet = q;
    State h = s;
    withMem(h);
    for (auto& c : good) addCon(h, c.c0);
    withPc(h);
    h.bb = H;
    h.it = H->getFirstNonPHI()->getIterator();
    std::map<BasicBlock*, std::vector<State>> in;
    in[H].push_back(h);
    std::vector<State> latch;
    auto out = region(in, L, latch);
    // iterations after a change of phase
    std::map<int, std::vector<State>> next;
    for (auto& l : latch)
      if (l.phase != s0.phase) next[l.phase].push_back(std::move(l));
    for (auto& [ph, v] : next) {
      bool ok = true;
      for (auto& x : v) {
        auto* from = x.prev;
        try { enter(x, from, H); } catch (Fork const&) { ok = false; markAll(x); }
      }
      if (ph > s0.phase + 8 || ph > 64) { ok = false; for (auto& x : v) markAll(x); }
      if (!ok) continue;
      if (v.size() > 1) v = join(std::move(v), H);
      auto& x = v[0];
      for (auto* B : L->blocks())
        for (auto& I : *B) {
          x.dec.erase(&I);
          auto al = x.alias.find(&I);
          if (I.getParent() != H || !isa<PHINode>(I)) { x.env.erase(&I); if (al != x.alias.end()) x.alias.erase(al); }
          else if (al != x.alias.end()) {
            auto* X = dyn_cast<Instruction>(al->second);
            if (X && L->contains(X)) x.alias.erase(al);
          }
        }
      salts.push_back({L, "@p" + std::to_string(ph)});
      auto o = loop(x, L);
      salts.pop_back();
      for (auto& [b, y] : o) { auto& d = out[b]; for (auto& z : y) d.push_back(std::move(z)); }
    }
    // states leaving one loop instance share the facts known at its entry:
    // joining them here loses loop-internal facts only
    for (auto& [b, v] : out)
      if (v.size() > maxExitStates) v = join(std::move(v), b);
    return out;
  }
  std::vector<Con> negate(Con const& c) {
    Expr e = c.e.scale(-1);
    e.c -= 1;
    return {geZ(e)};
  }
  bool entails(State& s, Con const& c, int n) {
    auto nc = negate(c);
    nc.push_back(eqZ(Expr::sym(n)));
    return isEmpty(s, nc);
  }
  bool stepOf(Value* V, PHINode* P, int64_t& c) {
    if (auto* B = dyn_cast<BinaryOperator>(V)) {
      if (B->getOpcode() == Instruction::Add && B->getOperand(0) == P)
        if (auto* K = dyn_cast<ConstantInt>(B->getOperand(1)); K && K->getBitWidth() <= 64) { c = K->getSExtValue(); return true; }
      return false;
    }
    if (auto* G = dyn_cast<GEPOperator>(V); G && G->getPointerOperand() == P) {
      APInt o(64, 0);
      if (G->accumulateConstantOffset(DL, o)) { c = o.getSExtValue(); return true; }
    }
    return false;
  }
  // the value as an expression over the header's state
  bool affine(State& t, Loop* L, Value* V, int d, Expr& e) {
    if (isa<PHINode>(V) && t.env.count(V)) {
      if (t.env[V].bad) return false;
      e = t.env[V].e;
      return true;
    }
    if (L->isLoopInvariant(V)) {
      Val v = get(t, V);
      e = v.e;
      return !v.bad;
    }
    auto* I = dyn_cast<Instruction>(V);
    if (!I || d == 0) return false;
    Expr a, b;
    switch (I->getOpcode()) {
      case Instruction::PtrToInt: case Instruction::IntToPtr: return affine(t, L, I->getOperand(0), d - 1, e);
      case Instruction::Add: case Instruction::Sub:
        if (!affine(t, L, I->getOperand(0), d - 1, a) || !affine(t, L, I->getOperand(1), d - 1, b)) return false;
        e = I->getOpcode() == Instruction::Add ? a + b : a - b;
        return true;
      case Instruction::Mul: case Instruction::Shl:
        if (!affine(t, L, I->getOperand(0), d - 1, a) || !affine(t, L, I->getOperand(1), d - 1, b) || !b.isConst() || b.c < 0 || b.c > (I->getOpcode() == Instruction::Shl ? 30 : 1 << 20)) return false;
        e = a.scale(I->getOpcode() == Instruction::Shl ? P2((unsigned)b.c) : b.c);
        return true;
      case Instruction::GetElementPtr: {
        auto* G = cast<GEPOperator>(I);
        if (!affine(t, L, G->getPointerOperand(), d - 1, e)) return false;
        MapVector<Value*, APInt> vo;
        APInt co(64, 0);
        if (!G->collectOffset(DL, 64, vo, co)) return false;
        for (auto& [v, k] : vo) {
          if (!affine(t, L, v, d - 1, a)) return false;
          e = e + a.scale((i128)k.getSExtValue());
        }
        e = e + Expr::cst((i128)co.getSExtValue());
        return true;
      }
      default: return false;
    }
  }
  bool derivesFrom(Value* V, PHINode* P, int d) {
    if (V == P) return true;
    if (d == 0) return false;
    auto* I = dyn_cast<Instruction>(V);
    if (!I) return false;
    switch (I->getOpcode()) {
      case Instruction::Add: case Instruction::Sub: case Instruction::GetElementPtr:
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
      case Instruction::PtrToInt: case Instruction::IntToPtr:
        for (auto& o : I->operands())
          if (derivesFrom(o, P, d - 1)) return true;
        return false;
      default: return false;
    }
  }

  template <typename Fn>
  void stepBlock(State s, std::vector<State>& work, Fn&& edge) {
    try {
      for (;;) {
        Instruction& I = *s.it;
        if (++res.steps > maxSteps || (deadline > 0 && (res.steps & 15) == 0 && (double)clock() / CLOCKS_PER_SEC > deadline)) {
          res.blowup = true;
          // inconclusive: everything still reachable counts as open
          if (!quiet) markAll(s);
          return;
        }
        try {
          if (!quiet && isMark(I) && !res.reached.count(&I) && !isEmptyFull(s)) res.reached.insert(&I);
          if (isTarget(I)) {
            if (!isEmptyFull(s)) {
              if (!quiet) report(s, I);
            }
            return;
          }
          if (I.isTerminator()) {
            term(s, I, edge);
            return;
          }
          exec(s, I);
        } catch (Fork& f) {
          for (auto& a : f.alts) {
            State n = s;
            {
              State mm;
              isEmpty(s, a.cons, a.ne, &mm);
              n.model = mm.model;
              n.modelOk = mm.modelOk;
            }
            for (auto& c : a.cons) addCon(n, c);
            for (auto& e : a.ne)
              addNe(n, e);
            if (a.dec) {
              n.dec[a.dec] = a.decv;
              if (auto* DI = dyn_cast<Instruction>(a.dec)) note(n, *DI, a.decv ? "condition true" : "condition false");
            }
            work.push_back(std::move(n));
          }
          return;
        } catch (lin::Overflow const&) {
          // numeric abstraction lost
          if (I.isTerminator()) { markAll(s); return; }
          if (!I.getType()->isVoidTy()) s.env[&I] = instVal(&I, width(I.getType()));
          if (I.mayWriteToMemory()) s.mem.clear();
        }
        ++s.it;
      }
    } catch (Dead const&) {
    }
  }
  bool isEmptyFull(State const& s) {
    ++res.lp;
    if (s.modelOk) return false;
    if (emptyC(s.cons)) return true;
    return splitNe(s.cons, s.ne, 0, 0);
  }
  void markAll(State& s) {
    // conservatively open: all targets reachable from s.bb
    std::set<BasicBlock*> seen;
    std::vector<BasicBlock*> wl{s.bb};
    while (!wl.empty()) {
      auto* b = wl.back();
      wl.pop_back();
      if (!seen.insert(b).second) continue;
      for (auto& I : *b)
        if (isTarget(I)) {
          auto& o = res.open[&I];
          if (o.empty()) o.push_back("(analysis budget exhausted)");
        }
      for (auto* x : successors(b)) wl.push_back(x);
    }
  }
  void report(State& s, Instruction& I) {
    auto& o = res.open[&I];
    if (!o.empty()) return;
    if (getenv("AI_STATE")) {
      for (auto& c : s.cons) errs() << "  con " << (c.eq ? "= " : ">= ") << key(c.e) << "\n";
      for (auto& c : s.ne) errs() << "  ne " << key(c) << "\n";
      for (auto& [k, v] : s.env) { errs() << "  env "; k->printAsOperand(errs(), false); errs() << " = " << key(v.e) << "\n"; }
      for (auto& c : s.mem) errs() << "  mem " << key(c.addr) << " size " << c.size << " = " << (c.fill ? "fill " + std::to_string(c.byte) : c.v.bad ? "?" : key(c.v.e)) << "\n";
      for (auto& [k, v] : s.dec) { errs() << "  dec "; k->printAsOperand(errs(), false); errs() << " = " << v << "\n"; }
    }
    std::vector<std::string> t;
    for (auto e = s.trace; e; e = e->prev) t.push_back(e->text);
    std::reverse(t.begin(), t.end());
    o = t;
    if (o.empty()) o.push_back("(unconditional)");
  }

  template <typename Fn>
  void term(State& s, Instruction& I, Fn&& edge) {
    if (auto* B = dyn_cast<BranchInst>(&I)) {
      if (B->isUnconditional()) {
        auto* from = s.bb;
        prep(s, from, B->getSuccessor(0));
        edge(std::move(s), from, B->getSuccessor(0));
        return;
      }
      bool c = evalBool(s, B->getCondition());
      auto* from = s.bb;
      auto* to = B->getSuccessor(c ? 0 : 1);
      prep(s, from, to);
      edge(std::move(s), from, to);
      return;
    }
    if (auto* S = dyn_cast<SwitchInst>(&I)) {
      Val v = get(s, S->getCondition());
      auto* from = s.bb;
      if (v.bad) {
        for (unsigned i = 0; i < S->getNumSuccessors(); ++i) {
          State n = s;
          edge(std::move(n), from, S->getSuccessor(i));
        }
        return;
      }
      Expr e = interp(s, v, false);
      State rest = s;
      for (auto& C : S->cases()) {
        Expr d = e - Expr::cst((i128)C.getCaseValue()->getZExtValue());
        if (d.isConst()) {
          if (d.c == 0) { edge(std::move(s), from, C.getCaseSuccessor()); return; }
          continue;
        }
        if (!isEmpty(rest, {eqZ(d)})) {
          State n = s;
          addCon(n, eqZ(d));
          note(n, I, "switch case " + std::to_string(C.getCaseValue()->getZExtValue()));
          edge(std::move(n), from, C.getCaseSuccessor());
        }
        addNe(rest, d);
      }
      if (!isEmptyFull(rest)) {
        note(rest, I, "switch default");
        edge(std::move(rest), from, S->getDefaultDest());
      }
      return;
    }
    // ret / unreachable: trace ends
  }
  // force evaluation that enter() may need (phi operands), so that Forks are
  // raised before the state leaves the block
  void prep(State& s, BasicBlock* from, BasicBlock* to) {
    for (auto& P : to->phis()) {
      Value* in = P.getIncomingValueForBlock(from);
      if (width(P.getType()) > 1) (void)get(s, in);
    }
  }
};
}  // namespace absint
