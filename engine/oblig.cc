// oblig - decides static obligations on LLVM IR.
#include "absint.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/ValueTracking.h"
#include <set>
#include <sys/wait.h>
#include <unistd.h>
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include "llvm/Transforms/Utils/Cloning.h"

using namespace llvm;

static cl::opt<std::string> In(cl::Positional, cl::Required);
static cl::opt<unsigned> Jobs("j", cl::init(1));
static cl::opt<unsigned> RootTimeout("root-timeout", cl::init(200));
static cl::opt<unsigned long> MaxSteps("max-steps", cl::init(100000));
static cl::opt<unsigned> MaxStates("max-states", cl::init(400));
static cl::opt<std::string> Only("only", cl::init(""));
static cl::opt<bool> Unswitch("unswitch-loops", cl::init(false));  // loops that leave by a switch are unrolled, too
static cl::opt<std::string> Dump("dump-ir", cl::init(""));

static bool isThrowName(StringRef N) {
  return N == "__cxa_throw" || N == "__cxa_rethrow" || N == "abort" ||
         N == "_ZSt9terminatev" || N == "__clang_call_terminate" ||
         N.starts_with("_ZSt17__throw") || N.starts_with("_ZSt16__throw") ||
         N.starts_with("_ZSt20__throw") || N.starts_with("_ZSt19__throw") ||
         N.starts_with("_ZSt24__throw") || N.starts_with("_ZSt18__throw") ||
         N == "__cxa_bad_cast" || N == "__cxa_call_unexpected" || N == "__assert_fail";
}
static bool isMarker(Instruction const& I, StringRef Name) {
  auto* CB = dyn_cast<CallBase>(&I);
  return CB && CB->getCalledFunction() && CB->getCalledFunction()->getName() == Name;
}
static bool isObservable(Instruction const& I) {
  return isMarker(I, "an_violation") || isMarker(I, "an_reach");
}

// A pointer formed from an object's own address and a distance stored in that
// object (a self-relative pointer) may designate any other object: integers,
// not an element of the object the distance is stored in.
static void selfRelative(Function& F) {
  auto strip = [](Value* V) {
    for (;;) {
      if (auto* G = dyn_cast<GEPOperator>(V); G && G->hasAllConstantIndices()) V = G->getPointerOperand();
      else if (auto* C = dyn_cast<BitCastOperator>(V)) V = C->getOperand(0);
      else return V;
    }
  };
  std::vector<GetElementPtrInst*> work;
  for (auto& I : instructions(F)) {
    auto* G = dyn_cast<GetElementPtrInst>(&I);
    if (!G || G->getNumIndices() != 1 || !G->getSourceElementType()->isIntegerTy(8) || isa<Constant>(G->getOperand(1))) continue;
    auto* B = strip(G->getPointerOperand());
    std::vector<Value*> todo{G->getOperand(1)};
    std::set<Value*> seen;
    bool own = false;
    while (!todo.empty() && !own && seen.size() < 64) {
      auto* V = todo.back();
      todo.pop_back();
      if (!seen.insert(V).second) continue;
      if (auto* Ld = dyn_cast<LoadInst>(V)) own = strip(Ld->getPointerOperand()) == B;
      else if (isa<CastInst>(V) || isa<BinaryOperator>(V) || isa<PHINode>(V) || isa<SelectInst>(V) || isa<FreezeInst>(V))
        for (auto& O : cast<Instruction>(V)->operands())
          if (!O->getType()->isIntegerTy(1)) todo.push_back(O);
    }
    if (own) work.push_back(G);
  }
  for (auto* G : work) {
    IRBuilder<> Bd(G);
    auto* I64 = Bd.getInt64Ty();
    auto* A = Bd.CreateAdd(Bd.CreatePtrToInt(G->getPointerOperand(), I64), Bd.CreateSExtOrTrunc(G->getOperand(1), I64));
    G->replaceAllUsesWith(Bd.CreateIntToPtr(A, G->getType()));
    G->eraseFromParent();
  }
}
static void lowerEH(Module& M) {
  auto& C = M.getContext();
  auto* ThrowTy = FunctionType::get(Type::getVoidTy(C), false);
  auto* Throw = cast<Function>(M.getOrInsertFunction("an_throw", ThrowTy).getCallee());
  Throw->setDoesNotReturn();
  Throw->setDoesNotThrow();
  Throw->setOnlyAccessesInaccessibleMemory();
  for (auto& F : M) {
    if (F.isDeclaration()) continue;
    for (auto& BB : F)
      if (auto* II = dyn_cast<InvokeInst>(BB.getTerminator())) {
        changeToCall(II);
      }
    std::vector<CallInst*> Throws;
    for (auto& I : instructions(F))
      if (auto* CI = dyn_cast<CallInst>(&I))
        if (auto* Cal = CI->getCalledFunction(); Cal && isThrowName(Cal->getName()))
          Throws.push_back(CI);
    for (auto* CI : Throws) {
      if (CI->getParent()->empty()) continue;
      auto* NC = CallInst::Create(Throw, "", CI);
      NC->setDebugLoc(CI->getDebugLoc());
      changeToUnreachable(CI);
    }
    removeUnreachableBlocks(F);
    if (F.hasPersonalityFn()) F.setPersonalityFn(nullptr);
  }
}

// blocks that cannot reach a return or an observable marker are replaced by
// "throw; unreachable"
// the functions from which an observable is reachable
static std::set<Function const*> observableFunctions(Module& M) {
  std::set<Function const*> R;
  std::map<Function const*, std::vector<Function const*>> Callers;
  std::vector<Function const*> WL;
  for (auto& F : M)
    for (auto& I : instructions(F)) {
      auto* CB = dyn_cast<CallBase>(&I);
      if (!CB) continue;
      if (isObservable(I) || (!CB->getCalledFunction() && !CB->isInlineAsm())) { if (R.insert(&F).second) WL.push_back(&F); }
      else if (CB->getCalledFunction() && !CB->getCalledFunction()->isDeclaration()) Callers[CB->getCalledFunction()].push_back(&F);
    }
  while (!WL.empty()) {
    auto* F = WL.back();
    WL.pop_back();
    for (auto* C : Callers[F])
      if (R.insert(C).second) WL.push_back(C);
  }
  return R;
}
static bool sliceDoomed(Function& F, std::set<Function const*> const& Obs) {
  if (F.isDeclaration()) return false;
  SmallPtrSet<BasicBlock*, 32> Live;
  std::vector<BasicBlock*> WL;
  // a block containing an observable before its end is live
  for (auto& BB : F) {
    bool L = isa<ReturnInst>(BB.getTerminator());
    for (auto& I : BB)
      if (isObservable(I) || isMarker(I, "an_stop")) L = true;  // the end of what is assumed is not an exception
      else if (auto* CB = dyn_cast<CallBase>(&I); CB && (!CB->getCalledFunction() || Obs.count(CB->getCalledFunction()))) L = true;
    if (L && Live.insert(&BB).second) WL.push_back(&BB);
  }
  while (!WL.empty()) {
    auto* B = WL.back();
    WL.pop_back();
    for (auto* P : predecessors(B))
      if (Live.insert(P).second) WL.push_back(P);
  }
  bool Ch = false;
  std::vector<BasicBlock*> Doomed;
  for (auto& BB : F)
    if (!Live.count(&BB) && &BB != &F.getEntryBlock()) Doomed.push_back(&BB);
  auto* Throw = F.getParent()->getFunction("an_throw");
  for (auto* BB : Doomed) {
    bool entry = false;
    for (auto* P : predecessors(BB)) entry |= Live.count(P) || P == &F.getEntryBlock();
    if (!entry) continue;
    if (isMarker(BB->front(), "an_throw")) continue;
    DebugLoc DL;
    for (auto& I : *BB)
      if (I.getDebugLoc()) { DL = I.getDebugLoc(); break; }
    auto* IP = &*BB->getFirstInsertionPt();
    auto* NC = CallInst::Create(Throw, "", IP);
    if (DL) NC->setDebugLoc(DL);
    changeToUnreachable(IP);
    Ch = true;
  }
  if (Ch) removeUnreachableBlocks(F);
  return Ch;
}

struct PM {
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PipelineTuningOptions PTO;
  std::unique_ptr<PassBuilder> PB;
  PM() {
    PTO.LoopVectorization = false;
    PTO.SLPVectorization = false;
    PTO.LoopUnrolling = true;
    PTO.MergeFunctions = false;
    PB = std::make_unique<PassBuilder>(nullptr, PTO);
    PB->registerModuleAnalyses(MAM);
    PB->registerCGSCCAnalyses(CGAM);
    PB->registerFunctionAnalyses(FAM);
    PB->registerLoopAnalyses(LAM);
    PB->crossRegisterProxies(LAM, FAM, CGAM, MAM);
  }
  void run(Module& M, StringRef P) {
    ModulePassManager MPM;
    if (auto E = PB->parsePassPipeline(MPM, P)) {
      errs() << "pipeline: " << toString(std::move(E)) << "\n";
      exit(2);
    }
    MPM.run(M, MAM);
    FAM.clear(); LAM.clear(); CGAM.clear(); MAM.clear();
  }
};

static void markInline(Module& M, std::set<Function*> const& Roots) {
  CallGraph CG(M);
  SmallPtrSet<Function*, 16> Rec;
  for (auto I = scc_begin(&CG); !I.isAtEnd(); ++I)
    if (I.hasCycle())
      for (auto* N : *I)
        if (N->getFunction()) Rec.insert(N->getFunction());
  for (auto& F : M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::Cold);
    if (!Roots.count(&F)) {
      F.setLinkage(GlobalValue::InternalLinkage);
      F.setComdat(nullptr);
      F.setVisibility(GlobalValue::DefaultVisibility);
      if (!Rec.count(&F)) F.addFnAttr(Attribute::AlwaysInline);
    }
  }
}

// a switch becomes a chain of comparisons: trip counts of loops are known for these only
static void chainSwitches(Function& F) {
  std::vector<SwitchInst*> All;
  for (auto& B : F)
    if (auto* S = dyn_cast<SwitchInst>(B.getTerminator())) All.push_back(S);
  for (auto* S : All) {
    auto* From = S->getParent();
    auto* Default = S->getDefaultDest();
    auto Loc = S->getDebugLoc();
    std::vector<std::pair<ConstantInt*, BasicBlock*>> Cases;
    for (auto C : S->cases()) Cases.push_back({C.getCaseValue(), C.getCaseSuccessor()});
    // one incoming edge per successor and case: the values are taken from the phis before they lose them
    std::map<BasicBlock*, std::vector<std::pair<PHINode*, Value*>>> In;
    for (auto* T : successors(From))
      if (!In.count(T))
        for (auto& P : T->phis()) In[T].push_back({&P, P.getIncomingValueForBlock(From)});
    for (auto& [T, Vs] : In)
      for (auto& [P, V] : Vs)
        for (int I; (I = P->getBasicBlockIndex(From)) >= 0;) P->removeIncomingValue(static_cast<unsigned>(I), false);
    auto const edge = [&](BasicBlock* B, BasicBlock* T) {
      for (auto& [P, V] : In[T]) P->addIncoming(V, B);
    };
    auto* X = S->getCondition();
    S->eraseFromParent();
    if (Cases.empty()) { BranchInst::Create(Default, From)->setDebugLoc(Loc); edge(From, Default); continue; }
    auto* At = From;
    for (std::size_t I = 0; I != Cases.size(); ++I) {
      auto [C, T] = Cases[I];
      auto* Next = I + 1 == Cases.size() ? Default : BasicBlock::Create(F.getContext(), "", &F);
      auto* Cmp = CmpInst::Create(Instruction::ICmp, CmpInst::ICMP_EQ, X, C, "", At);
      Cmp->setDebugLoc(Loc);
      BranchInst::Create(T, Next, Cmp, At)->setDebugLoc(Loc);
      edge(At, T);
      if (I + 1 == Cases.size()) edge(At, Next);
      At = Next;
    }
  }
}

static std::string locStr(DebugLoc const& L) {
  std::string S;
  raw_string_ostream O(S);
  for (auto* D = L.get(); D; D = D->getInlinedAt()) {
    if (!S.empty()) O << " <- ";
    O << D->getFilename() << ":" << D->getLine();
  }
  return S;
}


static std::string jstr(StringRef S) {
  std::string o = "\"";
  for (char c : S) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o + "\"";
}

static void redirect(Module& M) {
  // environment models: a harness may define model_<fn>, which replaces the
  // external function <fn>
  std::vector<Function*> Models;
  for (auto& F : M)
    if (!F.isDeclaration() && F.getName().starts_with("model_")) Models.push_back(&F);
  for (auto* F : Models) {
    auto Name = F->getName().substr(6);
    if (auto* D = M.getFunction(Name)) {
      if (!D->isDeclaration()) continue;
      // keep calls inside the model itself
      D->replaceUsesWithIf(F, [&](Use& U) {
        auto* I = dyn_cast<Instruction>(U.getUser());
        return !I || I->getFunction() != F;
      });
    }
  }
}

struct FnInfo { std::string name, file; unsigned line; };
static std::vector<FnInfo> repoFunctions(Function* Root) {
  std::set<Function*> Seen;
  std::vector<Function*> WL{Root};
  std::vector<FnInfo> R;
  while (!WL.empty()) {
    auto* F = WL.back();
    WL.pop_back();
    if (!Seen.insert(F).second || F->isDeclaration()) continue;
    if (auto* SP = F->getSubprogram())
      if (SP->getFilename().contains("include/cista")) R.push_back({SP->getName().str(), SP->getFilename().str(), SP->getLine()});
    for (auto& I : instructions(*F))
      if (auto* CB = dyn_cast<CallBase>(&I))
        if (auto* Cal = CB->getCalledFunction()) WL.push_back(Cal);
  }
  return R;
}

int main(int argc, char** argv) {
  cl::ParseCommandLineOptions(argc, argv);
  {  // keep scalars scalar
    auto& RO = cl::getRegisteredOptions();
    for (auto [N, On] : {std::pair{"disable-vector-combine", "true"}, {"vectorize-slp", "false"}, {"vectorize-loops", "false"}, {"licm-force-thread-model-single", "true"}}) {
      auto It = RO.find(N);
      if (It == RO.end() || It->second->addOccurrence(0, N, On)) { errs() << "option " << N << "\n"; return 2; }
    }
  }
  LLVMContext C;
  SMDiagnostic E;
  auto M = parseIRFile(In, E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  std::set<Function*> RootSet;
  std::vector<Function*> Roots;
  for (auto& F : *M)
    if (!F.isDeclaration() && F.getName().starts_with("ob_")) { Roots.push_back(&F); RootSet.insert(&F); }
  for (auto& F : *M) {
    auto N = F.getName();
    if (!F.isDeclaration() || !N.starts_with("an_")) continue;
    F.setDoesNotThrow();
    if (N.starts_with("an_any") || N == "an_violation" || N == "an_reach") F.setOnlyAccessesInaccessibleMemory();
    if (N.starts_with("an_any") || N == "an_reach" || N == "an_fresh") F.addFnAttr(Attribute::WillReturn);
    if (N == "an_phase" || N == "an_watch" || N == "an_split") { F.setOnlyAccessesInaccessibleMemory(); F.addFnAttr(Attribute::WillReturn); }
    if (N == "an_fresh") { F.setReturnDoesNotAlias(); F.setOnlyAccessesInaccessibleMemory(); }
    if (N == "an_copy") {
      F.setOnlyAccessesArgMemory(); F.addFnAttr(Attribute::WillReturn);
      F.addParamAttr(0, Attribute::NoCapture); F.addParamAttr(1, Attribute::NoCapture); F.addParamAttr(1, Attribute::ReadOnly);
    }
    if (N == "an_havoc") { F.setOnlyAccessesArgMemory(); F.addFnAttr(Attribute::WillReturn); F.addParamAttr(0, Attribute::NoCapture); }
  }
  for (auto& F : *M)  // diagnostics output does not change program state
    if (F.isDeclaration() && absint::isOutputFn(F.getName())) {
      F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly() | MemoryEffects::argMemOnly(ModRefInfo::Ref));
      F.setDoesNotThrow();
      F.addFnAttr(Attribute::WillReturn);
    }
  for (auto& F : *M) {  // making an exception does not change program state
    auto N = F.getName();
    if (!F.isDeclaration()) continue;
    if (N == "__cxa_allocate_exception") { F.setReturnDoesNotAlias(); F.setOnlyAccessesInaccessibleMemory(); F.setDoesNotThrow(); F.addFnAttr(Attribute::WillReturn); }
    else if (N == "__cxa_free_exception" || (N.starts_with("_ZNSt") && N.contains("C1EPKc"))) {
      F.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly());
      F.setDoesNotThrow();
      F.addFnAttr(Attribute::WillReturn);
    }
  }
  std::map<Function*, std::vector<FnInfo>> Fns;
  if (!Only.empty()) {
    std::vector<Function*> keep;
    for (auto* F : Roots)
      if (F->getName() == Only) keep.push_back(F);
      else F->deleteBody();
    Roots = keep;
    RootSet = std::set<Function*>(keep.begin(), keep.end());
  }
  for (auto* R : Roots) Fns[R] = repoFunctions(R);
  redirect(*M);
  lowerEH(*M);
  markInline(*M, RootSet);
  PM P;
  auto slice = [&] { auto const Obs = observableFunctions(*M); for (auto& F : *M) sliceDoomed(F, Obs); };
  auto integers = [&] { for (auto& F : *M) if (!F.isDeclaration()) selfRelative(F); };
  P.run(*M, "function(sroa,early-cse,simplifycfg)");
  slice();
  integers();
  P.run(*M, "always-inline,globaldce,function(sroa,early-cse)");
  integers();
  P.run(*M, "function(instcombine<no-verify-fixpoint>,simplifycfg)");
  slice();
  P.run(*M, "function(simplifycfg,sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg)");
  slice();
  P.run(*M, "default<O2>");
  slice();
  if (Unswitch) {
    P.run(*M, "function(sccp,instcombine<no-verify-fixpoint>)");
    for (auto& F : *M) chainSwitches(F);
    P.run(*M, "function(loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),sccp,instcombine<no-verify-fixpoint>,simplifycfg)");
    P.run(*M, "default<O2>");
    slice();
  }
  for (int i = 0; i < 3; ++i) {
    P.run(*M, "function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,jump-threading,correlated-propagation,constraint-elimination,gvn,reassociate,instcombine<no-verify-fixpoint>,newgvn,simplifycfg,jump-threading,dse,adce,simplifycfg)");
    slice();
  }
  P.run(*M, "globaldce");
  if (!Dump.empty()) {
    std::error_code EC;
    raw_fd_ostream O(Dump, EC);
    M->print(O, nullptr);
  }
  auto analyse = [&](Function* F, raw_ostream& O) {
    bool acc = F->getName().starts_with("ob_accept");
    auto isT = [&](Instruction& I) { return isMarker(I, "an_violation") || (acc && isMarker(I, "an_throw")); };
    unsigned nT = 0, nI = 0;
    for (auto& I : instructions(*F)) { nT += isT(I); ++nI; }
    auto& DT = P.FAM.getResult<DominatorTreeAnalysis>(*F);
    auto& LI = P.FAM.getResult<LoopAnalysis>(*F);
    auto& AA = P.FAM.getResult<AAManager>(*F);
    // coarse merging first; finer partitions only where an obligation stays open
    double t0 = (double)clock() / CLOCKS_PER_SEC;
    static const unsigned Cfg[][2] = {{24, 8}, {32, 32}, {64, 64}, {~0U, ~0U}};
    std::unique_ptr<absint::Interp> Best;
    for (auto& c : Cfg) {
      auto N = std::make_unique<absint::Interp>(*F, DT, LI, AA, isT);
      N->isMark = [](Instruction& I) { return isMarker(I, "an_reach"); };
      N->maxSteps = MaxSteps;
      N->maxStatesPerBlock = MaxStates;
      N->hdrStates = c[0];
      N->hdrGroups = c[1];
      N->deadline = t0 + 0.95 * RootTimeout;
      N->run();
      bool merged = N->merged;
      if (!Best || !N->res.blowup) Best = std::move(N);
      if ((!Best->res.blowup && Best->res.open.empty()) || !merged) break;
      if ((double)clock() / CLOCKS_PER_SEC > t0 + 0.9 * RootTimeout) break;
    }
    auto& X = *Best;
    O << "{\"root\":" << jstr(F->getName()) << ",\"accept\":" << (acc ? "true" : "false") << ",\"instructions\":" << nI << ",\"residual_targets\":" << nT
      << ",\"steps\":" << X.res.steps << ",\"queries\":" << X.res.lp << ",\"loops\":" << X.res.loops
      << ",\"exhausted\":" << (X.res.blowup ? "true" : "false") << ",\"reached\":[";
    bool first = true;
    for (auto* I : X.res.reached) {
      StringRef S;
      getConstantStringInfo(cast<CallBase>(I)->getArgOperand(0), S);
      O << (first ? "" : ",") << jstr(S);
      first = false;
    }
    O << "],\"open\":[";
    first = true;
    for (auto& [I, tr] : X.res.open) {
      StringRef S = "valid input is rejected (exception thrown)";
      if (isMarker(*I, "an_violation")) getConstantStringInfo(cast<CallBase>(I)->getArgOperand(0), S);
      O << (first ? "" : ",") << "{\"text\":" << jstr(S) << ",\"at\":" << jstr(locStr(I->getDebugLoc())) << ",\"trace\":[";
      bool f2 = true;
      for (auto& t : tr) { O << (f2 ? "" : ",") << jstr(t); f2 = false; }
      O << "]}";
      first = false;
    }
    O << "],\"functions\":[";
    first = true;
    for (auto& f : Fns[F]) {
      O << (first ? "" : ",") << jstr(f.name + "@" + f.file + ":" + std::to_string(f.line));
      first = false;
    }
    O << "]}\n";
  };
  if (Jobs <= 1) {
    for (auto* F : Roots) analyse(F, outs());
    return 0;
  }
  // one process per root
  outs().flush();
  std::map<pid_t, std::pair<size_t, int>> run;
  std::vector<std::string> result(Roots.size());
  size_t next = 0;
  std::vector<std::string> tmp(Roots.size());
  auto reap = [&] {
    int st;
    pid_t p = wait(&st);
    auto it = run.find(p);
    if (it == run.end()) return;
    size_t i = it->second.first;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      result[i] = "{\"root\":" + jstr(Roots[i]->getName()) + ",\"failed\":true}\n";
    } else {
      auto B = MemoryBuffer::getFile(tmp[i]);
      if (B) result[i] = (*B)->getBuffer().str();
    }
    ::unlink(tmp[i].c_str());
    run.erase(it);
  };
  while (next < Roots.size() || !run.empty()) {
    while (next < Roots.size() && run.size() < Jobs) {
      SmallString<128> Path;
      sys::fs::createTemporaryFile("oblig", "json", Path);
      tmp[next] = std::string(Path);
      pid_t p = fork();
      if (p == 0) {
        alarm(RootTimeout);
        {
          std::error_code EC;
          raw_fd_ostream O(Path, EC);
          analyse(Roots[next], O);
        }
        _exit(0);
      }
      run[p] = {next, 0};
      ++next;
    }
    reap();
  }
  for (auto& r : result) outs() << r;
  return 0;
}
