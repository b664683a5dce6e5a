// irdump: reads LLVM bitcode, promotes stack slots to SSA (sroa / early-cse /
// simplifycfg, no inlining, no fast-math), and prints every function reachable from
// the functions whose name starts with a given prefix as JSON, with all address
// arithmetic resolved to byte offsets.  It decides nothing; vf/*.py analyses the dump.
#include <cstdio>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "llvm/ADT/SmallString.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;
static raw_ostream *OS;
static const DataLayout *DL;
static std::map<const Value *, int> ids;
static std::deque<const GlobalVariable *> gwork;
static std::deque<const Function *> fwork;
static std::set<const GlobalValue *> seen;

static std::string esc(StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o + "\"";
}

static void ty(Type *T) {
  if (T->isVoidTy())
    *OS << "\"v\"";
  else if (T->isIntegerTy())
    *OS << "\"i" << T->getIntegerBitWidth() << "\"";
  else if (T->isFloatTy())
    *OS << "\"f32\"";
  else if (T->isDoubleTy())
    *OS << "\"f64\"";
  else if (T->isX86_FP80Ty())
    *OS << "\"f80\"";
  else if (T->isPointerTy())
    *OS << "\"p\"";
  else if (auto *S = dyn_cast<StructType>(T)) {
    *OS << "[\"s\"," << DL->getTypeAllocSize(S).getFixedValue();
    auto *L = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++) {
      *OS << ",[" << L->getElementOffset(i).getFixedValue() << ",";
      ty(S->getElementType(i));
      *OS << "]";
    }
    *OS << "]";
  } else if (auto *A = dyn_cast<ArrayType>(T)) {
    *OS << "[\"s\"," << DL->getTypeAllocSize(A).getFixedValue();
    auto es = DL->getTypeAllocSize(A->getElementType()).getFixedValue();
    for (unsigned i = 0; i < A->getNumElements(); i++) {
      *OS << ",[" << i * es << ",";
      ty(A->getElementType());
      *OS << "]";
    }
    *OS << "]";
  } else if (auto *V = dyn_cast<FixedVectorType>(T)) {
    *OS << "[\"s\"," << DL->getTypeAllocSize(V).getFixedValue();
    auto es = DL->getTypeAllocSize(V->getElementType()).getFixedValue();
    for (unsigned i = 0; i < V->getNumElements(); i++) {
      *OS << ",[" << i * es << ",";
      ty(V->getElementType());
      *OS << "]";
    }
    *OS << "]";
  } else
    *OS << "\"?\"";
}

static void use(const GlobalValue *G) {
  if (!seen.insert(G).second)
    return;
  if (auto *F = dyn_cast<Function>(G))
    fwork.push_back(F);
  else if (auto *V = dyn_cast<GlobalVariable>(G))
    gwork.push_back(V);
  else if (auto *A = dyn_cast<GlobalAlias>(G))
    if (auto *O = A->getAliaseeObject())
      use(O);
}

static void fpval(const APFloat &f) {
  SmallString<64> s;
  if (f.isFinite()) {
    // exact hex float of the double value
    bool lose;
    APFloat d = f;
    d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
    char b[64];
    snprintf(b, 64, "%a", d.convertToDouble());
    *OS << "\"" << b << "\"";
  } else if (f.isNaN())
    *OS << "\"nan\"";
  else
    *OS << (f.isNegative() ? "\"-inf\"" : "\"inf\"");
}

static void val(const Value *V) {
  if (auto *C = dyn_cast<ConstantInt>(V)) {
    SmallString<40> s;
    C->getValue().toStringSigned(s);
    *OS << "[\"i\"," << s << "]";
  } else if (auto *C = dyn_cast<ConstantFP>(V)) {
    *OS << "[\"f\",";
    fpval(C->getValueAPF());
    *OS << "]";
  } else if (isa<ConstantPointerNull>(V)) {
    *OS << "[\"null\"]";
  } else if (isa<UndefValue>(V)) {
    *OS << "[\"undef\",";
    ty(V->getType());
    *OS << "]";
  } else if (auto *G = dyn_cast<GlobalValue>(V)) {
    if (auto *A = dyn_cast<GlobalAlias>(G))
      if (auto *O = A->getAliaseeObject())
        G = O;
    use(G);
    *OS << "[\"" << (isa<Function>(G) ? "fn" : "g") << "\"," << esc(G->getName()) << "]";
  } else if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (auto *GO = dyn_cast<GEPOperator>(CE)) {
      APInt off(64, 0);
      if (GO->accumulateConstantOffset(*DL, off)) {
        *OS << "[\"cgep\",";
        val(GO->getPointerOperand());
        *OS << "," << off.getSExtValue() << "]";
        return;
      }
    }
    *OS << "[\"ce\"," << esc(CE->getOpcodeName());
    for (auto &o : CE->operands()) {
      *OS << ",";
      val(o);
    }
    *OS << "]";
  } else if (isa<ConstantAggregateZero>(V)) {
    *OS << "[\"zero\",";
    ty(V->getType());
    *OS << "]";
  } else if (auto *CA = dyn_cast<ConstantAggregate>(V)) {
    *OS << "[\"agg\",";
    ty(V->getType());
    for (auto &o : CA->operands()) {
      *OS << ",";
      val(o);
    }
    *OS << "]";
  } else if (auto *CD = dyn_cast<ConstantDataSequential>(V)) {
    if (CD->isString() || (CD->getElementType()->isIntegerTy(8))) {
      *OS << "[\"str\"," << esc(CD->getRawDataValues()) << "]";
    } else {
      *OS << "[\"agg\",";
      ty(V->getType());
      for (unsigned i = 0; i < CD->getNumElements(); i++) {
        *OS << ",";
        val(CD->getElementAsConstant(i));
      }
      *OS << "]";
    }
  } else if (ids.count(V)) {
    *OS << "[\"v\"," << ids[V] << "]";
  } else {
    *OS << "[\"unk\"]";
  }
}

static std::map<std::pair<const DIScope *, int>, int> locs;
static std::vector<std::string> loctab;
static int loc(const DebugLoc &L) {
  if (!L)
    return 0;
  auto *s = cast<DIScope>(L.getScope());
  auto k = std::make_pair((const DIScope *)s, (int)L.getLine());
  auto it = locs.find(k);
  if (it != locs.end())
    return it->second;
  std::string f = s->getFilename().str();
  std::string d = s->getDirectory().str();
  if (!f.empty() && f[0] != '/')
    f = d + "/" + f;
  loctab.push_back(f + ":" + std::to_string(L.getLine()));
  return locs[k] = loctab.size();
}

static void ops(const User &I) {
  bool first = true;
  for (auto &o : I.operands()) {
    if (!first)
      *OS << ",";
    first = false;
    val(o);
  }
}

static void inst(const Instruction &I, std::map<const BasicBlock *, int> &bb) {
  *OS << "[\"" << I.getOpcodeName() << "\"," << (ids.count(&I) ? ids[&I] : -1) << ",";
  *OS << loc(I.getDebugLoc()) << ",";
  if (auto *A = dyn_cast<AllocaInst>(&I)) {
    auto sz = DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue();
    *OS << sz << ",";
    val(A->getArraySize());
  } else if (auto *L = dyn_cast<LoadInst>(&I)) {
    ty(L->getType());
    *OS << ",";
    val(L->getPointerOperand());
  } else if (auto *S = dyn_cast<StoreInst>(&I)) {
    ty(S->getValueOperand()->getType());
    *OS << ",";
    val(S->getValueOperand());
    *OS << ",";
    val(S->getPointerOperand());
  } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
    MapVector<Value *, APInt> vo;
    APInt co(64, 0);
    cast<GEPOperator>(G)->collectOffset(*DL, 64, vo, co);
    val(G->getPointerOperand());
    *OS << "," << co.getSExtValue() << ",[";
    bool f = true;
    for (auto &p : vo) {
      if (!f)
        *OS << ",";
      f = false;
      *OS << "[";
      val(p.first);
      *OS << "," << p.second.getSExtValue() << "]";
    }
    *OS << "]";
  } else if (auto *P = dyn_cast<PHINode>(&I)) {
    ty(P->getType());
    for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
      *OS << ",[" << bb[P->getIncomingBlock(i)] << ",";
      val(P->getIncomingValue(i));
      *OS << "]";
    }
  } else if (auto *B = dyn_cast<BranchInst>(&I)) {
    if (B->isConditional()) {
      val(B->getCondition());
      *OS << "," << bb[B->getSuccessor(0)] << "," << bb[B->getSuccessor(1)];
    } else
      *OS << "null," << bb[B->getSuccessor(0)];
  } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
    val(S->getCondition());
    *OS << "," << bb[S->getDefaultDest()];
    for (auto &c : S->cases()) {
      *OS << ",[" << c.getCaseValue()->getSExtValue() << "," << bb[c.getCaseSuccessor()] << "]";
    }
  } else if (auto *C = dyn_cast<CallBase>(&I)) {
    ty(C->getType());
    *OS << ",";
    val(C->getCalledOperand());
    *OS << ",[";
    bool f = true;
    for (auto &a : C->args()) {
      if (!f)
        *OS << ",";
      f = false;
      if (a->getType()->isMetadataTy())
        *OS << "[\"md\"]";
      else
        val(a);
    }
    *OS << "]";
    if (auto *V = dyn_cast<InvokeInst>(C))
      *OS << "," << bb[V->getNormalDest()] << "," << bb[V->getUnwindDest()];
  } else if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
    val(E->getAggregateOperand());
    *OS << ",[";
    for (unsigned i = 0; i < E->getNumIndices(); i++)
      *OS << (i ? "," : "") << E->getIndices()[i];
    *OS << "]";
  } else if (auto *E = dyn_cast<InsertValueInst>(&I)) {
    val(E->getAggregateOperand());
    *OS << ",";
    val(E->getInsertedValueOperand());
    *OS << ",[";
    for (unsigned i = 0; i < E->getNumIndices(); i++)
      *OS << (i ? "," : "") << E->getIndices()[i];
    *OS << "]";
  } else if (auto *C = dyn_cast<CmpInst>(&I)) {
    *OS << "\"" << CmpInst::getPredicateName(C->getPredicate()) << "\",";
    ty(C->getOperand(0)->getType());
    *OS << ",";
    ops(I);
  } else if (auto *C = dyn_cast<CastInst>(&I)) {
    ty(C->getSrcTy());
    *OS << ",";
    ty(C->getDestTy());
    *OS << ",";
    ops(I);
  } else if (auto *L = dyn_cast<LandingPadInst>(&I)) {
    *OS << (L->isCleanup() ? 1 : 0) << "," << L->getNumClauses();
  } else {
    ty(I.getType());
    if (I.getNumOperands()) {
      *OS << ",";
      bool bad = false;
      for (auto &o : I.operands())
        if (isa<BasicBlock>(o))
          bad = true;
      if (!bad)
        ops(I);
    }
  }
  *OS << "]";
}

int main(int argc, char **argv) {
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) {
    Err.print(argv[0], errs());
    return 2;
  }
  std::string prefix = argv[2];
  std::string passes = argc > 4 ? argv[4] : "function(sroa,early-cse,simplifycfg)";
  std::error_code EC;
  raw_fd_ostream out(argv[3], EC);
  OS = &out;
  if (passes != "none") {
    PassBuilder PB;
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, passes)) {
      errs() << toString(std::move(e)) << "\n";
      return 2;
    }
    MPM.run(*M, MAM);
  }
  DL = &M->getDataLayout();
  out << "{\"functions\":{";
  for (auto &F : *M)
    if (!F.isDeclaration() && F.getName().starts_with(prefix))
      use(&F);
  bool ff = true;
  auto dumpfuncs = [&]() {
  while (!fwork.empty()) {
    auto *F = fwork.front();
    fwork.pop_front();
    if (!ff)
      out << ",\n";
    ff = false;
    out << esc(F->getName()) << ":{\"dem\":" << esc(demangle(F->getName().str()))
        << ",\"decl\":" << (F->isDeclaration() ? 1 : 0);
    if (auto *SP = F->getSubprogram()) {
      std::string f = SP->getFilename().str();
      if (!f.empty() && f[0] != '/')
        f = SP->getDirectory().str() + "/" + f;
      out << ",\"file\":" << esc(f) << ",\"line\":" << SP->getLine();
    }
    out << ",\"ret\":";
    ty(F->getReturnType());
    ids.clear();
    int n = 0;
    out << ",\"args\":[";
    for (auto &A : F->args()) {
      ids[&A] = n++;
      if (n > 1)
        out << ",";
      out << "[";
      ty(A.getType());
      out << "," << (A.hasByValAttr() ? (int)DL->getTypeAllocSize(A.getParamByValType()) : 0) << "]";
    }
    out << "]";
    if (!F->isDeclaration()) {
      std::map<const BasicBlock *, int> bb;
      int b = 0;
      for (auto &B : *F) {
        bb[&B] = b++;
        for (auto &I : B)
          if (!I.getType()->isVoidTy())
            ids[&I] = n++;
      }
      out << ",\"nvals\":" << n << ",\"blocks\":[";
      bool fb = true;
      for (auto &B : *F) {
        if (!fb)
          out << ",\n";
        fb = false;
        out << "[";
        bool fi = true;
        for (auto &I : B) {
          if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
            auto id = II->getIntrinsicID();
            if (id == Intrinsic::dbg_value || id == Intrinsic::dbg_declare ||
                id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end ||
                id == Intrinsic::dbg_label || id == Intrinsic::dbg_assign ||
                id == Intrinsic::invariant_start || id == Intrinsic::experimental_noalias_scope_decl)
              continue;
          }
          if (!fi)
            out << ",";
          fi = false;
          inst(I, bb);
        }
        out << "]";
      }
      out << "]";
    }
    out << "}";
  }
  };
  dumpfuncs();
  out << "},\n\"globals\":{";
  bool fg = true;
  while (!gwork.empty()) {
    auto *G = gwork.front();
    gwork.pop_front();
    if (!fg)
      out << ",\n";
    fg = false;
    out << esc(G->getName()) << ":{\"dem\":" << esc(demangle(G->getName().str()))
        << ",\"const\":" << (G->isConstant() ? 1 : 0)
        << ",\"size\":" << (G->getValueType()->isSized() ? (long)DL->getTypeAllocSize(G->getValueType()) : 0)
        << ",\"tls\":" << (G->isThreadLocal() ? 1 : 0) << ",\"ty\":";
    ty(G->getValueType());
    if (G->hasInitializer() && G->isConstant()) {
      out << ",\"init\":";
      val(G->getInitializer());
    }
    // functions referenced only from initialisers are not pulled in for non-constant globals
    out << "}";
  }
  out << "},\n\"mutable_globals\":[";
  bool f1 = true;
  for (auto &G : M->globals()) {
    if (G.isConstant() || G.getName().starts_with("llvm."))
      continue;
    if (!f1)
      out << ",";
    f1 = false;
    out << esc(demangle(G.getName().str()));
  }
  out << "],\n\"functions2\":{";
  ff = true;
  dumpfuncs();
  out << "},\n\"locs\":[\"?\"";
  for (auto &l : loctab)
    out << "," << esc(l);
  out << "]}\n";
  return 0;
}
