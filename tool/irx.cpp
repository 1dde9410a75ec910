// irx: static IR extractor.
//
// Reads LLVM bitcode compiled from /repo's sources (nothing is executed),
// normalises it with ordinary compiler passes under an inlining policy, and
// writes the resulting functions (SSA instructions, control flow, loop and
// scalar-evolution facts, debug types, constant globals) as JSON for the rule
// engine in elcheck/.
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"

#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::desc("<bc...>"));
static cl::opt<std::string> OutFile("o", cl::desc("output json"));
static cl::opt<std::string> Policy("policy", cl::desc("policy file"));
static cl::opt<std::string> Passes("elpasses", cl::desc("pipeline override"));
static cl::opt<std::string> RepoPrefix("repo", cl::init("/repo/"));
static cl::opt<bool> NoScev("noscev");
static cl::opt<std::string> LLOut("ll", cl::desc("also write normalised IR text"));

struct Rule { std::string Verb; std::string Pat; std::unique_ptr<Regex> Re; };
static std::vector<Rule> Rules;

static void loadPolicy() {
  if (Policy.empty()) return;
  std::ifstream f(Policy);
  std::string line;
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#') continue;
    auto p = line.find(' ');
    if (p == std::string::npos) continue;
    Rule r;
    r.Verb = line.substr(0, p);
    r.Pat = line.substr(p + 1);
    r.Re = std::make_unique<Regex>(r.Pat);
    std::string err;
    if (!r.Re->isValid(err)) { errs() << "bad regex " << r.Pat << ": " << err << "\n"; exit(3); }
    Rules.push_back(std::move(r));
  }
}

// Qualified name without template arguments, parameters and return type.
static std::string stripName(StringRef S) {
  static const char *Ops[] = {"operator<<=", "operator>>=", "operator<=>", "operator->*", "operator<<", "operator>>",
    "operator<=", "operator>=", "operator->", "operator<", "operator>", "operator()"};
  std::string t = S.str();
  for (int i = 0; i < 12; ++i) { size_t p; std::string o = Ops[i]; while ((p = t.find(o)) != std::string::npos) t.replace(p, o.size(), std::string("\x01") + char('a' + i)); }
  { size_t p; while ((p = t.find("(anonymous namespace)")) != std::string::npos) t.replace(p, 21, "{anon}"); }
  std::string out; int d = 0, par = 0;
  for (size_t i = 0; i < t.size(); ++i) { char c = t[i];
    if (c == '<') ++d; else if (c == '>') --d; else if (d == 0) { if (c == '(') ++par; else if (c == ')') { --par; } else if (par == 0) out += c; } }
  for (int i = 0; i < 12; ++i) { size_t p; std::string k = std::string("\x01") + char('a' + i); while ((p = out.find(k)) != std::string::npos) out.replace(p, 2, Ops[i]); }
  while (StringRef(out).ends_with(" const")) out.resize(out.size() - 6);
  if (out.find("operator ") == std::string::npos) { size_t p = out.rfind(' '); if (p != std::string::npos) out = out.substr(p + 1); }
  for (auto k : {"__cxx11::", "[abi:cxx11]"}) { size_t p; while ((p = out.find(k)) != std::string::npos) out.erase(p, strlen(k)); }
  return out;
}

// First matching rule of the given verbs wins (file order).  Rules match the
// stripped qualified name; with the prefix "full:" the whole demangled name.
static std::string firstVerb(StringRef Name, std::initializer_list<const char *> Verbs) {
  static std::map<std::string, std::string> SC;
  auto it = SC.find(Name.str());
  if (it == SC.end()) it = SC.emplace(Name.str(), stripName(Name)).first;
  for (auto &r : Rules) {
    bool ok = false, full = false; StringRef v = r.Verb;
    if (v.consume_front("full:")) full = true;
    for (auto x : Verbs) if (v == x) ok = true;
    if (ok && r.Re->match(full ? Name : StringRef(it->second))) return v.str();
  }
  return "";
}

static std::map<std::string, std::string> DemCache;
static const std::string &dem(StringRef n) {
  auto it = DemCache.find(n.str());
  if (it != DemCache.end()) return it->second;
  return DemCache[n.str()] = demangle(n.str());
}

static std::string filePath(const DIFile *F) {
  if (!F) return "";
  std::string f = F->getFilename().str();
  if (!f.empty() && f[0] == '/') return f;
  return F->getDirectory().str() + "/" + f;
}

static bool isRepo(const Function &F) {
  // initialisers of namespace-scope objects belong to the analysed unit
  if (F.getName().starts_with("__cxx_global_var_init")) return true;
  if (auto *SP = F.getSubprogram()) {
    std::string p = filePath(SP->getFile());
    return StringRef(p).starts_with(RepoPrefix);
  }
  return false;
}

static std::string typeStr(Type *T) {
  std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str();
}

// ---- debug types -----------------------------------------------------------
static std::string scopeName(const DIScope *S) {
  if (!S || isa<DIFile>(S) || isa<DICompileUnit>(S)) return "";
  std::string p = scopeName(S->getScope());
  std::string n = S->getName().str();
  if (n.empty() && isa<DINamespace>(S)) n = "(anon)";
  return p.empty() ? n : p + "::" + n;
}
static std::string diName(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 12) return "?";
  if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) return diName(C->getBaseType(), depth + 1) + "[]";
    std::string n = scopeName(C);
    if (C->getName().empty() && C->getIdentifier().size()) n += "#" + C->getIdentifier().str();
    return n;
  }
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_typedef: return diName(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_const_type: return "const " + diName(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_volatile_type: return "volatile " + diName(D->getBaseType(), depth + 1);
    case dwarf::DW_TAG_pointer_type: return diName(D->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_reference_type: return diName(D->getBaseType(), depth + 1) + "&";
    case dwarf::DW_TAG_rvalue_reference_type: return diName(D->getBaseType(), depth + 1) + "&&";
    default: return diName(D->getBaseType(), depth + 1);
    }
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return "?";
}

static json::Array dbgLoc(const DebugLoc &DL) {
  json::Array a;
  for (const DILocation *L = DL.get(); L; L = L->getInlinedAt()) {
    auto *SP = L->getScope()->getSubprogram();
    a.push_back(json::Array{(int64_t)L->getLine(), filePath(L->getFile()),
                            SP ? scopeName(SP) : std::string()});
  }
  return a;
}

// ---- values ----------------------------------------------------------------
struct FnCtx {
  DenseMap<const Value *, int64_t> Ids;
  DenseMap<const BasicBlock *, int64_t> Blocks;
  const DataLayout *DL;
};
static std::set<const GlobalVariable *> UsedGlobals;
static std::set<std::string> UsedNames;

static json::Value ref(const Value *V, FnCtx &C) {
  auto it = C.Ids.find(V);
  if (it != C.Ids.end() && isa<Instruction>(V)) return it->second;
  if (auto *A = dyn_cast<Argument>(V)) return json::Array{"a", (int64_t)A->getArgNo()};
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    if (CI->getBitWidth() <= 64)
      return json::Array{"c", CI->getSExtValue(), (int64_t)CI->getBitWidth()};
    SmallString<64> s; CI->getValue().toStringSigned(s);
    return json::Array{"C", std::string(s.str()), (int64_t)CI->getBitWidth()};
  }
  if (auto *CF = dyn_cast<ConstantFP>(V)) {
    SmallString<64> s; CF->getValueAPF().toString(s, 0, 0, false);
    std::string str(s.str());
    return json::Array{"f", str};
  }
  if (isa<ConstantPointerNull>(V)) return json::Array{"n"};
  if (isa<UndefValue>(V)) return json::Array{"u"};
  if (isa<ConstantAggregateZero>(V)) return json::Array{"z"};
  if (auto *F = dyn_cast<Function>(V)) { UsedNames.insert(F->getName().str()); return json::Array{"fn", F->getName().str()}; }
  if (auto *G = dyn_cast<GlobalVariable>(V)) { UsedGlobals.insert(G); return json::Array{"g", G->getName().str()}; }
  if (auto *A = dyn_cast<GlobalAlias>(V)) return ref(A->getAliasee(), C);
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (auto *GO = dyn_cast<GEPOperator>(CE)) {
      APInt off(64, 0);
      if (GO->accumulateConstantOffset(*C.DL, off))
        return json::Array{"ge", ref(GO->getPointerOperand(), C), off.getSExtValue()};
    }
    json::Array ops; for (auto &o : CE->operands()) ops.push_back(ref(o.get(), C));
    return json::Array{"ce", CE->getOpcodeName(), std::move(ops)};
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(V)) {
    json::Array ops; for (auto &o : CA->operands()) ops.push_back(ref(o.get(), C));
    return json::Array{"agg", std::move(ops)};
  }
  if (auto *CDS = dyn_cast<ConstantDataSequential>(V)) {
    json::Array ops; for (unsigned i = 0; i < CDS->getNumElements(); ++i) ops.push_back(ref(CDS->getElementAsConstant(i), C));
    return json::Array{"agg", std::move(ops)};
  }
  if (auto *BB = dyn_cast<BasicBlock>(V)) return json::Array{"b", C.Blocks[BB]};
  return json::Array{"?"};
}

static json::Value scev(const SCEV *S, FnCtx &C, int depth = 0) {
  if (depth > 24) return json::Array{"deep"};
  auto nary = [&](const char *k, const SCEVNAryExpr *N) {
    json::Array a{k}; for (auto *o : N->operands()) a.push_back(scev(o, C, depth + 1)); return a; };
  switch (S->getSCEVType()) {
  case scConstant: return json::Array{"c", cast<SCEVConstant>(S)->getAPInt().getSExtValue(), (int64_t)cast<SCEVConstant>(S)->getAPInt().getBitWidth()};
  case scVScale: return json::Array{"?"};
  case scTruncate: return json::Array{"trunc", scev(cast<SCEVCastExpr>(S)->getOperand(), C, depth + 1), typeStr(S->getType())};
  case scZeroExtend: return json::Array{"zext", scev(cast<SCEVCastExpr>(S)->getOperand(), C, depth + 1), typeStr(S->getType())};
  case scSignExtend: return json::Array{"sext", scev(cast<SCEVCastExpr>(S)->getOperand(), C, depth + 1), typeStr(S->getType())};
  case scPtrToInt: return json::Array{"ptrtoint", scev(cast<SCEVCastExpr>(S)->getOperand(), C, depth + 1)};
  case scAddExpr: return nary("add", cast<SCEVNAryExpr>(S));
  case scMulExpr: return nary("mul", cast<SCEVNAryExpr>(S));
  case scUDivExpr: return json::Array{"udiv", scev(cast<SCEVUDivExpr>(S)->getLHS(), C, depth + 1), scev(cast<SCEVUDivExpr>(S)->getRHS(), C, depth + 1)};
  case scAddRecExpr: {
    auto *A = cast<SCEVAddRecExpr>(S);
    json::Array a{"rec", C.Blocks[A->getLoop()->getHeader()]};
    for (auto *o : A->operands()) a.push_back(scev(o, C, depth + 1));
    return a; }
  case scUMaxExpr: return nary("umax", cast<SCEVNAryExpr>(S));
  case scSMaxExpr: return nary("smax", cast<SCEVNAryExpr>(S));
  case scUMinExpr: return nary("umin", cast<SCEVNAryExpr>(S));
  case scSMinExpr: return nary("smin", cast<SCEVNAryExpr>(S));
  case scSequentialUMinExpr: return nary("umin", cast<SCEVNAryExpr>(S));
  case scUnknown: return json::Array{"v", ref(cast<SCEVUnknown>(S)->getValue(), C)};
  case scCouldNotCompute: return json::Array{"cnc"};
  }
  return json::Array{"?"};
}

static json::Object dumpInst(const Instruction &I, FnCtx &C) {
  json::Object o;
  o["i"] = C.Ids[&I];
  o["op"] = I.getOpcodeName();
  o["t"] = typeStr(I.getType());
  if (I.getDebugLoc()) o["d"] = dbgLoc(I.getDebugLoc());
  auto ops = [&] { json::Array a; for (auto &u : I.operands()) a.push_back(ref(u.get(), C)); return a; };
  if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
    MapVector<Value *, APInt> Var; APInt Off(64, 0);
    o["op"] = "gep";
    o["base"] = ref(G->getPointerOperand(), C);
    o["src"] = typeStr(G->getSourceElementType());
    if (G->collectOffset(*C.DL, 64, Var, Off)) {
      o["off"] = Off.getSExtValue();
      json::Array v; for (auto &p : Var) v.push_back(json::Array{ref(p.first, C), p.second.getSExtValue()});
      o["var"] = std::move(v);
    } else o["off"] = nullptr;
    return o;
  }
  if (auto *P = dyn_cast<PHINode>(&I)) {
    json::Array a; for (unsigned k = 0; k < P->getNumIncomingValues(); ++k)
      a.push_back(json::Array{ref(P->getIncomingValue(k), C), C.Blocks[P->getIncomingBlock(k)]});
    o["in"] = std::move(a); return o;
  }
  if (auto *B = dyn_cast<BranchInst>(&I)) {
    if (B->isConditional()) o["cond"] = ref(B->getCondition(), C);
    json::Array s; for (unsigned k = 0; k < B->getNumSuccessors(); ++k) s.push_back(C.Blocks[B->getSuccessor(k)]); o["succ"] = std::move(s); return o;
  }
  if (auto *S = dyn_cast<SwitchInst>(&I)) {
    o["cond"] = ref(S->getCondition(), C);
    json::Array cs; for (auto &c : S->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), C.Blocks[c.getCaseSuccessor()]});
    o["cases"] = std::move(cs); o["default"] = C.Blocks[S->getDefaultDest()];
    json::Array s; s.push_back(C.Blocks[S->getDefaultDest()]); for (auto &c : S->cases()) s.push_back(C.Blocks[c.getCaseSuccessor()]);
    o["succ"] = std::move(s); return o;
  }
  if (auto *CB = dyn_cast<CallBase>(&I)) {
    if (auto *F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) {
      o["callee"] = F->getName().str(); UsedNames.insert(F->getName().str());
    } else if (auto *GA = dyn_cast<GlobalAlias>(CB->getCalledOperand()->stripPointerCasts())) {
      auto *AF = GA->getAliaseeObject(); o["callee"] = AF->getName().str(); UsedNames.insert(AF->getName().str());
    } else o["fptr"] = ref(CB->getCalledOperand(), C);
    json::Array a; bool sret = false;
    for (unsigned k = 0; k < CB->arg_size(); ++k) {
      auto *V = CB->getArgOperand(k);
      if (isa<MetadataAsValue>(V)) { a.push_back(json::Array{"m"}); continue; }
      a.push_back(ref(V, C)); if (k == 0 && CB->paramHasAttr(k, Attribute::StructRet)) sret = true;
    }
    o["args"] = std::move(a); if (sret) o["sret"] = true;
    if (CB->doesNotReturn()) o["noret"] = true;
    if (CB->doesNotAccessMemory()) o["mem"] = "none"; else if (CB->onlyReadsMemory()) o["mem"] = "read";
    if (auto *II = dyn_cast<InvokeInst>(&I)) {
      o["succ"] = json::Array{C.Blocks[II->getNormalDest()], C.Blocks[II->getUnwindDest()]};
    }
    return o;
  }
  if (auto *CI = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(CI->getPredicate()).str(); o["o"] = ops(); return o; }
  if (auto *A = dyn_cast<AllocaInst>(&I)) { o["at"] = typeStr(A->getAllocatedType());
    if (auto sz = A->getAllocationSize(*C.DL)) o["size"] = (int64_t)sz->getFixedValue(); return o; }
  if (auto *LP = dyn_cast<LandingPadInst>(&I)) { o["cleanup"] = LP->isCleanup();
    json::Array a; for (unsigned k = 0; k < LP->getNumClauses(); ++k) a.push_back(ref(LP->getClause(k), C)); o["clauses"] = std::move(a); return o; }
  if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (auto k : E->indices()) x.push_back((int64_t)k); o["idx"] = std::move(x); }
  if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array x; for (auto k : E->indices()) x.push_back((int64_t)k); o["idx"] = std::move(x); }
  if (isa<CastInst>(&I)) o["from"] = typeStr(I.getOperand(0)->getType());
  if (auto *S = dyn_cast<StoreInst>(&I)) o["vt"] = typeStr(S->getValueOperand()->getType());
  if (I.isTerminator()) { json::Array s; for (unsigned k = 0; k < I.getNumSuccessors(); ++k) s.push_back(C.Blocks[I.getSuccessor(k)]); o["succ"] = std::move(s); }
  o["o"] = ops();
  return o;
}

static json::Value constInit(const Constant *K, const DataLayout &DL, int depth = 0) {
  if (depth > 6) return nullptr;
  if (auto *S = dyn_cast<ConstantDataSequential>(K)) {
    if (S->isString() || S->isCString()) {
      json::Array bytes; for (unsigned char c : S->getRawDataValues()) bytes.push_back((int64_t)c);
      return json::Object{{"bytes", std::move(bytes)}};
    }
    json::Array a; for (unsigned i = 0; i < S->getNumElements(); ++i) a.push_back(constInit(S->getElementAsConstant(i), DL, depth + 1));
    return a;
  }
  if (auto *CI = dyn_cast<ConstantInt>(K)) { if (CI->getBitWidth() <= 64) return CI->getSExtValue(); return nullptr; }
  if (auto *CF = dyn_cast<ConstantFP>(K)) { SmallString<64> s; CF->getValueAPF().toString(s, 0, 0, false); return json::Object{{"fp", std::string(s.str())}}; }
  if (isa<ConstantPointerNull>(K) || isa<UndefValue>(K)) return nullptr;
  if (isa<ConstantAggregateZero>(K)) return json::Object{{"zero", true}};
  if (auto *A = dyn_cast<ConstantAggregate>(K)) { json::Array a; for (auto &o : A->operands()) a.push_back(constInit(cast<Constant>(o.get()), DL, depth + 1)); return a; }
  if (auto *G = dyn_cast<GlobalValue>(K)) { if (auto *GV = dyn_cast<GlobalVariable>(G)) UsedGlobals.insert(GV); else UsedNames.insert(G->getName().str());
    return json::Object{{"ref", G->getName().str()}}; }
  if (auto *CE = dyn_cast<ConstantExpr>(K)) {
    if (auto *GO = dyn_cast<GEPOperator>(CE)) { APInt off(64, 0); if (GO->accumulateConstantOffset(DL, off)) {
        if (auto *GV = dyn_cast<GlobalVariable>(GO->getPointerOperand())) { UsedGlobals.insert(GV); return json::Object{{"ref", GV->getName().str()}, {"off", off.getSExtValue()}}; } } }
  }
  return nullptr;
}

// A local std::function that is only ever given one target: its invoker and manager are known wherever they are read.
static void knownCallbacks(Function &F) {
  if (F.isDeclaration()) return;
  const DataLayout &DL = F.getParent()->getDataLayout();
  for (auto &I : instructions(F)) {
    auto *A = dyn_cast<AllocaInst>(&I);
    if (!A || !A->isStaticAlloca() || DL.getTypeAllocSize(A->getAllocatedType()) != 32) continue;
    std::map<int64_t, std::set<Function*>> to; std::map<int64_t, std::vector<LoadInst*>> ld; std::set<int64_t> other;
    std::vector<std::pair<Value*, int64_t>> work{{A, 0}};
    while (!work.empty()) {
      auto [v, off] = work.back(); work.pop_back();
      for (auto *U : v->users()) {
        if (auto *G = dyn_cast<GetElementPtrInst>(U)) { APInt o(64, 0); if (G->accumulateConstantOffset(DL, o)) work.push_back({G, off + o.getSExtValue()}); }
        else if (auto *L = dyn_cast<LoadInst>(U)) ld[off].push_back(L);
        else if (auto *S = dyn_cast<StoreInst>(U)) {
          if (S->getValueOperand() == v) { other.insert(16); other.insert(24); continue; }
          if (auto *K = dyn_cast<Function>(S->getValueOperand())) to[off].insert(K);
          else if (!isa<ConstantPointerNull>(S->getValueOperand())) other.insert(off);
        }
      }
    }
    if (to[24].size() != 1 || to[16].size() != 1 || other.count(16) || other.count(24)) continue;
    if ((*to[24].begin())->getName().find("_Function_handler") == StringRef::npos) continue;
    for (int64_t o : {16, 24}) for (auto *L : ld[o]) if (L->getType()->isPointerTy()) L->replaceAllUsesWith(*to[o].begin());
  }
}

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  loadPolicy();
  LLVMContext Ctx;
  std::unique_ptr<Module> M;
  for (auto &in : Inputs) {
    SMDiagnostic Err;
    auto N = parseIRFile(in, Err, Ctx);
    if (!N) { Err.print("irx", errs()); return 3; }
    if (!M) M = std::move(N);
    else if (Linker::linkModules(*M, std::move(N), Linker::OverrideFromSrc)) return 3;
  }
  if (!M) return 3;
  if (auto *U = M->getNamedGlobal("llvm.used")) U->eraseFromParent();
  if (auto *U = M->getNamedGlobal("llvm.compiler.used")) U->eraseFromParent();

  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);

  // Inlining policy: repository functions are inlined everywhere (unless they
  // are listed opaque); library functions become declarations unless listed.
  std::set<std::string> Export;
  for (auto &F : *M) {
    std::string d = dem(F.getName());
    bool repo = isRepo(F);
    std::string v = firstVerb(d, {"inline", "opaque"});
    std::string p = firstVerb(d, {"pure", "readnone", "nounwind", "impure"});
    if (F.isIntrinsic()) continue;
    if (!F.isDeclaration()) {
      bool drop = firstVerb(d, {"drop"}) == "drop";
      F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
      if (drop) { F.deleteBody(); F.setComdat(nullptr); }
      else if (v == "opaque" || (v.empty() && !repo)) {
        if (repo) { F.addFnAttr(Attribute::NoInline); Export.insert(F.getName().str()); }
        else { F.deleteBody(); F.setComdat(nullptr); }
      } else {
        F.addFnAttr(Attribute::AlwaysInline);
        if (repo || firstVerb(d, {"export"}) == "export") Export.insert(F.getName().str());
      }
    }
    if (Export.count(F.getName().str())) { F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
    if (p == "pure") { F.setMemoryEffects(MemoryEffects::argMemOnly(ModRefInfo::Ref)); F.setDoesNotThrow(); F.setWillReturn(); F.removeFnAttr(Attribute::NoReturn); }
    if (p == "readnone") { F.setMemoryEffects(MemoryEffects::none()); F.setDoesNotThrow(); F.setWillReturn(); }
    if (p == "nounwind") F.setDoesNotThrow();
    for (auto &A : F.args()) { A.removeAttr(Attribute::NonNull); A.removeAttr(Attribute::NoUndef); }
  }
  std::string pipe = Passes.empty()
    ? std::string("function(sroa,early-cse,simplifycfg),always-inline,"
                  "function(sroa,early-cse<memssa>,simplifycfg,instsimplify,sroa,"
                  "loop-mssa(licm),gvn,simplifycfg,loop-simplify,lcssa,loop(indvars),"
                  "early-cse<memssa>,adce,simplifycfg,loop-simplify)")
    : Passes.getValue();
  SmallVector<StringRef, 8> parts; StringRef(pipe).split(parts, "|");
  if (parts.size() > 1) for (auto &G : M->globals()) {
    // a repository global that nothing writes keeps its initial value
    if (!G.hasInitializer() || G.isConstant() || dem(G.getName()).rfind("EdgeLearning::", 0)) continue;
    bool ro = true; for (auto *U : G.users()) if (!isa<LoadInst>(U)) ro = false;
    if (ro) { G.setConstant(true); G.setLinkage(GlobalValue::InternalLinkage); }
  }
  for (auto part : parts) {
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, part)) { errs() << toString(std::move(E)) << "\n"; return 3; }
    MPM.run(*M, MAM);
    if (parts.size() > 1) { for (auto &F : *M) knownCallbacks(F); MAM.clear(); FAM.clear(); CGAM.clear(); LAM.clear(); }
  }

  if (!LLOut.empty()) { std::error_code E; raw_fd_ostream o(LLOut, E); M->print(o, nullptr); }
  json::Object Out; json::Object Fns;
  for (auto &F : *M) {
    if (F.isDeclaration() || !Export.count(F.getName().str())) continue;
    FnCtx C; C.DL = &M->getDataLayout();
    int64_t id = 0, b = 0;
    for (auto &BB : F) { C.Blocks[&BB] = b++; for (auto &I : BB) C.Ids[&I] = id++; }
    json::Object fo; fo["name"] = dem(F.getName()); fo["repo"] = isRepo(F);
    if (auto *SP = F.getSubprogram()) {
      fo["file"] = filePath(SP->getFile()); fo["line"] = (int64_t)SP->getLine();
      fo["qname"] = scopeName(SP); fo["short"] = SP->getName().str();
      if (SP->isPrivate() || (SP->getDeclaration() && SP->getDeclaration()->isPrivate())) fo["access"] = "private";
      else if (SP->isProtected() || (SP->getDeclaration() && SP->getDeclaration()->isProtected())) fo["access"] = "protected";
      auto *D = SP->getDeclaration() ? SP->getDeclaration() : SP;
      fo["virtual"] = D->getVirtuality() != 0;
      fo["scope"] = scopeName(D->getScope());
      json::Array ps; if (SP->getType()) for (auto *t : SP->getType()->getTypeArray()) ps.push_back(diName(t));
      fo["ditypes"] = std::move(ps);
    }
    json::Array args; for (auto &A : F.args()) {
      args.push_back(json::Object{{"name", A.getName().str()}, {"t", typeStr(A.getType())}, {"sret", A.hasStructRetAttr()}, {"byval", A.hasByValAttr()}}); }
    fo["args"] = std::move(args); fo["ret"] = typeStr(F.getReturnType());
    fo["linkage"] = (int64_t)F.getLinkage();
    json::Array vars; // local variables of this function (debug declares)
    json::Array blocks;
    for (auto &BB : F) {
      json::Object bo; bo["b"] = C.Blocks[&BB]; json::Array is;
      for (auto &I : BB) {
        if (auto *DD = dyn_cast<DbgVariableIntrinsic>(&I)) {
          if (isa<DbgDeclareInst>(&I)) { if (auto *A = DD->getVariableLocationOp(0)) if (C.Ids.count(A))
              vars.push_back(json::Array{C.Ids[A], DD->getVariable()->getName().str(), diName(DD->getVariable()->getType())}); }
          continue; }
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID();
          if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::assume) continue; }
        is.push_back(dumpInst(I, C));
      }
      bo["is"] = std::move(is); blocks.push_back(std::move(bo));
    }
    fo["blocks"] = std::move(blocks); fo["vars"] = std::move(vars);
    if (!NoScev) {
      auto &LI = FAM.getResult<LoopAnalysis>(F); auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
      json::Array loops;
      for (auto *L : LI.getLoopsInPreorder()) {
        json::Object lo; lo["header"] = C.Blocks[L->getHeader()];
        lo["parent"] = L->getParentLoop() ? json::Value(C.Blocks[L->getParentLoop()->getHeader()]) : json::Value(nullptr);
        json::Array bs; for (auto *bb : L->blocks()) bs.push_back(C.Blocks[bb]); lo["blocks"] = std::move(bs);
        SmallVector<BasicBlock *, 8> ex; L->getExitingBlocks(ex); json::Array es;
        for (auto *e : ex) { json::Array item{C.Blocks[e]}; item.push_back(scev(SE.getExitCount(L, e), C)); es.push_back(std::move(item)); }
        lo["exiting"] = std::move(es); lo["btc"] = scev(SE.getBackedgeTakenCount(L), C); loops.push_back(std::move(lo));
      }
      if (!loops.empty()) {
        json::Object sc;
        for (auto &BB : F) for (auto &I : BB) {
          if (isa<DbgInfoIntrinsic>(&I)) continue;
          if (SE.isSCEVable(I.getType()) && LI.getLoopFor(&BB)) { auto *S = SE.getSCEV(&I); if (!isa<SCEVUnknown>(S) || cast<SCEVUnknown>(S)->getValue() != &I) sc[std::to_string(C.Ids[&I])] = scev(S, C); } }
        fo["scev"] = std::move(sc);
      }
      fo["loops"] = std::move(loops);
    }
    UsedNames.insert(F.getName().str());
    Fns[F.getName()] = std::move(fo);
  }
  Out["functions"] = std::move(Fns);

  // Debug types of the repository's namespace.
  json::Object Types; DebugInfoFinder DIF; DIF.processModule(*M);
  for (auto *T : DIF.types()) {
    auto *C = dyn_cast<DICompositeType>(T); if (!C || C->isForwardDecl()) continue;
    std::string n = diName(C); bool repo = StringRef(filePath(C->getFile())).starts_with(RepoPrefix);
    if (!repo && !StringRef(n).starts_with("EdgeLearning")) continue;
    json::Object to; to["size"] = (int64_t)(C->getSizeInBits() / 8); to["line"] = (int64_t)C->getLine(); to["file"] = filePath(C->getFile());
    to["tag"] = dwarf::TagString(C->getTag()).str(); json::Array mem, bases, ens, meths;
    for (auto *E : C->getElements()) {
      if (auto *EN = dyn_cast_or_null<DIEnumerator>(E)) { ens.push_back(json::Array{EN->getName().str(), EN->getValue().getSExtValue()}); continue; }
      if (auto *SP = dyn_cast_or_null<DISubprogram>(E)) { json::Array ps; if (SP->getType()) for (auto *t : SP->getType()->getTypeArray()) ps.push_back(diName(t));
        meths.push_back(json::Object{{"name", SP->getName().str()}, {"link", SP->getLinkageName().str()}, {"virt", (int64_t)SP->getVirtuality()}, {"types", std::move(ps)}, {"del", SP->isDeleted()}, {"line", (int64_t)SP->getLine()}}); continue; }
      auto *D = dyn_cast_or_null<DIDerivedType>(E); if (!D) continue;
      if (D->getTag() == dwarf::DW_TAG_inheritance) bases.push_back(json::Array{diName(D->getBaseType()), (int64_t)(D->getOffsetInBits() / 8)});
      else if (D->getTag() == dwarf::DW_TAG_member) {
        if (D->isStaticMember()) { json::Value v = nullptr; if (auto *K = dyn_cast_or_null<ConstantInt>(D->getConstant())) v = K->getSExtValue();
          to.try_emplace("statics", json::Array{}); to["statics"].getAsArray()->push_back(json::Array{D->getName().str(), diName(D->getBaseType()), std::move(v)}); }
        else mem.push_back(json::Array{D->getName().str(), (int64_t)(D->getOffsetInBits() / 8), diName(D->getBaseType()), (int64_t)(D->getSizeInBits() / 8)});
      }
    }
    to["members"] = std::move(mem); to["bases"] = std::move(bases); to["enum"] = std::move(ens); to["methods"] = std::move(meths);
    Types[n] = std::move(to);
  }
  Out["types"] = std::move(Types);

  json::Object Globs; std::set<const GlobalVariable *> Done;
  for (auto &G : M->globals()) if (G.getName().starts_with("_ZTV") || G.getName().starts_with("_ZTI")) if (StringRef(dem(G.getName())).contains("EdgeLearning")) UsedGlobals.insert(&G);
  bool more = true;
  while (more) { more = false;
    auto snap = UsedGlobals;
    for (auto *G : snap) { if (!Done.insert(G).second) continue; more = true;
      json::Object go; go["name"] = dem(G->getName()); go["const"] = G->isConstant();
      if (G->hasInitializer()) go["init"] = constInit(G->getInitializer(), M->getDataLayout());
      SmallVector<DIGlobalVariableExpression *, 1> gv; const_cast<GlobalVariable *>(G)->getDebugInfo(gv);
      if (!gv.empty()) { go["file"] = filePath(gv[0]->getVariable()->getFile()); go["line"] = (int64_t)gv[0]->getVariable()->getLine(); go["ditype"] = diName(gv[0]->getVariable()->getType()); }
      Globs[G->getName()] = std::move(go); } }
  Out["globals"] = std::move(Globs);
  json::Object Names; for (auto &n : UsedNames) { auto *F = M->getFunction(n); json::Object no{{"d", dem(n)}};
    if (F) { no["decl"] = F->isDeclaration(); if (auto *SP = F->getSubprogram()) { no["file"] = filePath(SP->getFile()); no["line"] = (int64_t)SP->getLine(); } } Names[n] = std::move(no); }
  Out["names"] = std::move(Names);

  std::error_code EC; raw_fd_ostream os(OutFile.empty() ? std::string("-") : OutFile.getValue(), EC); os << json::Value(std::move(Out)); os << "\n";
  return 0;
}
