// Links LLVM bitcode files, runs SSA construction and writes the functions as JSON for the analyser.
// usage: irexport OUT.json a.bc b.bc ...
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Passes/PassBuilder.h"
#include <map>
#include <fstream>
using namespace llvm;
static std::map<const Value*, int> ids;
static const DataLayout* DL;
static std::string tyname(Type* t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str(); }
static json::Value cint(const APInt& v) { SmallString<40> s; v.toString(s, 10, false); return json::Array{"c", (int64_t) v.getBitWidth(), std::string(s)}; }
static json::Value opnd(const Value* v) {
  if (auto* c = dyn_cast<ConstantInt>(v)) return cint(c->getValue());
  if (isa<ConstantPointerNull>(v)) return json::Array{"null"};
  if (isa<UndefValue>(v)) return json::Array{"undef", tyname(v->getType())};
  if (auto* f = dyn_cast<ConstantFP>(v)) { SmallString<40> s; f->getValueAPF().bitcastToAPInt().toString(s, 10, false); return json::Array{"f", tyname(f->getType()), std::string(s)}; }
  if (auto* al = dyn_cast<GlobalAlias>(v)) v = al->getAliaseeObject();
  if (auto* f = dyn_cast<Function>(v)) return json::Array{"fn", f->getName().str()};
  if (auto* g = dyn_cast<GlobalValue>(v)) return json::Array{"g", g->getName().str()};
  if (auto* ce = dyn_cast<ConstantExpr>(v)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off)) return json::Array{"gep", opnd(gep->getPointerOperand()), off.getSExtValue()};
    }
    return json::Array{"ce", tyname(v->getType())};
  }
  if (isa<Constant>(v)) {
    if (isa<ConstantAggregateZero>(v)) return json::Array{"zero", tyname(v->getType())};
    return json::Array{"const", tyname(v->getType())};
  }
  if (auto* b = dyn_cast<BasicBlock>(v)) return json::Array{"b", ids[b]};
  if (isa<MetadataAsValue>(v)) return json::Array{"md"};
  if (isa<InlineAsm>(v)) return json::Array{"asm"};
  return json::Array{"v", ids[v]};
}
static json::Value constInit(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) return cint(ci->getValue());
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    json::Array a; a.push_back("arr"); a.push_back((int64_t) cd->getElementByteSize());
    if (!cd->getElementType()->isIntegerTy()) return json::Array{"opaque"};
    for (unsigned i = 0; i < cd->getNumElements(); i++) { SmallString<40> s; cd->getElementAsAPInt(i).toString(s, 10, false); a.push_back(std::string(s)); }
    return a;
  }
  if (isa<ConstantAggregateZero>(c)) return json::Array{"zero", (int64_t) DL->getTypeAllocSize(c->getType())};
  return json::Array{"opaque"};
}
int main(int argc, char** argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = std::make_unique<Module>("all", ctx);
  Linker L(*M);
  for (int i = 2; i < argc; i++) {
    auto m = parseIRFile(argv[i], err, ctx);
    if (!m) { err.print(argv[0], errs()); return 2; }
    if (i == 2) { M->setDataLayout(m->getDataLayout()); M->setTargetTriple(m->getTargetTriple()); }
    if (L.linkInModule(std::move(m))) return 2;
  }
  DL = &M->getDataLayout();
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (auto e = PB.parsePassPipeline(MPM, "function(sroa,mem2reg,instsimplify,adce,simplifycfg<bonus-inst-threshold=0;no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;no-switch-range-to-icmp>,loop-simplify)")) { errs() << toString(std::move(e)) << "\n"; return 2; }
  MPM.run(*M, MAM);
  json::Object root; json::Array fns; json::Array globs; json::Object structs;
  for (auto* st : M->getIdentifiedStructTypes()) {
    if (st->isOpaque()) continue;
    auto* sl = DL->getStructLayout(st); json::Array a;
    for (unsigned i = 0; i < st->getNumElements(); i++) a.push_back(json::Array{(int64_t) sl->getElementOffset(i), tyname(st->getElementType(i))});
    structs[st->getName()] = json::Object{{"size", (int64_t) sl->getSizeInBytes()}, {"fields", std::move(a)}};
  }
  for (auto& g : M->globals()) {
    json::Object o{{"name", g.getName().str()}, {"demangled", demangle(g.getName().str())}, {"const", g.isConstant()}, {"tls", g.isThreadLocal()},
      {"decl", g.isDeclaration()}, {"type", tyname(g.getValueType())}, {"linkage", (int64_t) g.getLinkage()}};
    if (!g.isDeclaration()) o["size"] = (int64_t) DL->getTypeAllocSize(g.getValueType());
    if (g.hasInitializer()) o["init"] = constInit(g.getInitializer());
    SmallVector<DIGlobalVariableExpression*, 1> dies; g.getDebugInfo(dies);
    for (auto* d : dies) { o["file"] = d->getVariable()->getFilename().str(); o["line"] = (int64_t) d->getVariable()->getLine();
      // is the declared type const (through typedefs, references to nothing, and arrays)?
      bool cst = false; DIType* t = d->getVariable()->getType();
      while (t) {
        if (t->getTag() == dwarf::DW_TAG_const_type) { cst = true; break; }
        if (t->getTag() == dwarf::DW_TAG_typedef || t->getTag() == dwarf::DW_TAG_volatile_type) { t = cast<DIDerivedType>(t)->getBaseType(); continue; }
        if (t->getTag() == dwarf::DW_TAG_array_type) { t = cast<DICompositeType>(t)->getBaseType(); continue; }
        break;
      }
      o["consttype"] = cst; o["local"] = isa_and_nonnull<DILocalScope>(d->getVariable()->getScope()); }
    json::Array users;
    for (auto* u : g.users()) if (auto* in = dyn_cast<Instruction>(u)) users.push_back(in->getFunction()->getName().str());
    o["users"] = std::move(users);
    globs.push_back(std::move(o));
  }
  for (auto& F : *M) {
    json::Object fo; fo["name"] = F.getName().str(); fo["demangled"] = demangle(F.getName().str()); fo["decl"] = F.isDeclaration();
    fo["ret"] = tyname(F.getReturnType()); fo["linkage"] = (int64_t) F.getLinkage();
    if (auto* sp = F.getSubprogram()) { fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t) sp->getLine(); }
    ids.clear(); int n = 0;
    json::Array args;
    for (auto& A : F.args()) { ids[&A] = n++;
      json::Object ao{{"id", ids[&A]}, {"ty", tyname(A.getType())}, {"name", A.getName().str()}, {"sret", A.hasStructRetAttr()}};
      if (A.hasStructRetAttr()) ao["sretty"] = tyname(A.getParamStructRetType());
      args.push_back(std::move(ao)); }
    fo["args"] = std::move(args);
    if (!F.isDeclaration()) {
      int bn = 0; for (auto& B : F) ids[&B] = bn++;
      for (auto& B : F) for (auto& I : B) ids[&I] = n++;
      json::Array blocks;
      for (auto& B : F) {
        json::Array ins;
        for (auto& I : B) {
          if (isa<DbgInfoIntrinsic>(&I)) continue;
          json::Object o; o["id"] = ids[&I]; o["op"] = I.getOpcodeName(); o["ty"] = tyname(I.getType());
          if (auto& d = I.getDebugLoc()) { o["line"] = (int64_t) d.getLine(); o["file"] = cast<DIScope>(d.getScope())->getFilename().str(); }
          json::Array ops;
          if (auto* ph = dyn_cast<PHINode>(&I)) {
            for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) ops.push_back(json::Array{ids[ph->getIncomingBlock(i)], opnd(ph->getIncomingValue(i))});
          } else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
            MapVector<Value*, APInt> vo; APInt co(64, 0);
            if (!cast<GEPOperator>(gep)->collectOffset(*DL, 64, vo, co)) o["bad"] = true;
            ops.push_back(opnd(gep->getPointerOperand())); o["off"] = co.getSExtValue();
            json::Array var; for (auto& p : vo) var.push_back(json::Array{opnd(p.first), p.second.getSExtValue(), (int64_t) p.first->getType()->getIntegerBitWidth()});
            o["var"] = std::move(var); o["inbounds"] = gep->isInBounds(); o["srcty"] = tyname(gep->getSourceElementType());
          } else if (auto* cb = dyn_cast<CallBase>(&I)) {
            o["callee"] = opnd(cb->getCalledOperand());
            for (auto& a : cb->args()) ops.push_back(opnd(a.get()));
            if (auto* iv = dyn_cast<InvokeInst>(&I)) { o["normal"] = ids[iv->getNormalDest()]; o["unwind"] = ids[iv->getUnwindDest()]; }
          } else if (auto* br = dyn_cast<BranchInst>(&I)) {
            if (br->isConditional()) { ops.push_back(opnd(br->getCondition())); ops.push_back(json::Array{"b", ids[br->getSuccessor(0)]}); ops.push_back(json::Array{"b", ids[br->getSuccessor(1)]}); }
            else ops.push_back(json::Array{"b", ids[br->getSuccessor(0)]});
          } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
            ops.push_back(opnd(sw->getCondition())); o["default"] = ids[sw->getDefaultDest()];
            json::Array cs; for (auto& c : sw->cases()) cs.push_back(json::Array{opnd(c.getCaseValue()), ids[c.getCaseSuccessor()]}); o["cases"] = std::move(cs);
          } else {
            for (auto& op : I.operands()) ops.push_back(opnd(op.get()));
          }
          if (auto* c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
          if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) o["nsw"] = true; if (ob->hasNoUnsignedWrap()) o["nuw"] = true; }
          if (auto* al = dyn_cast<AllocaInst>(&I)) { o["aty"] = tyname(al->getAllocatedType()); auto sz = al->getAllocationSize(*DL); if (sz) o["size"] = (int64_t) sz->getFixedValue(); }
          if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : ev->indices()) ix.push_back((int64_t) i); o["idx"] = std::move(ix); }
          if (auto* ev = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : ev->indices()) ix.push_back((int64_t) i); o["idx"] = std::move(ix); }
          if (auto* lp = dyn_cast<LandingPadInst>(&I)) { o["cleanup"] = lp->isCleanup(); json::Array cl; for (unsigned i = 0; i < lp->getNumClauses(); i++) cl.push_back(json::Array{lp->isCatch(i), opnd(lp->getClause(i))}); o["clauses"] = std::move(cl); }
          o["ops"] = std::move(ops);
          ins.push_back(std::move(o));
        }
        blocks.push_back(std::move(ins));
      }
      fo["blocks"] = std::move(blocks);
      DominatorTree DT(F); LoopInfo LI(DT);
      json::Array loops;
      for (auto* lp : LI.getLoopsInPreorder()) {
        json::Array bl; for (auto* b : lp->blocks()) bl.push_back(ids[b]);
        loops.push_back(json::Object{{"header", ids[lp->getHeader()]}, {"blocks", std::move(bl)}, {"depth", (int64_t) lp->getLoopDepth()}});
      }
      fo["loops"] = std::move(loops);
    }
    fns.push_back(std::move(fo));
  }
  root["functions"] = std::move(fns); root["globals"] = std::move(globs); root["structs"] = std::move(structs);
  std::error_code ec; raw_fd_ostream os(argv[1], ec); if (ec) return 2;
  os << json::Value(std::move(root)); return 0;
}
