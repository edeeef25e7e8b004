// irdump: reads LLVM bitcode, runs a fixed list of semantics-preserving passes and prints the
// module as one JSON value per line (globals, then functions), for the Python VC generator.
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <set>
#include <map>
#include <fstream>
#include <regex>
using namespace llvm;
static const DataLayout *DL;
static Module *M;
typedef json::Array A;

static std::map<Type*, int> tyIds;
static std::vector<json::Value> tyTab;
static int tyId(Type *t) {
  auto it = tyIds.find(t); if (it != tyIds.end()) return it->second;
  int id = tyTab.size(); tyIds[t] = id; tyTab.push_back(nullptr);
  json::Value v = nullptr;
  if (t->isIntegerTy()) v = A{"i", (int64_t)t->getIntegerBitWidth()};
  else if (t->isFloatTy()) v = A{"f", 32};
  else if (t->isDoubleTy()) v = A{"f", 64};
  else if (t->isHalfTy()) v = A{"f", 16};
  else if (t->isFloatingPointTy()) v = A{"f", (int64_t)t->getPrimitiveSizeInBits()};
  else if (t->isPointerTy()) v = A{"p"};
  else if (t->isVoidTy()) v = A{"v"};
  else if (auto *s = dyn_cast<StructType>(t)) {
    if (s->isOpaque()) v = A{"s", 0, A{}, A{}};
    else {
      A offs, tys; auto *sl = DL->getStructLayout(s);
      for (unsigned i = 0; i < s->getNumElements(); ++i) {
        offs.push_back((int64_t)sl->getElementOffset(i)); tys.push_back(tyId(s->getElementType(i))); }
      v = A{"s", (int64_t)DL->getTypeAllocSize(s), std::move(offs), std::move(tys)};
    }
  } else if (auto *a = dyn_cast<ArrayType>(t))
    v = A{"a", (int64_t)DL->getTypeAllocSize(a), (int64_t)a->getNumElements(), tyId(a->getElementType()), (int64_t)DL->getTypeAllocSize(a->getElementType())};
  else if (auto *vt = dyn_cast<FixedVectorType>(t))
    v = A{"vec", (int64_t)DL->getTypeAllocSize(vt), (int64_t)vt->getNumElements(), tyId(vt->getElementType()), (int64_t)DL->getTypeAllocSize(vt->getElementType())};
  else { std::string s; raw_string_ostream o(s); t->print(o); v = A{"?", o.str()}; }
  tyTab[id] = std::move(v); return id;
}
static std::map<const Value*, int> locals;
static json::Value cval(const Constant *c, int depth=0);
static json::Value val(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return cval(c);
  if (isa<MetadataAsValue>(v)) return A{"m"};
  if (isa<InlineAsm>(v)) return A{"asm"};
  auto it = locals.find(v);
  if (it == locals.end()) return A{"?"};
  return A{"l", it->second};
}
static json::Value cval(const Constant *c, int depth) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { SmallString<40> s; ci->getValue().toStringSigned(s);
    return A{"i", (int64_t)ci->getBitWidth(), std::string(s.str())}; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { SmallString<40> s; cf->getValueAPF().bitcastToAPInt().toStringUnsigned(s);
    return A{"f", (int64_t)c->getType()->getPrimitiveSizeInBits().getFixedValue(), std::string(s.str())}; }
  if (isa<ConstantPointerNull>(c)) return A{"n"};
  if (isa<UndefValue>(c)) return A{"u", tyId(c->getType())};
  if (auto *g = dyn_cast<GlobalAlias>(c)) { const GlobalObject *o = g->getAliaseeObject(); if (o) return A{"g", o->getName().str()}; }
  if (auto *g = dyn_cast<GlobalValue>(c)) return A{"g", g->getName().str()};
  if (isa<ConstantAggregateZero>(c)) return A{"z", tyId(c->getType())};
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      auto *gep = cast<GEPOperator>(ce); APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off))
        return A{"ge", cval(cast<Constant>(gep->getPointerOperand()), depth+1), (int64_t)off.getSExtValue()};
    }
    if (ce->isCast()) return A{"ce", ce->getOpcodeName(), cval(cast<Constant>(ce->getOperand(0)), depth+1), tyId(ce->getType())};
    A ops; for (auto &o : ce->operands()) ops.push_back(cval(cast<Constant>(o.get()), depth+1));
    return A{"cx", ce->getOpcodeName(), std::move(ops), tyId(ce->getType())};
  }
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
    if (cds->isString()||cds->getElementByteSize()==1) { std::string h; static const char*d="0123456789abcdef";
      for (unsigned char b : cds->getRawDataValues()) { h+=d[b>>4]; h+=d[b&15]; }
      return A{"str", h, tyId(c->getType())}; }
    A e; for (unsigned i = 0; i < cds->getNumElements(); ++i) e.push_back(cval(cds->getElementAsConstant(i), depth+1));
    return A{"agg", tyId(c->getType()), std::move(e)};
  }
  if (isa<ConstantAggregate>(c)) { A e; for (auto &o : c->operands()) e.push_back(cval(cast<Constant>(o.get()), depth+1));
    return A{"agg", tyId(c->getType()), std::move(e)}; }
  return A{"?"};
}
static void emit(json::Value v) { outs() << v << "\n"; }

int main(int argc, char **argv) {
  if (argc < 2) return 2;
  LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> m = parseIRFile(argv[1], err, ctx);
  if (!m) { err.print("irdump", errs()); return 1; }
  M = m.get(); DL = &m->getDataLayout();
  // names (regex on demangled) that must stay calls
  bool doInline = argc > 2 && std::string(argv[2]) == "inline";
  for (auto &f : *m) { f.removeFnAttr(Attribute::OptimizeNone); f.removeFnAttr(Attribute::NoInline); }
  {
    PassBuilder pb; LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
    pb.crossRegisterProxies(lam, fam, cam, mam);
    ModulePassManager mpm;
    const char *pl = "function(lowerinvoke,simplifycfg,sroa,early-cse,simplifycfg,instsimplify,loop-simplify,lcssa)";
    (void)doInline;
    if (auto e = pb.parsePassPipeline(mpm, pl)) { errs() << toString(std::move(e)) << "\n"; return 1; }
    mpm.run(*m, mam);
  }
  for (auto &g : m->globals()) {
    json::Object o; o["G"] = g.getName().str(); o["sz"] = g.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(g.getValueType()) : -1;
    o["ty"] = tyId(g.getValueType()); o["const"] = g.isConstant();
    if (g.hasInitializer()) o["init"] = cval(g.getInitializer());
    emit(std::move(o));
  }
  for (auto &f : *m) {
    json::Object o; o["F"] = f.getName().str(); o["dem"] = demangle(f.getName().str());
    o["ret"] = tyId(f.getReturnType()); o["noret"] = f.doesNotReturn();
    A args; locals.clear(); int n = 0;
    for (auto &a : f.args()) { locals[&a] = n; json::Object ao; ao["id"] = n++; ao["ty"] = tyId(a.getType());
      if (a.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType());
      if (a.hasStructRetAttr()) ao["sret"] = (int64_t)DL->getTypeAllocSize(a.getParamStructRetType());
      args.push_back(std::move(ao)); }
    o["args"] = std::move(args); o["vararg"] = f.isVarArg();
    if (f.isDeclaration()) { o["decl"] = true; emit(std::move(o)); continue; }
    std::map<const BasicBlock*, int> bid; int bn = 0;
    ReversePostOrderTraversal<Function*> rpo(&f);
    std::vector<BasicBlock*> order(rpo.begin(), rpo.end());
    for (auto *b : order) { bid[b] = bn++; for (auto &i : *b) if (!i.getType()->isVoidTy()) locals[&i] = n++; }
    A blocks;
    for (auto *b : order) {
      A ins;
      for (auto &i : *b) {
        if (isa<DbgInfoIntrinsic>(i)) continue;
        json::Object x; x["op"] = i.getOpcodeName();
        if (!i.getType()->isVoidTy()) { x["id"] = locals[&i]; x["ty"] = tyId(i.getType()); }
        if (auto *dl = i.getDebugLoc().get()) { x["ln"] = (int64_t)dl->getLine();
          x["fl"] = dl->getFilename().str(); }
        A ops;
        if (auto *p = dyn_cast<PHINode>(&i)) { for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) {
            auto it = bid.find(p->getIncomingBlock(k)); if (it == bid.end()) continue;
            ops.push_back(A{it->second, val(p->getIncomingValue(k))}); } x["in"] = std::move(ops); }
        else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
          x["b"] = val(g->getPointerOperand()); int64_t c = 0; A idx;
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            if (StructType *st = it.getStructTypeOrNull()) c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
            else { int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
              if (auto *ci = dyn_cast<ConstantInt>(it.getOperand())) c += sc * ci->getSExtValue();
              else idx.push_back(A{val(it.getOperand()), sc, tyId(it.getOperand()->getType())}); }
          }
          x["c"] = c; x["idx"] = std::move(idx); x["inb"] = g->isInBounds();
        } else if (auto *br = dyn_cast<BranchInst>(&i)) {
          if (br->isConditional()) { x["c"] = val(br->getCondition()); x["t"] = A{bid[br->getSuccessor(0)], bid[br->getSuccessor(1)]}; }
          else x["t"] = A{bid[br->getSuccessor(0)]};
        } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
          x["c"] = val(sw->getCondition()); x["d"] = bid[sw->getDefaultDest()]; A cs;
          for (auto &k : sw->cases()) { SmallString<40> s; k.getCaseValue()->getValue().toStringSigned(s); cs.push_back(A{std::string(s.str()), bid[k.getCaseSuccessor()]}); }
          x["cs"] = std::move(cs);
          x["cty"] = tyId(sw->getCondition()->getType());
        } else if (auto *cb = dyn_cast<CallBase>(&i)) {
          x["op"] = "call"; x["fn"] = val(cb->getCalledOperand());
          A bv; for (unsigned k = 0; k < cb->arg_size(); ++k) { ops.push_back(val(cb->getArgOperand(k))); bv.push_back(tyId(cb->getArgOperand(k)->getType())); }
          x["a"] = std::move(ops); x["at"] = std::move(bv); x["rt"] = tyId(cb->getType());
          A bvs; bool anybv=false; for (unsigned k = 0; k < cb->arg_size(); ++k) { int64_t s = 0; if (cb->isByValArgument(k)) { s = DL->getTypeAllocSize(cb->getParamByValType(k)); anybv=true;} bvs.push_back(s); }
          if (anybv) x["bv"] = std::move(bvs);
        } else {
          for (auto &o2 : i.operands()) ops.push_back(val(o2.get()));
          x["a"] = std::move(ops);
          if (i.getNumOperands()) x["at"] = tyId(i.getOperand(0)->getType());
          if (auto *al = dyn_cast<AllocaInst>(&i)) { x["sz"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()); x["aty"] = tyId(al->getAllocatedType()); }
          else if (auto *cm = dyn_cast<CmpInst>(&i)) x["p"] = CmpInst::getPredicateName(cm->getPredicate()).str();
          else if (auto *st = dyn_cast<StoreInst>(&i)) x["vt"] = tyId(st->getValueOperand()->getType());
          else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) { A k; for (unsigned q : ev->indices()) k.push_back((int64_t)q); x["k"] = std::move(k); }
          else if (auto *iv = dyn_cast<InsertValueInst>(&i)) { A k; for (unsigned q : iv->indices()) k.push_back((int64_t)q); x["k"] = std::move(k); }
          else if (auto *sv = dyn_cast<ShuffleVectorInst>(&i)) { A k; for (int q : sv->getShuffleMask()) k.push_back((int64_t)q); x["k"] = std::move(k); }
          else if (auto *rw = dyn_cast<AtomicRMWInst>(&i)) x["rmw"] = AtomicRMWInst::getOperationName(rw->getOperation()).str();
          if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&i)) { x["nsw"] = ob->hasNoSignedWrap(); x["nuw"] = ob->hasNoUnsignedWrap(); }
          if (auto *pe = dyn_cast<PossiblyExactOperator>(&i)) x["ex"] = pe->isExact();
        }
        ins.push_back(std::move(x));
      }
      blocks.push_back(std::move(ins));
    }
    o["bb"] = std::move(blocks);
    DominatorTree dt(f); LoopInfo li(dt); A loops;
    for (Loop *l : li.getLoopsInPreorder()) {
      A bs; for (auto *b : l->blocks()) if (bid.count(b)) bs.push_back(bid[b]);
      loops.push_back(A{bid[l->getHeader()], std::move(bs), (int64_t)l->getLoopDepth()});
    }
    o["loops"] = std::move(loops);
    if (f.getSubprogram()) { o["line"] = (int64_t)f.getSubprogram()->getLine(); o["file"] = f.getSubprogram()->getFilename().str(); }
    emit(std::move(o));
  }
  A tt; for (auto &t : tyTab) tt.push_back(std::move(t));
  json::Object to; to["T"] = std::move(tt); emit(std::move(to));
  return 0;
}
