// irx: link the given LLVM bitcode modules, normalise them and dump a compact JSON description.
// usage: irx OUT.json KNOWN_FUNCTIONS.txt a.bc b.bc ...
// Normalisation (semantics preserving): functions that are not in KNOWN_FUNCTIONS.txt (helpers that a
// refactoring extracted) are inlined into their callers, locals are promoted to SSA.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Utils/Local.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
using namespace llvm;

static std::string tyStr(Type *t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str(); }

struct Dumper {
  Module &M; const DataLayout &DL;
  std::map<std::string, DICompositeType*> comps;
  std::map<const Value*, int> ids;
  std::vector<std::string> files; std::map<std::string,int> fileIdx;
  json::OStream &J;
  Dumper(Module &m, json::OStream &j): M(m), DL(m.getDataLayout()), J(j) {}

  int fidx(StringRef d, StringRef f) {
    std::string p = f.str(); if (p.empty() || p[0] != '/') p = d.str() + "/" + p;
    auto it = fileIdx.find(p); if (it != fileIdx.end()) return it->second;
    int n = files.size(); files.push_back(p); fileIdx[p] = n; return n;
  }
  static DICompositeType *strip(DIType *t) {
    while (t) {
      if (auto *c = dyn_cast<DICompositeType>(t)) return c;
      auto *d = dyn_cast<DIDerivedType>(t); if (!d) return nullptr;
      unsigned g = d->getTag();
      if (g == dwarf::DW_TAG_typedef || g == dwarf::DW_TAG_const_type || g == dwarf::DW_TAG_volatile_type) t = d->getBaseType();
      else return nullptr;
    }
    return nullptr;
  }
  void collectDI(DebugInfoFinder &F) {
    for (DIType *t : F.types()) {
      if (auto *c = dyn_cast<DICompositeType>(t)) {
        if (!c->getName().empty() && c->getElements().size()) comps[c->getName().str()] = c;
      } else if (auto *d = dyn_cast<DIDerivedType>(t)) {
        if (d->getTag() == dwarf::DW_TAG_typedef && !d->getName().empty())
          if (auto *c = strip(d)) if (c->getName().empty()) comps.emplace(d->getName().str(), c);
      }
    }
  }
  std::string fieldName(StructType *st, unsigned idx) {
    if (!st->hasName()) return "";
    StringRef n = st->getName();
    if (n.consume_front("struct.") || n.consume_front("union.")) {}
    std::string base = n.str();
    auto it = comps.find(base);
    if (it == comps.end()) { // linker renamed: struct.X.12
      auto p = base.rfind('.'); if (p != std::string::npos) it = comps.find(base.substr(0, p));
    }
    if (it == comps.end()) return "";
    uint64_t off = DL.getStructLayout(st)->getElementOffset(idx) * 8;
    for (auto *e : it->second->getElements())
      if (auto *m = dyn_cast<DIDerivedType>(e))
        if (m->getTag() == dwarf::DW_TAG_member && m->getOffsetInBits() == off) return m->getName().str();
    return "";
  }

  json::Value gepInfo(GEPOperator *g) {
    json::Object o; Type *t = g->getSourceElementType();
    o["st"] = tyStr(t);
    json::Array path; bool first = true; Type *cur = t;
    for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
      Value *v = *it;
      if (first) { first = false; if (auto *c = dyn_cast<ConstantInt>(v)) { if (!c->isZero()) path.push_back("[" + std::to_string(c->getSExtValue()) + "]"); } else path.push_back("[?]"); continue; }
      if (auto *s = dyn_cast<StructType>(cur)) {
        unsigned k = cast<ConstantInt>(v)->getZExtValue();
        std::string fn = fieldName(s, k);
        path.push_back(fn.empty() ? ("#" + std::to_string(k)) : fn);
        o["ow"] = s->hasName() ? s->getName().str() : std::string("");
        cur = s->getElementType(k);
      } else if (auto *a = dyn_cast<ArrayType>(cur)) {
        if (auto *c = dyn_cast<ConstantInt>(v)) path.push_back("[" + std::to_string(c->getSExtValue()) + "]"); else path.push_back("[?]");
        o["an"] = (int64_t)a->getNumElements();
        cur = a->getElementType();
      } else path.push_back("?");
    }
    o["p"] = std::move(path);
    o["rt"] = tyStr(cur);
    o["es"] = (int64_t)(t->isSized() ? DL.getTypeAllocSize(t).getFixedValue() : 0);
    APInt off(64, 0);
    if (g->accumulateConstantOffset(DL, off)) o["off"] = off.getSExtValue();
    return o;
  }

  json::Value cst(const Constant *c, int depth) {
    if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() <= 64) return json::Array{"c", i->getSExtValue()}; return json::Array{"x"}; }
    if (isa<ConstantPointerNull>(c)) return json::Array{"n"};
    if (isa<UndefValue>(c)) return json::Array{"u"};
    if (isa<ConstantAggregateZero>(c)) return json::Array{"z"};
    if (auto *f = dyn_cast<ConstantFP>(c)) { (void)f; return json::Array{"fp"}; }
    if (auto *g = dyn_cast<GlobalValue>(c)) return json::Array{"g", g->getName().str()};
    if (auto *s = dyn_cast<ConstantDataSequential>(c)) {
      if (s->isString(8)) { json::Array a; StringRef r = s->getAsString(); std::string hex; 
        for (unsigned char ch : r) { char b[3]; snprintf(b,3,"%02x",ch); hex += b; } return json::Array{"s", hex}; }
      json::Array a; for (unsigned k=0;k<s->getNumElements();k++) a.push_back(cst(s->getElementAsConstant(k), depth+1));
      return json::Array{"agg", std::move(a)};
    }
    if (auto *a = dyn_cast<ConstantAggregate>(c)) {
      json::Array v; for (unsigned k=0;k<a->getNumOperands();k++) v.push_back(cst(cast<Constant>(a->getOperand(k)), depth+1));
      return json::Array{"agg", std::move(v)};
    }
    if (auto *e = dyn_cast<ConstantExpr>(c)) {
      json::Array v; for (unsigned k=0;k<e->getNumOperands();k++) v.push_back(cst(cast<Constant>(e->getOperand(k)), depth+1));
      json::Array r{"ce", e->getOpcodeName(), std::move(v)};
      if (auto *g = dyn_cast<GEPOperator>(c)) r.push_back(gepInfo(const_cast<GEPOperator*>(g)));
      return r;
    }
    return json::Array{"x"};
  }
  json::Value ref(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return cst(c, 0);
    if (isa<MetadataAsValue>(v)) return json::Array{"m"};
    if (isa<InlineAsm>(v)) return json::Array{"asm"};
    auto it = ids.find(v); if (it == ids.end()) return json::Array{"x"};
    return json::Array{isa<Argument>(v) ? "a" : (isa<BasicBlock>(v) ? "b" : "i"), it->second};
  }

  void func(Function &F) {
    ids.clear(); int n = 0;
    for (auto &a : F.args()) ids[&a] = n++;
    int nb = 0; for (auto &b : F) ids[&b] = nb++;
    n = 0; for (auto &b : F) for (auto &i : b) ids[&i] = n++;
    J.object([&]{
      J.attribute("name", F.getName());
      J.attribute("internal", F.hasInternalLinkage());
      J.attribute("rt", tyStr(F.getReturnType()));
      J.attribute("vararg", F.isVarArg());
      if (auto *sp = F.getSubprogram()) { J.attribute("file", fidx(sp->getDirectory(), sp->getFilename())); J.attribute("line", (int64_t)sp->getLine()); 
        std::map<int,std::string> an; 
        for (auto *rn : sp->getRetainedNodes()) (void)rn;
      }
      J.attribute("decl", F.isDeclaration());
      J.attribute("noret", F.hasFnAttribute(Attribute::NoReturn));
      if (F.isDeclaration()) { return; }
      std::map<const Value*, std::string> names;
      for (auto &b : F) for (auto &i : b) {
        if (auto *d = dyn_cast<DbgVariableIntrinsic>(&i)) {
          if (d->getNumVariableLocationOps() == 1 && d->getVariable()) { Value *v = d->getVariableLocationOp(0); if (v && !isa<Constant>(v)) names.emplace(v, d->getVariable()->getName().str()); }
        }
      }
      J.attributeArray("params", [&]{ for (auto &a : F.args()) J.value(json::Array{ tyStr(a.getType()), names.count(&a) ? names[&a] : std::string("") }); });
      J.attributeArray("blocks", [&]{
        for (auto &b : F) {
          J.array([&]{
            for (auto &i : b) {
              if (isa<DbgInfoIntrinsic>(&i)) continue;
              json::Object o; o["i"] = ids[&i]; o["op"] = i.getOpcodeName(); o["t"] = tyStr(i.getType());
              if (names.count(&i)) o["n"] = names[&i];
              if (const DILocation *l = i.getDebugLoc().get()) { o["l"] = (int64_t)l->getLine(); o["f"] = fidx(l->getDirectory(), l->getFilename());
                 if (auto *sp = l->getScope()->getSubprogram()) o["fn"] = sp->getName().str(); }
              json::Array ops;
              if (auto *p = dyn_cast<PHINode>(&i)) {
                for (unsigned k=0;k<p->getNumIncomingValues();k++) ops.push_back(json::Array{ref(p->getIncomingValue(k)), ids[p->getIncomingBlock(k)]});
              } else if (auto *c = dyn_cast<CallBase>(&i)) {
                for (auto &a : c->args()) ops.push_back(ref(a.get()));
                o["callee"] = ref(c->getCalledOperand()->stripPointerCasts());
                o["noret"] = c->hasFnAttr(Attribute::NoReturn);
                if (c->getFunctionType()->isVarArg()) { json::Array at; for (auto &u : c->args()) at.push_back(tyStr(u->getType())); o["ats"] = std::move(at); }
              } else if (auto *br = dyn_cast<BranchInst>(&i)) {
                if (br->isConditional()) ops.push_back(ref(br->getCondition()));
                json::Array s; for (unsigned k=0;k<br->getNumSuccessors();k++) s.push_back(ids[br->getSuccessor(k)]);
                o["s"] = std::move(s);
              } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
                ops.push_back(ref(sw->getCondition()));
                json::Array s; s.push_back(json::Array{nullptr, ids[sw->getDefaultDest()]});
                for (auto &cs : sw->cases()) s.push_back(json::Array{cs.getCaseValue()->getSExtValue(), ids[cs.getCaseSuccessor()]});
                o["s"] = std::move(s);
              } else {
                for (auto &u : i.operands()) ops.push_back(ref(u.get()));
              }
              o["o"] = std::move(ops);
              if (auto *c = dyn_cast<CmpInst>(&i)) o["p"] = CmpInst::getPredicateName(c->getPredicate()).str();
              if (auto *g = dyn_cast<GetElementPtrInst>(&i)) o["g"] = gepInfo(cast<GEPOperator>(g));
              if (auto *a = dyn_cast<AllocaInst>(&i)) { o["at"] = tyStr(a->getAllocatedType()); o["as"] = (int64_t)DL.getTypeAllocSize(a->getAllocatedType()).getFixedValue(); }
              if (auto *s = dyn_cast<StoreInst>(&i)) { o["vt"] = tyStr(s->getValueOperand()->getType()); if (s->isVolatile()) o["vol"] = true; }
              if (auto *e = dyn_cast<ExtractValueInst>(&i)) { json::Array x; for (unsigned k : e->indices()) x.push_back((int64_t)k); o["ix"] = std::move(x); }
              J.value(std::move(o));
            }
          });
        }
      });
    });
  }
  void run() {
    DebugInfoFinder F; F.processModule(M); collectDI(F);
    J.object([&]{
      J.attributeArray("functions", [&]{ for (auto &f : M) { if (f.isIntrinsic() && f.isDeclaration()) continue; func(f);} });
      J.attributeArray("globals", [&]{
        for (auto &g : M.globals()) {
          json::Object o; o["name"] = g.getName().str(); o["const"] = g.isConstant(); o["t"] = tyStr(g.getValueType()); o["internal"] = g.hasLocalLinkage();
          o["sz"] = (int64_t)(g.getValueType()->isSized() ? DL.getTypeAllocSize(g.getValueType()).getFixedValue() : 0);
          SmallVector<DIGlobalVariableExpression*,1> gv; g.getDebugInfo(gv);
          if (gv.size()) { auto *v = gv[0]->getVariable(); o["l"] = (int64_t)v->getLine(); o["f"] = fidx(v->getDirectory(), v->getFilename()); o["dn"]=v->getName().str(); }
          if (g.hasInitializer()) o["init"] = cst(g.getInitializer(), 0); else o["ext"] = true;
          J.value(std::move(o));
        }
      });
      J.attributeArray("structs", [&]{
        for (auto *s : M.getIdentifiedStructTypes()) {
          json::Object o; o["name"] = s->hasName() ? s->getName().str() : ""; if (s->isOpaque()) continue;
          json::Array f; for (unsigned k=0;k<s->getNumElements();k++) f.push_back(json::Array{fieldName(s,k), tyStr(s->getElementType(k)), (int64_t)DL.getStructLayout(s)->getElementOffset(k), (int64_t)DL.getTypeAllocSize(s->getElementType(k)).getFixedValue()});
          o["fields"] = std::move(f); o["sz"] = (int64_t)DL.getTypeAllocSize(s).getFixedValue(); J.value(std::move(o));
        }
      });
      J.attributeArray("enums", [&]{
        for (DIType *t : F.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
          json::Array e; for (auto *x : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(x)) e.push_back(json::Array{en->getName().str(), en->getValue().getSExtValue()});
          std::string nm = c->getName().str();
          if (nm.empty()) for (auto &kv : comps) if (kv.second == c) nm = kv.first;
          J.value(json::Object{{"name", nm}, {"v", std::move(e)}});
        }
      });
      J.attributeArray("files", [&]{ for (auto &f : files) J.value(f); });
    });
  }
};

int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic err;
  std::unique_ptr<Module> M;
  for (int i = 3; i < argc; i++) {
    auto m = parseIRFile(argv[i], err, C); if (!m) { err.print(argv[0], errs()); return 3; }
    if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) return 3;
  }
  std::set<std::string> known; { std::ifstream f(argv[2]); std::string s; while (f >> s) known.insert(s); }
  std::set<std::string> fresh;
  for (auto &f : *M) {
    f.removeFnAttr(Attribute::OptimizeNone);
    if (f.isDeclaration() || known.empty()) continue;
    if (!known.count(f.getName().str()) && !f.isVarArg() && f.getNumUses()) { fresh.insert(f.getName().str()); f.removeFnAttr(Attribute::NoInline); f.addFnAttr(Attribute::AlwaysInline); }
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM; MPM.addPass(AlwaysInlinerPass(false));
  FunctionPassManager FPM; FPM.addPass(PromotePass()); MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
  MPM.run(*M, MAM);
  for (auto &n : fresh) if (auto *f = M->getFunction(n)) if (f->use_empty()) f->eraseFromParent();
  for (auto &f : *M) if (!f.isDeclaration()) removeUnreachableBlocks(f);
  std::error_code ec; raw_fd_ostream out(argv[1], ec); if (ec) return 3;
  json::OStream J(out); Dumper d(*M, J); d.run();
  return 0;
}
