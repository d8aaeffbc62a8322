// irdump: exports a linked LLVM module (from clang -O0 + sroa) as JSON for the Python analyses.
// Nothing is executed; this is a pure translation of the compiler's IR.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/MapVector.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;
using json::Array; using json::Object; typedef llvm::json::Value JV;

static const DataLayout *DL;
static std::map<const llvm::Value*, int> Ids;
static std::map<std::string, const DICompositeType*> DIStructs; // name -> composite
static std::map<const DICompositeType*, std::string> DINames;

static std::string sname(Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) {
    if (!st->hasName()) return "anon";
    std::string n = st->getName().str();
    for (const char *p : {"struct.", "union."})
      if (n.rfind(p, 0) == 0) { n = n.substr(strlen(p)); break; }
    // strip llvm-link numeric suffixes (".12")
    auto pos = n.rfind('.');
    if (pos != std::string::npos && pos + 1 < n.size() &&
        std::all_of(n.begin() + pos + 1, n.end(), ::isdigit) && n.substr(0, pos) != "anon")
      n = n.substr(0, pos);
    return n;
  }
  return "";
}
static std::string tstr(Type *t) {
  if (t->isVoidTy()) return "void";
  if (t->isPointerTy()) return "ptr";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (auto *st = dyn_cast<StructType>(t)) return "%" + sname(st);
  if (auto *at = dyn_cast<ArrayType>(t)) return "[" + std::to_string(at->getNumElements()) + " x " + tstr(at->getElementType()) + "]";
  std::string s; raw_string_ostream os(s); t->print(os); return os.str();
}
static const DIType *strip(const DIType *t) {
  while (t) {
    auto *d = dyn_cast<DIDerivedType>(t);
    if (!d) return t;
    switch (d->getTag()) {
      case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type:
      case dwarf::DW_TAG_restrict_type: case dwarf::DW_TAG_atomic_type:
        t = d->getBaseType(); break;
      default: return t;
    }
  }
  return t;
}
static std::string compName(const DICompositeType *c) {
  if (!c->getName().empty()) return c->getName().str();
  auto it = DINames.find(c);
  return it == DINames.end() ? "anon" : it->second;
}
// DI type -> {k: int/ptr/struct/..., signed, to}
static JV ditype(const DIType *t0, int depth = 0) {
  bool vol = false;
  for (const DIType *t = t0; t;) {
    auto *d = dyn_cast<DIDerivedType>(t);
    if (!d) break;
    if (d->getTag() == dwarf::DW_TAG_volatile_type) vol = true;
    if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_const_type || d->getTag() == dwarf::DW_TAG_volatile_type) t = d->getBaseType();
    else break;
  }
  std::string td;
  if (auto *d = dyn_cast_or_null<DIDerivedType>(t0)) {
    const DIType *x = d;
    while (x) { auto *dd = dyn_cast<DIDerivedType>(x); if (!dd) break;
      if (dd->getTag() == dwarf::DW_TAG_typedef) { td = dd->getName().str(); break; }
      if (dd->getTag() == dwarf::DW_TAG_const_type || dd->getTag() == dwarf::DW_TAG_volatile_type) x = dd->getBaseType(); else break; }
  }
  const DIType *t = strip(t0);
  Object o;
  if (!td.empty()) o["td"] = td;
  if (vol) o["vol"] = true;
  if (!t) { o["k"] = "void"; return o; }
  if (auto *b = dyn_cast<DIBasicType>(t)) {
    o["k"] = "int"; o["name"] = b->getName().str();
    o["bits"] = (int64_t)b->getSizeInBits();
    o["signed"] = b->getEncoding() == dwarf::DW_ATE_signed || b->getEncoding() == dwarf::DW_ATE_signed_char;
    return o;
  }
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    if (d->getTag() == dwarf::DW_TAG_pointer_type) {
      o["k"] = "ptr";
      // const-ness of pointee
      const DIType *bt = d->getBaseType(); bool cst = false;
      while (bt) { auto *bd = dyn_cast<DIDerivedType>(bt); if (!bd) break;
        if (bd->getTag() == dwarf::DW_TAG_const_type) { cst = true; bt = bd->getBaseType(); }
        else if (bd->getTag() == dwarf::DW_TAG_typedef || bd->getTag() == dwarf::DW_TAG_volatile_type) bt = bd->getBaseType(); else break; }
      if (cst) o["const"] = true;
      if (depth < 3) o["to"] = ditype(d->getBaseType(), depth + 1);
      return o;
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      o["k"] = "array"; o["of"] = ditype(c->getBaseType(), depth + 1);
      o["bytes"] = (int64_t)(c->getSizeInBits() / 8); return o;
    }
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) { o["k"] = "int"; o["enum"] = c->getName().str(); o["bits"] = (int64_t)c->getSizeInBits(); 
      const DIType *bt = strip(c->getBaseType()); bool sg=false; if (auto *b = dyn_cast_or_null<DIBasicType>(bt)) sg = b->getEncoding()==dwarf::DW_ATE_signed; o["signed"]=sg; return o; }
    o["k"] = "struct"; o["name"] = compName(c); return o;
  }
  if (isa<DISubroutineType>(t)) { o["k"] = "func"; return o; }
  o["k"] = "other"; return o;
}

static JV constant(const Constant *c, int depth = 0);
static JV operand(const llvm::Value *v) {
  if (auto *ci = dyn_cast<ConstantInt>(v)) {
    SmallString<40> s; ci->getValue().toStringSigned(s);
    if (ci->getBitWidth() <= 64) return Array{"c", ci->getSExtValue(), (int64_t)ci->getBitWidth()};
    return Array{"C", std::string(s), (int64_t)ci->getBitWidth()};
  }
  if (isa<ConstantPointerNull>(v)) return Array{"n"};
  if (isa<UndefValue>(v)) return Array{"u"};
  if (auto *f = dyn_cast<Function>(v)) return Array{"f", f->getName().str()};
  if (auto *g = dyn_cast<GlobalVariable>(v)) return Array{"g", g->getName().str()};
  if (auto *a = dyn_cast<Argument>(v)) return Array{"a", (int64_t)a->getArgNo()};
  if (auto *i = dyn_cast<Instruction>(v)) { auto it = Ids.find(i); return Array{"i", it == Ids.end() ? -1 : it->second}; }
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    Array ops; for (auto &o : ce->operands()) ops.push_back(operand(o.get()));
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off)) return Array{"ge", operand(gep->getPointerOperand()), off.getSExtValue()};
    }
    return Array{"ce", ce->getOpcodeName(), std::move(ops)};
  }
  if (auto *bb = dyn_cast<BasicBlock>(v)) return Array{"b", bb->getName().str()};
  if (isa<ConstantFP>(v)) return Array{"fp"};
  if (isa<Constant>(v)) return Array{"k", constant(cast<Constant>(v))};
  if (isa<MetadataAsValue>(v)) return Array{"m"};
  return Array{"?"};
}
static JV constant(const Constant *c, int depth) {
  if (depth > 8) return nullptr;
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return ci->getSExtValue(); return nullptr; }
  if (isa<ConstantPointerNull>(c)) return 0;
  if (auto *ca = dyn_cast<ConstantDataSequential>(c)) {
    Array a; for (unsigned i = 0; i < ca->getNumElements(); ++i) {
      if (ca->getElementType()->isIntegerTy()) { auto w = ca->getElementType()->getIntegerBitWidth(); uint64_t x = ca->getElementAsInteger(i); (void)w; a.push_back((int64_t)x);} else a.push_back(nullptr);
    } return a; }
  if (auto *ag = dyn_cast<ConstantAggregate>(c)) {
    Array a; for (auto &o : ag->operands()) a.push_back(constant(cast<Constant>(o.get()), depth + 1)); return a; }
  if (auto *z = dyn_cast<ConstantAggregateZero>(c)) {
    Type *t = z->getType(); Array a; uint64_t n = 0;
    if (auto *at = dyn_cast<ArrayType>(t)) n = at->getNumElements(); else if (auto *st = dyn_cast<StructType>(t)) n = st->getNumElements();
    if (n > 70000) return Object{{"zeros", (int64_t)n}};
    for (uint64_t i = 0; i < n; ++i) { Constant *e = z->getElementValue(i); a.push_back(constant(e, depth + 1)); }
    return a; }
  if (isa<UndefValue>(c)) return nullptr;
  return Object{{"ref", operand(c)}};
}

static int64_t seqN(GetElementPtrInst *gep, unsigned k) {
  SmallVector<llvm::Value *, 4> idx(gep->idx_begin(), gep->idx_begin() + k);
  Type *t = GetElementPtrInst::getIndexedType(gep->getSourceElementType(), idx);
  if (auto *at = dyn_cast_or_null<ArrayType>(t)) return at->getNumElements();
  return 0;
}
int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  DebugInfoFinder F; F.processModule(*M);
  for (auto *t : F.types()) {
    if (auto *d = dyn_cast<DIDerivedType>(t)) if (d->getTag() == dwarf::DW_TAG_typedef && d->getBaseType())
      if (auto *c = dyn_cast<DICompositeType>(d->getBaseType())) if (c->getName().empty()) DINames[c] = d->getName().str();
  }
  for (auto *t : F.types()) if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) {
      std::string n = compName(c); if (!c->isForwardDecl() || !DIStructs.count(n)) { if (!(DIStructs.count(n) && c->isForwardDecl())) DIStructs[n] = c; } }
  }
  Object out, structs, globals, funcs, enums;
  for (auto *t : F.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
    for (auto *e : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) enums[en->getName().str()] = en->getValue().getSExtValue();
  }
  for (auto &p : DIStructs) {
    Array fs; 
    for (auto *e : p.second->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) if (m->getTag() == dwarf::DW_TAG_member)
      fs.push_back(Object{{"name", m->getName().str()}, {"off", (int64_t)(m->getOffsetInBits() / 8)}, {"bits", (int64_t)m->getSizeInBits()}, {"type", ditype(m->getBaseType())}, {"bf", (m->getFlags() & DINode::FlagBitField) != 0}});
    structs[p.first] = Object{{"size", (int64_t)(p.second->getSizeInBits() / 8)}, {"fields", std::move(fs)}, {"union", p.second->getTag() == dwarf::DW_TAG_union_type}};
  }
  for (auto &g : M->globals()) {
    Object o{{"const", g.isConstant()}, {"internal", g.hasLocalLinkage()}, {"type", tstr(g.getValueType())}, {"decl", g.isDeclaration()}, {"bytes", g.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0}};
    if (g.hasInitializer()) o["init"] = constant(g.getInitializer());
    SmallVector<DIGlobalVariableExpression *, 1> gv; g.getDebugInfo(gv);
    if (!gv.empty()) { o["name"] = gv[0]->getVariable()->getName().str(); o["file"] = gv[0]->getVariable()->getFilename().str(); o["line"] = (int64_t)gv[0]->getVariable()->getLine(); o["di"] = ditype(gv[0]->getVariable()->getType()); }
    globals[g.getName().str()] = std::move(o);
  }
  for (auto &f : *M) {
    Object fo{{"decl", f.isDeclaration()}, {"internal", f.hasLocalLinkage()}, {"ret", tstr(f.getReturnType())}, {"addr_taken", f.hasAddressTaken()}, {"vararg", f.isVarArg()}, {"noret", f.doesNotReturn()}};
    Array args; 
    DISubprogram *sp = f.getSubprogram();
    DITypeRefArray tys; if (sp && sp->getType()) tys = sp->getType()->getTypeArray();
    if (sp) { fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine(); if (tys && tys.size() > 0) fo["dret"] = ditype(tys[0]); }
    std::map<unsigned, std::string> names;
    if (sp) for (auto *n : sp->getRetainedNodes()) if (auto *lv = dyn_cast<DILocalVariable>(n)) if (lv->isParameter()) names[lv->getArg()] = lv->getName().str();
    if (!f.isDeclaration()) for (auto &bb : f) for (auto &i : bb) if (auto *dvi = dyn_cast<DbgVariableIntrinsic>(&i)) { auto *lv = dvi->getVariable(); if (lv->isParameter() && lv->getScope()->getSubprogram() == sp) names[lv->getArg()] = lv->getName().str(); }
    for (auto &a : f.args()) {
      Object ao{{"ty", tstr(a.getType())}, {"name", names.count(a.getArgNo() + 1) ? names[a.getArgNo() + 1] : std::string()}};
      if (tys && a.getArgNo() + 1 < tys.size() && tys.size() == f.arg_size() + 1) ao["di"] = ditype(tys[a.getArgNo() + 1]);
      if (a.hasByValAttr()) ao["byval"] = true;
      args.push_back(std::move(ao));
    }
    fo["args"] = std::move(args);
    if (!f.isDeclaration()) {
      Ids.clear(); int n = 0; std::map<const BasicBlock*, int> bid; int b = 0;
      for (auto &bb : f) { bid[&bb] = b++; for (auto &i : bb) { if (isa<DbgInfoIntrinsic>(&i)) continue; Ids[&i] = n++; } }
      Array blocks; Object vars;
      for (auto &bb : f) for (auto &i : bb) if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&i)) {
        for (auto *v : dv->location_ops()) if (auto *vi = dyn_cast<Instruction>(v)) { auto it = Ids.find(vi); if (it != Ids.end()) vars[std::to_string(it->second)] = Array{dv->getVariable()->getName().str(), ditype(dv->getVariable()->getType())}; }
      }
      fo["vars"] = std::move(vars);
      for (auto &bb : f) {
        Array insts;
        for (auto &i : bb) {
          if (isa<DbgInfoIntrinsic>(&i)) continue;
          Object o{{"id", Ids[&i]}, {"op", i.getOpcodeName()}, {"ty", tstr(i.getType())}};
          if (auto &dl = i.getDebugLoc()) { auto *scope = cast<DIScope>(dl.getScope()); o["loc"] = Array{scope->getFilename().str(), (int64_t)dl.getLine()}; }
          Array ops;
          if (auto *ph = dyn_cast<PHINode>(&i)) {
            for (unsigned k = 0; k < ph->getNumIncomingValues(); ++k) ops.push_back(Array{operand(ph->getIncomingValue(k)), bid[ph->getIncomingBlock(k)]});
          } else if (auto *br = dyn_cast<BranchInst>(&i)) {
            if (br->isConditional()) { ops.push_back(operand(br->getCondition())); o["succ"] = Array{bid[br->getSuccessor(0)], bid[br->getSuccessor(1)]}; }
            else o["succ"] = Array{bid[br->getSuccessor(0)]};
          } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
            ops.push_back(operand(sw->getCondition())); Array cs; for (auto &c : sw->cases()) cs.push_back(Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs); o["default"] = bid[sw->getDefaultDest()];
          } else if (auto *gep = dyn_cast<GetElementPtrInst>(&i)) {
            ops.push_back(operand(gep->getPointerOperand()));
            MapVector<llvm::Value *, APInt> vo; APInt co(64, 0);
            if (gep->collectOffset(*DL, 64, vo, co)) {
              o["coff"] = co.getSExtValue(); Array vs; for (auto &p : vo) vs.push_back(Array{operand(p.first), p.second.getSExtValue()}); o["voff"] = std::move(vs);
            }
            o["sty"] = tstr(gep->getSourceElementType());
            Array path; 
            unsigned k = 0;
            for (auto gti = gep_type_begin(gep), e = gep_type_end(gep); gti != e; ++gti, ++k) {
              if (StructType *st = gti.getStructTypeOrNull()) { path.push_back(Array{"s", sname(st), (int64_t)cast<ConstantInt>(gti.getOperand())->getZExtValue(), (int64_t)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gti.getOperand())->getZExtValue()).getFixedValue()}); }
              else if (k == 0) path.push_back(Array{"p", operand(gti.getOperand())});
              else { ArrayType *at = nullptr; (void)at; path.push_back(Array{"x", operand(gti.getOperand()), (int64_t)seqN(gep, k)}); }
            }
            o["path"] = std::move(path);
          } else if (auto *cb = dyn_cast<CallBase>(&i)) {
            if (isa<DbgInfoIntrinsic>(cb)) continue;
            o["callee"] = operand(cb->getCalledOperand()->stripPointerCasts());
            for (auto &a : cb->args()) ops.push_back(operand(a.get()));
            if (cb->isInlineAsm()) o["asm"] = true;
          } else if (auto *al = dyn_cast<AllocaInst>(&i)) {
            o["aty"] = tstr(al->getAllocatedType()); o["bytes"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue();
            ops.push_back(operand(al->getArraySize()));
          } else {
            for (auto &x : i.operands()) ops.push_back(operand(x.get()));
            if (auto *c = dyn_cast<CmpInst>(&i)) { o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str(); if (c->getOperand(0)->getType()->isIntegerTy()) o["w"] = (int64_t)c->getOperand(0)->getType()->getIntegerBitWidth(); else o["w"] = 64; }
            if (auto *ev = dyn_cast<ExtractValueInst>(&i)) o["idx"] = (int64_t)ev->getIndices()[0];
            if (auto *iv = dyn_cast<InsertValueInst>(&i)) o["idx"] = (int64_t)iv->getIndices()[0];
            if (isa<CastInst>(&i)) o["from"] = tstr(i.getOperand(0)->getType());
            if (auto *ld = dyn_cast<LoadInst>(&i)) { o["vol"] = ld->isVolatile(); o["atomic"] = ld->isAtomic(); }
            if (auto *st = dyn_cast<StoreInst>(&i)) { o["vol"] = st->isVolatile(); o["atomic"] = st->isAtomic(); o["sty"] = tstr(st->getValueOperand()->getType()); }
            if (auto *rm = dyn_cast<AtomicRMWInst>(&i)) o["rmw"] = AtomicRMWInst::getOperationName(rm->getOperation()).str();
            if (isa<OverflowingBinaryOperator>(&i)) o["nuw"] = cast<OverflowingBinaryOperator>(&i)->hasNoUnsignedWrap(), o["nsw"] = cast<OverflowingBinaryOperator>(&i)->hasNoSignedWrap();
          }
          o["ops"] = std::move(ops);
          insts.push_back(std::move(o));
        }
        blocks.push_back(std::move(insts));
      }
      fo["blocks"] = std::move(blocks);
    }
    funcs[f.getName().str()] = std::move(fo);
  }
  out["structs"] = std::move(structs); out["globals"] = std::move(globals); out["functions"] = std::move(funcs); out["enums"] = std::move(enums);
  std::error_code ec; raw_fd_ostream os(argv[2], ec);
  os << JV(std::move(out)); os.close();
  return 0;
}
