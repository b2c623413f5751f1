// irdump: dump an LLVM module (bitcode) as JSON for the contract verifier.
// Purely syntactic: one JSON object per function, instruction by instruction.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/ADT/MapVector.h"
#include <map>
#include <set>
using namespace llvm;
namespace js = llvm::json;

static const DataLayout *DL;
static std::map<const Value *, int> ids;
static std::map<const BasicBlock *, int> bbs;

static js::Value dump_type(Type *t)
{
 if (t->isVoidTy()) return "void";
 if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
 if (t->isPointerTy()) return "ptr";
 if (t->isFloatTy()) return "f32";
 if (t->isDoubleTy()) return "f64";
 if (t->isX86_FP80Ty()) return "f80";
 if (auto *a = dyn_cast<ArrayType>(t))
 {
  js::Object o;
  o["a"] = dump_type(a->getElementType());
  o["n"] = int64_t(a->getNumElements());
  o["es"] = int64_t(DL->getTypeAllocSize(a->getElementType()));
  return o;
 }
 if (auto *s = dyn_cast<StructType>(t))
 {
  js::Object o;
  js::Array fields, offs;
  if (s->isSized())
  {
   auto *l = DL->getStructLayout(s);
   for (unsigned i = 0; i < s->getNumElements(); i++)
   {
    fields.push_back(dump_type(s->getElementType(i)));
    offs.push_back(int64_t(l->getElementOffset(i)));
   }
   o["size"] = int64_t(DL->getTypeAllocSize(s));
  }
  o["s"] = std::move(fields);
  o["o"] = std::move(offs);
  if (s->hasName()) o["name"] = s->getName().str();
  return o;
 }
 if (auto *v = dyn_cast<FixedVectorType>(t))
 {
  js::Object o;
  o["v"] = dump_type(v->getElementType());
  o["n"] = int64_t(v->getNumElements());
  return o;
 }
 std::string s; raw_string_ostream os(s); t->print(os);
 return s;
}

static js::Value dump_const(const Constant *c);

static js::Value dump_op(const Value *v)
{
 if (auto *c = dyn_cast<Constant>(v)) return dump_const(c);
 if (isa<BasicBlock>(v)) return js::Array{"b", bbs[cast<BasicBlock>(v)]};
 auto it = ids.find(v);
 if (it != ids.end()) return js::Array{"r", it->second};
 return js::Array{"?"};
}

static js::Value dump_const(const Constant *c)
{
 if (auto *i = dyn_cast<ConstantInt>(c))
 {
  SmallString<40> s; i->getValue().toString(s, 10, false);
  return js::Array{"i", int64_t(i->getBitWidth()), s.str().str()};
 }
 if (isa<ConstantPointerNull>(c)) return js::Array{"null"};
 if (isa<UndefValue>(c)) return js::Array{"undef", dump_type(c->getType())};
 if (isa<ConstantAggregateZero>(c)) return js::Array{"zero", dump_type(c->getType())};
 if (auto *f = dyn_cast<ConstantFP>(c))
 {
  SmallString<40> s; f->getValueAPF().bitcastToAPInt().toString(s, 10, false);
  return js::Array{"fp", dump_type(c->getType()), s.str().str()};
 }
 if (auto *f = dyn_cast<Function>(c)) return js::Array{"f", f->getName().str()};
 if (auto *f = dyn_cast<GlobalAlias>(c)) return dump_const(f->getAliasee());
 if (auto *g = dyn_cast<GlobalVariable>(c)) return js::Array{"g", g->getName().str(), 0};
 if (auto *a = dyn_cast<ConstantDataSequential>(c))
 {
  js::Array e;
  for (unsigned i = 0; i < a->getNumElements(); i++) e.push_back(dump_const(a->getElementAsConstant(i)));
  return js::Array{"agg", std::move(e), dump_type(c->getType())};
 }
 if (auto *a = dyn_cast<ConstantAggregate>(c))
 {
  js::Array e;
  for (unsigned i = 0; i < a->getNumOperands(); i++) e.push_back(dump_const(a->getOperand(i)));
  return js::Array{"agg", std::move(e), dump_type(c->getType())};
 }
 if (auto *ce = dyn_cast<ConstantExpr>(c))
 {
  if (ce->getOpcode() == Instruction::GetElementPtr)
  {
   auto *g = cast<GEPOperator>(ce);
   APInt off(64, 0);
   if (g->accumulateConstantOffset(*DL, off))
    return js::Array{"gep", dump_const(cast<Constant>(g->getPointerOperand())), off.getSExtValue()};
  }
  js::Array e;
  for (unsigned i = 0; i < ce->getNumOperands(); i++) e.push_back(dump_const(ce->getOperand(i)));
  return js::Array{"ce", ce->getOpcodeName(), std::move(e), dump_type(c->getType())};
 }
 return js::Array{"?c"};
}

static std::string clean(std::string s) { return s; }

static js::Value di_type(const DIType *t);
static std::string di_name(const DIType *t)
{
 if (!t) return "void";
 if (auto *d = dyn_cast<DIDerivedType>(t))
 {
  switch (d->getTag())
  {
   case dwarf::DW_TAG_pointer_type: return di_name(d->getBaseType()) + "*";
   case dwarf::DW_TAG_reference_type: return di_name(d->getBaseType()) + "&";
   case dwarf::DW_TAG_rvalue_reference_type: return di_name(d->getBaseType()) + "&&";
   case dwarf::DW_TAG_const_type: return di_name(d->getBaseType());
   case dwarf::DW_TAG_volatile_type: return di_name(d->getBaseType());
   case dwarf::DW_TAG_typedef: return di_name(d->getBaseType());
   default: break;
  }
 }
 if (auto *s = dyn_cast<DICompositeType>(t))
 {
  if (s->getTag() == dwarf::DW_TAG_array_type)
  {
   std::string r = di_name(s->getBaseType());
   for (auto *e : s->getElements())
    if (auto *sr = dyn_cast<DISubrange>(e))
     if (auto *ci = sr->getCount().dyn_cast<ConstantInt *>())
      r += "[" + std::to_string(ci->getSExtValue()) + "]";
   return r;
  }
  std::string n = s->getName().str();
  const DIScope *sc = s->getScope();
  while (sc)
  {
   if (auto *ns = dyn_cast<DINamespace>(sc))
   { if (!ns->getExportSymbols()) n = (ns->getName().empty() ? std::string("(anonymous)") : ns->getName().str()) + "::" + n; sc = ns->getScope(); }
   else if (auto *ct = dyn_cast<DICompositeType>(sc)) { n = ct->getName().str() + "::" + n; sc = ct->getScope(); }
   else break;
  }
  return n;
 }
 return t->getName().str();
}

int main(int argc, char **argv)
{
 LLVMContext ctx; SMDiagnostic err;
 auto m = parseIRFile(argv[1], err, ctx);
 if (!m) { err.print("irdump", errs()); return 2; }
 DataLayout dl(m->getDataLayout()); DL = &dl;
 std::error_code ec;
 raw_fd_ostream out(argv[2], ec);
 js::OStream J(out);
 J.objectBegin();

 // globals
 J.attributeBegin("globals"); J.objectBegin();
 for (auto &g : m->globals())
 {
  js::Object o;
  o["dem"] = demangle(g.getName().str());
  o["ty"] = dump_type(g.getValueType());
  o["size"] = g.getValueType()->isSized() ? int64_t(dl.getTypeAllocSize(g.getValueType())) : int64_t(0);
  o["const"] = g.isConstant();
  if (g.hasInitializer()) o["init"] = dump_const(g.getInitializer());
  J.attribute(g.getName(), std::move(o));
 }
 J.objectEnd(); J.attributeEnd();

 // debug-info types
 J.attributeBegin("types"); J.objectBegin();
 {
  DebugInfoFinder F; F.processModule(*m);
  std::set<std::string> seen;
  for (auto *t : F.types())
  {
   auto *c = dyn_cast<DICompositeType>(t);
   if (!c || c->isForwardDecl()) continue;
   if (c->getTag() == dwarf::DW_TAG_array_type) continue;
   std::string n = di_name(c);
   if (!seen.insert(n).second) continue;
   js::Object o;
   o["size"] = int64_t(c->getSizeInBits() / 8);
   o["tag"] = c->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : c->getTag() == dwarf::DW_TAG_union_type ? "union" : "struct";
   js::Array mem, vm, bases, tp;
   for (auto *e : c->getElements())
   {
    if (auto *d = dyn_cast<DIDerivedType>(e))
    {
     js::Object mo;
     mo["name"] = d->getName().str();
     mo["off"] = int64_t(d->getOffsetInBits() / 8);
     mo["type"] = di_name(d->getBaseType());
     uint64_t sz = d->getBaseType() ? d->getBaseType()->getSizeInBits() / 8 : 0;
     mo["size"] = int64_t(d->getSizeInBits() ? d->getSizeInBits() / 8 : sz);
     if (d->isVirtual()) mo["virtual"] = true;
     if (d->getTag() == dwarf::DW_TAG_inheritance) bases.push_back(std::move(mo));
     else if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember()) mem.push_back(std::move(mo));
    }
    else if (auto *s = dyn_cast<DISubprogram>(e))
    {
     if (s->getVirtuality())
     {
      js::Object mo;
      mo["name"] = s->getName().str();
      mo["link"] = s->getLinkageName().str();
      mo["vi"] = int64_t(s->getVirtualIndex());
      vm.push_back(std::move(mo));
     }
    }
    else if (auto *en = dyn_cast<DIEnumerator>(e))
    {
     js::Object mo; mo["name"] = en->getName().str(); mo["value"] = en->getValue().getSExtValue();
     mem.push_back(std::move(mo));
    }
   }
   for (auto *p : c->getTemplateParams())
   {
    if (auto *q = dyn_cast<DITemplateTypeParameter>(p))
    {
     js::Object mo; mo["type"] = di_name(q->getType());
     mo["size"] = int64_t(q->getType() ? q->getType()->getSizeInBits() / 8 : 0);
     tp.push_back(std::move(mo));
    }
   }
   o["members"] = std::move(mem); o["bases"] = std::move(bases); o["virt"] = std::move(vm); o["tparams"] = std::move(tp);
   J.attribute(n, std::move(o));
  }
 }
 J.objectEnd(); J.attributeEnd();

 J.attributeBegin("functions"); J.objectBegin();
 for (auto &f : *m)
 {
  if (f.isIntrinsic() && f.getName().starts_with("llvm.dbg")) continue;
  ids.clear(); bbs.clear();
  int n = 0;
  js::Object fo;
  fo["dem"] = demangle(f.getName().str());
  fo["ret"] = dump_type(f.getReturnType());
  js::Array args;
  for (auto &a : f.args())
  {
   ids[&a] = n++;
   js::Object ao; ao["t"] = dump_type(a.getType());
   ao["n"] = a.getName().str();
   if (a.hasStructRetAttr()) { ao["sret"] = dump_type(a.getParamStructRetType()); }
   if (a.hasByValAttr()) { ao["byval"] = dump_type(a.getParamByValType()); }
   args.push_back(std::move(ao));
  }
  fo["args"] = std::move(args);
  if (f.isDeclaration()) { fo["decl"] = true; J.attribute(f.getName(), std::move(fo)); continue; }
  fo["ae"] = f.hasAvailableExternallyLinkage();
  if (auto *sp = f.getSubprogram())
  {
   fo["file"] = sp->getFilename().str(); fo["line"] = int64_t(sp->getLine());
   if (auto *sc = dyn_cast_or_null<DIType>(sp->getScope())) fo["cls"] = di_name(sc);
   js::Array pt;
   if (auto *st = sp->getType()) for (auto *t : st->getTypeArray()) pt.push_back(di_name(t));
   fo["ptypes"] = std::move(pt);
  }
  int nb = 0;
  for (auto &b : f) bbs[&b] = nb++;
  for (auto &b : f) for (auto &i : b) ids[&i] = n++;
  js::Array blocks;
  for (auto &b : f)
  {
   js::Array instrs;
   for (auto &i : b)
   {
    if (isa<DbgInfoIntrinsic>(i)) continue;
    js::Object o;
    o["op"] = i.getOpcodeName();
    o["id"] = ids[&i];
    if (!i.getType()->isVoidTy()) o["ty"] = dump_type(i.getType());
    if (auto &loc = i.getDebugLoc()) o["ln"] = int64_t(loc.getLine());
    js::Array ops;
    if (auto *p = dyn_cast<PHINode>(&i))
    {
     for (unsigned k = 0; k < p->getNumIncomingValues(); k++)
      ops.push_back(js::Array{dump_op(p->getIncomingValue(k)), bbs[p->getIncomingBlock(k)]});
    }
    else if (auto *g = dyn_cast<GetElementPtrInst>(&i))
    {
     ops.push_back(dump_op(g->getPointerOperand()));
     MapVector<Value *, APInt> vo; APInt co(64, 0);
     g->collectOffset(dl, 64, vo, co);
     o["off"] = co.getSExtValue();
     js::Array terms;
     for (auto &kv : vo) terms.push_back(js::Array{dump_op(kv.first), kv.second.getSExtValue(), dump_type(kv.first->getType())});
     o["terms"] = std::move(terms);
    }
    else if (auto *cb = dyn_cast<CallBase>(&i))
    {
     for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) ops.push_back(js::Array{"md"}); else ops.push_back(dump_op(a)); }
     js::Array at; for (auto &a : cb->args()) at.push_back(dump_type(a->getType()));
     o["at"] = std::move(at);
     o["callee"] = dump_op(cb->getCalledOperand());
     if (auto *inv = dyn_cast<InvokeInst>(&i)) { o["normal"] = bbs[inv->getNormalDest()]; o["unwind"] = bbs[inv->getUnwindDest()]; }
    }
    else if (auto *sw = dyn_cast<SwitchInst>(&i))
    {
     ops.push_back(dump_op(sw->getCondition()));
     o["default"] = bbs[sw->getDefaultDest()];
     js::Array cs; for (auto &c : sw->cases()) cs.push_back(js::Array{dump_const(c.getCaseValue()), bbs[c.getCaseSuccessor()]});
     o["cases"] = std::move(cs);
    }
    else if (auto *br = dyn_cast<BranchInst>(&i))
    {
     if (br->isConditional()) ops.push_back(dump_op(br->getCondition()));
     js::Array s; for (unsigned k = 0; k < br->getNumSuccessors(); k++) s.push_back(bbs[br->getSuccessor(k)]);
     o["succ"] = std::move(s);
    }
    else if (auto *lp = dyn_cast<LandingPadInst>(&i))
    {
     o["cleanup"] = lp->isCleanup();
     js::Array cl; for (unsigned k = 0; k < lp->getNumClauses(); k++)
      cl.push_back(js::Array{lp->isCatch(k) ? "catch" : "filter", dump_const(lp->getClause(k))});
     o["clauses"] = std::move(cl);
    }
    else
    {
     for (auto &v : i.operands()) ops.push_back(dump_op(v));
    }
    if (auto *c = dyn_cast<CmpInst>(&i)) { o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str(); o["oty"] = dump_type(c->getOperand(0)->getType()); }
    if (auto *c = dyn_cast<CastInst>(&i)) o["sty"] = dump_type(c->getSrcTy());
    if (auto *s = dyn_cast<StoreInst>(&i)) { o["sty"] = dump_type(s->getValueOperand()->getType()); }
    if (auto *a = dyn_cast<AllocaInst>(&i)) { o["aty"] = dump_type(a->getAllocatedType()); o["asz"] = int64_t(dl.getTypeAllocSize(a->getAllocatedType())); o["nm"] = a->getName().str(); }
    if (auto *e = dyn_cast<ExtractValueInst>(&i)) { js::Array ix; for (auto k : e->indices()) ix.push_back(int64_t(k)); o["idx"] = std::move(ix); }
    if (auto *e = dyn_cast<InsertValueInst>(&i)) { js::Array ix; for (auto k : e->indices()) ix.push_back(int64_t(k)); o["idx"] = std::move(ix); }
    o["ops"] = std::move(ops);
    instrs.push_back(std::move(o));
   }
   blocks.push_back(std::move(instrs));
  }
  fo["blocks"] = std::move(blocks);
  J.attribute(f.getName(), std::move(fo));
 }
 J.objectEnd(); J.attributeEnd();
 J.objectEnd();
 return 0;
}
