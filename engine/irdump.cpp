// irdump: reads an LLVM module (the library compiled from /repo's current
// sources) and writes a JSON description of it: functions, blocks, resolved
// operands, access sizes, byte offsets, source lines, struct layouts taken from
// the debug information, and globals.  It decides nothing.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
#include <set>
using namespace llvm;
using json::Object; using json::Array;

static const DataLayout *DL;
static std::map<const llvm::Value *, int> ids;

static std::string istr(const APInt &v) { SmallString<32> s; v.toStringSigned(s); return std::string(s); }

static json::Value operand(const llvm::Value *v) {
  if (auto *ci = dyn_cast<ConstantInt>(v))
    return Array{"c", istr(ci->getValue()), (int64_t)ci->getBitWidth()};
  if (isa<ConstantPointerNull>(v)) return Array{"n"};
  if (isa<UndefValue>(v)) return Array{"u"};
  if (auto *f = dyn_cast<Function>(v)) return Array{"f", f->getName().str()};
  if (auto *g = dyn_cast<GlobalVariable>(v)) return Array{"g", g->getName().str(), 0};
  if (auto *ga = dyn_cast<GlobalAlias>(v)) return operand(ga->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off)) {
        auto b = operand(gep->getPointerOperand());
        if (auto *a = b.getAsArray())
          if ((*a)[0].getAsString() == StringRef("g"))
            return Array{"g", *(*a)[1].getAsString(), off.getSExtValue() + *(*a)[2].getAsInteger()};
      }
    }
    if (ce->isCast()) {
      auto b = operand(ce->getOperand(0));
      return b;
    }
    return Array{"x", std::string(ce->getOpcodeName())};
  }
  auto it = ids.find(v);
  if (it != ids.end()) return Array{"v", it->second};
  return Array{"x", "?"};
}

static std::string tystr(Type *t) {
  if (t->isPointerTy()) return "p";
  if (t->isVoidTy()) return "void";
  if (auto *i = dyn_cast<IntegerType>(t)) return "i" + std::to_string(i->getBitWidth());
  std::string s; raw_string_ostream os(s); t->print(os); return os.str();
}
static int64_t tysize(Type *t) {
  if (!t->isSized()) return 0;
  return (int64_t)DL->getTypeStoreSize(t).getFixedValue();
}

static DIType *strip(DIType *t) {
  while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
    unsigned tag = d->getTag();
    if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type || tag == dwarf::DW_TAG_volatile_type)
      t = d->getBaseType();
    else break;
  }
  return t;
}
static std::string ditype(DIType *t) {
  if (!t) return "void";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    if (d->getTag() == dwarf::DW_TAG_pointer_type) return ditype(d->getBaseType()) + "*";
    if (d->getTag() == dwarf::DW_TAG_typedef) return d->getName().str();
    return ditype(d->getBaseType());
  }
  if (isa<DISubroutineType>(t)) return "fn";
  if (!t->getName().empty()) return t->getName().str();
  return "anon";
}

int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, ctx);
  if (!m) { err.print("irdump", errs()); return 2; }
  DL = &m->getDataLayout();
  Object top;

  // struct layouts
  Object structs, typedefs;
  DebugInfoFinder dif; dif.processModule(*m);
  std::map<const DIType *, std::string> anon;
  for (auto *t : dif.types()) {
    if (auto *d = dyn_cast<DIDerivedType>(t))
      if (d->getTag() == dwarf::DW_TAG_typedef) {
        auto *b = strip(d->getBaseType());
        if (auto *c = dyn_cast_or_null<DICompositeType>(b)) {
          if (c->getName().empty()) anon[c] = d->getName().str();
          else typedefs[d->getName()] = c->getName().str();
        }
      }
  }
  for (auto *t : dif.types()) {
    auto *c = dyn_cast<DICompositeType>(t);
    if (!c || c->getTag() != dwarf::DW_TAG_structure_type || c->isForwardDecl()) continue;
    std::string name = c->getName().str();
    if (name.empty()) { auto it = anon.find(c); if (it == anon.end()) continue; name = it->second; }
    Array fields;
    for (auto *e : c->getElements())
      if (auto *d = dyn_cast<DIDerivedType>(e))
        if (d->getTag() == dwarf::DW_TAG_member)
          fields.push_back(Object{{"name", d->getName().str()}, {"off", (int64_t)d->getOffsetInBits() / 8},
                                  {"size", (int64_t)(strip(d->getBaseType()) ? strip(d->getBaseType())->getSizeInBits() : d->getSizeInBits()) / 8},
                                  {"type", ditype(d->getBaseType())}});
    structs[name] = Object{{"size", (int64_t)c->getSizeInBits() / 8}, {"fields", std::move(fields)}};
  }
  top["structs"] = std::move(structs);
  top["typedefs"] = std::move(typedefs);

  Object globals;
  for (auto &g : m->globals()) {
    Object o;
    o["const"] = g.isConstant();
    o["size"] = tysize(g.getValueType());
    o["ext"] = g.isDeclaration();
    o["tls"] = g.isThreadLocal();
    {
      SmallVector<const llvm::User *, 8> todo(g.user_begin(), g.user_end());
      std::set<const llvm::User *> seen;
      while (!todo.empty()) {
        auto *x = todo.pop_back_val();
        if (!seen.insert(x).second) continue;
        if (isa<GlobalVariable>(x)) { o["escapes"] = true; break; }
        if (isa<Constant>(x) && !isa<Function>(x)) todo.append(x->user_begin(), x->user_end());
      }
    }
    if (g.hasInitializer()) {
      auto *in = g.getInitializer();
      if (auto *cd = dyn_cast<ConstantDataSequential>(in)) {
        o["esz"] = (int64_t)cd->getElementByteSize();
        Array a;
        if (cd->getElementType()->isIntegerTy())
          for (unsigned i = 0; i < cd->getNumElements(); i++)
            a.push_back(istr(cd->getElementAsAPInt(i)));
        o["init"] = std::move(a);
      } else if (isa<ConstantAggregateZero>(in) || in->isNullValue()) o["zero"] = true;
      else if (auto *ci = dyn_cast<ConstantInt>(in)) { o["esz"] = tysize(ci->getType()); o["init"] = Array{istr(ci->getValue())}; }
    }
    SmallVector<DIGlobalVariableExpression *, 1> gvs; g.getDebugInfo(gvs);
    if (!gvs.empty()) { o["line"] = (int64_t)gvs[0]->getVariable()->getLine(); o["file"] = gvs[0]->getVariable()->getFilename().str(); }
    globals[g.getName()] = std::move(o);
  }
  top["globals"] = std::move(globals);

  Object funcs;
  for (auto &f : *m) {
    Object fo;
    fo["decl"] = f.isDeclaration();
    fo["internal"] = f.hasLocalLinkage();
    fo["ret"] = tystr(f.getReturnType());
    fo["vararg"] = f.isVarArg();
    ids.clear(); int n = 0;
    Array params;
    for (auto &a : f.args()) { ids[&a] = n; params.push_back(Object{{"id", n}, {"ty", tystr(a.getType())}}); n++; }
    fo["params"] = std::move(params);
    if (auto *sp = f.getSubprogram()) {
      fo["line"] = (int64_t)sp->getLine(); fo["file"] = sp->getFilename().str();
      Array tys;
      if (auto *st = sp->getType()) for (auto *ty : st->getTypeArray()) tys.push_back(ditype(ty));
      fo["ditypes"] = std::move(tys);
    }
    if (!f.isDeclaration()) {
      std::map<const BasicBlock *, int> bid; int nb = 0;
      for (auto &b : f) { bid[&b] = nb++; for (auto &i : b) ids[&i] = n++; }
      Array blocks;
      for (auto &b : f) {
        Array ins;
        for (auto &i : b) {
          if (isa<DbgInfoIntrinsic>(i)) continue;
          Object o;
          o["id"] = ids[&i]; o["op"] = std::string(i.getOpcodeName()); o["ty"] = tystr(i.getType());
          if (auto &dl = i.getDebugLoc()) o["line"] = (int64_t)dl.getLine();
          Array ops;
          if (auto *p = dyn_cast<PHINode>(&i)) {
            for (unsigned k = 0; k < p->getNumIncomingValues(); k++)
              ops.push_back(Array{operand(p->getIncomingValue(k)), bid[p->getIncomingBlock(k)]});
          } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
            ops.push_back(operand(g->getPointerOperand()));
            MapVector<llvm::Value *, APInt> vo; APInt co(64, 0);
            if (!g->collectOffset(*DL, 64, vo, co)) o["bad"] = true;
            o["coff"] = co.getSExtValue();
            Array va;
            for (auto &kv : vo) va.push_back(Array{operand(kv.first), kv.second.getSExtValue()});
            o["voff"] = std::move(va);
            o["inbounds"] = g->isInBounds();
          } else if (auto *br = dyn_cast<BranchInst>(&i)) {
            if (br->isConditional()) { ops.push_back(operand(br->getCondition())); o["succ"] = Array{bid[br->getSuccessor(0)], bid[br->getSuccessor(1)]}; }
            else o["succ"] = Array{bid[br->getSuccessor(0)]};
          } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
            ops.push_back(operand(sw->getCondition()));
            Array cs;
            for (auto &c : sw->cases()) cs.push_back(Array{istr(c.getCaseValue()->getValue()), bid[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs); o["succ"] = Array{bid[sw->getDefaultDest()]};
          } else if (auto *c = dyn_cast<CallBase>(&i)) {
            o["callee"] = operand(c->getCalledOperand());
            if (auto *cb = dyn_cast<CallInst>(&i)) if (cb->isInlineAsm()) o["asm"] = true;
            for (auto &a : c->args()) ops.push_back(operand(a.get()));
            Array as; for (auto &a : c->args()) as.push_back(tystr(a->getType()));
            o["atys"] = std::move(as);
          } else if (auto *al = dyn_cast<AllocaInst>(&i)) {
            o["esz"] = tysize(al->getAllocatedType());
            o["aty"] = tystr(al->getAllocatedType());
            ops.push_back(operand(al->getArraySize()));
            o["static"] = al->isStaticAlloca();
          } else if (auto *l = dyn_cast<LoadInst>(&i)) {
            ops.push_back(operand(l->getPointerOperand())); o["size"] = tysize(l->getType());
            o["volatile"] = l->isVolatile(); o["atomic"] = l->isAtomic();
          } else if (auto *s = dyn_cast<StoreInst>(&i)) {
            ops.push_back(operand(s->getValueOperand())); ops.push_back(operand(s->getPointerOperand()));
            o["size"] = tysize(s->getValueOperand()->getType()); o["vty"] = tystr(s->getValueOperand()->getType());
            o["atomic"] = s->isAtomic();
          } else if (auto *ic = dyn_cast<ICmpInst>(&i)) {
            o["pred"] = ICmpInst::getPredicateName(ic->getPredicate()).str();
            o["oty"] = tystr(ic->getOperand(0)->getType());
            ops.push_back(operand(ic->getOperand(0))); ops.push_back(operand(ic->getOperand(1)));
          } else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
            ops.push_back(operand(ev->getAggregateOperand()));
            Array ix; for (auto x : ev->indices()) ix.push_back((int64_t)x); o["idx"] = std::move(ix);
          } else {
            for (auto &u : i.operands()) ops.push_back(operand(u.get()));
            if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&i)) { o["nsw"] = ob->hasNoSignedWrap(); o["nuw"] = ob->hasNoUnsignedWrap(); }
            if (isa<CastInst>(i)) o["oty"] = tystr(i.getOperand(0)->getType());
          }
          o["ops"] = std::move(ops);
          ins.push_back(std::move(o));
        }
        blocks.push_back(std::move(ins));
      }
      fo["blocks"] = std::move(blocks);
    }
    funcs[f.getName()] = std::move(fo);
  }
  top["functions"] = std::move(funcs);
  outs() << json::Value(std::move(top)) << "\n";
  return 0;
}
