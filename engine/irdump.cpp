#include <llvm/Support/Path.h>
// Dumps a textual/bitcode LLVM IR module as JSON for the ownership analyser.
// Everything needed by the analysis is made explicit here: struct offsets,
// access sizes, constant expressions, nounwind/noreturn facts, source lines.
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>
using namespace llvm;

static std::string path(const DIFile* f) {
  if (!f) return "";
  std::string n = f->getFilename().str();
  if (!n.empty() && n[0] != '/') n = f->getDirectory().str() + "/" + n;
  SmallString<256> p(n);
  sys::path::remove_dots(p, true);
  return p.str().str();
}


static const DataLayout* DL;
static std::map<const Value*, int> Ids;
static int NextId;

static int idOf(const Value* v) {
  auto it = Ids.find(v);
  if (it != Ids.end()) return it->second;
  return Ids[v] = NextId++;
}

// Flattened layout of a first-class type: list of [offset,size].
static void flatten(Type* t, uint64_t off, json::Array& out) {
  if (auto* st = dyn_cast<StructType>(t)) {
    const StructLayout* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); ++i)
      flatten(at->getElementType(), off + i * es, out);
    return;
  }
  out.push_back(json::Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(t).getFixedValue()});
}

static json::Value op(const Value* v);

static json::Value constant(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() == 1) return json::Array{"i", (int64_t)ci->getZExtValue()};
    if (ci->getBitWidth() <= 64) return json::Array{"i", (int64_t)ci->getSExtValue()};
    return json::Array{"i", (int64_t)ci->getValue().trunc(64).getSExtValue()};
  }
  if (isa<ConstantPointerNull>(c)) return json::Array{"n"};
  if (isa<UndefValue>(c)) {  // undef and poison
    if (c->getType()->isAggregateType()) {
      json::Array l; flatten(c->getType(), 0, l);
      json::Array vs; for (size_t i = 0; i < l.size(); ++i) vs.push_back(json::Array{"u"});
      return json::Array{"a", std::move(vs)};
    }
    return json::Array{"u"};
  }
  if (auto* f = dyn_cast<Function>(c)) return json::Array{"f", f->getName().str()};
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constant(a->getAliasee());
  if (auto* g = dyn_cast<GlobalVariable>(c)) return json::Array{"g", g->getName().str(), 0};
  if (auto* fp = dyn_cast<ConstantFP>(c)) { if (fp->isZero() && !fp->isNegative()) return json::Array{"i", 0}; return json::Array{"t"}; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0);
      if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
        json::Value b = constant(ce->getOperand(0));
        auto* arr = b.getAsArray();
        if (arr && (*arr)[0] == "g") {
          return json::Array{"g", (*arr)[1], *(*arr)[2].getAsInteger() + off.getSExtValue()};
        }
        if (off == 0) return b;
      }
    }
    if (ce->isCast()) return constant(ce->getOperand(0));
    return json::Array{"t"};
  }
  if (c->getType()->isAggregateType()) {
    json::Array vs;
    if (isa<ConstantAggregateZero>(c)) {
      json::Array l; flatten(c->getType(), 0, l);
      for (size_t i = 0; i < l.size(); ++i) vs.push_back(json::Array{"i", 0});
      return json::Array{"a", std::move(vs)};
    }
    unsigned n = c->getType()->isArrayTy() ? c->getType()->getArrayNumElements() : c->getType()->getStructNumElements();
    for (unsigned i = 0; i < n; ++i) {
      json::Value e = constant(c->getAggregateElement(i));
      auto* ea = e.getAsArray();
      if ((*ea)[0] == "a") for (auto& x : *(*ea)[1].getAsArray()) vs.push_back(x);
      else vs.push_back(std::move(e));
    }
    return json::Array{"a", std::move(vs)};
  }
  return json::Array{"t"};
}

static json::Value op(const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return constant(c);
  if (isa<MetadataAsValue>(v)) return json::Array{"t"};
  return json::Array{"l", idOf(v)};
}

// Flatten a global initialiser to [off,size,val] triples.
static void ginit(const Constant* c, uint64_t off, json::Array& out) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c)) {
    json::Array l; flatten(t, off, l);
    for (auto& e : l) { auto* a = e.getAsArray(); out.push_back(json::Array{(*a)[0], (*a)[1], json::Array{"i", 0}}); }
    return;
  }
  if (auto* st = dyn_cast<StructType>(t)) {
    const StructLayout* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      ginit(c->getAggregateElement(i), off + sl->getElementOffset(i), out);
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    if (isa<ConstantDataSequential>(c) && at->getElementType()->isIntegerTy(8)) return;  // strings
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); ++i)
      ginit(c->getAggregateElement((unsigned)i), off + i * es, out);
    return;
  }
  out.push_back(json::Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(t).getFixedValue(), constant(c)});
}

static int64_t bits(Type* t) { return t->isIntegerTy() ? (int64_t)t->getIntegerBitWidth() : 64; }

static unsigned flatCount(Type* t) { json::Array l; flatten(t, 0, l); return l.size(); }
static unsigned flatIndex(Type* t, ArrayRef<unsigned> idx) {
  unsigned pos = 0;
  for (unsigned i : idx) {
    if (auto* st = dyn_cast<StructType>(t)) {
      for (unsigned k = 0; k < i; ++k) pos += flatCount(st->getElementType(k));
      t = st->getElementType(i);
    } else {
      t = cast<ArrayType>(t)->getElementType();
      pos += i * flatCount(t);
    }
  }
  return pos;
}

static json::Object callInfo(const CallBase& cb) {
  json::Object o;
  json::Array args;
  for (const Use& u : cb.args()) args.push_back(op(u.get()));
  o["args"] = std::move(args);
  o["callee"] = op(cb.getCalledOperand()->stripPointerCasts());
  o["nounwind"] = cb.doesNotThrow();
  o["noreturn"] = cb.doesNotReturn();
  o["ret"] = !cb.getType()->isVoidTy();
  return o;
}

int main(int argc, char** argv) {
  if (argc < 3) { errs() << "usage: irdump in.bc out.json\n"; return 2; }
  LLVMContext ctx;
  SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, ctx);
  if (!m) { err.print(argv[0], errs()); return 2; }
  DL = &m->getDataLayout();
  json::Object root, globals, funcs;
  for (const GlobalVariable& g : m->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    json::Object o;
    o["size"] = (int64_t)DL->getTypeAllocSize(g.getValueType()).getFixedValue();
    o["const"] = g.isConstant();
    o["decl"] = g.isDeclaration();
    o["dem"] = demangle(g.getName().str());
    o["tls"] = g.isThreadLocal();
    o["linkage"] = (int64_t)g.getLinkage();
    SmallVector<DIGlobalVariableExpression*, 1> dbg;
    g.getDebugInfo(dbg);
    if (!dbg.empty()) { o["file"] = path(dbg[0]->getVariable()->getFile()); o["line"] = (int64_t)dbg[0]->getVariable()->getLine();
      const DIType* t = dbg[0]->getVariable()->getType();
      while (t && (t->getTag() == dwarf::DW_TAG_typedef || t->getTag() == dwarf::DW_TAG_array_type)) t = t->getTag() == dwarf::DW_TAG_typedef ? cast<DIDerivedType>(t)->getBaseType() : cast<DICompositeType>(t)->getBaseType();
      o["cq"] = t && t->getTag() == dwarf::DW_TAG_const_type; }
    if (g.hasInitializer()) { json::Array init; ginit(g.getInitializer(), 0, init); o["init"] = std::move(init); }
    globals[g.getName().str()] = std::move(o);
  }
  for (const Function& f : *m) {
    json::Object o;
    o["dem"] = demangle(f.getName().str());
    o["decl"] = f.isDeclaration();
    o["nounwind"] = f.doesNotThrow();
    o["noreturn"] = f.doesNotReturn();
    o["intrinsic"] = f.isIntrinsic();
    o["linkage"] = (int64_t)f.getLinkage();
    if (auto* sp = f.getSubprogram()) { o["file"] = path(sp->getFile()); o["line"] = (int64_t)sp->getLine(); }
    if (!f.isDeclaration()) {
      Ids.clear(); NextId = 0;
      json::Array params;
      for (const Argument& a : f.args()) {
        json::Object p; p["id"] = idOf(&a);
        if (a.hasByValAttr()) p["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType()).getFixedValue();
        params.push_back(std::move(p));
      }
      o["params"] = std::move(params);
      std::map<const BasicBlock*, int> bb; int n = 0;
      for (const BasicBlock& b : f) bb[&b] = n++;
      json::Array blocks;
      for (const BasicBlock& b : f) {
        json::Array ins;
        for (const Instruction& i : b) {
          if (isa<DbgInfoIntrinsic>(i)) continue;
          json::Object x;
          int64_t line = 0; 
          if (const DebugLoc& d = i.getDebugLoc()) { line = d.getLine(); auto* sc = cast<DIScope>(d.getScope()); x["f"] = path(sc->getFile()); }
          x["ln"] = line;
          if (!i.getType()->isVoidTy()) x["d"] = idOf(&i);
          switch (i.getOpcode()) {
            case Instruction::Alloca: {
              auto& a = cast<AllocaInst>(i);
              x["op"] = "alloca";
              x["size"] = (int64_t)DL->getTypeAllocSize(a.getAllocatedType()).getFixedValue();
              if (a.isArrayAllocation()) x["n"] = op(a.getArraySize());
              break;
            }
            case Instruction::Load: {
              x["op"] = "load"; x["p"] = op(i.getOperand(0));
              json::Array l; flatten(i.getType(), 0, l); x["lay"] = std::move(l);
              x["agg"] = i.getType()->isAggregateType();
              x["vol"] = cast<LoadInst>(i).isVolatile();
              x["atomic"] = cast<LoadInst>(i).isAtomic();
              break;
            }
            case Instruction::Store: {
              x["op"] = "store"; x["v"] = op(i.getOperand(0)); x["p"] = op(i.getOperand(1));
              json::Array l; flatten(i.getOperand(0)->getType(), 0, l); x["lay"] = std::move(l);
              x["agg"] = i.getOperand(0)->getType()->isAggregateType();
              break;
            }
            case Instruction::AtomicRMW: {
              auto& a = cast<AtomicRMWInst>(i);
              x["op"] = "rmw"; x["kind"] = (int64_t)a.getOperation(); x["p"] = op(a.getPointerOperand()); x["v"] = op(a.getValOperand());
              x["size"] = (int64_t)DL->getTypeStoreSize(a.getType()).getFixedValue();
              break;
            }
            case Instruction::AtomicCmpXchg: {
              auto& a = cast<AtomicCmpXchgInst>(i);
              x["op"] = "cmpxchg"; x["p"] = op(a.getPointerOperand()); x["c"] = op(a.getCompareOperand()); x["v"] = op(a.getNewValOperand());
              x["size"] = (int64_t)DL->getTypeStoreSize(a.getNewValOperand()->getType()).getFixedValue();
              break;
            }
            case Instruction::GetElementPtr: {
              auto& g = cast<GetElementPtrInst>(i);
              x["op"] = "gep"; x["p"] = op(g.getPointerOperand());
              int64_t off = 0; json::Array var;
              for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                const Value* idx = it.getOperand();
                if (StructType* st = it.getStructTypeOrNull()) {
                  off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                } else {
                  int64_t sz = DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
                  if (auto* ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * sz;
                  else var.push_back(json::Array{op(idx), sz});
                }
              }
              x["off"] = off; x["var"] = std::move(var);
              break;
            }
            case Instruction::ICmp: {
              auto& c = cast<ICmpInst>(i);
              x["op"] = "icmp"; x["pred"] = CmpInst::getPredicateName(c.getPredicate()).str();
              x["a"] = op(i.getOperand(0)); x["b"] = op(i.getOperand(1));
              x["bits"] = bits(i.getOperand(0)->getType());
              break;
            }
            case Instruction::FCmp: {
              auto& c = cast<CmpInst>(i);
              x["op"] = "fcmp"; x["pred"] = CmpInst::getPredicateName(c.getPredicate()).str();
              x["a"] = op(i.getOperand(0)); x["b"] = op(i.getOperand(1));
              break;
            }
            case Instruction::Br: {
              auto& br = cast<BranchInst>(i);
              if (br.isConditional()) { x["op"] = "br"; x["c"] = op(br.getCondition()); x["t"] = bb[br.getSuccessor(0)]; x["e"] = bb[br.getSuccessor(1)]; }
              else { x["op"] = "jmp"; x["t"] = bb[br.getSuccessor(0)]; }
              break;
            }
            case Instruction::Switch: {
              auto& s = cast<SwitchInst>(i);
              x["op"] = "switch"; x["v"] = op(s.getCondition()); x["def"] = bb[s.getDefaultDest()];
              json::Array cs; for (auto& c : s.cases()) cs.push_back(json::Array{(int64_t)c.getCaseValue()->getSExtValue(), bb[c.getCaseSuccessor()]});
              x["cases"] = std::move(cs);
              break;
            }
            case Instruction::PHI: {
              auto& p = cast<PHINode>(i);
              x["op"] = "phi"; json::Array in;
              for (unsigned k = 0; k < p.getNumIncomingValues(); ++k) in.push_back(json::Array{bb[p.getIncomingBlock(k)], op(p.getIncomingValue(k))});
              x["in"] = std::move(in);
              break;
            }
            case Instruction::Select: x["op"] = "select"; x["c"] = op(i.getOperand(0)); x["a"] = op(i.getOperand(1)); x["b"] = op(i.getOperand(2)); break;
            case Instruction::Ret: x["op"] = "ret"; if (i.getNumOperands()) x["v"] = op(i.getOperand(0)); break;
            case Instruction::Unreachable: x["op"] = "unreachable"; break;
            case Instruction::Resume: x["op"] = "resume"; x["v"] = op(i.getOperand(0)); break;
            case Instruction::LandingPad: {
              auto& lp = cast<LandingPadInst>(i);
              x["op"] = "landingpad"; x["cleanup"] = lp.isCleanup();
              json::Array cl;
              for (unsigned k = 0; k < lp.getNumClauses(); ++k) {
                if (lp.isCatch(k)) cl.push_back(json::Array{"catch", constant(lp.getClause(k))});
                else cl.push_back(json::Array{"filter"});
              }
              x["clauses"] = std::move(cl);
              break;
            }
            case Instruction::ExtractValue: {
              auto& e = cast<ExtractValueInst>(i);
              x["op"] = "extractvalue"; x["v"] = op(i.getOperand(0));
              x["idx"] = (int64_t)flatIndex(e.getAggregateOperand()->getType(), e.getIndices());
              x["n"] = (int64_t)flatCount(e.getType()); x["agg"] = e.getType()->isAggregateType();
              break;
            }
            case Instruction::InsertValue: {
              auto& e = cast<InsertValueInst>(i);
              x["op"] = "insertvalue"; x["a"] = op(i.getOperand(0)); x["v"] = op(i.getOperand(1));
              x["idx"] = (int64_t)flatIndex(e.getAggregateOperand()->getType(), e.getIndices());
              x["n"] = (int64_t)flatCount(e.getInsertedValueOperand()->getType());
              break;
            }
            case Instruction::Call: case Instruction::Invoke: {
              auto& cb = cast<CallBase>(i);
              bool inv = i.getOpcode() == Instruction::Invoke;
              x["op"] = inv ? "invoke" : "call";
              for (auto& kv : callInfo(cb)) x[kv.first] = std::move(kv.second);
              if (inv) { auto& iv = cast<InvokeInst>(i); x["normal"] = bb[iv.getNormalDest()]; x["unwind"] = bb[iv.getUnwindDest()]; }
              break;
            }
            default:
              if (i.isCast()) {
                x["op"] = "cast"; x["kind"] = i.getOpcodeName(); x["v"] = op(i.getOperand(0));
                x["fb"] = bits(i.getOperand(0)->getType()); x["tb"] = bits(i.getType());
              } else if (i.isBinaryOp()) {
                x["op"] = "bin"; x["kind"] = i.getOpcodeName(); x["a"] = op(i.getOperand(0)); x["b"] = op(i.getOperand(1)); x["bits"] = bits(i.getType());
              } else if (i.getOpcode() == Instruction::Freeze) {
                x["op"] = "cast"; x["kind"] = "freeze"; x["v"] = op(i.getOperand(0)); x["fb"] = 64; x["tb"] = 64;
              } else {
                x["op"] = "unsupported"; x["kind"] = i.getOpcodeName();
              }
          }
          ins.push_back(std::move(x));
        }
        blocks.push_back(std::move(ins));
      }
      o["blocks"] = std::move(blocks);
    }
    funcs[f.getName().str()] = std::move(o);
  }
  json::Object aliases;
  for (const GlobalAlias& a : m->aliases()) aliases[a.getName().str()] = constant(a.getAliasee());
  root["globals"] = std::move(globals);
  root["functions"] = std::move(funcs);
  root["aliases"] = std::move(aliases);
  std::error_code ec;
  raw_fd_ostream os(argv[2], ec);
  if (ec) { errs() << ec.message() << "\n"; return 2; }
  os << json::Value(std::move(root)) << "\n";
  return 0;
}
