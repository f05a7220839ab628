// irdump: link LLVM bitcode of the analysed sources, inline every helper that is
// not an API entry point, promote locals to SSA and dump the program as JSON.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
#include <fstream>
#include <functional>
using namespace llvm;

static std::map<std::string, const DICompositeType *> DITypes;   // struct name -> DI
static std::string baseName(StringRef n) {
  std::string s = n.str();
  for (const char *p : {"struct.", "union.", "class."})
    if (s.rfind(p, 0) == 0) { s = s.substr(strlen(p)); break; }
  // strip ".123" suffixes
  size_t d = s.rfind('.');
  if (d != std::string::npos && d + 1 < s.size() &&
      s.find_first_not_of("0123456789", d + 1) == std::string::npos)
    s = s.substr(0, d);
  return s;
}
static std::string stName(Instruction &in, StructType *st) {
  if (auto *md = in.getMetadata("onst")) return cast<MDString>(md->getOperand(0))->getString().str();
  return baseName(st->getName());
}
static const DIType *strip(const DIType *t) {
  while (t) {
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_const_type ||
          d->getTag() == dwarf::DW_TAG_volatile_type || d->getTag() == dwarf::DW_TAG_restrict_type) {
        t = d->getBaseType(); continue;
      }
    }
    break;
  }
  return t;
}
static std::string tyName(const DIType *t) {
  if (!t) return "void";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    if (d->getTag() == dwarf::DW_TAG_pointer_type) return tyName(d->getBaseType()) + "*";
    if (d->getTag() == dwarf::DW_TAG_const_type || d->getTag() == dwarf::DW_TAG_volatile_type)
      return tyName(d->getBaseType());
    if (d->getTag() == dwarf::DW_TAG_typedef) {
      const DIType *u = strip(t);
      if (u && isa<DICompositeType>(u) && !u->getName().empty()) return u->getName().str();
      return d->getName().str();
    }
    if (!d->getName().empty()) return d->getName().str();
    return tyName(d->getBaseType());
  }
  if (isa<DISubroutineType>(t)) return "fn";
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = tyName(c->getBaseType());
      for (auto *e : c->getElements())
        if (auto *r = dyn_cast<DISubrange>(e)) {
          if (auto *ci = dyn_cast_if_present<ConstantInt *>(r->getCount()))
            s += "[" + std::to_string(ci->getSExtValue()) + "]";
          else s += "[]";
        }
      return s;
    }
    if (c->getName().empty()) return "anon";
    return c->getName().str();
  }
  return t->getName().str();
}
static void addDI(const DIType *t, std::set<const DIType *> &seen) {
  if (!t || !seen.insert(t).second) return;
  if (auto *d = dyn_cast<DIDerivedType>(t)) { addDI(d->getBaseType(), seen); return; }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (!c->getName().empty() && c->getElements().size()) {
      auto it = DITypes.find(c->getName().str());
      if (it == DITypes.end()) DITypes[c->getName().str()] = c;
    }
    addDI(c->getBaseType(), seen);
    for (auto *e : c->getElements()) if (auto *et = dyn_cast<DIType>(e)) addDI(et, seen);
  }
  if (auto *s = dyn_cast<DISubroutineType>(t)) for (auto *e : s->getTypeArray()) addDI(e, seen);
}
// flatten members: emits {name, off, size, type}
static void flat(const DICompositeType *c, uint64_t base, const std::string &pre, json::Array &out, int depth) {
  for (auto *e : c->getElements()) {
    auto *m = dyn_cast<DIDerivedType>(e);
    if (!m || (m->getTag() != dwarf::DW_TAG_member && m->getTag() != dwarf::DW_TAG_inheritance)) continue;
    if (m->isStaticMember()) continue;
    uint64_t off = base + m->getOffsetInBits() / 8;
    std::string nm = m->getName().str();
    std::string full = pre.empty() ? nm : (nm.empty() ? pre : pre + "." + nm);
    const DIType *bt = strip(m->getBaseType());
    out.push_back(json::Object{{"n", full}, {"o", (int64_t)off}, {"s", (int64_t)(m->getSizeInBits() / 8)}, {"t", tyName(m->getBaseType())}});
    if (auto *bc = dyn_cast_or_null<DICompositeType>(bt))
      if (bc->getTag() != dwarf::DW_TAG_array_type && bc->getTag() != dwarf::DW_TAG_enumeration_type && depth < 4)
        flat(bc, off, full, out, depth + 1);
  }
}

static json::Value constv(const Constant *c, const DataLayout &DL, int depth);
struct FDump {
  Function &F; const DataLayout &DL;
  std::map<const Value *, int> id;
  FDump(Function &f, const DataLayout &d) : F(f), DL(d) {}
  json::Value op(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return constv(c, DL, 0);
    if (isa<BasicBlock>(v)) return json::Array{"b", id[v]};
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return json::Array{"m"};
    return json::Array{"v", id[v]};
  }
};
static json::Value constv(const Constant *c, const DataLayout &DL, int depth) {
  if (auto *i = dyn_cast<ConstantInt>(c)) {
    if (i->getBitWidth() <= 64) return json::Array{"c", i->getSExtValue(), (int64_t)i->getBitWidth()};
    return json::Array{"u"};
  }
  if (isa<ConstantPointerNull>(c)) return json::Array{"n"};
  if (auto *f = dyn_cast<Function>(c)) return json::Array{"f", f->getName().str()};
  if (auto *a = dyn_cast<GlobalAlias>(c)) return constv(cast<Constant>(a->getAliasee()), DL, depth);
  if (auto *g = dyn_cast<GlobalVariable>(c)) return json::Array{"g", g->getName().str(), 0};
  if (isa<UndefValue>(c)) return json::Array{"u"};
  if (isa<ConstantAggregateZero>(c)) return json::Array{"z"};
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(DL, off)) {
        json::Value b = constv(cast<Constant>(gep->getPointerOperand()), DL, depth);
        if (auto *arr = b.getAsArray()) if (arr->size() == 3 && (*arr)[0].getAsString() == StringRef("g"))
          return json::Array{"g", (*arr)[1], (*arr)[2].getAsInteger().value_or(0) + off.getSExtValue()};
      }
    }
    if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::AddrSpaceCast)
      return constv(cast<Constant>(ce->getOperand(0)), DL, depth);
    return json::Array{"x"};
  }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
    if (d->isString()) {
      std::string s; for (unsigned char ch : d->getAsString()) { if (ch < 0x80) s.push_back(ch); else { s.push_back((char)(0xC0 | (ch >> 6))); s.push_back((char)(0x80 | (ch & 0x3F))); } }
      return json::Array{"s", s};
    }
    json::Array a{"a"}; for (unsigned i = 0; i < d->getNumElements() && i < 4096; i++) a.push_back(constv(d->getElementAsConstant(i), DL, depth + 1));
    return a;
  }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
    json::Array a{"a"}; if (depth < 4) for (auto &o : c->operands()) a.push_back(constv(cast<Constant>(o), DL, depth + 1));
    return a;
  }
  return json::Array{"x"};
}
static std::string tstr(Type *t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return s; }

static const char *fileOf(const DIFile *f) { return f ? f->getFilename().data() : ""; }

int main(int argc, char **argv) {
  // irdump OUT.json KEEPFILE RECLAIM.. bc...
  if (argc < 4) return 2;
  LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> M;
  for (int i = 3; i < argc; i++) {
    auto m = parseIRFile(argv[i], err, ctx);
    if (!m) { err.print("irdump", errs()); return 3; }
    // the linker merges structurally identical types: remember the names as written
    for (auto &f : *m) for (auto &bb : f) for (auto &in : bb) {
      Type *t = nullptr;
      if (auto *g = dyn_cast<GetElementPtrInst>(&in)) t = g->getSourceElementType();
      else if (auto *a = dyn_cast<AllocaInst>(&in)) t = a->getAllocatedType();
      if (auto *st = dyn_cast_or_null<StructType>(t)) if (st->hasName())
        in.setMetadata("onst", MDNode::get(ctx, MDString::get(ctx, baseName(st->getName()))));
    }
    if (!M) { M = std::move(m); continue; }
    if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 3; }
  }
  std::set<std::string> keep; bool keepAll = false;
  { std::ifstream k(argv[2]); std::string l; while (std::getline(k, l)) { if (l == "*") keepAll = true; else if (!l.empty() && l[0] != '#') keep.insert(l); } }
  const DataLayout &DL = M->getDataLayout();
  // names of functions as written, before any renaming by the linker
  // DI types
  { DebugInfoFinder fi; fi.processModule(*M); std::set<const DIType *> seen; for (auto *t : fi.types()) addDI(t, seen); }

  // --- inline: every non-kept function, bottom-up, unless recursive or address taken only
  auto isKept = [&](Function &f) { return keepAll ? !f.hasInternalLinkage() : keep.count(f.getName().str()) > 0; };
  json::Object inlinedInfo;
  // detect recursion
  auto callsSelf = [&](Function *f) {
    std::set<Function *> seen; std::vector<Function *> w{f}; bool first = true;
    while (!w.empty()) { auto *x = w.back(); w.pop_back();
      for (auto &bb : *x) for (auto &in : bb) if (auto *cb = dyn_cast<CallBase>(&in)) if (auto *c = cb->getCalledFunction()) {
        if (c == f) return true; if (!c->isDeclaration() && !isKept(*c) && seen.insert(c).second) w.push_back(c); } (void)first; }
    return false; };
  std::set<Function *> inl;
  for (auto &f : *M) if (!f.isDeclaration() && !isKept(f) && !f.isVarArg() && !callsSelf(&f)) inl.insert(&f);
  // a function whose address is stored is a state or callback of its own: direct calls to it stay calls
  for (auto &f : *M) { if (!inl.count(&f)) continue; for (auto *u : f.users()) if (auto *si = dyn_cast<StoreInst>(u)) if (si->getValueOperand() == &f) { inl.erase(&f); break; } }
  bool changed = true; int guard = 0;
  std::map<Function*, int> ninl;
  while (changed && guard++ < 50) {
    changed = false;
    std::vector<CallBase *> work;
    for (auto &f : *M) for (auto &bb : f) for (auto &in : bb) if (auto *cb = dyn_cast<CallBase>(&in)) {
      auto *c = cb->getCalledFunction(); if (!c || !inl.count(c)) continue;
      // only inline leaves of the inline set first (callee has no inlinable calls left)
      bool leaf = true; for (auto &b2 : *c) for (auto &i2 : b2) if (auto *c2 = dyn_cast<CallBase>(&i2)) if (auto *cf = c2->getCalledFunction()) if (inl.count(cf)) leaf = false;
      if (leaf) work.push_back(cb); }
    for (auto *cb : work) { InlineFunctionInfo ifi; Function *c = cb->getCalledFunction(); auto r = InlineFunction(*cb, ifi); if (r.isSuccess()) { changed = true; ninl[c]++; } else { inl.erase(c); changed = true; } }
  }
  // drop fully inlined helpers with no remaining use
  json::Array dropped;
  for (auto it = M->begin(); it != M->end();) { Function &f = *it++; 
    if (!f.isDeclaration() && inl.count(&f) && ninl[&f] && f.hasNUsesOrMore(0) && f.use_empty()) { dropped.push_back(f.getName().str()); f.eraseFromParent(); } }
  // --- SSA
  { LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam; PassBuilder pb;
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
    for (auto &f : *M) { if (f.isDeclaration()) continue; f.removeFnAttr(Attribute::OptimizeNone); removeUnreachableBlocks(f);
      FunctionPassManager fpm; fpm.addPass(SROAPass(SROAOptions::PreserveCFG)); fpm.addPass(PromotePass()); fpm.run(f, fam); } }
  std::error_code ec; raw_fd_ostream os(argv[1], ec); if (ec) return 4;
  json::Object root;
  json::Object st;
  for (auto &kv : DITypes) { auto *c = kv.second; if (c->getTag() == dwarf::DW_TAG_enumeration_type) { json::Object en; for (auto *e : c->getElements()) if (auto *x = dyn_cast<DIEnumerator>(e)) en[x->getName()] = x->getValue().getSExtValue(); st[kv.first] = json::Object{{"enum", std::move(en)}}; continue; }
    json::Array fl; flat(c, 0, "", fl, 0); st[kv.first] = json::Object{{"size", (int64_t)(c->getSizeInBits() / 8)}, {"union", c->getTag() == dwarf::DW_TAG_union_type}, {"fields", std::move(fl)}}; }
  // anonymous enums too
  { DebugInfoFinder fi; fi.processModule(*M); json::Object en; for (auto *t : fi.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (c->getTag() == dwarf::DW_TAG_enumeration_type) for (auto *e : c->getElements()) if (auto *x = dyn_cast<DIEnumerator>(e)) en[x->getName()] = x->getValue().getSExtValue(); root["enums"] = std::move(en); }
  root["structs"] = std::move(st);
  json::Object gl;
  for (auto &g : M->globals()) { json::Object o{{"const", g.isConstant()}, {"size", g.getValueType()->isSized() ? (int64_t)DL.getTypeAllocSize(g.getValueType()) : 0}, {"ty", tstr(g.getValueType())}, {"internal", g.hasLocalLinkage()}, {"tls", g.isThreadLocal()}};
    if (g.hasInitializer()) o["init"] = constv(g.getInitializer(), DL, 0);
    SmallVector<DIGlobalVariableExpression *, 1> dv; g.getDebugInfo(dv);
    if (!dv.empty()) { auto *v = dv[0]->getVariable(); o["file"] = fileOf(v->getFile()); o["line"] = (int64_t)v->getLine(); o["name"] = v->getName().str(); o["dty"] = tyName(v->getType()); }
    gl[g.getName()] = std::move(o); }
  root["globals"] = std::move(gl); root["inlined"] = std::move(dropped);
  json::Array fns; json::Array decls;
  for (auto &F : *M) {
    if (F.isDeclaration()) { decls.push_back(F.getName().str()); continue; }
    FDump d(F, DL); int n = 0; json::Array args;
    auto *sp = F.getSubprogram();
    for (auto &a : F.args()) d.id[&a] = n++;
    for (auto &bb : F) for (auto &in : bb) if (!isa<DbgInfoIntrinsic>(in)) d.id[&in] = n++;
    int bn = 0; for (auto &bb : F) d.id[&bb] = bn++;
    std::vector<std::string> pt; if (sp && sp->getType()) { auto ta = sp->getType()->getTypeArray(); for (unsigned i = 0; i < ta.size(); i++) pt.push_back(tyName(ta[i])); }
    unsigned ai = 0; for (auto &a : F.args()) { ai++; args.push_back(json::Object{{"id", d.id[&a]}, {"ty", tstr(a.getType())}, {"name", a.getName().str()}, {"dty", ai < pt.size() ? pt[ai] : ""}}); }
    json::Array blocks;
    for (auto &bb : F) { json::Array ins;
      for (auto &in : bb) { if (isa<DbgInfoIntrinsic>(in)) continue;
        json::Object o{{"id", d.id[&in]}, {"op", in.getOpcodeName()}, {"ty", tstr(in.getType())}};
        if (auto loc = in.getDebugLoc()) { o["line"] = (int64_t)loc.getLine(); o["file"] = fileOf(loc->getFile());
          if (auto *isp = loc->getScope()->getSubprogram()) { o["sc"] = isp->getName().str(); }
          if (loc->getInlinedAt()) o["inl"] = 1; }
        json::Array ops;
        if (auto *ph = dyn_cast<PHINode>(&in)) { for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) ops.push_back(json::Array{d.op(ph->getIncomingValue(i)), d.id[ph->getIncomingBlock(i)]}); }
        else if (auto *cb = dyn_cast<CallBase>(&in)) { for (auto &a : cb->args()) ops.push_back(d.op(a)); o["callee"] = d.op(cb->getCalledOperand()->stripPointerCasts());
          if (auto *iv = dyn_cast<InvokeInst>(&in)) { o["normal"] = d.id[iv->getNormalDest()]; o["unwind"] = d.id[iv->getUnwindDest()]; } }
        else { for (auto &u : in.operands()) ops.push_back(d.op(u)); }
        if (auto *c = dyn_cast<CmpInst>(&in)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
        if (auto *a = dyn_cast<AllocaInst>(&in)) { o["aty"] = tstr(a->getAllocatedType()); o["asz"] = a->getAllocatedType()->isSized() ? (int64_t)DL.getTypeAllocSize(a->getAllocatedType()) : 0; o["name"] = a->getName().str();
          if (auto *st = dyn_cast<StructType>(a->getAllocatedType())) if (st->hasName()) o["st"] = stName(in, st); }
        if (auto *l = dyn_cast<LoadInst>(&in)) { o["sz"] = (int64_t)DL.getTypeStoreSize(l->getType()); if (l->isAtomic()) o["at"] = 1; }
        if (auto *s = dyn_cast<StoreInst>(&in)) { o["sz"] = (int64_t)DL.getTypeStoreSize(s->getValueOperand()->getType()); if (s->isAtomic()) o["at"] = 1; }
        if (auto *g = dyn_cast<GetElementPtrInst>(&in)) { APInt off(64, 0); MapVector<Value *, APInt> vo;
          if (g->collectOffset(DL, 64, vo, off)) { o["off"] = off.getSExtValue(); json::Array va; for (auto &p : vo) va.push_back(json::Array{d.op(p.first), p.second.getSExtValue()}); o["voff"] = std::move(va); }
          if (auto *st = dyn_cast<StructType>(g->getSourceElementType())) if (st->hasName()) o["st"] = stName(in, st);
          o["sty"] = tstr(g->getSourceElementType()); 
          if (g->getSourceElementType()->isSized()) o["ssz"] = (int64_t)DL.getTypeAllocSize(g->getSourceElementType());
          if (g->getResultElementType()->isSized()) o["rsz"] = (int64_t)DL.getTypeAllocSize(g->getResultElementType());
          o["fz"] = g->hasAllConstantIndices(); }
        if (auto *sw = dyn_cast<SwitchInst>(&in)) { json::Array cs; for (auto &c : sw->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), d.id[c.getCaseSuccessor()]}); o["cases"] = std::move(cs); o["def"] = d.id[sw->getDefaultDest()]; ops = json::Array{d.op(sw->getCondition())}; }
        o["ops"] = std::move(ops); ins.push_back(std::move(o)); }
      json::Array su; for (auto *s : successors(&bb)) su.push_back(d.id[s]);
      blocks.push_back(json::Object{{"i", std::move(ins)}, {"s", std::move(su)}}); }
    fns.push_back(json::Object{{"name", F.getName().str()}, {"src", sp ? sp->getName().str() : F.getName().str()}, {"file", sp ? fileOf(sp->getFile()) : ""}, {"line", sp ? (int64_t)sp->getLine() : 0}, {"internal", F.hasLocalLinkage()}, {"vararg", F.isVarArg()}, {"ret", tstr(F.getReturnType())}, {"dret", pt.empty() ? "" : pt[0]}, {"args", std::move(args)}, {"blocks", std::move(blocks)}});
  }
  root["funcs"] = std::move(fns); root["decls"] = std::move(decls);
  os << json::Value(std::move(root)); os.close(); return 0;
}
