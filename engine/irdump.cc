// irdump: loads the LLVM bitcode of one translation unit, promotes memory to
// registers and writes one line per function whose source is in the
// repository.  Virtual calls carry the type identifier and slot and vtables
// their !type metadata, so that the whole program can be resolved afterwards
// (class hierarchy analysis); fields of structures are named with the debug
// information.  Units are not linked: linking merges structures of equal
// layout and would lose their names.  Symbols local to the unit get its name
// as a suffix.
#include "llvm/ADT/StringExtras.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>
using namespace llvm;

static const DataLayout *DL;
static Module *M;

// ---- names of fields -----------------------------------------------------
static std::multimap<std::string, const DICompositeType *> ditypes;

static std::string scopeName(const DIScope *s) {
  if (!s) return "";
  std::string r;
  if (auto *ns = dyn_cast<DINamespace>(s)) r = ns->getName().str();
  else if (auto *t = dyn_cast<DIType>(s)) r = t->getName().str();
  else return "";
  std::string up = scopeName(s->getScope());
  return up.empty() ? r : up + "::" + r;
}
static std::string stripTemplates(const std::string &s) {
  std::string r; int d = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    char c = s[i];
    if (c == '<') { ++d; continue; }
    if (c == '>') { if (d) --d; continue; }
    if (!d) r += c;
  }
  return r;
}
static std::string structBase(const StructType *st) {
  if (!st->hasName()) return "";
  std::string n = st->getName().str();
  for (const char *p : {"class.", "struct.", "union."})
    if (StringRef(n).starts_with(p)) { n = n.substr(strlen(p)); break; }
  if (StringRef(n).ends_with(".base")) n = n.substr(0, n.size() - 5);
  size_t p = n.rfind('.');
  if (p != std::string::npos && p + 1 < n.size() &&
      n.find_first_not_of("0123456789", p + 1) == std::string::npos)
    n = n.substr(0, p);
  if (StringRef(n).ends_with(".base")) n = n.substr(0, n.size() - 5);
  return n;
}
static const DICompositeType *diFor(const StructType *st) {
  static std::unordered_map<const StructType *, const DICompositeType *> cache;
  auto it = cache.find(st);
  if (it != cache.end()) return it->second;
  const DICompositeType *best = nullptr;
  if (st->isSized()) {
    std::string n = structBase(st);
    uint64_t sz = DL->getTypeSizeInBits(const_cast<StructType *>(st));
    auto r = ditypes.equal_range(n);
    for (auto i = r.first; i != r.second; ++i) {
      if (i->second->getSizeInBits() == sz) { best = i->second; break; }
      if (!best) best = i->second;
    }
  }
  return cache[st] = best;
}
static std::string fieldName(const StructType *st, unsigned idx) {
  const DICompositeType *ct = diFor(st);
  uint64_t off = DL->getStructLayout(const_cast<StructType *>(st))->getElementOffsetInBits(idx);
  if (ct) {
    std::string found;
    for (auto *e : ct->getElements()) {
      auto *d = dyn_cast_or_null<DIDerivedType>(e);
      if (!d || d->isStaticMember()) continue;
      if (d->getTag() == dwarf::DW_TAG_member && d->getOffsetInBits() == off)
        return d->getName().str();
      if (d->getTag() == dwarf::DW_TAG_inheritance && d->getOffsetInBits() == off && found.empty() && d->getBaseType())
        found = "^" + d->getBaseType()->getName().str();
    }
    if (!found.empty()) return found;
  }
  return "#" + std::to_string(idx);
}

// ---- virtual calls --------------------------------------------------------
static std::string unitTag;
static std::string symName(const GlobalValue *g) {
  std::string n = g->getName().str();
  if (g->hasLocalLinkage() && !StringRef(n).starts_with(".str")) n += "@" + unitTag;
  return n;
}
static void vtableSlots(GlobalVariable *g, json::Object &slots) {
  if (!g->hasInitializer()) return;
  Constant *c = g->getInitializer();
  auto arr = [&](ConstantArray *ca, uint64_t o) {
    for (unsigned i = 0; i < ca->getNumOperands(); ++i)
      if (auto *f = dyn_cast<Function>(ca->getOperand(i)->stripPointerCastsAndAliases()))
        if (f->getName() != "__cxa_pure_virtual") slots[std::to_string(o + 8 * i)] = symName(f);
  };
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); ++i)
      if (auto *ca = dyn_cast<ConstantArray>(cs->getOperand(i))) arr(ca, sl->getElementOffset(i));
  } else if (auto *ca = dyn_cast<ConstantArray>(c)) arr(ca, 0);
}

// ---- operands -------------------------------------------------------------
struct FnCtx {
  std::unordered_map<const Value *, int> ids;
  std::unordered_map<const BasicBlock *, int> bbs;
};
static json::Value operand(const Value *v, FnCtx &c, int depth = 0);

static bool cstr(const Value *v, std::string &out) {
  v = v->stripPointerCasts();
  if (auto *g = dyn_cast<GlobalVariable>(v))
    if (g->isConstant() && g->hasInitializer()) {
      if (auto *d = dyn_cast<ConstantDataArray>(g->getInitializer()))
        if (d->isString()) {
          StringRef s = d->getAsString();
          if (!s.empty() && s.back() == 0) s = s.drop_back();
          out = s.str();
          return true;
        }
      if (isa<ConstantAggregateZero>(g->getInitializer()))
        if (auto *at = dyn_cast<ArrayType>(g->getValueType()))
          if (at->getElementType()->isIntegerTy(8)) { out = ""; return true; }
    }
  return false;
}
static std::string fixUtf8(std::string s) { return json::isUTF8(s) ? s : json::fixUTF8(s); }

static json::Value operand(const Value *v, FnCtx &c, int depth) {
  if (auto *a = dyn_cast<Argument>(v)) return json::Object{{"a", (int64_t)a->getArgNo()}};
  auto it = c.ids.find(v);
  if (it != c.ids.end()) return (int64_t)it->second;
  std::string s;
  if (v->getType()->isPointerTy() && isa<Constant>(v) && cstr(v, s)) return json::Object{{"s", fixUtf8(s)}};
  if (auto *f = dyn_cast<Function>(v)) return json::Object{{"f", symName(f)}};
  if (auto *g = dyn_cast<GlobalValue>(v)) return json::Object{{"g", symName(g)}};
  if (auto *i = dyn_cast<ConstantInt>(v)) {
    if (i->getBitWidth() <= 64) return json::Object{{"c", i->getBitWidth() == 1 ? (int64_t)i->getZExtValue() : i->getSExtValue()}};
    SmallString<40> t; i->getValue().toStringSigned(t);
    return json::Object{{"c", t.str().str()}};
  }
  if (auto *f = dyn_cast<ConstantFP>(v)) {
    SmallString<40> t; f->getValueAPF().toString(t);
    return json::Object{{"d", t.str().str()}};
  }
  if (isa<ConstantPointerNull>(v)) return json::Object{{"n", 1}};
  if (isa<UndefValue>(v)) return json::Object{{"u", 1}};
  if (isa<ConstantAggregateZero>(v)) return json::Object{{"z", 1}};
  if (auto *e = dyn_cast<ConstantExpr>(v)) {
    if (depth < 4) {
      if (e->getOpcode() == Instruction::GetElementPtr) {
        APInt off(64, 0);
        const Value *b = cast<GEPOperator>(e)->stripAndAccumulateConstantOffsets(*DL, off, true);
        return json::Object{{"ge", operand(b, c, depth + 1)}, {"o", off.getSExtValue()}};
      }
      return operand(e->getOperand(0), c, depth + 1);
    }
  }
  return json::Object{{"x", 1}};
}
static json::Value constantTree(const Constant *k, int depth, unsigned &budget) {
  FnCtx c;
  if (budget == 0 || depth > 6) return json::Object{{"x", 1}};
  --budget;
  std::string s;
  if (k->getType()->isPointerTy()) return operand(k, c);
  if (auto *d = dyn_cast<ConstantDataSequential>(k)) {
    if (d->isString()) return json::Object{{"s", fixUtf8(d->getAsString().rtrim('\0').str())}};
    json::Array a;
    for (unsigned i = 0; i < d->getNumElements() && i < 4096; ++i) a.push_back(operand(d->getElementAsConstant(i), c));
    return a;
  }
  if (isa<ConstantArray>(k) || isa<ConstantStruct>(k)) {
    json::Array a;
    for (auto &o : k->operands()) a.push_back(constantTree(cast<Constant>(o), depth + 1, budget));
    return a;
  }
  if (isa<ConstantAggregateZero>(k)) {
    if (auto *st = dyn_cast<StructType>(k->getType())) {
      json::Array a;
      for (unsigned i = 0; i < st->getNumElements(); ++i) a.push_back(json::Object{{"z", 1}});
      return a;
    }
  }
  return operand(k, c);
}
static std::string tyName(Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) return st->hasName() ? structBase(st) : "{}";
  if (auto *at = dyn_cast<ArrayType>(t)) return "[" + std::to_string(at->getNumElements()) + " x " + tyName(at->getElementType()) + "]";
  std::string s; raw_string_ostream os(s); t->print(os); return os.str();
}

static bool inRepo(const Function &f, const std::vector<std::string> &roots) {
  auto *sp = f.getSubprogram();
  if (!sp || !sp->getFile()) return false;
  SmallString<256> p;
  StringRef fn = sp->getFile()->getFilename();
  if (!fn.starts_with("/")) { p = sp->getFile()->getDirectory(); p += "/"; }
  p += fn;
  for (auto &r : roots) if (StringRef(p).starts_with(r)) return true;
  return false;
}
static std::string filePath(const DIFile *f) {
  if (!f) return "";
  std::string fn = f->getFilename().str();
  if (!fn.empty() && fn[0] == '/') return fn;
  return f->getDirectory().str() + "/" + fn;
}

static void promote(Function &F) {
  DominatorTree DT(F);
  std::vector<AllocaInst *> as;
  while (true) {
    as.clear();
    for (auto &I : F.getEntryBlock())
      if (auto *a = dyn_cast<AllocaInst>(&I))
        if (isAllocaPromotable(a)) as.push_back(a);
    if (as.empty()) break;
    PromoteMemToReg(as, DT);
  }
}

int main(int argc, char **argv) {
  if (argc < 5) { errs() << "irdump in.bc out tag root...\n"; return 2; }
  unitTag = argv[3];
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(argv[1], err, ctx);
  if (!mod) { err.print("irdump", errs()); return 2; }
  M = mod.get();
  DL = &M->getDataLayout();
  std::vector<std::string> roots;
  for (int i = 4; i < argc; ++i) roots.push_back(argv[i]);
  std::error_code ec;
  raw_fd_ostream out(argv[2], ec);
  if (ec) { errs() << ec.message() << "\n"; return 2; }

  DebugInfoFinder dif;
  dif.processModule(*M);
  for (auto *t : dif.types())
    if (auto *ct = dyn_cast<DICompositeType>(t))
      if (!ct->isForwardDecl() && !ct->getName().empty())
        ditypes.emplace(stripTemplates(scopeName(ct)), ct);
  for (auto &g : M->globals()) {
    SmallVector<MDNode *, 4> mds;
    g.getMetadata(LLVMContext::MD_type, mds);
    if (mds.empty() || !g.hasInitializer()) continue;
    json::Array ts;
    for (auto *md : mds) {
      uint64_t off = cast<ConstantInt>(cast<ConstantAsMetadata>(md->getOperand(0))->getValue())->getZExtValue();
      if (auto *s = dyn_cast<MDString>(md->getOperand(1))) ts.push_back(json::Array{s->getString().str(), (int64_t)off});
    }
    json::Object slots;
    vtableSlots(&g, slots);
    out << "V\t" << symName(&g) << "\t" << formatv("{0}", json::Value(json::Object{{"vtable", symName(&g)}, {"types", std::move(ts)}, {"slots", std::move(slots)}})) << "\n";
  }
  // functions
  size_t n = 0;
  for (auto &F : *M) {
    bool repo = !F.isDeclaration() && inRepo(F, roots);
    if (!repo) continue;
    promote(F);
    FnCtx c;
    int id = 0, bb = 0;
    for (auto &B : F) {
      c.bbs[&B] = bb++;
      for (auto &I : B) if (!I.getType()->isVoidTy() || isa<CallBase>(I)) c.ids[&I] = id++;
    }
    std::map<int, std::string> names;
    for (auto &I : instructions(F))
      if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
        for (auto *v : dv->location_ops()) {
          auto it = c.ids.find(v);
          if (it != c.ids.end() && !names.count(it->second)) names[it->second] = dv->getVariable()->getName().str();
        }
      }
    // type tests: vtable value -> type id
    std::unordered_map<const Value *, std::string> vt;
    for (auto &I : instructions(F))
      if (auto *cb = dyn_cast<CallBase>(&I))
        if (Function *cf = cb->getCalledFunction())
          if (cf->getName().contains("type.test"))
            if (auto *mv = dyn_cast<MetadataAsValue>(cb->getArgOperand(1)))
              if (auto *ms = dyn_cast<MDString>(mv->getMetadata())) vt[cb->getArgOperand(0)] = ms->getString().str();
    json::Array blocks;
    for (auto &B : F) {
      json::Array insts;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        auto idi = c.ids.find(&I);
        int64_t iid = idi == c.ids.end() ? -1 : idi->second;
        int64_t line = 0;
        if (I.getDebugLoc()) line = I.getDebugLoc().getLine();
        auto op = [&](const Value *v) { return operand(v, c); };
        json::Array r;
        if (auto *cb = dyn_cast<CallBase>(&I)) {
          Value *cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
          json::Object callee;
          if (auto *f = dyn_cast<Function>(cv)) {
            StringRef nm = f->getName();
            if (nm.starts_with("llvm.lifetime") || nm == "llvm.assume" || nm.contains("type.test") || nm.starts_with("llvm.stack")) continue;
            callee["f"] = symName(f);
          } else {
            bool done = false;
            if (auto *ld = dyn_cast<LoadInst>(cv)) {
              Value *p = ld->getPointerOperand();
              int64_t slot = 0;
              if (auto *g = dyn_cast<GetElementPtrInst>(p)) {
                APInt off(64, 0);
                if (g->accumulateConstantOffset(*DL, off)) { slot = off.getSExtValue(); p = g->getPointerOperand(); }
              }
              auto t = vt.find(p);
              if (t != vt.end()) {
                callee["v"] = t->second; callee["o"] = slot;
                done = true;
              }
            }
            if (!done) callee["i"] = op(cv);
          }
          json::Array args;
          int64_t sret = -1;
          for (unsigned i = 0; i < cb->arg_size(); ++i) {
            Value *a = cb->getArgOperand(i);
            if (isa<MetadataAsValue>(a)) args.push_back(json::Object{{"x", 1}}); else args.push_back(op(a));
            if (cb->paramHasAttr(i, Attribute::StructRet)) sret = i;
          }
          int64_t nrm = -1, unw = -1;
          if (auto *inv = dyn_cast<InvokeInst>(cb)) { nrm = c.bbs[inv->getNormalDest()]; unw = c.bbs[inv->getUnwindDest()]; }
          r = json::Array{"call", iid, line, std::move(callee), std::move(args), nrm, unw, tyName(cb->getType()), sret, cb->doesNotReturn() ? 1 : 0};
        } else if (auto *x = dyn_cast<LoadInst>(&I)) {
          r = json::Array{"load", iid, line, op(x->getPointerOperand()), tyName(x->getType())};
        } else if (auto *x = dyn_cast<StoreInst>(&I)) {
          r = json::Array{"store", iid, line, op(x->getValueOperand()), op(x->getPointerOperand()), tyName(x->getValueOperand()->getType())};
        } else if (auto *x = dyn_cast<GetElementPtrInst>(&I)) {
          json::Array path, dyn;
          Type *t = x->getSourceElementType();
          std::string sn = tyName(t);
          bool first = true;
          for (auto &ix : x->indices()) {
            if (first) {
              first = false;
              auto *ci = dyn_cast<ConstantInt>(ix);
              if (!ci || !ci->isZero()) { path.push_back("[]"); dyn.push_back(op(ix)); }
              continue;
            }
            if (auto *st = dyn_cast<StructType>(t)) {
              unsigned k = cast<ConstantInt>(ix)->getZExtValue();
              path.push_back(fieldName(st, k));
              t = st->getElementType(k);
            } else {
              path.push_back("[]"); dyn.push_back(op(ix));
              t = cast<ArrayType>(t)->getElementType();
            }
          }
          r = json::Array{"gep", iid, line, op(x->getPointerOperand()), sn, std::move(path), std::move(dyn)};
        } else if (auto *x = dyn_cast<AllocaInst>(&I)) {
          r = json::Array{"alloca", iid, line, tyName(x->getAllocatedType())};
        } else if (auto *x = dyn_cast<PHINode>(&I)) {
          json::Array in;
          for (unsigned i = 0; i < x->getNumIncomingValues(); ++i) in.push_back(json::Array{op(x->getIncomingValue(i)), c.bbs[x->getIncomingBlock(i)]});
          r = json::Array{"phi", iid, line, std::move(in)};
        } else if (auto *x = dyn_cast<CmpInst>(&I)) {
          r = json::Array{isa<ICmpInst>(x) ? "icmp" : "fcmp", iid, line, CmpInst::getPredicateName(x->getPredicate()).str(), op(x->getOperand(0)), op(x->getOperand(1))};
        } else if (auto *x = dyn_cast<BinaryOperator>(&I)) {
          r = json::Array{"bin", iid, line, x->getOpcodeName(), op(x->getOperand(0)), op(x->getOperand(1))};
        } else if (auto *x = dyn_cast<UnaryOperator>(&I)) {
          r = json::Array{"un", iid, line, x->getOpcodeName(), op(x->getOperand(0))};
        } else if (auto *x = dyn_cast<CastInst>(&I)) {
          r = json::Array{"cast", iid, line, x->getOpcodeName(), op(x->getOperand(0)), tyName(x->getType())};
        } else if (auto *x = dyn_cast<SelectInst>(&I)) {
          r = json::Array{"select", iid, line, op(x->getCondition()), op(x->getTrueValue()), op(x->getFalseValue())};
        } else if (auto *x = dyn_cast<BranchInst>(&I)) {
          if (x->isConditional()) r = json::Array{"br", iid, line, op(x->getCondition()), json::Array{c.bbs[x->getSuccessor(0)], c.bbs[x->getSuccessor(1)]}};
          else r = json::Array{"br", iid, line, nullptr, json::Array{c.bbs[x->getSuccessor(0)]}};
        } else if (auto *x = dyn_cast<SwitchInst>(&I)) {
          json::Array cs;
          for (auto &k : x->cases()) cs.push_back(json::Array{op(k.getCaseValue()), c.bbs[k.getCaseSuccessor()]});
          r = json::Array{"switch", iid, line, op(x->getCondition()), c.bbs[x->getDefaultDest()], std::move(cs)};
        } else if (auto *x = dyn_cast<ReturnInst>(&I)) {
          if (x->getReturnValue()) r = json::Array{"ret", iid, line, op(x->getReturnValue())}; else r = json::Array{"ret", iid, line, nullptr};
        } else if (auto *x = dyn_cast<ExtractValueInst>(&I)) {
          json::Array ix; for (auto k : x->indices()) ix.push_back((int64_t)k);
          r = json::Array{"extract", iid, line, op(x->getAggregateOperand()), std::move(ix)};
        } else if (auto *x = dyn_cast<InsertValueInst>(&I)) {
          json::Array ix; for (auto k : x->indices()) ix.push_back((int64_t)k);
          r = json::Array{"insert", iid, line, op(x->getAggregateOperand()), op(x->getInsertedValueOperand()), std::move(ix)};
        } else if (auto *x = dyn_cast<LandingPadInst>(&I)) {
          json::Array cl;
          for (unsigned i = 0; i < x->getNumClauses(); ++i) {
            if (x->isCatch(i)) {
              auto *k = x->getClause(i)->stripPointerCasts();
              cl.push_back(isa<ConstantPointerNull>(k) ? std::string("*") : k->getName().str());
            } else cl.push_back("filter");
          }
          if (x->isCleanup()) cl.push_back("cleanup");
          r = json::Array{"landingpad", iid, line, std::move(cl)};
        } else {
          json::Array ops;
          if (I.isTerminator()) { for (auto *s : successors(&B)) ops.push_back(c.bbs[s]); r = json::Array{I.getOpcodeName(), iid, line, std::move(ops)}; }
          else { for (auto &o : I.operands()) ops.push_back(op(o)); r = json::Array{"op", iid, line, I.getOpcodeName(), std::move(ops)}; }
        }
        insts.push_back(std::move(r));
      }
      blocks.push_back(std::move(insts));
    }
    auto *sp = F.getSubprogram();
    json::Object nm;
    for (auto &p : names) nm[std::to_string(p.first)] = p.second;
    json::Array an;
    std::map<unsigned, std::string> argn;
    for (auto *node : sp->getRetainedNodes()) (void)node;
    for (auto &I : instructions(F))
      if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I))
        if (dv->getVariable()->getArg()) argn[dv->getVariable()->getArg()] = dv->getVariable()->getName().str();
    for (auto &p : argn) an.push_back(p.second);
    std::string dem = demangle(F.getName().str());
    json::Array aty;
    for (auto &a : F.args()) {
      std::string t = tyName(a.getType());
      if (a.hasStructRetAttr()) t = "sret";
      aty.push_back(t);
    }
    json::Object o{{"n", symName(&F)}, {"d", dem}, {"file", filePath(sp->getFile())}, {"line", (int64_t)sp->getLine()},
                   {"local", F.hasLocalLinkage() ? 1 : 0}, {"args", std::move(an)}, {"aty", std::move(aty)}, {"rty", tyName(F.getReturnType())},
                   {"names", std::move(nm)}, {"blocks", std::move(blocks)}};
    out << "F\t" << symName(&F) << "\t" << formatv("{0}", json::Value(std::move(o))) << "\n";
    ++n;
  }
  // globals
  for (auto &g : M->globals()) {
    if (!g.hasInitializer()) continue;
    StringRef nm = g.getName();
    if (nm.starts_with("_ZTS") || nm.starts_with("_ZTIS") || nm.starts_with("_ZTIN5boost") || nm.starts_with(".str") || nm.starts_with("llvm.") || nm.starts_with("_ZTT") ) continue;
    if (nm.starts_with("_ZTVSt") || nm.starts_with("_ZTVN5boost")) continue;
    unsigned budget = 60000;
    json::Object o{{"g", symName(&g)}, {"d", demangle(nm.str())}, {"ty", tyName(g.getValueType())}, {"const", g.isConstant() ? 1 : 0}, {"tls", g.isThreadLocal() ? 1 : 0}};
    SmallVector<DIGlobalVariableExpression *, 1> ge;
    g.getDebugInfo(ge);
    if (!ge.empty()) { o["file"] = filePath(ge[0]->getVariable()->getFile()); o["line"] = (int64_t)ge[0]->getVariable()->getLine(); o["name"] = ge[0]->getVariable()->getName().str(); }
    o["init"] = constantTree(g.getInitializer(), 0, budget);
    out << "G\t" << symName(&g) << "\t" << formatv("{0}", json::Value(std::move(o))) << "\n";
  }
  // names of everything that is called or declared elsewhere
  json::Object dn;
  for (auto &F : *M) dn[symName(&F)] = demangle(F.getName().str());
  out << "D\t-\t" << formatv("{0}", json::Value(json::Object{{"demangled", std::move(dn)}})) << "\n";
  return 0;
}
