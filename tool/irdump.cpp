// irdump: dumps an LLVM module (textual or bitcode) as JSON for the abstract interpreter.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <string>
using namespace llvm;
using json::Array; using json::Object; using JV = json::Value;

static const DataLayout* DL;
static std::map<const llvm::Value*, int> ids;
static std::map<const BasicBlock*, int> bids;
static std::map<const DIFile*, int> fileIds; static Array files;

static std::string demang(StringRef n) {
    std::string s = demangle(n.str());
    return s;
}
static std::string cint(const APInt& v) { SmallString<40> s; v.toString(s, 10, true); return s.str().str(); }

static JV ty(Type* t) {
    if (t->isVoidTy()) return "void";
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (t->isPointerTy()) return "ptr";
    if (t->isFloatingPointTy()) return "f" + std::to_string(t->getPrimitiveSizeInBits().getFixedValue());
    if (auto s = dyn_cast<StructType>(t)) {
        if (!s->isSized()) return "opaque";
        auto sl = DL->getStructLayout(s);
        Array a;
        for (unsigned i = 0; i < s->getNumElements(); ++i)
            a.push_back(Array{(int64_t)sl->getElementOffset(i), ty(s->getElementType(i))});
        return Object{{"s", std::move(a)}, {"n", s->hasName() ? s->getName().str() : ""}, {"z", (int64_t)DL->getTypeAllocSize(t).getFixedValue()}};
    }
    if (auto ar = dyn_cast<ArrayType>(t)) {
        return Object{{"a", (int64_t)ar->getNumElements()}, {"e", ty(ar->getElementType())}, {"es", (int64_t)DL->getTypeAllocSize(ar->getElementType()).getFixedValue()}, {"z", (int64_t)DL->getTypeAllocSize(t).getFixedValue()}};
    }
    std::string s; raw_string_ostream os(s); t->print(os); return os.str();
}
static JV constant(const Constant* c);
static JV op(const llvm::Value* v) {
    if (auto c = dyn_cast<Constant>(v)) return constant(c);
    if (auto bb = dyn_cast<BasicBlock>(v)) return Array{"b", bids[bb]};
    if (isa<MetadataAsValue>(v)) return Array{"m"};
    if (isa<InlineAsm>(v)) return Array{"asm"};
    auto it = ids.find(v);
    if (it == ids.end()) return Array{"?"};
    return Array{"v", it->second};
}
static JV constant(const Constant* c) {
    if (auto ci = dyn_cast<ConstantInt>(c)) {
        return Array{"i", cint(ci->getValue()), (int)ci->getBitWidth()};
    }
    if (isa<ConstantPointerNull>(c)) return Array{"null"};
    if (isa<UndefValue>(c)) return Array{"u", ty(c->getType())};
    if (isa<ConstantAggregateZero>(c)) return Array{"z", ty(c->getType())};
    if (auto fp = dyn_cast<ConstantFP>(c)) {
        SmallString<40> s; fp->getValueAPF().toString(s); return Array{"f", s.str().str()};
    }
    if (auto gv = dyn_cast<GlobalValue>(c)) {
        if (auto ga = dyn_cast<GlobalAlias>(c)) {
            auto o = ga->getAliaseeObject();
            if (o) return Array{"g", o->getName().str(), 0};
        }
        return Array{"g", gv->getName().str(), 0};
    }
    if (auto ce = dyn_cast<ConstantExpr>(c)) {
        APInt off(64, 0);
        const llvm::Value* base = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
        if (base != ce) {
            if (auto gv = dyn_cast<GlobalValue>(base)) return Array{"g", gv->getName().str(), off.getSExtValue()};
            if (isa<ConstantPointerNull>(base)) return Array{"nulloff", off.getSExtValue()};
        }
        Array a{"ce", ce->getOpcodeName()};
        for (auto& o : ce->operands()) a.push_back(op(o.get()));
        a.push_back(ty(ce->getType()));
        return a;
    }
    if (auto ca = dyn_cast<ConstantAggregate>(c)) {
        Array a{"agg", ty(c->getType())};
        for (auto& o : ca->operands()) a.push_back(op(o.get()));
        return a;
    }
    if (auto cd = dyn_cast<ConstantDataSequential>(c)) {
        Array a{"agg", ty(c->getType())};
        for (unsigned i = 0; i < cd->getNumElements(); ++i) a.push_back(constant(cd->getElementAsConstant(i)));
        return a;
    }
    std::string s; raw_string_ostream os(s); c->print(os); return Array{"?c", os.str()};
}
static void flatten(const Constant* c, uint64_t off, Array& out) {
    if (isa<ConstantAggregateZero>(c)) { out.push_back(Array{(int64_t)off, (int64_t)DL->getTypeAllocSize(c->getType()).getFixedValue(), Array{"z", ty(c->getType())}}); return; }
    if (auto ca = dyn_cast<ConstantStruct>(c)) {
        auto sl = DL->getStructLayout(ca->getType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) flatten(ca->getOperand(i), off + sl->getElementOffset(i), out);
        return;
    }
    if (auto ca = dyn_cast<ConstantArray>(c)) {
        auto es = DL->getTypeAllocSize(ca->getType()->getElementType()).getFixedValue();
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) flatten(ca->getOperand(i), off + i * es, out);
        return;
    }
    if (auto cd = dyn_cast<ConstantDataSequential>(c)) {
        auto es = DL->getTypeAllocSize(cd->getElementType()).getFixedValue();
        for (unsigned i = 0; i < cd->getNumElements(); ++i) flatten(cd->getElementAsConstant(i), off + i * es, out);
        return;
    }
    out.push_back(Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(c->getType()).getFixedValue(), constant(c)});
}
static int fileId(const DIFile* f) {
    auto it = fileIds.find(f);
    if (it != fileIds.end()) return it->second;
    int id = (int)files.size();
    std::string p = f->getFilename().str();
    if (!p.empty() && p[0] != '/') p = f->getDirectory().str() + "/" + p;
    files.push_back(p);
    fileIds[f] = id;
    return id;
}
int main(int argc, char** argv) {
    LLVMContext ctx; SMDiagnostic err;
    auto mod = parseIRFile(argv[1], err, ctx);
    if (!mod) { err.print(argv[0], errs()); return 2; }
    DL = &mod->getDataLayout();
    Object globals, funcs;
    for (auto& g : mod->globals()) {
        Object o{{"const", g.isConstant()}, {"tls", g.isThreadLocal()}, {"dem", demang(g.getName())}};
        if (g.getValueType()->isSized()) o["size"] = (int64_t)DL->getTypeAllocSize(g.getValueType()).getFixedValue();
        o["ty"] = ty(g.getValueType());
        if (g.hasInitializer()) { Array cells; flatten(g.getInitializer(), 0, cells); o["init"] = std::move(cells); }
        globals[g.getName()] = std::move(o);
    }
    Object aliases;
    for (auto& a : mod->aliases()) if (auto o = a.getAliaseeObject()) aliases[a.getName()] = o->getName().str();
    for (auto& F : *mod) {
        ids.clear(); bids.clear();
        Object fo;
        fo["dem"] = demang(F.getName());
        fo["ret"] = ty(F.getReturnType());
        fo["decl"] = F.isDeclaration();
        fo["nounwind"] = F.doesNotThrow();
        fo["noreturn"] = F.doesNotReturn();
        fo["linkage"] = (int)F.getLinkage();
        Array ps; int n = 0;
        for (auto& A : F.args()) {
            ids[&A] = n++;
            Object po{{"ty", ty(A.getType())}};
            if (A.hasStructRetAttr()) po["sret"] = ty(A.getParamStructRetType());
            if (A.hasByValAttr()) po["byval"] = ty(A.getParamByValType());
            if (auto db = A.getDereferenceableBytes()) po["deref"] = (int64_t)db;
            ps.push_back(std::move(po));
        }
        fo["params"] = std::move(ps);
        fo["varargs"] = F.isVarArg();
        if (auto sp = F.getSubprogram()) { fo["line"] = sp->getLine(); if (sp->getFile()) fo["file"] = fileId(sp->getFile()); }
        if (!F.isDeclaration()) {
            int b = 0;
            for (auto& BB : F) { bids[&BB] = b++; for (auto& I : BB) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
            Array blocks;
            for (auto& BB : F) {
                Array insts;
                for (auto& I : BB) {
                    if (isa<DbgInfoIntrinsic>(I)) continue;
                    Object o;
                    o["op"] = I.getOpcodeName();
                    if (!I.getType()->isVoidTy()) { o["id"] = ids[&I]; o["ty"] = ty(I.getType()); }
                    if (auto& dl = I.getDebugLoc()) { o["l"] = dl.getLine(); if (auto sc = dyn_cast_or_null<DIScope>(dl.getScope())) if (sc->getFile()) o["f"] = fileId(sc->getFile()); }
                    Array ops;
                    if (auto cb = dyn_cast<CallBase>(&I)) {
                        Array attrs;
                        for (unsigned i = 0; i < cb->arg_size(); ++i) {
                            ops.push_back(op(cb->getArgOperand(i)));
                            if (cb->isByValArgument(i)) attrs.push_back(Array{(int)i, "byval", ty(cb->getParamByValType(i))});
                        }
                        if (!attrs.empty()) o["attrs"] = std::move(attrs);
                        Array at; for (auto& a : cb->args()) at.push_back(ty(a->getType()));
                        o["at"] = std::move(at);
                        o["callee"] = op(cb->getCalledOperand());
                        o["nounwind"] = cb->doesNotThrow();
                        if (cb->hasFnAttr(Attribute::NoMerge)) o["nomerge"] = true;
                        if (auto iv = dyn_cast<InvokeInst>(&I)) { o["normal"] = bids[iv->getNormalDest()]; o["unwind"] = bids[iv->getUnwindDest()]; }
                    } else if (auto phi = dyn_cast<PHINode>(&I)) {
                        for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i)
                            ops.push_back(Array{bids[phi->getIncomingBlock(i)], op(phi->getIncomingValue(i))});
                    } else if (auto gep = dyn_cast<GetElementPtrInst>(&I)) {
                        ops.push_back(op(gep->getPointerOperand()));
                        MapVector<llvm::Value*, APInt> vars; APInt c(64, 0);
                        if (cast<GEPOperator>(gep)->collectOffset(*DL, 64, vars, c)) {
                            o["c"] = c.getSExtValue();
                            Array vs; for (auto& kv : vars) vs.push_back(Array{op(kv.first), kv.second.getSExtValue(), (int)kv.first->getType()->getIntegerBitWidth()});
                            o["vars"] = std::move(vs);
                        } else o["bad"] = true;
                        o["inb"] = gep->isInBounds();
                    } else {
                        for (auto& v : I.operands()) ops.push_back(op(v.get()));
                    }
                    if (auto a = dyn_cast<AllocaInst>(&I)) { o["aty"] = ty(a->getAllocatedType()); o["align"] = (int64_t)a->getAlign().value(); o["esz"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue(); }
                    if (auto l = dyn_cast<LoadInst>(&I)) { o["align"] = (int64_t)l->getAlign().value(); if (l->isAtomic()) o["ord"] = toIRString(l->getOrdering()); if (l->isVolatile()) o["vol"] = true; }
                    if (auto s = dyn_cast<StoreInst>(&I)) { o["vty"] = ty(s->getValueOperand()->getType()); o["align"] = (int64_t)s->getAlign().value(); if (s->isAtomic()) o["ord"] = toIRString(s->getOrdering()); }
                    if (auto c = dyn_cast<ICmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str(); o["cty"] = ty(c->getOperand(0)->getType()); }
                    if (auto c = dyn_cast<FCmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
                    if (auto c = dyn_cast<CastInst>(&I)) o["from"] = ty(c->getSrcTy());
                    if (auto e = dyn_cast<ExtractValueInst>(&I)) { Array x; for (auto i : e->indices()) x.push_back((int)i); o["idx"] = std::move(x); }
                    if (auto e = dyn_cast<InsertValueInst>(&I)) { Array x; for (auto i : e->indices()) x.push_back((int)i); o["idx"] = std::move(x); }
                    if (auto c = dyn_cast<AtomicCmpXchgInst>(&I)) { o["ord"] = toIRString(c->getSuccessOrdering()); o["ford"] = toIRString(c->getFailureOrdering()); o["weak"] = c->isWeak(); o["vty"] = ty(c->getNewValOperand()->getType()); }
                    if (auto c = dyn_cast<AtomicRMWInst>(&I)) { o["ord"] = toIRString(c->getOrdering()); o["rmw"] = AtomicRMWInst::getOperationName(c->getOperation()).str(); o["vty"] = ty(c->getValOperand()->getType()); }
                    if (auto c = dyn_cast<FenceInst>(&I)) { o["ord"] = toIRString(c->getOrdering()); }
                    if (auto lp = dyn_cast<LandingPadInst>(&I)) {
                        o["cleanup"] = lp->isCleanup();
                        Array cl; for (unsigned i = 0; i < lp->getNumClauses(); ++i) cl.push_back(Array{lp->isCatch(i) ? "catch" : "filter", op(lp->getClause(i))});
                        o["clauses"] = std::move(cl);
                    }
                    if (auto sw = dyn_cast<SwitchInst>(&I)) {
                        ops.clear(); ops.push_back(op(sw->getCondition())); o["default"] = bids[sw->getDefaultDest()];
                        Array cs; for (auto& c : sw->cases()) cs.push_back(Array{cint(c.getCaseValue()->getValue()), bids[c.getCaseSuccessor()]});
                        o["cases"] = std::move(cs); o["cty"] = ty(sw->getCondition()->getType());
                    }
                    if (auto br = dyn_cast<BranchInst>(&I)) {
                        ops.clear(); if (br->isConditional()) ops.push_back(op(br->getCondition()));
                        Array t; for (unsigned i = 0; i < br->getNumSuccessors(); ++i) t.push_back(bids[br->getSuccessor(i)]); o["to"] = std::move(t);
                    }
                    if (auto b = dyn_cast<BinaryOperator>(&I)) { if (isa<PossiblyExactOperator>(b)) o["exact"] = b->isExact(); if (isa<OverflowingBinaryOperator>(b)) { o["nsw"] = b->hasNoSignedWrap(); o["nuw"] = b->hasNoUnsignedWrap(); } }
                    o["o"] = std::move(ops);
                    insts.push_back(std::move(o));
                }
                blocks.push_back(std::move(insts));
            }
            fo["blocks"] = std::move(blocks);
            fo["nvals"] = n;
        }
        funcs[F.getName()] = std::move(fo);
    }
    Object top{{"globals", std::move(globals)}, {"funcs", std::move(funcs)}, {"files", std::move(files)}, {"aliases", std::move(aliases)}};
    outs() << JV(std::move(top)) << "\n";
    return 0;
}
