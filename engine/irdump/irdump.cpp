// irdump: writes an LLVM module as JSON for the abstract interpreter in engine/sa.
// One JSON object: {"functions": {name: {...}}, "globals": {name: {...}}, "types": {...}}
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <map>
#include <set>
#include <string>
using namespace llvm;
namespace j = llvm::json;

static const DataLayout* DL;

static j::Value ty(Type* t) {
    if (t->isVoidTy()) return "void";
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (t->isPointerTy()) return "p";
    if (t->isFloatTy()) return "f32";
    if (t->isDoubleTy()) return "f64";
    if (t->isFloatingPointTy()) return "f" + std::to_string(DL->getTypeAllocSize(t).getFixedValue() * 8);
    if (auto* s = dyn_cast<StructType>(t)) {
        j::Array el;
        auto* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i)
            el.push_back(j::Array{ (int64_t)sl->getElementOffset(i).getFixedValue(), ty(s->getElementType(i)) });
        return j::Array{ "s", (int64_t)DL->getTypeAllocSize(s).getFixedValue(), std::move(el) };
    }
    if (auto* a = dyn_cast<ArrayType>(t))
        return j::Array{ "a", (int64_t)DL->getTypeAllocSize(a).getFixedValue(), (int64_t)a->getNumElements(), ty(a->getElementType()) };
    if (auto* v = dyn_cast<FixedVectorType>(t))
        return j::Array{ "a", (int64_t)DL->getTypeAllocSize(v).getFixedValue(), (int64_t)v->getNumElements(), ty(v->getElementType()) };
    if (t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return "other";
    return "other";
}
static int64_t tsize(Type* t) { return t->isSized() ? (int64_t)DL->getTypeAllocSize(t).getFixedValue() : 0; }
static int64_t ssize(Type* t) { return t->isSized() ? (int64_t)DL->getTypeStoreSize(t).getFixedValue() : 0; }

static std::map<const Value*, int> ids;
static std::map<const BasicBlock*, int> bids;

static std::string apstr(const APInt& v) { SmallString<40> s; v.toStringUnsigned(s, 10); return std::string(s.str()); }

static j::Value op(const Value* v);
static j::Value cst(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) return j::Array{ "i", (int64_t)ci->getBitWidth(), apstr(ci->getValue()) };
    if (isa<ConstantPointerNull>(c)) return j::Array{ "null" };
    if (isa<UndefValue>(c)) return j::Array{ "undef", ty(c->getType()) };
    if (auto* f = dyn_cast<ConstantFP>(c)) { SmallString<40> s; f->getValueAPF().toString(s); return j::Array{ "f", std::string(s.str()) }; }
    if (auto* g = dyn_cast<GlobalValue>(c)) return j::Array{ "g", g->getName().str() };
    if (isa<ConstantAggregateZero>(c)) return j::Array{ "zero", ty(c->getType()) };
    if (auto* a = dyn_cast<ConstantAggregate>(c)) {
        j::Array el; for (auto& o : a->operands()) el.push_back(cst(cast<Constant>(&o)));
        return j::Array{ "agg", ty(c->getType()), std::move(el) };
    }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        j::Array el; for (unsigned i = 0; i < d->getNumElements(); ++i) el.push_back(cst(d->getElementAsConstant(i)));
        return j::Array{ "agg", ty(c->getType()), std::move(el) };
    }
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
        if (auto* gep = dyn_cast<GEPOperator>(e)) {
            APInt off(64, 0);
            if (gep->accumulateConstantOffset(*DL, off))
                return j::Array{ "gep", cst(cast<Constant>(gep->getPointerOperand())), off.getSExtValue() };
        }
        if (e->isCast()) return j::Array{ "cast", e->getOpcodeName(), ty(e->getType()), cst(e->getOperand(0)) };
        j::Array el; for (auto& o : e->operands()) el.push_back(cst(cast<Constant>(&o)));
        return j::Array{ "ce", e->getOpcodeName(), ty(e->getType()), std::move(el) };
    }
    return j::Array{ "unk" };
}
static j::Value op(const Value* v) {
    auto it = ids.find(v);
    if (it != ids.end()) return it->second;
    if (auto* c = dyn_cast<Constant>(v)) return cst(c);
    if (auto* b = dyn_cast<BasicBlock>(v)) return bids[b];
    return j::Array{ "unk" };
}

// flattened initialiser: list of [off, size, constant]
static void flat(const Constant* c, int64_t off, j::Array& out) {
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL->getStructLayout(s->getType());
        for (unsigned i = 0; i < s->getNumOperands(); ++i) flat(s->getOperand(i), off + sl->getElementOffset(i).getFixedValue(), out);
    } else if (auto* a = dyn_cast<ConstantArray>(c)) {
        auto es = tsize(a->getType()->getElementType());
        for (unsigned i = 0; i < a->getNumOperands(); ++i) flat(a->getOperand(i), off + i * es, out);
    } else if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        auto es = tsize(d->getElementType());
        for (unsigned i = 0; i < d->getNumElements(); ++i) flat(d->getElementAsConstant(i), off + i * es, out);
    } else if (isa<ConstantAggregateZero>(c)) {
        out.push_back(j::Array{ off, tsize(c->getType()), j::Array{ "zfill" } });
    } else if (isa<UndefValue>(c)) {
    } else out.push_back(j::Array{ off, ssize(c->getType()), cst(c) });
}

static std::map<const DIFile*, std::string> files;
static std::string fileOf(const DILocation* l) {
    std::string f = l->getFilename().str();
    if (!f.empty() && f[0] != '/') f = l->getDirectory().str() + "/" + f;
    return f;
}
static std::vector<std::string> fileTab; static std::map<std::string, int> fileIdx;
static int fidx(const std::string& s) { auto it = fileIdx.find(s); if (it != fileIdx.end()) return it->second; int i = fileTab.size(); fileTab.push_back(s); fileIdx[s] = i; return i; }

int main(int argc, char** argv) {
    LLVMContext ctx; SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) { err.print(argv[0], errs()); return 2; }
    DL = &m->getDataLayout();
    std::error_code ec; raw_fd_ostream os(argv[2], ec);
    j::Object root, funcs, globs;
    for (auto& g : m->globals()) {
        j::Object o;
        o["size"] = tsize(g.getValueType()); o["const"] = g.isConstant();
        o["dem"] = demangle(g.getName().str());
        o["tls"] = g.isThreadLocal();
        o["linkage"] = (int64_t)g.getLinkage();
        if (g.hasInitializer()) { j::Array a; flat(g.getInitializer(), 0, a); o["init"] = std::move(a); }
        globs[g.getName().str()] = std::move(o);
    }
    for (auto& a : m->aliases()) {
        j::Object o; o["alias"] = a.getAliasee()->getName().str(); globs[a.getName().str()] = std::move(o);
    }
    for (auto& f : *m) {
        j::Object o;
        o["dem"] = demangle(f.getName().str());
        o["decl"] = f.isDeclaration();
        o["ret"] = ty(f.getReturnType());
        o["nounwind"] = f.doesNotThrow();
        o["noreturn"] = f.doesNotReturn();
        o["vararg"] = f.isVarArg();
        o["linkage"] = (int64_t)f.getLinkage();
        ids.clear(); bids.clear(); int n = 0;
        j::Array args;
        for (auto& a : f.args()) {
            ids[&a] = n++;
            j::Object ao; ao["ty"] = ty(a.getType());
            if (a.hasStructRetAttr()) ao["sret"] = tsize(a.getParamStructRetType());
            if (a.hasByValAttr()) ao["byval"] = tsize(a.getParamByValType());
            if (auto d = a.getDereferenceableBytes()) ao["deref"] = (int64_t)d;
            ao["name"] = a.getName().str();
            args.push_back(std::move(ao));
        }
        o["args"] = std::move(args);
        if (auto* sp = f.getSubprogram()) {
            std::string fn = sp->getFilename().str();
            if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
            o["file"] = fidx(fn); o["line"] = (int64_t)sp->getLine();
        }
        if (!f.isDeclaration()) {
            int b = 0;
            for (auto& bb : f) bids[&bb] = b++;
            for (auto& bb : f) for (auto& i : bb) if (!i.getType()->isVoidTy()) ids[&i] = n++;
            o["nvals"] = n;
            j::Array blocks;
            for (auto& bb : f) {
                j::Array ins;
                for (auto& i : bb) {
                    if (isa<DbgInfoIntrinsic>(&i)) continue;
                    j::Object x;
                    x["op"] = i.getOpcodeName();
                    if (!i.getType()->isVoidTy()) { x["id"] = ids[&i]; x["ty"] = ty(i.getType()); }
                    if (auto& d = i.getDebugLoc()) {
                        x["l"] = j::Array{ fidx(fileOf(d.get())), (int64_t)d.getLine(), (int64_t)d.getCol() };
                    }
                    auto ops = [&] { j::Array a; for (auto& u : i.operands()) a.push_back(op(u.get())); return a; };
                    if (auto* a = dyn_cast<AllocaInst>(&i)) {
                        x["size"] = tsize(a->getAllocatedType()); x["n"] = op(a->getArraySize()); x["name"] = a->getName().str();
                    } else if (auto* l = dyn_cast<LoadInst>(&i)) {
                        x["ops"] = ops(); x["size"] = ssize(l->getType()); x["vol"] = l->isVolatile(); if (l->isAtomic()) x["atomic"] = toIRString(l->getOrdering());
                    } else if (auto* s = dyn_cast<StoreInst>(&i)) {
                        x["ops"] = ops(); x["size"] = ssize(s->getValueOperand()->getType()); x["vty"] = ty(s->getValueOperand()->getType()); if (s->isAtomic()) x["atomic"] = toIRString(s->getOrdering());
                    } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                        MapVector<Value*, APInt> vo; APInt co(64, 0);
                        cast<GEPOperator>(g)->collectOffset(*DL, 64, vo, co);
                        x["base"] = op(g->getPointerOperand()); x["off"] = co.getSExtValue();
                        j::Array v; for (auto& p : vo) v.push_back(j::Array{ op(p.first), p.second.getSExtValue(), ty(p.first->getType()) });
                        x["var"] = std::move(v); x["inb"] = g->isInBounds();
                    } else if (auto* c = dyn_cast<CallBase>(&i)) {
                        x["callee"] = op(c->getCalledOperand());
                        j::Array a; unsigned k = 0;
                        j::Array byv;
                        for (auto& u : c->args()) { a.push_back(op(u.get())); byv.push_back(c->isByValArgument(k) ? tsize(c->getParamByValType(k)) : 0); ++k; }
                        x["args"] = std::move(a); x["byval"] = std::move(byv);
                        j::Array at; for (auto& u : c->args()) at.push_back(ty(u->getType()));
                        x["aty"] = std::move(at);
                        x["va"] = c->getFunctionType()->isVarArg();
                        x["nounwind"] = c->doesNotThrow();
                        if (auto* iv = dyn_cast<InvokeInst>(c)) { x["normal"] = bids[iv->getNormalDest()]; x["unwind"] = bids[iv->getUnwindDest()]; }
                    } else if (auto* br = dyn_cast<BranchInst>(&i)) {
                        if (br->isConditional()) { x["cond"] = op(br->getCondition()); x["t"] = bids[br->getSuccessor(0)]; x["f"] = bids[br->getSuccessor(1)]; }
                        else x["t"] = bids[br->getSuccessor(0)];
                    } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
                        x["cond"] = op(sw->getCondition()); x["w"] = (int64_t)sw->getCondition()->getType()->getIntegerBitWidth();
                        x["def"] = bids[sw->getDefaultDest()];
                        j::Array cs; for (auto& cse : sw->cases()) cs.push_back(j::Array{ apstr(cse.getCaseValue()->getValue()), bids[cse.getCaseSuccessor()] });
                        x["cases"] = std::move(cs);
                    } else if (auto* ph = dyn_cast<PHINode>(&i)) {
                        j::Array in; for (unsigned k = 0; k < ph->getNumIncomingValues(); ++k) in.push_back(j::Array{ bids[ph->getIncomingBlock(k)], op(ph->getIncomingValue(k)) });
                        x["in"] = std::move(in);
                    } else if (auto* ic = dyn_cast<CmpInst>(&i)) {
                        x["pred"] = CmpInst::getPredicateName(ic->getPredicate()).str(); x["ops"] = ops(); x["oty"] = ty(ic->getOperand(0)->getType());
                    } else if (auto* lp = dyn_cast<LandingPadInst>(&i)) {
                        x["cleanup"] = lp->isCleanup();
                        j::Array cl; for (unsigned k = 0; k < lp->getNumClauses(); ++k) cl.push_back(j::Array{ lp->isCatch(k) ? "catch" : "filter", cst(lp->getClause(k)) });
                        x["clauses"] = std::move(cl);
                    } else if (auto* ev = dyn_cast<ExtractValueInst>(&i)) {
                        x["ops"] = ops(); j::Array ix; for (auto k : ev->indices()) ix.push_back((int64_t)k); x["idx"] = std::move(ix);
                    } else if (auto* iv = dyn_cast<InsertValueInst>(&i)) {
                        x["ops"] = ops(); j::Array ix; for (auto k : iv->indices()) ix.push_back((int64_t)k); x["idx"] = std::move(ix);
                    } else if (auto* ci = dyn_cast<CastInst>(&i)) {
                        x["ops"] = ops(); x["oty"] = ty(ci->getSrcTy());
                    } else if (auto* rmw = dyn_cast<AtomicRMWInst>(&i)) {
                        x["ops"] = ops(); x["sub"] = AtomicRMWInst::getOperationName(rmw->getOperation()).str(); x["size"] = ssize(rmw->getType());
                    } else if (isa<AtomicCmpXchgInst>(&i)) {
                        x["ops"] = ops(); x["size"] = ssize(cast<AtomicCmpXchgInst>(i).getCompareOperand()->getType());
                    } else {
                        x["ops"] = ops();
                        if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&i)) { x["nsw"] = ob->hasNoSignedWrap(); x["nuw"] = ob->hasNoUnsignedWrap(); }
                    }
                    ins.push_back(std::move(x));
                }
                blocks.push_back(std::move(ins));
            }
            o["blocks"] = std::move(blocks);
        }
        funcs[f.getName().str()] = std::move(o);
    }
    // debug-info class members: qualified class name -> [[member, offset, size, type name]]
    j::Object types;
    DebugInfoFinder fnd; fnd.processModule(*m);
    for (auto* t : fnd.types()) {
        auto* ct = dyn_cast<DICompositeType>(t);
        if (!ct || ct->isForwardDecl()) continue;
        if (ct->getTag() == dwarf::DW_TAG_enumeration_type) {
            std::string q = ct->getName().str();
            for (auto* sc = ct->getScope(); sc && !isa<DIFile>(sc) && !isa<DICompileUnit>(sc); sc = sc->getScope()) q = sc->getName().str() + "::" + q;
            j::Array es; for (auto* e : ct->getElements()) if (auto* en = dyn_cast<DIEnumerator>(e)) es.push_back(j::Array{ en->getName().str(), en->getValue().getSExtValue() });
            types["enum " + q] = std::move(es);
            continue;
        }
        if (ct->getTag() != dwarf::DW_TAG_class_type && ct->getTag() != dwarf::DW_TAG_structure_type) continue;
        std::string q = ct->getName().str();
        for (auto* sc = ct->getScope(); sc && !isa<DIFile>(sc) && !isa<DICompileUnit>(sc); sc = sc->getScope()) q = sc->getName().str() + "::" + q;
        if (q.find("pluto") == std::string::npos) continue;
        if (q.compare(0, 3, "std") == 0 || q.compare(0, 9, "__gnu_cxx") == 0) continue;
        j::Array mem;
        for (auto* e : ct->getElements()) {
            auto* d = dyn_cast<DIDerivedType>(e);
            if (!d || d->isStaticMember()) continue;
            std::string tn; auto* bt = d->getBaseType();
            while (bt && tn.empty()) {
                if (auto* dd = dyn_cast<DIDerivedType>(bt)) {
                    if (dd->getTag() == dwarf::DW_TAG_pointer_type) { tn = "*"; break; }
                    if (dd->getTag() == dwarf::DW_TAG_reference_type) { tn = "&"; break; }
                    bt = dd->getBaseType();
                } else {
                    tn = bt->getName().str();
                    for (auto* sc = bt->getScope(); sc && !isa<DIFile>(sc) && !isa<DICompileUnit>(sc); sc = sc->getScope()) tn = sc->getName().str() + "::" + tn;
                    break;
                }
            }
            mem.push_back(j::Array{ d->getTag() == dwarf::DW_TAG_inheritance ? std::string("<base>") : d->getName().str(), (int64_t)d->getOffsetInBits() / 8, (int64_t)(bt ? bt->getSizeInBits() / 8 : d->getSizeInBits() / 8), tn });
        }
        j::Object to; to["size"] = (int64_t)ct->getSizeInBits() / 8; to["members"] = std::move(mem);
        types[q] = std::move(to);
    }
    root["functions"] = std::move(funcs); root["globals"] = std::move(globs); root["types"] = std::move(types);
    j::Array ft; for (auto& s : fileTab) ft.push_back(s);
    root["files"] = std::move(ft);
    os << j::Value(std::move(root));
    return 0;
}
