// irx: dumps the debug-info-resolved LLVM IR of one or more bitcode files as
// JSON. It does no analysis; /verif/sa does. Every fact in the output comes
// from the type-checked program produced by clang with the real build's
// defines.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include <map>
#include <set>
using namespace llvm;

static std::string tyname(Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) {
        if (st->hasName()) return st->getName().str();
    }
    std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str();
}

static const DIType *strip(const DIType *t) {
    while (t) {
        auto *d = dyn_cast<DIDerivedType>(t);
        if (!d) break;
        unsigned tag = d->getTag();
        if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type ||
            tag == dwarf::DW_TAG_volatile_type || tag == dwarf::DW_TAG_atomic_type ||
            tag == dwarf::DW_TAG_restrict_type)
            t = d->getBaseType();
        else break;
    }
    return t;
}

static std::string ditype(const DIType *t, int depth = 0) {
    if (!t) return "void";
    t = strip(t);
    if (!t) return "void";
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
        if (d->getTag() == dwarf::DW_TAG_pointer_type)
            return depth > 6 ? "*" : ditype(d->getBaseType(), depth + 1) + "*";
        return d->getName().str();
    }
    if (auto *c = dyn_cast<DICompositeType>(t)) {
        switch (c->getTag()) {
        case dwarf::DW_TAG_structure_type: return "struct." + c->getName().str();
        case dwarf::DW_TAG_union_type: return "union." + c->getName().str();
        case dwarf::DW_TAG_enumeration_type: return "enum." + c->getName().str();
        case dwarf::DW_TAG_array_type: return ditype(c->getBaseType(), depth + 1) + "[]";
        }
        return "?";
    }
    if (isa<DISubroutineType>(t)) return "fn";
    if (auto *b = dyn_cast<DIBasicType>(t)) return b->getName().str();
    return "?";
}

static void members(const DICompositeType *c, uint64_t base, json::Array &out,
    const std::string &prefix) 
{
    for (auto *e : c->getElements()) {
        auto *m = dyn_cast_or_null<DIDerivedType>(e);
        if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
        const DIType *bt = strip(m->getBaseType());
        uint64_t off = base + m->getOffsetInBits();
        auto *cc = dyn_cast_or_null<DICompositeType>(bt);
        std::string nm = m->getName().str();
        if (cc && (cc->getTag() == dwarf::DW_TAG_structure_type ||
                   cc->getTag() == dwarf::DW_TAG_union_type) && nm.empty()) {
            members(cc, off, out, prefix);
            continue;
        }
        uint64_t count = 0, esize = 0;
        if (cc && cc->getTag() == dwarf::DW_TAG_array_type) {
            const DIType *et = strip(cc->getBaseType());
            esize = et ? et->getSizeInBits() : 0;
            count = esize ? cc->getSizeInBits() / esize : 0;
        }
        out.push_back(json::Object{{"n", prefix + nm}, {"o", (int64_t)off},
            {"s", (int64_t)m->getSizeInBits()}, {"t", ditype(m->getBaseType())},
            {"c", (int64_t)count}, {"es", (int64_t)esize}});
    }
}

struct Dumper {
    Module &M;
    const DataLayout &DL;
    std::map<const Value*, int> ids;
    std::map<const BasicBlock*, int> bids;
    Dumper(Module &m) : M(m), DL(m.getDataLayout()) {}

    json::Value op(const Value *v, int depth = 0) {
        if (auto *ci = dyn_cast<ConstantInt>(v)) {
            if (ci->getBitWidth() <= 64)
                return json::Array{"c", ci->getBitWidth() == 1 ? (int64_t)ci->getZExtValue() : ci->getSExtValue(), (int64_t)ci->getBitWidth()};
            return json::Array{"big"};
        }
        if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
        if (auto *cf = dyn_cast<ConstantFP>(v)) {
            return json::Array{"d", cf->getType()->isDoubleTy() ? cf->getValueAPF().convertToDouble() : 0.0};
        }
        if (isa<UndefValue>(v)) return json::Array{"u"};
        if (auto *f = dyn_cast<Function>(v)) return json::Array{"f", f->getName().str()};
        if (auto *g = dyn_cast<GlobalVariable>(v)) return json::Array{"g", g->getName().str()};
        if (auto *ce = dyn_cast<ConstantExpr>(v)) {
            if (auto *gep = dyn_cast<GEPOperator>(ce)) {
                APInt off(64, 0);
                if (gep->accumulateConstantOffset(DL, off))
                    return json::Array{"ge", op(gep->getPointerOperand(), depth + 1), off.getSExtValue()};
            }
            if (ce->isCast()) return op(ce->getOperand(0), depth + 1);
            return json::Array{"ce"};
        }
        if (isa<ConstantAggregateZero>(v)) return json::Array{"z", tyname(v->getType())};
        if (auto *cd = dyn_cast<ConstantDataSequential>(v)) {
            if (cd->isString() || cd->getElementType()->isIntegerTy(8)) {
                json::Array bytes;
                StringRef s = cd->getRawDataValues();
                std::string r;
                bool ascii = true;
                for (unsigned char c : s) if (c >= 128) ascii = false;
                if (ascii) return json::Array{"s", s.str()};
                for (unsigned char c : s) bytes.push_back((int)c);
                return json::Array{"sb", std::move(bytes)};
            }
            json::Array a;
            for (unsigned i = 0; i < cd->getNumElements(); i++) a.push_back(op(cd->getElementAsConstant(i), depth + 1));
            return json::Array{"agg", tyname(v->getType()), std::move(a)};
        }
        if (auto *ca = dyn_cast<ConstantAggregate>(v)) {
            json::Array a;
            for (unsigned i = 0; i < ca->getNumOperands(); i++) a.push_back(op(ca->getOperand(i), depth + 1));
            return json::Array{"agg", tyname(v->getType()), std::move(a)};
        }
        if (isa<InlineAsm>(v)) return json::Array{"asm"};
        if (auto *mv = dyn_cast<MetadataAsValue>(v)) { (void)mv; return json::Array{"md"}; }
        auto it = ids.find(v);
        if (it != ids.end()) return json::Array{"v", it->second};
        return json::Array{"?"};
    }

    json::Object inst(const Instruction &I) {
        json::Object o;
        o["i"] = ids[&I];
        o["o"] = I.getOpcodeName();
        o["t"] = tyname(I.getType());
        if (I.getDebugLoc()) {
            o["l"] = (int64_t)I.getDebugLoc().getLine();
            o["cl"] = (int64_t)I.getDebugLoc().getCol();
        }
        if (auto *phi = dyn_cast<PHINode>(&I)) {
            json::Array a;
            for (unsigned i = 0; i < phi->getNumIncomingValues(); i++)
                a.push_back(json::Array{op(phi->getIncomingValue(i)), bids[phi->getIncomingBlock(i)]});
            o["a"] = std::move(a);
            return o;
        }
        if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
            o["a"] = json::Array{op(gep->getPointerOperand())};
            int64_t off = 0;
            json::Array vars, path;
            bool first = true;
            for (auto it = gep_type_begin(gep), e = gep_type_end(gep); it != e; ++it) {
                Value *idx = it.getOperand();
                if (StructType *st = it.getStructTypeOrNull()) {
                    unsigned f = cast<ConstantInt>(idx)->getZExtValue();
                    int64_t fo = DL.getStructLayout(st)->getElementOffset(f);
                    off += fo;
                    path.push_back(json::Array{tyname(st), fo});
                } else {
                    int64_t sz = DL.getTypeAllocSize(it.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(idx)) off += sz * ci->getSExtValue();
                    else vars.push_back(json::Array{op(idx), sz});
                }
                first = false;
            }
            (void)first;
            o["off"] = off;
            o["vars"] = std::move(vars);
            o["path"] = std::move(path);
            o["st"] = tyname(gep->getSourceElementType());
            return o;
        }
        if (auto *ai = dyn_cast<AllocaInst>(&I)) {
            o["at"] = tyname(ai->getAllocatedType());
            o["sz"] = (int64_t)DL.getTypeAllocSize(ai->getAllocatedType());
            if (!isa<ConstantInt>(ai->getArraySize())) o["vla"] = op(ai->getArraySize());
            return o;
        }
        json::Array a;
        if (auto *cb = dyn_cast<CallBase>(&I)) {
            for (auto &x : cb->args()) a.push_back(op(x.get()));
            o["a"] = std::move(a);
            o["f"] = op(cb->getCalledOperand());
            if (auto *f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()))
                o["f"] = json::Array{"f", f->getName().str()};
            if (cb->doesNotReturn()) o["nr"] = true;
            if (cb->getFunctionType()->isVarArg()) o["va"] = true;
            return o;
        }
        for (auto &x : I.operands()) {
            if (isa<BasicBlock>(x.get())) continue;
            a.push_back(op(x.get()));
        }
        if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            o["a"] = json::Array{op(sw->getCondition())};
            json::Array cs;
            for (auto &c : sw->cases())
                cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bids[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs);
            o["def"] = bids[sw->getDefaultDest()];
            return o;
        }
        o["a"] = std::move(a);
        if (auto *br = dyn_cast<BranchInst>(&I)) {
            json::Array s;
            for (unsigned i = 0; i < br->getNumSuccessors(); i++) s.push_back(bids[br->getSuccessor(i)]);
            o["s"] = std::move(s);
            if (br->isConditional()) o["a"] = json::Array{op(br->getCondition())};
            else o["a"] = json::Array{};
        } else if (auto *c = dyn_cast<CmpInst>(&I)) {
            o["p"] = CmpInst::getPredicateName(c->getPredicate()).str();
            o["ot"] = tyname(c->getOperand(0)->getType());
        } else if (auto *l = dyn_cast<LoadInst>(&I)) {
            if (l->isAtomic()) o["ord"] = toIRString(l->getOrdering());
        } else if (auto *s = dyn_cast<StoreInst>(&I)) {
            if (s->isAtomic()) o["ord"] = toIRString(s->getOrdering());
            o["vt"] = tyname(s->getValueOperand()->getType());
        } else if (auto *x = dyn_cast<AtomicCmpXchgInst>(&I)) {
            o["ord"] = toIRString(x->getSuccessOrdering());
            o["ordf"] = toIRString(x->getFailureOrdering());
        } else if (auto *x = dyn_cast<AtomicRMWInst>(&I)) {
            o["rmw"] = AtomicRMWInst::getOperationName(x->getOperation()).str();
            o["ord"] = toIRString(x->getOrdering());
        } else if (auto *x = dyn_cast<CastInst>(&I)) {
            o["ft"] = tyname(x->getSrcTy());
        } else if (auto *x = dyn_cast<ExtractValueInst>(&I)) {
            json::Array ix; for (unsigned k : x->getIndices()) ix.push_back((int64_t)k);
            o["ix"] = std::move(ix);
        } else if (auto *x = dyn_cast<InsertValueInst>(&I)) {
            json::Array ix; for (unsigned k : x->getIndices()) ix.push_back((int64_t)k);
            o["ix"] = std::move(ix);
        }
        return o;
    }

    json::Object func(Function &F) {
        ids.clear(); bids.clear();
        int n = 0, b = 0;
        for (auto &A : F.args()) ids[&A] = n++;
        for (auto &B : F) { bids[&B] = b++; }
        for (auto &B : F) for (auto &I : B) ids[&I] = n++;
        json::Object o;
        o["name"] = F.getName().str();
        o["internal"] = F.hasLocalLinkage();
        o["ret"] = tyname(F.getReturnType());
        o["va"] = F.isVarArg();
        o["noreturn"] = F.doesNotReturn();
        if (auto *sp = F.getSubprogram()) {
            o["file"] = sp->getFilename().str();
            o["line"] = (int64_t)sp->getLine();
            if (auto *ty = sp->getType()) {
                json::Array ts;
                for (auto *t : ty->getTypeArray()) ts.push_back(ditype(t));
                o["ditypes"] = std::move(ts);
            }
        }
        json::Array params;
        for (auto &A : F.args()) {
            json::Object p;
            p["t"] = tyname(A.getType());
            p["i"] = ids[&A];
            if (A.hasByValAttr()) p["byval"] = true;
            if (A.hasName()) p["n"] = A.getName().str();
            params.push_back(std::move(p));
        }
        o["params"] = std::move(params);
        json::Array blocks;
        json::Array names;
        for (auto &B : F) {
            json::Object bo;
            bo["id"] = bids[&B];
            json::Array insts;
            for (auto &I : B) {
                if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
                    if (auto *v = dv->getVariableLocationOp(0)) {
                        auto *var = dv->getVariable();
                        names.push_back(json::Array{op(v), var->getName().str(),
                            ditype(var->getType()), isa<DbgDeclareInst>(dv), (int64_t)bids[&B], (int64_t)I.getDebugLoc().getLine()});
                    }
                    continue;
                }
                if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
                    auto id = ii->getIntrinsicID();
                    if (id == Intrinsic::dbg_label || id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end) continue;
                }
                insts.push_back(inst(I));
            }
            bo["insts"] = std::move(insts);
            blocks.push_back(std::move(bo));
        }
        o["names"] = std::move(names);
        o["blocks"] = std::move(blocks);
        return o;
    }
};

int main(int argc, char **argv) {
    if (argc < 3) { errs() << "usage: irx out.json in.bc...\n"; return 2; }
    json::Object out;
    json::Array mods;
    for (int k = 2; k < argc; k++) {
        LLVMContext C;
        SMDiagnostic E;
        auto M = parseIRFile(argv[k], E, C);
        if (!M) { E.print("irx", errs()); return 2; }
        // promote scalar locals to SSA
        for (auto &F : *M) {
            if (F.isDeclaration()) continue;
            // drop unreachable blocks first
            {
                std::set<BasicBlock*> seen; std::vector<BasicBlock*> w{&F.getEntryBlock()};
                while (!w.empty()) { auto *b = w.back(); w.pop_back(); if (!seen.insert(b).second) continue; for (auto *s : successors(b)) w.push_back(s); }
                std::vector<BasicBlock*> dead;
                for (auto &B : F) if (!seen.count(&B)) dead.push_back(&B);
                for (auto *b : dead) for (auto *s : successors(b)) if (seen.count(s)) s->removePredecessor(b);
                for (auto *b : dead) b->dropAllReferences();
                for (auto *b : dead) b->eraseFromParent();
            }
            DominatorTree DT(F);
            while (true) {
                std::vector<AllocaInst*> as;
                for (auto &I : F.getEntryBlock())
                    if (auto *a = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(a)) as.push_back(a);
                if (as.empty()) break;
                PromoteMemToReg(as, DT);
            }
        }
        Dumper D(*M);
        json::Object mo;
        mo["src"] = M->getSourceFileName();
        // struct layouts from debug info
        json::Object structs;
        DebugInfoFinder Fd; Fd.processModule(*M);
        for (auto *t : Fd.types()) {
            auto *c = dyn_cast<DICompositeType>(t);
            if (!c || c->getName().empty()) continue;
            if (c->getTag() == dwarf::DW_TAG_enumeration_type) continue;
            if (c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
            json::Array ms; members(c, 0, ms, "");
            if (ms.empty()) continue;
            structs[(c->getTag() == dwarf::DW_TAG_union_type ? "union." : "struct.") + c->getName().str()] =
                json::Object{{"size", (int64_t)c->getSizeInBits()}, {"m", std::move(ms)}};
        }
        mo["structs"] = std::move(structs);
        json::Object enums;
        for (auto *t : Fd.types()) {
            auto *c = dyn_cast<DICompositeType>(t);
            if (!c || c->getTag() != dwarf::DW_TAG_enumeration_type) continue;
            json::Object es;
            for (auto *e : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) es[en->getName().str()] = en->getValue().getSExtValue();
            enums[c->getName().empty() ? std::string("anon") + std::to_string(c->getLine()) : c->getName().str()] = std::move(es);
        }
        mo["enums"] = std::move(enums);
        json::Array globs;
        for (auto &G : M->globals()) {
            json::Object g;
            g["name"] = G.getName().str();
            g["internal"] = G.hasLocalLinkage();
            g["tls"] = G.isThreadLocal();
            g["const"] = G.isConstant();
            g["t"] = tyname(G.getValueType());
            g["sz"] = G.getValueType()->isSized() ? (int64_t)M->getDataLayout().getTypeAllocSize(G.getValueType()) : 0;
            g["decl"] = G.isDeclaration();
            SmallVector<DIGlobalVariableExpression*, 1> gvs; G.getDebugInfo(gvs);
            if (!gvs.empty()) {
                auto *gv = gvs[0]->getVariable();
                g["line"] = (int64_t)gv->getLine();
                g["dit"] = ditype(gv->getType());
                const DIType *t = gv->getType();
                bool at = false;
                while (t) { auto *d = dyn_cast<DIDerivedType>(t); if (!d) break;
                    if (d->getTag() == dwarf::DW_TAG_atomic_type) at = true;
                    if (d->getTag() == dwarf::DW_TAG_pointer_type) break;
                    t = d->getBaseType(); }
                g["atomic"] = at;
                if (auto *sc = gv->getScope()) if (isa<DILocalScope>(sc)) g["local"] = true;
            }
            if (G.hasInitializer()) g["init"] = D.op(G.getInitializer());
            globs.push_back(std::move(g));
        }
        mo["globals"] = std::move(globs);
        json::Array decls, funcs;
        for (auto &F : *M) {
            if (F.isDeclaration()) {
                if (F.isIntrinsic()) continue;
                decls.push_back(json::Object{{"name", F.getName().str()}, {"noreturn", F.doesNotReturn()}, {"va", F.isVarArg()}});
                continue;
            }
            funcs.push_back(D.func(F));
        }
        mo["decls"] = std::move(decls);
        mo["functions"] = std::move(funcs);
        mods.push_back(std::move(mo));
    }
    out["modules"] = std::move(mods);
    std::error_code ec;
    raw_fd_ostream os(argv[1], ec);
    os << json::Value(std::move(out));
    return 0;
}
