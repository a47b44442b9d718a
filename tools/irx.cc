// irx: links LLVM modules, inlines them down to the analysis boundary, promotes locals to SSA and
// dumps the program (functions, CFGs, instructions, struct layouts with source member names,
// constant tables, debug locations) as JSON for the rules in /verif/hm.
//
// usage: irx OUT.json [--keep=REGEX] A.bc B.bc ...
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/IR/TypeFinder.h"
#include <functional>
#include <map>
#include <set>

using namespace llvm;
using json::Array;
using json::Object;
using JV = json::Value;

static const DataLayout *DL;

static std::string u64s(const APInt &v) { return toString(v, 10, false); }

// ---- debug-info types ------------------------------------------------------------------------
static const DIType *strip(const DIType *T) {
    while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
        unsigned t = D->getTag();
        if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type ||
            t == dwarf::DW_TAG_volatile_type || t == dwarf::DW_TAG_atomic_type)
            T = D->getBaseType();
        else
            break;
    }
    return T;
}

static std::string ditype_name(const DIType *T, int depth = 0) {
    if (!T) return "void";
    if (depth > 8) return "?";
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
        switch (D->getTag()) {
        case dwarf::DW_TAG_pointer_type: return ditype_name(D->getBaseType(), depth + 1) + "*";
        case dwarf::DW_TAG_const_type: return ditype_name(D->getBaseType(), depth + 1);
        case dwarf::DW_TAG_volatile_type: return ditype_name(D->getBaseType(), depth + 1);
        case dwarf::DW_TAG_atomic_type: return "_Atomic " + ditype_name(D->getBaseType(), depth + 1);
        case dwarf::DW_TAG_typedef: {
            // a second name of a named structure
            const DIType *B = D->getBaseType();
            if (auto *C = dyn_cast_or_null<DICompositeType>(B))
                if (C->getTag() == dwarf::DW_TAG_structure_type && !C->getName().empty() && C->getName() != "_IO_FILE") return "struct " + C->getName().str();
            return D->getName().str();
        }
        default: return ditype_name(D->getBaseType(), depth + 1);
        }
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) {
        if (C->getTag() == dwarf::DW_TAG_array_type) return ditype_name(C->getBaseType(), depth + 1) + "[]";
        if (!C->getName().empty()) return "struct " + C->getName().str();
        return "struct <anon>";
    }
    return T->getName().str();
}

static void flatten(const DICompositeType *C, uint64_t base, Array &out, int depth = 0) {
    if (depth > 4) return;
    for (auto *E : C->getElements()) {
        auto *M = dyn_cast_or_null<DIDerivedType>(E);
        if (!M || M->getTag() != dwarf::DW_TAG_member) continue;
        uint64_t off = base + M->getOffsetInBits() / 8;
        const DIType *T = strip(M->getBaseType());
        if (M->getName().empty()) {
            if (auto *S = dyn_cast_or_null<DICompositeType>(T)) flatten(S, off, out, depth + 1);
            continue;
        }
        out.push_back(Object{{"name", M->getName().str()},
                             {"off", (int64_t)off},
                             {"size", (int64_t)(M->getSizeInBits() / 8)},
                             {"type", ditype_name(M->getBaseType())}});
    }
}

// ---- types -----------------------------------------------------------------------------------
static std::string tystr(Type *T) {
    std::string s;
    raw_string_ostream os(s);
    if (auto *S = dyn_cast<StructType>(T)) {
        if (S->hasName()) return "%" + S->getName().str();
    }
    T->print(os, false, true);
    return os.str();
}

// ---- values ----------------------------------------------------------------------------------
struct Namer {
    std::map<const llvm::Value *, int> ids;
    int next = 0;
    int get(const llvm::Value *v) {
        auto it = ids.find(v);
        if (it != ids.end()) return it->second;
        return ids[v] = next++;
    }
};

static JV constant(const Constant *C);

static JV operand(const llvm::Value *V, Namer &N) {
    if (isa<Instruction>(V) || isa<Argument>(V)) return Array{"v", N.get(V)};
    if (isa<BasicBlock>(V)) return Array{"b", N.get(V)};
    if (auto *C = dyn_cast<Constant>(V)) return constant(C);
    if (isa<InlineAsm>(V)) return Array{"asm"};
    if (isa<MetadataAsValue>(V)) return Array{"md"};
    return Array{"?"};
}

static unsigned width(Type *T) {
    if (T->isPointerTy()) return 64;
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isSized()) return (unsigned)(DL->getTypeStoreSize(T) * 8);
    return 0;
}

// constants: ["c", "<unsigned decimal>", width], ["g", name, byte offset], ["null"], ["undef"],
//            ["fn", name], ["agg", [...]], ["zero", size]
static JV constant(const Constant *C) {
    if (auto *I = dyn_cast<ConstantInt>(C)) return Array{"c", u64s(I->getValue()), (int64_t)I->getBitWidth()};
    if (isa<ConstantPointerNull>(C)) return Array{"c", "0", 64};
    if (isa<UndefValue>(C)) return Array{"undef", (int64_t)width(C->getType())};
    if (auto *F = dyn_cast<Function>(C)) return Array{"fn", F->getName().str()};
    if (auto *G = dyn_cast<GlobalVariable>(C)) return Array{"g", G->getName().str(), 0};
    if (auto *A = dyn_cast<GlobalAlias>(C)) return Array{"alias", A->getName().str()};
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        if (CE->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0);
            auto *GO = cast<GEPOperator>(CE);
            if (GO->accumulateConstantOffset(*DL, off)) {
                JV base = constant(cast<Constant>(GO->getPointerOperand()));
                if (auto *arr = base.getAsArray())
                    if (arr->size() == 3 && (*arr)[0] == JV("g"))
                        return Array{"g", (*arr)[1], *(*arr)[2].getAsInteger() + (int64_t)off.getSExtValue()};
            }
        }
        if (CE->isCast()) return constant(CE->getOperand(0));
        std::string s;
        raw_string_ostream os(s);
        CE->print(os);
        return Array{"cexpr", os.str()};
    }
    if (isa<ConstantAggregateZero>(C)) return Array{"zero", (int64_t)DL->getTypeAllocSize(C->getType())};
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
        if (CD->isString()) {
            return Array{"str", toHex(CD->getRawDataValues(), true)};
        }
        Array a;
        for (unsigned i = 0; i < CD->getNumElements(); i++) a.push_back(constant(CD->getElementAsConstant(i)));
        return Array{"agg", std::move(a)};
    }
    if (isa<ConstantAggregate>(C)) {
        Array a;
        for (auto &op : C->operands()) a.push_back(constant(cast<Constant>(op)));
        return Array{"agg", std::move(a)};
    }
    std::string s;
    raw_string_ostream os(s);
    C->print(os);
    return Array{"k", os.str()};
}

static JV loc(const Instruction &I) {
    const DILocation *L = I.getDebugLoc().get();
    if (!L) return nullptr;
    Array chain;
    for (const DILocation *X = L; X; X = X->getInlinedAt()) {
        StringRef fn;
        if (auto *SP = X->getScope()->getSubprogram()) fn = SP->getName();
        chain.push_back(Array{X->getFilename().str(), (int64_t)X->getLine(), fn.str()});
    }
    return chain;
}

static const char *pred(CmpInst::Predicate p) { return CmpInst::getPredicateName(p).data(); }

static const char *order(AtomicOrdering o) { return toIRString(o); }

static Object instr(const Instruction &I, Namer &N) {
    Object o;
    o["id"] = N.get(&I);
    o["op"] = I.getOpcodeName();
    o["w"] = (int64_t)(I.getType()->isVoidTy() ? 0 : width(I.getType()));
    if (I.getType()->isPointerTy()) o["ptr"] = true;
    if (I.getType()->isStructTy()) {
        Array f;
        for (Type *e : cast<StructType>(I.getType())->elements()) f.push_back((int64_t)width(e));
        o["fields"] = std::move(f);
    }
    o["loc"] = loc(I);
    Array ops;
    if (auto *P = dyn_cast<PHINode>(&I)) {
        Array inc;
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
            inc.push_back(Array{N.get(P->getIncomingBlock(i)), operand(P->getIncomingValue(i), N)});
        o["inc"] = std::move(inc);
        return o;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        // base, constant byte offset, variable (operand, scale) list, struct steps
        o["base"] = operand(G->getPointerOperand(), N);
        int64_t off = 0;
        Array vars, steps;
        Type *T = nullptr;
        bool first = true;
        for (auto GI = gep_type_begin(G), GE = gep_type_end(G); GI != GE; ++GI) {
            const llvm::Value *idx = GI.getOperand();
            if (StructType *S = GI.getStructTypeOrNull()) {
                unsigned fi = cast<ConstantInt>(idx)->getZExtValue();
                int64_t fo = DL->getStructLayout(S)->getElementOffset(fi);
                steps.push_back(Array{"f", S->hasName() ? S->getName().str() : std::string(""), fo, off});
                off += fo;
            } else {
                T = GI.getIndexedType();
                int64_t sz = DL->getTypeAllocSize(T);
                if (auto *C = dyn_cast<ConstantInt>(idx)) {
                    off += C->getSExtValue() * sz;
                    if (!first || !C->isZero()) steps.push_back(Array{"i", tystr(T), sz});
                } else {
                    vars.push_back(Array{operand(idx, N), sz, (int64_t)idx->getType()->getIntegerBitWidth()});
                    steps.push_back(Array{"i", tystr(T), sz});
                }
            }
            first = false;
        }
        o["off"] = off;
        o["vars"] = std::move(vars);
        o["steps"] = std::move(steps);
        o["srcty"] = tystr(G->getSourceElementType());
        o["inbounds"] = G->isInBounds();
        return o;
    }
    if (auto *C = dyn_cast<CallBase>(&I)) {
        for (auto &a : C->args()) ops.push_back(operand(a.get(), N));
        o["ops"] = std::move(ops);
        const llvm::Value *callee = C->getCalledOperand()->stripPointerCastsAndAliases();
        if (auto *F = dyn_cast<Function>(callee)) {
            o["callee"] = F->getName().str();
            if (F->doesNotReturn()) o["noreturn"] = true;
            if (F->isIntrinsic()) o["intr"] = true;
        } else if (isa<InlineAsm>(callee)) {
            o["callee"] = "<asm>";
            o["asm"] = cast<InlineAsm>(callee)->getAsmString();
        } else {
            o["callee"] = "<indirect>";
            o["target"] = operand(C->getCalledOperand(), N);
        }
        if (C->doesNotReturn()) o["noreturn"] = true;
        Array sret;
        for (unsigned i = 0; i < C->arg_size(); i++)
            if (C->paramHasAttr(i, Attribute::StructRet)) sret.push_back((int64_t)i);
        if (!sret.empty()) o["sret"] = std::move(sret);
        if (auto *IV = dyn_cast<InvokeInst>(&I)) {
            o["normal"] = N.get(IV->getNormalDest());
            o["unwind"] = N.get(IV->getUnwindDest());
        }
        return o;
    }
    if (auto *B = dyn_cast<BranchInst>(&I)) {
        if (B->isConditional()) {
            o["cond"] = operand(B->getCondition(), N);
            o["succ"] = Array{N.get(B->getSuccessor(0)), N.get(B->getSuccessor(1))};
        } else
            o["succ"] = Array{N.get(B->getSuccessor(0))};
        return o;
    }
    if (auto *S = dyn_cast<SwitchInst>(&I)) {
        o["cond"] = operand(S->getCondition(), N);
        o["default"] = N.get(S->getDefaultDest());
        Array cs;
        for (auto c : S->cases())
            cs.push_back(Array{u64s(c.getCaseValue()->getValue()), N.get(c.getCaseSuccessor())});
        o["cases"] = std::move(cs);
        return o;
    }
    for (auto &op : I.operands()) ops.push_back(operand(op.get(), N));
    o["ops"] = std::move(ops);
    if (auto *C = dyn_cast<CmpInst>(&I)) {
        o["pred"] = pred(C->getPredicate());
        o["ow"] = (int64_t)width(C->getOperand(0)->getType());
    }
    if (auto *C = dyn_cast<CastInst>(&I)) o["ow"] = (int64_t)width(C->getSrcTy());
    if (auto *L = dyn_cast<LoadInst>(&I)) {
        o["volatile"] = L->isVolatile();
        if (L->isAtomic()) o["atomic"] = order(L->getOrdering());
    }
    if (auto *S = dyn_cast<StoreInst>(&I)) {
        o["volatile"] = S->isVolatile();
        o["sw"] = (int64_t)width(S->getValueOperand()->getType());
        o["sptr"] = S->getValueOperand()->getType()->isPointerTy();
        if (S->isAtomic()) o["atomic"] = order(S->getOrdering());
    }
    if (auto *R = dyn_cast<AtomicRMWInst>(&I)) {
        o["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()).str();
        o["atomic"] = order(R->getOrdering());
    }
    if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) o["atomic"] = order(X->getSuccessOrdering());
    if (auto *A = dyn_cast<AllocaInst>(&I)) {
        o["size"] = (int64_t)(A->isArrayAllocation() ? 0 : (int64_t)DL->getTypeAllocSize(A->getAllocatedType()));
        o["aty"] = tystr(A->getAllocatedType());
    }
    if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
        Array ix;
        for (unsigned i : E->indices()) ix.push_back((int64_t)i);
        o["idx"] = std::move(ix);
    }
    if (auto *E = dyn_cast<InsertValueInst>(&I)) {
        Array ix;
        for (unsigned i : E->indices()) ix.push_back((int64_t)i);
        o["idx"] = std::move(ix);
    }
    return o;
}

// Which of the functions that lock for themselves stay calls. How a long operation is divided into functions is a matter of
// style, so the choice is made by role: the functions through which malloc, free and the aligned and sized forms do their work
// (the first ones on the way that lock or that call several locking functions in a row), initialisation, and what several
// of them share with other entry points and issues kernel requests. Other locking helpers become part of their callers.
static void units(Module &M, std::set<const Function *> &heavy, const std::set<const Function *> &init,
                  const std::set<const Function *> &kernel) {
    std::map<const Function *, std::vector<const CallBase *>> sites;
    std::map<const Function *, std::vector<const Function *>> callers;
    for (Function &F : M)
        for (BasicBlock &B : F)
            for (Instruction &I : B)
                if (auto *CB = dyn_cast<CallBase>(&I))
                    if (auto *C = CB->getCalledFunction())
                        if (!C->isDeclaration()) {
                            sites[&F].push_back(CB);
                            callers[C].push_back(&F);
                        }
    auto exported = [](const Function *F) { return F->hasDefaultVisibility() && !F->hasLocalLinkage(); };
    // functions that may run a locking function (initialisation aside)
    std::set<const Function *> runs;
    for (auto *F : heavy)
        if (!init.count(F)) runs.insert(F);
    for (bool ch = true; ch;) {
        ch = false;
        for (auto &kv : sites)
            for (auto *CB : kv.second)
                if (runs.count(CB->getCalledFunction()) && runs.insert(kv.first).second) ch = true;
    }
    // one after the other on some path
    auto sequence = [&](const Function *F) {
        std::vector<const CallBase *> cs;
        for (auto *CB : sites[F])
            if (runs.count(CB->getCalledFunction())) cs.push_back(CB);
        for (auto *a : cs)
            for (auto *b : cs) {
                if (a != b && a->getParent() == b->getParent() && a->comesBefore(b)) return true;
                std::set<const BasicBlock *> seen;
                std::vector<const BasicBlock *> work(succ_begin(a->getParent()), succ_end(a->getParent()));
                while (!work.empty()) {
                    auto *B = work.back();
                    work.pop_back();
                    if (!seen.insert(B).second) continue;
                    if (B == b->getParent()) return true;
                    work.insert(work.end(), succ_begin(B), succ_end(B));
                }
            }
        return false;
    };
    std::set<const Function *> all(heavy);
    for (Function &F : M)
        if (!F.isDeclaration() && runs.count(&F) && !exported(&F) && sequence(&F)) all.insert(&F);
    std::set<const Function *> keep;
    for (auto *F : heavy)
        if (init.count(F)) keep.insert(F);
    std::function<void(const Function *, std::set<const Function *> &)> roles = [&](const Function *F, std::set<const Function *> &seen) {
        if (!seen.insert(F).second) return;
        for (auto *CB : sites[F]) {
            auto *C = CB->getCalledFunction();
            if (all.count(C)) {
                if (kernel.count(C)) keep.insert(C);
            } else
                roles(C, seen);
        }
    };
    for (const char *n : {"malloc", "calloc", "aligned_alloc", "posix_memalign", "free", "free_sized", "h_malloc", "h_calloc", "h_aligned_alloc",
                          "h_posix_memalign", "h_free", "h_free_sized", "h_free_aligned_sized"})
        if (auto *F = M.getFunction(n)) {
            std::set<const Function *> seen;
            if (!F->isDeclaration()) roles(F, seen);
        }
    // shared by a kept function and another entry point
    for (bool ch = true; ch;) {
        ch = false;
        for (auto *F : all) {
            if (keep.count(F) || !kernel.count(F) || exported(F)) continue;
            bool entry = false, kept = false;
            std::set<const Function *> seen;
            std::vector<const Function *> work{F};
            while (!work.empty()) {
                auto *C = work.back();
                work.pop_back();
                if (!seen.insert(C).second) continue;
                if (C != F && keep.count(C))
                    kept = true;
                else if (C != F && exported(C))
                    entry = true;
                else
                    work.insert(work.end(), callers[C].begin(), callers[C].end());
            }
            // its callers that lock are considered first
            bool outer = false;
            for (auto *C : callers[F])
                outer |= C != F && all.count(C) && !keep.count(C) && kernel.count(C) && !exported(C) && callers[C].size() > 1;
            if (entry && kept && !outer) {
                keep.insert(F);
                ch = true;
            }
        }
    }
    heavy = keep;
}

int main(int argc, char **argv) {
    if (argc < 3) return 2;
    LLVMContext Ctx;
    std::unique_ptr<Module> M;
    std::string keep;
    bool cut = false;
    for (int i = 2; i < argc; i++) {
        StringRef a = argv[i];
        if (a.consume_front("--keep=")) {
            keep = a.str();
            continue;
        }
        if (a == "--cut-locks") {
            cut = true;
            continue;
        }
        SMDiagnostic E;
        auto m = parseIRFile(argv[i], E, Ctx);
        if (!m) {
            E.print(argv[0], errs());
            return 2;
        }
        if (!M)
            M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m)))
            return 2;
    }
    DL = &M->getDataLayout();

    // Inlining policy. Everything is inlined except the functions whose source name matches --keep
    // (the boundary: generator, cipher, fatal error), third-party code, and C++ runtime functions.
    Regex K(keep.empty() ? "^$" : keep);
    // --cut-locks: internal functions which take and release a lock themselves also stay calls, so that
    // their callers can be analysed without multiplying the paths. A function is a wrapper of the lock
    // operation when it can reach lock but not unlock (mutex_lock and the like).
    auto reach = [&](StringRef what) {
        std::set<const Function *> r;
        for (bool ch = true; ch;) {
            ch = false;
            for (Function &F : *M) {
                if (r.count(&F)) continue;
                bool hit = F.getName() == what;
                for (BasicBlock &B : F)
                    for (Instruction &I : B)
                        if (auto *CB = dyn_cast<CallBase>(&I))
                            if (auto *C = CB->getCalledFunction()) hit |= r.count(C) != 0;
                if (hit) {
                    r.insert(&F);
                    ch = true;
                }
            }
        }
        return r;
    };
    std::set<const Function *> heavy;
    if (cut) {
        auto L = reach("pthread_mutex_lock"), U = reach("pthread_mutex_unlock");
        for (Function &F : *M) {
            if (F.isDeclaration() || !L.count(&F) || !U.count(&F)) continue;
            if (F.hasDefaultVisibility() && !F.hasLocalLinkage()) continue;
            for (BasicBlock &B : F)
                for (Instruction &I : B)
                    if (auto *CB = dyn_cast<CallBase>(&I))
                        if (auto *C = CB->getCalledFunction())
                            if (L.count(C) && !U.count(C)) heavy.insert(&F);
        }
        units(*M, heavy, reach("pthread_atfork"), [&] {
            std::set<const Function *> r;
            for (const char *n : {"mmap", "mmap64", "munmap", "mprotect", "pkey_mprotect", "mremap", "madvise"}) {
                auto q = reach(n);
                r.insert(q.begin(), q.end());
            }
            return r;
        }());
    }
    Object finfo;
    for (Function &F : *M) {
        if (F.isDeclaration()) continue;
        F.removeFnAttr(Attribute::OptimizeNone);
        F.removeFnAttr(Attribute::NoInline);
        std::string file;
        int64_t line = 0;
        if (auto *SP = F.getSubprogram()) {
            file = SP->getFilename().str();
            line = SP->getLine();
        }
        std::string sig;
        if (auto *SP = F.getSubprogram())
            if (auto *T = SP->getType())
                for (const DIType *A : T->getTypeArray()) sig += ditype_name(A) + ",";
        bool third = StringRef(file).contains("third_party");
        bool kept = K.match(F.getName()) || heavy.count(&F);
        Object o{{"file", file}, {"line", line}, {"sig", sig}, {"local", F.hasLocalLinkage()},
                 {"default_vis", F.hasDefaultVisibility() && !F.hasLocalLinkage()},
                 {"weak", F.isWeakForLinker()},
                 {"third", third}, {"kept", kept}, {"heavy", heavy.count(&F) != 0}, {"addr_taken", F.hasAddressTaken()}};
        finfo[F.getName().str()] = std::move(o);
        if (third || kept) {
            F.addFnAttr(Attribute::NoInline);
            F.removeFnAttr(Attribute::AlwaysInline);
        } else
            F.addFnAttr(Attribute::AlwaysInline);
    }
    // do not let the inliner discard address-taken / exported functions: it does not by itself.
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, "function(sroa),always-inline,always-inline,always-inline,function(sroa,mem2reg,dce)")) {
        errs() << toString(std::move(E)) << "\n";
        return 2;
    }
    MPM.run(*M, MAM);

    Object root;
    root["triple"] = M->getTargetTriple();
    root["finfo"] = std::move(finfo);

    // struct layouts
    std::map<std::string, const DICompositeType *> comps;
    DebugInfoFinder DIF;
    DIF.processModule(*M);
    for (auto *T : DIF.types())
        if (auto *C = dyn_cast<DICompositeType>(T))
            if ((C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_union_type) &&
                !C->getName().empty() && !C->isForwardDecl())
                comps.emplace(C->getName().str(), C);
    // typedefs of anonymous structs
    for (auto *T : DIF.types())
        if (auto *D = dyn_cast<DIDerivedType>(T))
            if (D->getTag() == dwarf::DW_TAG_typedef)
                if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
                    if (C->getName().empty() && C->getTag() == dwarf::DW_TAG_structure_type)
                        comps.emplace(D->getName().str(), C);
    Object structs;
    for (auto &kv : comps) {
        Array m;
        flatten(kv.second, 0, m);
        structs[kv.first] = Object{{"size", (int64_t)(kv.second->getSizeInBits() / 8)}, {"members", std::move(m)}};
    }
    root["structs"] = std::move(structs);
    Object lls;
    TypeFinder TF;
    TF.run(*M, true);
    for (auto *S : TF) {
        if (!S->isSized()) continue;
        Array offs;
        for (unsigned i = 0; i < S->getNumElements(); i++)
            offs.push_back((int64_t)DL->getStructLayout(S)->getElementOffset(i));
        lls[S->getName()] = Object{{"size", (int64_t)DL->getTypeAllocSize(S)}, {"offs", std::move(offs)}};
    }
    root["llstructs"] = std::move(lls);

    Array globals;
    for (GlobalVariable &G : M->globals()) {
        Object o{{"name", G.getName().str()},
                 {"const", G.isConstant()},
                 {"tls", G.isThreadLocal()},
                 {"local", G.hasLocalLinkage()},
                 {"decl", G.isDeclaration()},
                 {"default_vis", G.hasDefaultVisibility() && !G.hasLocalLinkage()},
                 {"size", (int64_t)(G.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(G.getValueType()) : 0)},
                 {"align", (int64_t)(G.getAlign() ? G.getAlign()->value() : 0)},
                 {"section", G.getSection().str()},
                 {"ty", tystr(G.getValueType())}};
        if (auto *AT = dyn_cast<ArrayType>(G.getValueType())) o["elt"] = (int64_t)DL->getTypeAllocSize(AT->getElementType());
        if (G.hasInitializer()) o["init"] = constant(G.getInitializer());
        SmallVector<DIGlobalVariableExpression *, 1> dbg;
        G.getDebugInfo(dbg);
        if (!dbg.empty()) {
            auto *V = dbg[0]->getVariable();
            o["diname"] = V->getName().str();
            o["ditype"] = ditype_name(V->getType());
            o["file"] = V->getFilename().str();
            o["line"] = (int64_t)V->getLine();
            if (auto *C = dyn_cast_or_null<DICompositeType>(strip(V->getType())))
                if (C->getTag() != dwarf::DW_TAG_array_type) {
                    Array m;
                    flatten(C, 0, m);
                    o["members"] = std::move(m);
                }
        }
        globals.push_back(std::move(o));
    }
    root["globals"] = std::move(globals);
    Array aliases;
    for (GlobalAlias &A : M->aliases())
        aliases.push_back(Object{{"name", A.getName().str()},
                                 {"target", A.getAliaseeObject() ? A.getAliaseeObject()->getName().str() : ""},
                                 {"default_vis", A.hasDefaultVisibility() && !A.hasLocalLinkage()}});
    root["aliases"] = std::move(aliases);

    Array ctors;
    if (auto *GV = M->getNamedGlobal("llvm.global_ctors"))
        if (auto *CA = dyn_cast<ConstantArray>(GV->getInitializer()))
            for (auto &e : CA->operands())
                if (auto *F = dyn_cast<Function>(cast<Constant>(e)->getOperand(1)->stripPointerCasts()))
                    ctors.push_back(F->getName().str());
    root["ctors"] = std::move(ctors);

    Array decls;
    for (Function &F : *M)
        if (F.isDeclaration() && !F.isIntrinsic()) decls.push_back(F.getName().str());
    root["decls"] = std::move(decls);

    Object fns;
    for (Function &F : *M) {
        if (F.isDeclaration()) continue;
        Namer N;
        Array args;
        for (auto &A : F.args())
            args.push_back(Object{{"id", N.get(&A)}, {"w", (int64_t)width(A.getType())}, {"ptr", A.getType()->isPointerTy()},
                                  {"sret", A.hasStructRetAttr()}});
        Array blocks;
        for (BasicBlock &B : F) N.get(&B);
        for (BasicBlock &B : F) {
            Array is;
            for (Instruction &I : B) {
                if (isa<DbgInfoIntrinsic>(I) || isa<PseudoProbeInst>(I)) continue;
                if (auto *II = dyn_cast<IntrinsicInst>(&I))
                    switch (II->getIntrinsicID()) {
                    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::sideeffect: case Intrinsic::donothing:
                    case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::codeview_annotation: continue;
                    default: break;
                    }
                is.push_back(instr(I, N));
            }
            blocks.push_back(Object{{"id", N.get(&B)}, {"ins", std::move(is)}});
        }
        Object o{{"args", std::move(args)}, {"entry", N.get(&F.getEntryBlock())}, {"blocks", std::move(blocks)},
                 {"retw", (int64_t)(F.getReturnType()->isVoidTy() ? 0 : width(F.getReturnType()))},
                 {"retptr", F.getReturnType()->isPointerTy()},
                 {"nounwind", F.doesNotThrow()}, {"noreturn", F.doesNotReturn()}};
        if (auto *SP = F.getSubprogram()) {
            o["diname"] = SP->getName().str();
            o["file"] = SP->getFilename().str();
            o["line"] = (int64_t)SP->getLine();
        }
        fns[F.getName()] = std::move(o);
    }
    root["functions"] = std::move(fns);
    std::error_code EC;
    raw_fd_ostream os(argv[1], EC);
    os << JV(std::move(root));
    return EC ? 2 : 0;
}
