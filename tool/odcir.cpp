// odcir: dumps a resolved, SSA-form view of a linked LLVM module as JSON for the rule engine (engine/*.py).
//
//   odcir MODULE.bc CONFIG.json OUT.json
//
// CONFIG: {"src": "/repo/src/", "plain": [regex...], "roots": [{"re": regex, "keep": [regex...], "depth": n}], "di": true}
//  - every function whose demangled name matches a "plain" regex is dumped as is (SROA/SSA form, no inlining)
//  - every function matching a "roots" entry is cloned, project callees (those defined under "src") are inlined into
//    the clone (bounded depth, recursion cut, callees matching "keep" stay calls), SSA-promoted, dumped with "root" set.
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"

#include <map>
#include <regex>
#include <set>

using namespace llvm;
using json::Array;
using json::Object;

typedef llvm::Value LV;

static std::string SRC = "/repo/src/";
static LLVMContext* CTX;
static unsigned FLD_KIND;

static std::string ty(Type* t) {
    std::string s;
    raw_string_ostream os(s);
    t->print(os, false, true);
    return os.str();
}

static std::string demangled(StringRef n) {
    return demangle(n.str());
}

static std::string filePath(const DIFile* f) {
    if (!f)
        return "";
    std::string n = f->getFilename().str();
    if (!n.empty() && n[0] != '/')
        n = f->getDirectory().str() + "/" + n;
    return n;
}

static bool isProject(const Function& F) {
    if (F.isDeclaration())
        return false;
    auto* sp = F.getSubprogram();
    if (sp)
        return filePath(sp->getFile()).rfind(SRC, 0) == 0;
    return F.getName().starts_with("_GLOBAL__sub_I") || F.getName().starts_with("__cxx_global_var_init");
}

static std::string stripDigits(StringRef s) {
    size_t e = s.size();
    while (e > 0 && (isdigit(s[e - 1])))
        --e;
    return (e ? s.substr(0, e) : s).str();
}

static std::string captureName(Function& F, GetElementPtrInst& G) {
    auto* sp = F.getSubprogram();
    if (!sp || sp->getName() != "operator()" || G.getNumIndices() != 2)
        return "";
    auto* cls = dyn_cast_or_null<DICompositeType>(sp->getScope());
    auto* L   = dyn_cast<LoadInst>(G.getPointerOperand());
    if (!cls || !L || !L->getPointerOperand()->getName().starts_with("this.addr"))
        return "";
    auto* st = cast<StructType>(G.getSourceElementType());
    auto* k  = dyn_cast<ConstantInt>(G.getOperand(2));
    // (the linker may have merged the closure's struct type with an identical one, so its name says nothing)
    if (!k || !cls->getName().empty())
        return "";
    uint64_t off = F.getParent()->getDataLayout().getStructLayout(st)->getElementOffset(k->getZExtValue());
    for (auto* e : cls->getElements())
        if (auto* d = dyn_cast<DIDerivedType>(e))
            if (d->getTag() == dwarf::DW_TAG_member && d->getOffsetInBits() == off * 8)
                return d->getName().str();
    return "";
}

// Record the member name clang gave each struct GEP, before any transformation renames values.
static void tagFields(Module& M) {
    for (Function& F : M)
        for (Instruction& I : instructions(F))
            if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
                if (!isa<StructType>(G->getSourceElementType()) || G->getNumIndices() < 2)
                    continue;
                StringRef n = G->getName();
                if (n.empty()) {
                    // captures of a closure object: named after the captured variable
                    std::string cap = captureName(F, *G);
                    if (!cap.empty())
                        I.setMetadata(FLD_KIND, MDNode::get(*CTX, MDString::get(*CTX, cap)));
                    continue;
                }
                I.setMetadata(FLD_KIND, MDNode::get(*CTX, MDString::get(*CTX, stripDigits(n))));
            }
}

struct Dumper {
    std::map<const LV*, int> ids;
    std::map<const BasicBlock*, int> bids;
    std::map<std::string, int>& files;
    std::set<const GlobalVariable*>& gvs;
    Dumper(std::map<std::string, int>& f, std::set<const GlobalVariable*>& g) : files(f), gvs(g) {}

    json::Value cst(const Constant* C) {
        if (auto* ci = dyn_cast<ConstantInt>(C)) {
            if (ci->getBitWidth() > 64)
                return Array{"i", 0, ci->getBitWidth()};
            return Array{"i", ci->getBitWidth() == 1 ? (int64_t)ci->getZExtValue() : ci->getSExtValue(),
                         (int64_t)ci->getBitWidth()};
        }
        if (auto* cf = dyn_cast<ConstantFP>(C)) {
            SmallString<32> s;
            cf->getValueAPF().toString(s);
            std::string v = s.str().str();
            return Array{"f", v};
        }
        if (isa<ConstantPointerNull>(C))
            return Array{"null"};
        if (isa<UndefValue>(C))
            return Array{"undef"};
        if (auto* gv = dyn_cast<GlobalVariable>(C)) {
            gvs.insert(gv);
            return Array{"g", gv->getName().str()};
        }
        if (auto* ga = dyn_cast<GlobalAlias>(C)) {
            if (auto* f = dyn_cast<Function>(ga->getAliaseeObject()))
                return Array{"fn", f->getName().str()};
        }
        if (auto* gv = dyn_cast<GlobalValue>(C)) {
            return Array{"fn", gv->getName().str()};
        }
        if (auto* ce = dyn_cast<ConstantExpr>(C)) {
            Array a{"ce", ce->getOpcodeName()};
            for (auto& op : ce->operands())
                a.push_back(cst(cast<Constant>(op.get())));
            return a;
        }
        if (isa<ConstantAggregateZero>(C))
            return Array{"zero"};
        return Array{"const"};
    }
    json::Value op(const LV* v) {
        if (auto* c = dyn_cast<Constant>(v))
            return cst(c);
        auto it = ids.find(v);
        if (it != ids.end())
            return it->second;
        if (auto* m = dyn_cast<MetadataAsValue>(v)) {
            if (auto* s = dyn_cast<MDString>(m->getMetadata()))
                return Array{"md", s->getString()};
            return Array{"md", ""};
        }
        if (isa<InlineAsm>(v))
            return Array{"asm"};
        return Array{"?"};
    }
    int fileId(const std::string& f) {
        auto it = files.find(f);
        if (it != files.end())
            return it->second;
        int n = files.size();
        files[f] = n;
        return n;
    }

    Object dump(Function& F) {
        Object o;
        o["n"] = F.getName().str();
        o["d"] = demangled(F.getName());
        if (auto* sp = F.getSubprogram()) {
            o["file"] = filePath(sp->getFile());
            o["line"] = (int64_t)sp->getLine();
            if (auto* t = sp->getType()) {
                Array ts;
                for (auto* e : t->getTypeArray())
                    ts.push_back(e ? diType(e) : std::string("void"));
                o["ditypes"] = std::move(ts);
            }
        }
        o["ret"]      = ty(F.getReturnType());
        o["nounwind"] = F.doesNotThrow();
        o["internal"] = F.hasLocalLinkage();
        Array args;
        int n = 0;
        for (auto& a : F.args()) {
            ids[&a] = n++;
            args.push_back(Object{{"n", a.getName().str()}, {"t", ty(a.getType())}, {"sret", a.hasStructRetAttr()},
                                  {"byval", a.hasByValAttr()}});
        }
        o["args"] = std::move(args);
        int b     = 0;
        for (auto& B : F) {
            bids[&B] = b++;
            for (auto& I : B)
                if (!isa<DbgInfoIntrinsic>(I))
                    ids[&I] = n++;
        }
        Array blocks;
        for (auto& B : F) {
            Array insts;
            for (auto& I : B) {
                if (isa<DbgInfoIntrinsic>(I))
                    continue;
                insts.push_back(inst(I));
            }
            blocks.push_back(std::move(insts));
        }
        o["b"] = std::move(blocks);
        return o;
    }

    static std::string diType(const DIType* t) {
        if (!t)
            return "void";
        if (auto* d = dyn_cast<DIDerivedType>(t)) {
            switch (d->getTag()) {
                case dwarf::DW_TAG_pointer_type:
                    return diType(d->getBaseType()) + "*";
                case dwarf::DW_TAG_reference_type:
                    return diType(d->getBaseType()) + "&";
                case dwarf::DW_TAG_rvalue_reference_type:
                    return diType(d->getBaseType()) + "&&";
                case dwarf::DW_TAG_const_type:
                    return "const " + diType(d->getBaseType());
                case dwarf::DW_TAG_typedef:
                    return diType(d->getBaseType());
                default:
                    return diType(d->getBaseType());
            }
        }
        if (auto* c = dyn_cast<DICompositeType>(t)) {
            std::string p = c->getTag() == dwarf::DW_TAG_enumeration_type ? "enum " : "";
            return p + (c->getName().empty() ? c->getIdentifier().str() : scoped(c->getScope()) + c->getName().str());
        }
        if (isa<DISubroutineType>(t))
            return "fn";
        return t->getName().str();
    }
    static std::string scoped(const DIScope* s) {
        std::string r;
        while (s && !isa<DIFile>(s) && !isa<DICompileUnit>(s)) {
            if (!s->getName().empty() && !isa<DISubprogram>(s))
                r = s->getName().str() + "::" + r;
            s = s->getScope();
        }
        return r;
    }

    json::Value inst(Instruction& I) {
        Object o;
        o["id"] = ids[&I];
        o["op"] = I.getOpcodeName();
        if (!I.getType()->isVoidTy())
            o["t"] = ty(I.getType());
        if (auto& dl = I.getDebugLoc()) {
            const DILocation* L = dl.get();
            // report the innermost project location
            const DILocation* P = L;
            while (P && filePath(P->getFile()).rfind(SRC, 0) != 0)
                P = P->getInlinedAt();
            if (!P)
                P = L;
            o["l"] = (int64_t)P->getLine();
            o["f"] = fileId(filePath(P->getFile()));
            if (L->getInlinedAt()) {
                const DILocation* Q = L;
                while (Q->getInlinedAt())
                    Q = Q->getInlinedAt();
                o["ol"] = (int64_t)Q->getLine();
            }
        }
        auto ops = [&](unsigned from = 0) {
            Array a;
            for (unsigned i = from; i < I.getNumOperands(); ++i)
                a.push_back(op(I.getOperand(i)));
            return a;
        };
        if (auto* cb = dyn_cast<CallBase>(&I)) {
            Array a;
            for (auto& x : cb->args())
                a.push_back(op(x.get()));
            o["o"] = std::move(a);
            const LV* callee = cb->getCalledOperand()->stripPointerCastsAndAliases();
            if (auto* f = dyn_cast<Function>(callee)) {
                o["c"] = f->getName().str();
            }
            else {
                o["cv"] = op(callee);
            }
            Array at;
            for (unsigned i = 0; i < cb->arg_size(); ++i)
                at.push_back(ty(cb->getArgOperand(i)->getType()));
            o["at"] = std::move(at);
            if (auto* inv = dyn_cast<InvokeInst>(&I)) {
                o["nb"] = bids[inv->getNormalDest()];
                o["ub"] = bids[inv->getUnwindDest()];
            }
            if (cb->doesNotReturn())
                o["noret"] = true;
            if (cb->doesNotThrow())
                o["nothrow"] = true;
            return o;
        }
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            o["o"] = ops();
            o["st"] = ty(g->getSourceElementType());
            if (auto* m = I.getMetadata(FLD_KIND))
                o["fld"] = cast<MDString>(m->getOperand(0))->getString();
            return o;
        }
        if (auto* c = dyn_cast<CmpInst>(&I)) {
            o["p"] = CmpInst::getPredicateName(c->getPredicate());
            o["o"] = ops();
            o["ct"] = ty(c->getOperand(0)->getType());
            return o;
        }
        if (auto* p = dyn_cast<PHINode>(&I)) {
            Array a;
            for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
                a.push_back(Array{op(p->getIncomingValue(i)), bids[p->getIncomingBlock(i)]});
            o["o"] = std::move(a);
            return o;
        }
        if (auto* br = dyn_cast<BranchInst>(&I)) {
            if (br->isConditional()) {
                o["o"] = Array{op(br->getCondition())};
                o["s"] = Array{bids[br->getSuccessor(0)], bids[br->getSuccessor(1)]};
            }
            else
                o["s"] = Array{bids[br->getSuccessor(0)]};
            return o;
        }
        if (auto* sw = dyn_cast<SwitchInst>(&I)) {
            o["o"]   = Array{op(sw->getCondition())};
            o["def"] = bids[sw->getDefaultDest()];
            Array a;
            for (auto& c : sw->cases())
                a.push_back(Array{c.getCaseValue()->getSExtValue(), bids[c.getCaseSuccessor()]});
            o["cases"] = std::move(a);
            return o;
        }
        if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
            Array a;
            for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                if (lp->isCatch(i))
                    a.push_back(cst(lp->getClause(i)));
                else
                    a.push_back(Array{"filter"});
            }
            o["o"]       = std::move(a);
            o["cleanup"] = lp->isCleanup();
            return o;
        }
        if (auto* al = dyn_cast<AllocaInst>(&I)) {
            o["at"] = ty(al->getAllocatedType());
            o["o"]  = ops();
            o["vn"] = I.getName().str();
            return o;
        }
        if (auto* st = dyn_cast<StoreInst>(&I)) {
            o["o"] = Array{op(st->getValueOperand()), op(st->getPointerOperand())};
            o["vt"] = ty(st->getValueOperand()->getType());
            if (st->isAtomic())
                o["atomic"] = true;
            return o;
        }
        if (auto* ld = dyn_cast<LoadInst>(&I)) {
            if (ld->isAtomic())
                o["atomic"] = true;
        }
        if (auto* ai = dyn_cast<AtomicRMWInst>(&I)) {
            o["rmw"] = AtomicRMWInst::getOperationName(ai->getOperation());
        }
        if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
            Array a;
            for (auto x : ev->indices())
                a.push_back((int64_t)x);
            o["idx"] = std::move(a);
        }
        o["o"] = ops();
        if (auto* c = dyn_cast<CastInst>(&I))
            o["from"] = ty(c->getSrcTy());
        return o;
    }
};

static void removeDead(Function& F) {
    removeUnreachableBlocks(F);
}

struct Passes {
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CAM;
    ModuleAnalysisManager MAM;
    PassBuilder PB;
    FunctionPassManager FPM;
    Passes() {
        PB.registerModuleAnalyses(MAM);
        PB.registerCGSCCAnalyses(CAM);
        PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        FPM.addPass(SCCPPass());
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        FPM.addPass(JumpThreadingPass(3));
    }
    void run(Function& F) {
        FPM.run(F, FAM);
        FAM.clear(F, F.getName());
        removeDead(F);
    }
};

static bool matches(const std::vector<std::regex>& rs, const std::string& s) {
    for (auto& r : rs)
        if (std::regex_search(s, r))
            return true;
    return false;
}

static void inlineInto(Function& F, const std::vector<std::regex>& keep, unsigned maxDepth, unsigned maxInsts,
                       std::set<std::string>& inlined, bool& truncated) {
    struct Site {
        CallBase* cb;
        std::vector<Function*> chain;
    };
    std::vector<Site> work;
    for (Instruction& I : instructions(F))
        if (auto* cb = dyn_cast<CallBase>(&I))
            work.push_back({cb, {}});
    unsigned size = F.getInstructionCount();
    while (!work.empty()) {
        Site s = work.back();
        work.pop_back();
        auto* callee = dyn_cast<Function>(s.cb->getCalledOperand()->stripPointerCastsAndAliases());
        if (!callee || callee->isDeclaration() || callee->isVarArg())
            continue;
        // std::make_unique<T>(...) is looked through, so that the construction of the T is seen as in new T(...)
        if (!isProject(*callee) && callee->getName().find("make_unique") == StringRef::npos)
            continue;
        if (s.cb->getFunctionType() != callee->getFunctionType())
            continue;
        if (s.chain.size() >= maxDepth) {
            truncated = true;
            continue;
        }
        bool rec = callee == &F;
        for (auto* c : s.chain)
            rec |= c == callee;
        if (rec)
            continue;
        std::string d = demangled(callee->getName());
        if (matches(keep, d))
            continue;
        if (size + callee->getInstructionCount() > maxInsts) {
            truncated = true;
            continue;
        }
        if (s.cb->getCalledOperand() != callee)
            s.cb->setCalledFunction(callee);
        InlineFunctionInfo IFI;
        auto R = InlineFunction(*s.cb, IFI, /*MergeAttributes*/ false, nullptr, /*InsertLifetime*/ false);
        if (!R.isSuccess())
            continue;
        size += callee->getInstructionCount();
        inlined.insert(d);
        auto chain = s.chain;
        chain.push_back(callee);
        for (auto* n : IFI.InlinedCallSites)
            work.push_back({n, chain});
    }
}

// Inlining folds the address of an object's first member into the object's own and so forgets the member; while lambdas
// are inlined, such an address is held by a call that nothing folds.
static std::vector<GetElementPtrInst*> HELD;
static Function* HOLD = nullptr;

static void holdFirstMembers(Module& M, Function& F) {
    if (!HOLD) {
        auto* p = PointerType::get(M.getContext(), 0);
        HOLD    = Function::Create(FunctionType::get(p, {p, Type::getInt64Ty(M.getContext())}, false), Function::ExternalLinkage, "odcir.first", M);
        HOLD->setDoesNotThrow();
        HOLD->setWillReturn();
        HOLD->setDoesNotAccessMemory();
    }
    std::vector<GetElementPtrInst*> gs;
    for (Instruction& I : instructions(F))
        if (auto* g = dyn_cast<GetElementPtrInst>(&I))
            if (g->getMetadata(FLD_KIND) && g->hasAllZeroIndices() && !g->getType()->isVectorTy())
                gs.push_back(g);
    for (auto* g : gs) {
        auto* c = CallInst::Create(HOLD, {g->getPointerOperand(), ConstantInt::get(Type::getInt64Ty(M.getContext()), HELD.size())}, g->getName(), g);
        c->setDebugLoc(g->getDebugLoc());
        g->replaceAllUsesWith(c);
        g->removeFromParent();
        g->setOperand(0, PoisonValue::get(g->getPointerOperandType()));
        HELD.push_back(g);
    }
}

static void releaseFirstMembers(Function& F) {
    std::vector<CallInst*> cs;
    for (Instruction& I : instructions(F))
        if (auto* c = dyn_cast<CallInst>(&I))
            if (HOLD && c->getCalledFunction() == HOLD)
                cs.push_back(c);
    for (auto* c : cs) {
        auto* g = HELD[cast<ConstantInt>(c->getArgOperand(1))->getZExtValue()]->clone();
        g->setOperand(0, c->getArgOperand(0));
        g->insertBefore(c);
        g->takeName(c);
        g->setDebugLoc(c->getDebugLoc());
        c->replaceAllUsesWith(g);
        c->eraseFromParent();
    }
}

// A lambda that the function which creates it calls itself is a part of that function
static void inlineOwnLambdas(Function& F, std::set<Function*>& done) {
    // the name within which a (nested) lambda is made, whichever variant of a constructor that is
    auto norm = [](StringRef n) {
        n.consume_front("_");
        while (n.consume_front("Z")) {}
        std::string s = n.str();
        for (size_t i = 0; i + 2 < s.size(); ++i)
            if ((s[i] == 'C' || s[i] == 'D') && s[i + 1] >= '0' && s[i + 1] <= '2' && s[i + 2] == 'E')
                s[i + 1] = '_';
        return s;
    };
    for (int round = 0; round < 200; ++round) {
        CallBase* site = nullptr;
        for (Instruction& I : instructions(F)) {
            auto* cb = dyn_cast<CallBase>(&I);
            auto* f  = cb ? dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases()) : nullptr;
            if (!f || f == &F || f->isDeclaration() || f->isVarArg() || !f->getName().starts_with("_ZZ") || cb->getFunctionType() != f->getFunctionType())
                continue;
            std::string n = norm(f->getName()), outer = norm(F.getName());
            if (n.rfind(outer, 0) != 0 || n.find("clE", outer.size()) == std::string::npos)
                continue;
            unsigned k = f->hasStructRetAttr() ? 1 : 0;
            if (cb->arg_size() <= k || !isa<AllocaInst>(cb->getArgOperand(k)->stripPointerCasts()))
                continue;
            site = cb;
            break;
        }
        if (!site)
            return;
        auto* callee = cast<Function>(site->getCalledOperand()->stripPointerCastsAndAliases());
        site->setCalledFunction(callee);
        InlineFunctionInfo IFI;
        if (!InlineFunction(*site, IFI, false, nullptr, false).isSuccess())
            return;
        done.insert(callee);
    }
}

static std::vector<std::regex> regs(const json::Array* a) {
    std::vector<std::regex> v;
    if (a)
        for (auto& x : *a)
            v.emplace_back(x.getAsString()->str(), std::regex::ECMAScript | std::regex::optimize);
    return v;
}

int main(int argc, char** argv) {
    const char* opts[] = {"odcir", "-jump-threading-across-loop-headers=true"};
    cl::ParseCommandLineOptions(2, opts);
    if (argc != 4) {
        errs() << "usage: odcir MODULE CONFIG OUT\n";
        return 2;
    }
    LLVMContext C;
    CTX      = &C;
    FLD_KIND = C.getMDKindID("odc.fld");
    SMDiagnostic E;
    auto M = parseIRFile(argv[1], E, C);
    if (!M) {
        E.print("odcir", errs());
        return 2;
    }
    auto buf = MemoryBuffer::getFile(argv[2]);
    if (!buf) {
        errs() << "no config\n";
        return 2;
    }
    auto cfg = json::parse((*buf)->getBuffer());
    if (!cfg) {
        errs() << "bad config: " << toString(cfg.takeError()) << "\n";
        return 2;
    }
    auto* co = cfg->getAsObject();
    if (auto s = co->getString("src"))
        SRC = s->str();

    tagFields(*M);
    Passes P;
    std::vector<Function*> project;
    for (Function& F : *M) {
        if (F.isDeclaration())
            continue;
        if (isProject(F)) {
            project.push_back(&F);
        }
    }

    for (auto* F : project)
        holdFirstMembers(*M, *F);
    std::set<Function*> own;
    for (auto* F : project)
        inlineOwnLambdas(*F, own);
    for (auto* F : project)
        releaseFirstMembers(*F);
    // what is left of such a lambda is no function of its own, unless something else calls it too
    for (bool again = true; again;) {
        again = false;
        for (auto it = own.begin(); it != own.end();) {
            Function* F = *it;
            if (F->use_empty()) {
                F->deleteBody();
                project.erase(std::remove(project.begin(), project.end(), F), project.end());
                it    = own.erase(it);
                again = true;
            }
            else
                ++it;
        }
    }

    std::map<std::string, int> files;
    std::set<const GlobalVariable*> gvs;
    Array out;

    auto plain = regs(co->getArray("plain"));
    std::vector<std::pair<Function*, std::string>> names;
    for (auto* F : project)
        names.push_back({F, demangled(F->getName())});

    // inlined roots first (cloned from the untouched originals)
    if (auto* roots = co->getArray("roots")) {
        int k = 0;
        for (auto& r : *roots) {
            auto* ro = r.getAsObject();
            std::regex re(ro->getString("re")->str());
            auto keep          = regs(ro->getArray("keep"));
            unsigned depth     = ro->getInteger("depth").value_or(8);
            unsigned maxInsts  = ro->getInteger("max").value_or(60000);
            for (auto& [F, d] : names) {
                if (!std::regex_search(d, re))
                    continue;
                ValueToValueMapTy VM;
                Function* N = CloneFunction(F, VM);
                std::set<std::string> inl;
                bool trunc = false;
                inlineInto(*N, keep, depth, maxInsts, inl, trunc);
                P.run(*N);
                N->setName(F->getName() + "$" + std::to_string(k));
                Dumper D(files, gvs);
                Object o  = D.dump(*N);
                o["n"]    = F->getName().str();
                o["d"]    = d;
                o["root"] = ro->getString("tag").value_or("r");
                Array ia;
                for (auto& x : inl)
                    ia.push_back(x);
                o["inlined"] = std::move(ia);
                o["trunc"]   = trunc;
                out.push_back(std::move(o));
                N->eraseFromParent();
            }
            ++k;
        }
    }
    for (auto& [F, d] : names) {
        if (!matches(plain, d))
            continue;
        P.run(*F);
        Dumper D(files, gvs);
        out.push_back(D.dump(*F));
    }

    Object top;
    top["fns"] = std::move(out);
    Array fa;
    std::vector<std::string> fv(files.size());
    for (auto& f : files)
        fv[f.second] = f.first;
    for (auto& f : fv)
        fa.push_back(f);
    top["files"] = std::move(fa);

    // globals referenced + every project-level mutable global
    Object gs;
    for (auto& G : M->globals()) {
        SmallVector<DIGlobalVariableExpression*, 1> dis;
        G.getDebugInfo(dis);
        std::string file;
        int64_t line = 0;
        if (!dis.empty()) {
            file = filePath(dis[0]->getVariable()->getFile());
            line = dis[0]->getVariable()->getLine();
        }
        bool proj = file.rfind(SRC, 0) == 0;
        bool vt   = G.getName().starts_with("_ZTV") || G.getName().starts_with("_ZTI");
        if (!proj && !vt && !gvs.count(&G))
            continue;
        Object o;
        o["d"]     = demangled(G.getName());
        o["const"] = G.isConstant();
        o["tls"]   = G.isThreadLocal();
        o["t"]     = ty(G.getValueType());
        if (!file.empty()) {
            o["file"] = file;
            o["line"] = line;
            o["dit"]  = Dumper::diType(dis[0]->getVariable()->getType());
        }
        if (G.hasInitializer()) {
            if (auto* cda = dyn_cast<ConstantDataArray>(G.getInitializer())) {
                if (cda->isString()) {
                    std::string s = cda->getAsString().str();
                    while (!s.empty() && s.back() == 0)
                        s.pop_back();
                    if (json::isUTF8(s))
                        o["str"] = s;
                    else
                        { o["str"] = json::fixUTF8(s); std::string hx; for (unsigned char ch : s) { char tb[3]; snprintf(tb, 3, "%02x", ch); hx += tb; } o["strx"] = hx; }
                }
            }
            else if (auto* ci = dyn_cast<ConstantInt>(G.getInitializer())) {
                if (ci->getBitWidth() <= 64)
                    o["int"] = ci->getSExtValue();
            }
            else if (auto* cf = dyn_cast<ConstantFP>(G.getInitializer())) {
                SmallString<32> s;
                cf->getValueAPF().toString(s);
                o["fp"] = s.str();
            }
            else if (isa<ConstantAggregateZero>(G.getInitializer())) {
                o["zero"] = true;
            }
            else if (G.getName().starts_with("_ZTV")) {
                Array vts;
                for (auto& a : G.getInitializer()->operands()) {
                    Array slots;
                    if (auto* ca = dyn_cast<Constant>(a.get()))
                        for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
                            auto* x = ca->getOperand(i)->stripPointerCastsAndAliases();
                            if (auto* f = dyn_cast<Function>(x))
                                slots.push_back(f->getName().str());
                            else
                                slots.push_back(nullptr);
                        }
                    vts.push_back(std::move(slots));
                }
                o["vt"] = std::move(vts);
            }
            else {
                // collect referenced globals/functions of aggregate initialisers
                Array refs;
                std::vector<const Constant*> st{G.getInitializer()};
                std::set<const Constant*> seen;
                while (!st.empty()) {
                    auto* c = st.back();
                    st.pop_back();
                    if (!seen.insert(c).second)
                        continue;
                    if (auto* gv = dyn_cast<GlobalValue>(c)) {
                        refs.push_back(gv->getName().str());
                        continue;
                    }
                    for (unsigned i = c->getNumOperands(); i-- > 0;)
                        if (auto* k = dyn_cast<Constant>(c->getOperand(i)))
                            st.push_back(k);
                }
                o["refs"] = std::move(refs);
            }
        }
        gs[G.getName()] = std::move(o);
    }
    top["globals"] = std::move(gs);

    // function table: every function mentioned (name, demangled, project?, declared, DI prototype)
    Object ft;
    for (Function& F : *M) {
        Object o;
        o["d"] = demangled(F.getName());
        if (isProject(F)) {
            o["p"] = true;
            if (auto* sp = F.getSubprogram()) {
                o["file"] = filePath(sp->getFile());
                o["line"] = (int64_t)sp->getLine();
                Array ts;
                if (auto* t = sp->getType())
                    for (auto* e : t->getTypeArray())
                        ts.push_back(e ? Dumper::diType(e) : std::string("void"));
                o["ditypes"] = std::move(ts);
            }
            o["ext"] = !F.hasLocalLinkage();
        }
        if (F.isDeclaration())
            o["decl"] = true;
        if (F.doesNotThrow())
            o["nt"] = true;
        if (F.doesNotReturn())
            o["nr"] = true;
        if (auto* sp = F.getSubprogram())
            o["dn"] = sp->getName();
        if (!F.isDeclaration()) {
            // outgoing references: called functions and functions whose address is taken
            std::set<std::string> refs;
            for (auto& I : instructions(F))
                for (auto& u : I.operands()) {
                    const LV* x = u.get()->stripPointerCastsAndAliases();
                    if (auto* f = dyn_cast<Function>(x)) {
                        if (!f->getName().starts_with("llvm."))
                            refs.insert(f->getName().str());
                    }
                    else if (auto* g = dyn_cast<GlobalVariable>(x))
                        if (g->getName().starts_with("_ZTV"))
                            refs.insert(g->getName().str());
                }
            Array ra;
            for (auto& x : refs)
                ra.push_back(x);
            o["refs"] = std::move(ra);
        }
        ft[F.getName()] = std::move(o);
    }
    top["functions"] = std::move(ft);

    // debug-info classes and enums
    if (co->getBoolean("di").value_or(true)) {
        DebugInfoFinder DF;
        DF.processModule(*M);
        Object classes, enums;
        for (auto* t : DF.types()) {
            auto* c = dyn_cast<DICompositeType>(t);
            if (!c)
                continue;
            std::string full = Dumper::scoped(c->getScope()) + c->getName().str();
            if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
                Array a;
                for (auto* e : c->getElements())
                    if (auto* en = dyn_cast<DIEnumerator>(e))
                        a.push_back(Array{en->getName(), en->getValue().getSExtValue()});
                if (filePath(c->getFile()).rfind(SRC, 0) == 0 || full.find("eckit::sql") != std::string::npos)
                    enums[full] = std::move(a);
                continue;
            }
            if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type)
                continue;
            std::string fp = filePath(c->getFile());
            bool proj      = fp.rfind(SRC, 0) == 0;
            if (!proj && full.rfind("eckit::", 0) != 0)
                continue;
            if (c->isForwardDecl())
                continue;
            Object o;
            o["id"]   = c->getIdentifier();
            o["file"] = fp;
            o["line"] = (int64_t)c->getLine();
            Array mem, bases, meth;
            for (auto* e : c->getElements()) {
                if (auto* d = dyn_cast<DIDerivedType>(e)) {
                    if (d->getTag() == dwarf::DW_TAG_inheritance) {
                        std::string id;
                        if (auto* bc = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
                            id = bc->getIdentifier().str();
                        bases.push_back(Array{Dumper::diType(d->getBaseType()), id});
                    }
                    else if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember())
                        mem.push_back(Array{d->getName(), Dumper::diType(d->getBaseType()),
                                            (int64_t)d->getOffsetInBits() / 8, (int64_t)d->getSizeInBits() / 8,
                                            (int64_t)d->getLine()});
                }
                else if (auto* s = dyn_cast<DISubprogram>(e)) {
                    int64_t vi = -1;
                    if (s->getVirtuality() != 0)
                        vi = s->getVirtualIndex();
                    Array ts;
                    if (auto* tt = s->getType())
                        for (auto* x : tt->getTypeArray())
                            ts.push_back(x ? Dumper::diType(x) : std::string("void"));
                    meth.push_back(Array{s->getName(), s->getLinkageName(), vi, s->isDeleted(), std::move(ts)});
                }
            }
            o["m"]     = std::move(mem);
            o["bases"] = std::move(bases);
            o["meth"]  = std::move(meth);
            if (!classes.get(full) )
                classes[full] = std::move(o);
        }
        top["classes"] = std::move(classes);
        top["enums"]   = std::move(enums);
    }

    std::error_code EC;
    raw_fd_ostream os(argv[3], EC);
    os << json::Value(std::move(top));
    return 0;
}
