// symx: symbolic executor for LLVM 18 bitcode (integer/pointer C code), forking DFS, z3 back end.
// Memory: address = object id << 24 | offset; ids are never reused, so out-of-bounds, use-after-free,
// double free and NULL dereference are all detected.  Uninitialised bytes become tainted variables.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;
typedef int32_t i32; typedef uint16_t u16;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val { u64 c; E e; };
static inline Val VC(u64 c) { return Val{ c, nullptr }; }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkC(v.c, w); }
static inline Val fromE(E e) { return isC(e) ? Val{ e->v, nullptr } : Val{ 0, e }; }

// ---------------------------------------------------------------- memory
struct Obj {
    u32 rc = 1; u32 size = 0; bool ro = false; u8 kind = 0; // 0 heap 1 stack 2 global
    u8* data = nullptr; u8* init = nullptr; E* sym = nullptr; u32 nsym = 0, nuninit = 0;
    const char* tag = "";
    ~Obj() { free(data); free(init); free(sym); }
};
static Obj* newObj(u32 size, bool inited, u8 kind, const char* tag) {
    Obj* o = new Obj(); o->size = size; o->kind = kind; o->tag = tag; o->data = (u8*)calloc(size ? size : 1, 1);
    if (!inited && size) { o->init = (u8*)calloc(size, 1); o->nuninit = size; }
    return o;
}
static Obj* cloneObj(Obj* s) {
    Obj* o = new Obj(); o->size = s->size; o->ro = s->ro; o->kind = s->kind; o->tag = s->tag; u32 n = s->size ? s->size : 1;
    o->data = (u8*)malloc(n); memcpy(o->data, s->data, n);
    if (s->init && s->nuninit) { o->init = (u8*)malloc(n); memcpy(o->init, s->init, n); o->nuninit = s->nuninit; }
    if (s->sym && s->nsym) { o->sym = (E*)malloc(n * sizeof(E)); memcpy(o->sym, s->sym, n * sizeof(E)); o->nsym = s->nsym; }
    return o;
}
static Obj* const DEAD = (Obj*)1;
enum { CH = 256 };
struct Chunk { u32 rc = 1; Obj* o[CH]; Chunk() { memset(o, 0, sizeof o); } };
static void objDec(Obj* o) { if (o && o != DEAD && --o->rc == 0) delete o; }
static void chunkDec(Chunk* c) { if (--c->rc == 0) { for (auto x : c->o) objDec(x); delete c; } }
struct Mem {
    std::vector<Chunk*> ch; u32 next = 1;
    Mem() {}
    Mem(const Mem& m) : ch(m.ch), next(m.next) { for (auto c : ch) c->rc++; }
    Mem& operator=(const Mem&) = delete;
    ~Mem() { for (auto c : ch) chunkDec(c); }
    Chunk* wchunk(u32 ci) {
        Chunk* c = ch[ci];
        if (c->rc > 1) { Chunk* n = new Chunk(); memcpy(n->o, c->o, sizeof n->o); for (auto x : n->o) if (x && x != DEAD) x->rc++; c->rc--; ch[ci] = n; return n; }
        return c;
    }
    u32 add(Obj* o) { u32 id = next++; while (ch.size() <= id / CH) ch.push_back(new Chunk()); wchunk(id / CH)->o[id % CH] = o; return id; }
    Obj* get(u64 id) const { if (id >= next) return nullptr; return ch[id / CH]->o[id % CH]; }
    Obj* getw(u64 id) {
        Chunk* c = wchunk(id / CH); Obj* o = c->o[id % CH];
        if (o->rc > 1) { o->rc--; o = cloneObj(o); c->o[id % CH] = o; }
        return o;
    }
    void kill(u64 id) { Chunk* c = wchunk(id / CH); objDec(c->o[id % CH]); c->o[id % CH] = DEAD; }
};
enum { OFFB = 24 };
static const u64 OFFM = (1ull << OFFB) - 1;
static const u64 FNBASE = 0x7000000000000000ull;

// ---------------------------------------------------------------- code
enum Op : u8 { O_BIN, O_CMP, O_ZEXT, O_SEXT, O_TRUNC, O_MOV, O_SELECT, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_UNREACH, O_UNSUP };
struct Edge { u32 target; std::vector<std::pair<i32, i32>> copies; };
struct GepT { i32 op; u8 w; i64 scale; };
struct GepX { std::vector<GepT> t; };
struct SwX { std::vector<std::pair<u64, u32>> cases; std::vector<Edge> edges; u32 def; };
struct Fn;
struct CallX { Fn* fn = nullptr; int builtin = 0; i32 ind = 0; bool indirect = false; std::vector<i32> args; std::vector<u8> w; std::vector<u32> byval; };
struct Inst { Op op; u8 k; u8 w, w2; i32 dst, a, b, c; u64 imm; void* x; u32 line; u16 file; };
struct Fn { Function* f = nullptr; std::string name; bool translated = false, executed = false, defined = false; std::vector<Inst> code; u32 nregs = 0, nargs = 0; std::vector<u8> argw; u64 addr = 0; std::string file; u64 calls = 0; Fn* hook = nullptr; };

static std::vector<Val> g_consts; // operand < 0  => g_consts[~op]
static std::vector<Fn*> g_fns; static std::map<std::string, Fn*> g_fnByName; static std::map<const Function*, Fn*> g_fnOf;
static std::map<const GlobalVariable*, u64> g_gaddr;
static std::vector<std::string> g_files; static std::map<std::string, u16> g_fileIdx;
static const DataLayout* DL; static Module* M;

enum Bi { B_NONE = 0, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_EXIT, B_ABORT, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_STRCMP, B_STRCPY, B_STRCAT,
    B_NOP, B_VASTART, B_VACOPY, B_SYM, B_ASSUME, B_ASSERT, B_CHOICE, B_COVER, B_ISSYM, B_CATCH, B_CONCRETE, B_END, B_FAIL, B_PRINT, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_ABS, B_FSHL, B_FSHR, B_BSWAP, B_ZERO, B_OBJSIZE, B_FIRST, B_CTPOP, B_CTTZ, B_CTLZ, B_TRAP, B_SYMDATA, B_PRINTV, B_FEAS, B_INITED, B_DEPENDS, B_SUBST };
static std::map<std::string, int> g_bi = {
    {"malloc",B_MALLOC},{"calloc",B_CALLOC},{"realloc",B_REALLOC},{"free",B_FREE},{"exit",B_EXIT},{"_exit",B_EXIT},{"abort",B_ABORT},
    {"memcpy",B_MEMCPY},{"memmove",B_MEMCPY},{"memset",B_MEMSET},{"memcmp",B_MEMCMP},{"strlen",B_STRLEN},{"strcmp",B_STRCMP},{"strcpy",B_STRCPY},{"strcat",B_STRCAT},
    {"sx_make_symbolic",B_SYM},{"sx_assume",B_ASSUME},{"sx_assert",B_ASSERT},{"sx_choice",B_CHOICE},{"sx_cover",B_COVER},{"sx_is_symbolic",B_ISSYM},
    {"sx_call_catch_exit",B_CATCH},{"sx_concretize",B_CONCRETE},{"sx_end",B_END},{"sx_fail",B_FAIL},{"sx_print",B_PRINT},{"sx_printv",B_PRINTV},{"sx_feasible",B_FEAS},{"sx_initialised",B_INITED},{"sx_depends_uninit",B_DEPENDS},{"sx_subst64",B_SUBST} };
static std::set<std::string> g_biFallback = { "strlen", "strcmp", "strcpy", "strcat", "memcmp" };

static u64 constToU64(const Constant* c, bool& undef);
static u64 fnAddr(const Function* f);
static Fn* fnOf(const Function* f) {
    auto it = g_fnOf.find(f); if (it != g_fnOf.end()) return it->second;
    Fn* n = new Fn(); n->f = const_cast<Function*>(f); n->name = f->getName().str(); n->defined = !f->isDeclaration();
    n->addr = FNBASE + g_fns.size() * 16; g_fns.push_back(n); g_fnOf[f] = n; g_fnByName[n->name] = n;
    if (auto* sp = f->getSubprogram()) n->file = sp->getFilename().str();
    return n;
}
static u64 fnAddr(const Function* f) { return fnOf(f)->addr; }
static u64 constToU64(const Constant* c, bool& undef) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getBitWidth() > 64 ? ci->getValue().trunc(64).getZExtValue() : ci->getZExtValue();
    if (isa<ConstantPointerNull>(c)) return 0;
    if (isa<UndefValue>(c)) { undef = true; return 0; }
    if (auto* f = dyn_cast<Function>(c)) return fnAddr(f);
    if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = g_gaddr.find(g); return it == g_gaddr.end() ? 0 : it->second; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0); auto* gep = cast<GEPOperator>(ce);
                if (!gep->accumulateConstantOffset(*DL, off)) { errs() << "bad gep const\n"; exit(3); }
                return constToU64(cast<Constant>(gep->getPointerOperand()), undef) + off.getSExtValue();
            }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return constToU64(ce->getOperand(0), undef);
            case Instruction::Trunc: return constToU64(ce->getOperand(0), undef) & maskw(ce->getType()->getIntegerBitWidth());
            case Instruction::Sub: return constToU64(ce->getOperand(0), undef) - constToU64(ce->getOperand(1), undef);
            case Instruction::Add: return constToU64(ce->getOperand(0), undef) + constToU64(ce->getOperand(1), undef);
        }
    }
    errs() << "symx: unsupported constant " << *c << "\n"; exit(3);
}
static unsigned widthOf(Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    return 0;
}
static void translate(Fn* F) {
    F->translated = true; Function* f = F->f;
    std::map<const Value*, i32> reg; std::map<const BasicBlock*, u32> start;
    u32 n = 0; for (auto& a : f->args()) { reg[&a] = n++; F->argw.push_back(widthOf(a.getType())); }
    F->nargs = n;
    for (auto& bb : *f) for (auto& i : bb) if (!i.getType()->isVoidTy()) reg[&i] = n++;
    F->nregs = n;
    std::map<std::pair<u64, u64>, i32> cc;
    auto opnd = [&](const Value* v) -> i32 {
        if (auto* c = dyn_cast<Constant>(v)) {
            bool un = false; u64 x = constToU64(c, un); unsigned w = widthOf(v->getType());
            if (un) { g_consts.push_back(w && w <= 64 ? Val{ 0, mkVar("undef", w, true) } : VC(0)); return ~(i32)(g_consts.size() - 1); }
            auto k = std::make_pair(x, (u64)0); auto it = cc.find(k); if (it != cc.end()) return it->second;
            g_consts.push_back(VC(x)); return cc[k] = ~(i32)(g_consts.size() - 1);
        }
        auto it = reg.find(v); if (it == reg.end()) { errs() << "no reg " << *v << "\n"; exit(3); } return it->second;
    };
    struct Fix { u32 inst; const BasicBlock* bb; Edge* e; const BasicBlock* from; };
    std::vector<Fix> fixes;
    for (auto& bb : *f) {
        start[&bb] = F->code.size();
        for (auto& I : bb) {
            Inst d; memset(&d, 0, sizeof d); d.dst = I.getType()->isVoidTy() ? -1 : reg[&I]; d.w = widthOf(I.getType());
            if (auto& dl = I.getDebugLoc()) { d.line = dl.getLine(); std::string fn = dl->getFilename().str(); auto it = g_fileIdx.find(fn); if (it == g_fileIdx.end()) { it = g_fileIdx.emplace(fn, g_files.size()).first; g_files.push_back(fn); } d.file = it->second; }
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            auto unsup = [&]() { d.op = O_UNSUP; std::string* s = new std::string(); raw_string_ostream os(*s); os << I; os.flush(); d.x = s; };
            auto mkEdge = [&](const BasicBlock* to) { Edge* e = new Edge(); fixes.push_back({ 0, to, e, &bb }); return e; };
            if (auto* b = dyn_cast<BinaryOperator>(&I)) {
                d.op = O_BIN; d.a = opnd(b->getOperand(0)); d.b = opnd(b->getOperand(1));
                switch (b->getOpcode()) {
                    case Instruction::Add: d.k = K_ADD; break; case Instruction::Sub: d.k = K_SUB; break; case Instruction::Mul: d.k = K_MUL; break;
                    case Instruction::UDiv: d.k = K_UDIV; break; case Instruction::SDiv: d.k = K_SDIV; break; case Instruction::URem: d.k = K_UREM; break; case Instruction::SRem: d.k = K_SREM; break;
                    case Instruction::And: d.k = K_AND; break; case Instruction::Or: d.k = K_OR; break; case Instruction::Xor: d.k = K_XOR; break;
                    case Instruction::Shl: d.k = K_SHL; break; case Instruction::LShr: d.k = K_LSHR; break; case Instruction::AShr: d.k = K_ASHR; break;
                    default: unsup();
                }
                if (d.w == 0 || d.w > 64) unsup();
            } else if (auto* c = dyn_cast<ICmpInst>(&I)) {
                d.op = O_CMP; d.w2 = widthOf(c->getOperand(0)->getType()); d.a = opnd(c->getOperand(0)); d.b = opnd(c->getOperand(1)); bool neg = false, sw = false;
                switch (c->getPredicate()) {
                    case ICmpInst::ICMP_EQ: d.k = K_EQ; break; case ICmpInst::ICMP_NE: d.k = K_EQ; neg = true; break;
                    case ICmpInst::ICMP_ULT: d.k = K_ULT; break; case ICmpInst::ICMP_ULE: d.k = K_ULE; break; case ICmpInst::ICMP_UGT: d.k = K_ULT; sw = true; break; case ICmpInst::ICMP_UGE: d.k = K_ULE; sw = true; break;
                    case ICmpInst::ICMP_SLT: d.k = K_SLT; break; case ICmpInst::ICMP_SLE: d.k = K_SLE; break; case ICmpInst::ICMP_SGT: d.k = K_SLT; sw = true; break; case ICmpInst::ICMP_SGE: d.k = K_SLE; sw = true; break;
                    default: unsup();
                }
                if (sw) std::swap(d.a, d.b); d.imm = neg;
            } else if (isa<ZExtInst>(I) || isa<SExtInst>(I) || isa<TruncInst>(I) || isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I) || isa<BitCastInst>(I) || isa<FreezeInst>(I)) {
                d.a = opnd(I.getOperand(0)); d.w2 = widthOf(I.getOperand(0)->getType());
                if (isa<SExtInst>(I)) d.op = O_SEXT; else if (isa<TruncInst>(I)) d.op = O_TRUNC; else if (d.w > d.w2) d.op = O_ZEXT; else if (d.w < d.w2) d.op = O_TRUNC; else d.op = O_MOV;
                if (!d.w || !d.w2) unsup();
            } else if (auto* s = dyn_cast<SelectInst>(&I)) { d.op = O_SELECT; d.a = opnd(s->getCondition()); d.b = opnd(s->getTrueValue()); d.c = opnd(s->getFalseValue()); }
            else if (auto* l = dyn_cast<LoadInst>(&I)) { d.op = O_LOAD; d.a = opnd(l->getPointerOperand()); d.imm = DL->getTypeStoreSize(l->getType()); if (!d.w || d.w > 64) unsup(); }
            else if (auto* s = dyn_cast<StoreInst>(&I)) { d.op = O_STORE; d.b = opnd(s->getPointerOperand()); d.w = widthOf(s->getValueOperand()->getType()); d.imm = DL->getTypeStoreSize(s->getValueOperand()->getType()); if (!d.w || d.w > 64) unsup(); else d.a = opnd(s->getValueOperand()); }
            else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                d.op = O_GEP; d.a = opnd(g->getPointerOperand()); GepX* gx = new GepX(); i64 off = 0;
                for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
                    Value* ix = gti.getOperand();
                    if (auto* st = gti.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    else { u64 sz = DL->getTypeAllocSize(gti.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * (i64)sz; else gx->t.push_back({ opnd(ix), (u8)widthOf(ix->getType()), (i64)sz }); }
                }
                d.imm = (u64)off; d.x = gx;
            } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
                d.op = O_ALLOCA; u64 sz = DL->getTypeAllocSize(al->getAllocatedType());
                if (auto* ci = dyn_cast<ConstantInt>(al->getArraySize())) d.imm = sz * ci->getZExtValue(), d.b = 0; else { d.imm = sz; d.b = 1; d.a = opnd(al->getArraySize()); }
                d.x = new std::string(F->name + ":" + al->getName().str());
            } else if (auto* br = dyn_cast<BranchInst>(&I)) {
                if (br->isUnconditional()) { d.op = O_BR; d.x = mkEdge(br->getSuccessor(0)); }
                else { d.op = O_CBR; d.a = opnd(br->getCondition()); Edge** es = new Edge*[2]; es[0] = mkEdge(br->getSuccessor(0)); es[1] = mkEdge(br->getSuccessor(1)); d.x = es; }
            } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                d.op = O_SWITCH; d.a = opnd(sw->getCondition()); d.w = widthOf(sw->getCondition()->getType());
                std::vector<Edge*>* es = new std::vector<Edge*>(); std::vector<std::pair<u64, u32>>* cs = new std::vector<std::pair<u64, u32>>();
                std::map<const BasicBlock*, u32> seen; auto get = [&](const BasicBlock* t) { auto it = seen.find(t); if (it != seen.end()) return it->second; es->push_back(mkEdge(t)); return seen[t] = (u32)es->size() - 1; };
                get(sw->getDefaultDest()); for (auto& cse : sw->cases()) cs->push_back({ cse.getCaseValue()->getZExtValue(), get(cse.getCaseSuccessor()) });
                d.x = new std::pair<std::vector<Edge*>*, std::vector<std::pair<u64, u32>>*>(es, cs);
            } else if (auto* r = dyn_cast<ReturnInst>(&I)) { d.op = O_RET; d.b = r->getReturnValue() ? 1 : 0; if (d.b) { d.a = opnd(r->getReturnValue()); d.w = widthOf(r->getReturnValue()->getType()); } }
            else if (isa<UnreachableInst>(I)) d.op = O_UNREACH;
            else if (auto* cb = dyn_cast<CallBase>(&I)) {
                d.op = O_CALL; CallX* cx = new CallX(); d.x = cx;
                const Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* cf = dyn_cast<Function>(cv)) {
                    std::string nm = cf->getName().str(); cx->fn = fnOf(cf);
                    auto it = g_bi.find(nm);
                    if (it != g_bi.end()) cx->builtin = it->second;
                    else if (nm.rfind("llvm.", 0) == 0) {
                        if (nm.rfind("llvm.memcpy", 0) == 0 || nm.rfind("llvm.memmove", 0) == 0) cx->builtin = B_MEMCPY;
                        else if (nm.rfind("llvm.memset", 0) == 0) cx->builtin = B_MEMSET;
                        else if (nm.rfind("llvm.va_start", 0) == 0) cx->builtin = B_VASTART;
                        else if (nm.rfind("llvm.va_copy", 0) == 0) cx->builtin = B_VACOPY;
                        else if (nm.rfind("llvm.va_end", 0) == 0 || nm.rfind("llvm.lifetime", 0) == 0 || nm.rfind("llvm.assume", 0) == 0 || nm.rfind("llvm.stack", 0) == 0 || nm.rfind("llvm.experimental.noalias", 0) == 0) cx->builtin = B_NOP;
                        else if (nm.rfind("llvm.umax", 0) == 0) cx->builtin = B_UMAX; else if (nm.rfind("llvm.umin", 0) == 0) cx->builtin = B_UMIN;
                        else if (nm.rfind("llvm.smax", 0) == 0) cx->builtin = B_SMAX; else if (nm.rfind("llvm.smin", 0) == 0) cx->builtin = B_SMIN; else if (nm.rfind("llvm.abs", 0) == 0) cx->builtin = B_ABS;
                        else if (nm.rfind("llvm.fshl", 0) == 0) cx->builtin = B_FSHL; else if (nm.rfind("llvm.fshr", 0) == 0) cx->builtin = B_FSHR;
                        else if (nm.rfind("llvm.trap", 0) == 0 || nm.rfind("llvm.ubsantrap", 0) == 0) cx->builtin = B_TRAP;
                        else if (nm.rfind("llvm.is.constant", 0) == 0) cx->builtin = B_ZERO;
                        else if (nm.rfind("llvm.objectsize", 0) == 0) cx->builtin = B_OBJSIZE;
                        else if (nm.rfind("llvm.expect", 0) == 0) cx->builtin = B_FIRST;
                        else if (nm.rfind("llvm.bswap", 0) == 0) cx->builtin = B_BSWAP;
                        else if (nm.rfind("llvm.ctpop", 0) == 0) cx->builtin = B_CTPOP;
                        else if (nm.rfind("llvm.cttz", 0) == 0) cx->builtin = B_CTTZ;
                        else if (nm.rfind("llvm.ctlz", 0) == 0) cx->builtin = B_CTLZ;
                        else if (nm.rfind("llvm.prefetch", 0) == 0 || nm.rfind("llvm.donothing", 0) == 0) cx->builtin = B_NOP;
                        else unsup();
                    }
                    if (cx->builtin == B_NOP) continue;
                } else { cx->indirect = true; cx->ind = opnd(cv); }
                if (d.op == O_CALL) for (unsigned i = 0; i < cb->arg_size(); i++) {
                    Value* av = cb->getArgOperand(i); unsigned w = widthOf(av->getType());
                    if (av->getType()->isMetadataTy()) { w = 64; cx->args.push_back(opnd(ConstantInt::get(Type::getInt64Ty(f->getContext()), 0))); }
                    else { if (!w || w > 64) { unsup(); break; } cx->args.push_back(opnd(av)); }
                    cx->w.push_back(w);
                    cx->byval.push_back(cb->isByValArgument(i) ? (u32)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0);
                }
            } else unsup();
            F->code.push_back(d);
        }
    }
    for (auto& fx : fixes) {
        fx.e->target = start[fx.bb];
        for (auto& I : *fx.bb) { auto* p = dyn_cast<PHINode>(&I); if (!p) break; fx.e->copies.push_back({ reg[p], opnd(p->getIncomingValueForBlock(fx.from)) }); }
    }
}

// ---------------------------------------------------------------- state
struct Frame { Fn* f; u32 pc; std::vector<Val> r; std::vector<u32> allocas; i32 ret = -1; bool catchExit = false; u64 exitedAddr = 0; std::vector<Val> va; };
struct SymRec { std::string name; std::vector<E> bytes; };
struct State {
    std::vector<Frame> st; Mem mem; std::vector<E> pc; Model model; std::unordered_set<u32> fixed;
    std::vector<std::pair<std::string, u64>> choices; std::vector<SymRec> syms; u64 steps = 0; u64 forks = 0;
};
static std::vector<State*> g_work;
static u64 g_maxSteps = 80000000, g_maxPaths = 1000000, g_paths = 0, g_pathsErr = 0, g_totalSteps = 0, g_inconclusive = 0, g_maxErrors = 40, g_asserts = 0, g_assertQueries = 0; static double g_maxTime = 1e9, g_t0; static bool g_timeout = false;
static std::map<std::string, u64> g_covers; static std::map<std::string, u64> g_unsup;
static u64 g_maxRss = 6000000; // KB
struct ErrRec { std::string kind, msg; std::vector<std::string> stack; std::vector<std::pair<std::string, u64>> choices; std::vector<std::pair<std::string, std::string>> syms; };
static std::vector<ErrRec> g_errors; static std::set<std::string> g_errKeys; static u64 g_errTotal = 0; static bool g_verbose = false;

static std::string jsq(const std::string& s) { std::string r = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string locOf(const Frame& f, bool top) { const Inst& i = f.f->code[!top && f.pc ? f.pc - 1 : f.pc]; return f.f->name + " " + (i.line ? g_files[i.file] + ":" + std::to_string(i.line) : std::string("?")); }

static void report(State& s, const std::string& kind, const std::string& msg, const Model& m) {
    g_errTotal++;
    ErrRec r; r.kind = kind; r.msg = msg;
    for (size_t i = s.st.size(); i-- > 0;) r.stack.push_back(locOf(s.st[i], i + 1 == s.st.size()));
    r.choices = s.choices;
    std::string key = kind + "|" + msg + "|" + (r.stack.empty() ? "" : r.stack[0]) + "|" + (r.stack.size() > 1 ? r.stack[1] : "");
    for (auto& c : s.choices) if (c.first == "prog") key += "|" + std::to_string(c.second);
    if (!g_errKeys.insert(key).second || g_errors.size() >= g_maxErrors) return;
    for (auto& y : s.syms) { std::string h; char b[4]; for (E e : y.bytes) { snprintf(b, 4, "%02x", (unsigned)evalExpr(e, m)); h += b; } r.syms.push_back({ y.name, h }); }
    g_errors.push_back(r);
    if (g_verbose) { fprintf(stderr, "ERROR %s: %s\n", kind.c_str(), msg.c_str()); for (auto& x : r.stack) fprintf(stderr, "   at %s\n", x.c_str()); for (auto& c : r.choices) fprintf(stderr, "   choice %s=%llu\n", c.first.c_str(), (unsigned long long)c.second); for (auto& y : r.syms) fprintf(stderr, "   %s=%s\n", y.first.c_str(), y.second.c_str()); }
}
struct PathEnd {};
struct Restart {}; // model changed; re-execute
[[noreturn]] static void fail(State& s, const std::string& kind, const std::string& msg) { report(s, kind, msg, s.model); g_pathsErr++; throw PathEnd(); }

static bool allFixed(State& s, E e) { if (e->vars->size() > 64) return false; for (u32 v : *e->vars) if (!s.fixed.count(v)) return false; return true; }
static void addC(State& s, E c) {
    if (isC(c)) return;
    if (c->k == K_AND && c->w == 1) { addC(s, c->a); addC(s, c->b); return; }
    if (c->k == K_EQ && c->a->k == K_VAR && isC(c->b)) s.fixed.insert((u32)c->a->v);
    else if (c->k == K_VAR) s.fixed.insert((u32)c->v);
    else if (c->k == K_XOR && c->w == 1 && isC(c->b) && c->a->k == K_VAR) s.fixed.insert((u32)c->a->v);
    s.pc.push_back(c);
    if (c->vars->size() == 1 && !s.fixed.count((*c->vars)[0]) && oneValueLeft(s.pc, (*c->vars)[0])) s.fixed.insert((*c->vars)[0]);
}
// Does the value of e really depend on uninitialised memory here?  e may mention an uninitialised variable in an arm that
// the path condition excludes (the optimiser turns branches into selects): the solver decides whether two runs that differ
// only in uninitialised bytes can give e two values.
static E renameUninit(E e, std::unordered_map<E, E>& memo) {
    if (!e->taint) return e;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    E r;
    auto R = [&](E x) { return renameUninit(x, memo); };
    switch (e->k) {
        case K_VAR: { static std::unordered_map<E, E> twin; E& t = twin[e]; if (!t) t = mkVar(ExprPool::P().vars[e->v].name + "'", e->w, true); r = t; break; }
        case K_CONCAT: r = mkConcat(R(e->a), R(e->b)); break;
        case K_EXTRACT: r = mkExtract(R(e->a), (unsigned)e->v, e->w); break;
        case K_ZEXT: r = mkZExt(R(e->a), e->w); break;
        case K_SEXT: r = mkSExt(R(e->a), e->w); break;
        case K_ITE: r = mkIte(R(e->a), R(e->b), R(e->c)); break;
        default: r = mkBin(e->k, R(e->a), R(e->b)); break;
    }
    memo[e] = r; return r;
}
static bool dependsUninit(State& s, E e) {
    if (!e->taint) return false;
    std::unordered_map<E, E> memo; E q = mkNot(mkBin(K_EQ, e, renameUninit(e, memo)));
    if (isC(q)) return q->v;
    Model m; SatRes r = solve(s.pc, q, s.model, m, true);
    if (r == UNKNOWN) g_inconclusive++;
    return r == SAT;
}
static void checkTaint(State& s, E e, const char* what) { if (dependsUninit(s, e)) fail(s, "uninit", std::string(what) + " depends on uninitialised memory"); }
// decide a width-1 condition, forking when both outcomes are feasible
static std::map<std::string, u64> g_forkSites;
static bool decide(State& s, E c) {
    if (isC(c)) return c->v;
    bool t = evalExpr(c, s.model);
    if (allFixed(s, c)) return t;
    E want = t ? c : mkNot(c), other = t ? mkNot(c) : c;
    for (size_t i = s.pc.size(), n = 0; i-- > 0 && n < 64; n++) if (s.pc[i] == want) return t;
    Model m2; SatRes r = solve(s.pc, other, s.model, m2);
    if (r == UNKNOWN) { g_inconclusive++; }
    if (r == SAT) { if (g_verbose) { std::string k = locOf(s.st.back(), true); for (size_t d = 2; d <= 5 && s.st.size() >= d; d++) k += " < " + locOf(s.st[s.st.size() - d], false); g_forkSites[k]++; } State* n = new State(s); n->model = m2; n->forks++; s.forks++; addC(*n, other); g_work.push_back(n); }
    if (r != UNSAT) addC(s, want);
    return t;
}
static u64 concretize(State& s, const Val& v, const char* what, unsigned w) {
    if (!v.e) return v.c;
    u64 x = evalExpr(v.e, s.model);
    if (allFixed(s, v.e)) return x;
    checkTaint(s, v.e, what);
    decide(s, mkBin(K_EQ, v.e, mkC(x, w)));
    return x;
}
static Obj* resolve(State& s, u64 addr, u64 n, bool write, const char* what) {
    u64 id = addr >> OFFB, off = addr & OFFM;
    if (addr >= FNBASE) fail(s, "memory", std::string(what) + " through a function address");
    if (id == 0) fail(s, "memory", std::string("NULL pointer ") + what);
    Obj* o = s.mem.get(id);
    if (o == DEAD) fail(s, "memory", std::string(what) + " after free / end of lifetime");
    if (!o) fail(s, "memory", std::string("wild pointer ") + what);
    if (off + n > o->size) fail(s, "memory", std::string("out-of-bounds ") + what + " (object " + o->tag + " of " + std::to_string(o->size) + " bytes, offset " + std::to_string(off > OFFM / 2 ? (i64)off - (i64)OFFM - 1 : (i64)off) + ")");
    if (write) { if (o->ro) fail(s, "memory", std::string("write to constant object ") + o->tag); o = s.mem.getw(id); }
    return o;
}
static inline E byteE(State& s, u64 id, Obj*& o, u32 off) { // may materialise uninit
    if (o->nuninit && o->init && !o->init[off]) {
        o = s.mem.getw(id);
        if (!o->sym) o->sym = (E*)calloc(o->size, sizeof(E));
        E v = mkVar(std::string("uninit:") + o->tag, 8, true); o->sym[off] = v; o->nsym++; o->init[off] = 1; o->nuninit--;
        return v;
    }
    if (o->nsym && o->sym && o->sym[off]) return o->sym[off];
    return mkC(o->data[off], 8);
}
static Val loadMem(State& s, u64 addr, u32 n, unsigned w) {
    Obj* o = resolve(s, addr, n, false, "read"); u32 off = addr & OFFM; u64 id = addr >> OFFB;
    bool conc = true;
    if (o->nuninit) for (u32 i = 0; i < n && conc; i++) if (!o->init[off + i]) conc = false;
    if (conc && o->nsym) for (u32 i = 0; i < n && conc; i++) if (o->sym[off + i]) conc = false;
    if (conc) { u64 v = 0; memcpy(&v, o->data + off, n); return VC(v & maskw(w)); }
    E e = byteE(s, id, o, off);
    for (u32 i = 1; i < n; i++) e = mkConcat(byteE(s, id, o, off + i), e);
    if (w < e->w) e = mkExtract(e, 0, w);
    if (isC(e)) return VC(e->v);
    if (allFixed(s, e)) return VC(evalExpr(e, s.model));
    return Val{ 0, e };
}
static inline void setByte(Obj* o, u32 off, E e) {
    if (o->init && !o->init[off]) { o->init[off] = 1; o->nuninit--; }
    if (isC(e)) { o->data[off] = e->v; if (o->sym && o->sym[off]) { o->sym[off] = nullptr; o->nsym--; } }
    else { if (!o->sym) o->sym = (E*)calloc(o->size, sizeof(E)); if (!o->sym[off]) o->nsym++; o->sym[off] = e; }
}
static void storeMem(State& s, u64 addr, const Val& v, u32 n, unsigned w) {
    Obj* o = resolve(s, addr, n, true, "write"); u32 off = addr & OFFM;
    if (!v.e) {
        memcpy(o->data + off, &v.c, n);
        if (o->nuninit) for (u32 i = 0; i < n; i++) if (!o->init[off + i]) { o->init[off + i] = 1; o->nuninit--; }
        if (o->nsym) for (u32 i = 0; i < n; i++) if (o->sym[off + i]) { o->sym[off + i] = nullptr; o->nsym--; }
        return;
    }
    E e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8);
    for (u32 i = 0; i < n; i++) setByte(o, off + i, mkExtract(e, i * 8, 8));
}
static void copyMem(State& s, u64 d, u64 src, u64 n) {
    if (!n) return;
    Obj* so = resolve(s, src, n, false, "read (memcpy)"); so->rc++; // keep alive across getw
    Obj* o = resolve(s, d, n, true, "write (memcpy)"); u32 do_ = d & OFFM, so_ = src & OFFM;
    if (!so->nsym && !so->nuninit) {
        memmove(o->data + do_, so->data + so_, n);
        if (o->nuninit) for (u32 i = 0; i < n; i++) if (!o->init[do_ + i]) { o->init[do_ + i] = 1; o->nuninit--; }
        if (o->nsym) for (u32 i = 0; i < n; i++) if (o->sym[do_ + i]) { o->sym[do_ + i] = nullptr; o->nsym--; }
    } else {
        struct Bt { u8 d; E e; bool in; }; std::vector<Bt> t(n);
        for (u32 i = 0; i < n; i++) t[i] = { so->data[so_ + i], so->nsym ? so->sym[so_ + i] : nullptr, so->nuninit ? (bool)so->init[so_ + i] : true };
        for (u32 i = 0; i < n; i++) {
            u32 x = do_ + i;
            if (!t[i].in) { if (!o->init) { o->init = (u8*)malloc(o->size); memset(o->init, 1, o->size); } if (o->init[x]) { o->init[x] = 0; o->nuninit++; } if (o->sym && o->sym[x]) { o->sym[x] = nullptr; o->nsym--; } continue; }
            setByte(o, x, t[i].e ? t[i].e : mkC(t[i].d, 8));
        }
    }
    objDec(so);
}
static u64 heapAlloc(State& s, u64 n, bool zero) {
    if (n > OFFM / 2) return 0;
    return (u64)s.mem.add(newObj((u32)n, zero, 0, "heap")) << OFFB;
}
static std::string readCStr(State& s, u64 p, int lim = 4096) { std::string r; for (int i = 0; i < lim; i++) { Val v = loadMem(s, p + i, 1, 8); u64 c = v.e ? evalExpr(v.e, s.model) : v.c; if (!c) break; r += (char)c; } return r; }

static inline Val& rv(State& s, Frame& f, i32 op) { return op >= 0 ? f.r[op] : g_consts[~op]; }
static Val binop(State& s, Kind k, unsigned w, const Val& a, const Val& b) {
    if (k >= K_UDIV && k <= K_SREM) {
        if (!b.e) { if (b.c == 0) fail(s, "divzero", "division by zero"); }
        else { checkTaint(s, b.e, "divisor"); if (decide(s, mkBin(K_EQ, b.e, mkC(0, w)))) fail(s, "divzero", "division by zero"); }
        if (k == K_SDIV || k == K_SREM) {
            E ov = mkBin(K_AND, mkBin(K_EQ, toE(b, w), mkC(maskw(w), w)), mkBin(K_EQ, toE(a, w), mkC(1ull << (w - 1), w)));
            if (decide(s, ov)) fail(s, "divzero", "signed division overflow");
        }
    }
    if (!a.e && !b.e) return VC(foldBin(k, w, a.c, b.c));
    return fromE(mkBin(k, toE(a, w), toE(b, w)));
}
static void jump(State& s, Frame& f, Edge* e) {
    if (e->copies.size() == 1) f.r[e->copies[0].first] = rv(s, f, e->copies[0].second);
    else if (!e->copies.empty()) { Val t[64]; std::vector<Val> tv; Val* p = t; if (e->copies.size() > 64) { tv.resize(e->copies.size()); p = tv.data(); }
        for (size_t i = 0; i < e->copies.size(); i++) p[i] = rv(s, f, e->copies[i].second);
        for (size_t i = 0; i < e->copies.size(); i++) f.r[e->copies[i].first] = p[i]; }
    f.pc = e->target;
}
static void pushFrame(State& s, Fn* fn, const std::vector<Val>& args, i32 ret) {
    if (!fn->translated) translate(fn);
    fn->executed = true; fn->calls++;
    if (s.st.size() > 20000) fail(s, "stack", "stack overflow (call depth > 20000) in " + fn->name);
    s.st.emplace_back(); Frame& f = s.st.back(); f.f = fn; f.pc = 0; f.ret = ret; f.r.resize(fn->nregs);
    if (args.size() < fn->nargs) fail(s, "call", "too few arguments in call to " + fn->name);
    for (u32 i = 0; i < fn->nargs; i++) f.r[i] = args[i];
    for (size_t i = fn->nargs; i < args.size(); i++) f.va.push_back(args[i]);
    if (fn->hook) pushFrame(s, fn->hook, {}, -1);
}
static void popFrame(State& s) { Frame& f = s.st.back(); for (u32 id : f.allocas) s.mem.kill(id); s.st.pop_back(); }

static bool concreteByte(State& s, u64 a, u8& c) { // a must be resolvable
    Obj* o = resolve(s, a, 1, false, "read"); u32 off = a & OFFM;
    if (o->nuninit && !o->init[off]) return false; if (o->nsym && o->sym[off]) { E e = o->sym[off]; if (!allFixed(s, e)) return false; c = evalExpr(e, s.model); return true; }
    c = o->data[off]; return true;
}
// returns false when a frame was pushed (result comes later)
static bool builtin(State& s, Frame& f, Inst& in, CallX* cx, int b, const std::vector<Val>& a, const std::vector<u8>& w) {
    auto setr = [&](Val v) { if (in.dst >= 0) f.r[in.dst] = v; };
    auto cz = [&](int i, const char* what) { return concretize(s, a[i], what, w[i]); };
    switch (b) {
        case B_MALLOC: setr(VC(heapAlloc(s, cz(0, "allocation size"), false))); return true;
        case B_CALLOC: { u64 x = cz(0, "allocation size"), y = cz(1, "allocation size"); setr(VC(heapAlloc(s, x * y, true))); return true; }
        case B_REALLOC: {
            u64 p = cz(0, "pointer"), n = cz(1, "allocation size"); if (!p) { setr(VC(heapAlloc(s, n, false))); return true; }
            Obj* o = resolve(s, p, 0, false, "realloc"); if ((p & OFFM) || o->kind != 0) fail(s, "memory", "invalid realloc");
            u64 q = heapAlloc(s, n, false); if (!q) { setr(VC(0)); return true; } o = s.mem.get(p >> OFFB); copyMem(s, q, p, std::min<u64>(o->size, n)); s.mem.kill(p >> OFFB); setr(VC(q)); return true; }
        case B_FREE: { u64 p = cz(0, "pointer"); if (!p) return true; u64 id = p >> OFFB; Obj* o = s.mem.get(id); if (p >= FNBASE || !o) fail(s, "memory", "invalid free"); if (o == DEAD) fail(s, "memory", "double free"); if ((p & OFFM) || o->kind != 0) fail(s, "memory", "invalid free"); s.mem.kill(id); return true; }
        case B_EXIT: {
            Val code = a[0]; size_t i = s.st.size(); while (i > 0 && !s.st[i - 1].catchExit) i--;
            if (i == 0) throw PathEnd();
            u64 ea = s.st[i - 1].exitedAddr; i32 ret = s.st[i - 1].ret;
            while (s.st.size() >= i) popFrame(s);
            if (ea) storeMem(s, ea, VC(1), 4, 32); Frame& g = s.st.back(); if (ret >= 0) g.r[ret] = code; return false; }
        case B_ABORT: fail(s, "abort", "abort() called");
        case B_TRAP: fail(s, "trap", "trap");
        case B_MEMCPY: { u64 d = cz(0, "pointer"), p = cz(1, "pointer"), n = cz(2, "memcpy size"); copyMem(s, d, p, n); setr(VC(d)); return true; }
        case B_MEMSET: { u64 d = cz(0, "pointer"), n = cz(2, "memset size"); Val v = a[1]; if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.c &= 255; if (n) { resolve(s, d, n, true, "write (memset)"); for (u64 i = 0; i < n; i++) storeMem(s, d + i, v, 1, 8); } setr(VC(d)); return true; }
        case B_STRLEN: { u64 p = cz(0, "pointer"), n = 0; u8 c; while (true) { if (!concreteByte(s, p + n, c)) goto fallback; if (!c) break; n++; } setr(VC(n)); return true; }
        case B_STRCMP: { u64 p = cz(0, "pointer"), q = cz(1, "pointer"); u8 c, d; while (true) { if (!concreteByte(s, p, c) || !concreteByte(s, q, d)) goto fallback; if (c != d) { setr(VC(c < d ? maskw(32) : 1)); return true; } if (!c) break; p++; q++; } setr(VC(0)); return true; }
        case B_MEMCMP: { u64 p = cz(0, "pointer"), q = cz(1, "pointer"), n = cz(2, "memcmp size"); u8 c, d; for (u64 i = 0; i < n; i++) { if (!concreteByte(s, p + i, c) || !concreteByte(s, q + i, d)) goto fallback; if (c != d) { setr(VC(c < d ? maskw(32) : 1)); return true; } } setr(VC(0)); return true; }
        case B_STRCPY: case B_STRCAT: { u64 d = cz(0, "pointer"), p = cz(1, "pointer"), d0 = d, n = 0; u8 c; 
            if (b == B_STRCAT) while (true) { if (!concreteByte(s, d, c)) goto fallback; if (!c) break; d++; }
            while (true) { if (!concreteByte(s, p + n, c)) goto fallback; if (!c) break; n++; }
            copyMem(s, d, p, n + 1); setr(VC(d0)); return true; }
        case B_VASTART: {
            u64 p = cz(0, "pointer"); u64 ov = (u64)s.mem.add(newObj(f.va.size() * 8 + 0, true, 1, "varargs")) << OFFB; f.allocas.push_back(ov >> OFFB);
            for (size_t i = 0; i < f.va.size(); i++) storeMem(s, ov + 8 * i, f.va[i], 8, 64);
            storeMem(s, p, VC(48), 4, 32); storeMem(s, p + 4, VC(304), 4, 32); storeMem(s, p + 8, VC(ov), 8, 64); storeMem(s, p + 16, VC(0), 8, 64); return true; }
        case B_VACOPY: copyMem(s, cz(0, "pointer"), cz(1, "pointer"), 24); return true;
        case B_SYM: {
            u64 p = cz(0, "pointer"), n = cz(1, "size"); std::string nm = readCStr(s, cz(2, "pointer")); SymRec r; r.name = nm; Obj* o = resolve(s, p, n, true, "write"); u32 off = p & OFFM;
            if (n == 1 || n == 2 || n == 4 || n == 8) { E v = mkVar(nm, n * 8); for (u64 i = 0; i < n; i++) r.bytes.push_back(mkExtract(v, i * 8, 8)); }
            else for (u64 i = 0; i < n; i++) r.bytes.push_back(mkVar(nm + "[" + std::to_string(i) + "]", 8));
            for (u64 i = 0; i < n; i++) setByte(o, off + i, r.bytes[i]); s.syms.push_back(r); return true; }
        case B_ASSUME: {
            if (!a[0].e) { if (!a[0].c) throw PathEnd(); return true; }
            E c = w[0] == 1 ? a[0].e : mkNot(mkBin(K_EQ, a[0].e, mkC(0, w[0]))); if (isC(c)) { if (!c->v) throw PathEnd(); return true; }
            if (!evalExpr(c, s.model)) { Model m; SatRes r = solve(s.pc, c, s.model, m); if (r == UNKNOWN) g_inconclusive++; if (r != SAT) throw PathEnd(); s.model = m; }
            addC(s, c); return true; }
        case B_FEAS: { // sx_feasible(cond): 1 when cond can hold here (no constraint added)
            if (!a[0].e) { setr(VC(a[0].c != 0)); return true; } E c = mkNot(mkBin(K_EQ, a[0].e, mkC(0, w[0]))); Model m; SatRes r = evalExpr(c, s.model) ? SAT : solve(s.pc, c, s.model, m); if (r == UNKNOWN) g_inconclusive++; setr(VC(r == SAT)); return true; }
        case B_ASSERT: {
            g_asserts++; std::string msg = readCStr(s, cz(1, "pointer"));
            if (!a[0].e) { if (!a[0].c) fail(s, "assert", msg); return true; }
            E c = mkNot(mkBin(K_EQ, a[0].e, mkC(0, w[0]))); if (isC(c)) { if (!c->v) fail(s, "assert", msg); return true; }
            checkTaint(s, c, msg.c_str());
            g_assertQueries++;
            Model m; SatRes r = !evalExpr(c, s.model) ? (m = s.model, SAT) : solve(s.pc, mkNot(c), s.model, m, true);
            if (r == UNKNOWN) g_inconclusive++;
            if (r == SAT) { report(s, "assert", msg, m); g_pathsErr++; if (!evalExpr(c, s.model)) { Model m3; if (solve(s.pc, c, s.model, m3) != SAT) throw PathEnd(); s.model = m3; } addC(s, c); }
            return true; }
        case B_CHOICE: { // sx_choice(n, name): fork into n paths
            u64 n = cz(0, "choice"); std::string nm = readCStr(s, cz(1, "pointer")); if (n == 0) throw PathEnd();
            for (u64 i = n; i-- > 1;) { State* t = new State(s); t->choices.push_back({ nm, i }); Frame& tf = t->st.back(); if (in.dst >= 0) tf.r[in.dst] = VC(i); tf.pc++; g_work.push_back(t); }
            s.choices.push_back({ nm, 0 }); setr(VC(0)); return true; }
        case B_COVER: g_covers[readCStr(s, cz(0, "pointer"))]++; return true;
        case B_ISSYM: setr(VC(a[0].e && !allFixed(s, a[0].e))); return true;
        case B_DEPENDS: setr(VC(a[0].e && dependsUninit(s, a[0].e))); return true;
        case B_INITED: { u64 p = cz(0, "pointer"), n = cz(1, "size"); Obj* o = resolve(s, p, n, false, "read"); u32 off = p & OFFM; bool ok = true; for (u64 i = 0; i < n && ok; i++) if ((o->nuninit && !o->init[off + i]) || (o->nsym && o->sym[off + i] && o->sym[off + i]->taint)) ok = false; setr(VC(ok)); return true; }
        case B_CATCH: {
            u64 fa = cz(0, "function pointer"), ea = cz(3, "pointer"); if (fa < FNBASE || (fa - FNBASE) / 16 >= g_fns.size()) fail(s, "call", "bad function pointer"); Fn* fn = g_fns[(fa - FNBASE) / 16];
            if (ea) storeMem(s, ea, VC(0), 4, 32);
            s.st.back().pc++; std::vector<Val> av = { a[1], a[2] }; pushFrame(s, fn, av, in.dst); s.st.back().catchExit = true; s.st.back().exitedAddr = ea; return false; }
        case B_CONCRETE: setr(VC(cz(0, "value"))); return true;
        case B_SUBST: { // sx_subst64(magic, value): replace every heap slot that holds the 8-byte (or, for a 32-bit magic, 4-byte) constant by the value
            u64 mg = cz(0, "magic"), cnt = 0;
            for (u32 id = 1; id < s.mem.next; id++) { Obj* o = s.mem.get(id); if (!o || o == DEAD || o->kind != 0) continue;
                for (u32 n = 8; n >= 4; n -= 4) { if (n == 4 && mg >> 32) break;
                    for (u32 x = 0; x + n <= o->size; x += n) { u64 d = 0; memcpy(&d, o->data + x, n); if (d != mg) continue; bool ok = true;
                        for (u32 k = 0; k < n; k++) if ((o->nuninit && !o->init[x + k]) || (o->nsym && o->sym[x + k])) ok = false;
                        if (!ok) continue; storeMem(s, ((u64)id << OFFB) + x, n == 8 ? a[1] : fromE(mkExtract(toE(a[1], 64), 0, 32)), n, n * 8); o = s.mem.get(id); cnt++; } } }
            setr(VC(cnt)); return true; }
        case B_END: throw PathEnd();
        case B_FAIL: fail(s, "assert", readCStr(s, cz(0, "pointer")));
        case B_PRINT: fprintf(stderr, "%s", readCStr(s, cz(0, "pointer"), 1 << 24).c_str()); return true;
        case B_PRINTV: { if (a[1].e) fprintf(stderr, "%s%s (=%lld)\n", readCStr(s, cz(0, "pointer")).c_str(), exprStr(a[1].e, 8).c_str(), (long long)evalExpr(a[1].e, s.model)); else fprintf(stderr, "%s%lld\n", readCStr(s, cz(0, "pointer")).c_str(), (long long)a[1].c); return true; }
        case B_UMAX: case B_UMIN: case B_SMAX: case B_SMIN: { E x = toE(a[0], w[0]), y = toE(a[1], w[0]); E c = mkBin(b == B_UMAX || b == B_UMIN ? K_ULT : K_SLT, x, y); setr(fromE((b == B_UMAX || b == B_SMAX) ? mkIte(c, y, x) : mkIte(c, x, y))); return true; }
        case B_FSHL: case B_FSHR: {
            E x = toE(a[0], w[0]), y = toE(a[1], w[0]); unsigned W = w[0]; E n = mkBin(K_UREM, toE(a[2], W), mkC(W, W)), r = mkBin(K_SUB, mkC(W, W), n), z = mkBin(K_EQ, n, mkC(0, W));
            E l = b == B_FSHL ? mkBin(K_SHL, x, n) : mkBin(K_SHL, x, r), h = b == B_FSHL ? mkBin(K_LSHR, y, r) : mkBin(K_LSHR, y, n);
            setr(fromE(mkIte(z, b == B_FSHL ? x : y, mkBin(K_OR, l, h)))); return true; }
        case B_ZERO: setr(VC(0)); return true;
        case B_OBJSIZE: setr(VC(a[1].c ? 0 : ~0ull)); return true;
        case B_FIRST: setr(a[0]); return true;
        case B_BSWAP: { E x = toE(a[0], w[0]), r = mkC(0, w[0]); for (unsigned i = 0; i < w[0]; i += 8) r = mkBin(K_OR, mkBin(K_SHL, r, mkC(8, w[0])), mkBin(K_AND, mkBin(K_LSHR, x, mkC(i, w[0])), mkC(255, w[0]))); setr(fromE(r)); return true; }
        case B_CTPOP: { E x = toE(a[0], w[0]), r = mkC(0, w[0]); for (unsigned i = 0; i < w[0]; i++) r = mkBin(K_ADD, r, mkBin(K_AND, mkBin(K_LSHR, x, mkC(i, w[0])), mkC(1, w[0]))); setr(fromE(r)); return true; }
        case B_CTTZ: case B_CTLZ: { unsigned W = w[0]; E x = toE(a[0], W), r = mkC(W, W); // the nearest set bit is tested last
            for (unsigned i = W; i-- > 0;) { unsigned bit = b == B_CTTZ ? i : W - 1 - i; r = mkIte(mkBin(K_EQ, mkBin(K_AND, mkBin(K_LSHR, x, mkC(bit, W)), mkC(1, W)), mkC(0, W)), r, mkC(i, W)); } setr(fromE(r)); return true; }
        case B_ABS: { E x = toE(a[0], w[0]); setr(fromE(mkIte(mkBin(K_SLT, x, mkC(0, w[0])), mkBin(K_SUB, mkC(0, w[0]), x), x))); return true; }
    }
    fail(s, "unsupported", "builtin");
fallback: {
        auto it = g_fnByName.find("sxc_" + cx->fn->name); if (it == g_fnByName.end() || !it->second->defined) fail(s, "unsupported", "no C fallback for " + cx->fn->name);
        s.st.back().pc++; pushFrame(s, it->second, a, in.dst); return false; }
}
static void step(State& s) {
    // executes until the path ends (throws PathEnd) or the scheduler interrupts
    while (true) {
        Frame* fp = &s.st.back(); Inst* ip = &fp->f->code[fp->pc];
        if ((++s.steps & 0xffff) == 0) {
            if (s.steps > g_maxSteps) fail(s, "nontermination", "more than " + std::to_string(g_maxSteps) + " steps");
            if (now() - g_t0 > g_maxTime) { g_timeout = true; throw PathEnd(); }
        }
        Frame& f = *fp; Inst& in = *ip;
        switch (in.op) {
            case O_BIN: { Val& a = rv(s, f, in.a); Val& b = rv(s, f, in.b);
                if (!a.e && !b.e && !(in.k >= K_UDIV && in.k <= K_SREM)) f.r[in.dst] = VC(foldBin((Kind)in.k, in.w, a.c, b.c)); else { Val x = binop(s, (Kind)in.k, in.w, a, b); f.r[in.dst] = x; } f.pc++; break; }
            case O_CMP: { Val& a = rv(s, f, in.a); Val& b = rv(s, f, in.b);
                if (!a.e && !b.e) f.r[in.dst] = VC(foldBin((Kind)in.k, in.w2, a.c, b.c) ^ in.imm);
                else { E e = mkBin((Kind)in.k, toE(a, in.w2), toE(b, in.w2)); if (in.imm) e = mkNot(e); f.r[in.dst] = fromE(e); } f.pc++; break; }
            case O_ZEXT: { Val& a = rv(s, f, in.a); f.r[in.dst] = a.e ? fromE(mkZExt(a.e, in.w)) : a; f.pc++; break; }
            case O_SEXT: { Val& a = rv(s, f, in.a); f.r[in.dst] = a.e ? fromE(mkSExt(a.e, in.w)) : VC((u64)sx64(a.c, in.w2) & maskw(in.w)); f.pc++; break; }
            case O_TRUNC: { Val& a = rv(s, f, in.a); f.r[in.dst] = a.e ? fromE(mkExtract(a.e, 0, in.w)) : VC(a.c & maskw(in.w)); f.pc++; break; }
            case O_MOV: f.r[in.dst] = rv(s, f, in.a); f.pc++; break;
            case O_SELECT: { Val& c = rv(s, f, in.a); if (!c.e) f.r[in.dst] = rv(s, f, c.c ? in.b : in.c); else { Val x = rv(s, f, in.b), y = rv(s, f, in.c); f.r[in.dst] = fromE(mkIte(c.e, toE(x, in.w), toE(y, in.w))); } f.pc++; break; }
            case O_LOAD: { Val p = rv(s, f, in.a); u64 ad = p.e ? concretize(s, p, "address", 64) : p.c; Val v = loadMem(s, ad, in.imm, in.w); f.r[in.dst] = v; f.pc++; break; }
            case O_STORE: { Val p = rv(s, f, in.b); u64 ad = p.e ? concretize(s, p, "address", 64) : p.c; storeMem(s, ad, rv(s, f, in.a), in.imm, in.w); f.pc++; break; }
            case O_GEP: { Val b = rv(s, f, in.a); GepX* g = (GepX*)in.x; u64 off = in.imm; E se = b.e; if (!b.e) off += b.c;
                for (auto& t : g->t) { Val& x = rv(s, f, t.op); if (!x.e) off += (u64)sx64(x.c, t.w) * t.scale; else { E y = mkBin(K_MUL, mkSExt(x.e, 64), mkC(t.scale, 64)); se = se ? mkBin(K_ADD, se, y) : y; } }
                f.r[in.dst] = se ? fromE(mkBin(K_ADD, se, mkC(off, 64))) : VC(off); f.pc++; break; }
            case O_ALLOCA: { u64 n = in.imm; if (in.b) n *= concretize(s, rv(s, f, in.a), "alloca size", 64); u32 id = s.mem.add(newObj(n, false, 1, ((std::string*)in.x)->c_str())); f.allocas.push_back(id); f.r[in.dst] = VC((u64)id << OFFB); f.pc++; break; }
            case O_BR: jump(s, f, (Edge*)in.x); break;
            case O_CBR: { Val c = rv(s, f, in.a); bool t; if (!c.e) t = c.c; else { checkTaint(s, c.e, "branch condition"); t = decide(s, c.e); } jump(s, f, ((Edge**)in.x)[t ? 0 : 1]); break; }
            case O_SWITCH: {
                auto* p = (std::pair<std::vector<Edge*>*, std::vector<std::pair<u64, u32>>*>*)in.x; Val c = rv(s, f, in.a); u32 e = 0;
                if (!c.e) { for (auto& k : *p->second) if (k.first == c.c) { e = k.second; break; } }
                else {
                    checkTaint(s, c.e, "switch value"); u64 v = evalExpr(c.e, s.model); for (auto& k : *p->second) if (k.first == v) { e = k.second; break; }
                    if (!allFixed(s, c.e)) {
                        E cond = mkC(0, 1); for (auto& k : *p->second) { E q = mkBin(K_EQ, c.e, mkC(k.first, in.w)); if (e == 0 ? k.second != 0 : k.second == e) cond = mkBin(K_OR, cond, q); }
                        if (e == 0) cond = mkNot(cond);
                        decide(s, cond);
                    }
                }
                jump(s, f, (*p->first)[e]); break; }
            case O_RET: {
                Val v = in.b ? rv(s, f, in.a) : VC(0); i32 ret = f.ret; u64 ea = f.catchExit ? f.exitedAddr : 0; (void)ea; popFrame(s);
                if (s.st.empty()) throw PathEnd();
                if (ret >= 0) s.st.back().r[ret] = v; break; }
            case O_CALL: {
                CallX* cx = (CallX*)in.x; Fn* fn = cx->fn; int bi = cx->builtin;
                std::vector<Val> av(cx->args.size()); for (size_t i = 0; i < av.size(); i++) av[i] = rv(s, f, cx->args[i]);
                if (cx->indirect) {
                    u64 a = concretize(s, rv(s, f, cx->ind), "function pointer", 64);
                    if (a < FNBASE || (a - FNBASE) % 16 || (a - FNBASE) / 16 >= g_fns.size()) fail(s, "memory", "call through an invalid function pointer");
                    fn = g_fns[(a - FNBASE) / 16]; auto it = g_bi.find(fn->name); bi = it == g_bi.end() ? 0 : it->second;
                }
                if (bi) { CallX tmp; CallX* c2 = cx; if (cx->indirect) { tmp.fn = fn; c2 = &tmp; } if (builtin(s, f, in, c2, bi, av, cx->w)) s.st.back().pc++; break; }
                if (!fn->defined) { g_unsup[fn->name]++; fail(s, "unsupported", "call to undefined function " + fn->name); }
                if (!fn->translated) translate(fn);
                for (size_t i = 0; i < av.size(); i++) {
                    if (cx->byval[i]) { u64 id = s.mem.add(newObj(cx->byval[i], false, 1, "byval")); f.allocas.push_back(id); copyMem(s, id << OFFB, av[i].c, cx->byval[i]); av[i] = VC(id << OFFB); }
                    unsigned tw = i < fn->nargs ? fn->argw[i] : 64, cw = cx->w[i];
                    if (tw != cw) { if (av[i].e) av[i] = fromE(tw < cw ? mkExtract(av[i].e, 0, tw) : mkZExt(av[i].e, tw)); else av[i].c &= maskw(tw); }
                }
                f.pc++; pushFrame(s, fn, av, in.dst); break; }
            case O_UNREACH: fail(s, "unreachable", "reached an unreachable instruction");
            case O_UNSUP: g_unsup[*(std::string*)in.x]++; fail(s, "unsupported", *(std::string*)in.x);
        }
    }
}
static void initGlobal(Obj* o, u64 off, const Constant* c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(d->getElementType()); for (unsigned i = 0; i < d->getNumElements(); i++) { u64 v = d->getElementAsInteger(i); memcpy(o->data + off + i * es, &v, es); } return; }
    if (auto* st = dyn_cast<ConstantStruct>(c)) { auto* l = DL->getStructLayout(st->getType()); for (unsigned i = 0; i < st->getNumOperands(); i++) initGlobal(o, off + l->getElementOffset(i), st->getOperand(i)); return; }
    if (auto* ar = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ar->getType()->getElementType()); for (unsigned i = 0; i < ar->getNumOperands(); i++) initGlobal(o, off + i * es, ar->getOperand(i)); return; }
    bool u = false; u64 v = constToU64(c, u); memcpy(o->data + off, &v, DL->getTypeStoreSize(c->getType()));
}
int main(int argc, char** argv) {
    std::string bc, entry = "main", out; unsigned tmo = 10000; std::vector<std::pair<std::string, i64>> sets;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") entry = val(); else if (a == "--out") out = val(); else if (a == "--max-steps") g_maxSteps = std::stoull(val()); else if (a == "--max-time") g_maxTime = std::stod(val());
        else if (a == "--max-paths") g_maxPaths = std::stoull(val()); else if (a == "--solver-timeout") tmo = std::stoul(val()); else if (a == "--max-errors") g_maxErrors = std::stoull(val());
        else if (a == "--set") { std::string v = val(); auto p = v.find('='); sets.push_back({ v.substr(0, p), std::stoll(v.substr(p + 1)) }); } // int global := value
        else if (a == "--max-rss") g_maxRss = std::stoull(val());
        else if (a == "-v") g_verbose = true; else if (a == "--incremental") g_incremental = true; else bc = a;
    }
    LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx); if (!mod) { err.print("symx", errs()); return 2; }
    M = mod.get(); DL = &M->getDataLayout(); solverInit(tmo); g_t0 = now();
    State* s0 = new State();
    for (auto& f : *M) fnOf(&f);
    std::vector<std::pair<GlobalVariable*, u64>> gl;
    for (auto& g : M->globals()) { u64 sz = DL->getTypeAllocSize(g.getValueType()); std::string* nm = new std::string("global " + g.getName().str()); u64 id = s0->mem.add(newObj(sz, true, 2, nm->c_str())); g_gaddr[&g] = id << OFFB; gl.push_back({ &g, id }); }
    for (auto& p : gl) { Obj* o = s0->mem.getw(p.second); if (p.first->hasInitializer()) initGlobal(o, 0, p.first->getInitializer()); o->ro = p.first->isConstant();
        for (auto& st : sets) if (p.first->getName() == st.first) memcpy(o->data, &st.second, std::min<u64>(o->size, 8)); }
    auto it = g_fnByName.find(entry); if (it == g_fnByName.end() || !it->second->defined) { fprintf(stderr, "symx: no entry %s\n", entry.c_str()); return 2; }
    for (auto& x : g_fnByName) if (x.first.compare(0, 12, "sx_on_call__") == 0) { auto t = g_fnByName.find(x.first.substr(12)); if (t != g_fnByName.end() && t->second->defined) t->second->hook = x.second; }
    translate(it->second); std::vector<Val> av(it->second->nargs, VC(0)); pushFrame(*s0, it->second, av, -1);
    g_work.push_back(s0);
    std::string stopped;
    while (!g_work.empty()) {
        State* s = g_work.back(); g_work.pop_back();
        u64 st0 = s->steps;
        try { step(*s); } catch (PathEnd&) {}
        g_totalSteps += s->steps - st0; g_paths++; delete s;
        if (g_timeout) { stopped = "time limit"; break; }
        if (g_paths >= g_maxPaths) { stopped = "path limit"; break; }
        if (now() - g_t0 > g_maxTime) { stopped = "time limit"; break; }
        if (g_errors.size() >= g_maxErrors) { stopped = "error limit"; break; }
        if ((g_paths & 255) == 0) { struct rusage ru; getrusage(RUSAGE_SELF, &ru); if ((u64)ru.ru_maxrss > g_maxRss) { stopped = "memory limit"; break; } }
    }
    if (g_work.empty() && stopped != "time limit") stopped.clear();
    std::string js = "{\n"; auto kv = [&](const char* k, const std::string& v, bool last = false) { js += std::string(" \"") + k + "\": " + v + (last ? "\n" : ",\n"); };
    kv("entry", jsq(entry)); kv("complete", stopped.empty() ? "true" : "false"); kv("stopped", jsq(stopped)); kv("pending", std::to_string(g_work.size())); kv("paths", std::to_string(g_paths)); kv("paths_error", std::to_string(g_pathsErr)); kv("steps", std::to_string(g_totalSteps));
    kv("asserts", std::to_string(g_asserts)); kv("assert_queries", std::to_string(g_assertQueries)); kv("inconclusive", std::to_string(g_inconclusive));
    kv("queries", std::to_string(g_ss.queries)); kv("sat", std::to_string(g_ss.sat)); kv("unsat", std::to_string(g_ss.unsat)); kv("unknown", std::to_string(g_ss.unknown)); kv("table_queries", std::to_string(g_ss.table)); kv("table_cross", std::to_string(g_ss.cross)); kv("cache_hits", std::to_string(g_ss.cacheHits + g_ss.modelHits));
    kv("solver_s", std::to_string(g_ss.seconds)); kv("wall_s", std::to_string(now() - g_t0)); kv("error_total", std::to_string(g_errTotal));
    std::string fl; for (auto f : g_fns) if (f->executed) { if (!fl.empty()) fl += ","; fl += jsq(f->name); } kv("functions", "[" + fl + "]");
    std::string cv; for (auto& c : g_covers) { if (!cv.empty()) cv += ","; cv += jsq(c.first) + ":" + std::to_string(c.second); } kv("covers", "{" + cv + "}");
    std::string us; for (auto& c : g_unsup) { if (!us.empty()) us += ","; us += jsq(c.first); } kv("unsupported", "[" + us + "]");
    std::string er; for (auto& e : g_errors) {
        if (!er.empty()) er += ",\n  "; er += "{\"kind\":" + jsq(e.kind) + ",\"msg\":" + jsq(e.msg) + ",\"stack\":["; bool first = true; for (auto& x : e.stack) { if (!first) er += ","; first = false; er += jsq(x); }
        er += "],\"choices\":["; first = true; for (auto& c : e.choices) { if (!first) er += ","; first = false; er += "[" + jsq(c.first) + "," + std::to_string(c.second) + "]"; }
        er += "],\"syms\":["; first = true; for (auto& c : e.syms) { if (!first) er += ","; first = false; er += "[" + jsq(c.first) + "," + jsq(c.second) + "]"; } er += "]}"; }
    kv("errors", "[" + er + "]", true); js += "}\n";
    if (out.empty()) fputs(js.c_str(), stdout); else { FILE* fo = fopen(out.c_str(), "w"); fputs(js.c_str(), fo); fclose(fo); }
    if (g_verbose) for (auto& x : g_forkSites) fprintf(stderr, "FORK %llu %s\n", (unsigned long long)x.second, x.first.c_str());
    fflush(stdout); _exit(0);
}
