// Symbolic executor for LLVM bitcode produced by clang from the real sources.
#include "expr.h"
#include "solver.h"
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/DebugInfo.h>
#include <llvm-c/Target.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <locale.h>
#include <memory>
#include <deque>
#include <functional>
#include <atomic>
#include <cerrno>
#include <unordered_set>

// ------------------------------------------------------------------------------------------------ options and results
static uint64_t O_maxsteps = 20000000; static double O_time = 300; static int O_jobs = 1; static uint64_t O_maxmem = 1ull << 28;
static int O_samples = 8; static int O_maxviol = 6; static bool O_trace = false; static std::string O_out; static uint64_t O_seed = 1;
static uint64_t O_maxalloc = 1 << 24;

struct PathEnd { bool clean = false; };                       // ends the current path
struct V { uint64_t c; E e; };
static inline V CV(uint64_t c) { return V{c, nullptr}; }
static inline V mkV(E e) { return isK(e) ? V{e->c, nullptr} : V{0, e}; }
static inline E toE(const V &v, unsigned w) { return v.e ? v.e : K(v.c, w); }

// ------------------------------------------------------------------------------------------------ program
enum { OPK_REG, OPK_CONST, OPK_AGG };
struct Opnd { uint32_t kind; uint32_t idx; uint64_t c; };
struct Func; struct Block;
struct Ins {
    int op; uint8_t w = 0, w2 = 0; uint8_t isptr = 0; int sub = 0; int dst = -1; unsigned nsl = 1;
    std::vector<Opnd> o; std::vector<uint64_t> k; std::vector<uint32_t> ow; // ow: widths of operands / number of slots
    std::vector<uint32_t> osl; std::vector<uint32_t> succ; Func *callee = nullptr; int line = -1; bool invoke = false; uint64_t ptrmask = 0;
    mutable bool hit = false;
};
struct Phi { int dst; unsigned nsl; std::vector<std::pair<uint32_t, Opnd>> in; };
struct Block { std::vector<Phi> phis; std::vector<Ins> ins; };
struct Func {
    std::string name; LLVMValueRef v = nullptr; bool defined = false, lowered = false; uint32_t nslots = 0; std::vector<Block> bl;
    std::vector<uint32_t> argslot, argn; uint64_t addr = 0; int builtin = -1; Func *redirect = nullptr; std::string file, pretty; mutable bool used = false; bool vararg = false;
    std::unordered_map<LLVMValueRef, uint32_t> slot; unsigned retw = 0;
};
static LLVMModuleRef M; static LLVMTargetDataRef TD;
static std::vector<Func *> g_funcs; static std::unordered_map<LLVMValueRef, Func *> g_fmap; static std::unordered_map<std::string, Func *> g_fname;
static std::unordered_map<LLVMValueRef, uint64_t> g_gaddr; static std::vector<std::vector<uint64_t>> g_aggs;
static std::unordered_map<uint64_t, std::string> g_gname; // address of a global -> name
struct Loc { std::string file; int line; bool operator<(const Loc &o) const { return file != o.file ? file < o.file : line < o.line; } };
static std::vector<Loc> g_locs; static std::map<Loc, int> g_locid; static std::vector<uint8_t> g_lochit;

static const uint64_t OFFB = 0x40000000ull; static const uint32_t FUNC0 = 0x7E000000u;
static inline uint64_t addrOf(uint32_t id) { return ((uint64_t)id << 32) | OFFB; }

static unsigned bitsOf(LLVMTypeRef t) {
    switch (LLVMGetTypeKind(t)) {
        case LLVMIntegerTypeKind: return LLVMGetIntTypeWidth(t);
        case LLVMPointerTypeKind: return 64; case LLVMDoubleTypeKind: return 64; case LLVMFloatTypeKind: return 32;
        case LLVMVoidTypeKind: return 0;
        default: return 255;
    }
}
static unsigned slotsOf(LLVMTypeRef t) {
    switch (LLVMGetTypeKind(t)) {
        case LLVMStructTypeKind: { unsigned n = 0, c = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < c; ++i) n += slotsOf(LLVMStructGetTypeAtIndex(t, i)); return n; }
        case LLVMArrayTypeKind: return (unsigned)LLVMGetArrayLength2(t) * slotsOf(LLVMGetElementType(t));
        case LLVMVectorTypeKind: return LLVMGetVectorSize(t) * slotsOf(LLVMGetElementType(t));
        case LLVMVoidTypeKind: return 0;
        default: return 1;
    }
}
static void widthsOf(LLVMTypeRef t, std::vector<uint32_t> &w, std::vector<uint64_t> *off = nullptr, uint64_t base = 0) {
    switch (LLVMGetTypeKind(t)) {
        case LLVMStructTypeKind: { unsigned c = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < c; ++i) widthsOf(LLVMStructGetTypeAtIndex(t, i), w, off, base + LLVMOffsetOfElement(TD, t, i)); return; }
        case LLVMArrayTypeKind: { auto et = LLVMGetElementType(t); for (unsigned i = 0; i < LLVMGetArrayLength2(t); ++i) widthsOf(et, w, off, base + i * LLVMABISizeOfType(TD, et)); return; }
        case LLVMVectorTypeKind: { auto et = LLVMGetElementType(t); for (unsigned i = 0; i < LLVMGetVectorSize(t); ++i) widthsOf(et, w, off, base + i * LLVMABISizeOfType(TD, et)); return; }
        case LLVMVoidTypeKind: return;
        default: w.push_back(bitsOf(t)); if (off) off->push_back(base);
    }
}
static unsigned slotIndex(LLVMTypeRef t, const unsigned *idx, unsigned n) {
    unsigned s = 0;
    for (unsigned k = 0; k < n; ++k) {
        if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { for (unsigned i = 0; i < idx[k]; ++i) s += slotsOf(LLVMStructGetTypeAtIndex(t, i)); t = LLVMStructGetTypeAtIndex(t, idx[k]); }
        else { t = LLVMGetElementType(t); s += idx[k] * slotsOf(t); }
    }
    return s;
}

// constants -------------------------------------------------------------------
static std::string g_lowererr;
static uint64_t constScalar(LLVMValueRef v);
static bool gepConst(LLVMValueRef v, uint64_t &r) {
    LLVMValueRef b = LLVMGetOperand(v, 0); uint64_t a = constScalar(b); LLVMTypeRef t = LLVMGetGEPSourceElementType(v);
    for (int i = 1; i < LLVMGetNumOperands(v); ++i) {
        LLVMValueRef x = LLVMGetOperand(v, i); int64_t k = LLVMConstIntGetSExtValue(x);
        if (i == 1) { a += (uint64_t)k * LLVMABISizeOfType(TD, t); continue; }
        if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { a += LLVMOffsetOfElement(TD, t, (unsigned)k); t = LLVMStructGetTypeAtIndex(t, (unsigned)k); }
        else { t = LLVMGetElementType(t); a += (uint64_t)k * LLVMABISizeOfType(TD, t); }
    }
    r = a; return true;
}
static uint64_t constScalar(LLVMValueRef v) {
    switch (LLVMGetValueKind(v)) {
        case LLVMConstantIntValueKind: if (LLVMGetIntTypeWidth(LLVMTypeOf(v)) > 64) { return 0; } return LLVMConstIntGetZExtValue(v);
        case LLVMConstantFPValueKind: { LLVMBool l; double d = LLVMConstRealGetDouble(v, &l); return LLVMGetTypeKind(LLVMTypeOf(v)) == LLVMFloatTypeKind ? f2bits((float)d) : d2bits(d); }
        case LLVMConstantPointerNullValueKind: case LLVMUndefValueValueKind: case LLVMPoisonValueValueKind: case LLVMConstantAggregateZeroValueKind: return 0;
        case LLVMFunctionValueKind: return g_fmap.at(v)->addr;
        case LLVMGlobalVariableValueKind: return g_gaddr.at(v);
        case LLVMGlobalAliasValueKind: return constScalar(LLVMAliasGetAliasee(v));
        case LLVMConstantExprValueKind: {
            auto op = LLVMGetConstOpcode(v); uint64_t r;
            switch (op) {
                case LLVMGetElementPtr: gepConst(v, r); return r;
                case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMAddrSpaceCast: return constScalar(LLVMGetOperand(v, 0));
                case LLVMTrunc: return constScalar(LLVMGetOperand(v, 0)) & mask(bitsOf(LLVMTypeOf(v)));
                case LLVMAdd: return (constScalar(LLVMGetOperand(v, 0)) + constScalar(LLVMGetOperand(v, 1))) & mask(bitsOf(LLVMTypeOf(v)));
                case LLVMICmp: { uint64_t x = constScalar(LLVMGetOperand(v, 0)), y = constScalar(LLVMGetOperand(v, 1)); switch (LLVMGetICmpPredicate(v)) { case LLVMIntEQ: return x == y; case LLVMIntNE: return x != y; case LLVMIntUGT: return x > y; case LLVMIntUGE: return x >= y; case LLVMIntULT: return x < y; case LLVMIntULE: return x <= y; default: break; } break; }
                case LLVMSub: return (constScalar(LLVMGetOperand(v, 0)) - constScalar(LLVMGetOperand(v, 1))) & mask(bitsOf(LLVMTypeOf(v)));
                default: break;
            }
            char *s = LLVMPrintValueToString(v); g_lowererr = std::string("constant expression ") + s; return 0;
        }
        default: { char *s = LLVMPrintValueToString(v); g_lowererr = std::string("constant ") + s; return 0; }
    }
}
static void constSlots(LLVMValueRef v, std::vector<uint64_t> &out) {
    LLVMTypeRef t = LLVMTypeOf(v); auto k = LLVMGetTypeKind(t);
    if (k == LLVMStructTypeKind || k == LLVMArrayTypeKind || k == LLVMVectorTypeKind) {
        auto vk = LLVMGetValueKind(v);
        if (vk == LLVMConstantAggregateZeroValueKind || vk == LLVMUndefValueValueKind || vk == LLVMPoisonValueValueKind) { out.resize(out.size() + slotsOf(t)); return; }
        unsigned n = k == LLVMStructTypeKind ? LLVMCountStructElementTypes(t) : k == LLVMArrayTypeKind ? (unsigned)LLVMGetArrayLength2(t) : LLVMGetVectorSize(t);
        for (unsigned i = 0; i < n; ++i) constSlots(LLVMGetAggregateElement(v, i), out);
        return;
    }
    out.push_back(constScalar(v));
}
static void writeConst(LLVMValueRef v, uint8_t *p) {
    LLVMTypeRef t = LLVMTypeOf(v); auto k = LLVMGetTypeKind(t); auto vk = LLVMGetValueKind(v);
    if (vk == LLVMConstantAggregateZeroValueKind || vk == LLVMUndefValueValueKind || vk == LLVMPoisonValueValueKind) { memset(p, 0, LLVMStoreSizeOfType(TD, t)); return; }
    if (vk == LLVMConstantDataArrayValueKind && LLVMIsConstantString(v)) { size_t n; const char *s = LLVMGetAsString(v, &n); memcpy(p, s, n); return; }
    if (k == LLVMStructTypeKind) { for (unsigned i = 0; i < LLVMCountStructElementTypes(t); ++i) writeConst(LLVMGetAggregateElement(v, i), p + LLVMOffsetOfElement(TD, t, i)); return; }
    if (k == LLVMArrayTypeKind || k == LLVMVectorTypeKind) {
        uint64_t n = k == LLVMArrayTypeKind ? LLVMGetArrayLength2(t) : LLVMGetVectorSize(t), es = LLVMABISizeOfType(TD, LLVMGetElementType(t));
        for (unsigned i = 0; i < n; ++i) writeConst(LLVMGetAggregateElement(v, i), p + i * es); return;
    }
    uint64_t x = constScalar(v); memcpy(p, &x, std::min<uint64_t>(8, LLVMStoreSizeOfType(TD, t)));
}

// lowering --------------------------------------------------------------------
static uint32_t slotFor(Func *f, LLVMValueRef v) {
    auto it = f->slot.find(v); if (it != f->slot.end()) return it->second;
    uint32_t s = f->nslots; f->nslots += std::max(1u, slotsOf(LLVMTypeOf(v))); f->slot[v] = s; return s;
}
static Opnd opnd(Func *f, LLVMValueRef v) {
    if (LLVMIsAArgument(v) || LLVMIsAInstruction(v)) return Opnd{OPK_REG, slotFor(f, v), 0};
    LLVMTypeRef t = LLVMTypeOf(v); auto k = LLVMGetTypeKind(t);
    if (k == LLVMMetadataTypeKind || k == LLVMTokenTypeKind) return Opnd{OPK_CONST, 0, 0};
    if (LLVMGetValueKind(v) == LLVMInlineAsmValueKind) return Opnd{OPK_CONST, 0, 0};
    if (k == LLVMStructTypeKind || k == LLVMArrayTypeKind || k == LLVMVectorTypeKind) { std::vector<uint64_t> a; constSlots(v, a); g_aggs.push_back(a); return Opnd{OPK_AGG, (uint32_t)g_aggs.size() - 1, 0}; }
    return Opnd{OPK_CONST, 0, constScalar(v)};
}
static bool debugPseudo(LLVMValueRef i) {
    if (!LLVMIsACallInst(i)) return false; LLVMValueRef c = LLVMGetCalledValue(i); if (!LLVMIsAFunction(c)) return false;
    size_t n; const char *s = LLVMGetValueName2(c, &n);
    return !strncmp(s, "llvm.dbg.", 9) || !strncmp(s, "llvm.lifetime.", 14) || !strncmp(s, "llvm.experimental.noalias", 25) || !strcmp(s, "llvm.assume") || !strncmp(s, "llvm.donothing", 14) || !strncmp(s, "llvm.invariant.", 15) || !strcmp(s, "llvm.prefetch.p0");
}
static void lower(Func *f) {
    f->lowered = true; LLVMValueRef F = f->v;
    for (unsigned i = 0; i < LLVMCountParams(F); ++i) { LLVMValueRef p = LLVMGetParam(F, i); f->argslot.push_back(slotFor(f, p)); f->argn.push_back(std::max(1u, slotsOf(LLVMTypeOf(p)))); }
    std::unordered_map<LLVMBasicBlockRef, uint32_t> bi; uint32_t nb = 0;
    for (auto b = LLVMGetFirstBasicBlock(F); b; b = LLVMGetNextBasicBlock(b)) bi[b] = nb++;
    f->bl.resize(nb); uint32_t k = 0;
    for (auto b = LLVMGetFirstBasicBlock(F); b; b = LLVMGetNextBasicBlock(b), ++k) {
        Block &B = f->bl[k];
        for (auto i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
            if (debugPseudo(i)) continue;
            LLVMOpcode op = LLVMGetInstructionOpcode(i); LLVMTypeRef t = LLVMTypeOf(i);
            if (op == LLVMPHI) {
                Phi p; p.dst = (int)slotFor(f, i); p.nsl = slotsOf(t);
                for (unsigned j = 0; j < LLVMCountIncoming(i); ++j) p.in.push_back({bi[LLVMGetIncomingBlock(i, j)], opnd(f, LLVMGetIncomingValue(i, j))});
                B.phis.push_back(p); continue;
            }
            Ins I; I.op = op; I.nsl = slotsOf(t); if (I.nsl) I.dst = (int)slotFor(f, i); I.w = (uint8_t)bitsOf(t); I.isptr = LLVMGetTypeKind(t) == LLVMPointerTypeKind;
            LLVMMetadataRef dl = LLVMInstructionGetDebugLoc(i);
            if (dl) {
                unsigned ln = LLVMDILocationGetLine(dl); LLVMMetadataRef sc = LLVMDILocationGetScope(dl), fi = sc ? LLVMDIScopeGetFile(sc) : nullptr; unsigned n = 0; const char *fn = fi ? LLVMDIFileGetFilename(fi, &n) : "";
                Loc L{std::string(fn, n), (int)ln}; auto it = g_locid.find(L); if (it == g_locid.end()) { it = g_locid.emplace(L, (int)g_locs.size()).first; g_locs.push_back(L); g_lochit.push_back(0); }
                I.line = it->second;
            }
            auto addop = [&](LLVMValueRef v) { I.o.push_back(opnd(f, v)); I.ow.push_back(bitsOf(LLVMTypeOf(v))); I.osl.push_back(slotsOf(LLVMTypeOf(v))); };
            switch (op) {
                case LLVMBr: if (LLVMIsConditional(i)) addop(LLVMGetCondition(i)); for (unsigned s = 0; s < LLVMGetNumSuccessors(i); ++s) I.succ.push_back(bi[LLVMGetSuccessor(i, s)]); break;
                case LLVMSwitch: addop(LLVMGetOperand(i, 0)); I.succ.push_back(bi[LLVMGetSwitchDefaultDest(i)]);
                    for (int s = 2; s + 1 < LLVMGetNumOperands(i); s += 2) { I.k.push_back(LLVMConstIntGetZExtValue(LLVMGetOperand(i, s))); I.succ.push_back(bi[LLVMValueAsBasicBlock(LLVMGetOperand(i, s + 1))]); } break;
                case LLVMCall: case LLVMInvoke: {
                    for (unsigned a = 0; a < LLVMGetNumArgOperands(i); ++a) { addop(LLVMGetArgOperand(i, a)); if (a < 64 && LLVMGetTypeKind(LLVMTypeOf(LLVMGetArgOperand(i, a))) == LLVMPointerTypeKind) I.ptrmask |= 1ull << a; }
                    LLVMValueRef cv = LLVMGetCalledValue(i); while (LLVMGetValueKind(cv) == LLVMGlobalAliasValueKind) cv = LLVMAliasGetAliasee(cv);
                    if (LLVMIsAFunction(cv)) I.callee = g_fmap.at(cv); else if (LLVMGetValueKind(cv) == LLVMInlineAsmValueKind) I.sub = 1; else addop(cv);
                    { static unsigned bk = LLVMGetEnumAttributeKindForName("byval", 5); for (unsigned a = 0; a < LLVMGetNumArgOperands(i); ++a) { auto at = LLVMGetCallSiteEnumAttribute(i, a + 1, bk); if (at) { I.k.push_back(a); I.k.push_back(LLVMABISizeOfType(TD, LLVMGetTypeAttributeValue(at))); } } }
                    if (op == LLVMInvoke) { I.invoke = true; I.succ.push_back(bi[LLVMGetNormalDest(i)]); I.succ.push_back(bi[LLVMGetUnwindDest(i)]); }
                    I.op = LLVMCall; break; }
                case LLVMGetElementPtr: {
                    addop(LLVMGetOperand(i, 0)); LLVMTypeRef ty = LLVMGetGEPSourceElementType(i); uint64_t off = 0;
                    for (int j = 1; j < LLVMGetNumOperands(i); ++j) {
                        LLVMValueRef x = LLVMGetOperand(i, j); uint64_t sc;
                        if (j == 1) sc = LLVMABISizeOfType(TD, ty);
                        else if (LLVMGetTypeKind(ty) == LLVMStructTypeKind) { unsigned ix = (unsigned)LLVMConstIntGetZExtValue(x); off += LLVMOffsetOfElement(TD, ty, ix); ty = LLVMStructGetTypeAtIndex(ty, ix); continue; }
                        else { ty = LLVMGetElementType(ty); sc = LLVMABISizeOfType(TD, ty); }
                        if (LLVMIsAConstantInt(x)) off += (uint64_t)LLVMConstIntGetSExtValue(x) * sc; else { addop(x); I.k.push_back(sc); }
                    }
                    I.k.push_back(off); break; }
                case LLVMAlloca: I.k.push_back(LLVMABISizeOfType(TD, LLVMGetAllocatedType(i))); addop(LLVMGetOperand(i, 0)); break;
                case LLVMICmp: I.sub = LLVMGetICmpPredicate(i); addop(LLVMGetOperand(i, 0)); addop(LLVMGetOperand(i, 1)); break;
                case LLVMFCmp: I.sub = LLVMGetFCmpPredicate(i); addop(LLVMGetOperand(i, 0)); addop(LLVMGetOperand(i, 1)); break;
                case LLVMExtractValue: case LLVMInsertValue: { addop(LLVMGetOperand(i, 0)); if (op == LLVMInsertValue) addop(LLVMGetOperand(i, 1));
                    I.sub = (int)slotIndex(LLVMTypeOf(LLVMGetOperand(i, 0)), LLVMGetIndices(i), LLVMGetNumIndices(i)); break; }
                case LLVMLandingPad: {
                    I.sub = LLVMIsCleanup(i); for (unsigned c = 0; c < LLVMGetNumClauses(i); ++c) { LLVMValueRef cl = LLVMGetClause(i, c); if (LLVMGetTypeKind(LLVMTypeOf(cl)) == LLVMArrayTypeKind) I.k.push_back(~0ull); else I.k.push_back(constScalar(cl)); } break; }
                case LLVMLoad: case LLVMStore: if (LLVMGetInstructionOpcode(i) == LLVMStore && LLVMGetOrdering(i) != LLVMAtomicOrderingNotAtomic) I.sub = 1; for (int j = 0; j < LLVMGetNumOperands(i); ++j) addop(LLVMGetOperand(i, j));
                    { LLVMTypeRef vt = op == LLVMLoad ? t : LLVMTypeOf(LLVMGetOperand(i, 0)); std::vector<uint32_t> ws; std::vector<uint64_t> off; widthsOf(vt, ws, &off); if (ws.size() != 1) { I.k.assign(off.begin(), off.end()); I.succ = ws; } }
                    break;
                case LLVMAtomicRMW: I.sub = LLVMGetAtomicRMWBinOp(i); addop(LLVMGetOperand(i, 0)); addop(LLVMGetOperand(i, 1)); break;
                default: for (int j = 0; j < LLVMGetNumOperands(i); ++j) addop(LLVMGetOperand(i, j)); break;
            }
            if (!I.o.empty()) I.w2 = (uint8_t)I.ow[0];
            if (!g_lowererr.empty()) { I.op = -1; I.sub = 0; char *is = LLVMPrintValueToString(i); fprintf(stderr, "lowering %s: %s: %s\n", f->name.c_str(), is, g_lowererr.c_str()); g_lowererr.clear(); }
            B.ins.push_back(std::move(I));
        }
    }
}

// ------------------------------------------------------------------------------------------------ memory and states
enum { OF_CONST = 1, OF_HEAP = 2, OF_STACK = 4, OF_DEAD = 8, OF_GLOBAL = 16, OF_ARRAY = 32, OF_OWN = 64, OF_SHARED = 128 };
struct Obj {
    uint32_t rc; uint32_t size; uint32_t flags; uint32_t nsym; uint8_t *d; E *s;
    static Obj *make(uint32_t size, uint32_t flags) { Obj *o = new Obj{1, size, flags, 0, (uint8_t *)malloc(size ? size : 1), nullptr}; return o; }
    Obj *clone() const { Obj *o = make(size, flags); memcpy(o->d, d, size); if (nsym) { o->s = (E *)malloc(sizeof(E) * size); memcpy(o->s, s, sizeof(E) * size); o->nsym = nsym; } return o; }
    void drop() { if (--rc == 0) { free(d); free(s); delete this; } }
    void setSym(uint32_t i, E e) { if (!s) s = (E *)calloc(size, sizeof(E)); if (!s[i]) nsym++; s[i] = e; }
    void clrSym(uint32_t i) { if (s && s[i]) { s[i] = nullptr; nsym--; } }
    E byteE(uint32_t i) const { return s && s[i] ? s[i] : K(d[i], 8); }
};
static const uint32_t CHUNK = 64;
struct Chunk { uint32_t rc; Obj *o[CHUNK]; };
static Obj g_deadHeap{1, 0, OF_HEAP | OF_DEAD, 0, nullptr, nullptr}, g_deadStack{1, 0, OF_STACK | OF_DEAD, 0, nullptr, nullptr};

struct Mem {
    std::vector<Chunk *> t;
    Mem() {}
    Mem(const Mem &o) : t(o.t) { for (auto c : t) if (c) c->rc++; }
    Mem &operator=(const Mem &o) = delete;
    ~Mem() { clear(); }
    static void dropc(Chunk *c) { if (c && --c->rc == 0) { for (auto o : c->o) if (o && o != &g_deadHeap && o != &g_deadStack) o->drop(); delete c; } }
    void clear() { for (auto c : t) dropc(c); t.clear(); }
    const Obj *get(uint32_t id) const { uint32_t k = id / CHUNK; if (k >= t.size() || !t[k]) return nullptr; return t[k]->o[id % CHUNK]; }
    Chunk *wchunk(uint32_t id) {
        uint32_t k = id / CHUNK; if (k >= t.size()) t.resize(k + 1, nullptr);
        if (!t[k]) { t[k] = new Chunk(); t[k]->rc = 1; memset(t[k]->o, 0, sizeof t[k]->o); }
        else if (t[k]->rc > 1) { Chunk *n = new Chunk(*t[k]); n->rc = 1; for (auto o : n->o) if (o && o != &g_deadHeap && o != &g_deadStack) o->rc++; t[k]->rc--; t[k] = n; }
        return t[k];
    }
    void set(uint32_t id, Obj *o) { Chunk *c = wchunk(id); Obj *&r = c->o[id % CHUNK]; if (r && r != &g_deadHeap && r != &g_deadStack) r->drop(); r = o; }
    Obj *w(uint32_t id) { Chunk *c = wchunk(id); Obj *&r = c->o[id % CHUNK]; if (r->rc > 1) { Obj *n = r->clone(); r->rc--; r = n; } return r; }
};

struct Frame { Func *f; uint32_t blk, ip, base; const Ins *call; std::vector<uint32_t> allocas; };
struct InputRec { std::string name; std::vector<uint32_t> vars; uint64_t val; bool isvar; };
struct Caught { uint64_t obj; uint64_t ti; };
struct ExcInfo { uint64_t obj, ti; int handlers = 0; bool rethrown = false; uint64_t dtor = 0; };
struct FmtRec { std::vector<E> text; E bits; unsigned w; int prec; std::string spec; E val = nullptr, org = nullptr; std::vector<E> full; }; // text printed for a symbolic floating-point value

// variables defined as the decimal digits of x; eq links them, and is needed only in queries about the digits
struct Def { E x, eq; std::vector<uint32_t> dv; bool active = false; };
struct State {
    std::vector<V> regs; std::vector<Frame> fr; Mem mem; uint32_t nextobj = 16; uint64_t steps = 0, bytes = 0;
    std::vector<uint8_t> model; std::vector<uint32_t> dom; std::vector<uint8_t> inmulti; std::vector<E> multi; std::vector<E> all; std::vector<int> defof; std::vector<Def> defs;
    std::vector<InputRec> inputs; std::vector<ExcInfo> exc; std::vector<uint64_t> caught; int uncaught = 0;
    std::vector<std::pair<E, E>> subst; std::vector<FmtRec> fmts; uint32_t forks = 0; std::set<std::string> reached;
    std::vector<std::pair<std::pair<unsigned, std::vector<E>>, E>> reads; std::vector<std::pair<E, E>> fmtd; std::vector<std::pair<E, std::vector<E>>> digs; std::vector<int> pend; size_t pendpos = 0; bool approx = false, comma = false; uint32_t frozen = 0, once = 0; bool atomic = false; std::vector<std::string> tags; uint64_t randstate = 0;
};

struct Viol { std::string kind, msg, where, stack; std::vector<std::pair<std::string, std::string>> inputs; std::string path; };
static std::vector<Viol> g_viol; static std::map<std::string, int> g_violcount;
static std::map<std::string, uint64_t> g_unsup; static std::map<std::string, uint64_t> g_reached; static std::map<std::string, uint64_t> g_known;
static uint64_t g_paths = 0, g_pruned = 0, g_forks = 0, g_instr = 0, g_checks = 0, g_checksym = 0, g_maxvars = 0; static bool g_incomplete = false;
static std::map<std::string, std::pair<uint64_t, uint64_t>> g_checkmsg; // message -> (evaluated, needing the solver)
static std::vector<Viol> g_samples; static std::vector<State *> g_work; static double g_t0; static Func *g_main;

static std::string hexs(const std::vector<uint8_t> &v) { std::string s; char b[4]; for (auto x : v) { snprintf(b, sizeof b, "%02x", x); s += b; } return s; }
static std::string whereOf(State &s, bool full) {
    std::string r; int n = 0;
    for (int i = (int)s.fr.size() - 1; i >= 0; --i) {
        Frame &f = s.fr[i]; std::string l = "?"; if (f.blk < f.f->bl.size() && f.ip < f.f->bl[f.blk].ins.size()) { int li = f.f->bl[f.blk].ins[f.ip].line; if (li >= 0) l = g_locs[li].file + ":" + std::to_string(g_locs[li].line); }
        if (!full) return l;
        r += (n ? " < " : "") + f.f->name + "@" + l; if (++n > 14) break;
    }
    return r;
}
static void recordInputs(State &s, Viol &v) {
    for (auto &r : s.inputs) { if (r.isvar) { std::vector<uint8_t> b; for (auto x : r.vars) b.push_back(s.model[x]); v.inputs.push_back({r.name, "b" + hexs(b)}); } else v.inputs.push_back({r.name, "c" + std::to_string(r.val)}); }
}
static void violation(State &s, const std::string &kind, const std::string &msg) {
    Viol v; v.kind = kind; v.msg = msg; v.where = whereOf(s, false); v.stack = whereOf(s, true); for (auto &t : s.tags) v.path += t + " ";
    std::string key = kind + "|" + msg + "|" + (kind == "check" ? "" : v.where); int n = g_violcount[key]++;
    if (n >= O_maxviol) return;
    recordInputs(s, v); g_viol.push_back(v);
}
[[noreturn]] static void unsupported(State &s, const std::string &m) { std::string k = m + " at " + whereOf(s, false); if (g_unsup[k]++ == 0 && O_trace) fprintf(stderr, "unsupported: %s\n  %s\n", m.c_str(), whereOf(s, true).c_str()); throw PathEnd(); }
[[noreturn]] static void fault(State &s, const std::string &kind, const std::string &m) { violation(s, kind, m); throw PathEnd(); }

// ------------------------------------------------------------------------------------------------ constraints
static uint32_t newVar(State &s, uint8_t val) { uint32_t id = (uint32_t)s.model.size(); s.model.push_back(val); s.dom.push_back(0); s.inmulti.push_back(0); s.defof.push_back(-1); if (s.model.size() > g_maxvars) g_maxvars = s.model.size(); return id; }
static void activate(State &s, E c) { for (auto v : *c->sup) if (s.defof[v] >= 0) { Def &d = s.defs[(size_t)s.defof[v]]; if (!d.active) { d.active = true; for (auto u : *d.x->sup) s.inmulti[u] = 1; activate(s, d.x); } } }
static void addC(State &s, E c) { // c holds under s.model
    if (isK(c)) return;
    if (c->op == AND && c->w == 1) { addC(s, c->a); addC(s, c->b); return; }
    if (c->op == NOT && c->a->op == OR) { addC(s, mkNot(c->a->a)); addC(s, mkNot(c->a->b)); return; }
    if (!s.defs.empty()) activate(s, c);
    if (c->sup->size() == 1) { uint32_t v = (*c->sup)[0]; s.dom[v] = g_dom.get(inter(g_dom.sets[s.dom[v]], trueSet(c))); return; }
    for (E x : s.multi) if (x == c) return;
    s.multi.push_back(c); for (auto v : *c->sup) s.inmulti[v] = 1;
}
// c, reduced to a constant when the value set of its only variable decides it, or it is literally on the path
static E settle(State &s, E c) {
    if (c->op == CONST || c->w != 1) return c;
    if (c->sup->size() == 1) { const Set256 &d = g_dom.sets[s.dom[(*c->sup)[0]]], &t = trueSet(c); Set256 x = inter(d, t); if (isEmptySet(x)) return K(0, 1); if (x == d) return K(1, 1); return c; }
    E n = mkNot(c); for (E x : s.multi) { if (x == c) return K(1, 1); if (x == n) return K(0, 1); }
    return c;
}
// simpler equivalent of c under the value sets of its variables: subexpressions of one variable that are a bit field of it
static std::unordered_map<uint64_t, E> g_simp1;
static E simp1(State &s, E e) {
    uint32_t v = (*e->sup)[0]; uint64_t key = (uint64_t)e->id << 32 | s.dom[v]; auto it = g_simp1.find(key); if (it != g_simp1.end()) return it->second;
    const Set256 d = g_dom.sets[s.dom[v]]; std::vector<uint8_t> m = s.model; std::vector<std::pair<uint8_t, uint64_t>> t; E r = e; uint64_t top = 0;
    for (int i = 0; i < 256; ++i) if (hasIn(d, i)) { m[v] = (uint8_t)i; uint64_t x = evalE(e, m.data()); t.push_back({(uint8_t)i, x}); top |= x; }
    bool same = true; for (auto &p : t) if (p.second != t[0].second) { same = false; break; }
    if (same && !t.empty()) r = K(t[0].second, e->w);
    else if (top < 256) for (unsigned n = 8; n >= 1 && r == e; --n) for (unsigned lo = 0; lo + n <= 8 && r == e; ++lo) { if (n > e->w) continue; bool ok = true; for (auto &p : t) if (((p.first >> lo) & mask(n)) != p.second) { ok = false; break; } if (ok) r = mkZext(mkExtract(mkVar(v), lo, n), e->w); }
    if (r == e && e->w > 8 && top && e->op != ZEXT) { unsigned n = 64 - __builtin_clzll(top); if (n < e->w) r = mkZext(mkExtract(e, 0, n), e->w); }
    g_simp1[key] = r; return r;
}
static uint64_t maybeOne(E e) { switch (e->op) { case CONST: return e->c; case ZEXT: return maybeOne(e->a); case CONCAT: return maybeOne(e->a) << e->b->w | maybeOne(e->b); default: return mask(e->w); } }
static void addends(E e, std::vector<E> &t) { if (e->op == ADD) { addends(e->a, t); addends(e->b, t); } else t.push_back(e); }
// a sum whose terms have no bit in common is their union
static E joinSum(State &s, E e) {
    std::vector<E> t; addends(e, t); std::map<uint32_t, E> single; std::vector<E> rest; E k = K(0, e->w);
    for (E x : t) if (isK(x)) k = mkBin(ADD, k, x); else if (x->sup->size() == 1) { E &y = single[(*x->sup)[0]]; y = y ? mkBin(ADD, y, x) : x; } else rest.push_back(x);
    bool first = true; for (auto &p : single) { E y = p.second; if (first && single.size() == 1 && !isK(k, 0)) { y = mkBin(ADD, y, k); k = K(0, e->w); } first = false; rest.push_back(simp1(s, y)); } if (!isK(k, 0)) rest.push_back(k);
    uint64_t m = 0; for (E x : rest) { uint64_t b = maybeOne(x); if (m & b) return e; m |= b; }
    E r = K(0, e->w); for (E x : rest) r = mkBin(OR, r, x); return r;
}
static E simpDom(State &s, E e, std::unordered_map<E, E> &memo) {
    if (isK(e) || e->op == VAR || e->op == HORN) return e; auto it = memo.find(e); if (it != memo.end()) return it->second;
    E r = e;
    if (e->sup->size() == 1) { if (!(e->op == EXTRACT && e->a->op == VAR)) r = simp1(s, e); }
    else {
        E a = e->a ? simpDom(s, e->a, memo) : nullptr, b = e->b ? simpDom(s, e->b, memo) : nullptr, d = e->d ? simpDom(s, e->d, memo) : nullptr;
        if (a != e->a || b != e->b || d != e->d) switch (e->op) {
            case EXTRACT: r = mkExtract(a, (unsigned)e->c, e->w); break; case CONCAT: r = mkConcat(a, b); break; case ZEXT: r = mkZext(a, e->w); break; case SEXT: r = mkSext(a, e->w); break;
            case NOT: r = mkNot(a); break; case ITE: r = mkIte(a, b, d); break; case FPEXT: case FPTRUNC: case SITOFP: case UITOFP: case FPTOSI: case FPTOUI: case FNEG: r = mkCast(e->op, a, e->w); break;
            default: r = mkBin(e->op, a, b); }
        if (r->op == ADD && r->sup->size() > 1) r = joinSum(s, r);
    }
    memo[e] = r; return r;
}
struct QRes { int r; std::vector<std::pair<uint32_t, uint8_t>> m; };
static std::unordered_map<uint64_t, std::vector<std::pair<std::vector<uint32_t>, QRes>>> g_qcache;
// may c (width 1) be true?  On success fills assignments changing the model so that it is.
static int mayBe(State &s, E c, std::vector<std::pair<uint32_t, uint8_t>> &out) {
    if (isK(c)) return (int)c->c;
    if (evalE(c, s.model.data())) { g_st.model_hits++; return 1; }
    if (c->sup->size() == 1) {
        uint32_t v = (*c->sup)[0]; Set256 t = inter(g_dom.sets[s.dom[v]], trueSet(c));
        if (isEmptySet(t)) { g_st.dom_queries++; return 0; }
        if (!s.inmulti[v]) { g_st.dom_queries++; out.push_back({v, (uint8_t)firstIn(t)}); return 1; }
    }
    for (E x : s.multi) if (x == mkNot(c)) return 0; else if (x == c) break;
    if (c->sup->size() > 1) {
        std::unordered_map<E, E> memo; E x = simpDom(s, c, memo);
        if (x != c) { if (isK(x)) { g_st.dom_queries++; if (!x->c) return 0; } else if (x->sup->size() <= c->sup->size() && !evalE(x, s.model.data())) { if (x->sup->size() == 1) return mayBe(s, x, out); c = x; } }
    }
    if (now() - g_t0 > O_time) { g_incomplete = true; throw PathEnd(); }
    // slice
    std::vector<uint8_t> in(s.model.size(), 0); std::vector<uint32_t> vars; for (auto v : *c->sup) { in[v] = 1; vars.push_back(v); }
    std::vector<E> es{c}; std::vector<uint8_t> used(s.multi.size(), 0), useddef(s.defs.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < s.multi.size(); ++i) if (!used[i]) { bool hit = false; for (auto v : *s.multi[i]->sup) if (in[v]) { hit = true; break; } if (hit) { used[i] = 1; ch = true; es.push_back(s.multi[i]); for (auto v : *s.multi[i]->sup) if (!in[v]) { in[v] = 1; vars.push_back(v); } } }
        for (size_t i = 0; i < s.defs.size(); ++i) if (!useddef[i]) { Def &d = s.defs[i]; bool hit = false; for (auto v : d.dv) if (in[v]) hit = true; if (d.active && !hit) for (auto v : *d.x->sup) if (in[v]) { hit = true; break; } if (hit) { useddef[i] = 1; ch = true; es.push_back(d.eq); for (auto v : *d.eq->sup) if (!in[v]) { in[v] = 1; vars.push_back(v); } } } }
    for (auto v : vars) if (s.dom[v]) es.push_back(domExpr(v, s.dom[v]));
    std::sort(vars.begin(), vars.end());
    std::vector<uint32_t> key; for (E e : es) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    uint64_t h = 14695981039346656037ull; for (auto x : key) h = (h ^ x) * 1099511628211ull;
    for (auto &p : g_qcache[h]) if (p.first == key) { g_st.cache_hits++; out = p.second.m; return p.second.r; }
    QRes q; q.r = g_z3.check(es, vars, q.m); g_qcache[h].push_back({key, q}); out = q.m;
    if (q.r == 1) { // sanity: the model really satisfies the query
        std::vector<uint8_t> m = s.model; for (auto &p : q.m) m[p.first] = p.second;
        for (E e : es) if (!evalE(e, m.data())) { g_unsup["solver model does not satisfy the query (encoding mismatch)"]++; return -1; }
    }
    return q.r;
}
static void applyM(State &s, const std::vector<std::pair<uint32_t, uint8_t>> &m) {
    for (auto &p : m) s.model[p.first] = p.second;
    for (auto &d : s.defs) { uint64_t v = evalE(d.x, s.model.data()); for (size_t i = d.dv.size(); i-- > 0; v /= 10) s.model[d.dv[i]] = (uint8_t)('0' + v % 10); }
}
static State *forkState(State &s) { g_forks++; s.forks++; return new State(s); }
// decide c now; the sibling with the other value re-executes the current instruction
static bool decide(State &s, E c) {
    if (isK(c)) return c->c;
    bool v = evalE(c, s.model.data()); E o = v ? mkNot(c) : c; std::vector<std::pair<uint32_t, uint8_t>> m; int r = mayBe(s, o, m);
    if (r < 0) { g_unsup["solver timeout"]++; g_incomplete = true; }
    if (r == 1) { State *n = forkState(s); applyM(*n, m); addC(*n, o); g_work.push_back(n); addC(s, mkNot(o)); }
    return v;
}
static uint64_t concretize(State &s, const V &v, unsigned w) { if (!v.e) return v.c; uint64_t k = evalE(v.e, s.model.data()); decide(s, mkBin(EQ, v.e, K(k, w))); return k; }

// ------------------------------------------------------------------------------------------------ memory access
static uint32_t allocObj(State &s, uint32_t size, uint32_t flags, int fill) {
    uint32_t id = s.nextobj++; Obj *o = Obj::make(size, flags | (s.frozen && s.once && !(flags & OF_STACK) ? OF_SHARED : 0)); if (fill >= 0) memset(o->d, fill, size); s.mem.set(id, o); s.bytes += size;
    if (s.bytes > O_maxmem) fault(s, "memory", "path allocates more than the memory bound"); return id;
}
static void badAccess(State &s, uint64_t a, uint64_t n, bool wr, const Obj *o) {
    char b[200];
    if (a < 0x100000000ull) { snprintf(b, sizeof b, "null or wild pointer %s", wr ? "write" : "read"); fault(s, "null", b); }
    if (!o) { snprintf(b, sizeof b, "wild pointer %s", wr ? "write" : "read"); fault(s, "wild", b); }
    if (o->flags & OF_DEAD) { snprintf(b, sizeof b, "%s after %s", wr ? "write" : "read", o->flags & OF_HEAP ? "free" : "end of scope"); fault(s, "uaf", b); }
    if (wr && (o->flags & OF_CONST) && (a & 0xffffffff) - OFFB + n <= o->size) fault(s, "constwrite", "write to constant memory");
    snprintf(b, sizeof b, "out-of-bounds %s", wr ? "write" : "read"); fault(s, "oob", b);
}
static const Obj *robj(State &s, uint64_t a, uint64_t n, uint32_t &off) {
    const Obj *o = s.mem.get((uint32_t)(a >> 32)); uint64_t x = (a & 0xffffffffull) - OFFB;
    if (!o || (o->flags & OF_DEAD) || x > o->size || n > o->size - x) badAccess(s, a, n, false, o);
    off = (uint32_t)x; return o;
}
// between sx_freeze(1) and sx_freeze(0) another thread may be doing the same: everything made before is shared, and so is what initialisers of statics make
static void shared(State &s, uint32_t id, const Obj *o) {
    g_checks++; g_checkmsg["stores go to storage of the thread's own"].first++; if (s.once || s.atomic || (o->flags & OF_OWN) || (id >= s.frozen && !(o->flags & OF_SHARED))) return;
    auto it = g_gname.find((uint64_t)id << 32 | OFFB); fault(s, "race", "writes storage shared between threads" + (it == g_gname.end() ? std::string() : " (" + it->second + ")"));
}
static Obj *wobj(State &s, uint64_t a, uint64_t n, uint32_t &off) {
    const Obj *o = s.mem.get((uint32_t)(a >> 32)); uint64_t x = (a & 0xffffffffull) - OFFB;
    if (!o || (o->flags & (OF_DEAD | OF_CONST)) || x > o->size || n > o->size - x) badAccess(s, a, n, true, o);
    if (s.frozen) shared(s, (uint32_t)(a >> 32), o);
    off = (uint32_t)x; return s.mem.w((uint32_t)(a >> 32));
}
static V loadObj(const Obj *o, uint32_t off, unsigned w) {
    unsigned n = (w + 7) / 8;
    bool sym = false; if (o->nsym) for (unsigned i = 0; i < n; ++i) if (o->s[off + i]) { sym = true; break; }
    if (!sym) { uint64_t v = 0; memcpy(&v, o->d + off, n); return CV(v & mask(w)); }
    E e = o->byteE(off); for (unsigned i = 1; i < n; ++i) e = mkConcat(o->byteE(off + i), e);
    if (w != n * 8) e = mkExtract(e, 0, w);
    return mkV(e);
}
static V loadC(State &s, uint64_t a, unsigned w) { uint32_t off; const Obj *o = robj(s, a, (w + 7) / 8, off); return loadObj(o, off, w); }
static V loadV(State &s, const V &a, unsigned w) {
    if (!a.e) return loadC(s, a.c, w);
    uint64_t a0 = evalE(a.e, s.model.data()); uint32_t id = (uint32_t)(a0 >> 32); const Obj *o = s.mem.get(id); unsigned n = (w + 7) / 8;
    if (!o || (o->flags & OF_DEAD) || n > o->size) { a0 = concretize(s, a, 64); badAccess(s, a0, n, false, o); }
    uint64_t lo = addrOf(id), hi = lo + o->size - n; E inb = mkBin(AND, mkBin(ULE, K(lo, 64), a.e), mkBin(ULE, a.e, K(hi, 64)));
    if (!decide(s, inb)) badAccess(s, a0, n, false, o);
    if (o->size > 4096) { uint64_t c = concretize(s, a, 64); return loadC(s, c, w); }
    std::vector<uint64_t> offs;
    if (a.e->sup->size() == 1) { uint32_t v = (*a.e->sup)[0]; std::set<uint64_t> os; std::vector<uint8_t> m = s.model; const Set256 d = g_dom.sets[s.dom[v]]; for (int i = 0; i < 256; ++i) if (hasIn(d, i)) { m[v] = (uint8_t)i; uint64_t y = evalE(a.e, m.data()) - lo; if (y <= o->size - n) os.insert(y); } offs.assign(os.begin(), os.end()); }
    else for (uint64_t y = 0; y + n <= o->size; ++y) offs.push_back(y);
    E r = nullptr;
    for (size_t i = offs.size(); i-- > 0;) { E val = toE(loadObj(o, (uint32_t)offs[i], w), w); r = r ? mkIte(mkBin(EQ, a.e, K(lo + offs[i], 64)), val, r) : val; }
    return mkV(r);
}
static void storeObj(Obj *o, uint32_t off, const V &v, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!v.e) { uint64_t c = v.c & mask(w); memcpy(o->d + off, &c, n); if (o->nsym) for (unsigned i = 0; i < n; ++i) o->clrSym(off + i); return; }
    E e = w == n * 8 ? v.e : mkZext(v.e, n * 8);
    for (unsigned i = 0; i < n; ++i) { E b = mkExtract(e, i * 8, 8); if (isK(b)) { o->d[off + i] = (uint8_t)b->c; o->clrSym(off + i); } else o->setSym(off + i, b); }
}
static void storeC(State &s, uint64_t a, const V &v, unsigned w) { uint32_t off; Obj *o = wobj(s, a, (w + 7) / 8, off); storeObj(o, off, v, w); }
static void storeV(State &s, const V &a, const V &v, unsigned w) { uint64_t c = concretize(s, a, 64); storeC(s, c, v, w); }
static void copyMem(State &s, uint64_t d, uint64_t src, uint64_t n) {
    if (!n) return; uint32_t so, dof; const Obj *a = robj(s, src, n, so); std::vector<uint8_t> tmp(a->d + so, a->d + so + n); std::vector<E> ts; if (a->nsym) ts.assign(a->s + so, a->s + so + n);
    Obj *b = wobj(s, d, n, dof); memcpy(b->d + dof, tmp.data(), n);
    if (!ts.empty() || b->nsym) for (uint64_t i = 0; i < n; ++i) { E e = ts.empty() ? nullptr : ts[i]; if (e) b->setSym(dof + (uint32_t)i, e); else b->clrSym(dof + (uint32_t)i); }
}
static std::string readStr(State &s, uint64_t a, bool lax = false) { std::string r; for (;; ++a) { V v = loadC(s, a, 8); if (v.e) { if (!lax) unsupported(s, "symbolic C string for the engine"); r += (char)63; } else { if (!v.c) break; r += (char)v.c; } if (r.size() > 4096) break; } return r; }

#include "exec.h"
#include "run.h"
