// Instruction semantics, calls, exceptions, builtins.
#pragma once

static inline V getV(State &s, const Frame &f, const Opnd &o, unsigned k = 0) {
    if (o.kind == OPK_REG) return s.regs[f.base + o.idx + k];
    if (o.kind == OPK_CONST) return CV(o.c);
    return CV(g_aggs[o.idx][k]);
}
static void setReg(State &s, int dst, const V &v) { if (dst >= 0) s.regs[s.fr.back().base + dst] = v; }
static const Ins &curIns(State &s) { Frame &f = s.fr.back(); return f.f->bl[f.blk].ins[f.ip]; }
static void jumpTo(State &s, uint32_t dest) {
    Frame &f = s.fr.back(); Block &B = f.f->bl[dest]; uint32_t from = f.blk;
    if (!B.phis.empty()) {
        static std::vector<V> tmp; tmp.clear();
        for (auto &p : B.phis) for (auto &in : p.in) if (in.first == from) { for (unsigned k = 0; k < p.nsl; ++k) tmp.push_back(getV(s, f, in.second, k)); break; }
        size_t t = 0; for (auto &p : B.phis) for (unsigned k = 0; k < p.nsl; ++k) s.regs[f.base + p.dst + k] = tmp[t++];
    }
    f.blk = dest; f.ip = 0;
}
static void advance(State &s) { const Ins &I = curIns(s); if (I.invoke) jumpTo(s, I.succ[0]); else s.fr.back().ip++; }
static void pushFrame(State &s, Func *f, const std::vector<V> &args, const Ins *call) {
    if (!f->lowered) lower(f);
    f->used = true; if (s.fr.size() > 4000) fault(s, "stack", "call depth exceeds the bound");
    uint32_t base = (uint32_t)s.regs.size(); s.regs.resize(base + f->nslots, CV(0)); size_t a = 0;
    for (size_t i = 0; i < f->argslot.size(); ++i) for (unsigned k = 0; k < f->argn[i] && a < args.size(); ++k) s.regs[base + f->argslot[i] + k] = args[a++];
    s.fr.push_back(Frame{f, 0, 0, base, call, {}});
}
static void popFrame(State &s) { Frame &f = s.fr.back(); for (auto id : f.allocas) { s.bytes -= s.mem.get(id)->size; s.mem.set(id, &g_deadStack); } s.regs.resize(f.base); s.fr.pop_back(); }

// exceptions -----------------------------------------------------------------
static bool tiMatches(State &s, uint64_t thrown, uint64_t want, int depth = 0) {
    if (thrown == want) return true; if (depth > 8) return false;
    const Obj *o = s.mem.get((uint32_t)(thrown >> 32)); if (!o || o->size < 16) return false;
    uint64_t vp = loadC(s, thrown, 64).c; auto it = g_gname.find(vp & ~0xffffffffull | OFFB); if (it == g_gname.end()) return false;
    if (it->second == "_ZTVN10__cxxabiv120__si_class_type_infoE") return tiMatches(s, loadC(s, thrown + 16, 64).c, want, depth + 1);
    if (it->second == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") { uint64_t n = loadC(s, thrown + 20, 32).c; for (uint64_t i = 0; i < n; ++i) if (tiMatches(s, loadC(s, thrown + 24 + 16 * i, 64).c, want, depth + 1)) return true; }
    return false;
}
static void unwind(State &s, uint64_t obj) {
    uint64_t ti = 0; for (auto &e : s.exc) if (e.obj == obj) ti = e.ti;
    while (!s.fr.empty()) {
        Frame &f = s.fr.back(); const Ins &I = f.f->bl[f.blk].ins[f.ip];
        if (I.invoke) {
            const Ins &L = f.f->bl[I.succ[1]].ins[0]; bool land = L.sub; uint64_t sel = 0;
            for (auto c : L.k) { if (c == 0 || (c != ~0ull && tiMatches(s, ti, c))) { land = true; sel = c == 0 ? 1 : c >> 32; break; } }
            if (land) { jumpTo(s, I.succ[1]); s.regs[s.fr.back().base + L.dst] = CV(obj); s.regs[s.fr.back().base + L.dst + 1] = CV(sel); s.fr.back().ip = 1; return; }
        }
        if (s.fr.size() == 1) break;
        popFrame(s);
    }
    auto n = g_gname.find(ti); fault(s, "uncaught", "exception " + (n == g_gname.end() ? std::string("?") : n->second) + " left the program");
}

// builtins --------------------------------------------------------------------
typedef std::vector<V> Args;
typedef bool (*BI)(State &, const Ins &, Args &); // false: control was transferred
static std::map<std::string, BI> g_bi; static std::vector<BI> g_bitab;
static void ret(State &s, const Ins &I, const V &v) { if (I.dst >= 0) setReg(s, I.dst, v); }
static E boolE(const V &v, unsigned w) { return v.e ? mkNot(mkBin(EQ, v.e, K(0, w))) : K((v.c & mask(w)) != 0, 1); }

static bool bi_new(State &s, const Ins &I, Args &a) { uint64_t n = concretize(s, a[0], 64); if (n > O_maxalloc) fault(s, "alloc", "allocation of an excessive size"); ret(s, I, CV(addrOf(allocObj(s, (uint32_t)n, OF_HEAP, 0xAA)))); return true; }
static bool bi_delete(State &s, const Ins &, Args &a) {
    uint64_t p = concretize(s, a[0], 64); if (!p) return true; uint32_t id = (uint32_t)(p >> 32); const Obj *o = s.mem.get(id);
    if (!o || !(o->flags & OF_HEAP)) fault(s, "badfree", "free of memory that was not allocated"); if (o->flags & OF_DEAD) fault(s, "doublefree", "double free");
    if ((p & 0xffffffff) != OFFB) fault(s, "badfree", "free of an interior pointer"); if (s.frozen) shared(s, id, o); s.bytes -= o->size; s.mem.set(id, &g_deadHeap); return true;
}
static bool bi_memcpy(State &s, const Ins &I, Args &a) { uint64_t n = concretize(s, a[2], 64), d = concretize(s, a[0], 64), r = concretize(s, a[1], 64); copyMem(s, d, r, n); ret(s, I, CV(d)); return true; }
static bool bi_memset(State &s, const Ins &I, Args &a) {
    uint64_t n = concretize(s, a[2], 64), d = concretize(s, a[0], 64); if (n) { uint32_t off; Obj *o = wobj(s, d, n, off);
        V v = a[1].e ? mkV(mkExtract(a[1].e, 0, 8)) : CV(a[1].c & 255); for (uint64_t i = 0; i < n; ++i) storeObj(o, off + (uint32_t)i, v, 8); }
    ret(s, I, CV(d)); return true;
}
static V cmpMem(State &s, const V &pa, const V &pb, const V &pn, bool eqonly) {
    uint64_t n = concretize(s, pn, 64), a = concretize(s, pa, 64), b = concretize(s, pb, 64); if (!n) return CV(0);
    uint32_t oa, ob; const Obj *x = robj(s, a, n, oa), *y = robj(s, b, n, ob); E r = K(0, 32); bool first = true;
    if (eqonly) { E eq = K(1, 1); for (uint64_t i = 0; i < n; ++i) { eq = mkBin(AND, eq, mkBin(EQ, x->byteE(oa + (uint32_t)i), y->byteE(ob + (uint32_t)i))); if (isK(eq, 0)) break; } return mkV(mkZext(mkNot(eq), 32)); }
    uint64_t m = n; for (uint64_t i = 0; i < n; ++i) { E p = x->byteE(oa + (uint32_t)i), q = y->byteE(ob + (uint32_t)i); if (isK(p) && isK(q) && p != q) { m = i + 1; break; } }
    for (uint64_t i = m; i-- > 0;) { E p = x->byteE(oa + (uint32_t)i), q = y->byteE(ob + (uint32_t)i); E d = mkIte(mkBin(ULT, p, q), K(~0ull, 32), K(1, 32)); r = mkIte(mkBin(EQ, p, q), r, d); (void)first; }
    return mkV(r);
}
static bool bi_memcmp(State &s, const Ins &I, Args &a) { ret(s, I, cmpMem(s, a[0], a[1], a[2], false)); return true; }
static bool bi_bcmp(State &s, const Ins &I, Args &a) { ret(s, I, cmpMem(s, a[0], a[1], a[2], true)); return true; }
static bool bi_strlen(State &s, const Ins &I, Args &a) {
    uint64_t p = concretize(s, a[0], 64), n = 0; for (;; ++n) { V v = loadC(s, p + n, 8); if (!v.e) { if (!v.c) break; } else if (decide(s, mkBin(EQ, v.e, K(0, 8)))) break; } ret(s, I, CV(n)); return true;
}
static bool bi_memchr(State &s, const Ins &I, Args &a) {
    uint64_t p = concretize(s, a[0], 64), n = concretize(s, a[2], 64), r = 0; E c = a[1].e ? mkExtract(a[1].e, 0, 8) : K(a[1].c, 8);
    for (uint64_t i = 0; i < n; ++i) { V v = loadC(s, p + i, 8); if (decide(s, mkBin(EQ, toE(v, 8), c))) { r = p + i; break; } } ret(s, I, CV(r)); return true;
}
static bool bi_nop(State &s, const Ins &I, Args &) { ret(s, I, CV(0)); return true; }
static bool bi_one(State &s, const Ins &I, Args &) { ret(s, I, CV(1)); return true; }
static bool bi_trap(State &s, const Ins &, Args &a) { fault(s, "ubtrap", "undefined behaviour trap " + (a.empty() ? std::string("") : std::to_string(a[0].c))); }
static bool bi_abort(State &s, const Ins &I, Args &) { fault(s, "abort", "program aborts (" + (I.callee ? I.callee->name : std::string("?")) + ")"); }
static bool bi_alloc_exc(State &s, const Ins &I, Args &a) { ret(s, I, CV(addrOf(allocObj(s, (uint32_t)a[0].c, OF_HEAP, 0)))); return true; }
static bool bi_throw(State &s, const Ins &, Args &a) { ExcInfo e; e.obj = a[0].c; e.ti = a[1].c; e.dtor = a[2].c; s.exc.push_back(e); s.uncaught++; unwind(s, e.obj); return false; }
static bool bi_begin_catch(State &s, const Ins &I, Args &a) { for (auto &e : s.exc) if (e.obj == a[0].c) { e.handlers++; e.rethrown = false; } s.caught.push_back(a[0].c); s.uncaught--; ret(s, I, a[0]); return true; }
static bool bi_end_catch(State &s, const Ins &I, Args &) {
    if (s.caught.empty()) return true; uint64_t o = s.caught.back(); s.caught.pop_back();
    for (size_t i = 0; i < s.exc.size(); ++i) if (s.exc[i].obj == o) {
        if (--s.exc[i].handlers == 0 && !s.exc[i].rethrown) { uint64_t d = s.exc[i].dtor; s.exc.erase(s.exc.begin() + (long)i);
            if (d) { Func *f = g_funcs[(uint32_t)(d >> 32) - FUNC0]; if (f->redirect) f = f->redirect; if (f->defined) { pushFrame(s, f, {CV(o)}, &I); return false; } } }
        break; }
    return true;
}
static bool bi_rethrow(State &s, const Ins &, Args &) { if (s.caught.empty()) fault(s, "abort", "rethrow without exception"); uint64_t o = s.caught.back(); for (auto &e : s.exc) if (e.obj == o) e.rethrown = true; s.uncaught++; unwind(s, o); return false; }
static bool bi_typeid(State &s, const Ins &I, Args &a) { ret(s, I, CV(a[0].c >> 32)); return true; }
static bool bi_get_exc(State &s, const Ins &I, Args &a) { ret(s, I, a[0]); return true; }
static bool bi_uncaught(State &s, const Ins &I, Args &) { ret(s, I, CV((uint64_t)s.uncaught)); return true; }
static bool bi_guard_acq(State &s, const Ins &I, Args &a) { V v = loadC(s, a[0].c, 8); if (!v.c) s.once++; ret(s, I, CV(v.c ? 0 : 1)); return true; }
static bool bi_guard_rel(State &s, const Ins &, Args &a) { storeC(s, a[0].c, CV(1), 8); s.once--; return true; }
static bool bi_guard_abort(State &s, const Ins &, Args &) { s.once--; return true; }
static bool bi_freeze(State &s, const Ins &, Args &a) { s.frozen = a[0].c ? s.nextobj : 0; return true; }
static bool bi_lock(State &s, const Ins &I, Args &) { s.once++; ret(s, I, CV(0)); return true; }
static bool bi_unlock(State &s, const Ins &I, Args &) { if (s.once) s.once--; ret(s, I, CV(0)); return true; }

template <class F> static bool bin(State &s, const Ins &I, Args &a, F f) { ret(s, I, mkV(f(toE(a[0], I.w), toE(a[1], I.w), I.w))); return true; }
static bool bi_umin(State &s, const Ins &I, Args &a) { return bin(s, I, a, [](E x, E y, unsigned) { return mkIte(mkBin(ULT, x, y), x, y); }); }
static bool bi_umax(State &s, const Ins &I, Args &a) { return bin(s, I, a, [](E x, E y, unsigned) { return mkIte(mkBin(ULT, y, x), x, y); }); }
static bool bi_smin(State &s, const Ins &I, Args &a) { return bin(s, I, a, [](E x, E y, unsigned) { return mkIte(mkBin(SLT, x, y), x, y); }); }
static bool bi_smax(State &s, const Ins &I, Args &a) { return bin(s, I, a, [](E x, E y, unsigned) { return mkIte(mkBin(SLT, y, x), x, y); }); }
static bool bi_usubsat(State &s, const Ins &I, Args &a) { return bin(s, I, a, [](E x, E y, unsigned w) { return mkIte(mkBin(ULT, x, y), K(0, w), mkBin(SUB, x, y)); }); }
static bool bi_uaddsat(State &s, const Ins &I, Args &a) { return bin(s, I, a, [](E x, E y, unsigned w) { E r = mkBin(ADD, x, y); return mkIte(mkBin(ULT, r, x), K(~0ull, w), r); }); }
static bool bi_abs(State &s, const Ins &I, Args &a) { E x = toE(a[0], I.w); ret(s, I, mkV(mkIte(mkBin(SLT, x, K(0, I.w)), mkBin(SUB, K(0, I.w), x), x))); return true; }
static bool bi_fabs(State &s, const Ins &I, Args &a) { E x = toE(a[0], I.w); ret(s, I, mkV(mkBin(AND, x, K(mask(I.w) >> 1, I.w)))); return true; }
static bool bi_expect(State &s, const Ins &I, Args &a) { ret(s, I, a[0]); return true; }
static bool bi_objsize(State &s, const Ins &I, Args &) { ret(s, I, CV(mask(I.w))); return true; }
static bool bi_fsh(State &s, const Ins &I, Args &a, bool left) {
    unsigned w = I.w; if (a[2].e) unsupported(s, "symbolic funnel shift"); unsigned k = (unsigned)(a[2].c % w); E x = toE(a[0], w), y = toE(a[1], w); E r;
    if (left) r = k == 0 ? x : mkBin(OR, mkBin(SHL, x, K(k, w)), mkBin(LSHR, y, K(w - k, w))); else r = k == 0 ? y : mkBin(OR, mkBin(SHL, x, K(w - k, w)), mkBin(LSHR, y, K(k, w)));
    ret(s, I, mkV(r)); return true;
}
static bool bi_fshl(State &s, const Ins &I, Args &a) { return bi_fsh(s, I, a, true); }
static bool bi_fshr(State &s, const Ins &I, Args &a) { return bi_fsh(s, I, a, false); }
static bool bi_bswap(State &s, const Ins &I, Args &a) { E x = toE(a[0], I.w), r = mkExtract(x, 0, 8); for (unsigned i = 8; i < I.w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); ret(s, I, mkV(r)); return true; }
static bool bi_ctpop(State &s, const Ins &I, Args &a) { E x = toE(a[0], I.w), r = K(0, I.w); for (unsigned i = 0; i < I.w; ++i) r = mkBin(ADD, r, mkZext(mkExtract(x, i, 1), I.w)); ret(s, I, mkV(r)); return true; }
static bool bi_ctlz(State &s, const Ins &I, Args &a) { E x = toE(a[0], I.w), r = K(I.w, I.w); for (unsigned i = 0; i < I.w; ++i) r = mkIte(mkExtract(x, i, 1), K(I.w - 1 - i, I.w), r); ret(s, I, mkV(r)); return true; }
static bool bi_cttz(State &s, const Ins &I, Args &a) { E x = toE(a[0], I.w), r = K(I.w, I.w); for (unsigned i = I.w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), K(i, I.w), r); ret(s, I, mkV(r)); return true; }
static bool ovf(State &s, const Ins &I, Args &a, Op op, bool sg) {
    unsigned w = (unsigned)I.ow[0]; E x = toE(a[0], w), y = toE(a[1], w), r = mkBin(op, x, y), o;
    if (op == MUL) {
        if (isK(x) && isK(y)) { bool ov; uint64_t z; if (sg) { int64_t q; ov = __builtin_mul_overflow(sx(x->c, w), sx(y->c, w), &q); ov = ov || sx((uint64_t)q, w) != q; } else { ov = __builtin_mul_overflow(x->c, y->c, &z); ov = ov || z != (z & mask(w)); } o = K(ov, 1); }
        else if (w <= 32) { Op c = sg ? SEXT : ZEXT; E p = mkBin(MUL, mkCast(c, x, 2 * w), mkCast(c, y, 2 * w)); o = mkNot(mkBin(EQ, p, mkCast(c, r, 2 * w))); }
        else if (!sg && (isK(y) || isK(x))) { if (isK(x)) std::swap(x, y); o = y->c == 0 ? K(0, 1) : mkBin(ULT, K(mask(w) / y->c, w), x); }
        else if (sg && (isK(y) || isK(x))) { if (isK(x)) std::swap(x, y); int64_t k = (int64_t)y->c; if (k == 0 || k == 1) o = K(0, 1); else if (k == -1) o = mkBin(EQ, x, K(1ull << 63, 64)); else { int64_t lo = k > 0 ? INT64_MIN / k : INT64_MAX / k, hi = k > 0 ? INT64_MAX / k : INT64_MIN / k; o = mkBin(OR, mkBin(SLT, x, K((uint64_t)lo, 64)), mkBin(SLT, K((uint64_t)hi, 64), x)); } }
        else unsupported(s, "64-bit symbolic multiplication overflow");
    } else if (!sg) o = op == ADD ? mkBin(ULT, r, x) : mkBin(ULT, x, y);
    else { E sx_ = mkExtract(x, w - 1, 1), sy = mkExtract(y, w - 1, 1), sr = mkExtract(r, w - 1, 1); E same = mkBin(EQ, sx_, sy); if (op == SUB) same = mkNot(same); o = mkBin(AND, same, mkNot(mkBin(EQ, sx_, sr))); }
    s.regs[s.fr.back().base + I.dst] = mkV(r); s.regs[s.fr.back().base + I.dst + 1] = mkV(o); return true;
}
static bool bi_uaddo(State &s, const Ins &I, Args &a) { return ovf(s, I, a, ADD, false); } static bool bi_saddo(State &s, const Ins &I, Args &a) { return ovf(s, I, a, ADD, true); }
static bool bi_usubo(State &s, const Ins &I, Args &a) { return ovf(s, I, a, SUB, false); } static bool bi_ssubo(State &s, const Ins &I, Args &a) { return ovf(s, I, a, SUB, true); }
static bool bi_umulo(State &s, const Ins &I, Args &a) { return ovf(s, I, a, MUL, false); } static bool bi_smulo(State &s, const Ins &I, Args &a) { return ovf(s, I, a, MUL, true); }

// harness interface -----------------------------------------------------------
static bool sxb_bytes(State &s, const Ins &, Args &a) {
    uint64_t p = a[0].c, n = concretize(s, a[1], 64); InputRec r; r.name = readStr(s, a[2].c); r.isvar = true; r.val = 0;
    if (n) { uint32_t off; Obj *o = wobj(s, p, n, off); for (uint64_t i = 0; i < n; ++i) { uint32_t v = newVar(s, (uint8_t)('a' + i % 26)); r.vars.push_back(v); o->setSym(off + (uint32_t)i, mkVar(v)); } }
    s.inputs.push_back(r); return true;
}
static bool sxb_choose(State &s, const Ins &I, Args &a) {
    uint64_t n = a[0].c; std::string nm = readStr(s, a[1].c); if (n == 0) throw PathEnd();
    for (uint64_t k = n; k-- > 1;) { State *t = forkState(s); t->inputs.push_back(InputRec{nm, {}, k, false}); ret(*t, I, CV(k)); advance(*t); g_work.push_back(t); }
    s.inputs.push_back(InputRec{nm, {}, 0, false}); ret(s, I, CV(0)); return true;
}
static void assumeC(State &s, E c) {
    std::vector<std::pair<uint32_t, uint8_t>> m; int r = mayBe(s, c, m);
    if (r < 0) { g_unsup["solver timeout in assume"]++; g_incomplete = true; throw PathEnd(); }
    if (r == 0) { g_pruned++; throw PathEnd(); }
    applyM(s, m); addC(s, c);
}
static bool sxb_assume(State &s, const Ins &I, Args &a) { E c = boolE(a[0], I.ow[0]); if (isK(c)) { if (!c->c) { g_pruned++; throw PathEnd(); } return true; } assumeC(s, c); return true; }
static bool hasInexact(State &s); static bool probe(State &s, E notc, std::vector<std::pair<uint32_t, uint8_t>> &m);
static bool sxb_check(State &s, const Ins &I, Args &a) {
    E c = boolE(a[0], I.ow[0]); std::string msg = readStr(s, a[1].c); g_checks++; auto &cm = g_checkmsg[msg]; cm.first++;
    if (isK(c)) { if (!c->c) { violation(s, "check", msg); throw PathEnd(); } return true; }
    g_checksym++; cm.second++;
    // a conjunction is decided conjunct by conjunct
    std::vector<E> todo{c}; E bad = nullptr; std::vector<std::pair<uint32_t, uint8_t>> m; int r = 0;
    while (!todo.empty()) {
        E x = todo.back(); todo.pop_back(); if (x->op == AND && x->w == 1) { todo.push_back(x->b); todo.push_back(x->a); continue; }
        if (x->op == NOT && x->a->op == OR) { todo.push_back(mkNot(x->a->b)); todo.push_back(mkNot(x->a->a)); continue; }
        m.clear(); int q = mayBe(s, mkNot(x), m); if (q == 1) { r = 1; bad = x; break; } if (q < 0) r = -1;
    }
    if (bad) c = bad;
    if (r < 0) { g_unsup["solver timeout in check: " + msg]++; g_incomplete = true; }
    if (r == 1 && hasInexact(s) && !probe(s, mkNot(c), m)) { g_unsup["no number exhibits: " + msg]++; assumeC(s, c); return true; }
    if (r == 1) { auto save = s.model; applyM(s, m); violation(s, "check", msg); s.model = save; assumeC(s, c); }
    return true; // when !c is infeasible c is implied
}
static bool sxb_decide(State &s, const Ins &I, Args &a) { E c = boolE(a[0], I.ow[0]); ret(s, I, CV(decide(s, c) ? 1 : 0)); return true; }
static bool sxb_reach(State &s, const Ins &, Args &a) { s.reached.insert(readStr(s, a[0].c)); return true; }
static bool sxb_tag(State &s, const Ins &, Args &a) { s.tags.push_back(readStr(s, a[0].c, true)); return true; }
static bool sxb_known(State &s, const Ins &I, Args &a) { // (cond, id): the defect id applies when cond holds; ends those paths
    E c = boolE(a[0], I.ow[0]); std::string id = readStr(s, a[1].c);
    if (decide(s, c)) { g_known[id]++; Viol v; v.kind = "known"; v.msg = id; if (g_violcount["known|" + id]++ < 2) { recordInputs(s, v); g_viol.push_back(v); } throw PathEnd(); }
    return true;
}
static bool sxb_end(State &, const Ins &, Args &) { throw PathEnd{true}; }
static bool sxb_native(State &s, const Ins &I, Args &) { ret(s, I, CV(0)); return true; }
static bool sxb_issym(State &s, const Ins &I, Args &a) { ret(s, I, CV(a[0].e != nullptr)); return true; }
static bool sxb_print(State &s, const Ins &, Args &a) {
    uint64_t p = a[1].c, n = concretize(s, a[2], 64); fprintf(stderr, "[sx] %s: ", readStr(s, a[0].c).c_str());
    for (uint64_t i = 0; i < n; ++i) { V v = loadC(s, p + i, 8); if (v.e) { uint64_t x = evalE(v.e, s.model.data()); fprintf(stderr, x >= 32 && x < 127 ? "<%c>" : "<%02x>", (int)x); } else fprintf(stderr, v.c >= 32 && v.c < 127 ? "%c" : "\\x%02x", (int)v.c); }
    fprintf(stderr, "\n"); return true;
}
static E hornerSum(const std::vector<E> &dg) { E r = nullptr; for (E d : dg) { E x = mkZext(mkBin(SUB, d, K('0', 8)), 64); r = r ? mkBin(ADD, mkBin(MUL, r, K(10, 64)), x) : x; } return mkHorn(dg, r); }
static E fAbs(E x) { return mkBin(AND, x, K(mask(x->w) >> 1, x->w)); }
#include "fmt.h"

static uint64_t dbits(const V &v) { return v.c; }
#define FP1(name, expr) static bool name(State &s, const Ins &I, Args &a) { if (a[0].e) unsupported(s, "symbolic " #name); double x = fpv(a[0].c, I.w); double r = expr; ret(s, I, CV(I.w == 64 ? d2bits(r) : f2bits((float)r))); return true; }
FP1(bi_floor, std::floor(x)) FP1(bi_ceil, std::ceil(x)) FP1(bi_trunc, std::trunc(x)) FP1(bi_sqrt, std::sqrt(x))
static bool bi_fmuladd(State &s, const Ins &I, Args &a) { ret(s, I, mkV(mkBin(FADD, mkBin(FMUL, toE(a[0], I.w), toE(a[1], I.w)), toE(a[2], I.w)))); return true; }

static void initBuiltins() {
    auto &b = g_bi;
    for (auto n : {"_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) b[n] = bi_new;
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free"}) b[n] = bi_delete;
    for (auto n : {"memcpy", "memmove", "llvm.memcpy.", "llvm.memmove.", "llvm.memcpy.inline."}) b[n] = bi_memcpy;
    b["memset"] = bi_memset; b["llvm.memset."] = bi_memset; b["memcmp"] = bi_memcmp; b["bcmp"] = bi_bcmp; b["strlen"] = bi_strlen; b["memchr"] = bi_memchr;
    for (auto n : {"__cxa_atexit", "atexit", "llvm.stackrestore", "llvm.va_end", "llvm.va_end.", "__cxa_free_exception", "llvm.var.annotation", "llvm.stacksave", "llvm.stacksave.", "llvm.stackrestore."}) b[n] = bi_nop;
    b["llvm.trap"] = bi_trap; b["llvm.ubsantrap"] = bi_trap; for (auto n : {"abort", "_ZSt9terminatev", "__assert_fail", "exit", "_Exit", "__cxa_pure_virtual"}) b[n] = bi_abort;
    b["__cxa_allocate_exception"] = bi_alloc_exc; b["__cxa_throw"] = bi_throw; b["__cxa_begin_catch"] = bi_begin_catch; b["__cxa_end_catch"] = bi_end_catch; b["__cxa_rethrow"] = bi_rethrow;
    b["llvm.eh.typeid.for"] = bi_typeid; b["llvm.eh.typeid.for."] = bi_typeid; b["__cxa_get_exception_ptr"] = bi_get_exc; b["_ZSt18uncaught_exceptionv"] = bi_uncaught; b["_ZSt19uncaught_exceptionsv"] = bi_uncaught;
    b["__cxa_guard_acquire"] = bi_guard_acq; b["__cxa_guard_release"] = bi_guard_rel; b["__cxa_guard_abort"] = bi_guard_abort; b["sx_freeze"] = bi_freeze; b["pthread_mutex_lock"] = bi_lock; b["pthread_mutex_unlock"] = bi_unlock; b["__gthrw___pthread_key_create"] = bi_nop;
    b["llvm.umin."] = bi_umin; b["llvm.umax."] = bi_umax; b["llvm.smin."] = bi_smin; b["llvm.smax."] = bi_smax; b["llvm.usub.sat."] = bi_usubsat; b["llvm.uadd.sat."] = bi_uaddsat;
    b["llvm.abs."] = bi_abs; b["llvm.fabs."] = bi_fabs; b["llvm.expect."] = bi_expect; b["llvm.objectsize."] = bi_objsize; b["llvm.is.constant."] = bi_nop; b["llvm.threadlocal.address."] = bi_expect; b["llvm.launder.invariant.group."] = bi_expect;
    b["llvm.fshl."] = bi_fshl; b["llvm.fshr."] = bi_fshr; b["llvm.bswap."] = bi_bswap; b["llvm.ctpop."] = bi_ctpop; b["llvm.ctlz."] = bi_ctlz; b["llvm.cttz."] = bi_cttz;
    b["llvm.uadd.with.overflow."] = bi_uaddo; b["llvm.sadd.with.overflow."] = bi_saddo; b["llvm.usub.with.overflow."] = bi_usubo; b["llvm.ssub.with.overflow."] = bi_ssubo; b["llvm.umul.with.overflow."] = bi_umulo; b["llvm.smul.with.overflow."] = bi_smulo;
    b["llvm.floor."] = bi_floor; b["llvm.ceil."] = bi_ceil; b["llvm.trunc."] = bi_trunc; b["llvm.sqrt."] = bi_sqrt; b["llvm.fmuladd."] = bi_fmuladd;
    b["sx_bytes"] = sxb_bytes; b["sx_choose"] = sxb_choose; b["sx_assume"] = sxb_assume; b["sx_check"] = sxb_check; b["sx_reach"] = sxb_reach; b["sx_tag"] = sxb_tag; b["sx_known"] = sxb_known;
    b["sx_end"] = sxb_end; b["sx_decide"] = sxb_decide; b["sx_native"] = sxb_native; b["sx_print"] = sxb_print; b["sx_digits"] = sxb_digits; b["sx_undigits"] = sxb_undigits; b["sx_issym"] = sxb_issym;
    b["snprintf"] = bi_snprintf; b["__snprintf_chk"] = bi_snprintf_chk; b["sx_strtod"] = bi_strtod; b["sx_strtof"] = bi_strtof; b["sx_dtoa"] = bi_dtoa; b["sx_setpoint"] = bi_setpoint;
}
static BI findBuiltin(const std::string &n) {
    auto it = g_bi.find(n); if (it != g_bi.end()) return it->second;
    if (n.compare(0, 5, "llvm.") == 0) { BI best = nullptr; size_t bl = 0; for (auto &p : g_bi) if (p.first.back() == '.' && n.compare(0, p.first.size(), p.first) == 0 && p.first.size() > bl) { best = p.second; bl = p.first.size(); } return best; }
    return nullptr;
}

static void doCall(State &s, const Ins &I) {
    Frame &f = s.fr.back(); Func *c = I.callee; size_t na = I.o.size();
    if (I.sub == 1) { s.fr.back().ip++; return; } // inline asm (barriers only)
    if (!c) { --na; V t = getV(s, f, I.o[na]); uint64_t a = concretize(s, t, 64); uint32_t id = (uint32_t)(a >> 32);
        if (id < FUNC0 || id - FUNC0 >= g_funcs.size() || (a & 0xffffffff) != OFFB) fault(s, "badcall", "call through an invalid function pointer"); c = g_funcs[id - FUNC0]; }
    if (c->redirect) c = c->redirect;
    static Args args; args.clear(); Args mine;
    for (size_t i = 0; i < na; ++i) { unsigned n = I.osl[i]; for (unsigned k = 0; k < std::max(1u, n); ++k) args.push_back(getV(s, f, I.o[i], k)); }
    if (c->builtin >= 0) { for (size_t i = 0; i < na && i < args.size() && i < 64; ++i) if (args[i].e && (I.ptrmask >> i & 1)) args[i] = CV(concretize(s, args[i], 64)); mine = args; s.pendpos = 0; bool adv = g_bitab[c->builtin](s, I, mine); s.pend.clear(); s.pendpos = 0; if (adv) advance(s); return; }
    if (!c->defined) unsupported(s, "call to undefined function " + c->name);
    for (size_t q = 0; q + 1 < I.k.size(); q += 2) { uint32_t id = allocObj(s, (uint32_t)I.k[q + 1], OF_STACK, 0); s.fr.back().allocas.push_back(id); copyMem(s, addrOf(id), args[I.k[q]].c, I.k[q + 1]); args[I.k[q]] = CV(addrOf(id)); }
    pushFrame(s, c, args, &I);
}
static E cmpE(int pred, E x, E y) {
    switch (pred) {
        case LLVMIntEQ: return mkBin(EQ, x, y); case LLVMIntNE: return mkNot(mkBin(EQ, x, y));
        case LLVMIntUGT: return mkBin(ULT, y, x); case LLVMIntUGE: return mkBin(ULE, y, x); case LLVMIntULT: return mkBin(ULT, x, y); case LLVMIntULE: return mkBin(ULE, x, y);
        case LLVMIntSGT: return mkBin(SLT, y, x); case LLVMIntSGE: return mkBin(SLE, y, x); case LLVMIntSLT: return mkBin(SLT, x, y); default: return mkBin(SLE, x, y);
    }
}
// float nearest to the double x, when x is the value of a decimal printed from a float
static E truncKnown(State &s, E x) {
    for (auto &q : s.fmtd) { if (q.second == x) return q.first; if (mkBin(XOR, q.second, K(1ull << 63, 64)) == x) return mkBin(XOR, q.first, K(1ull << 31, 32)); }
    return nullptr;
}
// comparisons of floating-point values, on their bits
static E fNan(E x) { return mkBin(ULT, K(x->w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull, x->w), fAbs(x)); }
static E fUno(E x, E y) { return x == y ? fNan(x) : mkBin(OR, fNan(x), fNan(y)); }
static E fZeros(E x, E y) { return mkBin(EQ, fAbs(mkBin(OR, x, y)), K(0, x->w)); }
static E fEq(E x, E y) { if (x == y) return mkNot(fNan(x)); return mkBin(AND, mkNot(fUno(x, y)), mkBin(OR, mkBin(EQ, x, y), fZeros(x, y))); }
static E fKey(E x) { unsigned w = x->w; return mkIte(mkExtract(x, w - 1, 1), mkBin(XOR, x, K(mask(w), w)), mkBin(XOR, x, K(1ull << (w - 1), w))); }
static E fLt(E x, E y) { if (x == y) return K(0, 1); return mkBin(AND, mkNot(fUno(x, y)), mkBin(AND, mkBin(ULT, fKey(x), fKey(y)), mkNot(fZeros(x, y)))); }
static E fLe(E x, E y) { return mkBin(OR, fLt(x, y), fEq(x, y)); }
static E fcmpE(int p, E x, E y) {
    E un = fUno(x, y);
    switch (p) {
        case LLVMRealOEQ: return fEq(x, y); case LLVMRealOGT: return fLt(y, x); case LLVMRealOGE: return fLe(y, x); case LLVMRealOLT: return fLt(x, y); case LLVMRealOLE: return fLe(x, y);
        case LLVMRealONE: return mkBin(AND, mkNot(un), mkNot(fEq(x, y))); case LLVMRealORD: return mkNot(un); case LLVMRealUNO: return un;
        case LLVMRealUEQ: return mkBin(OR, un, fEq(x, y)); case LLVMRealUGT: return mkBin(OR, un, fLt(y, x)); case LLVMRealUGE: return mkBin(OR, un, fLe(y, x));
        case LLVMRealULT: return mkBin(OR, un, fLt(x, y)); case LLVMRealULE: return mkBin(OR, un, fLe(x, y)); case LLVMRealUNE: return mkNot(fEq(x, y));
        case LLVMRealPredicateTrue: return K(1, 1); default: return K(0, 1);
    }
}
static inline bool icmpC(int p, uint64_t a, uint64_t b, unsigned w) {
    switch (p) {
        case LLVMIntEQ: return a == b; case LLVMIntNE: return a != b; case LLVMIntUGT: return a > b; case LLVMIntUGE: return a >= b; case LLVMIntULT: return a < b; case LLVMIntULE: return a <= b;
        case LLVMIntSGT: return sx(a, w) > sx(b, w); case LLVMIntSGE: return sx(a, w) >= sx(b, w); case LLVMIntSLT: return sx(a, w) < sx(b, w); default: return sx(a, w) <= sx(b, w);
    }
}
static Op binOp(int op) {
    switch (op) { case LLVMAdd: return ADD; case LLVMSub: return SUB; case LLVMMul: return MUL; case LLVMUDiv: return UDIV; case LLVMSDiv: return SDIV; case LLVMURem: return UREM; case LLVMSRem: return SREM; case LLVMAnd: return AND; case LLVMOr: return OR; case LLVMXor: return XOR;
        case LLVMShl: return SHL; case LLVMLShr: return LSHR; case LLVMAShr: return ASHR; case LLVMFAdd: return FADD; case LLVMFSub: return FSUB; case LLVMFMul: return FMUL; case LLVMFDiv: return FDIV; case LLVMFRem: return FREM; default: return CONST; }
}
static void branchSym(State &s, E c, uint32_t t, uint32_t e) {
    bool v = evalE(c, s.model.data()); E o = v ? mkNot(c) : c; std::vector<std::pair<uint32_t, uint8_t>> m; int r = mayBe(s, o, m);
    if (r < 0) { g_unsup["solver timeout"]++; g_incomplete = true; }
    if (r == 1) { State *n = forkState(s); applyM(*n, m); addC(*n, o); jumpTo(*n, v ? e : t); g_work.push_back(n); addC(s, mkNot(o)); }
    jumpTo(s, v ? t : e);
}
// runs the state until its path ends (PathEnd) or the time is up
static bool runSlice(State &s, uint64_t budget) {
    while (budget--) {
        Frame &f = s.fr.back(); const Ins &I = f.f->bl[f.blk].ins[f.ip];
        if (!I.hit) { I.hit = true; if (I.line >= 0) g_lochit[I.line] = 1; }
        ++g_instr; if (++s.steps > O_maxsteps) fault(s, "nontermination", "no termination within the step bound");
        switch (I.op) {
            case LLVMRet: {
                std::vector<V> rv; for (unsigned i = 0; i < I.o.size(); ++i) for (unsigned k = 0; k < I.osl[i]; ++k) rv.push_back(getV(s, f, I.o[i], k));
                const Ins *call = f.call; popFrame(s);
                if (s.fr.empty()) return true;
                if (call) { const Ins &C = curIns(s); for (size_t k = 0; k < rv.size() && k < C.nsl && C.dst >= 0; ++k) s.regs[s.fr.back().base + C.dst + k] = rv[k]; advance(s); }
                break; }
            case LLVMBr:
                if (I.o.empty()) { jumpTo(s, I.succ[0]); break; }
                { V c = getV(s, f, I.o[0]); if (!c.e) jumpTo(s, I.succ[(c.c & 1) ? 0 : 1]); else branchSym(s, c.e, I.succ[0], I.succ[1]); }
                break;
            case LLVMSwitch: {
                V c = getV(s, f, I.o[0]); unsigned w = I.ow[0];
                if (!c.e) { uint32_t d = I.succ[0]; for (size_t i = 0; i < I.k.size(); ++i) if (I.k[i] == c.c) { d = I.succ[i + 1]; break; } jumpTo(s, d); break; }
                std::vector<std::pair<uint32_t, E>> g; E any = K(0, 1);
                for (size_t i = 0; i < I.k.size(); ++i) { E q = mkBin(EQ, c.e, K(I.k[i], w)); any = mkBin(OR, any, q); bool fnd = false; for (auto &x : g) if (x.first == I.succ[i + 1]) { x.second = mkBin(OR, x.second, q); fnd = true; } if (!fnd) g.push_back({I.succ[i + 1], q}); }
                bool fnd = false; for (auto &x : g) if (x.first == I.succ[0]) { x.second = mkBin(OR, x.second, mkNot(any)); fnd = true; } if (!fnd) g.push_back({I.succ[0], mkNot(any)});
                int cur = -1; std::vector<State *> sib; E curE = nullptr;
                for (size_t i = 0; i < g.size(); ++i) {
                    if (evalE(g[i].second, s.model.data())) { cur = (int)i; curE = g[i].second; continue; }
                    std::vector<std::pair<uint32_t, uint8_t>> m; int r = mayBe(s, g[i].second, m); if (r < 0) { g_unsup["solver timeout"]++; g_incomplete = true; }
                    if (r == 1) { State *n = forkState(s); applyM(*n, m); addC(*n, g[i].second); jumpTo(*n, g[i].first); g_work.push_back(n); sib.push_back(n); }
                }
                if (!sib.empty()) addC(s, curE);
                jumpTo(s, g[(size_t)cur].first); break; }
            case LLVMUnreachable: fault(s, "unreachable", "undefined behaviour: unreachable code executed");
            case LLVMCall: doCall(s, I); break;
            case LLVMResume: unwind(s, getV(s, f, I.o[0], 0).c); break;
            case LLVMLandingPad: f.ip++; break;
            case LLVMAlloca: { uint64_t n = concretize(s, getV(s, f, I.o[0]), 64) * I.k[0]; uint32_t id = allocObj(s, (uint32_t)n, OF_STACK, 0xAA); s.fr.back().allocas.push_back(id); setReg(s, I.dst, CV(addrOf(id))); s.fr.back().ip++; break; }
            case LLVMLoad: {
                V a = getV(s, f, I.o[0]);
                if (!I.succ.empty()) { uint64_t p = concretize(s, a, 64); for (size_t k = 0; k < I.k.size(); ++k) s.regs[f.base + I.dst + k] = loadC(s, p + I.k[k], I.succ[k]); }
                else { if (I.w == 255) unsupported(s, "load of a wide type"); V v = loadV(s, a, I.w); setReg(s, I.dst, v); }
                s.fr.back().ip++; break; }
            case LLVMStore: {
                V a = getV(s, f, I.o[1]); s.atomic = I.sub == 1;
                if (!I.succ.empty()) { uint64_t p = concretize(s, a, 64); for (size_t k = 0; k < I.k.size(); ++k) storeC(s, p + I.k[k], getV(s, f, I.o[0], (unsigned)k), I.succ[k]); }
                else { if (I.ow[0] == 255) unsupported(s, "store of a wide type"); storeV(s, a, getV(s, f, I.o[0]), I.ow[0]); }
                s.atomic = false; s.fr.back().ip++; break; }
            case LLVMGetElementPtr: {
                V b = getV(s, f, I.o[0]); uint64_t c = I.k.back(); E e = b.e; uint64_t k = b.c;
                if (!e) { for (size_t i = 1; i < I.o.size(); ++i) { V x = getV(s, f, I.o[i]); if (x.e && x.e->op == ZEXT && x.e->a->w == 1) x = CV(decide(s, x.e->a) ? 1 : 0); if (x.e) { E t = mkBin(MUL, mkSext(x.e, 64), K(I.k[i - 1], 64)); e = e ? mkBin(ADD, e, t) : t; } else k += (uint64_t)sx(x.c, I.ow[i]) * I.k[i - 1]; }
                    k += c; if (e) { V r = mkV(mkBin(ADD, e, K(k, 64))); setReg(s, I.dst, r); } else s.regs[f.base + I.dst] = CV(k); }
                else { for (size_t i = 1; i < I.o.size(); ++i) { V x = getV(s, f, I.o[i]); e = mkBin(ADD, e, mkBin(MUL, mkSext(toE(x, I.ow[i]), 64), K(I.k[i - 1], 64))); } setReg(s, I.dst, mkV(mkBin(ADD, e, K(c, 64)))); }
                f.ip++; break; }
            case LLVMICmp: { V x = getV(s, f, I.o[0]), y = getV(s, f, I.o[1]); unsigned w = I.ow[0];
                if (!x.e && !y.e) s.regs[f.base + I.dst] = CV(icmpC(I.sub, x.c, y.c, w)); else s.regs[f.base + I.dst] = mkV(settle(s, cmpE(I.sub, toE(x, w), toE(y, w)))); f.ip++; break; }
            case LLVMFCmp: { V x = getV(s, f, I.o[0]), y = getV(s, f, I.o[1]); unsigned w = I.ow[0]; if (w > 64) unsupported(s, "long double"); s.regs[f.base + I.dst] = mkV(fcmpE(I.sub, toE(x, w), toE(y, w))); f.ip++; break; }
            case LLVMSelect: {
                V c = getV(s, f, I.o[0]); bool v;
                if (c.e) c = mkV(settle(s, c.e));
                if (c.e) {
                    if (I.nsl == 1 && !I.isptr && I.w <= 64) { V x = getV(s, f, I.o[1]), y = getV(s, f, I.o[2]); s.regs[f.base + I.dst] = mkV(mkIte(c.e, toE(x, I.w), toE(y, I.w))); f.ip++; break; }
                    V x = getV(s, f, I.o[1]), y = getV(s, f, I.o[2]); if (I.nsl == 1 && !x.e && !y.e && x.c == y.c) { s.regs[f.base + I.dst] = x; f.ip++; break; }
                    v = decide(s, c.e);
                } else v = c.c & 1;
                Frame &g = s.fr.back(); for (unsigned k = 0; k < I.nsl; ++k) s.regs[g.base + I.dst + k] = getV(s, g, I.o[v ? 1 : 2], k);
                g.ip++; break; }
            case LLVMTrunc: { V x = getV(s, f, I.o[0]); if (I.ow[0] > 64) unsupported(s, "wide integer"); s.regs[f.base + I.dst] = x.e ? mkV(mkExtract(x.e, 0, I.w)) : CV(x.c & mask(I.w)); f.ip++; break; }
            case LLVMZExt: { if (I.w > 64) unsupported(s, "wide integer"); V x = getV(s, f, I.o[0]); s.regs[f.base + I.dst] = x.e ? mkV(mkZext(x.e, I.w)) : x; f.ip++; break; }
            case LLVMSExt: { if (I.w > 64) unsupported(s, "wide integer"); V x = getV(s, f, I.o[0]); s.regs[f.base + I.dst] = x.e ? mkV(mkSext(x.e, I.w)) : CV((uint64_t)sx(x.c, I.ow[0]) & mask(I.w)); f.ip++; break; }
            case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMAddrSpaceCast: case LLVMFreeze: {
                for (unsigned k = 0; k < I.nsl; ++k) { V x = getV(s, f, I.o[0], k); if (I.op == LLVMPtrToInt && I.w < 64) x = x.e ? mkV(mkExtract(x.e, 0, I.w)) : CV(x.c & mask(I.w)); s.regs[f.base + I.dst + k] = x; } f.ip++; break; }
            case LLVMFPExt: case LLVMFPTrunc: case LLVMSIToFP: case LLVMUIToFP: case LLVMFPToSI: case LLVMFPToUI: {
                if (I.w > 64 || I.ow[0] > 64) unsupported(s, "long double");
                Op o = I.op == LLVMFPExt ? FPEXT : I.op == LLVMFPTrunc ? FPTRUNC : I.op == LLVMSIToFP ? SITOFP : I.op == LLVMUIToFP ? UITOFP : I.op == LLVMFPToSI ? FPTOSI : FPTOUI; E x = toE(getV(s, f, I.o[0]), I.ow[0]), r = nullptr; if (o == FPTRUNC) r = truncKnown(s, x); s.regs[f.base + I.dst] = mkV(r ? r : mkCast(o, x, I.w)); f.ip++; break; }
            case LLVMFNeg: { if (I.w > 64) unsupported(s, "long double"); s.regs[f.base + I.dst] = mkV(mkBin(XOR, toE(getV(s, f, I.o[0]), I.w), K(1ull << (I.w - 1), I.w))); f.ip++; break; }
            case LLVMExtractValue: for (unsigned k = 0; k < I.nsl; ++k) s.regs[f.base + I.dst + k] = getV(s, f, I.o[0], (unsigned)I.sub + k); f.ip++; break;
            case LLVMInsertValue: { static std::vector<V> t; t.clear(); for (unsigned k = 0; k < I.nsl; ++k) t.push_back(getV(s, f, I.o[0], k)); for (unsigned k = 0; k < I.osl[1]; ++k) t[(unsigned)I.sub + k] = getV(s, f, I.o[1], k); for (unsigned k = 0; k < I.nsl; ++k) s.regs[f.base + I.dst + k] = t[k]; f.ip++; break; }
            case LLVMAtomicRMW: { uint64_t p = concretize(s, getV(s, f, I.o[0]), 64); V old = loadC(s, p, I.w), x = getV(s, s.fr.back(), I.o[1]); Op o = I.sub == LLVMAtomicRMWBinOpAdd ? ADD : I.sub == LLVMAtomicRMWBinOpSub ? SUB : CONST;
                V nv = I.sub == LLVMAtomicRMWBinOpXchg ? x : (o == CONST ? (unsupported(s, "atomic"), x) : mkV(mkBin(o, toE(old, I.w), toE(x, I.w)))); s.atomic = true; storeC(s, p, nv, I.w); s.atomic = false; setReg(s, I.dst, old); s.fr.back().ip++; break; }
            case LLVMFence: f.ip++; break;
            default: {
                Op o = binOp(I.op); if (o == CONST || I.w > 64 || I.nsl != 1) unsupported(s, "instruction opcode " + std::to_string(I.op));
                V x = getV(s, f, I.o[0]), y = getV(s, f, I.o[1]); unsigned w = I.w;
                if (!x.e && !y.e) {
                    if ((o == UDIV || o == SDIV || o == UREM || o == SREM) && y.c == 0) fault(s, "divzero", "division by zero");
                    s.regs[f.base + I.dst] = CV(foldBin(o, x.c, y.c, w));
                } else {
                    if (o == UDIV || o == SDIV || o == UREM || o == SREM) if (y.e && decide(s, mkBin(EQ, y.e, K(0, w)))) fault(s, "divzero", "division by zero");
                    V r = mkV(mkBin(o, toE(x, w), toE(y, w))); setReg(s, I.dst, r);
                }
                s.fr.back().ip++; break; }
        }
    }
    return false;
}
