// snprintf / strtod on symbolic data.
#pragma once
static int pick(State &s, int n) { // engine-internal nondeterministic choice; siblings re-execute the instruction
    if (s.pendpos < s.pend.size()) return s.pend[s.pendpos++];
    for (int k = n - 1; k >= 1; --k) { State *t = forkState(s); t->pend.push_back(k); g_work.push_back(t); }
    s.pend.push_back(0); s.pendpos++; return 0;
}
static std::vector<E> digitsOf(State &s, E x, unsigned n) { // x has exactly n decimal digits (already decided)
    std::vector<E> dg;
    if (isK(x)) { uint64_t v = x->c; dg.resize(n); for (unsigned i = n; i-- > 0;) { dg[i] = K('0' + v % 10, 8); v /= 10; } return dg; }
    for (auto &q : s.digs) if (q.first == x && q.second.size() == n) return q.second;
    uint64_t v = evalE(x, s.model.data()); std::vector<uint8_t> dv(n); for (unsigned i = n; i-- > 0;) { dv[i] = (uint8_t)('0' + v % 10); v /= 10; }
    for (unsigned i = 0; i < n; ++i) { uint32_t id = newVar(s, dv[i]); dg.push_back(mkVar(id)); Set256 t{}; for (int c = (n > 1 && i == 0) ? '1' : '0'; c <= (n == 20 && i == 0 ? '1' : '9'); ++c) t[c >> 6] |= 1ull << (c & 63); s.dom[id] = g_dom.get(t); }
    E sum = hornerSum(dg); s.subst.push_back({sum, x}); s.digs.push_back({x, dg}); Def df; df.x = x; df.eq = g_tab.mk(EQ, 1, 0, sum->op == HORN ? sum->a : sum, x); for (E d : dg) { df.dv.push_back((uint32_t)d->c); s.defof[d->c] = (int)s.defs.size(); s.inmulti[d->c] = 1; } s.defs.push_back(df); return dg;
}
static unsigned decideDigits(State &s, E x) { // x: 64-bit unsigned
    uint64_t p = 10; for (unsigned n = 1; n < 20; ++n) { if (decide(s, mkBin(ULT, x, K(p, 64)))) return n; if (n < 19) p *= 10; else break; } return 20;
}
static bool sxb_digits(State &s, const Ins &, Args &a) {
    uint64_t p = a[1].c; unsigned n = (unsigned)a[2].c; auto dg = digitsOf(s, toE(a[0], 64), n); uint32_t off; Obj *o = wobj(s, p, n, off);
    for (unsigned i = 0; i < n; ++i) storeObj(o, off + i, mkV(dg[i]), 8);
    return true;
}
static E sumOf(State &s, const std::vector<E> &dg) { E r = hornerSum(dg); if (!isK(r)) for (auto &q : s.subst) if (q.first == r) return q.second; return r; }
static bool sxb_undigits(State &s, const Ins &I, Args &a) {
    uint64_t p = a[0].c, n = concretize(s, a[1], 64); std::vector<E> dg; for (uint64_t i = 0; i < n; ++i) dg.push_back(toE(loadC(s, p + i, 8), 8));
    ret(s, I, n ? mkV(sumOf(s, dg)) : CV(0)); return true;
}

// probe values used only to exhibit a concrete failing number once the symbolic argument has failed
static std::vector<double> probes(unsigned w) {
    std::vector<double> p = {1e-7, 0.1, 1.0 / 3, 1e-10, 123456789.123456789, 1.0000001, 3.14159265358979, 1e300, 5e-324, 1e22, 9007199254740993.0, 1.7976931348623157e308, 0.1 + 0.2, 100.1, 1e21, 2.5e-5, 16777217.0, 4.35, 0.000123456789, 1e15 + 0.3, -1e-7, -0.1, -1.5e-9, 33.3333333333333333 };
    if (w == 32) { for (auto &x : p) x = (double)(float)x; p.push_back((double)1.17549435e-38f); p.push_back((double)3.40282347e38f); p.push_back((double)16777215.0f); p.push_back(0.3f); p.push_back(1.1f); p.push_back(8388607.5f); }
    return p;
}
static E freshVal(State &s, unsigned w, uint64_t init) { E e = nullptr; for (unsigned i = 0; i < w / 8; ++i) { uint32_t v = newVar(s, (uint8_t)(init >> (8 * i))); E b = mkVar(v); e = e ? mkConcat(b, e) : b; } return e; }
// some text on this path does not determine the value it was printed from: find an input for which cond really fails
static bool probe(State &s, E notc, std::vector<std::pair<uint32_t, uint8_t>> &m) {
    for (auto &r : s.fmts) if (r.val) for (double d : probes(r.w)) {
        char b[512]; snprintf(b, sizeof b, r.spec.c_str(), d); uint64_t v = r.w == 64 ? d2bits(d) : f2bits((float)d), y = r.w == 64 ? d2bits(strtod(b, nullptr)) : f2bits((float)strtod(b, nullptr));
        E c = mkBin(AND, notc, mkBin(AND, mkBin(EQ, r.org, K(v, r.w)), mkBin(EQ, r.val, K(y & (mask(r.w) >> 1), r.w)))); m.clear(); if (mayBe(s, c, m) == 1) return true;
    }
    return false;
}
static bool hasInexact(State &s) { for (auto &r : s.fmts) if (r.val) return true; return false; }
struct FmtOut { std::vector<E> t; };
static void putS(std::vector<E> &o, const std::string &x) { for (char c : x) o.push_back(K((uint8_t)c, 8)); }
static std::vector<E> freshDigits(State &s, unsigned n, bool leadNZ, bool lastNZ) {
    std::vector<E> r; for (unsigned i = 0; i < n; ++i) { uint32_t id = newVar(s, '1'); Set256 t{}; for (int c = ((leadNZ && i == 0) || (lastNZ && i + 1 == n)) ? '1' : '0'; c <= '9'; ++c) t[c >> 6] |= 1ull << (c & 63); s.dom[id] = g_dom.get(t); r.push_back(mkVar(id)); } return r;
}
// text of a symbolic floating-point value printed with conversion c and precision prec; w: width of the original value
static std::vector<E> dtoaText(State &s, E bits, unsigned w, char c, int prec, const std::string &spec) {
    for (auto &q : s.fmts) if (q.org == bits && q.spec == spec) return q.full;
    unsigned mb = w == 64 ? 52 : 23, eb = w == 64 ? 11 : 8; E ex = mkExtract(bits, mb, eb), mant = mkExtract(bits, 0, mb), sg = mkExtract(bits, w - 1, 1);
    std::vector<E> out;
    if (decide(s, mkBin(EQ, ex, K(~0ull, eb)))) { bool nan = !decide(s, mkBin(EQ, mant, K(0, mb))); if (decide(s, sg)) putS(out, "-"); putS(out, nan ? "nan" : "inf"); return out; }
    bool zero = decide(s, mkBin(EQ, mkExtract(bits, 0, w - 1), K(0, w - 1)));
    bool neg = decide(s, sg);
    if (zero) { char b[64]; snprintf(b, sizeof b, spec.c_str(), neg ? -0.0 : 0.0); putS(out, b); return out; }
    int need = w == 64 ? 17 : 9;
    bool g = c == 'g' || c == 'G', e = c == 'e' || c == 'E'; if (prec < 0) prec = 6; if (g && prec == 0) prec = 1;
    bool exact = (g && prec >= need) || (e && prec >= need - 1);
    std::vector<E> sgn; if (neg) putS(sgn, "-"); E abits = fAbs(bits); // the record holds the text and value without the sign
    // a text with too few digits either happens to denote the value, or denotes another one
    bool same = exact || pick(s, 2) == 0;
    auto done = [&](FmtRec &r) { r.text = out; r.bits = abits; r.w = w; r.prec = prec; r.spec = spec; r.org = bits; if (!same) { r.val = freshVal(s, w, evalE(abits, s.model.data()) ^ 1); addC(s, mkNot(mkBin(EQ, r.val, abits))); s.approx = true; } s.fmts.push_back(r); out.insert(out.begin(), sgn.begin(), sgn.end()); r.full = s.fmts.back().full = out; };
    if (!g && !e) { // fixed notation
        static const int ints[] = {1, 2, 7, 17, 309}; int n = ints[pick(s, w == 64 ? 5 : 4)]; for (E x : freshDigits(s, (unsigned)n, n > 1, false)) out.push_back(x); if (prec > 0) { putS(out, "."); for (E x : freshDigits(s, (unsigned)prec, false, false)) out.push_back(x); }
        FmtRec r; done(r); return out;
    }
    int P = g ? prec : prec + 1; // significant digits
    if (P > 24) P = 24;
    // shapes: number of significant digits after removing trailing zeros, and decimal exponent
    static const int sigs[] = {1, 2, 9, 17}; std::vector<int> ks; for (int k : sigs) if (k <= P) ks.push_back(k); if (ks.back() != P) ks.push_back(P);
    if (e || !same) ks.assign(1, P);
    int k = ks[(size_t)pick(s, (int)ks.size())]; auto d = freshDigits(s, (unsigned)k, true, !e && k > 1);
    std::vector<int> forms; if (!same) forms = {0}; else if (!e) forms = {-4, -1, 0, 1, 5, P - 1}; forms.push_back(1000); if (same) { forms.push_back(1001); forms.push_back(1002); forms.push_back(1003); } // 100x: exponent notation
    int X = forms[(size_t)pick(s, (int)forms.size())];
    if (X < 1000) {
        if (X < 0) { putS(out, "0."); for (int i = 0; i < -X - 1; ++i) putS(out, "0"); for (E x : d) out.push_back(x); }
        else for (int i = 0; i < std::max(k, X + 1); ++i) { if (i == X + 1) putS(out, "."); out.push_back(i < k ? d[(size_t)i] : K('0', 8)); }
    } else {
        out.push_back(d[0]); if (k > 1) { putS(out, "."); for (int i = 1; i < k; ++i) out.push_back(d[(size_t)i]); }
        putS(out, std::string(1, (c == 'g' || c == 'e') ? 'e' : 'E') + ((X & 1) ? "-" : "+")); auto xd = freshDigits(s, X >= 1002 ? 3 : 2, X >= 1002, false); for (E x : xd) out.push_back(x);
    }
    FmtRec r; done(r); return out;
}
static std::vector<E> formatTo(State &s, const std::string &f, Args &a, size_t ai) {
    std::vector<E> out;
    for (size_t i = 0; i < f.size(); ++i) {
        if (f[i] != '%') { out.push_back(K((uint8_t)f[i], 8)); continue; }
        size_t st = i; ++i; if (f[i] == '%') { putS(out, "%"); continue; }
        bool zero = false, minus = false, plus = false, alt = false; for (; strchr("0-+ #", f[i]) && f[i]; ++i) { if (f[i] == '0') zero = true; if (f[i] == '-') minus = true; if (f[i] == '+') plus = true; if (f[i] == '#') alt = true; }
        std::string spec = "%"; int width = 0, prec = -1;
        if (f[i] == '*') { V v = a.at(ai++); width = (int)concretize(s, v, 32); ++i; } else while (isdigit((unsigned char)f[i])) width = width * 10 + (f[i++] - '0');
        if (f[i] == '.') { ++i; prec = 0; if (f[i] == '*') { V v = a.at(ai++); prec = (int)concretize(s, v, 32); ++i; } else while (isdigit((unsigned char)f[i])) prec = prec * 10 + (f[i++] - '0'); }
        int lng = 0; for (; strchr("hlzjt", f[i]) && f[i]; ++i) { if (f[i] == 'h') lng--; else lng++; }
        char c = f[i]; (void)st; if (ai >= a.size()) unsupported(s, "snprintf arguments"); V v = a[ai++]; std::vector<E> t; bool neg = false;
        unsigned w = lng > 0 ? 64 : lng == -1 ? 16 : lng <= -2 ? 8 : 32;
        switch (c) {
            case 'd': case 'i': case 'u': {
                E x = toE(v, w == 64 ? 64 : 32); if (w < 32) x = mkExtract(x, 0, w); E u = c == 'u' ? mkZext(x, 64) : mkSext(x, 64);
                if (c != 'u' && decide(s, mkBin(SLT, u, K(0, 64)))) { neg = true; u = mkBin(SUB, K(0, 64), u); }
                unsigned n = decideDigits(s, u); t = digitsOf(s, u, n); while ((int)t.size() < prec) t.insert(t.begin(), K('0', 8)); break; }
            case 'x': case 'X': {
                E x = toE(v, w == 64 ? 64 : 32); if (w < 32) x = mkExtract(x, 0, w); unsigned nn = 1; while (nn * 4 < x->w && !decide(s, mkBin(ULT, x, K(1ull << (nn * 4), x->w)))) ++nn;
                for (unsigned k = nn; k-- > 0;) { E nb = mkZext(mkExtract(x, k * 4, 4), 8); t.push_back(mkIte(mkBin(ULT, nb, K(10, 8)), mkBin(ADD, nb, K('0', 8)), mkBin(ADD, nb, K((uint64_t)((c == 'x' ? 'a' : 'A') - 10), 8)))); }
                while ((int)t.size() < prec) t.insert(t.begin(), K('0', 8)); if (alt) unsupported(s, "snprintf %#x"); break; }
            case 'c': t.push_back(v.e ? mkExtract(v.e, 0, 8) : K(v.c, 8)); break;
            case 's': { uint64_t p = concretize(s, v, 64); for (int k = 0; prec < 0 || k < prec; ++k) { V b = loadC(s, p + (uint64_t)k, 8); if (decide(s, mkBin(EQ, toE(b, 8), K(0, 8)))) break; t.push_back(toE(b, 8)); } break; }
            case 'f': case 'g': case 'e': case 'G': case 'E': case 'F': {
                if (width || zero || plus || alt || minus) unsupported(s, "snprintf float flags");
                std::string sp = "%"; if (prec >= 0) sp += "." + std::to_string(prec); sp += c;
                if (!v.e) { char b[512]; snprintf(b, sizeof b, sp.c_str(), bits2d(v.c)); putS(t, b); }
                else { E bits = v.e; unsigned w2 = 64; if (bits->op == FPEXT && bits->a->w == 32) { bits = bits->a; w2 = 32; } t = dtoaText(s, bits, w2, c, prec, sp); }
                if (s.comma) for (E &x : t) if (isK(x) && x->c == '.') x = K(',', 8);
                break; }
            case 'p': t.push_back(K('p', 8)); break;
            default: unsupported(s, std::string("snprintf conversion ") + c);
        }
        int total = (int)t.size() + (neg || plus ? 1 : 0);
        if (!minus && !zero) for (int k = total; k < width; ++k) putS(out, " ");
        if (neg) putS(out, "-"); else if (plus) putS(out, "+");
        if (!minus && zero) for (int k = total; k < width; ++k) putS(out, "0");
        out.insert(out.end(), t.begin(), t.end());
        if (minus) for (int k = total; k < width; ++k) putS(out, " ");
    }
    return out;
}
static bool snp(State &s, const Ins &I, Args &a, size_t fi) {
    uint64_t b = concretize(s, a[0], 64), n = concretize(s, a[1], 64); auto out = formatTo(s, readStr(s, a[fi].c), a, fi + 1);
    if (n) { uint64_t m = std::min<uint64_t>(n - 1, out.size()); uint32_t off; Obj *o = wobj(s, b, m + 1, off); for (uint64_t i = 0; i < m; ++i) storeObj(o, off + (uint32_t)i, mkV(out[i]), 8); storeObj(o, off + (uint32_t)m, CV(0), 8); }
    ret(s, I, CV(out.size())); return true;
}
static bool bi_snprintf(State &s, const Ins &I, Args &a) { return snp(s, I, a, 2); }
static bool bi_snprintf_chk(State &s, const Ins &I, Args &a) { return snp(s, I, a, 4); }
// sx_strtod(const char *p, size_t n): value of the n characters, which form a C floating-point literal
static V strtodV(State &s, Args &a, unsigned w) {
    uint64_t p = a[0].c, n = a[1].c; std::vector<E> t; bool sym = false; for (uint64_t i = 0; i < n; ++i) { V v = loadC(s, p + i, 8); if (v.e) sym = true; t.push_back(toE(v, 8)); }
    if (!sym) { std::string x; for (E e : t) x += (char)e->c; return w == 64 ? CV(d2bits(strtod(x.c_str(), nullptr))) : CV(f2bits(strtof(x.c_str(), nullptr))); }
    for (auto &r : s.fmts) if (r.text == t) {
        E v = r.val ? r.val : r.bits; if (r.w == w) return mkV(v);
        if (r.w == 32 && w == 64) { // the decimal of a float read as double: rounding it to float gives the value
            for (auto &q : s.fmtd) if (q.first == v) return mkV(q.second);
            E d = freshVal(s, 64, d2bits((double)bits2f(evalE(v, s.model.data())))); s.fmtd.push_back({v, d}); return mkV(d);
        }
        if (r.w == 64 && w == 32) return mkV(mkCast(FPTRUNC, v, 32)); // double rounding ignored
    }
    // an unsigned integer of at most 15 digits converts exactly
    bool dig = n <= 15 && n > 0; Set256 ds{}; for (int c = '0'; c <= '9'; ++c) ds[c >> 6] |= 1ull << (c & 63);
    for (E e : t) { if (e->op == VAR) { Set256 x = inter(g_dom.sets[s.dom[e->c]], compl_(ds)); if (!isEmptySet(x)) dig = false; } else if (!isK(e) || !isdigit((int)e->c)) dig = false; }
    if (dig) return mkV(mkCast(UITOFP, sumOf(s, t), w));
    // otherwise an unconstrained value (over-approximation: violations depending on it must replay)
    for (auto &q : s.reads) if (q.first.first == w && q.first.second == t) return mkV(q.second); // the same text gives the same value
    E e = nullptr; for (unsigned i = 0; i < w / 8; ++i) { uint32_t v = newVar(s, 0); E b = mkVar(v); e = e ? mkConcat(b, e) : b; } addC(s, mkBin(ULE, e, K(w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull, w))); s.approx = true; s.reads.push_back({{w, t}, e}); return mkV(e);
}
static bool bi_strtod(State &s, const Ins &I, Args &a) { ret(s, I, strtodV(s, a, 64)); return true; }
static bool bi_strtof(State &s, const Ins &I, Args &a) { ret(s, I, strtodV(s, a, 32)); return true; }
static bool bi_dtoa(State &s, const Ins &, Args &) { unsupported(s, "dtoa"); }
static bool bi_setpoint(State &s, const Ins &, Args &a) { s.comma = a[0].c != 0; return true; }
