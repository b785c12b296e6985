// C15: the label emitted for a field is its JSON name, for writing and for reading
#include "all.pg.hh"
#include "gen.hh"
#include "protoref.hh"
#include "jsonref.hh"
#include "sizes.hh"
static void open(const char *why) { sx_tag(why); sx_reach("not recognised"); sx_end(); }
static bool run(const string &src, string &out) { Parsed r; run_parser(src, r); if (!r.ok) { sx_tag(r.what.c_str()); return false; } Gen g; generate(r, g); if (!g.ok) { sx_tag(g.what.c_str()); return false; } out = g.out; return true; }
static string ident(size_t n, const char *name) { string s = sx_string(n, name); for (size_t i = 0; i < n; ++i) { unsigned char c = (unsigned char)s[i]; sx_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | ((i > 0) & (c >= '0') & (c <= '9'))); } return s; }
static unsigned long num(const string &s) { unsigned long v = 0; for (char c : s) { if (c < '0' || c > '9') open("length"); v = v * 10 + (unsigned long)(c - '0'); } return v; }
// the string that the expression around the literal k[p] denotes
static string denotes(const cpp::Header &h, size_t p) {
    string v = h.k[p].v; size_t b = p; bool whole = false;
    if (p >= 2 && h.is(p - 1, "(") && h.is(p - 2, "string")) { if (h.is(p + 1, ",")) { size_t n = num(h.k[p + 2].v); CHECK(n <= v.size() + 1, "the length of a literal"); v.resize(n); whole = true; } b = p - 2; if (b >= 2 && h.is(b - 1, "::") && h.is(b - 2, "std")) b -= 2; }
    if (!whole) for (size_t i = 0; i < v.size(); ++i) if (sx_decide(v[i] == 0)) { v.resize(i); break; } // a C string ends at NUL
    if (b >= 2 && h.is(b - 1, "(") && h.is(b - 2, "reveal")) v = PG::reveal(v);
    return v; }
struct Where { std::vector<size_t> write, index; bool hidden = false; size_t count = 0; };
static std::vector<std::pair<size_t, size_t>> bodies(const cpp::Header &h, const cpp::Spec &s, const char *fn) { std::vector<std::pair<size_t, size_t>> r; for (size_t i = s.begin + 1; i + 1 < s.end; ++i) { if (!h.is(i + 1, "(") || !h.is(i, fn)) { if (h.is(i, "{")) i = h.match(i); continue; } size_t c = h.match(i + 1); while (c < s.end && !h.is(c, "{") && !h.is(c, ";")) ++c; if (!h.is(c, "{")) continue; size_t e = h.match(c); r.push_back({c, e}); i = e; } return r; }
// the literals that change with the name of a field: src(name) is generated with two names of the same shape
template <class F> static Where locate(F src, const string &n1, const string &n2, bool understood = false) {
    string a, b; if (!run(src(n1), a) || !run(src(n2), b)) { CHECK(false, "a file with ordinary names is accepted"); } cpp::Header x(a), y(b); if (!x.ok || !y.ok || x.k.size() != y.k.size()) open("shape"); Where w; w.count = x.k.size();
    for (auto &s : x.specs) for (int f = 0; f < 2; ++f) for (auto &r : bodies(x, s, f ? "index" : "write")) for (size_t i = r.first; i < r.second; ++i) { if (x.k[i].v != y.k[i].v) { if (x.k[i].k != 's' || y.k[i].k != 's') open("not a literal"); (f ? w.index : w.write).push_back(i); } if (f && x.is(i, "reveal") && !w.index.size()) w.hidden = true; }
    if (w.write.empty() || w.index.size() != 1) open("no labels");
    // the sentinels themselves must be understood
    if (understood && w.write.size() == 1) { for (auto p : w.write) CHECK(denotes(x, p) == n1, "the name written is the JSON name of the field"); CHECK(denotes(x, w.index[0]) == (w.hidden ? PG::reveal(n1) : n1), "the name recognised is the JSON name of the field"); return w; }
    for (auto p : w.write) if (denotes(x, p) != n1 && w.write.size() == 1) open("expression"); if (denotes(x, w.index[0]) != (w.hidden ? PG::reveal(n1) : n1)) open("expression");
    return w; }
static void labels(const string &out, const Where &w, const string &name) {
    cpp::Header h(out); if (!h.ok) { sx_tag(h.why); CHECK(string(h.why) != "literal" && string(h.why) != "hexadecimal escape" && string(h.why) != "octal escape" && string(h.why) != "trigraph" && string(h.why) != "escape", "labels are correct C++ literals"); open(h.why); }
    if (h.k.size() != w.count) open("shape");
    for (auto p : w.write) { if (h.k[p].k != 's') open("shape"); string v = "\"" + denotes(h, p) + "\""; jref::P q(v, true); string d; CHECK(q.str(d) && q.i == v.size(), "the name written is a correct JSON string"); CHECK(same(d, name), "the name written is the JSON name of the field"); }
    if (h.k[w.index[0]].k != 's') open("shape"); string v = denotes(h, w.index[0]); CHECK(same(v, w.hidden ? PG::reveal(name) : name), "the name recognised is the JSON name of the field"); sx_reach("labels"); }
static const char *top(uint32_t o) { static const char *const T[] = {"", "option obfuscate_strings=true;", "option number_names=true;", "option obfuscate_strings=true;option number_names=true;"}; return T[o]; }
extern "C" void sx_main() {
    string out;
#ifdef X_OPTION
    // the text of the name option: any bytes
    uint32_t o = sx_choose(2, "top"), n = sx_choose(X_OPTION + 1, "len"); auto src = [&](const string &t) { return string(top(o)) + "message M{bool before=1;int32 f=2[name=\"" + t + "\"];string other_field=3;}"; };
#ifdef X_UTF8
    // well-formed texts of n code points
    static const unsigned LO[] = {0x80, 0x800, 0xE000, 0x10000}, HI[] = {0x7FF, 0xD7FF, 0xFFFF, 0x10FFFF}; string T = "a"; uint32_t z = sx_choose(4, "range"); unsigned cp = sx_value<uint32_t>("cp"); sx_assume((cp >= LO[z]) & (cp <= HI[z])); string one; jref::P::put(one, cp); string sent1 = "a" + one, sent2; T = "a" + one; { string k; jref::P::put(k, LO[z]); string k2; jref::P::put(k2, LO[z] + 1); sent1 = "a" + k; sent2 = "a" + k2; }
    Where w = locate(src, sent1, sent2); if (!run(src(T), out)) CHECK(false, "a well-formed name is accepted"); labels(out, w, T); sx_reach("accepted");
#else
#ifdef X_BIG
    n = (uint32_t)size_up_to(X_BIG); string T; for (uint32_t i = 0; i < n; ++i) T += (char)(i % 5 ? 'a' + i % 26 : "-.$:?"[i / 5 % 5]); { string x = sx_string(3, "x"); size_t at[] = {0, n / 2, n - 1u}; for (int i = 0; i < 3; ++i) { sx_assume((x[i] >= 'A') & (x[i] <= 'Z')); T[at[i]] = x[i]; } }
#else
    string T = sx_string(n, "name");
#endif
#ifdef X_TRI
    T = "??" + T + "?"; n += 3;
#endif
    string sent1(n, 'y'), sent2(n, 'x'); int plain = 1, bs = 0, high = 0; for (unsigned char c : T) { sx_assume((c != '"') & (c != '\n') & (c != 0)); plain &= (c >= 0x20) & (c < 0x7f) & (c != '\\') & (c != '\''); bs |= c == '\\'; high |= c >= 0x80; }
    if (n == 0) { if (!run(src(T), out)) sx_reach("rejected"); else sx_reach("accepted"); return; } // an empty name may be accepted or not
#ifdef X_BIG
    locate(src, string(2, 'y'), string(2, 'x')); Where w = locate(src, sent1, sent2, true); // what is understood for short names
#else
    Where w = locate(src, sent1, sent2);
#endif
    if (sx_decide(plain)) { bool ok = run(src(T), out); CHECK(ok, "an ordinary name is accepted"); labels(out, w, T); sx_reach("accepted"); }
    else { if (sx_decide(high)) { string q = "\"" + T + "\"", d; jref::P p(q, true); if (p.str(d) && p.i == q.size()) sx_end(); } // X_UTF8
        bool ok = run(src(T), out); if (!ok) { sx_reach("rejected"); return; } CHECK(!sx_decide(high), "a name that is not UTF-8 text is rejected"); if (sx_decide(bs)) { cpp::Header h(out); CHECK(h.ok, "labels are correct C++ literals"); return; } labels(out, w, T); }
#endif
#elif defined(X_FIELD)
    uint32_t o = sx_choose(2, "top"), n = 1 + sx_choose(X_FIELD, "len"); auto src = [&](const string &t) { return string(top(o)) + "message M{int32 " + t + "=2;string other_field=3[transient=true];}"; };
    // the name of the field shows in other tokens too: the labels are where the name option shows
    auto opt = [&](const string &t) { return string(top(o)) + "message M{int32 f=2[name=\"" + t + "\"];string other_field=3[transient=true];}"; }; Where w = locate(opt, string(n, 'y'), string(n, 'x')); string T = ident(n, "name"); if (pref::word(T)) sx_end(); CHECK(run(src(T), out), "an ordinary name is accepted"); labels(out, w, T); sx_reach("accepted");
#elif defined(X_NUMBER)
    // number_names: every number of up to X_NUMBER digits; the name option does not matter
    uint32_t o = 2 + sx_choose(2, "top"), n = 1 + sx_choose(X_NUMBER, "digits"), nm = sx_choose(2, "named"); auto src = [&](const string &t) { return string(top(o)) + "message M{string f=" + t + (nm ? "[name=\"q\"]" : "") + ";}"; }; string d = sx_string(n, "number"); for (size_t i = 0; i < n; ++i) sx_assume((d[i] >= '0' + (i == 0)) & (d[i] <= '9')); uint32_t v = (uint32_t)sx_undigits(d.data(), n); sx_assume((v <= 536870911u) & ((v < 19000) | (v > 19999)));
    Where w = locate(src, string(n, '2'), string(n, '3')); CHECK(run(src(d), out), "a valid number is accepted"); labels(out, w, d); sx_reach("accepted");
#else
    // two fields with the same JSON name cannot be told apart
    string a = ident(1, "a"), b = ident(1, "b"); uint32_t o = sx_choose(4, "top"); bool eq = same(a, b); string s;
#ifdef X_LONG
    { string pre(size_up_to(X_LONG), 'm'); for (size_t i = 0; i < pre.size(); ++i) pre[i] = (char)('a' + i % 23); uint32_t at = sx_choose(3, "at"); size_t c = at == 2 ? pre.size() : at ? pre.size() / 2 : 0; a = pre.substr(0, c) + a + pre.substr(c); b = pre.substr(0, c) + b + pre.substr(c); }
#endif
    switch (sx_choose(6, "where")) { case 0: s = "message M{bool " + a + "=1;bool ff=2[name=\"" + b + "\"];}"; break; case 1: s = "message M{bool ff=1[name=\"" + a + "\"];bool " + b + "=2;}"; break; case 2: s = "message M{bool ff=1[name=\"" + a + "\"];bool mm=3;bool gg=2[name=\"" + b + "\"];}"; break; case 3: s = "message M{bool ff=1[name=\"" + a + "\"];}message N{bool gg=2[name=\"" + b + "\"];}"; eq = false; break;
    // transient fields have no name in JSON
    case 4: s = "message M{bool ff=1[name=\"" + a + "\",transient=true];bool gg=2[name=\"" + b + "\"];}"; eq = false; break; default: s = "message M{bool ff=1[name=\"" + a + "\"];bool mm=3;bool gg=2[transient=true,name=\"" + b + "\"];}"; eq = false; }
    if (o >= 2) eq = false; // number_names: the numbers are different
    bool ok = run(top(o) + s, out); if (sx_decide(eq)) { CHECK(!ok, "two fields with the same JSON name are rejected"); sx_reach("rejected"); } else { CHECK(ok, "different JSON names are accepted"); sx_reach("accepted"); }
#endif
}
