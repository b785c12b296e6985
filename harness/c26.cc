// C26: results depend on the arguments only
#if defined(X_CALLS)
#include "types.pg.hh"
#include "bytes.pg.hh"
#include "rt.hh"
#include "sizes.hh"
#include "calls.hh"
extern "C" void sx_main() {
    char c = (char)sx_value<uint8_t>("c"), d = (char)(sx_choose(2, "d") ? 'z' : 0xC3);
    sx_assume((c == 'a') | (c == '4') | (c == '}') | (c == '"') | (c == (char)0xC3) | (c == 0) | (c == '\n'));
#ifdef X_MANY
    sx_assume(c == 'a'); c = 'a';
#endif
    uint32_t a = sx_choose(OPS, "first"); string r = op(a, c, d);
#ifdef X_MANY
    // the same call, or another one, many times in between
    uint32_t b = sx_choose(OPS, "other"), n = (uint32_t)size_up_to(X_MANY); if (b != a && b != 0 && b != 3 && b != 5 && b != 8) sx_end(); string q = op(b, 'a', 'z'); for (uint32_t i = 1; i < n; ++i) CHECK(same(op(b, 'a', 'z'), q), "a repeated call gives the same result");
#else
    uint32_t b[X_STEPS]; char e[X_STEPS]; string q[X_STEPS]; for (int i = 0; i < X_STEPS; ++i) { b[i] = sx_choose(OPS, "next"); e[i] = sx_choose(2, "e") ? '"' : 'a'; q[i] = op(b[i], e[i], 'z'); }
#endif
    CHECK(same(op(a, c, d), r), "a repeated call gives the same result");
#ifndef X_MANY
    // and the others do, after some that have nothing in common with them
    for (uint32_t k = 0; k < OPS; k += 7) { op(k, 'w', 'w'); op(7, 'w', 'w'); for (int i = 0; i < X_STEPS; ++i) CHECK(same(op(b[i], e[i], 'z'), q[i]), "a repeated call gives the same result"); }
#endif
    sx_reach("repeated"); }
#else
#include "gen.hh"
#include "protoref.hh"
#include "sizes.hh"
static string result(const string &src, const char *file) { Parsed r; run_parser(src, r, file); if (!r.ok) return "0 " + std::to_string(r.line) + ":" + std::to_string(r.column) + " " + r.what; Gen g; generate(r, g); if (!g.ok) return "1 " + std::to_string(g.line) + ":" + std::to_string(g.column) + " " + g.what; return g.out; }
#if defined(X_FILES)
static const char *const F[] = {"message M{int32 a=1;}", "option obfuscate_strings=true;package p.q;message N{string s=1;repeated M m=2;}message M{bytes b=1;double d=2[transient=true];}", "option cpp_use_lists=true;option number_names=true;message M{repeated string a=9[name=\"x y\"];}", "message M{int32 a=1;", "message M{X a=1;}", "message A{B b=1;}message B{A a=1;}", "/* c", "", "syntax=\"proto3\";message M{optional bool a=1;}package z;message M{bool b=1;}"};
extern "C" void sx_main() {
    uint32_t a = sx_choose(9, "first"); string s = F[a]; 
#ifndef X_MANY
    if (sx_choose(2, "bytes")) s += sx_string(1, "x");
#endif
     string r = result(s, "/d/a.proto");
#ifdef X_MANY
    uint32_t b = 1 + 2 * sx_choose(3, "other"), n = (uint32_t)size_up_to(X_MANY); string q = result(F[b], "/d/b.proto"); for (uint32_t i = 1; i < n; ++i) CHECK(result(F[b], "/d/b.proto") == q, "a repeated compilation gives the same result");
#else
    for (int i = 0; i < X_STEPS; ++i) result(F[sx_choose(9, "next")], "/d/b.proto");
#endif
    CHECK(same(result(s, "/d/a.proto"), r), "a repeated compilation gives the same result"); sx_reach(r.size() > 1000 ? "generated" : "refused"); }
#else
// headers of files at different paths
typedef std::vector<string> Lines;
// comments removed and lines spliced
static Lines lines(const string &text) {
    string o = text; for (char &c : o) if (c == '\r') c = '\n'; // the end of a line for some compilers
    Lines r(1); size_t n = o.size(); for (size_t i = 0; i < n; ++i) { char c = o[i];
        if (c == '\\' && i + 1 < n && o[i + 1] == '\n') { ++i; continue; }
        if (c == '"' || c == '\'') { size_t b = i; for (++i; i < n && o[i] != c && o[i] != '\n'; ++i) if (o[i] == '\\') ++i; r.back().append(o, b, i + 1 - b); if (i < n && o[i] == '\n') r.push_back(string()); continue; }
        if (c == '/' && i + 1 < n && o[i + 1] == '/') { while (i < n && o[i] != '\n') { if (o[i] == '\\' && i + 1 < n && o[i + 1] == '\n') ++i; ++i; } r.push_back(string()); continue; }
        if (c == '/' && i + 1 < n && o[i + 1] == '*') { size_t e = o.find("*/", i + 2); if (e == string::npos) { r.back() += "/*"; return r; } i = e + 1; r.back() += ' '; continue; }
        if (c == '\n') r.push_back(string()); else r.back() += c; }
    return r; }
static bool directive(const string &l, const char *w, string &name) { size_t i = 0; while (i < l.size() && (l[i] == ' ' || l[i] == '\t')) ++i; if (i >= l.size() || l[i] != '#') return false; ++i; while (i < l.size() && (l[i] == ' ' || l[i] == '\t')) ++i; for (; *w; ++w, ++i) if (i >= l.size() || l[i] != *w) return false; if (i < l.size() && l[i] != ' ' && l[i] != '\t') return false; while (i < l.size() && (l[i] == ' ' || l[i] == '\t')) ++i; size_t b = i; while (i < l.size() && l[i] != ' ' && l[i] != '\t') ++i; name = l.substr(b, i - b); return true; }
// the include guards: the first macro tested and defined, then everything up to the matching end
struct Macros { std::vector<string> names; bool has(const string &n) { for (auto &x : names) if (same(x, n)) return true; return false; } };
static Lines active(const Lines &in, Macros &m) {
    Lines r; std::vector<int> st; int off = 0; string n; for (auto &l : in) {
        if (directive(l, "ifndef", n)) { st.push_back(m.has(n)); off += st.back(); if (!off) r.push_back("#ifndef"); continue; } if (directive(l, "ifdef", n)) { st.push_back(0); continue; } if (directive(l, "if", n)) { st.push_back(0); continue; } if (directive(l, "endif", n)) { if (st.empty()) { r.push_back("#endif"); continue; } off -= st.back(); st.pop_back(); continue; }
        if (off) continue; if (directive(l, "define", n)) { m.names.push_back(n); if (l.find(n) + n.size() >= l.size()) { r.push_back("#define"); continue; } } bool blank = true; for (char c : l) blank &= c == ' ' || c == '\t'; if (!blank) r.push_back(l); }
    return r; }
static bool defines(const Lines &l, const char *name) { for (auto &x : l) { size_t p = x.find(name); if (p != string::npos && (x.find("struct") != string::npos || x.find("class") != string::npos)) return true; } return false; }
extern "C" void sx_main() {
    string a = "/home/x/a_b/dir/model.proto", b = a; size_t n = 1 + sx_choose(X_PATHS, "n"); string x = sx_string(n, "x"); for (char c : x) sx_assume((c != 0) & (c != '/'));
    // a path that differs in n bytes, or is longer by them, from one with ordinary or any other bytes there
    size_t at = sx_choose(3, "at"); at = at == 0 ? 9 : at == 1 ? 16 : 27; uint32_t how = sx_choose(4, "how"); sx_assume(how != 3 || n == 1); if (how == 0) { string y = sx_string(n, "y"); for (char c : y) sx_assume((c != 0) & (c != '/')); sx_assume(!same(x, y)); a.insert(at, x); b.insert(at, y); } else if (how == 1) b.insert(at, x);
    else if (how == 3) { // the text of an escape sequence where the other path has any byte
        uint32_t k = 1 + sx_choose(3, "digits"); string y = sx_string(k, "y"); for (char c : y) sx_assume(((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'F')) | ((c >= 'a') & (c <= 'f'))); a.insert(at, x); b.insert(at, "_" + y); }
    else { sx_assume(x[0] != '_'); b[9] = x[0]; }
    string p = result("package p;message First{int32 i=1;string s=2;}", a.c_str()), q = result("package p;message Second{int32 i=1;string s=2;}", b.c_str()), ref = result("package p;message Second{int32 i=1;string s=2;}", "/model.proto");
    Macros m; Lines l1 = active(lines(p), m); if (!defines(l1, "First")) { sx_reach("not recognised"); return; } Lines l2 = active(lines(q), m); CHECK(defines(l2, "Second"), "headers of different files can be included together");
    Macros m2, m3; Lines u = active(lines(q), m2), v = active(lines(ref), m3); CHECK(u.size() == v.size(), "the path does not change the header"); for (size_t i = 0; i < u.size(); ++i) CHECK(same(u[i], v[i]), "the path does not change the header"); sx_reach("together"); }
#endif
#endif
