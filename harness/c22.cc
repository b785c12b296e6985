// C22: exit status 0 if and only if the complete header is at the requested output; otherwise a diagnostic, with a position if the input is invalid
#include "gen.hh"
#include <string.h>
#include "protoref.hh"
#include "sizes.hh"
int sx_program_main(int argc, char **argv);
static string content(const char *n) { long k = sx_file_size(n); if (k <= 0) return string(); string s((size_t)k, 0); sx_file_get(n, &s[0]); return s; }
static void put(const char *n, const string &s) { sx_file_put(n, s.data(), s.size()); }
static void (*g_then)(int);
static void run(int argc, const char *a, const char *b, void (*then)(int)) { // the program, up to its exit
    static char names[4][256]; static char *argv[6]; const char *v[4] = {"protogen", a, b, "x"}; for (int i = 0; i < 4; ++i) { size_t l = v[i] ? strlen(v[i]) : 0; for (size_t j = 0; j < l; ++j) names[i][j] = v[i][j]; names[i][l] = 0; argv[i] = i < argc ? names[i] : nullptr; } argv[4] = nullptr;
    g_then = then; int c = sx_program_main(argc, argv); exit(c); }
static void done(int c) { g_then(c); }
static string g_expected; static const char *g_out; static string g_src;
static bool number(const string &t, size_t &i, long &v) { size_t b = i; v = 0; while (i < t.size() && t[i] >= '0' && t[i] <= '9') v = v * 10 + (t[i++] - '0'); return i > b && i - b < 10; }
// FILE:LINE:COLUMN: in the diagnostic
static bool position(const string &t, const char *file, long &line, long &column) {
    string n = string(file) + ":"; for (size_t p = 0; (p = t.find(n, p)) != string::npos; ++p) { size_t i = p + n.size(); if (number(t, i, line) && i < t.size() && t[i] == ':' && number(t, ++i, column) && i < t.size() && t[i] == ':') return true; } return false; }
static void failed(int c) { CHECK(c != 0, "the exit status is not zero"); CHECK(sx_file_size("<stderr>") > 0, "there is a diagnostic on standard error"); }
static long width(long line) { size_t b = 0; for (long l = 1; l < line; ++l) { b = g_src.find('\n', b); if (b == string::npos) return -1; ++b; } size_t e = g_src.find('\n', b); return (long)((e == string::npos ? g_src.size() : e) - b); }
static long g_line, g_column; static void placed() { string e = content("<stderr>"); CHECK(position(e, "in.proto", g_line, g_column), "the diagnostic names the file, line and column"); CHECK(g_line >= 1 && g_column >= 1 && width(g_line) >= 0 && g_column <= width(g_line) + 2, "the position is inside the file"); }
// errors that are a token out of place are at that token, or further in the same statement
static void exact(const pref::R &f) { if (f.bad == string::npos || f.noref || f.k.k == pref::END) return; size_t at = 0; for (long l = 1; l < g_line; ++l) at = g_src.find('\n', at) + 1; at += (size_t)g_column - 1; pref::R t = f; while (!t.pun(';') && t.k.k != pref::END && t.k.k != pref::BAD) t.next(); size_t e = t.pun(';') ? t.k.at : g_src.size(); CHECK(at >= f.bad && at <= e, "the position is the one of the error"); }
static const char *const VALID[] = {"package p;\nmessage M { int32 b=2; string a=1; repeated N n=7; }\nmessage N { bytes x=1[name=\"y\"]; }\n", "", "message A{bool a=1;}"};
static void judge_fault(int c) {
    if (c == 0) { CHECK(sx_file_size(g_out) == (long)g_expected.size(), "the output is complete if the exit status is zero"); CHECK(same(content(g_out), g_expected), "the output is complete if the exit status is zero"); sx_reach("written"); } else { failed(c);
#ifdef X_WRITE
        CHECK(sx_file_size(g_out) < (long)g_expected.size(), "the exit status is zero if everything was written");
#endif
        sx_reach("not written"); } }
#ifdef X_WRITE
static void second(int c) {
    CHECK(c == 0, "a valid file is accepted"); g_expected = content("first.hh"); cpp::Header h(g_expected); if (!h.ok) { sx_reach("not recognised"); sx_end(); } uint32_t to = sx_choose(3, "output"); if (to == 1) put("out.hh", string(300000, '#')); g_out = to == 2 ? "<stdout>" : "out.hh";
    uint32_t n = sx_value<uint32_t>("limit"); sx_assume(n < 0x7fffffff); sx_file_limit((long)n); run(to == 2 ? 2 : 3, "in.proto", to == 2 ? nullptr : "out.hh", judge_fault); }
#endif
#ifdef X_CLOSE
static void second(int c) {
    CHECK(c == 0, "a valid file is accepted"); g_expected = content("first.hh"); put("out.hh", ""); g_out = "out.hh"; if (sx_choose(2, "fault")) { sx_file_cfault("out.hh"); run(3, "in.proto", "out.hh", [](int c) { failed(c); sx_reach("not written"); }); } else { sx_file_rfault("in.proto", sx_choose((uint32_t)g_src.size() + 1, "at")); run(3, "in.proto", "out.hh", judge_fault); } }
#endif
#ifdef X_COMPLETE
static void judge_complete(int c) {
    pref::R f(g_src); if (!f.file() || f.open) sx_end(); CHECK(c == 0, "a valid file is accepted"); cpp::Header h(content(g_out)); if (!h.ok) { sx_tag(h.why); sx_reach("not recognised"); sx_end(); }
    for (auto &m : f.msgs) { auto *d = h.data(m.package, m.name); CHECK(h.entity(m.package, m.name) && d, "the output defines every message"); CHECK(d->members.size() == m.fields.size(), "the output has every field"); for (auto &x : m.fields) { int n = 0; for (auto &y : d->members) n += same(x.name, y.name); CHECK(n == 1, "the output has every field"); } } sx_reach("complete"); }
#endif
static void judge_invalid(int c) { failed(c); placed(); sx_reach("invalid"); }
static long g_want; static void judge_line(int c) { failed(c); placed(); CHECK(g_line == g_want, "the line is the one of the error"); pref::R f(g_src); if (!f.file() && !f.open) exact(f); sx_reach("invalid"); }
static void judge_open(int c) { failed(c); sx_reach("refused"); }
static bool g_bad; static void judge_bytes(int c) { if (g_bad || c != 0) { failed(c); placed(); pref::R f(g_src); if (!f.file()) exact(f); sx_reach("invalid"); } else { CHECK(sx_file_size("out.hh") > 0, "there is output if the exit status is zero"); sx_reach("valid"); } }
extern "C" void sx_main() {
    sx_capture(); sx_onexit(done);
#if defined(X_WRITE) || defined(X_CLOSE)
    g_src = VALID[sx_choose(X_FILES, "file")]; put("in.proto", g_src); run(3, "in.proto", "first.hh", second);
#elif defined(X_COMPLETE)
    string a = sx_string(1, "a"), b = sx_string(1, "b"), m = sx_string(1, "m"); for (auto *p : {&a, &b, &m}) { unsigned char c = (unsigned char)(*p)[0]; sx_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_')); } sx_assume(a[0] != b[0]); sx_assume(m[0] != 'N');
    static const char *const PK[] = {"", "package q.r;"}; g_src = string(PK[sx_choose(2, "package")]) + "message " + m + "{string " + a + "=1;repeated N " + b + "=2;}message N{}"; put("in.proto", g_src); bool o = sx_choose(2, "stdout"); g_out = o ? "<stdout>" : "out.hh"; run(o ? 2 : 3, "in.proto", o ? nullptr : "out.hh", judge_complete);
#elif defined(X_OPEN)
    put("in.proto", VALID[0]); sx_file_mkdir("dir");
    switch (sx_choose(9, "case")) { case 0: run(3, "missing.proto", "out.hh", judge_open); break; case 1: run(2, "missing.proto", nullptr, judge_open); break; case 2: run(3, "in.proto", "dir", judge_open); break; case 3: run(3, "in.proto", "none/out.hh", judge_open); break; case 4: run(1, nullptr, nullptr, judge_open); break; case 5: run(4, "in.proto", "out.hh", judge_open); break; case 6: run(3, "dir", "out.hh", judge_open); break; case 7: run(2, "dir", nullptr, judge_open); break; default: run(3, "in.proto", "", judge_open); }
#elif defined(X_LINES)
#ifdef X_BIG
    // many lines, or a long line, before the error
    { size_t z = size_up_to(X_BIG); uint32_t how = sx_choose(4, "how"); string pad = how == 0 ? string(z, '\n') : how == 1 ? string(z, ' ') : how == 2 ? "/*" + string(z, '\n') + "*/" : "//" + string(z, 'x') + "\n"; unsigned char c = sx_value<uint8_t>("c"); sx_assume((c == '=') | (c == '[') | (c == ';') | (c == '%')); g_src = "message M {" + pad + " int32 a" + (char)c + "=5;\n}"; g_want = 1; for (char d : pad) g_want += d == '\n'; put("in.proto", g_src); run(3, "in.proto", "out.hh", judge_line); }
#endif
    // a valid file with one statement to a line, one of them replaced by a faulty one
    uint32_t at = sx_choose(3, "line"), what = sx_choose(X_LINES, "error"); string w; unsigned char c = sx_value<uint8_t>("c");
    switch (what) {
        case 0: sx_assume(((c < 'a') | (c > 'z')) & ((c < 'A') | (c > 'Z')) & ((c < '0') | (c > '9')) & (c != '_') & (c != ' ') & (c != '\t') & (c != '\r') & (c != '\n') & (c != '/') & (c != '}') & (c != ';')); w = string("int32 ") + (char)c + "x=5;"; break;
        case 1: w = "int32 x=0;"; break; case 2: w = "int32 x=19500;"; break; case 3: w = "int32 a=5;"; break; case 4: w = "int32 x=1;"; break; case 5: w = "X x=5;"; break; case 6: w = "M x=5;"; break; case 7: w = "repeated N x=5;"; break; case 8: w = "int32 x=5[name=\"a\"];"; break;
        case 9: sx_assume((c >= 1) & (c < 0x20) & (c != '\n')); w = string("int32 x=5[name=\"q") + (char)c + "\"];"; break; case 10: w = "int32 x=5[name=true];"; break; case 11: w = "int32 x=5[transient=\"true\"];"; break; case 12: w = "int32 x=5[name=\"q\\\"];"; break; case 13: w = "int32 x=5[name='q'];"; break; case 14: w = "int32 x=5[name=\"\xc3\"];"; break; case 15: w = "repeated optional int32 x=5;"; break; case 16: w = "int32 x=\"q;"; break; default: w = "int32 =5;"; }
    g_src = "package p;\nmessage M {\n  int32 a=1;\n"; for (uint32_t i = 0; i < 3; ++i) g_src += i == at ? "  " + w + "\n" : "  bool f" + std::to_string(i) + "=" + std::to_string(i + 2) + ";\n"; g_src += "}\nmessage N {\n  int32 a=1[transient=false];\n" + string(what == 7 ? "  M m=2;\n" : "") + "}\n"; g_want = 4 + at; put("in.proto", g_src);
    run(3, "in.proto", "out.hh", what == 6 || what == 7 ? judge_invalid : judge_line); // either message of a cycle is to blame
#elif defined(X_SEMANTIC)
    switch (sx_choose(7, "error")) { case 0: g_src = "\nmessage M{\n"; for (int i = 1; i <= 65; ++i) g_src += "int32 f" + std::to_string(i) + "=" + std::to_string(i) + ";\n"; g_src += "}"; break; case 1: g_src = "message M{}\noption obfuscate_strings=\"true\";"; break; case 2: g_src = "option number_names=1;message M{}"; break; case 3: g_src = "option cpp_use_lists=yes;message M{}"; break; case 4: g_src = "message M{M m=1;}"; break; case 5: g_src = "message A{B b=1;}\n\nmessage B{repeated C c=1;}\nmessage C{A a=1;}"; break; default: g_src = "package a;\nmessage M{}\npackage b;\nmessage N{M m=1;}"; }
    put("in.proto", g_src); bool o = sx_choose(2, "stdout"); run(o ? 2 : 3, "in.proto", o ? nullptr : "out.hh", judge_invalid);
#else
    static const char *const P[] = {"", "message M{int32 a=1", "message M{int32 a=1;}", "option x", "message M{\nint32 ", "syntax=\"proto3"}; static const char *const Q[] = {"", ";}", ";", "=1;", "=1;}", "\";"}; uint32_t k = sx_choose(6, "place"); g_src = P[k] + sx_string(sx_choose(X_BYTES + 1, "n"), "x") + Q[sx_choose(2, "end") ? k : 0]; pref::R f(g_src); g_bad = !f.file(); if (f.open) { sx_reach("open"); sx_end(); } put("in.proto", g_src); run(3, "in.proto", "out.hh", judge_bytes);
#endif
}
