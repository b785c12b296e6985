// C23: the preprocessing tool turns a text into string macros that denote it; the compiler emits it unchanged
#include "gen.hh"
#include <cmake.hh>
#include <string.h>
#include "sizes.hh"
static void open(const char *why) { sx_tag(why); sx_reach("not recognised"); sx_end(); }
static string placed(const string &l) { string r; for (size_t i = 0; i < l.size();) { if (i + 6 <= l.size() && sx_decide((l[i] == '_') & (l[i + 1] == 'X') & (l[i + 2] == '_') & (l[i + 3] == 'Y') & (l[i + 4] == '_') & (l[i + 5] == 'Z'))) { r += PROTOGEN_VERSION_NAMING; i += 6; } else r += l[i++]; } return r; }
#ifndef X_EMIT
int sx_program_main(int argc, char **argv);
struct Macro { string name, text; };
// what a compiler makes of the output: lines are spliced, adjacent literals joined
static void read(const string &out, std::vector<Macro> &r) {
    string t; for (size_t i = 0; i < out.size(); ++i) if (i + 1 < out.size() && out[i + 1] == '\n' && out[i] == '\\') ++i; else t += out[i];
    for (size_t b = 0; b < t.size();) { size_t e = t.find('\n', b); if (e == string::npos) e = t.size(); string l = t.substr(b, e - b); b = e + 1; size_t i = 0; auto ws = [&] { while (i < l.size() && (l[i] == ' ' || l[i] == '\t')) ++i; }; ws(); if (i >= l.size()) continue;
        if (l.compare(i, 7, "#define") != 0) { if (l[i] != '#' && l.compare(i, 2, "//") != 0) open("line"); continue; } i += 7; ws(); size_t n = i; while (i < l.size() && l[i] != ' ' && l[i] != '\t') ++i; Macro m; m.name = l.substr(n, i - n); ws(); if (i >= l.size()) { r.push_back(m); continue; }
        cpp::Header h(""); h.k.clear(); h.ok = true; h.t = l.substr(i); if (!h.lex()) CHECK(false, "each macro is a string"); if (h.k.size() != 1 || h.k[0].k != 's') open("macro"); m.text = h.k[0].v; r.push_back(m); } }
static const Macro *find(const std::vector<Macro> &l, const char *n) { const Macro *r = nullptr; for (auto &m : l) if (m.name == n) { if (r) open("twice"); r = &m; } return r; }
static void (*g_then)(int); static void done(int c) { g_then(c); }
static string g_text, g_expected[3]; static int g_sections; static const char *const NAMES[] = {"CODE_A", "CODE_B__C", "D"};
static string content(const char *n) { long k = sx_file_size(n); if (k <= 0) return string(); string s((size_t)k, 0); sx_file_get(n, &s[0]); return s; }
static void judge(int c) {
    CHECK(c == 0, "a text is processed"); std::vector<Macro> ms; read(content("out.hh"), ms);
    if (g_sections < 0) { const Macro *m = nullptr; for (auto &x : ms) if (!x.text.empty()) { if (m) open("more macros"); m = &x; } if (!m) { CHECK(g_expected[0].empty(), "the macro denotes the lines of the text"); sx_reach("text"); return; } CHECK(same(m->text, g_expected[0]) || same(m->text, g_expected[0] + "\n"), "the macro denotes the lines of the text"); sx_reach("text"); }
    else { for (int i = 0; i < g_sections; ++i) { auto *m = find(ms, NAMES[i]); CHECK(m, "there is a macro for each section"); CHECK(same(m->text, g_expected[i]), "the macro denotes the lines of the section"); } for (int i = g_sections; i < 3; ++i) CHECK(!find(ms, NAMES[i]), "there is no macro without a section"); sx_reach("sections"); }
}
#ifdef X_FAULT
static string g_whole; static void judge_fault(int c) { if (c == 0) CHECK(sx_file_size("out2.hh") == (long)g_whole.size() && same(content("out2.hh"), g_whole), "the output is complete if the exit status is zero"); sx_reach(c ? "failed" : "text"); }
#endif
static void run(const char *in, const char *out, void (*then)(int)) { static char n[3][32]; static char *argv[4]; const char *v[3] = {"template", in, out}; for (int i = 0; i < 3; ++i) { size_t l = strlen(v[i]); for (size_t j = 0; j <= l; ++j) n[i][j] = v[i][j]; argv[i] = n[i]; } argv[3] = nullptr; g_then = then; int c = sx_program_main(3, argv); exit(c); }
static string bytes(size_t max, const char *name) { string s = sx_string(sx_choose((uint32_t)max + 1, "n"), name); for (char c : s) sx_assume((c != 0) & (c != '\n')); return s; }
static string line(bool sec) { // any line
    switch (sx_choose(sec ? 3 : 7, "line")) { case 0: return bytes(X_TEXT, "x"); case 1: return "  s += \"" + bytes(X_TEXT, "x") + "\";"; case 2: return "/* ??" + bytes(1, "x") + "\\" + bytes(1, "y"); case 3: return "_X_Y_" + bytes(2, "x") + "Z"; case 4: return bytes(1, "x") + "_X_Y_Z" + bytes(1, "y") + "_X_Y_Z_X_Y_Z"; case 5: return bytes(1, "x") + "AUTO-REMOVE" + bytes(1, "y"); default: { string x = bytes(2, "x"), y = bytes(1, "y"); return "#" + x + "AUTO-REMOVE" + y; } } }
extern "C" void sx_main() {
    sx_capture(); sx_onexit(done);
#ifdef X_SECTIONS
    g_sections = (int)sx_choose(X_SECTIONS + 1, "sections"); if (sx_choose(2, "before")) g_text += "text\n";
    for (int i = 0; i < g_sections; ++i) { g_text += string("--- ") + NAMES[i] + "\n"; for (uint32_t k = 0, n = sx_choose(3, "lines"); k < n; ++k) { string l = i == (int)g_sections - 1 && k == 0 ? line(true) : k ? "" : "a \"b\" \\ // $1$ \xc3\xa9"; if (l.size() >= 4) sx_assume(!((l[0] == '-') & (l[1] == '-') & (l[2] == '-'))); g_text += l + "\n"; g_expected[i] += l + "\n"; } g_text += "------"; if (i + 1 < g_sections || sx_choose(2, "end")) g_text += i == 0 && sx_choose(2, "between") ? "\n\nbetween\n" : "\n"; }
    sx_file_put("t.txt", g_text.data(), g_text.size()); run("t.txt", "out.hh", judge);
#elif defined(X_FAULT)
    uint32_t k = sx_choose(3, "file"); for (uint32_t i = 0; i < (k == 1 ? 600 : 3); ++i) g_text += k == 2 && i == 0 ? "--- A\n" : k == 2 && i == 2 ? "------\n" : "some \"text\" that \\ goes there\n"; const char *in = k == 2 ? "t.txt" : "t.hh"; sx_file_put(in, g_text.data(), g_text.size()); static const char *g_in; g_in = in;
    run(in, "out.hh", [](int c) { CHECK(c == 0, "a text is processed"); g_whole = content("out.hh"); auto fails = [](int c) { CHECK(c != 0, "the exit status is not zero"); sx_reach("refused"); };
        switch (sx_choose(7, "fault")) { case 1: sx_file_cfault("out2.hh"); run(g_in, "out2.hh", fails); break; case 2: sx_file_rfault(g_in, sx_choose((uint32_t)g_text.size() + 1 < 300 ? (uint32_t)g_text.size() + 1 : 300, "at")); run(g_in, "out2.hh", judge_fault); break; case 3: run("missing.hh", "out2.hh", fails); break; case 4: run("missing.txt", "out2.hh", fails); break; case 5: run(g_in, "missing/out2.hh", fails); break;
            case 6: { static char n[] = "template", i[8]; for (size_t j = 0; j <= strlen(g_in); ++j) i[j] = g_in[j]; static char o[] = "out2.hh"; static char *argv[5] = {n, i, o, o, nullptr}; uint32_t k = sx_choose(4, "arguments"); if (k == 2) k = 4; else ++k; if (k == 3) k = 1; if (k < 4) argv[k] = nullptr; g_then = fails; int e = sx_program_main((int)k, argv); exit(e); } }
        uint32_t n = sx_value<uint32_t>("limit"); sx_assume(n < 0x7fffffff); sx_file_limit((long)n); run(g_in, "out2.hh", judge_fault); });
#elif defined(X_BIG)
    // a long line or many lines
    { size_t z = size_up_to(X_BIG); g_sections = sx_choose(2, "sections") ? 1 : -1; static const char *const W[] = {"x", "\"\\", "_X_Y_Z", "\xc3\xa9"}; string w = W[sx_choose(4, "what")], l; bool many = sx_choose(2, "many"); while (l.size() < z) l += w; char c = (char)sx_value<uint8_t>("c"); sx_assume((c != 0) & (c != '\n')); l += c; if (many) { if (z > 1025) sx_end(); g_expected[0] = ""; string x = w + c; sx_assume((x[0] != '#') & (x[0] != '-')); for (size_t i = 0; i < z; ++i) { g_text += x + "\n"; g_expected[0] += placed(x) + "\n"; } } else { g_text = l + "\n"; g_expected[0] = placed(l) + "\n"; } const char *in = "t.hh"; if (g_sections == 1) { g_expected[0].clear(); if (many) g_expected[0] = g_text; else g_expected[0] = g_text; g_text = string("--- ") + NAMES[0] + "\n" + g_text + "------\n"; in = "t.txt"; } sx_file_put(in, g_text.data(), g_text.size()); run(in, "out.hh", judge); }
#else
    g_sections = -1; uint32_t n = sx_choose(X_LINES + 1, "lines"), at = n ? sx_choose(n, "at") : 0; for (uint32_t k = 0; k < n; ++k) { string l = k == at ? line(false) : k == 1 ? "" : "a \"b\" \\ // $1$ \xc3\xa9"; bool end = k + 1 < n || sx_choose(2, "end"); if (!end && l.empty()) sx_end(); g_text += l; if (end) g_text += '\n'; bool mark = false; if (!l.empty()) { for (size_t i = 0; i + 11 <= l.size(); ++i) if (!memcmp(&l[i], "AUTO-REMOVE", 11)) mark = true; if (mark && !sx_decide(l[0] == '#')) { if (sx_decide((l[0] == ' ') | ((l[0] >= 9) & (l[0] <= 13)))) open("marked"); mark = false; } } if (!mark) g_expected[0] += placed(l) + "\n"; }
    sx_file_put("t.hh", g_text.data(), g_text.size()); run("t.hh", "out.hh", judge);
#endif
}
#else
// the generated header holds the text of the run-time library
#include "srctext.hh"
extern "C" void sx_main() {
    static const char *const T[] = {"", "repeated N", "bytes", "double", "string", "repeated bool"}; static const int NEED[] = {0, 1, 2, 4, 8, 5}; string s = "message N{}message M{"; int need = 0; uint32_t used = 0, n = sx_choose(X_EMIT + 1, "fields"); for (uint32_t i = 0; i < n; ++i) { uint32_t k = 1 + sx_choose(5, "type"); if (used >> k & 1) sx_end(); used |= 1u << k; s += string(T[k]) + " f" + std::to_string(i) + "=" + std::to_string(i + 1) + ";"; need |= NEED[k]; } s += "}"; if (sx_choose(2, "more")) { s += "message Q{string q=1;}"; need |= 8; }
    Parsed r; run_parser(s, r); CHECK(r.ok, "a valid file is accepted"); Gen g; generate(r, g); CHECK(g.ok, "a valid file is accepted"); const string &o = g.out;
    for (size_t f = 0; f < sizeof SRC / sizeof *SRC; ++f) {
        int bit = !strcmp(SRC[f].name, "json-array.hh") ? 1 : !strcmp(SRC[f].name, "json-base64.hh") ? 2 : !strcmp(SRC[f].name, "json-number.hh") ? 4 : !strcmp(SRC[f].name, "json-string.hh") ? 8 : 0; if (bit && !(need & bit)) continue;
        // line by line; tabs are spaces
        size_t at = string::npos; const char *p = SRC[f].text; bool first = true;
        for (; *p;) { const char *e = strchr(p, '\n'); size_t k = e ? (size_t)(e - p) : strlen(p); string l; for (size_t i = 0; i < k; ++i) if (p[i] == '\t') l += "    "; else l += p[i]; p += k + (e ? 1 : 0); if (!l.empty() && l[0] == '#' && l.find("AUTO-REMOVE") != string::npos) continue; l = placed(l) + "\n"; if (first && l == "\n") continue;
            if (first) { at = 0; for (;;) { at = o.find(l, at); CHECK(at != string::npos, "the run-time library is emitted"); if (at == 0 || o[at - 1] == '\n') break; ++at; } first = false; }
            if (o.compare(at, l.size(), l) != 0) sx_tag(l.c_str()); CHECK(o.compare(at, l.size(), l) == 0, "the run-time library is emitted line by line"); at += l.size(); } }
    sx_reach("emitted"); }
#endif
