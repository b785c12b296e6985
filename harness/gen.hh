// Runs the real generator and reads back the C++ it emits (everything after its last #include).
#pragma once
#include <protogen/protogen.hh>
#include "pp.hh"
struct Gen { bool ok = false; string out, what; int line = 0, column = 0; };
static void generate(Parsed &r, Gen &g) {
    std::ostringstream os; protogen::CppGenerator gen;
    try { gen.generate(r.p, os); g.ok = true; g.out = os.str(); } catch (protogen::exception &e) { g.what = e.what(); g.line = e.line; g.column = e.column; CHECK(!g.what.empty(), "the diagnostic has a message"); }
}
namespace cpp {
struct Tok { char k; string v; }; // i identifier or number, s string (decoded), c character, p punctuation, : is "::"
struct Member { string type, name; };
struct Def { string ns, name; size_t at; bool macro; std::vector<Member> members; };
struct Spec { string arg; size_t begin, end; }; // an explicit specialisation of a class template
static inline int in(unsigned char c, char a, char b) { return (c >= (unsigned char)a) & (c <= (unsigned char)b); }
static inline bool idc(unsigned char c) { return sx_decide(in(c, 'a', 'z') | in(c, 'A', 'Z') | in(c, '0', '9') | (c == '_')); }
static inline bool hex(unsigned char c) { return sx_decide(in(c, '0', '9') | in(c, 'a', 'f') | in(c, 'A', 'F')); }
static inline unsigned hexval(unsigned char c) { return (c - '0') - (unsigned)(in(c, 'A', 'F') ? 7 : 0) - (unsigned)(in(c, 'a', 'f') ? 39 : 0); }
struct Header {
    string t; std::vector<Tok> k; std::vector<Def> defs; std::vector<Spec> specs; bool ok = true; const char *why = "";
    bool no(const char *w) { ok = false; why = w; return false; }
    explicit Header(const string &out) {
        size_t p = 0, b = 0; while ((p = out.find("#include", p)) != string::npos) b = ++p; t = out.substr(b); size_t e = t.find('\n'); t.erase(0, e == string::npos ? t.size() : e); size_t i = 0; if (lex()) walk(i, "");
        if (ok && i < k.size()) no("unbalanced"); }
    unsigned char ch(size_t i) const { return i < t.size() ? (unsigned char)t[i] : 0; }
    bool lex() {
        size_t i = 0, n = t.size(); bool line = true;
        while (i < n) {
            unsigned char c = t[i];
            if (c == '\n') { line = true; ++i; continue; } if (c == ' ' || c == '\t' || c == '\r') { ++i; continue; }
            if (line && c == '#') { while (i < n && t[i] != '\n') i += (t[i] == '\\') ? 2 : 1; continue; } line = false;
            if (c == '/' && ch(i + 1) == '/') { while (i < n && t[i] != '\n') ++i; continue; }
            if (c == '/' && ch(i + 1) == '*') { i = t.find("*/", i + 2); if (i == string::npos) return no("comment"); i += 2; continue; }
            if (c == '"' || c == '\'') { string v; if (!literal(i, c, v)) return false; if (c == '"' && !k.empty() && k.back().k == 's') k.back().v += v; else k.push_back(Tok{c == '"' ? 's' : 'c', v}); continue; }
            if (idc(c)) { size_t b = i; while (i < n && idc(t[i])) ++i; k.push_back(Tok{'i', t.substr(b, i - b)}); continue; }
            if (c == ':' && ch(i + 1) == ':') { k.push_back(Tok{':', "::"}); i += 2; continue; }
            k.push_back(Tok{'p', string(1, (char)c)}); ++i;
        }
        return true;
    }
    bool literal(size_t &i, unsigned char q, string &v) {
        for (++i;;) {
            if (i >= t.size() || t[i] == '\n') return no("literal"); unsigned char c = t[i];
            if (c == q) { ++i; return true; }
            // trigraphs would be replaced by a C++11 compiler
            if (c == '?' && ch(i + 1) == '?') { unsigned char d = ch(i + 2); if (sx_decide((d == '=') | (d == '/') | (d == '\'') | (d == '(') | (d == ')') | (d == '!') | (d == '<') | (d == '>') | (d == '-'))) return no("trigraph"); }
            if (c != '\\') { v += (char)c; ++i; continue; }
            c = ch(++i); ++i;
            switch (c) { case 'n': v += '\n'; break; case 't': v += '\t'; break; case 'r': v += '\r'; break; case 'a': v += '\a'; break; case 'b': v += '\b'; break; case 'f': v += '\f'; break; case 'v': v += '\v'; break;
                case '"': case '\'': case '\\': case '?': v += (char)c; break;
                case 'x': { unsigned x = 0; int d = 0; while (i < t.size() && hex(t[i])) { x = x * 16 + hexval(t[i]); ++i; if (++d > 8) return no("hexadecimal escape"); } if (!d || sx_decide(x > 255)) return no("hexadecimal escape"); v += (char)x; break; }
                default: if (!sx_decide(in(c, '0', '7'))) return no("escape"); { unsigned x = c - '0'; for (int d = 1; d < 3 && i < t.size() && sx_decide(in(t[i], '0', '7')); ++d, ++i) x = x * 8 + (unsigned)(t[i] - '0'); if (sx_decide(x > 255)) return no("octal escape"); v += (char)x; } }
        }
    }
    bool is(size_t i, const char *w) const { return i < k.size() && k[i].k != 's' && k[i].k != 'c' && k[i].v == w; }
    size_t match(size_t i) const { // index of the bracket that closes the one at i
        string st; for (; i < k.size(); ++i) { if (k[i].k != 'p') continue; char c = k[i].v[0]; if (c == '{') st += '}'; else if (c == '(') st += ')'; else if (c == '[') st += ']'; else if (c == '}' || c == ')' || c == ']') { if (st.empty() || st.back() != c) return string::npos; st.erase(st.size() - 1); if (st.empty()) return i; } } return string::npos; }
    string join(size_t b, size_t e) const { string r; for (size_t j = b; j < e; ++j) { if (k[j].k == ':' && (r.empty() || !(k[j - 1].k == 'i'))) continue; if (k[j].k == 'i' && j > b && k[j - 1].k == 'i' && !r.empty()) r += ' '; r += k[j].v; } return r; }
    bool walk(size_t &i, const string &ns) {
        while (i < k.size() && !is(i, "}")) {
            if (is(i, "namespace")) { string n = ns; for (++i; i < k.size() && !is(i, "{"); ++i) if (k[i].k == 'i') n += (n.empty() ? "" : ".") + k[i].v; ++i; if (!walk(i, n)) return false; if (!is(i, "}")) return no("namespace"); ++i; continue; }
            if (is(i, "template")) { size_t b = i; while (i < k.size() && !is(i, "{") && !is(i, ";")) ++i; if (is(i, "{")) { size_t e = match(i); if (e == string::npos) return no("template"); size_t l = b + 1; while (l < i && !is(l, "struct") && !is(l, "class")) ++l; while (l < i && !is(l, "<")) ++l; size_t h = i; while (h > l && !is(h, ">")) --h; if (l < h) specs.push_back(Spec{join(l + 1, h), i, e}); i = e + 1; } if (is(i, ";")) ++i; continue; }
            if (is(i, "struct") || is(i, "class")) {
                size_t at = i++; if (i >= k.size() || k[i].k != 'i') return no("struct"); Def d{ns, k[i].v, at, false, {}}; while (i < k.size() && !is(i, "{") && !is(i, ";")) ++i; if (is(i, ";")) { ++i; continue; }
                size_t e = match(i); if (e == string::npos) return no("struct"); for (size_t j = i + 1; j < e;) { size_t b = j; bool fn = false; size_t cut = 0; while (j < e && !is(j, ";")) { if (is(j, "(")) fn = true; if (!cut && (is(j, "=") || is(j, "{"))) cut = j; if (is(j, "{")) { j = match(j); if (j == string::npos) return no("member"); } ++j; } size_t l = cut ? cut : j; if (!fn && l > b + 1 && k[l - 1].k == 'i') d.members.push_back(Member{join(b, l - 1), k[l - 1].v}); ++j; }
                defs.push_back(d); i = e + 1; if (is(i, ";")) ++i; continue; }
            if (k[i].k == 'i' && is(i + 1, "(")) { size_t e = match(i + 1); if (e == string::npos) return no("macro"); if (k[i + 2].k == 'i' && is(i + 3, ",")) defs.push_back(Def{ns, k[i + 2].v, i, true, {}}); i = e + 1; if (is(i, ";")) ++i; continue; }
            if (is(i, ";")) { ++i; continue; }
            if (is(i, "using") || is(i, "typedef")) { while (i < k.size() && !is(i, ";")) ++i; ++i; continue; }
            return no("declaration");
        }
        return true;
    }
    // the class of a message and the structure that holds its members
    const Def *entity(const string &ns, const string &name, int *count = nullptr) const { const Def *r = nullptr; int n = 0; for (auto &d : defs) if (d.ns == ns && d.name == name) { r = &d; ++n; } if (count) *count = n; return r; }
    const Def *data(const string &ns, const string &name, int *count = nullptr) const { int n = 0; const Def *r = entity(ns, name + "_type", &n); if (!r) { r = entity(ns, name, &n); if (r && r->macro) { r = nullptr; n = 0; } } if (count) *count = n; return r; }
};
}
