// C18: white space and comments between tokens never change the meaning
#include "pp.hh"
#include <string.h>
#include "protoref.hh"
#include "sizes.hh"
static const char *const F[][48] = {
    {"syntax", "=", "\"proto3\"", ";", "package", "p.q", ";", "message", "M", "{", "int32", "a", "=", "1", ";", "repeated", "N", "n", "=", "2", "[", "name", "=", "\"x y\"", ",", "transient", "=", "true", "]", ";", "}", "message", "N", "{", "}", 0},
    {"option", "a", "=", "b.c", ";", "message", "message", "{", "option", "o", "=", "5", ";", "optional", "bytes", "package", "=", "3", ";", "}", 0},
    {"message", "M", "{", "int32", "a", "=", "0", ";", "}", 0}, {"message", "M", "{", "N", "a", "=", "1", ";", "}", 0}, {"message", "M", "{", "int32", "a", "=", "1", 0}, {"message", "M", "{", "}", "}", 0}, {"message", "M", "{", "bool", "=", "1", ";", "}", 0}, {"option", "a", "=", ";", 0}};
static bool glue(const char *a, const char *b) { // the two tokens need a separator
    auto w = [](char c) { return pref::letter(c) || pref::digit(c) || c == '.'; }; return w(a[strlen(a) - 1]) && w(b[0]); }
// every difference a user can see; positions aside
static const char *differ(const Parsed &a, const Parsed &b) {
    if (a.ok != b.ok) return "the outcome"; if (!a.ok) return nullptr; if (a.p.messages.size() != b.p.messages.size()) return "messages";
    auto opts = [](const protogen::OptionMap &x, const protogen::OptionMap &y) { if (x.size() != y.size()) return false; for (auto &o : x) { auto it = y.find(o.first); if (it == y.end() || it->second.name != o.second.name || it->second.value != o.second.value || it->second.type != o.second.type) return false; } return true; };
    if (!opts(a.p.options, b.p.options)) return "options";
    for (size_t i = 0; i < a.p.messages.size(); ++i) { auto &m = *a.p.messages[i], &n = *b.p.messages[i]; if (m.name != n.name || m.package != n.package || m.fields.size() != n.fields.size() || !opts(m.options, n.options)) return "a message";
        for (size_t j = 0; j < m.fields.size(); ++j) { auto &f = m.fields[j], &g = n.fields[j]; if (f.name != g.name || f.index != g.index || f.type.id != g.type.id || f.type.repeated != g.type.repeated || f.type.optional != g.type.optional || !opts(f.options, g.options) || (bool)f.type.ref != (bool)g.type.ref || (f.type.ref && f.type.ref->name != g.type.ref->name)) return "a field"; } }
    return nullptr;
}
static string white(char c) { sx_assume((c == ' ') | (c == '\n') | (c == '\t') | (c == '\r')); return string(1, c); }
// one piece of layout; 'last': at the end of the file, where a line comment needs no line feed
static string piece(bool last) {
    switch (sx_choose(last ? 4 : 3, "piece")) {
        case 0: return white((char)sx_value<uint8_t>("w"));
        case 1: { string t = sx_string(sx_choose(X_TEXT + 1, "n"), "line"); for (char c : t) sx_assume(c != '\n'); return "//" + t + "\n"; }
        case 2: { string t = sx_string(sx_choose(X_TEXT + 1, "n"), "block"); for (size_t i = 0; i + 1 < t.size(); ++i) sx_assume(!((t[i] == '*') & (t[i + 1] == '/'))); return "/*" + t + "*/"; }
        default: { string t = sx_string(sx_choose(X_TEXT + 1, "n"), "line"); for (char c : t) sx_assume(c != '\n'); return "//" + t; } }
}
extern "C" void sx_main() {
    uint32_t k = sx_choose(8, "file"); std::vector<const char *> t; for (int i = 0; F[k][i]; ++i) t.push_back(F[k][i]); size_t n = t.size();
    string plain; for (auto x : t) { plain += x; plain += ' '; } Parsed a; run_parser(plain, a); pref::R ref(plain); CHECK(ref.file() == a.ok, "the plain file is judged correctly");
#ifdef X_BIG
    // one gap holds a long comment or run of white space with one symbolic byte, or as many comments
    size_t at = sx_choose(3, "gap"); at = at == 0 ? 0 : at == 1 ? n / 2 : n; size_t z = size_up_to(X_BIG); static const char *const FILL[] = {"*", "/", "\n", "\r\n", "x", "\"", "*/*", "\xc3\xa9", " "}; uint32_t fi = sx_choose(9, "fill"); if (z > 1025 && (k > 2 || (k != 0 && at != n / 2) || (fi != 0 && fi != 3 && fi != 4))) sx_end(); string f = FILL[fi], p, s; while (p.size() + f.size() <= z) p += f; char c = (char)sx_value<uint8_t>("c"); p[sx_choose(2, "where") ? p.size() - 1 : p.size() / 2] = c;
    switch (sx_choose(4, "how")) { case 0: for (char &d : p) if (d == '\n') d = 'n'; sx_assume(c != '\n'); p = "//" + p + "\n"; break; case 1: for (size_t i = 0; i + 1 < p.size(); ++i) { if (f == "*/*" && p[i] == '*' && p[i + 1] == '/') p[i + 1] = '-'; sx_assume(!((p[i] == '*') & (p[i + 1] == '/'))); } p = "/*" + p + "*/"; break; case 2: if (f != "\n" && f != "\r\n" && f != " ") sx_end(); sx_assume((c == ' ') | (c == '\n') | (c == '\t') | (c == '\r')); break;
        default: if (z > 4097 || f != "*") sx_end(); p.clear(); for (size_t i = 0; i < z; ++i) p += i % 3 == 0 ? "/**/" : i % 3 == 1 ? "//\n" : " "; p += white(c); }
    for (size_t i = 0; i <= n; ++i) { if (i == at) s += p; else if (i > 0 && i < n) s += " "; if (i < n) s += t[i]; }
#elif defined(X_GAP)
    // one gap (also before the first and after the last token) holds up to X_GAP pieces; the others are as narrow as possible, or line feeds
    size_t at = sx_choose((uint32_t)n + 1, "gap"); uint32_t others = sx_choose(3, "others"); string s;
    for (size_t i = 0; i <= n; ++i) { bool need = i > 0 && i < n && glue(t[i - 1], t[i]);
        if (i == at) { uint32_t p = 1 + sx_choose(X_GAP, "pieces"); for (uint32_t j = 0; j < p; ++j) s += piece(i == n && j + 1 == p); } else if (others == 1) s += "\r\n"; else if (others == 2) s += "/**/"; else if (need) s += " "; if (i < n) s += t[i]; }
#else
    // every gap holds one piece; the same content everywhere
    string p = piece(false), s; for (size_t i = 0; i <= n; ++i) { s += p; if (i < n) s += t[i]; }
#endif
    Parsed b; run_parser(s, b); const char *d = differ(a, b); if (d) { sx_tag(d); CHECK(false, "the meaning is the same"); } sx_reach(a.ok ? "valid" : "invalid");
}
