// C20: a valid file is parsed into exactly the definitions it contains
#include "pp.hh"
#include "protoref.hh"
#include "sizes.hh"
static const char *const SCALARS[] = {"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"};
static string ident(size_t max, const char *name) { size_t n = 1 + sx_choose((uint32_t)max, "len"); string s = sx_string(n, name); for (size_t i = 0; i < n; ++i) { unsigned char c = (unsigned char)s[i]; sx_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | ((i > 0) & (c >= '0') & (c <= '9'))); } return s; }
static string digits(size_t n, const char *name) { string s = sx_string(n, name); for (size_t i = 0; i < n; ++i) sx_assume((s[i] >= '0' + (i == 0)) & (s[i] <= '9')); return s; }
static string text(size_t max, const char *name) { string s = sx_string(sx_choose((uint32_t)max + 1, "len"), name); for (char c : s) sx_assume((c != '"') & (c != '\n') & (c != 0) & (c != '\\')); return s; }
static void judge(const string &src, Parsed &r) {
    pref::R f(src); bool ok = f.file(); if (f.open) { sx_reach("open"); sx_end(); } sx_assume(ok); // e.g. two fields that happen to get the same name or number
    run_parser(src, r); if (!r.ok) sx_tag(r.what.c_str()); CHECK(r.ok, "a valid file is accepted"); const char *d = pref::diff(f, r.p); if (d) { sx_tag(d); CHECK(false, "exactly the definitions of the file"); } CHECK(r.p.fileName == "f.proto", "the file name is recorded"); sx_reach("accepted");
}
extern "C" void sx_main() {
    Parsed r; string s;
#ifdef X_FIELDS
    // fields of every type and label, symbolic names and numbers; expected values stated here, not computed by the reference
    uint32_t t = sx_choose(16, "type"), l = sx_choose(3, "label"); string n = ident(2, "name"), d = digits(1 + sx_choose(9, "digits"), "number"); static const char *LAB[] = {"", "repeated ", "optional "};
    s = "message M{" + string(LAB[l]) + (t < 15 ? SCALARS[t] : "N") + " " + n + "=" + d + ";}message N{}"; judge(s, r); auto &f = r.p.messages[0]->fields.at(0); CHECK(f.name == n && (int)f.type.id == (int)protogen::TYPE_DOUBLE + (int)t && f.type.repeated == (l == 1) && f.type.optional == (l == 2) && (uint32_t)f.index == (uint32_t)sx_undigits(d.data(), d.size()) && f.options.empty(), "the field"); CHECK(t < 15 ? !f.type.ref : f.type.ref == r.p.messages[1], "the type");
#elif defined(X_BIG)
    // long names, texts and values with one symbolic byte; many definitions
    size_t z = size_up_to(X_BIG); string w; for (size_t i = 0; i < z; ++i) w += (char)('a' + i % 23); char c = (char)sx_value<uint8_t>("c"); bool word = ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | ((c >= '0') & (c <= '9')); uint32_t k = sx_choose(13, "what"); if (k == 5) sx_assume((c != '"') & (c != '\n') & (c != 0) & (c != '\\') & (c != '\'')); else sx_assume(word); w[sx_choose(2, "at") ? z - 1 : z / 2] = c;
    switch (k) { case 0: s = "message " + w + "{}"; break; case 1: s = "message M{int32 " + w + "=1;}"; break; case 2: s = "message M{" + w + " a=1;}message " + w + "{}"; break; case 3: s = "package " + w + ".p;message M{}"; break; case 4: s = "option " + w + "=" + w + ";"; break; case 5: s = "message M{int32 a=1[name=\"" + w + "\"];}"; break; case 6: s = "message M{int32 a=1;option o=\"" + w + "\";}"; break; case 12: s = "package p"; for (size_t i = 1; i < z / 2; ++i) s += ".p"; s += ";message M{}"; break;
        default: if (z > X_BIG / 8 || z > 1025) sx_end(); s = k == 11 ? "message M{int32 a=1[" : k > 8 ? "message M{" : ""; for (size_t i = 0; i < z; ++i) { string j = std::to_string(i + 1); switch (k) { case 7: s += "message m" + j + "{}"; break; case 8: s += "option o" + j + "=" + j + ";"; break; case 9: s += "int32 f" + j + "=" + j + ";"; break; case 10: s += "option o" + j + "=\"" + j + "\";"; break; default: s += (i ? ",o" : "o") + j + "=true"; } } s += k == 11 ? "];}" : k > 8 ? "}" : ""; s += string("message Z{bool z") + c + "=1;}"; } judge(s, r);
#elif defined(X_NAMES)
    switch (sx_choose(7, "where")) {
        case 0: s = "message " + ident(X_NAMES, "a") + "{}"; break; case 1: s = "package " + ident(2, "a") + (sx_choose(2, "dot") ? "." + ident(2, "b") : "") + ";message M{M2 x=1;}message M2{}"; break; case 2: { string a = ident(2, "a"), b = ident(2, "b"); s = "message " + a + "{" + b + " f=1;}message " + b + "{}"; break; }
        case 3: s = "message M{bool " + ident(2, "a") + "=1;bool " + ident(2, "b") + "=2;}"; break; case 4: s = "option " + ident(2, "a") + (sx_choose(2, "dot") ? "." + ident(2, "b") : "") + "=" + ident(2, "c") + (sx_choose(2, "dot") ? "." + ident(1, "d") : "") + ";"; break;
        case 5: { string a = ident(2, "a"); s = "package p;message " + a + "{}package q." + ident(1, "b") + ";message " + a + "{}message M{repeated " + a + " x=1;}"; break; }
        default: { string a = ident(1, "a"), b = ident(1, "b"); s = "message M{" + a + "." + b + " f=1;}package " + a + ";message " + b + "{}"; break; } }
    judge(s, r);
#elif defined(X_WORDS)
    // names next to the keywords: one byte added, dropped or changed; the keywords allowed as names
    const int NW = sizeof pref::WORDS / sizeof *pref::WORDS; string w = pref::WORDS[sx_choose(NW, "word")].w; char c = (char)sx_value<uint8_t>("c"); bool ok = ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | ((c >= '0') & (c <= '9')); sx_assume(ok);
    switch (sx_choose(5, "edit")) { case 4: for (char &x : w) if (x >= 'a' && x <= 'z') x = (char)(x - 32); break; case 0: w += c; break; case 1: w = string(1, c) + w; break; case 2: w.erase(w.size() - 1); break; default: w[sx_choose((uint32_t)w.size(), "at")] = c; } sx_assume(!pref::digit((unsigned char)w[0]));
    switch (sx_choose(6, "where")) { case 0: s = "message " + w + "{}"; break; case 1: s = "message M{int32 " + w + "=1;}"; break; case 2: s = "message M{" + w + " a=1;}message " + w + "{}"; break; case 3: s = "package " + w + ";message M{}"; break; case 4: s = "option " + w + "=" + w + ";"; break; default: { static const char *KW[] = {"message", "package"}; string k = KW[sx_choose(2, "kw")]; s = "message " + k + "{bool " + k + "=1;repeated " + w + " x=2;}message " + w + "{}"; } } judge(s, r);
#elif defined(X_OPTIONS)
    uint32_t n = 1 + sx_choose(X_OPTIONS, "count"); string o[4]; for (uint32_t i = 0; i < n; ++i) { string name = string("o") + char('a' + i); if (sx_choose(2, "long")) name += ".x"; string v; switch (sx_choose(6, "value")) { case 0: v = "true"; break; case 1: v = "false"; break; case 2: v = digits(2, "int"); break; case 3: v = "\"" + text(2, "text") + "\""; break; case 4: v = ident(1, "id"); break; default: v = "a.b_1"; } o[i] = name + "=" + v; }
    switch (sx_choose(3, "where")) { case 0: for (uint32_t i = 0; i < n; ++i) s += "option " + o[i] + ";"; s += "message M{}"; break; case 1: s = "message M{bool a=1;"; for (uint32_t i = 0; i < n; ++i) s += "option " + o[i] + ";"; s += "}"; break; default: s = "message M{bytes a=1["; for (uint32_t i = 0; i < n; ++i) s += (i ? "," : "") + o[i]; s += "];bool b=2[z=1];}"; } judge(s, r);
#else
    // whole files: counts of messages and fields, packages in between, syntax and options anywhere
    uint32_t m = sx_choose(X_FILES + 1, "messages"); if (sx_choose(2, "syntax")) s = "syntax=\"proto3\";"; for (uint32_t i = 0; i < m; ++i) { uint32_t pre = sx_choose(4, "before"); if (pre == 1) s += "package p" + std::to_string(i) + ";"; else if (pre == 2) s += "option f" + std::to_string(i) + "=" + std::to_string(i) + ";"; else if (pre == 3) s += "package q.r;"; uint32_t n = sx_choose(4, "fields"); s += "message M" + std::to_string(i) + "{"; static const char *Fd[] = {"int32 a=7;", "repeated string b=536870911[name=\"x\"];", "optional bytes c=18999;"}; for (uint32_t j = 0; j < n; ++j) s += Fd[j]; s += "}"; } judge(s, r); CHECK(r.p.messages.size() == m, "the number of messages");
#endif
}
