// C19 (and C20): a file is accepted exactly if it is complete and well formed; an accepted file contributes everything
#include "pp.hh"
#include "protoref.hh"
static void judge(const string &src) {
    Parsed r; run_parser(src, r); pref::R f(src); bool want = f.file(); if (f.open) { sx_reach("open"); return; }
    if (!want) { CHECK(!r.ok, "an incomplete or malformed file is rejected"); sx_reach("rejected"); return; }
    CHECK(r.ok, "a valid file is accepted"); const char *d = pref::diff(f, r.p); if (d) { sx_tag(d); CHECK(false, "an accepted file contributes exactly its definitions"); } sx_reach("accepted");
}
extern "C" void sx_main() {
#ifdef X_PREFIX
    string v = sx_string(2, "v"); for (char c : v) sx_assume((c >= 'a') & (c <= 'z')); char g = (char)sx_value<uint8_t>("g"); sx_assume((g >= '1') & (g <= '9')); string s;
    switch (sx_choose(5, "file")) {
        case 0: s = "syntax = \"proto3\";\npackage a." + v + ";\nmessage M { int32 x_" + v + " = " + g + "; repeated N n = 1" + g + " [name=\"" + v + "\", transient=true]; }\nmessage N { option o=" + g + "; optional string s = 3; }\n"; break;
        case 1: s = "option a = \"" + v + "\"; // " + v + "\n/* " + v + " */ option b.c = true; message A{}message B{A a=1;}"; break; case 2: s = "message M/**/{/***/bool b/*" + v + "*/=//" + v + "\n" + g + ";}//" + v; break; case 3: s = "syntax=\"proto3\";"; break; default: s = "package " + v + "_;message A{double d=1[o=x." + v + "];}"; }
    size_t cut = sx_choose((uint32_t)s.size() + 1, "cut"); judge(s.substr(0, cut));
#elif defined(X_BYTES)
    static const char *P[] = {"", "message ", "message M", "message M{", "message M{int32 ", "message M{int32 a", "message M{int32 a=", "message M{int32 a=1", "message M{int32 a=1[", "message M{int32 a=1[b", "message M{int32 a=1[b=", "message M{int32 a=1[b=c", "message M{int32 a=1;", "message M{}", "package ", "package p", "syntax=\"proto", "syntax", "option ", "option a=", "option a=\"b", "option a=b", "message M{option a=1;", "message M{repeated ", "message M{M", "//", "/*", "message M{}/"};
    static const char *Q[] = {"", "{}", "{}", "}", "=1;}", "=1;}", ";}", ";}", "];}", "=1];}", "];}", "];}", "}", "", ";", ";", "\";", "=\"proto3\";", "=1;", ";", "\";", ";", "}", " a=1;}", " a=1;}", "\nmessage M{}", "*/message M{}", "\n"};
    static const char *B[] = {"", "message Z{bool z=1;}", "package pk;message Z{}", "option zz=1;", "syntax=\"proto3\";package y;option zz=\"y\";"};
    uint32_t c = sx_choose(28, "context"); string s = string(B[sx_choose(5, "before")]) + P[c] + sx_string(sx_choose(X_BYTES + 1, "n"), "x"); if (sx_choose(2, "close")) s += Q[c]; judge(s);
#else
    // valid token sequences with tokens dropped, doubled, replaced or inserted
    static const char *D[][40] = {{"syntax", "=", "\"proto3\"", ";", "package", "p.q", ";", "message", "M", "{", "int32", "a", "=", "1", ";", "}", 0}, {"message", "M", "{", "repeated", "N", "n", "=", "2", "[", "a", "=", "true", ",", "b.c", "=", "\"x\"", "]", ";", "option", "o", "=", "5", ";", "}", "message", "N", "{", "}", 0}, {"option", "a", "=", "b", ";", "message", "message", "{", "optional", "bytes", "package", "=", "3", ";", "string", "t", "=", "4", ";", "}", 0}};
    static const char *A[] = {"{", "}", "[", "]", "=", ";", ",", "<", "a", "b.c", "7", "0", "\"s\"", "\"proto3\"", "message", "repeated", "optional", "int32", "syntax", "package", "option", "true", "map", "enum", "#", "/", "\"", "/*"};
    uint32_t k = sx_choose(3, "file"); std::vector<const char *> d; for (int i = 0; D[k][i]; ++i) d.push_back(D[k][i]);
    for (int e = 0; e < X_TOKENS; ++e) { size_t at = sx_choose((uint32_t)d.size(), "at"); uint32_t op = sx_choose(58, "op"); if (op == 0) d.erase(d.begin() + at); else if (op == 1) d.insert(d.begin() + at, d[at]); else if (op < 30) d[at] = A[op - 2]; else d.insert(d.begin() + at, A[op - 30]); }
    string s; if (sx_choose(2, "before")) s = "message Z{bool z=1;}package p.r;\n"; for (auto t : d) { s += t; s += '\n'; } judge(s);
#endif
}
