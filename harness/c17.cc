// C17: the parser ends with a result or its own diagnostic, whatever the input
#include "pp.hh"
static void judge(const string &src) { Parsed r; run_parser(src, r); sx_reach(r.ok ? "accepted" : "rejected");
    if (r.ok) for (auto &m : r.p.messages) { CHECK(m && !m->name.empty(), "every message has a name"); for (auto &f : m->fields) CHECK(!f.name.empty() && f.index > 0 && (f.type.id == protogen::TYPE_MESSAGE) == (bool)f.type.ref, "every field is complete"); } }
extern "C" void sx_main() {
#ifdef X_ALL
    judge(sx_string(sx_choose(X_ALL + 1, "n"), "x"));
#elif defined(X_CONTEXT)
    static const char *P[] = {"syntax", "syntax=", "syntax=\"", "package ", "package a", "package a.", "option ", "option a.b", "option a=", "option a=\"", "message ", "message M ", "message M{", "message M{}", "message M{int32 ", "message M{int32 a", "message M{int32 a=", "message M{int32 a=1", "message M{int32 a=1[", "message M{int32 a=1[b", "message M{int32 a=1[b=", "message M{int32 a=1[b=1", "message M{repeated ", "message M{optional M", "message M{option ", "message M{N", "/", "//", "/*", "/* *", "message M{int32 a=1;", "message M{int32 a=1[b=\"", "message M{bytes message=2[a.b=c,", "message M{M m=1;", "\xef\xbb\xbf", "a", "1", "\"", "package p;message A{B"};
    string s = P[sx_choose(39, "context")]; s += sx_string(sx_choose(X_CONTEXT + 1, "n"), "x"); static const char *Q[] = {"", "\n", "*/", "\"", ";}", "=1;}"}; s += Q[sx_choose(6, "end")]; judge(s);
#else
    // long tokens, long runs of one byte, many definitions
    uint32_t k = sx_choose(9, "what"); string s; char c = (char)sx_value<uint8_t>("c"); const size_t N = X_LONG;
    switch (k) { case 0: s = "message " + string(N, 'a') + c; break; case 1: s = "message M{int32 a=" + string(N, '9') + c; break; case 2: s = "option a=\"" + string(N, ' ') + c; break; case 3: s = "/*" + string(N, '*') + c; break; case 4: s = "//" + string(N, '/') + c; break; case 5: s = string(N, ' ') + c; break; case 6: s = "package "; for (size_t i = 0; i < N / 4; ++i) s += "abc."; s += c; break;
        case 7: for (size_t i = 0; i < N / 64; ++i) { s += "message M" + std::to_string(i) + "{"; if (i) s += "M0 a=1;"; s += "}"; } s += c; break; default: s = "message M{"; for (size_t i = 1; i < N / 64; ++i) s += "int32 a" + std::to_string(i) + "=" + std::to_string(i) + ";"; s += c; s += "}"; }
    judge(s); sx_reach("long");
#endif
}
