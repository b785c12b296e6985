// C10: white space between tokens and member order do not matter; white space in strings is data
#include "types.pg.hh"
#include "rt.hh"
static char wsp() { char c; sx_bytes(&c, 1, "ws"); sx_assume((c == ' ') | (c == '\t') | (c == '\r') | (c == '\n')); return c; }
#ifdef X_TOKENS
// documents as token lists; some are wrong
static const char *D0[] = {"{", "\"i\"", ":", "-12", ",", "\"s\"", ":", "\"a\"", ",", "\"ri\"", ":", "[", "1", ",", "2", "]", ",", "\"b\"", ":", "true", "}", 0};
static const char *D1[] = {"{", "\"m\"", ":", "{", "\"a\"", ":", "0", ",", "\"b\"", ":", "null", "}", ",", "\"rm\"", ":", "[", "{", "}", ",", "{", "\"b\"", ":", "\"\"", "}", "]", "}", 0};
static const char *D2[] = {"{", "\"zz\"", ":", "[", "{", "\"y\"", ":", "null", "}", ",", "1.5e3", ",", "[", "]", "]", ",", "\"rs\"", ":", "[", "\"x\"", "]", "}", 0};
static const char *D3[] = {"{", "}", 0};
static const char *D4[] = {"{", "\"i\"", ":", "1", "2", "}", 0};               // wrong: two values
static const char *D5[] = {"{", "\"ri\"", ":", "[", "1", "}", 0};              // wrong: bracket
static const char *D6[] = {"{", "\"zz\"", ":", "[", "1", "2", "]", "}", 0};    // wrong: separator in a skipped value
static const char *D7[] = {"{", "\"i\"", ":", "tr", "ue", "}", 0};             // wrong: cut keyword
static const char **D[] = {D0, D1, D2, D3, D4, D5, D6, D7};
static bool word(const char *t) { char c = t[0]; return (c >= '0' && c <= '9') || c == '-' || (c >= 'a' && c <= 'z'); }
extern "C" void sx_main() {
    const char **d = D[sx_choose(8, "doc")]; size_t n = 0; while (d[n]) ++n; string ref, js; bool everywhere = sx_choose(2, "everywhere"); char w = everywhere ? wsp() : ' '; size_t gap = sx_choose((uint32_t)n + 1, "gap"); size_t run = sx_choose(X_TOKENS, "run") + 1;
    for (size_t i = 0; i <= n; ++i) {
        bool need = i && i < n && word(d[i]) && word(d[i - 1]); if (need) { ref += ' '; if (!everywhere && i != gap) js += ' '; }
        if (everywhere) js += w; if (i == gap) for (size_t k = 0; k < run; ++k) js += wsp(); if (i < n) { ref += d[i]; js += d[i]; }
    }
    t::Mix a, b; bool x = a.deserialize(ref), y = b.deserialize(js); CHECK(x == (d != D4 && d != D5 && d != D6 && d != D7), "the compact document"); CHECK(x == y, "white space does not change the outcome"); if (x) CHECK(a == b, "white space does not change the message"); sx_reach(x ? "accepted" : "refused");
}
#elif defined(X_ORDER)
extern "C" void sx_main() {
    string v = sx_plain(2, "v"); char dg; sx_bytes(&dg, 1, "dg"); sx_assume((dg >= '0') & (dg <= '9')); string M[5] = {string("\"i\":") + dg, "\"s\":\"" + v + "\"", string("\"ri\":[1,") + dg + "]", "\"m\":{\"b\":\"" + v + "\",\"a\":1}", "\"q\":[{}]"}; if (sx_choose(2, "inner")) M[3] = "\"m\":{\"a\":1,\"b\":\"" + v + "\"}";
    int p[5] = {0, 1, 2, 3, 4}; for (int i = 0; i < X_ORDER - 1; ++i) { int j = i + (int)sx_choose((uint32_t)(X_ORDER - i), "pick"); int t = p[i]; p[i] = p[j]; p[j] = t; }
    string js = "{"; for (int i = 0; i < X_ORDER; ++i) { if (i) js += ','; js += M[p[i]]; } js += '}';
    t::Mix m, w; w.i = dg - '0'; w.s = v; w.ri.push_back(1); w.ri.push_back(dg - '0'); w.m.a = 1; w.m.b = v; CHECK(m.deserialize(js), "members in any order are accepted"); CHECK(m == w, "member order does not matter"); sx_reach("order");
}
#else
// white space inside strings
extern "C" void sx_main() {
    size_t n = sx_choose(X_INSIDE, "n") + 1; string s; for (size_t i = 0; i < n; ++i) s += wsp(); if (sx_choose(2, "text")) { s = "a" + s + "b"; } uint32_t place = sx_choose(3, "place"); bool only_space = true; for (char c : s) only_space &= c == ' ' || c == 'a' || c == 'b';
    if (place == 0) { t::Str m; bool r = m.deserialize("{\"s\":\"" + s + "\"}"); if (only_space) CHECK(r, "a space in a string is accepted"); if (r) { CHECK(same(*m.s, s), "white space in a string is preserved"); sx_reach("value"); } }
    else if (place == 1) { t::StrR m; bool r = m.deserialize("{\"r\":[\"" + s + "\",\"x\"]}"); if (only_space) CHECK(r, "a space in a string is accepted"); if (r) { CHECK(m.r.size() == 2 && same(m.r[0], s), "white space in a string is preserved"); sx_reach("list"); } }
    else { t::Inner m; string k = sx_choose(2, "front") ? s + "a" : "a" + s; bool r = m.deserialize("{\"" + k + "\":1,\"b\":\"x\"}"); if (only_space) CHECK(r, "a space in a name is accepted"); if (r) { CHECK(m.a.empty() && m.b == "x", "a name with white space is another name"); sx_reach("name"); } }
}
#endif
