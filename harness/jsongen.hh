// Symbolic JSON values: the shape is chosen, the text inside is symbolic.
#pragma once
#include "rt.hh"
static inline bool raw_char(unsigned char c) { return (c >= 0x20) & (c != '"') & (c != '\\'); }
static inline string sx_raw(size_t n, const char *name) { string s = sx_string(n, name); int ok = 1; for (size_t i = 0; i < n; ++i) ok &= raw_char((unsigned char)s[i]); sx_assume(ok); return s; }
static inline char sx_digit(const char *name) { char c; sx_bytes(&c, 1, name); sx_assume((c >= '0') & (c <= '9')); return c; }
// any JSON value nested at most depth deep
static string gen_value(int depth, const char *label = "value") {
    switch (sx_choose(depth > 0 ? 12 : 7, label)) {
        case 0: return "\"" + sx_raw(sx_choose(3, "len"), "text") + "\"";
        case 1: return "null"; case 2: return "true"; case 3: return "false";
        case 4: { static const char *N[] = {"-0", "1.5", "-12.25E+3", "0e-1", "3E7"}; return N[sx_choose(5, "form")]; }
        case 5: { string s = "-"; s += sx_digit("digit"); s += "."; s += sx_digit("digit"); return s; }
        case 6: { static const char *S[] = {"\"\\\"\"", "\"\\\\\"", "\"}]{[:,\"", "\"\\u0022\\uD83D\\uDE00\"", "\"\\/\\b\\f\\n\\r\\t\""}; return S[sx_choose(5, "form")]; }
        case 7: return "[]"; case 8: return "{}";
        case 9: return "[" + gen_value(depth - 1, "element") + "]";
        case 10: return "{\"" + sx_raw(sx_choose(2, "len"), "name") + "\":" + gen_value(depth - 1, "element") + "}";
        default: return sx_choose(2, "pair") ? "[" + gen_value(0, "element") + " , " + gen_value(depth - 1, "element") + "]" : "{\"a\":" + gen_value(0, "element") + ",\"\" : " + gen_value(depth - 1, "element") + "}";
    }
}
