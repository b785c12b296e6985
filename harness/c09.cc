// C09: JSON escapes in values, member names and skipped strings, against the reference decoder
#include "types.pg.hh"
#include "rt.hh"
#include "jsonref.hh"
// the text between the quotes; ok: whether RFC 8259 allows it, want: what it denotes
static string text; static bool ok; static string want;
static void decode() { string q = "\"" + text + "\""; jref::P p(q, false); want = string(); ok = p.str(want) && p.i == q.size(); }
static unsigned char any() { unsigned char c; sx_bytes(&c, 1, "c"); return c; }
static void hex4() { for (int i = 0; i < 4; ++i) text += (char)any(); }
static string place_doc(uint32_t p) { static const char *B[] = {"{\"s\":\"", "{\"z\":\"", "{\"z\":[1,{\"y\":\"", "{\"z\":{\"", "{\""}; static const char *E[] = {"\"}", "\"}", "\"}]}", "\":1}}", "\":1}"}; return B[p] + text + E[p]; }
extern "C" void sx_main() {
    switch (X_FORM) {
        case 0: text = "\\"; text += (char)any(); break;                                    // backslash and any byte
        case 1: text = "\\u"; hex4(); break;                                                  // \uXXXX, any four bytes
        case 2: { text = "\\uD"; unsigned char c = any(); sx_assume((c == '8') | (c == '9') | (c == 'A') | (c == 'B') | (c == 'a') | (c == 'b')); text += (char)c; text += (char)any(); text += "F"; text += (char)any(); text += (char)any(); text += (char)any(); text += (char)any(); text += "C00"; break; } // a lead and six bytes
        case 3: { text = "\\u"; unsigned char c = any(), d = any(); sx_assume(((c == 'd') | (c == 'D')) & (d >= '8') & (d != ':') & ((d <= '9') | ((d >= 'A') & (d <= 'F')) | ((d >= 'a') & (d <= 'f')))); text += (char)c; text += (char)d; text += "3D\\u"; c = any(); d = any(); sx_assume(((c == 'd') | (c == 'D')) & (((d >= '8') & (d <= '9')) | ((d >= 'A') & (d <= 'F')) | ((d >= 'a') & (d <= 'f')))); text += (char)c; text += (char)d; text += (char)any(); text += (char)any(); break; } // two surrogates, any order
        case 4: { static const char *P[] = {"\\uD800", "\\udbff", "\\uDC00", "\\uDfFf", "\\uD83D\\uDE00", "x", "\\n", "\\u0041"}; text = P[sx_choose(8, "p")]; text += P[sx_choose(8, "q")]; if (sx_choose(2, "three")) text += P[sx_choose(8, "r")]; break; } // sequences
        default: { static const char *P[] = {"\\u004", "\\u", "\\uD83D\\u", "\\", "\\u12"}; text = P[sx_choose(5, "p")]; break; } // cut short by the end of the string
    }
    uint32_t p = sx_choose(5, "place"); decode(); for (unsigned char c : text) sx_assume((c >= 0x20) & ((X_FORM == 0) | (c != 0x22))); // raw control characters and the closing quote are other properties' business
    string doc = place_doc(p);
    if (p == 4) sx_assume(!(ok && (same(want, "s"))));
    t::Str m; PG::Parameters ps; bool r = m.deserialize(doc, &ps); CHECK(r == ok, ok ? "a well-formed escape is accepted" : "a malformed escape is rejected");
    if (!r) { CHECK(ps.error.code != PG::PGERR_OK, "error code"); sx_reach("malformed"); return; }
    if (p == 0) CHECK(same(*m.s, want), "the escape denotes its code point in UTF-8"); else CHECK(m.s.empty(), "other members are untouched"); sx_reach("decoded");
}
