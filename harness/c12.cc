// C12: arbitrary bytes: no memory error, undefined behaviour, exception or endless loop; the object stays usable
#include "types.pg.hh"
#include "bytes.pg.hh"
#include "rt.hh"
#include <stdlib.h>
template <class M> static void feed(const string &js, uint32_t entry, const char *again, bool back = true) {
    M m; PG::Parameters ps; bool r; string copy = js;
    try {
        switch (entry) {
            case 0: { char *p = (char *)malloc(js.size() ? js.size() : 1); if (js.size()) memcpy(p, js.data(), js.size()); else { free(p); p = (char *)malloc(0); } r = m.deserialize(p, js.size(), &ps); bool kept = same(p, js.size(), js); CHECK(kept, "the input is left alone"); free(p); break; } // exactly sized heap block
            case 1: r = m.deserialize(js, &ps); break;
            case 2: { std::vector<char> v(js.begin(), js.end()); r = m.deserialize(v, &ps); break; }
            default: { string s = js; PG::iterator_istream<string::iterator> is(s.begin(), s.end()); r = m.deserialize(is, &ps); break; }
        }
        CHECK(r || ps.error.code != PG::PGERR_OK, "false comes with an error"); CHECK(same(copy, js), "the input is left alone");
        string out; bool w = back && m.serialize(out); if (w) { M x; CHECK(x.deserialize(out), "what was read can be written and read"); } M c(m); m.clear(); CHECK(m.empty(), "the object can be cleared"); CHECK(m.deserialize(string(again)) && !m.empty(), "the object can be read into again"); c = m; CHECK(c == m, "the object can be copied");
    } catch (...) { CHECK(false, "no exception"); }
    sx_reach(r ? "accepted" : "refused");
}
extern "C" void sx_main() {
#ifdef X_ALL
    string js = sx_string(sx_choose(X_ALL + 1, "n"), "x"); feed<t::Mix>(js, sx_choose(4, "entry"), "{\"i\":1}");
#elif defined(X_CONTEXT)
    static const char *P[] = {"{\"i\":", "{\"i\":-1", "{\"s\":\"", "{\"s\":\"\\u", "{\"s\":\"\\uD83D", "{\"b\":t", "{\"ri\":[", "{\"ri\":[1", "{\"rs\":[\"a\"", "{\"m\":{\"a\":", "{\"rm\":[{\"b\":\"", "{\"zz\":[", "{\"zz\":{\"", "{\"", "{\"i\":1,", "{\"i\":1}"};
    string js = P[sx_choose(16, "context")] + sx_string(sx_choose(X_CONTEXT + 1, "n"), "x"); if (sx_choose(2, "close")) js += "\"}]}"; feed<t::Mix>(js, sx_choose(2, "entry"), "{\"s\":\"q\"}");
#elif defined(X_OTHER)
    // bytes, floating point, 64-bit and boolean fields; no fields at all
    string x = sx_string(sx_choose(X_OTHER + 1, "n"), "x"); bool cl = sx_choose(2, "close"); switch (sx_choose(8, "type")) {
        case 0: feed<b::By>("{\"v\":\"" + x + (cl ? "\"}" : ""), 0, "{\"v\":\"AA==\"}"); break; case 1: feed<b::By>("{\"v\":\"AAAA" + x + (cl ? "\"}" : ""), 0, "{\"v\":\"AA==\"}"); break; case 2: feed<t::m_double>("{\"v\":" + x + (cl ? "}" : ""), 0, "{\"v\":1}", false); break; case 3: feed<t::m_float>("{\"v\":1" + x + (cl ? "}" : ""), 0, "{\"v\":1}", false); break;
        case 4: feed<t::m_uint64>("{\"r\":[-" + x + (cl ? "]}" : ""), 0, "{\"v\":1}", false); break; case 5: feed<t::m_bool>("{\"v\":" + x + (cl ? "}" : ""), 0, "{\"v\":true}"); break; case 6: feed<t::Tr>("{\"hid\":" + x + (cl ? "}" : ""), 0, "{\"keep\":1}"); break; default: feed<t::Str>(x + "{\"s\":\"\"" + (cl ? "}" : ""), 0, "{\"s\":\"\"}"); }
#elif defined(X_NUMBERS)
    // long numbers of symbolic digits into every kind of number
    static const int N[] = {1, 10, 11, 18, 19, 20, 21, 40, 330}; int n = N[sx_choose(9, "digits")]; string d = sx_string((size_t)n < 3 ? (size_t)n : 3, "d"); int ok = 1; for (char c : d) ok &= (c >= '0') & (c <= '9'); sx_assume(ok); while ((int)d.size() < n) d += "9"; static const char *S[] = {"", "-", "0.", "-.", "1e", "1e-", "--", "1.5.5e+"}; d = S[sx_choose(8, "sign")] + d; if (sx_choose(2, "exp")) d += "e9999999999";
    string v = "{\"v\":" + d + "}"; switch (sx_choose(5, "type")) { case 0: feed<t::m_int32>(v, 0, "{\"v\":1}", false); break; case 1: feed<t::m_uint32>(v, 0, "{\"v\":1}", false); break; case 2: feed<t::m_int64>(v, 0, "{\"v\":1}", false); break; case 3: feed<t::m_uint64>(v, 0, "{\"v\":1}", false); break; default: feed<t::m_bool>("{\"zz\":" + d + "}", 0, "{\"v\":true}"); }
#else
    // input nested X_DEPTH levels deep inside a skipped value
    static const char *B[] = {"[", "{\"a\":", "[{\"\":"}; uint32_t k = sx_choose(3, "kind"); string js = "{\"zz\":"; char c = (char)sx_value<uint8_t>("c"); for (int i = 0; i < X_DEPTH; ++i) js += B[k]; js += c; bool cl = sx_choose(2, "close"); if (cl) { js += "1"; for (int i = 0; i < X_DEPTH; ++i) js += k == 0 ? "]" : k == 1 ? "}" : "}]"; js += "}"; }
    t::Mix m; bool r = m.deserialize(js.data(), js.size()); if (cl && c == ' ') CHECK(r, "deeply nested values are skipped"); if (!cl) CHECK(!r, "cut"); sx_reach(r ? "accepted" : "refused");
#endif
}
