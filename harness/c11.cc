// C11: truncated or malformed documents, and values of the wrong type, are refused
#include "types.pg.hh"
#include "bytes.pg.hh"
#include "rt.hh"
#include "typed.hh"
static void decide_doc(const string &js, const char *bad, const char *good) {
    int want = typed::verdict(js, typed::Mix); if (want < 0) { sx_reach("open"); return; } t::Mix m; PG::Parameters ps; bool r = m.deserialize(js, &ps);
    CHECK(r == (want == 1), want ? good : bad); if (!r) CHECK(ps.error.code != PG::PGERR_OK, "an error is reported"); sx_reach(want ? "accepted" : "refused");
}
extern "C" void sx_main() {
#ifdef X_PREFIX
    // a valid document, cut at any byte
    string v = sx_plain(2, "v"), d; char g = (char)sx_value<uint8_t>("g"); sx_assume((g >= '0') & (g <= '9')); string js;
    switch (sx_choose(6, "doc")) {
        case 0: js = string("{\"i\":") + g + ",\"s\":\"" + v + "\",\"b\":true,\"ri\":[" + g + ",-2]}"; break; case 1: js = "{\"m\":{\"a\":" + string(1, g) + ",\"b\":\"" + v + "\\u00e9\"},\"rm\":[{},{\"b\":null}]}"; break;
        case 2: js = "{\"zz\":[{\"" + v + "\":[null,\"" + v + "\"]},1e" + g + "],\"b\":false}"; break; case 3: js = "{}"; break; case 4: js = " {\"rs\" : [\"\", \"\\\"" + v + "\"] , \"i\" : null } "; break; default: js = "{\"rs\":[],\"zz\":{\"a\":{}},\"s\":null}"; }
    { t::Mix m; CHECK(m.deserialize(js), "the whole document is accepted"); } size_t end = js.size(); while (js[end - 1] != '}') --end; size_t cut = sx_choose((uint32_t)end, "cut"); string p = js.substr(0, cut); t::Mix m; PG::Parameters ps; CHECK(!m.deserialize(p, &ps), "a cut document is refused"); CHECK(ps.error.code != PG::PGERR_OK, "an error is reported");
    t::Mix n; CHECK(!n.deserialize(p.data(), p.size(), &ps), "a cut buffer is refused"); std::vector<char> w(p.begin(), p.end()); CHECK(!n.deserialize(w), "a cut vector is refused"); sx_reach("cut");
#elif defined(X_BYTES)
    static const char *P[] = {"", "{", "{\"i\"", "{\"i\":", "{\"i\":1", "{\"s\":", "{\"ri\":[", "{\"ri\":[1", "{\"m\":{\"a\":1", "{\"zz\":", "{\"zz\":[", "{\"zz\":[1", "{\"zz\":{\"y\"", "{\"zz\":{\"y\":2", "{\"rm\":[{}", "{\"b\":"};
    static const char *Q[] = {"", "}", ":1}", "}", "}", "}", "]}", "]}", "}}", "}", "]}", "]}", ":1}}", "}}", "]}", "}"};
    uint32_t c = sx_choose(16, "context"); string x = sx_string(sx_choose(X_BYTES + 1, "n"), "x"); decide_doc(P[c] + x + Q[c], "a malformed document is refused", "a well-formed document is accepted");
#elif defined(X_TOKENS)
    // valid token sequences with one or two tokens dropped, doubled or replaced
    static const char *D[][26] = {{"{", "\"i\"", ":", "1", ",", "\"ri\"", ":", "[", "1", ",", "2", "]", ",", "\"s\"", ":", "\"x\"", "}", 0}, {"{", "\"m\"", ":", "{", "\"a\"", ":", "0", ",", "\"b\"", ":", "null", "}", ",", "\"rm\"", ":", "[", "{", "}", ",", "{", "\"b\"", ":", "\"\"", "}", "]", 0}, {"{", "\"zz\"", ":", "[", "{", "\"y\"", ":", "null", ",", "\"x\"", ":", "[", "]", "}", ",", "1", "]", ",", "\"b\"", ":", "true", "}", 0}};
    static const char *A[] = {"{", "}", "[", "]", ":", ",", "\"a\"", "1", "null", "true"};
    uint32_t k = sx_choose(3, "doc"); std::vector<const char *> d; for (int i = 0; i < 26 && D[k][i]; ++i) d.push_back(D[k][i]); if (k == 1) d.push_back("}");
    for (int e = 0; e < X_TOKENS; ++e) { size_t at = sx_choose((uint32_t)d.size(), "at"); uint32_t op = sx_choose(22, "op"); if (op == 0) d.erase(d.begin() + at); else if (op == 1) d.insert(d.begin() + at, d[at]); else if (op < 12) d[at] = A[op - 2]; else d.insert(d.begin() + at, A[op - 12]); }
    string js; for (auto t : d) { js += t; js += ' '; } decide_doc(js, "a malformed document is refused", "a well-formed document is accepted");
#elif defined(X_TYPES)
    // every kind of JSON value in every kind of field
    static const char *V[] = {"null", "true", "false", "7", "-1.5e3", "\"\"", "\"QQ==\"", "[]", "{}", "[1]", "[\"x\"]", "[{}]", "[[]]", "[true]", "{\"a\":1}", "{\"a\":\"x\"}", "{\"b\":[]}", "[1,\"x\"]", "[{\"a\":{}}]", "{\"q\":1}"};
    static const char *F[] = {"i", "s", "b", "ri", "rs", "m", "rm"}; string v = V[sx_choose(20, "value")]; uint32_t f = sx_choose(12, "field");
    if (f < 7) { decide_doc(string("{\"") + F[f] + "\":" + v + "}", "a value of the wrong type is refused", "a value of the right type is accepted"); if (f == 6) decide_doc("{\"rm\":[{}," + v + "]}", "an element of the wrong type is refused", "an element of the right type is accepted"); }
    else { string js = "{\"v\":" + v + "}"; bool num = v == "null" || v == "7" || v == "-1.5e3", r, want = num; switch (f) { case 7: { t::m_double m; r = m.deserialize(js); break; } case 8: { t::m_float m; r = m.deserialize(js); break; } case 9: { t::m_uint64 m; if (v == "-1.5e3") return; r = m.deserialize(js); break; } case 10: { b::By m; r = m.deserialize(js); want = v == "null" || v == "\"\"" || v == "\"QQ==\""; break; } default: { t::m_bool m; r = m.deserialize(js); want = v == "null" || v == "true" || v == "false"; } } CHECK(r == want, want ? "a value of the right type is accepted" : "a value of the wrong type is refused"); sx_reach(want ? "accepted" : "refused"); }
#endif
}
