// C14: errors are reported with a code, a message and the position of the offending token
#include "types.pg.hh"
#include "bytes.pg.hh"
#include "rt.hh"
#include "typed.hh"
static void place(const string &js, size_t at, int &line, int &col) { line = 1; col = 1; for (size_t i = 0; i < at; ++i) if (js[i] == '\n') { ++line; col = 1; } else ++col; }
static void clean(const PG::ErrorInfo &e) { CHECK(e.code == PG::PGERR_OK && e.message.empty() && e.line == 0 && e.column == 0, "no error after success"); CHECK((bool)e, "no error after success"); }
static void stale(PG::Parameters &p) { p.error = PG::ErrorInfo(PG::PGERR_MISSING_FIELD, "old", 77, 78); }
// some error; designating offset 'at' of js
static void error_at(const PG::ErrorInfo &e, const string &js, size_t at) {
    int line, col; place(js, at, line, col); CHECK(e.code != PG::PGERR_OK && !(bool)e, "a code is reported"); CHECK(!e.message.empty() && e.message != "old", "a message is reported"); CHECK(e.line >= 1 && e.column >= 1, "the position is 1-based"); CHECK(e.line == line && e.column == col, "the position is the start of the offending token"); }
static void some_error(const PG::ErrorInfo &e, const string &js) {
    CHECK(e.code != PG::PGERR_OK && !(bool)e, "a code is reported"); CHECK(!e.message.empty() && e.message != "old", "a message is reported"); int line = 1, col = 1; bool ok = false; for (size_t i = 0; i <= js.size(); ++i) { if (e.line == line && e.column == col) ok = true; if (i < js.size() && js[i] == '\n') { ++line; col = 1; } else ++col; } CHECK(ok, "the position is inside the document"); }
static void judge(const string &js) {
    t::Mix m; PG::Parameters ps; stale(ps); bool r = m.deserialize(js, &ps); typed::R ref(js); ref.ws(); bool ok = ref.object(&typed::Mix);
    if (r) { clean(ps.error); sx_reach("accepted"); } else { if (ref.open || ok) some_error(ps.error, js); else error_at(ps.error, js, ref.bad); sx_reach("refused"); }
}
extern "C" void sx_main() {
#ifdef X_BYTES
    static const char *P[] = {"", "\n{ ", "{\"i\"", "{\n\"i\":\n ", "{\"i\":1", "{\"s\": ", "{\"ri\":[", "{\"ri\":[\n1", "{\"m\":{\"a\":1", "{\"zz\":", "{\"zz\":\r\n[", "{\"zz\":[1", "{\"zz\":{\"y\"", "{\"zz\":{\"y\":2", "{\"rm\":[{}", "{\"b\":", "{\"s\":\"\n", "{\"s\":\"\\u00", "{\"rs\":["};
    static const char *Q[] = {"", "\n}", ":1}", "}", "}", "}", "]}", "]}", "}}", "}", "]\n}", "]}", ":1}}", "}}", "]}", "}", "\"}", "\"}", "]}"};
    uint32_t c = sx_choose(19, "context"); string x = sx_string(sx_choose(X_BYTES + 1, "n"), "x"); judge(P[c] + x + Q[c]);
#elif defined(X_LAYOUT)
    // faulty token sequences; one character of white space in every gap, any of the four
    static const char *D[][16] = {{"{", "1", ":", "2", "}", 0}, {"{", "\"i\"", "\"i\"", "}", 0}, {"{", "\"i\"", ":", "\"7\"", "}", 0}, {"{", "\"s\"", ":", "8", "}", 0}, {"{", "\"i\"", ":", "1", "\"x\"", 0}, {"{", "\"rs\"", ":", "[", "\"a\"", "\"b\"", 0}, {"{", "\"zz\"", ":", "[", "1", "\"b\"", 0}, {"{", "\"zz\"", ":", "{", "\"a\"", "\"b\"", 0}, {"{", "\"m\"", ":", "\"x\"", "}", 0}, {"{", "\"b\"", ":", "\"true\"", "}", 0}, {"{", "\"ri\"", ":", "\"x\"", 0},
        {"\"x\"", 0}, {"null", 0}, {"{", "\"i\"", ":", "1", 0}, {"{", "\"rm\"", ":", "[", "{", "}", ",", "\"x\"", 0}, {"{", "\"m\"", ":", "{", "\"a\"", ":", "true", "}", 0}, {"{", "\"s\"", ":", "\"\\q\"", "}", 0}, {"{", "\"zz\"", ":", "#", "}", 0}, {"{", "\"b\"", ":", "tru", 0}, {0}, {"[", 0}, {"{", "\"a\"", ":", "1", ",", "\"c\"", ":", "[", "}", 0}};
    uint32_t k = sx_choose(22, "doc"); string js; for (int i = 0;; ++i) { string w = sx_string(X_LAYOUT, "w"); for (char c : w) sx_assume((c == ' ') | (c == '\n') | (c == '\t') | (c == '\r')); js += w; if (!D[k][i]) break; js += D[k][i]; } judge(js); sx_reach("layout");
#else
    // other kinds of fields, the array functions, and the same parameters used again
    string w = sx_string(2, "w"); for (char c : w) sx_assume((c == ' ') | (c == '\n')); PG::Parameters ps; stale(ps); bool r; string js; size_t at;
    switch (sx_choose(10, "what")) {
        case 0: { b::By m; js = "{" + w + "\"v\":" + w; at = js.size(); static const char *V[] = {"\"QQ\"", "\"Q===\"", "\"QQ=?\"", "7", "[]", "true", "\"QQ==QQ==\""}; js += V[sx_choose(7, "v")]; js += "}"; r = m.deserialize(js, &ps); CHECK(!r, "refused"); error_at(ps.error, js, at); break; }
        case 1: { t::m_double m; js = "{" + w + "\"v\":" + w; at = js.size(); js += "\"x\"}"; r = m.deserialize(js, &ps); CHECK(!r, "refused"); error_at(ps.error, js, at); break; }
        case 2: { t::m_bool m; js = "{\"r\":[true," + w; at = js.size(); js += "1]}"; r = m.deserialize(js, &ps); CHECK(!r, "refused"); error_at(ps.error, js, at); break; }
        case 3: { std::vector<int32_t> v; js = "[1," + w; at = js.size(); static const char *V[] = {"\"x\"]", "]", "{}]", "", "true]", "1 2]"}; uint32_t k = sx_choose(6, "v"); js += V[k]; if (k == 5) at += 2; r = PG::deserialize_array(v, js, &ps); CHECK(!r, "refused"); error_at(ps.error, js, at); break; }
        case 4: { std::vector<t::Inner> v; js = w + "[{}" + w; at = js.size(); static const char *V[] = {"\"x\"]", "}]", "", "{}]"}; js += V[sx_choose(4, "v")]; r = PG::deserialize_array(v, js, &ps); CHECK(!r, "refused"); error_at(ps.error, js, at); break; }
        case 5: { std::vector<PG::string_field> v; js = w; at = js.size(); static const char *V[] = {"\"x\"", "null", "", "{}", "7"}; js += V[sx_choose(5, "v")]; r = PG::deserialize_array(v, js, &ps); CHECK(!r, "refused"); error_at(ps.error, js, at); std::vector<PG::string_field> u; CHECK(PG::deserialize_array(u, "[\"a\"]", &ps), "accepted"); clean(ps.error); break; }
        case 6: { t::Tr m; js = "{\"hid\":" + w + "{\"a\":"; at = js.size() ; js += "]}}"; r = m.deserialize(js, &ps); CHECK(!r, "refused"); error_at(ps.error, js, at); break; }
        case 7: { t::Deep2 m; js = "{\"l\":[{\"in\":" + w + "{\"b\":" + w; at = js.size(); js += "1}}]}"; r = m.deserialize(js, &ps); CHECK(!r, "refused"); error_at(ps.error, js, at); break; }
        case 9: { // what the parameters and errors hold
            PG::Parameters p; clean(p.error); CHECK(!p.ensure_ascii && !p.serialize_null, "defaults"); PG::ErrorInfo d; clean(d); int32_t l = sx_value<int16_t>("l"), c = sx_value<int16_t>("c"); PG::ErrorInfo e(PG::PGERR_INVALID_NAME, "m", l, c), f(e), g;
            CHECK(e.code == PG::PGERR_INVALID_NAME && e.message == "m" && e.line == l && e.column == c && !(bool)e, "an error holds what it is given"); CHECK(e == PG::PGERR_INVALID_NAME && !(e == PG::PGERR_OK) && !(e == PG::PGERR_INVALID_VALUE) && d == PG::PGERR_OK, "an error equals its code"); CHECK(e == f && f.message == "m", "a copy is equal"); g = e; CHECK(g == e && !(e == d), "an assigned error is equal");
            PG::ErrorInfo h(PG::PGERR_INVALID_NAME, "m", l + 1, c), i(PG::PGERR_INVALID_NAME, "m", l, c + 1), j(PG::PGERR_INVALID_VALUE, "m", l, c); CHECK(!(e == h) && !(e == i) && !(e == j), "errors at different positions, or of different kinds, differ"); g.clear(); clean(g); break; }
        default: { // a history: every result describes the latest call only
            t::Mix m; static const char *J[] = {"{\"i\":1}", "{\"i\":\"x\"}", "\n\n{\"s\":}", "[1,2]"}; PG::Parameters p; for (int i = 0; i < 3; ++i) { uint32_t k = sx_choose(4, "step"); bool r = m.deserialize(string(J[k]), &p); if (k == 0) { CHECK(r, "accepted"); clean(p.error); string o; CHECK(m.serialize(o, &p), "written"); clean(p.error); } else if (k == 1) { CHECK(!r, "refused"); error_at(p.error, J[k], 5); } else if (k == 2) { CHECK(!r, "refused"); error_at(p.error, J[k], 7); } else { CHECK(!r, "refused"); error_at(p.error, J[k], 0); } }
            // a failed write does not leave its error to a later success
            t::m_double d; d.v = 1e308 * 10; string o; CHECK(!d.serialize(o, &p), "infinity is refused"); CHECK(p.error.code != PG::PGERR_OK && !p.error.message.empty(), "a code is reported"); CHECK(m.deserialize(string("{}"), &p), "accepted"); clean(p.error); } }
    sx_reach("other");
#endif
}
