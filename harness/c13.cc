// C13: the entry points agree
#include "types.pg.hh"
#include "bytes.pg.hh"
#include "rt.hh"
#include <stdlib.h>
#include <string.h>
struct Verdict { bool r; PG::ErrorInfo e; };
static char *exact(const string &s) { char *p = (char *)malloc(s.size()); if (s.size()) memcpy(p, s.data(), s.size()); return p; }
static bool alike(const PG::ErrorInfo &a, const PG::ErrorInfo &b) { return a.code == b.code && a.line == b.line && a.column == b.column && a.message == b.message; }
template <class M> static void read_all(const string &js) {
    M a, b, c, d, e; PG::Parameters pa, pb, pc, pd, pe; bool ra = a.deserialize(js, &pa);
    { std::vector<char> v(js.begin(), js.end()); bool r = b.deserialize(v, &pb); CHECK(r == ra && (r || alike(pa.error, pb.error)), "vector: same verdict"); CHECK(!r || b == a, "vector: same message"); }
    { char *p = exact(js); bool r = c.deserialize(p, js.size(), &pc); free(p); CHECK(r == ra && (r || alike(pa.error, pc.error)), "pointer and length: same verdict"); CHECK(!r || c == a, "pointer and length: same message"); }
    { std::istringstream is(js); if (sx_choose(2, "skipws")) is >> std::noskipws; auto fl = is.flags(); std::istream &s = is; bool r = d.deserialize(s, &pd); CHECK(r == ra && (r || alike(pa.error, pd.error)), "stream: same verdict"); CHECK(!r || d == a, "stream: same message"); CHECK(is.flags() == fl, "stream: formatting flags are as before"); }
    { std::list<char> l(js.begin(), js.end()); PG::iterator_istream<std::list<char>::iterator> is(l.begin(), l.end()); bool r = e.deserialize(is, &pe); CHECK(r == ra && (r || alike(pa.error, pe.error)), "iterators: same verdict"); CHECK(!r || e == a, "iterators: same message"); }
    { M f; CHECK(f.deserialize(js) == ra, "without parameters: same verdict"); CHECK(!ra || f == a, "without parameters: same message"); }
    sx_reach(ra ? "accepted" : "refused");
}
template <class M> static void write_all(M &m, PG::Parameters ps) {
    PG::Parameters pa = ps, pb = ps, pc = ps, pd = ps; string a; bool ra = m.serialize(a, &pa);
    { std::vector<char> v; bool r = m.serialize(v, &pb); CHECK(r == ra && (r || alike(pa.error, pb.error)), "vector: same verdict"); CHECK(!r || same(v.data(), v.size(), a), "vector: same text"); }
    { std::ostringstream os; std::ostream &o = os; bool r = m.serialize(o, &pc); CHECK(r == ra && (r || alike(pa.error, pc.error)), "stream: same verdict"); CHECK(!r || same(os.str(), a), "stream: same text"); }
    if (ra) { size_t n = a.size(), extra = sx_choose(2, "extra"); char *p = (char *)malloc(n + extra); memset(p, '#', n + extra); bool r = m.serialize(p, n + extra, &pd); CHECK(r, "buffer: same verdict"); CHECK(same(p, n, a), "buffer: same text from the first position on"); CHECK(extra == 0 || p[n] == '#', "buffer: nothing after the text"); free(p);
        // too small: nothing outside is written, and no success is reported
        size_t cut[] = {0, 1, n / 2, n - 1}; for (size_t k : cut) if (k < n) { p = (char *)malloc(k); r = m.serialize(p, k, &pd); CHECK(!r && pd.error.code != PG::PGERR_OK, "short buffer: refused"); CHECK(same(p, k, a.substr(0, k)), "short buffer: the beginning of the text"); free(p); } sx_reach("written"); }
    else { size_t n = 600 * sx_choose(2, "room"); char *p = (char *)malloc(n); bool r = m.serialize(p, n, &pd); CHECK(!r && pd.error.code != PG::PGERR_OK && (!n || alike(pa.error, pd.error)), "buffer: same verdict"); if (!ps.ensure_ascii) CHECK(!m.serialize(p, n), "without parameters: same verdict"); free(p); sx_reach("not written"); }
    { string o; CHECK(m.serialize(o) == ra || ps.ensure_ascii, "without parameters: same verdict"); }
    string out = "x"; M m2(m); bool r = m2.serialize(out); if (r) CHECK(out.size() > 1 && out[0] == 'x', "string: appended");
}
extern "C" void sx_main() {
#ifdef X_BYTES
    static const char *P[] = {"", "{\"i\":", "{\"s\":\"", "{\"s\":\"\\u", "{\"ri\":[1", "{\"m\":{\"a\":", "{\"rm\":[{\"b\":\"", "{\"zz\":[", "{\"", "{\n\"i\" :1,\n ", "{\"i\":1}"};
    static const char *Q[] = {"", "}", "\"}", "\"}", "]}", "}}", "\"}]}", "]}", "\":1}", "}", ""}; uint32_t c = sx_choose(11, "context"); string js = P[c] + sx_string(sx_choose(X_BYTES + 1, "n"), "x"); if (sx_choose(2, "close")) js += Q[c]; read_all<t::Mix>(js);
#elif defined(X_DOCS)
    string v = sx_string(2, "v"); char g = (char)sx_value<uint8_t>("g"); switch (sx_choose(6, "doc")) {
        case 0: read_all<b::By>("{\"v\":\"QU" + v + "\",\"after\":" + g + "}"); break; case 1: read_all<t::m_double>(string("{\"v\":1.") + g + "e2,\"r\":[-0.5,\t1]}"); break; case 2: read_all<t::m_uint64>(string("{\"v\":1844674407370955161") + g + "}\n"); break; case 3: read_all<t::m_bool>(string("{\"v\":tru") + g + ",\r\n\"r\":[false , true]}"); break;
        case 4: read_all<t::Tr>("{\"hid\":\"" + v + "\" ,\n\t\"see\":\" " + g + " \"}"); break; default: read_all<t::Deep2>(string("{\"d\":{\"in\":{\"a\":") + g + "}},\"l\":[{},{\"in\":{\"b\":\" \\n" + v + "\"}}]}"); }
#elif defined(X_WRITE)
    t::Mix m; PG::Parameters ps; ps.ensure_ascii = sx_choose(2, "ascii"); ps.serialize_null = sx_choose(2, "null"); uint32_t set = sx_choose(18, "set"); 
    if (set == 16) { b::By y; y.v.assign({1, 2, 255}); write_all(y, ps); return; }
    if (set == 17) { t::m_double d; d.v = 0.5; d.r = {1, -2.25}; if (sx_choose(2, "finite")) d.r.push_back(__builtin_nan("")); write_all(d, ps); return; }
    string v = sx_string(X_WRITE, "v");
    if (set & 1) m.i = (int32_t)sx_value<int8_t>("i"); if (set & 2) m.s = v; if (set & 4) { m.b = true; m.ri = {1, -2}; m.rs.push_back(string("q")); } if (set & 8) { m.m.b = v; m.rm.resize(2); m.rm[1].a = 5; } write_all(m, ps);
#else
    // the array functions against a repeated field
    string v = sx_choose(2, "long") ? string("\xc3\xa9") : sx_string(1, "v"); uint8_t x = sx_value<uint8_t>("x"); uint32_t n = sx_choose(4, "n"); PG::Parameters ps, pb, pc; ps.ensure_ascii = sx_choose(2, "ascii");
    string js, a; std::vector<char> w; bool r, q;
#define ARR(M, F, GET) { M m; for (uint32_t i = 0; i < n; ++i) { GET; } auto f = m.F; PG::Parameters pm = ps; ps.error = PG::ErrorInfo(PG::PGERR_MISSING_FIELD, "old", 77, 78); r = m.serialize(js, &pm); bool ok = PG::serialize_array(f, a, &ps); CHECK(r ? ps.error.code == PG::PGERR_OK && ps.error.message.empty() : alike(ps.error, pm.error), "the same error"); CHECK(ps.ensure_ascii == pm.ensure_ascii && ps.serialize_null == pm.serialize_null, "the parameters are as before"); if (!ok) { string z; CHECK(!PG::serialize_array(f, z) || ps.ensure_ascii, "without parameters: same verdict"); sx_reach("refused"); } CHECK(ok == r, "written alike"); if (r) { CHECK(n == 0 ? same(a, "[]") : same("{\"" #F "\":" + a + "}", js), "the text of the repeated field"); CHECK(PG::serialize_array(f, w, &ps) && same(w.data(), w.size(), a), "vector: same text"); \
        decltype(f) g, h, k; CHECK(PG::deserialize_array(g, a) && g == f, "read back"); char *p = exact(a); CHECK(PG::deserialize_array(h, p, a.size()) && h == f, "read back from a buffer"); free(p); CHECK(PG::deserialize_array(k, w) && k == f, "read back from a vector"); { std::istringstream is(a); is >> std::noskipws; std::istream_iterator<char> b(is), e; PG::iterator_istream<std::istream_iterator<char>> in(b, e); decltype(f) z; CHECK(PG::deserialize_array(z, in) && z == f, "read back from a stream"); } sx_reach("array"); } }
    switch (sx_choose(7, "type")) {
        case 0: ARR(t::Mix, ri, m.ri.push_back((int32_t)x - 128)) break; case 1: ARR(t::Mix, rs, m.rs.push_back(v)) break; case 2: ARR(t::Mix, rm, m.rm.emplace_back(); if (i & 1) m.rm.back().b = v; else m.rm.back().a = x) break; case 3: ARR(t::m_bool, r, m.r.push_back(x & 1)) break; case 4: ARR(t::m_double, r, m.r.push_back(i == 2 ? __builtin_inf() : i * 0.25)) break; case 5: ARR(t::m_uint64, r, m.r.push_back(18446744073709551615ull - (i + x))) break;
        default: { // arbitrary text, as an array and as the value of a member
            static const char *P[] = {"", "[", "[1", "[ 1 , ", "[\"", "[{"}; static const char *Q[] = {"", "]", "]", "]", "\"]", "}]"}; uint32_t c = sx_choose(6, "context"); a = P[c] + sx_string(sx_choose(3, "k"), "y") + Q[c]; std::vector<int32_t> f, g; std::vector<PG::string_field> h; t::Mix m, k; q = PG::deserialize_array(f, a, &pb);
            char *p = exact(a); r = PG::deserialize_array(g, p, a.size(), &pc); free(p); CHECK(r == q && f == g && (r || alike(pb.error, pc.error)), "same verdict from a buffer"); if (!q) CHECK(pb.error.code != PG::PGERR_OK, "an error is reported");
            // a document holding this text in a member is accepted only if the text is accepted
            if (m.deserialize("{\"ri\":" + a + "}") && !m.ri.empty()) { CHECK(q && f == m.ri, "read like a repeated field"); sx_reach("numbers"); } if (k.deserialize("{\"rs\":" + a + "}") && !k.rs.empty()) { CHECK(PG::deserialize_array(h, a) && h == k.rs, "read like a repeated field"); sx_reach("strings"); } } }
#endif
}
