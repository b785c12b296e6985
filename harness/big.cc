// Sizes: the properties of strings, bytes, lists, documents and positions at lengths around the powers of two at which
// counters wrap and buffers fill. The contents are fixed but for the bytes named below, which are unconstrained (in texts
// of more than 1025 bytes: printable ASCII characters that need no escape, or a quotation mark).
#if defined(X_CONTENT)
#include "bytes.pg.hh"
#else
#include "types.pg.hh"
#endif
#if defined(X_LIST)
#include "lists.pg.hh"
#endif
#include "rt.hh"
#include "sizes.hh"
#include <stdlib.h>
#include <string.h>
typedef std::vector<uint8_t> Bytes;
static size_t big_size() { return size_up_to(X_MAX); }
// n characters of a fixed pattern, with symbolic bytes at the beginning, in the middle or at the end
static string big_text(size_t n, const char *name, size_t width = 1) {
    static const char *const P[] = {"abcdefghijklmnop", "a\"b\\c/d\ne\tf\rg\bh\f", "\xc3\xa9\xe6\x97\xa5\xe6\x9c\xac\xf0\x9f\x98\x80xyz"}; uint32_t k = sx_choose(3, "pattern"); string s; size_t m = strlen(P[k]); while (s.size() + m <= n) s.append(P[k], m); while (s.size() < n) s += 'z'; size_t at = 0; switch (sx_choose(3, "at")) { case 0: at = 0; break; case 1: at = n / m / 2 * m; break; default: at = n - width; }
    // a symbolic byte inside a multi-byte character would leave ill-formed text: replace the whole pattern there
    if (k == 2) for (size_t i = at / m * m; i < at / m * m + m && i < n; ++i) s[i] = 'w'; string b = sx_string(width, name); if (n > 1025) for (char c : b) sx_assume(plain_byte((unsigned char)c) | (c == '"')); for (size_t i = 0; i < width; ++i) s[at + i] = b[i]; return s; }
static char *exact(const string &s) { char *p = (char *)malloc(s.size()); if (s.size()) memcpy(p, s.data(), s.size()); return p; }
#if defined(X_TEXT) // C01
extern "C" void sx_main() {
    string v = big_text(big_size(), "s"), js; t::Two m, n; m.a = v; m.b = "end"; PG::Parameters ps; ps.ensure_ascii = sx_choose(2, "ascii"); bool ok = m.serialize(js, &ps); if (!ok) { CHECK(ps.ensure_ascii, "serialize succeeds"); int high = 0; for (unsigned char c : v) high |= c >= 0x80; CHECK(sx_decide(high), "serialize succeeds"); sx_end(); }
    CHECK(n.deserialize(js, &ps), "deserialize succeeds"); CHECK(same(*n.a, v) && n.b == "end", "long string restored"); sx_reach("text"); }
#elif defined(X_CONTENT) // C04
static string encode(const Bytes &v) { static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string o; for (size_t i = 0; i < v.size(); i += 3) { unsigned a = v[i], b = i + 1 < v.size() ? v[i + 1] : 0, c = i + 2 < v.size() ? v[i + 2] : 0; o += A[a >> 2]; o += A[(a & 3) << 4 | b >> 4]; o += i + 1 < v.size() ? A[(b & 15) << 2 | c >> 6] : '='; o += i + 2 < v.size() ? A[c & 63] : '='; } return o; }
extern "C" void sx_main() {
    size_t n = big_size(); if (n > 1025 && n != 4097 && n != 65537) sx_end(); n += sx_choose(3, "more"); Bytes c(n); for (size_t i = 0; i < n; ++i) c[i] = (uint8_t)(i * 167 + 13); uint8_t xr = (uint8_t)(1 + (n > 1025 ? sx_choose(3, "few") * 85 : sx_choose(255, "x"))); c[sx_choose(2, "at") ? n - 1 : n / 6 * 3] ^= xr; b::By m, o; m.v = c; m.after = 7; string js; CHECK(m.serialize(js), "serialize succeeds"); CHECK(js == "{\"after\":7,\"v\":\"" + encode(c) + "\"}" || js == "{\"v\":\"" + encode(c) + "\",\"after\":7}", "content is the padded base64 string");
    CHECK(o.deserialize(js), "deserialize succeeds"); CHECK(same(o.v, c) && (int)o.after == 7, "content restored"); 
    string bad = js; size_t q = js.find("\"v\":\"") + 5, len = encode(c).size(); char x = (char)sx_value<uint8_t>("bad"); sx_assume((x == '-') | (x == '_') | (x == ' ') | (x == '=') | (x == '.')); uint32_t wh = sx_choose(4, "where"); if (wh > 1 && xr % 85 != 1) sx_end(); bad[q + (wh == 0 ? (len / 8) * 4 : wh == 1 ? 0 : wh == 2 ? (len / 8) * 4 + 3 : (len / 8) * 8 - 5)] = x; b::By z; CHECK(!z.deserialize(bad), "malformed base64 rejected"); sx_reach("content"); }
#elif defined(X_LIST) // C24
template <class M> static void lists(size_t n) {
    M m, o; int32_t x = (int32_t)sx_value<int8_t>("x"); if (n > 1025 && n != 4097 && n != 65537) sx_end(); size_t at = sx_choose(3, "at"); if (n > 1025 && at != 1) sx_end(); sx_assume((x >= 0) & (x < 10) | (n <= 1025)); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; switch (sx_choose(3, "kind")) { case 0: for (size_t i = 0; i < n; ++i) m.ri.push_back(i == at ? x : (int32_t)i); break; case 1: for (size_t i = 0; i < n; ++i) m.rs.push_back(i == at ? string(1, (char)(x & 31) + 'A') : std::to_string(i)); break; default: for (size_t i = 0; i < n; ++i) { m.rm.emplace_back(); if (i == at) m.rm.back().a = x; else if (i % 3) m.rm.back().b = std::to_string(i); } }
    m.i = 5; string js, k; CHECK(m.serialize(js), "serialize succeeds"); CHECK(o.deserialize(js), "deserialize succeeds"); CHECK(o == m && o.ri.size() + o.rs.size() + o.rm.size() == n, "the list is restored"); CHECK(o.serialize(k) && k == js, "the same text"); sx_reach("list"); }
extern "C" void sx_main() { size_t n = big_size(); if (sx_choose(2, "lists")) lists<u::Mix>(n); else lists<t::Mix>(n); }
#elif defined(X_SPACE) // C10
extern "C" void sx_main() {
    size_t n = big_size(); string w(n, " \n\t\r"[sx_choose(4, "space")]); char c = (char)sx_value<uint8_t>("last"); sx_assume((c == ' ') | (c == '\n') | (c == '\t') | (c == '\r')); w[n - 1] = c; static const char *const T[] = {"{", "\"i\"", ":", "5", ",", "\"rs\"", ":", "[", "\"a\"", "]", "}"}; string js; uint32_t gap = sx_choose(12, "gap"); for (uint32_t i = 0; i < 12; ++i) { if (i == gap) js += w; if (i < 11) js += T[i]; }
    t::Mix m; CHECK(m.deserialize(js), "white space does not matter"); CHECK((int)m.i == 5 && m.rs.size() == 1 && m.rs[0] == "a", "white space does not matter"); js.erase(js.rfind('}'), 1); t::Mix o; CHECK(!o.deserialize(js), "the document is still incomplete"); sx_reach("space"); }
#elif defined(X_SKIP) // C08
extern "C" void sx_main() {
    size_t n = big_size(); string u, z; for (size_t i = 0; i < n; ++i) z += (char)('a' + i % 7); char c = (char)sx_value<uint8_t>("c"); sx_assume(plain_byte((unsigned char)c)); z[n - 1] = c;
    switch (sx_choose(10, "kind")) { case 7: u = "\"q\":" + string(n, '[') + string(n, ']'); break; case 8: u = "\"q\":"; for (size_t i = 0; i < n; ++i) u += "{\"a\":"; u += "\"" + string(1, c) + "\"" + string(n, '}'); break; case 9: u = "\"q\":"; for (size_t i = 0; i < n; ++i) u += i % 2 ? "{\"b\":" : "[1,"; u += "{}"; for (size_t i = n; i-- > 0;) u += i % 2 ? "}" : ",[]]"; break; case 0: u = "\"" + z + "\":1"; break; case 1: u = "\"q\":\"" + z + "\""; break; case 2: u = "\"q\":["; for (size_t i = 0; i < n; ++i) u += i ? ",1" : "1"; u += "]"; break; case 3: u = "\"q\":{"; for (size_t i = 0; i < n; ++i) u += i ? ",\"a\":1" : "\"a\":1"; u += "}"; break; case 4: u = "\"a" + string(n, 'a') + "\":\"x\""; break; case 5: u = "\"q\":1" + string(n, '0'); break; default: for (size_t i = 0; i < n; ++i) { if (i) u += ','; u += "\"q" + std::to_string(i % 10) + "\":null"; } }
    t::Inner m; bool f = sx_choose(2, "first"); CHECK(m.deserialize(f ? "{" + u + ",\"a\":7,\"b\":\"v\"}" : "{\"a\":7,\"b\":\"v\"," + u + "}"), "unknown member skipped"); CHECK((int32_t)m.a == 7 && m.b == "v", "the other fields are read"); sx_reach("skipped"); }
#elif defined(X_WHERE) // C14
extern "C" void sx_main() {
    size_t n = big_size(); string w; uint32_t k = sx_choose(3, "fill"); for (size_t i = 0; i < n; ++i) w += k == 0 ? ' ' : k == 1 ? '\n' : i % 2 ? '\n' : '\t'; char c = (char)sx_value<uint8_t>("last"); sx_assume((c == ' ') | (c == '\n')); w[n - 1] = c; string js; size_t at; if (sx_choose(2, "inside")) { string x = w; for (char &y : x) if (y == '\n') y = 'n'; js = "{\"zz\":\"" + (k ? w : x) + "\",\"i\":"; } else js = "{" + w + "\"i\":"; at = js.size(); js += "true}";
    t::Mix m; PG::Parameters ps; CHECK(!m.deserialize(js, &ps), "refused"); int line = 1, col = 1; for (size_t i = 0; i < at; ++i) if (js[i] == '\n') { ++line; col = 1; } else ++col; CHECK(ps.error.code != PG::PGERR_OK, "a code is reported"); CHECK(ps.error.line == line && ps.error.column == col, "the position is the start of the offending token"); sx_reach("position"); }
#elif defined(X_ENTRY) // C13
extern "C" void sx_main() {
    string v = big_text(big_size(), "v"); for (char c : v) sx_assume((unsigned char)c != 0); t::Two m; m.a = v; m.b = "end"; string js, out; CHECK(m.serialize(js), "serialize succeeds"); size_t n = js.size(); if (sx_choose(2, "cut")) js.erase(n - 1);
    t::Two a, b, c, d; bool ra = a.deserialize(js); CHECK(ra == (js.size() == n), "string: verdict"); { std::vector<char> x(js.begin(), js.end()); CHECK(b.deserialize(x) == ra && (!ra || b == a), "vector: same message"); } { char *p = exact(js); CHECK(c.deserialize(p, js.size()) == ra && (!ra || c == a), "pointer and length: same message"); free(p); } { std::istringstream is(js); std::istream &s = is; CHECK(d.deserialize(s) == ra && (!ra || d == a), "stream: same message"); }
    if (!ra) { sx_reach("refused"); return; } { std::vector<char> x; CHECK(m.serialize(x) && same(x.data(), x.size(), js), "vector: same text"); } { std::ostringstream os; std::ostream &o = os; CHECK(m.serialize(o) && same(os.str(), js), "stream: same text"); } { char *p = (char *)malloc(n); CHECK(m.serialize(p, n) && same(p, n, js), "buffer: same text"); free(p); p = (char *)malloc(n - 1); PG::Parameters ps; CHECK(!m.serialize(p, n - 1, &ps), "short buffer: refused"); free(p); } sx_reach("accepted"); }
#elif defined(X_FORM) // C05
#include "jsonref.hh"
extern "C" void sx_main() {
    t::Mix m; m.i = 1; m.s = big_text(big_size(), "s"); m.rs.push_back(string("x")); PG::Parameters ps; ps.ensure_ascii = sx_choose(2, "ascii"); ps.serialize_null = sx_choose(2, "null"); string js; if (!m.serialize(js, &ps)) { CHECK(ps.ensure_ascii && ps.error.code != PG::PGERR_OK, "written"); sx_end(); } int high = 0; for (unsigned char c : js) high |= c >= 0x80; CHECK(!ps.ensure_ascii || !sx_decide(high), "ASCII only"); jref::P p(js, ps.ensure_ascii); CHECK(p.value(0) && p.i == js.size(), "well-formed JSON"); sx_reach("written"); }
#endif
