// C04: bytes fields are RFC 4648 base64; anything else is rejected
#ifdef X_REPEATED
#include "rbytes.pg.hh"
typedef rb::RBy M;
#else
#include "bytes.pg.hh"
typedef b::By M;
#endif
#include "rt.hh"
#ifndef X_LOW
#define X_LOW 0
#endif
typedef std::vector<uint8_t> Bytes;
// n unconstrained bytes, drawn as groups of six bits; the first `low` groups stay below 26
static Bytes sx_content(size_t n, const char *name, size_t low = 0) {
    size_t g = (n * 8 + 5) / 6; string q = sx_string(g, name); int ok = 1; for (size_t i = 0; i < low && i < g; ++i) ok &= (q[i] & 63) < 26; sx_assume(ok);
    Bytes v(n); for (size_t i = 0; i < n; ++i) { size_t k = i / 3 * 4 + i % 3; unsigned a = (unsigned char)q[k] & 63, b = (unsigned char)q[k + 1] & 63; v[i] = (uint8_t)(i % 3 == 0 ? a << 2 | b >> 4 : i % 3 == 1 ? (a & 15) << 4 | b >> 2 : (a & 3) << 6 | b); }
    return v;
}
static char sym(unsigned v) { char c = (char)('A' + v); c = v >= 26 ? (char)('a' + (v - 26)) : c; c = v >= 52 ? (char)('0' + (v - 52)) : c; c = v == 62 ? '+' : c; return v == 63 ? '/' : c; }
static string encode(const Bytes &v) { // RFC 4648 section 4
    string o; for (size_t i = 0; i < v.size(); i += 3) {
        unsigned a = v[i], b = i + 1 < v.size() ? v[i + 1] : 0, c = i + 2 < v.size() ? v[i + 2] : 0;
        o += sym(a >> 2); o += sym((a & 3) << 4 | b >> 4); o += i + 1 < v.size() ? sym((b & 15) << 2 | c >> 6) : '='; o += i + 2 < v.size() ? sym(c & 63) : '='; }
    return o;
}
static int alpha(unsigned char c) { return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')) | (c == '+') | (c == '/'); }
static unsigned val(unsigned char c) { unsigned v = c - 'A'; v = c >= 'a' ? c - 'a' + 26u : v; v = (c >= '0') & (c <= '9') ? c - '0' + 52u : v; v = c == '+' ? 62 : v; return c == '/' ? 63 : v; }
extern "C" void sx_main() {
#ifdef X_ENCODE
    size_t n = sx_choose(X_ENCODE + 1, "n"); Bytes c = sx_content(n, "content", X_LOW); M m; m.v = c; string js; string want = encode(c);
#ifdef X_REPEATED
    Bytes d = sx_content(sx_choose(3, "n2"), "content2"); m.v.clear(); m.l.push_back(c); m.l.push_back(d); m.l.push_back(c);
    CHECK(m.serialize(js), "serialize succeeds"); CHECK(same(js, "{\"l\":[\"" + want + "\",\"" + encode(d) + "\",\"" + want + "\"]}"), "base64 strings in order");
#ifndef X_NOREAD
    M o; CHECK(o.deserialize(js), "deserialize succeeds"); CHECK(o.l.size() == 3 && same(o.l[0], c) && same(o.l[1], d) && same(o.l[2], c), "contents restored"); CHECK(o == m, "messages equal");
#endif
    sx_reach("repeated");
#else
    m.after = 7; CHECK(m.serialize(js), "serialize succeeds");
    string mem = "\"v\":\"" + want + "\""; bool fit = same(js, "{" + mem + ",\"after\":7}") || same(js, "{\"after\":7," + mem + "}");
    if (n == 0) CHECK(fit || same(js, "{\"after\":7}"), "empty content"); else CHECK(fit, "content is the padded base64 string");
#ifndef X_NOREAD
    M o; CHECK(o.deserialize(js), "deserialize succeeds"); CHECK(same(o.v, c) && (int)o.after == 7, "content restored"); CHECK(o == m, "messages equal");
#endif
    sx_reach("single");
#endif
#else
    // any string of plain characters: accepted exactly when it is padded base64
    size_t n = sx_choose(X_DECODE + 1, "n"); string t = sx_plain(n, "text");
#ifdef X_UPPER
    int up = 1; for (size_t i = 0; i < X_UPPER && i < n; ++i) up &= (t[i] >= 'A') & (t[i] <= 'Z'); sx_assume(up); if (n < X_UPPER) return;
#endif
    int ok = n % 4 == 0; if (ok && n) { size_t k = n; int p2 = t[n - 1] == '=', p1 = p2 & (t[n - 2] == '='); for (size_t i = 0; i + 2 < n; ++i) ok &= alpha((unsigned char)t[i]); ok &= alpha((unsigned char)t[n - 2]) | p1; ok &= alpha((unsigned char)t[n - 1]) | p2; (void)k; }
    M o; PG::Parameters ps; bool r = o.deserialize("{\"v\":\"" + t + "\",\"after\":7}", &ps);
    if (sx_decide(ok)) {
        unsigned pad = 0; if (n) { if (sx_decide(t[n - 1] == '=')) pad = 1; if (sx_decide(t[n - 2] == '=')) pad = 2; }
        unsigned tail = pad == 0 ? 0 : pad == 1 ? val((unsigned char)t[n - 2]) & 3 : val((unsigned char)t[n - 3]) & 15;
        Bytes want; for (size_t i = 0; i < n; i += 4) { unsigned a = val((unsigned char)t[i]), b = val((unsigned char)t[i + 1]), c = val((unsigned char)t[i + 2]), d = val((unsigned char)t[i + 3]); want.push_back((uint8_t)(a << 2 | b >> 4)); if (i + 4 < n || pad < 2) want.push_back((uint8_t)(b << 4 | c >> 2)); if (i + 4 < n || pad < 1) want.push_back((uint8_t)(c << 6 | d)); }
        // an encoder leaves the unused bits zero; whether other encodings are accepted is not specified
        if (!r) { CHECK(tail != 0, "valid base64 accepted"); CHECK(ps.error.code != PG::PGERR_OK, "error reported"); sx_reach("noncanonical"); return; }
        CHECK(same(o.v, want) && (int)o.after == 7, "decoded content"); sx_reach("valid");
    } else { CHECK(!r, "malformed base64 rejected"); CHECK(ps.error.code != PG::PGERR_OK && !ps.error.message.empty(), "error reported"); sx_reach("malformed"); }
#endif
}
