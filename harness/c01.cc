// C01: string values survive serialisation and deserialisation
#include "types.pg.hh"
#include "rt.hh"
// VARIANT: window (fully symbolic bytes between fillers), long (long plain), utf8 (well-formed UTF-8 under ensure_ascii)
static void trip(const string &v, PG::Parameters *p, const char *what) {
    uint32_t place = sx_choose(X_PLACES, "place"); string js; bool ok;
    if (place == 0) { t::Str m; m.s = v; ok = m.serialize(js, p); CHECK(ok, "serialize succeeds"); t::Str n; ok = n.deserialize(js, p); CHECK(ok, "deserialize succeeds"); CHECK(!n.s.empty() && same(*n.s, v), what); sx_reach("field"); }
    else if (place == 1) { t::StrR m; m.r.push_back(v); m.r.push_back("x"); ok = m.serialize(js, p); CHECK(ok, "serialize succeeds"); t::StrR n; ok = n.deserialize(js, p); CHECK(ok, "deserialize succeeds"); CHECK(n.r.size() == 2 && same(*n.r[0], v) && same(*n.r[1], "x"), what); sx_reach("repeated"); }
    else { t::StrN m; m.m.s = v; t::Str e; e.s = v; m.l.push_back(t::Str()); m.l.push_back(e); ok = m.serialize(js, p); CHECK(ok, "serialize succeeds"); t::StrN n; ok = n.deserialize(js, p); CHECK(ok, "deserialize succeeds"); CHECK(same(*n.m.s, v) && n.l.size() == 2 && n.l[0].empty() && same(*n.l[1].s, v), what); sx_reach("nested"); }
}
#if defined(X_WINDOW)
extern "C" void sx_main() { uint32_t k = sx_choose(X_WINDOW + 1, "len"); string v = sx_string(k, "s"); if (sx_choose(2, "pad")) v = "ab" + v + "c"; trip(v, nullptr, "string restored"); }
#elif defined(X_LONG)
extern "C" void sx_main() { string v = sx_plain(X_LONG, "s"); trip(v, nullptr, "long string restored"); }
#elif defined(X_UTF8)
// every well-formed UTF-8 sequence of X_UTF8 code points (each 1 to 4 bytes)
static void cp(string &v) {
    uint32_t n = sx_choose(4, "width"); unsigned char c[4]; sx_bytes(c, n + 1, "cp");
    if (n == 0) sx_assume(c[0] < 0x80);
    else if (n == 1) sx_assume((c[0] >= 0xC2) & (c[0] <= 0xDF) & ((c[1] & 0xC0) == 0x80));
    else if (n == 2) sx_assume((c[0] >= 0xE0) & (c[0] <= 0xEF) & ((c[1] & 0xC0) == 0x80) & ((c[2] & 0xC0) == 0x80) & ((c[0] != 0xE0) | (c[1] >= 0xA0)) & ((c[0] != 0xED) | (c[1] < 0xA0)));
    else sx_assume((c[0] >= 0xF0) & (c[0] <= 0xF4) & ((c[1] & 0xC0) == 0x80) & ((c[2] & 0xC0) == 0x80) & ((c[3] & 0xC0) == 0x80) & ((c[0] != 0xF0) | (c[1] >= 0x90)) & ((c[0] != 0xF4) | (c[1] < 0x90)));
    v.append((char *)c, n + 1);
}
extern "C" void sx_main() { string v; for (int i = 0; i < X_UTF8; ++i) cp(v); PG::Parameters p; p.ensure_ascii = sx_choose(2, "ascii"); trip(v, &p, "UTF-8 text restored"); }
#endif
