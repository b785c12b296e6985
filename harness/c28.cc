// C28: the locale of the process and the format flags of streams have no effect on JSON, and stay as they were
#include <locale.h>
#include <stdio.h>
#include <string.h>
#include <iomanip>
#include "types.pg.hh"
#include "bytes.pg.hh"
#include "rt.hh"
struct Out { bool ok = false; string text; uint64_t bits[3] = {0, 0, 0}; int code = 0, line = 0, column = 0; };
static bool same(const Out &a, const Out &b) { return a.ok == b.ok && same(a.text, b.text) && ((a.bits[0] ^ b.bits[0]) | (a.bits[1] ^ b.bits[1]) | (a.bits[2] ^ b.bits[2])) == 0 && a.code == b.code && a.line == b.line && a.column == b.column; }
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
struct Arg { int64_t i; uint64_t u; double d; float f; uint8_t c[2]; string s; };
template <class M> static void rd(Out &o, const string &doc, M &m) { PG::Parameters p; o.ok = m.deserialize(doc, &p); o.code = (int)p.error.code; o.line = p.error.line; o.column = p.error.column; o.text = p.error.message; }
static Out run(int op, const Arg &a) {
    Out o; PG::Parameters p;
    switch (op) {
        case 0: { t::m_double m; m.v = a.d; o.ok = m.serialize(o.text); break; } case 1: { t::m_float m; m.r.push_back(a.f); m.v = 2.5f; o.ok = m.serialize(o.text); break; }
        case 2: { t::Mix m; m.i = (int32_t)a.i; m.ri.push_back((int32_t)a.u); m.s = a.s; m.b = true; m.m.a = 1234567; o.ok = m.serialize(o.text); break; }
        case 3: { t::m_int64 m; m.v = a.i; t::m_uint64 n; n.v = a.u; string x; o.ok = m.serialize(o.text) && n.serialize(x); o.text += x; break; }
        case 4: { t::m_double m; m.v = __builtin_inf(); o.ok = m.serialize(o.text, &p); o.code = (int)p.error.code; o.text.clear(); break; }
        case 5: { t::m_double m; rd(o, "{\"v\":" + string(1, (char)('0' + a.c[0] % 8)) + "." + string(1, (char)('0' + a.c[1] % 8)) + ",\"r\":[1234567.875,-2.5e-3]}", m); o.bits[0] = bits((double)m.v); if (m.r.size() == 2) { o.bits[1] = bits(m.r[0]); o.bits[2] = bits(m.r[1]); } break; }
        case 6: { t::m_float m; rd(o, "{\"r\":[0.5,-1.25],\"v\":3.0e2}", m); if (m.r.size() == 2) { o.bits[0] = bits(m.r[0]); o.bits[1] = bits(m.r[1]); } o.bits[2] = bits((float)m.v); break; }
        case 7: { t::m_double m; string d = "{\"v\":1,5}"; d[6] = (char)a.c[0]; d[7] = (char)a.c[1]; rd(o, d, m); o.bits[0] = o.ok ? bits((double)m.v) : 0; break; } // a decimal comma is no part of numbers
        case 8: { t::m_bool m; string d = "{\"v\":true }"; d[5 + 4] = (char)a.c[0]; d[10 - 9] = '"'; rd(o, d, m); o.bits[0] = (bool)m.v; break; } // letters are those of ASCII
        case 9: { t::Two m; string d = "{\"aa\":\"x\",\"b\":\"yy\"}"; d[3] = (char)a.c[0]; d[15] = (char)a.c[1]; rd(o, d, m); o.text += "|" + *m.a + "|" + *m.b; break; }
        case 10: { t::Str m; m.s = a.s; p.ensure_ascii = true; o.ok = m.serialize(o.text, &p); if (!o.ok) o.text.clear(); o.code = (int)p.error.code; break; }
        case 11: { std::vector<double> v{0.5, a.d, 1234567.25}; o.ok = PG::serialize_array(v, o.text); break; } case 12: { std::vector<double> v; o.ok = PG::deserialize_array(v, string("[0.5, 12345.75]")); if (v.size() == 2) { o.bits[0] = bits(v[0]); o.bits[1] = bits(v[1]); } break; }
        case 13: { b::By m; m.v = std::vector<uint8_t>{a.c[0], a.c[1], 0xff}; o.ok = m.serialize(o.text); break; }
        default: { t::m_int64 m; t::m_double n; PG::Parameters q; string d = "{\"v\":1234567}"; std::vector<char> b(d.begin(), d.end()); o.ok = m.deserialize(b, &p); std::istringstream is("{\"v\": 2.5}"); bool k = n.deserialize(is, &q); o.ok = o.ok && k; o.bits[0] = (uint64_t)(int64_t)m.v; o.bits[1] = bits((double)n.v); }
    }
    return o;
}
static char point() { char t[16]; snprintf(t, sizeof t, "%.1f", 0.5); return t[1]; }
static bool fixed;
static Arg arg(int op) {
    Arg a; a.i = -1234567; a.u = 9876543210ull; a.d = 1234.5; a.f = 0.125f; a.c[0] = a.c[1] = '5'; a.s = "x";
    if (op == 0 || op == 1 || op == 11) { uint32_t w = sx_choose(3, "value"); if (w) { fixed = true; a.d = w == 1 ? 0.5 : 1.0 / 3; a.f = (float)a.d; return a; } } // whether a short text suffices is known for these
    if (op == 0 || op == 11) { uint64_t u = sx_value<uint64_t>("d"); sx_assume((u >> 52 & 0x7ff) != 0x7ff); memcpy(&a.d, &u, 8); } if (op == 1) { uint32_t u = sx_value<uint32_t>("f"); sx_assume((u >> 23 & 0xff) != 0xff); memcpy(&a.f, &u, 4); }
    if (op == 2) { a.i = sx_value<int32_t>("i"); } if (op == 3) { if (sx_choose(2, "sign")) a.i = sx_value<int64_t>("i"); else a.u = sx_value<uint64_t>("u"); }
    if (op >= 5 && op <= 9) { a.c[0] = sx_value<uint8_t>("c"); if (op == 5) { a.c[1] = sx_value<uint8_t>("c2"); sx_assume((a.c[0] < 8) & (a.c[1] < 8)); } else a.c[1] = sx_value<uint8_t>("c2"); }
    if (op == 13) { a.c[0] = sx_value<uint8_t>("c"); } if (op == 10) a.s = sx_string(2, "s"); return a;
}
extern "C" void sx_main() {
#ifdef X_LOCALES
    static const int kinds[] = {1, 2, 3, 4, 7}; int k = kinds[sx_choose(5, "kind")], op = (int)sx_choose(15, "op"); Arg a = arg(op); Out x, y;
    bool first = sx_choose(2, "first"); if (!first) x = run(op, a);
    sx_locale(k); locale_t before = uselocale((locale_t)0); char pt = (k & 3) ? ',' : '.'; CHECK(point() == pt, fixed ? "the locale is in use (fixed numbers)" : "the locale is in use");
    y = run(op, a);
    if (op == 0 && fixed && a.d == 0.5) CHECK(y.ok && y.text == "{\"v\":0.5}", "numbers are written with a decimal point"); if (op == 1 && fixed && a.f == 0.5f) CHECK(y.ok && y.text.find("\"v\":2.5") != string::npos && y.text.find("[0.5]") != string::npos, "numbers are written with a decimal point");
    if (op == 6) CHECK(y.ok && y.bits[0] == bits(0.5) && y.bits[1] == bits(-1.25) && y.bits[2] == bits(300), "numbers are read with a decimal point"); if (op == 12) CHECK(y.ok && y.bits[0] == bits(0.5) && y.bits[1] == bits(12345.75), "numbers are read with a decimal point");
    CHECK(point() == pt && uselocale((locale_t)0) == before, fixed ? "the calls leave the locale as it was (fixed numbers)" : "the calls leave the locale as it was");
    if (first) { sx_locale(8); x = run(op, a); }
    CHECK(same(x, y), fixed ? "the result is that of the C locale (fixed numbers)" : "the result is that of the C locale"); sx_reach("localised");
#else
    // format flags, width, precision and fill of the caller's streams
    int op = (int)sx_choose(4, "op"); uint8_t fl = sx_value<uint8_t>("flags"); sx_assume(fl < 64); std::ios_base::fmtflags f = std::ios_base::fmtflags();
    if (fl & 1) f |= std::ios_base::hex; else f |= std::ios_base::dec; if (fl & 2) f |= std::ios_base::showbase; if (fl & 4) f |= std::ios_base::skipws; if (fl & 8) f |= std::ios_base::boolalpha; if (fl & 16) f |= std::ios_base::showpos | std::ios_base::scientific; if (fl & 32) f |= std::ios_base::left | std::ios_base::uppercase;
    int32_t i = sx_value<int8_t>("i");
    if (op < 2) {
        std::ostringstream os; os.flags(f); os.precision(1); os.fill('*'); t::Mix m; m.i = i; m.b = true; m.s = " a"; m.ri.push_back(255); t::m_double d; d.v = 1234.5625; d.r.push_back(1e-7); string x; bool k, r;
        if (op == 0) { k = m.serialize(os); r = m.serialize(x); } else { k = d.serialize(os); r = d.serialize(x); }
        CHECK(k && r && same(os.str(), x), "the text does not depend on the stream's format"); CHECK(os.flags() == f && os.precision() == 1 && os.fill() == '*', "the stream's format stays"); sx_reach("written");
    } else {
        string doc = " { \"i\" : 10 , \"s\" : \" a  b \", \"ri\" : [ 8 , 9 ] } "; if (op == 3) doc[sx_choose(4, "damage") * 9 + 3] = ':'; std::istringstream is(doc); is.flags(f); is.precision(1); t::Mix m, n; PG::Parameters p, q; bool k = m.deserialize(is, &p), r = n.deserialize(doc, &q);
        CHECK(k == r && m == n, "the message does not depend on the stream's format"); if (!k) CHECK(p.error.code == q.error.code && p.error.line == q.error.line && p.error.column == q.error.column, "nor does the error"); CHECK(is.flags() == f && is.precision() == 1, "the stream's format stays"); sx_reach("read");
    }
#endif
}
