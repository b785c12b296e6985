// C06: which fields are set survives writing and reading; unset is omitted or null; set is always written
#include "types.pg.hh"
#include "bytes.pg.hh"
#include "rt.hh"
#include "jsonref.hh"
// "null", "[]" or an object of nulls
static bool nothing(const string &v) { if (v == "null" || v == "[]") return true; jref::Doc d(v); if (!d.ok) return false; for (auto &x : d.vals) if (x != "null") return false; return true; }
static void member(const jref::Doc &d, const char *n, bool set, bool nulls) {
    string v = d.get(n); if (set) { CHECK(d.has(n), "a set field is written"); CHECK(v != "null", "a set field is not null"); }
    else if (nulls) { CHECK(d.has(n), "serialize_null writes every field"); CHECK(nothing(v), "an unset field is null"); } else CHECK(!d.has(n), "an unset field is omitted");
}
#ifdef X_SCALARS
template <class M, class T> static void scalar(T v) {
    M m, e; CHECK(m.empty() && m.v.empty(), "fresh field is unset"); PG::Parameters ps; ps.serialize_null = sx_choose(2, "nulls"); uint32_t k = sx_choose(4, "history");
    bool set = k != 0 && k != 2; if (k >= 1) m.v = v; if (k == 2) m.v.clear(); if (k == 3) { m.clear(); m.v = v; }
    CHECK(m.v.empty() == !set && m.empty() == !set, "empty() tells whether the field is set"); string js; CHECK(m.serialize(js, &ps), "serialize"); jref::Doc d(js); CHECK(d.ok, "well-formed"); member(d, "v", set, ps.serialize_null); member(d, "r", false, ps.serialize_null);
    M o; CHECK(o.deserialize(js, &ps), "deserialize"); CHECK(o.v.empty() == !set && o.r.empty(), "presence survives"); CHECK(o == m, "round trip gives an equal message");
    string doc; switch (sx_choose(4, "doc")) { case 0: doc = "{}"; break; case 1: doc = "{\"v\":null}"; break; case 2: doc = "{\"v\":null,\"r\":null}"; break; default: doc = "{\"r\":[]}"; } M p; CHECK(p.deserialize(doc), "null is accepted"); CHECK(p.v.empty() && p.r.empty() && p.empty(), "null or missing leaves the field unset");
    sx_reach("scalar");
}
#endif
extern "C" void sx_main() {
    PG::Parameters ps;
#ifdef X_SCALARS
    switch (sx_choose(13, "type")) {
        case 0: scalar<t::m_int32>((int32_t)sx_value<int8_t>("x")); break; case 1: scalar<t::m_sint32>((int32_t)sx_value<int8_t>("x")); break; case 2: scalar<t::m_sfixed32>((int32_t)sx_value<int8_t>("x")); break;
        case 3: scalar<t::m_uint32>((uint32_t)sx_value<uint8_t>("x")); break; case 4: scalar<t::m_fixed32>((uint32_t)sx_value<uint8_t>("x")); break;
        case 5: scalar<t::m_int64>((int64_t)sx_value<int8_t>("x")); break; case 6: scalar<t::m_sint64>((int64_t)sx_value<int8_t>("x")); break; case 7: scalar<t::m_sfixed64>((int64_t)sx_value<int8_t>("x")); break;
        case 8: scalar<t::m_uint64>((uint64_t)sx_value<uint8_t>("x")); break; case 9: scalar<t::m_fixed64>((uint64_t)sx_value<uint8_t>("x")); break;
        case 10: scalar<t::m_bool>(sx_bool("x")); break; case 11: scalar<t::m_double>(sx_choose(2, "z") ? 0.0 : -0.25); break; default: scalar<t::m_float>(sx_choose(2, "z") ? -0.0f : 3.0f);
    }
#elif defined(X_WRITE)
    t::Mix m; ps.serialize_null = sx_choose(2, "nulls"); uint32_t set = sx_choose(128, "set"), zero = sx_choose(2, "zero"); string v = sx_plain(2, "v"); int32_t x = sx_value<int8_t>("x");
    if (set & 1) m.i = zero ? 0 : x; if (set & 2) m.s = zero ? string() : v; if (set & 4) m.b = zero ? false : sx_bool("b"); if (set & 8) m.ri.push_back(zero ? 0 : x); if (set & 16) m.rs.push_back(zero ? string() : v);
    if (set & 32) { if (zero) m.m.b = string(); else m.m.a = x; } if (set & 64) { t::Inner e; if (!zero) e.b = v; m.rm.push_back(e); }
    CHECK(m.empty() == (set == 0), "empty() tells whether any field is set");
    string js; CHECK(m.serialize(js, &ps), "serialize"); jref::Doc d(js); CHECK(d.ok, "well-formed"); static const char *N[] = {"i", "s", "b", "ri", "rs", "m", "rm"}; for (int k = 0; k < 7; ++k) member(d, N[k], set >> k & 1, ps.serialize_null);
    t::Mix o; CHECK(o.deserialize(js, &ps), "deserialize"); CHECK(o.i.empty() == !(set & 1) && o.s.empty() == !(set & 2) && o.b.empty() == !(set & 4) && o.ri.empty() == !(set & 8) && o.rs.empty() == !(set & 16) && o.m.empty() == !(set & 32) && o.rm.empty() == !(set & 64), "presence survives");
    CHECK(o.m.a.empty() == !((set & 32) && !zero) && o.m.b.empty() == !((set & 32) && zero), "presence survives in nested messages"); CHECK(o == m, "round trip gives an equal message"); sx_reach("write");
#elif defined(X_READ)
    // each member missing, null or present, in a message and in a nested one
    t::Opt m; string js = "{"; bool has[4]; static const char *N[] = {"i", "s", "d", "b"}; string v = sx_plain(1, "v"); char dg = (char)sx_value<uint8_t>("dg"); sx_assume((dg >= '0') & (dg <= '9'));
    for (int k = 0; k < 4; ++k) { uint32_t c = sx_choose(4, "member"); has[k] = c >= 2; if (!c) continue; if (js.size() > 1) js += ','; js += '"'; js += N[k]; js += "\":"; if (c == 1) { js += "null"; continue; }
        bool z = c == 3; switch (k) { case 0: if (z) js += '0'; else js += dg; break; case 1: js += '"'; if (!z) js += v; js += '"'; break; case 2: js += z ? "0.0" : "-0.5"; break; default: js += z ? "false" : "true"; } }
    js += '}'; CHECK(m.deserialize(js), "deserialize"); CHECK(m.i.empty() == !has[0] && m.s.empty() == !has[1] && m.d.empty() == !has[2] && m.b.empty() == !has[3], "exactly the members present and not null are set"); CHECK(m.empty() == !(has[0] | has[1] | has[2] | has[3]), "empty()"); sx_reach("read");
#elif defined(X_NESTED)
    if (sx_choose(2, "elements")) { // null in lists
        uint32_t n = sx_choose(4, "n"); string l, names; std::vector<uint32_t> kept; int f = (int)sx_choose(6, "list"); uint8_t x = sx_value<uint8_t>("x"); sx_assume((x >= '0') & (x <= '9')); for (uint32_t i = 0; i < n; ++i) { if (i) l += ','; if (sx_choose(2, "null")) { l += "null"; continue; } kept.push_back(i); switch (f) { case 0: case 4: l += string("-1") + (char)x; break; case 1: case 5: l += string("\"") + (char)x + "\""; break; case 2: l += string("{\"a\":") + (char)x + "}"; break; default: l += (i & 1) ? "true" : "false"; } }
        l = "[" + l + "]"; size_t k = 0; auto no = [&](bool r) { CHECK(r || kept.size() < n, "deserialize"); if (!r) sx_reach("elements refused"); return !r; }; auto is = [&](bool ok) { CHECK(ok, "the elements of a list are those that are not null"); }; t::Mix m; t::m_bool q; std::vector<int32_t> v; std::vector<PG::string_field> w;
        switch (f) { case 0: if (no(m.deserialize("{\"ri\":" + l + "}"))) return; k = m.ri.size(); for (auto e : m.ri) is(e == -10 - (x - '0')); break; case 1: if (no(m.deserialize("{\"rs\":" + l + "}"))) return; k = m.rs.size(); for (auto &e : m.rs) is(!e.empty() && same((const string &)e, string(1, (char)x))); break;
            case 2: if (no(m.deserialize("{\"rm\":" + l + "}"))) return; k = m.rm.size(); for (auto &e : m.rm) is(!e.a.empty() && e.a == x - '0'); break; case 3: if (no(q.deserialize("{\"r\":" + l + "}"))) return; k = q.r.size(); for (size_t i = 0; i < k && i < kept.size(); ++i) is(q.r[i] == (kept[i] % 2 == 1)); break;
            case 4: if (no(PG::deserialize_array(v, l))) return; k = v.size(); for (auto e : v) is(e == -10 - (x - '0')); break; default: if (no(PG::deserialize_array(w, l))) return; k = w.size(); for (auto &e : w) is(!e.empty() && same((const string &)e, string(1, (char)x))); }
        is(k == kept.size()); sx_reach("elements"); return; }
    static const char *V[] = {"", "null", "{}", "{\"a\":null}", "{\"b\":null,\"a\":0}", "{\"b\":\"\"}"}; static const char *L[] = {"", "null", "[]", "[{}]", "[{\"a\":null},{\"a\":0}]"}; static const char *S[] = {"", "null", "[]", "[\"\"]"}; static const char *Y[] = {"", "null", "\"\"", "\"AA==\""};
    uint32_t i = sx_choose(6, "m"), j = sx_choose(5, "rm"), k = sx_choose(4, "rs"), y = sx_choose(4, "bytes"); string js = "{";
    if (i) js += string("\"m\":") + V[i]; if (j) js += string(js.size() > 1 ? "," : "") + "\"rm\":" + L[j]; if (k) js += string(js.size() > 1 ? "," : "") + "\"rs\":" + S[k]; js += '}';
    t::Mix m; CHECK(m.deserialize(js), "deserialize"); CHECK(m.m.empty() == (i < 4) && m.m.a.empty() == (i != 4) && m.m.b.empty() == (i != 5), "presence in a nested message"); CHECK(m.rm.size() == (j < 3 ? 0u : j - 2) && m.rs.size() == (k == 3 ? 1u : 0u), "presence of repeated fields"); if (j == 4) CHECK(m.rm[0].a.empty() && !m.rm[1].a.empty(), "presence in list elements");
    b::By b; string jb = y ? string("{\"v\":") + Y[y] + "}" : string("{}"); CHECK(b.deserialize(jb), "deserialize"); CHECK(b.v.empty() == (y != 3), "presence of bytes"); sx_reach("nested");
#endif
}
