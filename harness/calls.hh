// Kinds of call on messages of types.proto and bytes.proto, and everything a caller can see of one.
#pragma once
#include <stdlib.h>
// c and d are unconstrained bytes
static string err(const PG::Parameters &p) { return " " + std::to_string((int)p.error.code) + ":" + std::to_string(p.error.line) + ":" + std::to_string(p.error.column) + " " + p.error.message; }
static string mix(const t::Mix &m) { string s, n; PG::Parameters p; p.serialize_null = true; if (!m.serialize(s)) s = "?"; if (!m.serialize(n, &p)) n = "?"; return s + n; }
static string read(const string &js) { t::Mix m; PG::Parameters p; bool ok = m.deserialize(js, &p); return (ok ? "1" + mix(m) : "0") + err(p); }
static const uint32_t OPS = 18;
static string op(uint32_t k, char c, char d) {
    string s; PG::Parameters p; t::Mix m;
    switch (k) {
        case 0: { m.i = 5; m.s = string(1, c) + d; m.rs.push_back(string(1, d)); bool ok = m.serialize(s, &p); return (ok ? "1" : "0") + s + err(p); }
        case 1: { p.ensure_ascii = true; m.s = string("x") + c + d; bool ok = m.serialize(s, &p); return (ok ? "1" + s : "0") + err(p); }
        case 2: { p.serialize_null = true; m.rm.emplace_back(); m.rm.back().a = d & 7; m.b = (c & 1) != 0; bool ok = m.serialize(s, &p); return (ok ? "1" : "0") + s + err(p); }
        case 3: return read(string("{\"s\":\"") + c + d + "\",\"ri\":[1,2],\"i\":7}");
        case 4: return read(string("{\"i\":") + c + "7,\"m\":{\"a\":1}}");
        case 5: return read(string("{\"i\":7,") + c);
        case 6: return read(string("{\"zz\":{\"q\":[1,{\"") + (char)('a' + (c & 7)) + "\":null}]},\"s\":\"\\u00" + (char)('0' + (d & 7)) + "9\"}\n ");
        case 7: { t::m_double v; t::m_float f; v.v = 0.1 + (c & 3); f.v = 0.1f; v.r.push_back(1e300); bool ok = v.serialize(s) & f.serialize(s); t::m_double w; ok &= w.deserialize("{\"v\":1e-3,\"r\":[2.5]}"); w.serialize(s); return (ok ? "1" : "0") + s; }
        case 8: { b::By v; v.v = std::vector<uint8_t>{(uint8_t)c, (uint8_t)d, 3, 4}; bool ok = v.serialize(s); b::By w; ok &= w.deserialize(s); return (ok && w == v ? "1" : "0") + s; }
        case 9: { b::By w; bool ok = w.deserialize(string("{\"v\":\"ab") + (char)(d & 1 ? 'c' : '-') + "=\"}", &p); w.serialize(s); return (ok ? "1" + s : "0") + err(p); }
        case 10: { std::vector<int32_t> v{1, 2, c & 7}; bool ok = PG::serialize_array(v, s); std::vector<string> w; ok &= PG::deserialize_array(w, string("[\"a\",\"") + (char)('a' + (d & 7)) + "\"]", &p); for (auto &x : w) s += x; return (ok ? "1" : "0") + s + err(p); }
        case 11: { std::vector<int32_t> w; bool ok = PG::deserialize_array(w, string("[1,\"x\"]"), &p); return (ok ? "1" : "0") + err(p); }
        case 12: { m.s = "abc"; char *q = (char *)malloc(7); bool ok = m.serialize(q, 7, &p); free(q); return (ok ? "1" : "0") + err(p); }
        // values that compare equal, or share a beginning, with those of the same call made with another c
        case 13: { t::m_double v; v.v = sx_decide(c & 1) ? 0.0 : -0.0; bool ok = v.serialize(s); return (ok ? "1" : "0") + s; }
        case 15: { bool odd = sx_decide(c & 1); t::m_float f; f.v = odd ? 1.0f : 1.0f + 1.1920929e-7f; std::vector<double> r(1, odd ? 1.0 : 1.0 + 2.220446049250313e-16); string q; bool ok = f.serialize(s) & PG::serialize_array(r, q); return (ok ? "1" : "0") + s + q; }
        case 16: { t::m_double v; bool ok = v.deserialize(sx_decide(c & 1) ? "{\"v\":-0.0}" : "{\"v\":0.0}"); v.serialize(s); return (ok ? "1" : "0") + s; }
        case 14: { bool odd = sx_decide(c & 1); m.s = string("k\0", 2) + (char)(odd ? 'x' : 'y'); m.rs.push_back(string("long enough for the heap\0", 25) + (char)(odd ? 'x' : 'y')); bool ok = m.serialize(s); t::Mix x; ok &= x.deserialize(string("{\"s\":\"k\\u0000") + (odd ? "x" : "y") + "\"}"); x.serialize(s); return (ok ? "1" : "0") + s; }
        default: { std::istringstream is(string("{\"i\":3}{\"i\":") + (d & 1 ? "4}" : "q}")); t::Mix x; std::istream &st = is; bool a = m.deserialize(st, &p), z = x.deserialize(st); return (a ? "1" + mix(m) : "0") + (z ? "1" + mix(x) : "0"); } } }
