// C29: threads. What two threads do is free of races when neither writes storage the other can reach: sx_threads explores one
// thread with everything made before it, and what initialisers of statics make, as shared.
#include "types.pg.hh"
#include "bytes.pg.hh"
#include "nameson.pg.hh"
#include "rt.hh"
#include "calls.hh"
#ifdef X_OWN
// each thread makes calls on objects of its own
struct Arg { uint32_t k[X_STEPS]; char c, d; };
static string call(uint32_t k, char c, char d) {
    if (k < OPS) return op(k, c, d);
    string s; switch (k - OPS) {
        case 0: { n::M m, o; m.color = 5; m.u = 7; m.y = c & 15; bool ok = m.serialize(s); ok &= o.deserialize(s); return (ok && o == m ? "1" : "0") + s; }
        case 1: { n::M m; PG::Parameters p; bool ok = m.deserialize(string("{\"") + c + d + "\":1}", &p); return (ok ? "1" : "0") + err(p); }
        case 2: { t::Mix a, b; a.s = string(1, c); b.m.a = 3; a.swap(b); t::Mix e(a), f; f = b; f.clear(); return a == e ? "1" : "0"; }
        default: { std::vector<t::Inner> v(2), w; v[1].b = string(1, c); bool ok = PG::serialize_array(v, s); ok &= PG::deserialize_array(w, s); return (ok && w.size() == 2 ? "1" : "0") + s; } } }
static void body(void *p) { const Arg &a = *(const Arg *)p; for (uint32_t k : a.k) call(k, a.c, a.d); }
#else
// both threads read one message
struct Arg { t::Mix m; t::Opt o; b::By b; t::Deep2 d; t::m_double v; n::M n; std::vector<int32_t> i; std::vector<t::Inner> l; string js; uint32_t k[X_STEPS]; };
static void look(const Arg &a, uint32_t k) {
    string s; PG::Parameters p;
    switch (k) {
        case 0: a.m.serialize(s); break; case 1: p.serialize_null = true; p.ensure_ascii = true; a.m.serialize(s, &p); break; case 2: { std::ostringstream os; a.d.serialize(os); break; } case 3: { std::vector<char> v; a.b.serialize(v); break; }
        case 4: { t::Mix c(a.m); c.clear(); c = a.m; c.i = 1; c.rs.push_back("x"); c.m.b = "q"; break; } case 5: { t::Mix c; (void)(a.m == c); (void)(c == a.m); (void)(a.m != a.m); (void)a.m.empty(); break; }
        case 6: { const string &r = a.m.s; s = r; s += *a.m.m.b; (void)a.m.s.empty(); (void)(a.m.s == s); (void)(a.m.s != "x"); (void)(int32_t)a.m.i; (void)(a.m.i == 3); (void)a.o.s.empty(); s += *a.o.s; (void)(bool)a.o.b; break; }
        case 7: a.o.serialize(s); break; case 8: a.v.serialize(s); break; case 9: a.n.serialize(s); break; case 10: PG::serialize_array(a.i, s); PG::serialize_array(a.l, s); break;
        case 11: { t::Mix c; c.deserialize(a.js, &p); std::vector<char> v(a.js.begin(), a.js.end()); c.deserialize(v); c.deserialize(a.js.data(), a.js.size()); break; }
        default: { for (auto &x : a.m.rm) (void)x.empty(); std::vector<uint8_t> c(a.b.v); (void)(a.b.v == c); t::Deep2 e; e = a.d; e.swap(e); break; } } }
static void body(void *p) { const Arg &a = *(const Arg *)p; for (uint32_t k : a.k) look(a, k); }
#endif
extern "C" void sx_main() {
    Arg a; char c = (char)sx_value<uint8_t>("c");
#ifdef X_OWN
    for (uint32_t &k : a.k) k = sx_choose(OPS + 4, "call");
    a.c = c; a.d = sx_choose(2, "d") ? 'z' : (char)0xC3;
#else
    for (uint32_t &k : a.k) k = sx_choose(13, "look");
    if (sx_choose(2, "set")) { a.m.i = 3; a.m.s = string("s") + c; a.m.b = true; a.m.ri.push_back(7); a.m.rs.push_back(string(1, c)); a.m.m.a = c; a.m.rm.resize(2); a.m.rm[1].b = "r"; a.o.s = ""; a.o.i = 0; a.b.v.push_back((uint8_t)c); a.d.l.resize(1); a.d.d.in.a = 2; a.v.v = 0.1; a.v.r.push_back(2.5); a.n.color = 4; a.n.u = c; a.i.push_back(c); a.l.resize(2); }
    a.js = string("{\"s\":\"") + c + "\",\"i\":1,\"q\":[{}]}";
#endif
    sx_threads(body, &a); sx_reach("done");
}
