// C03: finite floating-point values survive; literals are JSON numbers
#include "types.pg.hh"
#include "rt.hh"
#include "jsonref.hh"
template <class T> struct bitsof; template <> struct bitsof<double> { typedef uint64_t type; }; template <> struct bitsof<float> { typedef uint32_t type; };
template <class T> static typename bitsof<T>::type bits(T v) { typename bitsof<T>::type u; memcpy(&u, &v, sizeof u); return u; }
template <class T> static bool eq(T a, T b) { return (bits(a) == bits(b)) | ((a == 0) & (b == 0)); } // -0 and 0 are the same value
template <class T> static T finite(const char *n) {
    typename bitsof<T>::type u; sx_bytes(&u, sizeof u, n); if (sizeof(T) == 8) sx_assume(((uint64_t)u >> 52 & 0x7ff) != 0x7ff); else sx_assume(((uint32_t)u >> 23 & 0xff) != 0xff);
    T v; memcpy(&v, &u, sizeof v); return v;
}
template <class M, class T> static void trip() {
    T x = finite<T>("x"); M m; string js; uint32_t k = sx_choose(3, "place");
    if (k == 0) { m.v = x; CHECK(m.serialize(js), "serialize succeeds"); jref::Doc d(js); CHECK(d.ok && d.members == 1, "one member, well-formed"); CHECK(js.size() > 6 && js.compare(0, 5, "{\"v\":") == 0 && jref::is_number(js, 5, js.size() - 1), "literal is a JSON number"); sx_reach("literal"); }
    else if (k == 1) { m.v = x; CHECK(m.serialize(js), "serialize succeeds"); M n; CHECK(n.deserialize(js), "deserialize succeeds"); CHECK(!n.v.empty() && eq<T>((T)n.v, x), "value restored"); sx_reach("single"); }
    else { m.r.push_back(x); m.r.push_back((T)1.5); CHECK(m.serialize(js), "serialize succeeds"); M n; CHECK(n.deserialize(js), "deserialize succeeds"); CHECK(n.r.size() == 2 && eq<T>(n.r[0], x) && n.r[1] == (T)1.5, "repeated value restored"); sx_reach("repeated"); }
}
extern "C" void sx_main() { if (sx_choose(2, "type")) trip<t::m_float, float>(); else trip<t::m_double, double>(); }
