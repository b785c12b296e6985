// C02: integers and booleans keep their exact value
#include "types.pg.hh"
#include "rt.hh"
#include <limits>
// value of a plain decimal literal; checks the grammar of JSON integers
template <class T> static bool literal(const string &s, size_t &i, T want) {
    bool neg = i < s.size() && s[i] == '-'; if (neg) ++i; size_t b = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
    size_t n = i - b; if (n == 0 || n > 20) return false; if (n > 1 && s[b] == '0') return false;
    uint64_t u = sx_undigits(s.data() + b, n); if (n == 20 && s[b] != '1') return false;
    uint64_t w = neg ? 0 - (uint64_t)want : (uint64_t)want; if (neg != (want < 0)) return false; return u == w;
}
static bool eat(const string &s, size_t &i, const char *t) { for (; *t; ++t, ++i) if (i >= s.size() || s[i] != *t) return false; return true; }
template <class M, class T> static void write_int() {
    T x = sx_value<T>("x"); M m; m.v = x; string js; uint32_t k = sx_choose(3, "place");
    if (k == 0) { CHECK(m.serialize(js), "serialize succeeds"); size_t i = 0; CHECK(eat(js, i, "{\"v\":") && literal(js, i, x) && eat(js, i, "}") && i == js.size(), "literal denotes the value"); sx_reach("literal"); }
    else if (k == 1) { T y = sx_value<T>("y"); m.v.clear(); m.r.push_back(x); m.r.push_back(y); CHECK(m.serialize(js), "serialize succeeds"); M n; CHECK(n.deserialize(js), "deserialize succeeds"); CHECK(n.v.empty() && n.r.size() == 2 && n.r[0] == x && n.r[1] == y, "repeated values restored"); sx_reach("repeated"); }
    else { CHECK(m.serialize(js), "serialize succeeds"); M n; CHECK(n.deserialize(js), "deserialize succeeds"); CHECK(!n.v.empty() && (T)n.v == x && n.r.empty(), "value restored"); CHECK(n.v == m.v && !(n != m), "messages equal"); sx_reach("single"); }
}
// every decimal literal in range is read as its value
template <class M, class T> static void read_int() {
    uint32_t maxd = std::numeric_limits<T>::digits10 + 1, n = 1 + sx_choose(maxd, "digits"); bool neg = std::numeric_limits<T>::is_signed && sx_choose(2, "neg"); string d = sx_string(n, "d");
    int ok = 1; for (auto c : d) ok &= (c >= '0') & (c <= '9'); if (n > 1) ok &= d[0] != '0'; sx_assume(ok);
    uint64_t u; if (n == 20) { sx_assume(d[0] == '1'); uint64_t hi = sx_undigits(d.data(), 19), lo = (uint64_t)(d[19] - '0'); sx_assume((hi < 1844674407370955161ull) | ((hi == 1844674407370955161ull) & (lo <= 5))); }
    u = sx_undigits(d.data(), n);
    uint64_t lim = (uint64_t)std::numeric_limits<T>::max() + (neg ? 1 : 0); sx_assume(u <= lim);
    T want = (T)(neg ? 0 - u : u); string lit = (neg ? "-" : "") + d; M m; bool rep = sx_choose(2, "rep");
    string js = rep ? "{\"r\":[" + lit + "]}" : "{\"v\":" + lit + "}"; CHECK(m.deserialize(js), "literal in range accepted");
    if (rep) CHECK(m.r.size() == 1 && m.r[0] == want, "repeated literal read as its value"); else CHECK(!m.v.empty() && (T)m.v == want, "literal read as its value"); sx_reach("read");
}
template <class M, class T> static void both() {
#ifdef X_READ
    read_int<M, T>();
#else
    write_int<M, T>();
#endif
}
static void boolean() {
    bool x = sx_bool("x"), y = sx_bool("y"); t::m_bool m; m.v = x; m.r.push_back(y); m.r.push_back(x); string js; CHECK(m.serialize(js), "serialize succeeds");
    string want = string("{\"r\":[") + (y ? "true" : "false") + "," + (x ? "true" : "false") + "],\"v\":" + (x ? "true" : "false") + "}"; CHECK(same(js, want), "boolean literals");
    t::m_bool n; CHECK(n.deserialize(js), "deserialize succeeds"); CHECK(!n.v.empty() && (bool)n.v == x && n.r.size() == 2 && n.r[0] == y && n.r[1] == x && n == m, "booleans restored"); sx_reach("bool");
}
extern "C" void sx_main() {
#ifdef X_WIDE
    switch (sx_choose(5, "type")) { case 0: return both<t::m_int64, int64_t>(); case 1: return both<t::m_sint64, int64_t>(); case 2: return both<t::m_sfixed64, int64_t>(); case 3: return both<t::m_uint64, uint64_t>(); default: return both<t::m_fixed64, uint64_t>(); }
#else
    switch (sx_choose(6, "type")) { case 0: return both<t::m_int32, int32_t>(); case 1: return both<t::m_sint32, int32_t>(); case 2: return both<t::m_sfixed32, int32_t>(); case 3: return both<t::m_uint32, uint32_t>(); case 4: return both<t::m_fixed32, uint32_t>(); default: return boolean(); }
#endif
}
