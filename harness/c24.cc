// C24: lists, nested messages and empty containers keep their structure
#ifdef X_LISTS
#include "lists.pg.hh"
#define T u
#define LIST std::list
#else
#include "types.pg.hh"
#define T t
#define LIST std::vector
#endif
#include "rt.hh"
#include "jsonref.hh"
template <class M> static void trip(const M &m, M &out, bool exact = true) {
    string js; PG::Parameters ps; ps.serialize_null = exact ? false : sx_choose(2, "null"); ps.ensure_ascii = false; CHECK(m.serialize(js, &ps), "written"); M b; CHECK(out.deserialize(js) && b.deserialize(js), "read back"); CHECK(out == b && b == out, "read twice, equal"); string again; CHECK(out.serialize(again, &ps) && same(again, js), "the same text again"); }
template <class A, class B> static bool eq_lists(const A &a, const B &b) { if (a.size() != b.size()) return false; auto j = b.begin(); for (auto i = a.begin(); i != a.end(); ++i, ++j) if (!(*i == *j)) return false; return true; }
template <class M, class V> static void scalars(V (*make)(int), uint32_t n) { M m, o; std::vector<V> want; for (uint32_t i = 0; i < n; ++i) { V v = make((int)i); m.r.push_back(v); want.push_back(v); } trip(m, o); CHECK(o.r.size() == n, "the number of elements"); size_t i = 0; for (auto x : o.r) { CHECK(x == want[i], "order and content"); ++i; } CHECK(o.empty() == (n == 0), "empty exactly without elements"); }
static uint32_t digit(const char *n) { uint8_t d = sx_value<uint8_t>(n); sx_assume(d <= 9); return d; }
static int32_t mk32(int i) { int32_t d = (int32_t)digit("e"); return i & 1 ? -1000000000 - d : d; }
static uint64_t mku64(int i) { return i & 1 ? 18446744073709551615ull : (uint64_t)digit("e"); }
static double mkd(int i) { static const double D[] = {0.1, -0.0, 1e300, -5}; return D[(i + sx_choose(4, "e")) % 4]; }
static bool mkb(int) { return sx_choose(2, "e"); }
static string txt(const char *n) { return sx_string(sx_choose(2, "len"), n); }
// every field of an Inner set or unset
static void fill(T::Inner &x, uint32_t bits) { if (bits & 1) x.a = (int32_t)digit("a"); if (bits & 2) x.b = sx_plain(1, "b"); }
static bool agree(const T::Inner &x, const T::Inner &y) { return x.a.empty() == y.a.empty() && x.b.empty() == y.b.empty() && (int32_t)x.a == (int32_t)y.a && same(*x.b, *y.b) && x == y; }
extern "C" void sx_main() {
#if defined(X_SCALARS)
    uint32_t n = sx_choose(X_SCALARS + 1, "n");
    switch (sx_choose(5, "type")) {
        case 0: scalars<T::m_int32, int32_t>(mk32, n); break; case 1: scalars<T::m_uint64, uint64_t>(mku64, n); break; case 2: scalars<T::m_double, double>(mkd, n); break; case 3: scalars<T::m_bool, bool>(mkb, n); break;
        default: { T::StrR m, o; std::vector<string> w; for (uint32_t i = 0; i < n; ++i) { string v = i < 2 ? txt("s") : string(i, 'x'); m.r.push_back(v); w.push_back(v); } trip(m, o); CHECK(o.r.size() == n, "the number of elements"); size_t i = 0; for (auto &x : o.r) { CHECK(!x.empty() && same(*x, w[i]), "order and content"); ++i; } } }
    sx_reach("scalars");
#elif defined(X_NESTED)
    // two levels of messages; the inner ones in every state of presence, also inside lists
    T::Deep2 m, o; uint32_t n = sx_choose(X_NESTED + 1, "n"), d = sx_choose(8, "d"); fill(m.d.in, d); if (d & 4) m.d.n = 7; std::vector<uint32_t> k; for (uint32_t i = 0; i < n; ++i) { k.push_back(sx_choose(i < 2 ? 8 : 2, "k")); m.l.emplace_back(); fill(m.l.back().in, k[i]); if (k[i] & 4) m.l.back().n = (int32_t)i; }
    trip(m, o); CHECK(agree(o.d.in, m.d.in) && o.d.n.empty() == m.d.n.empty() && (int32_t)o.d.n == (int32_t)m.d.n, "the nested message"); CHECK(o.l.size() == n, "the number of messages"); auto p = m.l.begin(); for (auto q = o.l.begin(); q != o.l.end(); ++q, ++p) CHECK(agree(q->in, p->in) && q->n.empty() == p->n.empty() && (int32_t)q->n == (int32_t)p->n, "order and content of messages"); CHECK(o == m, "equal"); sx_reach("nested");
#elif defined(X_EMPTY)
    // empty messages and containers, alone and inside others
    T::HasEmpty m, o; uint32_t n = sx_choose(4, "n"); for (uint32_t i = 0; i < n; ++i) m.l.emplace_back(); if (sx_choose(2, "x")) m.x = 0; trip(m, o); CHECK(o.l.size() == n && o.x.empty() == m.x.empty() && o == m, "empty messages are counted");
    T::Mix x, y; uint32_t k = sx_choose(3, "rm"), s = sx_choose(3, "rs"); for (uint32_t i = 0; i < k; ++i) x.rm.emplace_back(); for (uint32_t i = 0; i < s; ++i) x.rs.push_back(string()); if (sx_choose(2, "ri")) x.ri.push_back(0); if (sx_choose(2, "m")) x.m.a = 0; trip(x, y); CHECK(y.rm.size() == k && y.rs.size() == s && y.ri.size() == x.ri.size() && y.m.a.empty() == x.m.a.empty() && y == x, "empty elements are counted"); for (auto &e : y.rs) CHECK(!e.empty() && (*e).empty(), "an empty string stays an empty string");
    // written with nulls, everything comes back as well
    string js; PG::Parameters ps; ps.serialize_null = true; CHECK(x.serialize(js, &ps), "written"); T::Mix z; CHECK(z.deserialize(js), "read back"); CHECK(z == x, "equal with nulls"); jref::Doc doc(js); CHECK(doc.ok && doc.members == 7, "every member is written"); sx_reach("empty");
#else
    // documents: the number, order and content of elements is what the text says; reading twice gives equal messages
    uint32_t n = sx_choose(X_READ + 1, "n"); string ri, rs, rm, sp = sx_choose(2, "space") ? " " : ""; std::vector<char> g; for (uint32_t i = 0; i < n; ++i) { char c = (char)sx_value<uint8_t>("g"); sx_assume((c >= '0') & (c <= '9')); g.push_back(c); string e = i ? "," + sp : ""; ri += e + c; rs += e + "\"" + c + "\""; rm += e + (i % 2 ? string("{\"a\":") + c + "}" : string("{\"b\":\"") + c + "\",\"zz\":[[{}]]}"); }
    string js = "{\"rm\":[" + rm + sp + "],\"ri\":[" + ri + "],\"m\":{\"b\":\"\"},\"rs\":[" + sp + rs + "]}"; T::Mix a, b; CHECK(a.deserialize(js) && b.deserialize(js), "read"); CHECK(a == b, "read twice, equal"); CHECK(a.ri.size() == n && a.rs.size() == n && a.rm.size() == n, "the number of elements"); size_t i = 0; for (auto x : a.ri) { CHECK(x == g[i] - '0', "numbers in order"); ++i; } i = 0; for (auto &x : a.rs) { CHECK(same(*x, string(1, g[i])), "strings in order"); ++i; } i = 0; for (auto &x : a.rm) { if (i % 2) CHECK((int32_t)x.a == g[i] - '0' && x.b.empty(), "messages in order"); else CHECK(x.a.empty() && same(*x.b, string(1, g[i])), "messages in order"); ++i; } CHECK(!a.m.b.empty() && (*a.m.b).empty() && a.m.a.empty(), "the nested message"); sx_reach("read");
#endif
}
