// C07: copy, assignment, clear, swap and equality of messages against a plain model
#include <utility>
#include "types.pg.hh"
#include "bytes.pg.hh"
#include "rt.hh"
#ifdef X_HISTORY
struct In { bool ha = false, hb = false; int32_t a = 0; string b; };
struct M { bool hi = false, hs = false, hb = false, b = false; int32_t i = 0; string s; std::vector<int32_t> ri; std::vector<string> rs; In m; std::vector<In> rm; };
static bool eq(const In &x, const In &y) { return x.ha == y.ha && x.hb == y.hb && x.a == y.a && same(x.b, y.b); }
static bool eq(const M &x, const M &y) {
    if (x.hi != y.hi || x.hs != y.hs || x.hb != y.hb || x.ri.size() != y.ri.size() || x.rs.size() != y.rs.size() || x.rm.size() != y.rm.size()) return false;
    if (x.i != y.i || x.b != y.b || !same(x.s, y.s) || !eq(x.m, y.m)) return false;
    for (size_t k = 0; k < x.ri.size(); ++k) if (x.ri[k] != y.ri[k]) return false; for (size_t k = 0; k < x.rs.size(); ++k) if (!same(x.rs[k], y.rs[k])) return false; for (size_t k = 0; k < x.rm.size(); ++k) if (!eq(x.rm[k], y.rm[k])) return false; return true;
}
static bool none(const M &x) { return !x.hi && !x.hs && !x.hb && x.ri.empty() && x.rs.empty() && !x.m.ha && !x.m.hb && x.rm.empty(); }
static bool is(const t::Inner &m, const In &x) { return m.a.empty() == !x.ha && m.b.empty() == !x.hb && (!x.ha || (int32_t)m.a == x.a) && (!x.hb || same(*m.b, x.b)); }
static bool is(const t::Mix &m, const M &x) {
    if (m.i.empty() == x.hi || m.s.empty() == x.hs || m.b.empty() == x.hb || m.ri.size() != x.ri.size() || m.rs.size() != x.rs.size() || m.rm.size() != x.rm.size()) return false;
    if ((x.hi && (int32_t)m.i != x.i) || (x.hs && !same(*m.s, x.s)) || (x.hb && (bool)m.b != x.b) || !is(m.m, x.m)) return false;
    for (size_t k = 0; k < x.ri.size(); ++k) if (m.ri[k] != x.ri[k]) return false; for (size_t k = 0; k < x.rs.size(); ++k) if (!same(m.rs[k], x.rs[k])) return false; for (size_t k = 0; k < x.rm.size(); ++k) if (!is(m.rm[k], x.rm[k])) return false; return true;
}
static void set(t::Mix &m, M &x, int f, int32_t v, const string &s) {
    switch (f) {
        case 0: m.i = v; x.hi = true; x.i = v; break; case 1: m.s = s; x.hs = true; x.s = s; break; case 2: m.b = v == 1; x.hb = true; x.b = v == 1; break;
        case 3: m.ri.push_back(v); x.ri.push_back(v); break; case 4: m.rs.push_back(s); x.rs.push_back(s); break;
        case 5: m.m.b = s; x.m.hb = true; x.m.b = s; break; case 6: { t::Inner e; e.a = v; m.rm.push_back(e); In y; y.ha = true; y.a = v; x.rm.push_back(y); break; }
        default: m.m.a = v; x.m.ha = true; x.m.a = v; }
}
static void unset(t::Mix &m, M &x, int f) { switch (f) { case 0: m.i.clear(); x.hi = false; x.i = 0; break; case 1: m.s.clear(); x.hs = false; x.s = string(); break; case 2: m.b.clear(); x.hb = x.b = false; break; case 3: m.ri.clear(); x.ri.clear(); break; case 4: m.rs.clear(); x.rs.clear(); break; case 6: m.rm.clear(); x.rm.clear(); break; default: m.m.clear(); x.m = In(); } }
static void both(const t::Mix &a, const t::Mix &b, const M &x, const M &y) {
    CHECK(is(a, x) && is(b, y), "contents"); bool e = eq(x, y); CHECK((a == b) == e && (b == a) == e && a.equal(b) == e, "equality holds exactly when all fields agree"); CHECK((a != b) == !e, "inequality is the negation of equality"); CHECK(a == a && !(a != a), "a message equals itself");
    CHECK(a.empty() == none(x) && b.empty() == none(y), "empty() exactly when no field is set");
    string p, q; CHECK(a.serialize(p) && b.serialize(q), "serialize"); if (e) CHECK(same(p, q), "equal messages serialise to the same text"); if (none(x)) { CHECK(a == t::Mix(), "an empty message equals a default-constructed one"); CHECK(p == "{}", "an empty message is the empty object"); }
}
#endif
template <class M, class T> static void pair(T p, T q) {
    M a, b; bool ha = sx_choose(2, "ha"), hb = sx_choose(2, "hb"), lst = sx_choose(2, "list"); if (ha) a.v = p; if (hb) b.v = q; if (lst) { a.r.push_back(p); b.r.push_back(q); }
    bool e = ha == hb && (!(ha | lst) || p == q); CHECK((a == b) == e, "equality holds exactly when all fields agree"); CHECK((a != b) == !e, "inequality is the negation of equality"); M c(a), d; d = b; if (p == p) CHECK(c == a, "a copy equals its source"); if (q == q) CHECK(d == b, "an assigned message equals its source");
    b = a; if (p == p) CHECK(b == a, "assignment over an earlier value gives an equal message"); c.clear(); CHECK(c.empty() && c == M() && c.v.empty() && c.r.empty(), "a cleared message is empty and equals a default-constructed one"); string js; CHECK(c.serialize(js) && js == "{}", "a cleared message is the empty object"); sx_reach("pair");
}
#ifdef X_KINDS
// messages of any shape: every subset of their fields
template <class M, class S> static void kind(int n, bool stays, uint32_t fixed, S set) { // fixed: fields whose value is always the same
    uint8_t x = sx_value<uint8_t>("x"), y = sx_value<uint8_t>("y"); sx_assume((x >= 'a') & (x <= 'z')); sx_assume((y >= 'a') & (y <= 'z')); uint32_t ma = sx_choose(1u << n, "a"), mb = sx_choose(1u << n, "b");
    auto make = [&](uint32_t m, uint8_t v) { M r; for (int k = 0; k < n; ++k) if (m >> k & 1) set(r, k, v); return r; }; M a = make(ma, x), b = make(mb, y), c = make(ma, x), d = make(mb, y); bool e = ma == mb && (!(ma & ~fixed) || sx_decide(x == y));
    CHECK((a == b) == e && (b == a) == e && a.equal(b) == e, "equality holds exactly when all fields agree"); CHECK((a != b) == !e && (b != a) == !e, "inequality is the negation of equality"); CHECK(a == c && a == a && !(a != a), "a message equals one of the same fields");
    CHECK(a.empty() == !ma && b.empty() == !mb, "empty() exactly when no field is set"); string p, q; CHECK(a.serialize(p) && b.serialize(q), "serialize"); if (e) CHECK(same(p, q), "equal messages serialise to the same text"); if (!ma) CHECK(p == "{}", "an empty message is the empty object");
    if (stays) { M r; CHECK(r.deserialize(p) && r == a, "a round trip gives an equal message"); } M f(a), g; g = b; CHECK(f == a && g == b, "a copy equals its source"); a.swap(b); CHECK(a == d && b == c && a.empty() == !mb, "swap exchanges the values"); b.swap(b); CHECK(b == c, "swapping with itself changes nothing"); { M h(std::move(b)); CHECK(h == c, "a moved message keeps its value"); b = h; }
    b = a; CHECK(b == d, "assignment over an earlier value gives an equal message"); b.clear(); CHECK(b.empty() && b == M() && a == d, "a cleared message is empty and equals a default-constructed one"); q.clear(); CHECK(b.serialize(q) && q == "{}", "a cleared message is the empty object"); sx_reach("kind"); }
#endif
extern "C" void sx_main() {
#ifdef X_KINDS
    switch (sx_choose(8, "kind")) {
        case 0: kind<t::Empty>(0, true, 0, [](t::Empty &, int, uint8_t) {}); break;
        case 1: kind<t::AllTr>(2, false, 0, [](t::AllTr &m, int k, uint8_t v) { if (k) m.b = string(1, (char)v); else m.a = v; }); break;
        case 2: kind<t::HasEmpty>(2, true, 1, [](t::HasEmpty &m, int k, uint8_t v) { if (k) m.x = v; else m.l.resize(2); }); break;
        case 3: kind<t::Tr>(5, false, 0, [](t::Tr &m, int k, uint8_t v) { switch (k) { case 0: m.keep = v; break; case 1: m.hid = string(1, (char)v); break; case 2: m.see = string(1, (char)v); break; case 3: m.hl.push_back(v); break; default: m.hm.b = string(1, (char)v); } }); break;
        case 4: kind<t::Opt>(4, true, 12, [](t::Opt &m, int k, uint8_t v) { switch (k) { case 0: m.i = v; break; case 1: m.s = string(1, (char)v); break; case 2: m.d = 0.0; break; default: m.b = false; } }); break;
        case 5: kind<t::Deep2>(4, true, 0, [](t::Deep2 &m, int k, uint8_t v) { switch (k) { case 0: m.d.in.a = v; break; case 1: m.d.n = v; break; case 2: m.d.in.b = string(1, (char)v); break; default: m.l.resize(2); m.l[1].in.b = string(1, (char)v); } }); break;
        case 6: kind<b::By>(2, true, 0, [](b::By &m, int k, uint8_t v) { if (k) m.after = v; else m.v.assign({0, v, 255}); }); break;
        default: kind<t::StrN>(3, true, 4, [](t::StrN &m, int k, uint8_t v) { switch (k) { case 0: m.m.s = string(1, (char)v); break; case 1: m.l.emplace_back(); m.l.back().s = string(1, (char)v); break; default: m.l.insert(m.l.begin(), t::Str()); } }); }
    return;
#endif
#ifdef X_HISTORY
    t::Mix a, b; M x, y; int f = (int)sx_choose(X_FIELDS, "f"); if (sx_choose(2, "common")) { set(a, x, (f + 1) % 7, 7, "q"); set(b, y, (f + 1) % 7, 7, "q"); }
    if (sx_choose(2, "a0")) set(a, x, f, sx_value<int8_t>("va"), sx_plain(1, "sa")); if (sx_choose(2, "b0")) set(b, y, f, sx_value<int8_t>("vb"), sx_plain(2, "sb")); both(a, b, x, y);
    for (int k = 0; k < X_STEPS; ++k) {
        switch (sx_choose(12, "op")) {
            case 0: a = b; x = y; break; case 1: { t::Mix &r = a; a = r; break; } case 2: a.swap(b); { M z = x; x = y; y = z; } break; case 3: a.clear(); x = M(); break;
            case 4: set(a, x, f, sx_value<int8_t>("v"), sx_plain(1, "s")); break; case 5: unset(a, x, f); break; case 6: { t::Mix c(a); CHECK(is(c, x) && c == a, "a copy equals its source"); c.clear(); set(c, y, f, 3, "w"); y = M(); set(b, y, f, 3, "w"); b.clear(); b = a; y = x; break; }
            case 7: { t::Mix c(std::move(a)); CHECK(is(c, x), "a moved message keeps its value"); a = c; break; } case 8: { string js; CHECK(a.serialize(js), "serialize"); b.clear(); CHECK(b.deserialize(js), "deserialize"); y = x; break; }
            case 9: { t::Mix c; c.swap(a); CHECK(is(c, x) && a.empty(), "swap exchanges the values"); b = c; y = x; x = M(); break; } case 10: b = a; y = x; break; default: b.clear(); y = M(); set(b, y, (f + 2) % 8, 1, "k"); }
        both(a, b, x, y);
    }
    sx_reach("history");
#elif defined(X_PAIRS)
    switch (sx_choose(13, "type")) {
        case 0: pair<t::m_int32>(sx_value<int32_t>("p"), sx_value<int32_t>("q")); break; case 1: pair<t::m_sint32>(sx_value<int32_t>("p"), sx_value<int32_t>("q")); break; case 2: pair<t::m_sfixed32>(sx_value<int32_t>("p"), sx_value<int32_t>("q")); break;
        case 3: pair<t::m_uint32>(sx_value<uint32_t>("p"), sx_value<uint32_t>("q")); break; case 4: pair<t::m_fixed32>(sx_value<uint32_t>("p"), sx_value<uint32_t>("q")); break;
        case 5: pair<t::m_int64>(sx_value<int64_t>("p"), sx_value<int64_t>("q")); break; case 6: pair<t::m_sint64>(sx_value<int64_t>("p"), sx_value<int64_t>("q")); break; case 7: pair<t::m_sfixed64>(sx_value<int64_t>("p"), sx_value<int64_t>("q")); break;
        case 8: pair<t::m_uint64>(sx_value<uint64_t>("p"), sx_value<uint64_t>("q")); break; case 9: pair<t::m_fixed64>(sx_value<uint64_t>("p"), sx_value<uint64_t>("q")); break;
        case 10: pair<t::m_bool>(sx_bool("p"), sx_bool("q")); break; case 11: pair<t::m_double>(sx_value<double>("p"), sx_value<double>("q")); break; default: pair<t::m_float>(sx_value<float>("p"), sx_value<float>("q"));
    }
#elif defined(X_TEXTS)
    // strings, string lists, bytes, nested messages with symbolic contents of up to 2 bytes
    string p = sx_string(sx_choose(3, "n"), "p"), q = sx_string(sx_choose(3, "m"), "q"); bool e = same(p, q);
    switch (sx_choose(6, "place")) {
        case 0: { t::Str a, b; a.s = p; b.s = q; CHECK((a == b) == e && (a != b) == !e, "strings"); t::Str c; CHECK(a != c && !(a == c), "a set string differs from an unset one"); b = c; CHECK(b == c, "assigning an unset string"); a.swap(b); CHECK(a == c && same(*b.s, p), "swap"); break; }
        case 1: { t::StrR a, b; a.r.push_back(p); b.r.push_back(q); CHECK((a == b) == e && (a != b) == !e, "string lists"); b.r.push_back(q); CHECK(a != b && !(a == b), "lists of different length"); break; }
        case 2: { t::StrN a, b; a.m.s = p; b.m.s = q; CHECK((a == b) == e && (a != b) == !e, "nested messages"); b = t::StrN(); CHECK(a != b && b.empty(), "assigning an empty nested message"); break; }
        case 3: { t::StrN a, b; t::Str x, y; x.s = p; y.s = q; a.l.push_back(x); b.l.push_back(y); CHECK((a == b) == e && (a != b) == !e, "message lists"); a.clear(); CHECK(a.empty() && a == t::StrN(), "clear"); break; }
        case 4: { b::By a, b; a.v.assign(p.begin(), p.end()); b.v.assign(q.begin(), q.end()); CHECK((a == b) == e && (a != b) == !e, "bytes"); a.swap(b); CHECK(same((const char *)a.v.data(), a.v.size(), q), "swap"); a.clear(); CHECK(a.empty() && a == b::By(), "clear"); break; }
        default: { t::Opt a, b; a.s = p; b.s = q; a.d = 0.5; b.d = 0.5; CHECK((a == b) == e && (a != b) == !e, "optional"); a.d.clear(); CHECK(a != b, "presence matters"); b.clear(); a = b; CHECK(a == t::Opt() && a.empty(), "assigning a cleared message"); }
    }
    sx_reach("texts");
#endif
}
