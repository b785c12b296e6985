// C27: the fields of messages behave as a value with presence, whatever is done to them
#include <string.h>
#include <utility>
#include "types.pg.hh"
#include "rt.hh"
#ifdef X_NUMBERS
template <class T> struct Mod { bool set; T v; };
template <class M, class T> static void watch(const M &a, const Mod<T> &x, T probe) {
    CHECK(a.v.empty() == !x.set, "empty() tells whether the field is set"); CHECK((T)a.v == (x.set ? x.v : (T)0), "the field converts to its value, to zero when unset");
    CHECK((a.v == probe) == (x.set & (x.v == probe)), "a field equals a value exactly when it is set to it"); if (x.set) CHECK((a.v != probe) == !(x.v == probe), "inequality with a value is the negation, for a field that is set");
}
template <class M, class T> static void numbers() {
    M a, b; Mod<T> x{false, 0}, y{false, 0}; T p = sx_value<T>("p"), q = sx_value<T>("q"); sx_assume((p == p) & (q == q));
    if (sx_choose(2, "a0")) { a.v = p; x = {true, p}; } if (sx_choose(2, "b0")) { b.v = q; y = {true, q}; }
    for (int k = 0; k < X_STEPS; ++k) {
        switch (sx_choose(11, "op")) {
            case 0: a.v = b.v; x = y; break; case 1: a.v = q; x = {true, q}; break; case 2: a.v.clear(); x = {false, 0}; break; case 3: a.v.swap(b.v); std::swap(x, y); break;
            case 4: { T t = q; a.v.swap(t); CHECK(t == (x.set ? x.v : (T)0), "swapping with a value gives the field's value"); x = {true, q}; break; }
            case 5: { decltype(a.v) c(a.v); CHECK(c.empty() == !x.set && (T)c == (x.set ? x.v : (T)0), "a copy has value and presence"); c.clear(); c = p; break; }
            case 6: { decltype(a.v) c(std::move(b.v)); CHECK(c.empty() == !y.set && (T)c == (y.set ? y.v : (T)0), "a moved field has value and presence"); a.v = std::move(c); x = y; b.v.clear(); y = {false, 0}; break; }
            case 7: { decltype(a.v) &r = a.v; a.v = r; break; } case 8: { decltype(a.v) &r = a.v; a.v.swap(r); break; } case 9: a.v = (T)0; x = {true, 0}; break; default: b.v = a.v; y = x; }
        watch(a, x, p); watch(b, y, q); bool e = x.set == y.set && (!x.set || x.v == y.v);
        CHECK((a.v == b.v) == e && (b.v == a.v) == e, "two fields are equal exactly when presence and value agree"); CHECK((a.v != b.v) == !e, "inequality of fields is the negation"); CHECK((a == b) == e, "messages are equal when their fields are"); CHECK(a.empty() == !x.set, "a message is empty when no field is set");
    }
    sx_reach("number");
}
#endif
#ifdef X_TEXTS
struct Mod { bool set = false; string v; };
static void watch(t::Str &a, const Mod &x, const string &probe) {
    const t::Str &c = a; const string &r = c.s; string &w = a.s;
    CHECK(c.s.empty() == !x.set, "empty() tells whether the field is set"); CHECK(same(*c.s, x.v) && same(r, x.v) && same(w, x.v) && same(*a.s, x.v), "the field gives its text");
    bool e = same(x.v, probe); CHECK((c.s == probe) == (x.set & e), "a field equals a text exactly when it is set to it"); if (x.set) CHECK((c.s != probe) == !e, "inequality with a text is the negation, for a field that is set");
    if (probe.find('\0') == string::npos) { CHECK((c.s == probe.c_str()) == (x.set & e), "the same for C strings"); if (x.set) CHECK((c.s != probe.c_str()) == !e, "the same for C strings"); }
}
static void texts() {
    t::Str a, b; Mod x, y; string p = sx_string(sx_choose(X_LEN, "n"), "p"), q = sx_string(sx_choose(X_LEN, "m"), "q"); string z = p; z.resize(strlen(z.c_str()));
    if (sx_choose(2, "a0")) { a.s = p; x.set = true; x.v = p; } if (sx_choose(2, "b0")) { b.s = q; y.set = true; y.v = q; }
    for (int k = 0; k < X_STEPS; ++k) {
        switch (sx_choose(17, "op")) {
            case 0: a.s = b.s; x = y; break; case 1: a.s = q; x.set = true; x.v = q; break; case 2: a.s.clear(); x = Mod(); break; case 3: a.s.swap(b.s); std::swap(x, y); break;
            case 4: { string t = q; a.s.swap(t); CHECK(same(t, x.v), "swapping with a text gives the field's text"); x.set = true; x.v = q; break; }
            case 5: { decltype(a.s) c(a.s); CHECK(c.empty() == !x.set && same(*c, x.v), "a copy has value and presence"); c.clear(); c = p; break; }
            case 6: { decltype(a.s) c(std::move(b.s)); CHECK(c.empty() == !y.set && same(*c, y.v), "a moved field has value and presence"); a.s = std::move(c); x = y; b.s.clear(); y = Mod(); break; }
            case 7: { decltype(a.s) &r = a.s; a.s = r; break; } case 8: { decltype(a.s) &r = a.s; a.s.swap(r); break; } case 9: a.s = ""; x.set = true; x.v.clear(); break; case 10: b.s = a.s; y = x; break;
            case 11: a.s = z.c_str(); x.set = true; x.v = z; break; case 12: { decltype(a.s) c(q); a.s = c; x.set = true; x.v = q; break; } case 13: { decltype(a.s) c(z.c_str()); a.s = c; x.set = true; x.v = z; break; }
            case 14: a.s.empty(true); x = Mod(); break; case 15: a.s.empty(false); x.set = true; break;
            // a text written through the reference sets the field; whether an empty one does is left open
            default: { string &r = a.s; if (sx_choose(2, "how")) r = q; else { r.clear(); for (char c : q) (*a.s).push_back(c); } x.v = q; if (q.empty()) x.set = !a.s.empty(); else x.set = true; } }
        watch(a, x, p); watch(b, y, q); bool e = x.set == y.set && (!x.set || same(x.v, y.v));
        CHECK((a.s == b.s) == e && (b.s == a.s) == e, "two fields are equal exactly when presence and value agree"); CHECK((a.s != b.s) == !e, "inequality of fields is the negation"); CHECK((a == b) == e, "messages are equal when their fields are"); CHECK(a.empty() == !x.set, "a message is empty when no field is set");
    }
    string js, pt; CHECK(a.serialize(js), "serialize"); CHECK((js == "{}") == !x.set, "a field is written exactly when it is set"); t::Str c; CHECK(c.deserialize(js) && c == a, "the message read back is equal"); sx_reach("text");
}
#endif
extern "C" void sx_main() {
#ifdef X_NUMBERS
    switch (sx_choose(6, "type")) { case 0: numbers<t::m_int32, int32_t>(); break; case 1: numbers<t::m_uint32, uint32_t>(); break; case 2: numbers<t::m_int64, int64_t>(); break; case 3: numbers<t::m_uint64, uint64_t>(); break; case 4: numbers<t::m_double, double>(); break; default: numbers<t::m_float, float>(); }
#elif defined(X_BOOL)
    t::m_bool a, b; bool p = sx_bool("p"), q = sx_bool("q"), sa = sx_choose(2, "a0"), sb = sx_choose(2, "b0"); if (sa) a.v = p; if (sb) b.v = q;
    CHECK(a.v.empty() == !sa && b.v.empty() == !sb, "empty() tells whether the field is set"); CHECK((bool)a.v == (sa & p) && (bool)b.v == (sb & q), "the field converts to its value"); bool e = sa == sb && (!sa || p == q); CHECK((a.v == b.v) == e && (a.v != b.v) == !e && (a == b) == e, "two fields are equal exactly when presence and value agree");
    CHECK((a.v == q) == (sa & (p == q)), "a field equals a value exactly when it is set to it"); a.v.swap(b.v); CHECK(a.v.empty() == !sb && (bool)a.v == (sb & q) && b.v.empty() == !sa && (bool)b.v == (sa & p), "swap"); bool t = q; b.v.swap(t); CHECK(t == (sa & p) && !b.v.empty() && (bool)b.v == q, "swap with a value"); b.v.clear(); CHECK(b.v.empty() && !(bool)b.v && b == t::m_bool(), "clear"); sx_reach("bool");
#else
    texts();
#endif
}
