// C05: a successful serialisation is one well-formed JSON object with exactly the serialisable fields
#include "types.pg.hh"
#include "rt.hh"
#include "jsonref.hh"
// is the text well-formed UTF-8? (Unicode, table 3-7)
static bool utf8(const string &s) { string q = "\""; for (char c : s) { unsigned char u = (unsigned char)c; if (u >= 0x80) q += c; else q += 'a'; } q += '"'; jref::P p(q, true); string o; return p.str(o) && p.i == q.size(); }
static size_t count(const jref::Doc &d, std::initializer_list<const char *> names) { size_t n = 0; for (auto x : names) n += d.has(x); return n; }
extern "C" void sx_main() {
    PG::Parameters ps;
#ifdef X_STRUCT
    // any subset of fields set, symbolic contents, nulls on or off
    t::Mix m; ps.serialize_null = sx_choose(2, "nulls"); ps.ensure_ascii = sx_choose(2, "ascii"); size_t n = 0; uint32_t set = sx_choose(128, "set");
    if (set & 1) { m.i = (int32_t)sx_value<int8_t>("i"); ++n; } if (set & 2) { m.s = sx_plain(2, "s"); ++n; } if (set & 4) { m.b = sx_bool("b"); ++n; }
    if (set & 8) { m.ri.push_back(5); m.ri.push_back(-6); ++n; } if (set & 16) { m.rs.push_back(sx_plain(1, "rs")); m.rs.push_back(string()); m.rs.push_back(string("\x01\x1f\"\\\n")); ++n; }
    if (set & 32) { m.m.a = 3; m.m.b = string("q"); ++n; } if (set & 64) { t::Inner x; m.rm.push_back(x); x.b = string(); m.rm.push_back(x); ++n; }
    string js; CHECK(m.serialize(js, &ps), "serialize succeeds"); jref::Doc d(js); CHECK(d.ok, "well-formed JSON object"); if (ps.ensure_ascii) CHECK(d.ascii, "ASCII only");
    if (ps.serialize_null) CHECK(d.members == 7 && count(d, {"i", "s", "b", "ri", "rs", "m", "rm"}) == 7, "exactly all members");
    else CHECK(d.members == n && d.has("i") == !!(set & 1) && d.has("s") == !!(set & 2) && d.has("b") == !!(set & 4) && d.has("ri") == !!(set & 8) && d.has("rs") == !!(set & 16) && d.has("m") == !!(set & 32) && d.has("rm") == !!(set & 64), "exactly the fields that are set");
    sx_reach("struct");
#elif defined(X_SHAPES)
    // transient, empty and nested messages
    ps.serialize_null = sx_choose(2, "nulls"); string js; bool r; size_t want = 0; jref::Doc *d = nullptr;
    switch (sx_choose(4, "type")) {
        case 0: { t::Tr m; m.keep = 1; m.hid = string("x"); m.see = string("y"); m.hl.push_back(2); m.hm.a = 5; r = m.serialize(js, &ps); want = 2; d = new jref::Doc(js); CHECK(d->has("keep") && d->has("see"), "members"); break; }
        case 1: { t::AllTr m; m.a = 1; m.b = string("z"); r = m.serialize(js, &ps); d = new jref::Doc(js); break; }
        case 2: { t::HasEmpty m; uint32_t n = sx_choose(3, "n"); for (uint32_t i = 0; i < n; ++i) m.l.push_back(t::Empty()); bool x = sx_choose(2, "x"); if (x) m.x = 0; r = m.serialize(js, &ps); d = new jref::Doc(js); want = ps.serialize_null ? 3 : (n ? 1 : 0) + (x ? 1 : 0); if (ps.serialize_null) CHECK(d->has("e"), "members"); break; }
        default: { t::Deep2 m; uint32_t n = sx_choose(3, "n"); for (uint32_t i = 0; i < n; ++i) { t::Deep1 e; if (sx_choose(2, "in")) e.in.b = string("v"); m.l.push_back(e); } bool x = sx_choose(2, "x"); if (x) m.d.in.a = 0; r = m.serialize(js, &ps); d = new jref::Doc(js); want = ps.serialize_null ? 2 : (n ? 1 : 0) + (x ? 1 : 0); break; }
    }
    CHECK(r, "serialize succeeds"); CHECK(d->ok, "well-formed JSON object"); CHECK(d->members == want, "exactly the serialisable fields"); delete d; sx_reach("shapes");
#elif defined(X_NONFINITE)
    string js; bool r; bool f32 = sx_choose(2, "f32"), rep = sx_choose(2, "rep");
    if (f32) { uint32_t u = sx_value<uint32_t>("u"); sx_assume((u >> 23 & 255) == 255); float v; memcpy(&v, &u, 4); t::m_float m; if (rep) m.r.push_back(v); else m.v = v; r = m.serialize(js, &ps); }
    else { uint64_t u = sx_value<uint64_t>("u"); sx_assume((u >> 52 & 2047) == 2047); double v; memcpy(&v, &u, 8); t::m_double m; if (rep) m.r.push_back(v); else m.v = v; r = m.serialize(js, &ps); }
    if (r) { jref::Doc d(js); CHECK(d.ok, "well-formed JSON object"); } else CHECK(ps.error.code != PG::PGERR_OK, "error reported"); sx_reach("nonfinite");
#else
    // text of X_N unconstrained bytes somewhere in a message
    ps.ensure_ascii = X_ASCII; string v = sx_string(sx_choose(X_N, "n") + 1, "v"), js; bool r; const char *name;
    switch (sx_choose(X_PLACES, "place")) {
        case 0: { t::Str m; m.s = v; r = m.serialize(js, &ps); name = "s"; break; }
        case 1: { t::StrR m; m.r.push_back(v); m.r.push_back(string("x")); r = m.serialize(js, &ps); name = "r"; break; }
        case 2: { t::StrN m; m.m.s = v; r = m.serialize(js, &ps); name = "m"; break; }
        default: { t::StrN m; t::Str e; e.s = v; m.l.push_back(e); r = m.serialize(js, &ps); name = "l"; break; }
    }
    bool ok = !X_ASCII || utf8(v); CHECK(r == ok, ok ? "text that can be represented is written" : "text that is not UTF-8 is refused");
    if (!r) { CHECK(ps.error.code != PG::PGERR_OK && !ps.error.message.empty(), "error reported"); sx_reach("refused"); return; }
    jref::Doc d(js); CHECK(d.ok && d.members == 1 && d.has(name), "well-formed JSON object with one member"); if (X_ASCII) CHECK(d.ascii, "ASCII only"); sx_reach("written");
#endif
}
