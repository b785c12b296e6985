// C15, compiled: the names in JSON with every combination of number_names and obfuscate_strings
#if X_TOP == 0
#include "names.pg.hh"
#elif X_TOP == 1
#include "nameso.pg.hh"
#elif X_TOP == 2
#include "namesn.pg.hh"
#else
#include "nameson.pg.hh"
#endif
#include "rt.hh"
#include "jsonref.hh"
#include "names.hh"
typedef n::M M;
struct F { const char *name; PG::field<int32_t> M::*m; };
#define N1(A, B, C) B,
#define N2(A, B, C) #C,
#if X_TOP < 2
static const char *const NAME[] = { NAMES(N1) };
#else
static const char *const NAME[] = { NAMES(N2) };
#endif
static const uint32_t COUNT = sizeof NAME / sizeof *NAME;
static PG::field<int32_t> &member(M &m, uint32_t i) { uint32_t k = 0;
#define G(A, B, C) if (k++ == i) return m.A;
    NAMES(G)
    return m.tr; }
extern "C" void sx_main() {
    uint32_t i = sx_choose(COUNT, "field"); M m, z; string j, name = NAME[i];
#ifdef X_WRITE
    uint8_t x = sx_value<uint8_t>("x"); sx_assume(x <= 9); member(m, i) = x; uint32_t o = sx_choose(COUNT, "other"); if (o != i) member(m, o) = 7; m.tr = 3; PG::Parameters p; p.ensure_ascii = sx_choose(2, "ascii"); CHECK(m.serialize(j, &p), "serialize");
    jref::P r(j, true); r.ws(); CHECK(r.object(0) && r.ok && r.i == j.size(), "the document is JSON text"); CHECK(r.names.size() == (o == i ? 1u : 2u), "members"); bool found = false, other = o == i; for (size_t k = 0; k < r.names.size(); ++k) { if (r.names[k] == name) { found = true; CHECK(r.vals[k].size() == 1 && r.vals[k][0] == (char)('0' + x), "the value of the member"); } else if (r.names[k] == NAME[o]) other = true; } CHECK(found && other, "each member is written under its JSON name");
#ifdef X_ASCII
    if (p.ensure_ascii) for (char c : j) CHECK((unsigned char)c < 0x80, "ensure_ascii: ASCII characters only");
#endif
    CHECK(z.deserialize(j), "what was written can be read"); m.tr.clear(); CHECK(z == m, "what was written is read"); sx_reach("written");
#else
    // a name with one byte changed: another member, or none
    string t = name; uint32_t at = sx_choose((uint32_t)t.size() + 1, "at"); char c = (char)sx_value<uint8_t>("c"); sx_assume(((unsigned char)c >= 0x20) & (c != '"') & (c != '\\')); if (at < t.size()) t[at] = c; else t += c; if (sx_choose(2, "exact")) t = name;
    CHECK(z.deserialize("{\"" + t + "\":5}"), "deserialize"); bool hit = false; for (uint32_t k = 0; k < COUNT; ++k) { bool is = same(t, NAME[k]); hit |= is; if (sx_decide(is)) CHECK(!member(z, k).empty() && member(z, k) == 5, "the member with that name is set"); else CHECK(member(z, k).empty(), "no other member is set"); } CHECK(z.tr.empty(), "transient"); sx_reach(hit ? "known" : "unknown");
#endif
}
