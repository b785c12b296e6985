// C09: member names written with escapes are recognised as the names they denote
#include "types.pg.hh"
#include "rt.hh"
#include "jsonref.hh"
static char hexdig(const char *n) { char c; sx_bytes(&c, 1, n); sx_assume(((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'F')) | ((c >= 'a') & (c <= 'f'))); return c; }
extern "C" void sx_main() {
    string n; uint32_t k = sx_choose(3, "form"); static const char *K[] = {"keep", "see", "hid"};
    if (k == 0) { n = "\\u00"; n += hexdig("h"); n += hexdig("h"); n += sx_choose(2, "rest") ? "eep" : "ee"; } else if (k == 1) { n = "se\\u"; n += hexdig("h"); n += hexdig("h"); n += "6"; n += hexdig("h"); } else { n = "\\u006"; n += hexdig("h"); n += "\\u00"; n += hexdig("h"); n += "5\\u006"; n += hexdig("h"); if (sx_choose(2, "long")) n += "p"; }
    string q = "\"" + n + "\"", name; jref::P p(q, false); sx_assume(p.str(name)); bool keep = same(name, "keep"), see = same(name, "see");
    string doc = "{\"" + n + "\":" + (see ? "\"x\"" : "5") + "}"; t::Tr m; CHECK(m.deserialize(doc), "a name with escapes is accepted"); CHECK(m.keep.empty() == !keep && m.see.empty() == !see, "the member named by the escapes is set"); if (keep) { CHECK((int32_t)m.keep == 5, "value"); sx_reach("keep"); } else if (see) sx_reach("see"); else { CHECK(m.empty(), "nothing is set"); sx_reach("other"); }
}
