// C08: unknown and transient members are skipped, whatever they hold and wherever they are
#include "types.pg.hh"
#include "rt.hh"
#include "jsongen.hh"
// a member text that is not a member of the message
#ifdef X_NAMES
static string unknown(std::initializer_list<const char *> known) {
#ifdef X_ESCAPED
    // a known name with one character, written as an escape sequence, before, after or in it
    static const char *const PRE[] = {"", "a", "b", "ab"}, *const POST[] = {"", "a", "b"}; string pre = PRE[sx_choose(4, "pre")], post = POST[sx_choose(3, "post")], h = sx_string(4, "hex"); unsigned c = 0; for (char x : h) { sx_assume(((x >= '0') & (x <= '9')) | ((x >= 'a') & (x <= 'f'))); c = c * 16 + (unsigned)(x >= 'a' ? x - 'a' + 10 : x - '0'); } sx_assume(c < 0xD800); for (auto k : known) if (pre.size() + 1 + post.size() == strlen(k) && pre == string(k).substr(0, pre.size()) && post == string(k).substr(pre.size() + 1)) sx_assume(c != (unsigned char)k[pre.size()]);
    string n = pre + "\\u" + h + post;
#else
    string n = sx_raw(sx_choose(X_NAMES + 1, "len"), "unknown"); for (auto k : known) sx_assume(!same(n, string(k)));
#endif
    static const char *V[] = {"1", "\"x\"", "null", "[{\"a\":1}]", "{\"b\":[]}"}; return "\"" + n + "\":" + V[sx_choose(5, "value")];
}
#else
static string unknown(std::initializer_list<const char *>) { static const char *N[] = {"A", "aa", "", "ab", "\\u0061b"}; return string("\"") + N[sx_choose(X_FEW, "name")] + "\":" + gen_value(X_DEPTH); }
#endif
static string put(const string &a, const string &b, const string &u, uint32_t pos) { // {a,b} with u inserted
    switch (pos) { case 0: return "{" + u + "," + a + "," + b + "}"; case 1: return "{" + a + "," + u + "," + b + "}"; case 2: return "{" + a + "," + b + "," + u + "}"; default: return "{" + a + "," + u + "," + b + "," + u + "}"; }
}
extern "C" void sx_main() {
    string v = sx_plain(1, "v"), a = "\"a\":7", b = "\"b\":\"" + v + "\"", u; bool ok;
    switch (sx_choose(X_PLACES, "place")) {
        case 0: { t::Inner m; u = unknown({"a", "b"}); ok = m.deserialize(put(a, b, u, sx_choose(4, "pos"))); CHECK(ok, "unknown member skipped"); CHECK((int32_t)m.a == 7 && same(*m.b, v), "the other fields are read"); break; }
        case 1: { t::Inner m, n; u = unknown({"a", "b"}); bool f = sx_choose(2, "first"); ok = m.deserialize(f ? "{" + u + "," + b + "}" : "{" + u + "}"); CHECK(ok, "unknown member skipped"); if (f) n.b = v; CHECK(m == n, "exactly the document without the member"); break; }
        case 2: { t::Mix m; u = unknown({"a", "b"}); ok = m.deserialize("{\"i\":1,\"m\":" + put(b, a, u, sx_choose(4, "pos")) + ",\"s\":\"z\"}"); CHECK(ok, "unknown member of a nested message skipped"); CHECK((int32_t)m.i == 1 && m.s == "z" && (int32_t)m.m.a == 7 && same(*m.m.b, v), "the other fields are read"); break; }
        case 3: { t::Mix m; u = unknown({"a", "b"}); ok = m.deserialize("{\"rm\":[" + put(a, b, u, sx_choose(3, "pos")) + ",{" + u + "}],\"i\":3}"); CHECK(ok, "unknown member of a list element skipped"); CHECK(m.rm.size() == 2 && (int32_t)m.rm[0].a == 7 && same(*m.rm[0].b, v) && m.rm[1].empty() && (int32_t)m.i == 3, "the other fields are read"); break; }
        case 4: { t::Empty m; t::AllTr n; u = "{" + unknown({}) + "}"; if (sx_choose(2, "type")) CHECK(m.deserialize(u), "unknown member of a message without fields skipped"); else { CHECK(n.deserialize(u), "unknown member of a message without serialisable fields skipped"); CHECK(n.a.empty() && n.b.empty(), "nothing set"); } break; }
        default: { static const char *T[] = {"hid", "hl", "hm"}; t::Tr m; m.hid = string("keepme"); m.hl.push_back(9); string x = string("\"") + T[sx_choose(3, "transient")] + "\":" +
#ifdef X_NAMES
            string(sx_choose(2, "value") ? "\"z\"" : "[1]");
#else
            gen_value(X_DEPTH);
#endif
            ok = m.deserialize(put("\"keep\":4", "\"see\":\"" + v + "\"", x, sx_choose(4, "pos"))); CHECK(ok, "transient member skipped"); CHECK((int32_t)m.keep == 4 && same(*m.see, v), "the other fields are read"); CHECK(m.hid == "keepme" && m.hl.size() == 1 && m.hm.empty(), "transient fields untouched"); }
    }
    sx_reach("skipped");
}
