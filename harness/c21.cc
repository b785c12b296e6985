// C21: references resolve wherever the message is declared; definition before use; cycles are rejected
#include "gen.hh"
#include "protoref.hh"
#include "sizes.hh"
static string letter(const char *name) { string s = sx_string(1, name); unsigned char c = (unsigned char)s[0]; sx_assume((c >= 'a') & (c <= 'z')); return s; }
static bool cyclic(const pref::R &f) { // does a chain of references come back to where it started?
    size_t n = f.msgs.size(); std::vector<std::vector<char>> e(n, std::vector<char>(n, 0));
    for (size_t i = 0; i < n; ++i) for (auto &x : f.msgs[i].fields) if (x.type == protogen::TYPE_MESSAGE) e[i][(size_t)(f.find(x.ref) - &f.msgs[0])] = 1;
    for (size_t k = 0; k < n; ++k) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (e[i][k] && e[k][j]) e[i][j] = 1;
    for (size_t i = 0; i < n; ++i) if (e[i][i]) return true; return false;
}
static string dots(const string &q) { string r; for (char c : q) if (c == '.') r += "::"; else r += c; return r; }
// does the type mention the name?
static bool names(const string &type, const string &name) { auto id = [](char c) { return pref::letter(c) || pref::digit(c) || c == ':'; }; for (size_t i = 0; i < type.size();) { size_t b = i; while (i < type.size() && id(type[i])) ++i; if (i - b == name.size() && same(type.substr(b, i - b), name)) return true; if (i == b) ++i; } return false; }
static void judge(const string &src) {
    Parsed r; pref::R f(src); bool ok = f.file(); if (f.open) { sx_reach("open"); sx_end(); } run_parser(src, r);
    if (!ok) { CHECK(!r.ok, "an undeclared message name is an error"); sx_reach("undeclared"); return; }
    if (!r.ok) sx_tag(r.what.c_str()); CHECK(r.ok, "declared message names resolve"); const char *d = pref::diff(f, r.p); if (d) { sx_tag(d); CHECK(false, "each reference resolves to its message"); }
    bool cyc = cyclic(f); Gen g; generate(r, g);
    if (cyc) { CHECK(!g.ok, "messages that contain each other are rejected"); sx_reach("cycle"); return; }
    if (!g.ok) sx_tag(g.what.c_str()); CHECK(g.ok, "messages without cycles are accepted");
    cpp::Header h(g.out); if (!h.ok) { sx_tag(h.why); sx_reach("not recognised"); return; }
    for (auto &m : f.msgs) {
        int n, nd; auto *e = h.entity(m.package, m.name, &n); auto *s = h.data(m.package, m.name, &nd); if (!e || !s) { CHECK(h.defs.size() < 2 * f.msgs.size(), "each message is defined"); sx_reach("not recognised"); return; }
        CHECK(n == 1 && nd == 1, "each message is defined once"); CHECK(s->members.size() == m.fields.size(), "the members of a message");
        for (auto &x : m.fields) { const cpp::Member *q = nullptr; for (auto &y : s->members) if (y.name == x.name) q = &y; CHECK(q, "each field has a member"); if (x.type != protogen::TYPE_MESSAGE) continue;
            const pref::Msg *t = f.find(x.ref); string ty = dots((t->package.empty() ? "" : t->package + ".") + t->name); CHECK(names(q->type, ty), "the member has the type of the referenced message");
            CHECK(h.entity(t->package, t->name)->at < s->at, "a message is defined after the messages it contains"); } }
    sx_reach("generated");
}
extern "C" void sx_main() {
    string s; static const char *const LAB[] = {"", "repeated ", "optional "};
#ifdef X_GRAPH
    // every graph of X_GRAPH messages, every edge singular or repeated alike
    static const char N[] = "ABCDE"; uint32_t lab = sx_choose(X_LABELS, "label"); 
    for (int i = 0; i < X_GRAPH; ++i) { s += string("message ") + N[i] + "{int32 z=99;"; for (int j = 0; j < X_GRAPH; ++j) if ((X_SELF || i != j) && sx_choose(2, "edge")) s += string(LAB[lab]) + N[j] + " f" + N[j] + "=" + std::to_string(j + 1) + ";"; s += "}"; } judge(s);
#elif defined(X_CHAIN)
    // one reference per message, to any letter: chains, trees, rings and undeclared names in every order
    static const char N[] = "pahzcq"; for (int i = 0; i < X_CHAIN; ++i) { s += string("message ") + N[i] + "{"; if (sx_choose(2, "has")) s += string(LAB[(i + 1) % 3]) + letter("ref") + " f=1;"; s += "}"; } judge(s);
#elif defined(X_BIG)
    // many messages: a chain, a star or unrelated ones, one of them referring to any other
    const size_t n = size_up_to(X_BIG); uint32_t from = sx_choose(3, "from"), how = sx_choose(3, "shape"), ord = sx_choose(2, "order"); string to = sx_string(2, "to"); for (char c : to) sx_assume((c >= '0') & (c <= '9')); sx_assume(to[0] == '0' || to[0] == '1'); auto nm = [](size_t v) { string s = "m000"; for (int i = 3; i > 0; --i, v /= 10) s[(size_t)i] = (char)('0' + v % 10); return s; };
    for (size_t j = 0; j < n; ++j) { size_t i = ord ? n - 1 - j : j; s += "message " + nm(i) + "{"; if (how == 0 && i + 1 < n) s += nm(i + 1) + " next=1;"; if (how == 1 && i == n - 1) for (size_t q = 0; q < 60 && q + 1 < n; ++q) s += "repeated " + nm(q * (n - 1) / 60) + " f" + std::to_string(q) + "=" + std::to_string(q + 1) + ";"; if (i == (from == 0 ? 0 : from == 1 ? n / 2 : n - 1)) s += "m0" + to + " other=100;"; s += "}"; } judge(s);
#elif defined(X_NAMES)
    // symbolic message names
    string a = letter("a"), b = letter("b"), x = letter("x"), y = letter("y"); sx_assume(a[0] != b[0]); uint32_t has = sx_choose(4, "has"); s = "message " + a + "{"; if (has & 1) s += LAB[sx_choose(3, "label")] + x + " u=1;"; s += "}message " + b + "{"; if (has & 2) s += LAB[sx_choose(3, "label")] + y + " u=1;"; s += "bool w=2;}"; judge(s);
#elif defined(X_LONG)
    // a long chain, declared forwards, backwards or interleaved; one more reference from any of its messages to any two-digit name
    const int n = X_LONG; uint32_t from = sx_choose(n, "from"), how = sx_choose(3, "order"); string to = sx_string(2, "to"); for (char c : to) sx_assume((c >= '0') & (c <= '9'));
    for (int j = 0; j < n; ++j) { int i = how == 0 ? j : how == 1 ? n - 1 - j : (j * 7) % n; auto nm = [](int v) { return string("m") + char('0' + v / 10) + char('0' + v % 10); }; s += "message " + nm(i) + "{"; if (i + 1 < n) s += nm(i + 1) + " next=1;"; if (i == (int)from) s += "repeated m" + to + " other=2;"; s += "}"; } judge(s);
#else
    // packages: names resolve in the package of the message
    static const char *const P[] = {"", "p", "p.q", "q"}; uint32_t a = sx_choose(4, "a"), b = sx_choose(4, "b"), c = sx_choose(4, "c"); auto pk = [](uint32_t i) { return i ? string("package ") + P[i] + ";" : string(); };
    static const char *const REF[] = {"A", "B", "q.B", "p.B", "p.q.B"};
    if (sx_choose(2, "same")) s = pk(a) + "message A{" + REF[sx_choose(5, "ref")] + " x=1;}" + pk(b) + "message B{}" + pk(c) + "message C{repeated " + REF[sx_choose(5, "ref")] + " x=1;}"; else { sx_assume(b && c); s = pk(a) + "message B{int32 i=1;}" + pk(b) + "message A{" + REF[sx_choose(5, "ref")] + " x=1;}message B{}" + pk(c) + "message D{repeated " + REF[sx_choose(5, "ref")] + " x=1;}message B{bool b=2;}"; }
    judge(s);
#endif
}
