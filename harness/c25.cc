// C25: the generated header has each message as a class in its namespace, each field as a member of its type that is read and written
#include "gen.hh"
#include "protoref.hh"
#include "sizes.hh"
static const char *const TYPES[] = {"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes", "N"};
static const char *const LABELS[] = {"", "repeated ", "optional "};
static string ident(size_t n, const char *name) { string s = sx_string(n, name); for (size_t i = 0; i < n; ++i) { unsigned char c = (unsigned char)s[i]; sx_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | ((i > 0) & (c >= '0') & (c <= '9'))); } return s; }
static string dots(const string &q) { string r; for (char c : q) if (c == '.') r += "::"; else r += c; return r; }
static void open(const char *why) { sx_tag(why); sx_reach("not recognised"); sx_end(); }
static bool transient(const pref::Fld &f) { for (auto &o : f.options) if (o.name == "transient") return o.value == "true"; return false; }
// one run of the parser and the generator; nothing if either refuses
static bool run(const string &src, string &out) { Parsed r; run_parser(src, r); if (!r.ok) { sx_tag(r.what.c_str()); return false; } Gen g; generate(r, g); if (!g.ok) { sx_tag(g.what.c_str()); return false; } out = g.out; return true; }
// how the generator spells a type, from a file with nothing else in it (the spelling itself is checked where the header is compiled)
static string spelling(const string &label, const string &type, bool lists) { string o; CHECK(run(string(lists ? "option cpp_use_lists=true;" : "") + "message N{}message M{" + label + type + " x=1;}", o), "a valid file is accepted"); cpp::Header h(o); if (!h.ok) open(h.why); auto *d = h.data("", "M"); if (!d || d->members.size() != 1 || d->members[0].name != "x") open("no member"); return d->members[0].type; }
struct Body { size_t b, e; };
// does a function of json<message> touch a member?
static bool touches(const cpp::Header &h, const cpp::Spec &s, const char *fn, const string &member, bool &found) {
    bool hit = false; found = false;
    for (size_t i = s.begin + 1; i + 1 < s.end; ++i) { if (!h.is(i + 1, "(") || !h.is(i, fn)) { if (h.is(i, "{")) i = h.match(i); continue; } size_t c = h.match(i + 1); while (c < s.end && !h.is(c, "{") && !h.is(c, ";")) ++c; if (!h.is(c, "{")) continue; size_t e = h.match(c); found = true;
        for (size_t j = c; j + 1 < e; ++j) if (h.is(j, ".") && h.k[j + 1].k == 'i' && same(h.k[j + 1].v, member)) hit = true; i = e; }
    return hit; }
static void judge(const string &src, const std::vector<string> &types) { // types: of the fields of the message M, in order
    Parsed r; pref::R f(src); bool ok = f.file(); if (f.open) { sx_reach("open"); sx_end(); } sx_assume(ok);
    string o; CHECK(run(src, o), "a valid file is accepted"); cpp::Header h(o); if (!h.ok) open(h.why);
    for (auto &m : f.msgs) {
        int n, nd; auto *e = h.entity(m.package, m.name, &n); auto *d = h.data(m.package, m.name, &nd); CHECK(e && d && n == 1 && nd == 1, "each message is a class in the namespace of its package"); CHECK(d->members.size() == m.fields.size(), "one member per field");
        const cpp::Spec *js = nullptr; string want = dots((m.package.empty() ? "" : m.package + ".") + d->name); for (auto &s : h.specs) if (same(s.arg, want)) js = &s; if (!js && !m.fields.empty()) open("no json<>");
        for (size_t i = 0; i < m.fields.size(); ++i) { auto &x = m.fields[i]; const cpp::Member *q = nullptr; for (auto &y : d->members) if (same(y.name, x.name)) q = &y; CHECK(q, "a member with the name of the field"); if (m.name == "M" && i < types.size()) { if (!same(q->type, types[i])) sx_tag(q->type.c_str()); CHECK(same(q->type, types[i]), "the member has the type of the field"); }
#ifndef X_MEMBERS
            bool fr, fw, tr = transient(x); bool rd = touches(h, *js, "read_field", x.name, fr), wr = touches(h, *js, "write", x.name, fw); if (!fr || !fw) open("no read_field or write"); CHECK(rd == !tr, "a member is read unless it is transient"); CHECK(wr == !tr, "a member is written unless it is transient");
#else // C07
            static const char *const ALL[] = {"empty", "clear", "equal", "swap"}; for (auto fn : ALL) { bool ff; bool t = touches(h, *js, fn, x.name, ff); if (ff) CHECK(t, "every member takes part in empty, clear, equal and swap"); }
#endif
        } }
    sx_reach("generated");
}
extern "C" void sx_main() {
    string s; std::vector<string> types;
#ifdef X_TYPES
    uint32_t t = sx_choose(16, "type"), l = sx_choose(3, "label"), tr = sx_choose(3, "transient"); bool lists = sx_choose(2, "lists"); string ty = spelling(LABELS[l], TYPES[t], lists), other = spelling("", "bool", false), a = ident(1 + sx_choose(X_TYPES, "len"), "a"), b = ident(1, "b");
    static const char *const TR[] = {"", "[transient=true]", "[transient=false]"}; s = string(lists ? "option cpp_use_lists=true;" : sx_choose(2, "explicit") ? "option cpp_use_lists=false;" : "") + "message M{bool " + b + "=9;" + LABELS[l] + TYPES[t] + " " + a + "=7" + TR[tr] + ";}message N{}"; judge(s, {other, ty});
#elif defined(X_MIX)
    // up to X_MIX fields, each plain or transient, in any package; other options around
    uint32_t n = sx_choose(X_MIX + 1, "fields"); static const char *const PK[] = {"", "package p;", "package p.q_2.r;"}; s = PK[sx_choose(3, "package")]; if (sx_choose(2, "obfuscate")) s += "option obfuscate_strings=true;"; if (sx_choose(2, "numbers")) s += "option number_names=true;"; s += "message M{";
    for (uint32_t i = 0; i < n; ++i) { static const char *const F[] = {"int32", "string", "repeated N"}; static const char *const TR[] = {"", "[transient=true]", "[name=\"q\",transient=true]", "[transient=false,name=\"x y\"]"}; uint32_t k = i == 1 ? sx_choose(3, "kind") : i % 3; s += string(F[k]) + " f" + std::to_string(i) + "=" + std::to_string(n - i) + (i == 0 ? TR[sx_choose(4, "transient")] : sx_choose(2, "tr") ? TR[1] : "") + ";"; } s += "}message N{}message E{bool x=1[transient=true];}"; judge(s, types);
#elif defined(X_BIG)
    // names, packages and numbers of messages of every size; one letter of a long name is symbolic
    size_t n = size_up_to(X_BIG); auto longer = [&](bool any) { string t(n, 'k'); for (size_t i = 0; i < n; ++i) t[i] = (char)('a' + i % 23); if (any) { string x = ident(1, "x"); size_t at[] = {0, n / 2, n - 1}; t[at[sx_choose(3, "at")]] = x[0]; } return t; }; string N = "N", M = "M";
    switch (sx_choose(6, "what")) {
    case 0: s = "package " + longer(true) + ";message M{N a=1;repeated N b=2;}message N{bool x=1;}"; break;
    case 1: s = "package "; for (size_t i = 0; i < n / 2; ++i) s += string(i ? "." : "") + (char)('a' + i % 26) + std::to_string(i % 7); s += ";message M{N a=1;repeated N b=2;}message N{bool x=1;}"; break;
    case 2: N = longer(true); s = "package p.q;message M{" + N + " a=1;repeated " + N + " b=2;}message " + N + "{bool x=1;}"; break;
    case 3: { string f = longer(true); s = "package p;message N{}message M{N " + f + "=1;string f1=2[transient=true];repeated bool b" + f + "=3;}"; break; }
    case 4: { size_t k = n < 257 ? n : 257; s = "package p;"; for (size_t i = 0; i < k; ++i) s += "message F" + std::to_string(i) + "{bool x=1;" + (i ? "F" + std::to_string(i / 2) + " y=2;" : "") + "}"; s += "message N{}message M{N a=1;F" + std::to_string(k - 1) + " b=2;}"; break; }
    default: s = "message First{bool x=1;}package p;message Q{}"; { size_t k = n < 65 ? n : 65; for (size_t i = 0; i < k; ++i) s += "package p" + std::to_string(i) + ";message M{bool x=1;}"; } break; }
    Parsed r; pref::R f(s); bool ok = f.file(); if (f.open) { sx_reach("open"); sx_end(); } sx_assume(ok); judge(s, types);
    if (N.size() > 1) { string o; run(s, o); cpp::Header h(o); auto *d = h.data("p.q", "M"); for (auto &y : d->members) { sx_tag(y.type.c_str()); CHECK(y.type.find(N) != string::npos, "the member has the type of the field"); } }
#elif defined(X_LIMIT)
    // two of many definitions have the same name
    if (uint32_t w = sx_choose(3, "duplicates")) { uint32_t k = 3 + sx_choose(X_LIMIT - 2, "count"), i = 0, j = 1; switch (sx_choose(4, "pair")) { case 0: j = k - 1; break; case 1: i = k - 2; j = k - 1; break; case 2: i = k / 2; j = i + 1; break; default: break; } bool dup = sx_choose(2, "dup"); if (!dup && (i || j != 1 || k % 8)) sx_end(); s = "package p.q;message A{bool x=1;}"; if (w == 1) s += "message M{";
        for (uint32_t x = 0; x < k; ++x) { string nm = "f" + std::to_string(dup && x == j ? i : x); s += w == 1 ? string(x % 3 == 1 ? "repeated A " : "int32 ") + nm + "=" + std::to_string(x + 1) + (x % 5 == 2 ? "[transient=true];" : ";") : "message " + nm + "{bool x=1;}"; } if (w == 1) s += "}"; string o; bool r = run(s, o); if (dup) { CHECK(!r, "a name that is already taken is rejected"); sx_reach("taken"); } else CHECK(r, "different names are accepted"); return; }
    uint32_t n = X_LIMIT + sx_choose(6, "fields") - 2, tr = sx_choose(3, "transient"); s = "message A{bool x=1;}message M{"; for (uint32_t i = 0; i < n; ++i) s += "int32 f" + std::to_string(i) + "=" + std::to_string(i + 1) + (tr && i % 8 < tr ? "[transient=true]" : "") + ";"; s += "}"; 
    if (n <= (uint32_t)protogen::CppGenerator::MAX_FIELDS) { judge(s, types); sx_reach("within"); } else { string o; CHECK(!run(s, o), "a message with too many fields is rejected"); sx_reach("beyond"); }
#else
    // two definitions of the same name
    string a = ident(1 + sx_choose(2, "len"), "a"), b = ident(a.size() == 2 ? 2 : 1 + sx_choose(2, "len2"), "b"); bool bad = same(a, b); if (pref::word(a) || pref::word(b)) sx_end();
    switch (sx_choose(6, "where")) { case 0: s = "message M{bool " + a + "=1;repeated string " + b + "=2;}"; break; case 1: s = "message M{bool " + a + "=1;bytes zzz=5;bool " + b + "=2[transient=true];}"; break; case 2: s = "message " + a + "{}message " + b + "{bool x=1;}"; break; case 3: s = "package p.q;message " + a + "{}message zzz{" + a + " x=1;}package p.q;message " + b + "{}"; break; case 4: s = "package p;message " + a + "{}package q;message " + b + "{}"; bad = false; break; default: s = "message A{bool " + a + "=1;}message B{bool " + b + "=2;}"; bad = false; }
    string o; if (sx_decide(bad)) { CHECK(!run(s, o), "a name that is already taken is rejected"); sx_reach("taken"); } else { pref::R f(s); sx_assume(f.file()); if (f.open) sx_end(); CHECK(run(s, o), "different names are accepted"); sx_reach("free"); }
#endif
}
