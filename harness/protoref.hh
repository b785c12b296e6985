// A reference reader of the supported proto3 subset, independent of the code under test.
#pragma once
#include <protogen/proto3.hh>
#include "sx.h"
#include <string>
#include <vector>
namespace pref {
using std::string;
enum { END, ID, QID, INT, STR, PUN, BAD };
struct Tok { int k; string v; size_t at; char c; };
struct Opt { string name, value; protogen::OptionType type; };
struct Fld { string name, ref; int type; bool rep, opt; unsigned num; std::vector<Opt> options; };
struct Msg { string name, package; std::vector<Fld> fields; std::vector<Opt> options; };
static inline bool letter(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static inline bool digit(int c) { return c >= '0' && c <= '9'; }
static const struct { const char *w; int type; } WORDS[] = {{"double", 6}, {"float", 7}, {"int32", 8}, {"int64", 9}, {"uint32", 10}, {"uint64", 11}, {"sint32", 12}, {"sint64", 13}, {"fixed32", 14}, {"fixed64", 15}, {"sfixed32", 16}, {"sfixed64", 17}, {"bool", 18}, {"string", 19}, {"bytes", 20},
    {"message", 0}, {"repeated", 0}, {"enum", 0}, {"package", 0}, {"syntax", 0}, {"map", 0}, {"option", 0}, {"true", 0}, {"false", 0}, {"optional", 0}};
static inline int word(const string &s) { for (auto &w : WORDS) if (s == w.w) return 1; return 0; }
static inline int scalar(const string &s) { for (auto &w : WORDS) if (w.type && s == w.w) return w.type; return 0; }
// Reading stops at the first token that does not fit. 'open': the input uses something that the properties do not settle.
struct R {
    const string &t; size_t i = 0, bad = (size_t)-1; bool open = false; Tok k; std::vector<Msg> msgs; std::vector<Opt> options; string package;
    bool noref = false; // the error is a reference or a name, not a token
    R(const string &s) : t(s) { next(); }
    int ch(size_t j) { return j < t.size() ? (unsigned char)t[j] : -1; }
    void next() {
        for (;;) { int c = ch(i);
            if (c == ' ' || c == '\t' || c == '\r' || c == '\n') { ++i; continue; }
            if (c == '/' && ch(i + 1) == '/') { while (i < t.size() && t[i] != '\n') ++i; continue; }
            if (c == '/' && ch(i + 1) == '*') { size_t j = i + 2; for (;; ++j) { if (j >= t.size()) { k = Tok{BAD, "", i, 0}; return; } if (t[j] == '*' && ch(j + 1) == '/') break; } i = j + 2; continue; }
            break; }
        int c = ch(i); size_t b = i;
        if (c < 0) { k = Tok{END, "", b, 0}; return; }
        if (letter(c)) { int kind = ID; for (;;) { while (letter(ch(i)) || digit(ch(i))) ++i; if (ch(i) != '.') break; kind = QID; ++i; if (!letter(ch(i))) { k = Tok{BAD, "", b, 0}; return; } } k = Tok{kind, t.substr(b, i - b), b, 0}; return; }
        if (digit(c)) { while (digit(ch(i))) ++i; k = Tok{INT, t.substr(b, i - b), b, 0}; return; }
        if (c == '"') { ++i; for (;;) { c = ch(i); if (c < 0 || c == '\n' || c == 0) { k = Tok{BAD, "", b, 0}; return; } if (c == '"') break; if (c == '\\') open = true; ++i; } k = Tok{STR, t.substr(b + 1, i - b - 1), b, 0}; ++i; return; }
        if (c == '=' || c == '{' || c == '}' || c == ';' || c == ',' || c == '[' || c == ']' || c == '<' || c == '>') { ++i; k = Tok{PUN, "", b, (char)c}; return; }
        if (c == '\f' || c == '\v' || c == '\'' || c == '.' || c == '(' || c == '-' || c == '+') open = true; // proto3, but not in the subset
        k = Tok{BAD, "", b, 0};
    }
    bool no() { if (bad == (size_t)-1) bad = k.at; return false; }
    bool pun(char c) { return k.k == PUN && k.c == c; }
    bool need(char c) { if (!pun(c)) return no(); next(); return true; }
    bool kw(const char *w) { return k.k == ID && k.v == w; }
    bool name(string &o) { if (k.k != ID) return no(); if (word(k.v) && k.v != "message" && k.v != "package") { open = true; return no(); } o = k.v; next(); return true; }
    static void put(std::vector<Opt> &l, const Opt &o) { for (auto &x : l) if (x.name == o.name) { x = o; return; } l.push_back(o); }
    bool option(std::vector<Opt> &l) { // name = value
        Opt o; if (k.k != ID && k.k != QID) return no(); if (k.k == ID && word(k.v)) { open = true; return no(); } o.name = k.v; next(); if (!need('=')) return false;
        switch (k.k) { case ID: if (k.v == "true" || k.v == "false") o.type = protogen::OptionType::BOOLEAN; else { if (word(k.v)) { open = true; return no(); } o.type = protogen::OptionType::IDENTIFIER; } break; case QID: o.type = protogen::OptionType::IDENTIFIER; break; case INT: o.type = protogen::OptionType::INTEGER; break; case STR: o.type = protogen::OptionType::STRING; break; default: return no(); }
        o.value = k.v; next(); put(l, o); return true;
    }
    bool number(unsigned &n) { if (k.k != INT) return no(); const string &d = k.v; if (d.size() > 1 && d[0] == '0') open = true; if (d.size() > 18) { open |= d[0] == '0'; return no(); } uint64_t v = sx_undigits(d.data(), d.size()); if (v < 1 || v > 536870911u || (v >= 19000 && v <= 19999)) return no(); n = (unsigned)v; next(); return true; }
    bool field(Msg &m) {
        Fld f; f.rep = f.opt = false; f.num = 0; f.type = 0; size_t at = k.at;
        if (kw("repeated")) { f.rep = true; next(); } else if (kw("optional")) { f.opt = true; next(); }
        if (k.k == ID && (f.type = scalar(k.v))) next(); else if (k.k == QID || (k.k == ID && !word(k.v))) { f.type = protogen::TYPE_MESSAGE; f.ref = (m.package.empty() ? k.v : m.package + "." + k.v); next(); } else { if (k.k == ID && (k.v == "message" || k.v == "package")) open = true; return no(); }
        size_t at1 = k.at; if (!name(f.name)) return false; for (auto &x : m.fields) if (x.name == f.name) { bad = at1; return false; } if (!need('=')) return false; size_t nat = k.at; if (!number(f.num)) return false;
        if (pun('[')) { next(); if (pun(']')) return no(); for (;;) { if (!option(f.options)) return false; if (pun(',')) { next(); continue; } if (!need(']')) return false; break; } }
        if (!need(';')) return false; (void)at;
        for (auto &x : m.fields) { if (x.num == f.num) { bad = nat; noref = true; return false; } }
        m.fields.push_back(f); return true;
    }
    bool message() {
        Msg m; m.package = package; size_t at = k.at; if (!name(m.name)) return false; for (auto &x : msgs) if (x.name == m.name && x.package == m.package) { bad = at; return false; } if (!need('{')) return false;
        while (!pun('}')) { if (k.k == END || k.k == BAD) return no(); if (pun(';')) { open = true; return no(); } if (kw("option")) { next(); if (!option(m.options)) return false; if (!need(';')) return false; } else if (!field(m)) return false; }
        next(); msgs.push_back(m); return true;
    }
    bool file() {
        for (;;) {
            if (k.k == END) break;
            if (kw("message")) { next(); if (!message()) return false; }
            else if (kw("package")) { next(); if (k.k != ID && k.k != QID) return no(); if (k.k == ID && word(k.v)) { open = true; return no(); } package = k.v; next(); if (!need(';')) return false; }
            else if (kw("syntax")) { next(); if (!need('=')) return false; if (k.k != STR || k.v != "proto3") return no(); next(); if (!need(';')) return false; }
            else if (kw("option")) { next(); if (!option(options)) return false; if (!need(';')) return false; }
            else { if (pun(';')) open = true; return no(); }
        }
        for (auto &m : msgs) for (auto &f : m.fields) if (f.type == protogen::TYPE_MESSAGE && !find(f.ref)) { noref = true; return false; }
        return true;
    }
    const Msg *find(const string &q) const { for (auto &m : msgs) if ((m.package.empty() ? m.name : m.package + "." + m.name) == q) return &m; return nullptr; }
};
static bool same_options(const std::vector<Opt> &a, const protogen::OptionMap &b) {
    if (a.size() != b.size()) return false; for (auto &o : a) { auto it = b.find(o.name); if (it == b.end() || it->second.name != o.name || it->second.value != o.value || it->second.type != o.type) return false; } return true; }
static const char *diff(const R &r, const protogen::Proto3 &p) {
    if (r.msgs.size() != p.messages.size()) return "the number of messages"; if (!same_options(r.options, p.options)) return "the file options";
    for (auto &m : r.msgs) {
        const protogen::Message *q = nullptr; for (auto &x : p.messages) if (x->name == m.name && x->package == m.package) q = x.get(); if (!q) return "a message and its package"; if (!same_options(m.options, q->options)) return "the message options"; if (m.fields.size() != q->fields.size()) return "the number of fields";
        for (auto &f : m.fields) {
            const protogen::Field *g = nullptr; for (auto &x : q->fields) if (x.name == f.name) g = &x; if (!g) return "the name of a field"; if ((unsigned)g->index != f.num) return "the number of a field"; if ((int)g->type.id != f.type) return "the type of a field"; if (g->type.repeated != f.rep || g->type.optional != f.opt) return "the label of a field"; if (!same_options(f.options, g->options)) return "the options of a field";
            if (f.type == protogen::TYPE_MESSAGE) { if (!g->type.ref) return "a message reference"; const auto &o = *g->type.ref; if ((o.package.empty() ? o.name : o.package + "." + o.name) != f.ref) return "a message reference"; bool in = false; for (auto &x : p.messages) if (x == g->type.ref) in = true; if (!in) return "a message reference"; } else if (g->type.ref) return "a message reference"; } }
    return nullptr;
}
}
