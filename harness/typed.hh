// Reference verdict for a document read into a message of protos/types.proto. Three-valued: some inputs are not
// settled by the properties (number syntax, raw control characters in strings, null inside a list).
#pragma once
#include "jsonref.hh"
namespace typed {
using std::string;
enum K { ANY, NUM, STR, BOOL, MSG, LNUM, LSTR, LMSG };
struct F { const char *name; K k; const struct S *sub; }; struct S { const F *f; int n; };
static const F inner_f[] = {{"a", NUM, 0}, {"b", STR, 0}}; static const S Inner = {inner_f, 2};
static const F mix_f[] = {{"i", NUM, 0}, {"s", STR, 0}, {"b", BOOL, 0}, {"ri", LNUM, 0}, {"rs", LSTR, 0}, {"m", MSG, &Inner}, {"rm", LMSG, &Inner}}; static const S Mix = {mix_f, 7};
struct R {
    const string &t; size_t i = 0, bad = (size_t)-1; bool open = false; // open: not settled; bad: where the first offending token starts
    R(const string &s) : t(s) {}
    int peek() { return i < t.size() ? (unsigned char)t[i] : -1; }
    void ws() { while (peek() == ' ' || peek() == '\t' || peek() == '\r' || peek() == '\n') ++i; }
    bool no(size_t at) { if (bad == (size_t)-1) bad = at; return false; }
    bool eat(int c) { if (peek() != c) return false; ++i; return true; }
    bool need(int c) { return eat(c) || no(i); }
    bool str(string &o) { size_t b = i; jref::P p(t, false); p.i = i; if (!p.str(o)) { size_t j = b + 1; /* raw control characters: not settled */ for (size_t k = b + 1; k <= p.i && k < t.size(); ++k) { unsigned char c = (unsigned char)t[k]; if (c < 0x20) { open = true; return false; } } (void)j; return no(b); } i = p.i; return true; }
    bool word(const char *w) { size_t k = i; while (*w) { if (k >= t.size() || t[k] != *w) return no(i); ++k; ++w; } if (k < t.size() && ((t[k] >= 'a' && t[k] <= 'z') || (t[k] >= 'A' && t[k] <= 'Z'))) return no(i); i = k; return true; }
    bool num() { int c = peek(); if (c != '-' && !jref::P::dig(c)) return no(i); size_t b = i; for (;;) { c = peek(); if (c == '.' || c == 'e' || c == 'E' || c == '+' || c == '-' || jref::P::dig(c)) ++i; else break; } if (!jref::is_number(t, b, i)) { open = true; return false; } return true; }
    bool list(K e, const S *sub) { if (!need('[')) return false; ws(); if (eat(']')) return true; for (;;) { ws(); if (e != ANY && peek() == 'n' && word("null")) { open = true; return false; } if (!value(e, sub, false)) return false; ws(); if (eat(',')) continue; return need(']'); } }
    bool value(K k, const S *sub, bool nul = true) {
        ws(); if (nul && k != ANY && peek() == 'n') return word("null"); string o;
        switch (k) { case NUM: return num(); case STR: return peek() == '"' ? str(o) : no(i); case BOOL: return peek() == 't' ? word("true") : word("false"); case MSG: return object(sub); case LNUM: return list(NUM, 0); case LSTR: return list(STR, 0); case LMSG: return list(MSG, sub);
            default: switch (peek()) { case '{': return object(nullptr); case '[': return list(ANY, nullptr); case '"': return str(o); case 't': return word("true"); case 'f': return word("false"); case 'n': return word("null"); default: return num(); } }
    }
    bool object(const S *s) {
        if (!need('{')) return false; ws(); if (eat('}')) return true;
        for (;;) { ws(); string n; if (peek() != '"') return no(i); if (!str(n)) return false; ws(); if (!need(':')) return false; K k = ANY; const S *sub = nullptr; if (s) for (int j = 0; j < s->n; ++j) if (n == s->f[j].name) { k = s->f[j].k; sub = s->f[j].sub; } if (!value(k, sub)) return false; ws(); if (eat(',')) continue; return need('}'); }
    }
};
// 1: must be accepted, 0: must be refused, -1: not settled. Text after the outermost object is not examined.
static int verdict(const string &t, const S &s) { R r(t); r.ws(); bool ok = r.object(&s); return r.open ? -1 : ok; }
}
