// An RFC 8259 recogniser, independent of the code under test.
#pragma once
#include <string>
#include <vector>
namespace jref {
using std::string;
struct P {
    const string &s; size_t i = 0; bool ok = true; bool utf8; bool ascii = true;
    std::vector<string> names, vals; // of the outermost object: decoded names, text of the values
    P(const string &t, bool u8) : s(t), utf8(u8) {}
    int peek() { return i < s.size() ? (unsigned char)s[i] : -1; }
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || s[i] == '\n')) ++i; }
    bool fail() { ok = false; return false; }
    bool lit(const char *t) { for (; *t; ++t, ++i) if (peek() != (unsigned char)*t) return fail(); return true; }
    static bool dig(int c) { return c >= '0' && c <= '9'; }
    bool number() {
        if (peek() == '-') ++i;
        if (peek() == '0') ++i; else { if (!dig(peek())) return fail(); while (dig(peek())) ++i; }
        if (peek() == '.') { ++i; if (!dig(peek())) return fail(); while (dig(peek())) ++i; }
        if (peek() == 'e' || peek() == 'E') { ++i; if (peek() == '+' || peek() == '-') ++i; if (!dig(peek())) return fail(); while (dig(peek())) ++i; }
        return true;
    }
    static int hex(int c) { return dig(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
    static void put(string &o, unsigned c) {
        if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
        else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    }
    bool u4(unsigned &c) { c = 0; for (int k = 0; k < 4; ++k) { int h = hex(peek()); if (h < 0) return fail(); c = c * 16 + (unsigned)h; ++i; } return true; }
    bool str(string &o) {
        if (peek() != '"') return fail(); ++i;
        for (;;) {
            int c = peek(); if (c < 0) return fail();
            if (c == '"') { ++i; return true; }
            if (c < 0x20) return fail();
            if (c == '\\') {
                ++i; c = peek(); ++i;
                switch (c) { case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
                    case 'u': { unsigned a, b; if (!u4(a)) return false; if (a >= 0xDC00 && a <= 0xDFFF) return fail(); if (a >= 0xD800 && a <= 0xDBFF) { if (peek() != '\\') return fail(); ++i; if (peek() != 'u') return fail(); ++i; if (!u4(b)) return false; if (b < 0xDC00 || b > 0xDFFF) return fail(); a = 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00); } put(o, a); break; }
                    default: return fail(); }
                continue;
            }
            if (c >= 0x80) { ascii = false; if (utf8) { if (!u8seq(o)) return false; continue; } }
            o += (char)c; ++i;
        }
    }
    bool u8seq(string &o) { // a well-formed multi-byte sequence
        int a = peek(); int n = a >= 0xC2 && a <= 0xDF ? 1 : a >= 0xE0 && a <= 0xEF ? 2 : a >= 0xF0 && a <= 0xF4 ? 3 : 0; if (!n) return fail();
        int lo = 0x80, hi = 0xBF; if (a == 0xE0) lo = 0xA0; if (a == 0xED) hi = 0x9F; if (a == 0xF0) lo = 0x90; if (a == 0xF4) hi = 0x8F;
        o += (char)a; ++i; for (int k = 0; k < n; ++k) { int c = peek(); if (c < lo || c > hi) return fail(); o += (char)c; ++i; lo = 0x80; hi = 0xBF; } return true;
    }
    bool value(int depth) {
        ws();
        switch (peek()) {
            case '{': return object(depth);
            case '[': { ++i; ws(); if (peek() == ']') { ++i; return true; } for (;;) { if (!value(depth + 1)) return false; ws(); if (peek() == ',') { ++i; continue; } if (peek() == ']') { ++i; return true; } return fail(); } }
            case '"': { string o; return str(o); }
            case 't': return lit("true"); case 'f': return lit("false"); case 'n': return lit("null");
            default: return number();
        }
    }
    bool object(int depth) {
        if (peek() != '{') return fail(); ++i; ws(); if (peek() == '}') { ++i; return true; }
        for (;;) { ws(); string n; if (!str(n)) return false; if (depth == 0) names.push_back(n); ws(); if (peek() != ':') return fail(); ++i; ws(); size_t b = i; if (!value(depth + 1)) return false; if (depth == 0) vals.push_back(s.substr(b, i - b)); ws(); if (peek() == ',') { ++i; continue; } if (peek() == '}') { ++i; return true; } return fail(); }
    }
};
struct Doc { bool ok; size_t members; bool ascii; std::vector<string> names, vals;
    Doc(const string &s, bool utf8 = false) { P p(s, utf8); p.ws(); ok = p.object(0); p.ws(); ok = ok && p.i == s.size(); members = p.names.size(); names = p.names; vals = p.vals; ascii = true; for (char c : s) ascii = ascii & ((unsigned char)c < 0x80); }
    // the text of member n, "" if there is none
    string get(const char *n) const { for (size_t k = 0; k < names.size(); ++k) if (names[k] == n) return vals[k]; return string(); }
    bool has(const char *n) const { for (auto &x : names) if (x == n) return true; return false; } };
inline bool is_number(const string &s, size_t b, size_t e) { string t = s.substr(b, e - b); P p(t, false); return p.number() && p.i == t.size(); }
inline bool is_value(const string &s) { P p(s, false); bool ok = p.value(0); p.ws(); return ok && p.i == s.size(); }
}
