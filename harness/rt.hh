// Shared by the run-time harnesses. PG is the version namespace of the generated code.
#pragma once
#include "sx.h"
#include <string>
#include <vector>
#include <list>
#include <sstream>
using std::string;
static inline string sx_string(size_t n, const char *name) { string s(n, '\0'); if (n) sx_bytes(&s[0], n, name); return s; }
// a string of n symbolic bytes none of which needs escaping (one straight path)
static inline bool plain_byte(unsigned char c) { return (c >= 0x20) & (c < 0x7f) & (c != '"') & (c != '\\') & (c != '/'); }
static inline string sx_plain(size_t n, const char *name) { string s = sx_string(n, name); int ok = 1; for (size_t i = 0; i < n; ++i) ok &= plain_byte((unsigned char)s[i]); sx_assume(ok); return s; }
static inline bool same(const string &a, const string &b) { if (a.size() != b.size()) return false; unsigned char d = 0; for (size_t i = 0; i < a.size(); ++i) d |= (unsigned char)(a[i] ^ b[i]); return d == 0; }
static inline bool same(const char *a, size_t n, const string &b) { if (n != b.size()) return false; unsigned char d = 0; for (size_t i = 0; i < n; ++i) d |= (unsigned char)(a[i] ^ b[i]); return d == 0; }
static inline bool same(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b) { if (a.size() != b.size()) return false; unsigned char d = 0; for (size_t i = 0; i < a.size(); ++i) d |= (unsigned char)(a[i] ^ b[i]); return d == 0; }
