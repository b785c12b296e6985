// Models of library code that the symbolic executor interprets together with the code under test.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <new>
#include <stdexcept>
#include <unordered_map>
#include <list>
#include <locale.h>
#include "../sx.h"

template class std::basic_string<char>;
template std::string std::operator+ <char, std::char_traits<char>, std::allocator<char>>(const std::string &, const std::string &);
template std::string std::operator+ <char, std::char_traits<char>, std::allocator<char>>(const char *, const std::string &);

// --- exceptions -------------------------------------------------------------
namespace std {
exception::~exception() noexcept {} const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
static const char *dupc(const char *s) { size_t n = __builtin_strlen(s); char *p = (char *)__builtin_malloc(n + 1); __builtin_memcpy(p, s, n + 1); return p; }
__cow_string::__cow_string() { _M_p = dupc(""); } __cow_string::__cow_string(const std::string &s) { _M_p = dupc(s.c_str()); } __cow_string::__cow_string(const char *s, size_t n) { _M_p = dupc(std::string(s, n).c_str()); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = dupc(o._M_p); } __cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { __builtin_free((void *)_M_p); _M_p = dupc(o._M_p); } return *this; }
__cow_string::~__cow_string() { __builtin_free((void *)_M_p); } __cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = dupc(o._M_p); } __cow_string &__cow_string::operator=(__cow_string &&o) noexcept { return *this = (const __cow_string &)o; }
logic_error::logic_error(const string &s) : _M_msg(s) {} logic_error::logic_error(const char *s) : _M_msg(string(s)) {} logic_error::~logic_error() noexcept {} const char *logic_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; } logic_error::logic_error(logic_error &&o) noexcept : _M_msg(o._M_msg) {} logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {} runtime_error::runtime_error(const char *s) : _M_msg(string(s)) {} runtime_error::~runtime_error() noexcept {} const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; } runtime_error::runtime_error(runtime_error &&o) noexcept : _M_msg(o._M_msg) {} runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
length_error::length_error(const string &s) : logic_error(s) {} length_error::length_error(const char *s) : logic_error(s) {} length_error::~length_error() noexcept {}
out_of_range::out_of_range(const string &s) : logic_error(s) {} out_of_range::out_of_range(const char *s) : logic_error(s) {} out_of_range::~out_of_range() noexcept {}
invalid_argument::invalid_argument(const string &s) : logic_error(s) {} invalid_argument::invalid_argument(const char *s) : logic_error(s) {} invalid_argument::~invalid_argument() noexcept {}
domain_error::domain_error(const string &s) : logic_error(s) {} domain_error::domain_error(const char *s) : logic_error(s) {} domain_error::~domain_error() noexcept {}
range_error::range_error(const string &s) : runtime_error(s) {} range_error::range_error(const char *s) : runtime_error(s) {} range_error::~range_error() noexcept {}
overflow_error::overflow_error(const string &s) : runtime_error(s) {} overflow_error::overflow_error(const char *s) : runtime_error(s) {} overflow_error::~overflow_error() noexcept {}
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }

// --- hashing ----------------------------------------------------------------
size_t _Hash_bytes(const void *, size_t, size_t) { return 7; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = n < 13 ? 13 : (n | 1); _M_next_resize = p; return p; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize || nb == 1) { size_t want = ne + ni > nb * 2 ? ne + ni : nb * 2; if (ne + ni < nb && nb > 1) { _M_next_resize = nb; return {false, 0}; } return {true, _M_next_bkt(want)}; }
    return {false, 0};
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    bool xe = x._M_next == &x, ye = y._M_next == &y;
    if (xe && ye) return;
    if (!xe && !ye) { _List_node_base *t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else if (!xe) { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    else { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
    if (this == l) return; l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *const n = _M_next, *const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
}
}

// --- numbers ----------------------------------------------------------------
static unsigned ndigits(uint64_t u) { unsigned n = 1; uint64_t p = 10; while (n < 20 && u >= p) { ++n; if (n == 20) break; p *= 10; } return n; }
static void putnum(std::string *r, uint64_t u, bool neg) {
    unsigned n = ndigits(u); char b[24]; unsigned k = 0; if (neg) b[k++] = '-';
    sx_digits(u, b + k, n); new (r) std::string(b, k + n);
}
extern "C" {
void __sxm__ZNSt7__cxx119to_stringEi(std::string *r, int v) { bool n = sx_decide(v < 0); putnum(r, n ? 0 - (uint64_t)(int64_t)v : (uint64_t)v, n); }
void __sxm__ZNSt7__cxx119to_stringEl(std::string *r, long v) { bool n = sx_decide(v < 0); putnum(r, n ? 0 - (uint64_t)v : (uint64_t)v, n); }
void __sxm__ZNSt7__cxx119to_stringEx(std::string *r, long long v) { bool n = sx_decide(v < 0); putnum(r, n ? 0 - (uint64_t)v : (uint64_t)v, n); }
void __sxm__ZNSt7__cxx119to_stringEj(std::string *r, unsigned v) { putnum(r, v, false); }
void __sxm__ZNSt7__cxx119to_stringEm(std::string *r, unsigned long v) { putnum(r, v, false); }
void __sxm__ZNSt7__cxx119to_stringEy(std::string *r, unsigned long long v) { putnum(r, v, false); }

static int sx_errno; int *__errno_location() { return &sx_errno; }
static bool spc(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool dig(char c) { return c >= '0' && c <= '9'; }
// digits at p: value and overflow
static uint64_t dec(const char *p, size_t n, bool &ovf) {
    ovf = false; if (n >= 19) while (n > 1 && *p == '0') { ++p; --n; }
    if (n <= 19) return sx_undigits(p, n);
    if (n > 20) { ovf = true; return ~0ull; }
    static const char lim[] = "18446744073709551615"; int c = __builtin_memcmp(p, lim, 20); if (c > 0) { ovf = true; return ~0ull; }
    return sx_undigits(p, 20);
}
static uint64_t scan(const char *s, char **end, int base, bool sgn) {
    const char *p = s; while (spc(*p)) ++p; bool neg = false; if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
    if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X')) { char c = p[2]; if (dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) { p += 2; base = 16; } }
    if (base == 0) base = *p == '0' ? 8 : 10;
    const char *b = p; uint64_t u = 0; bool ovf = false; const long safe = base <= 16 ? 15 : 10; // digits that cannot overflow
    if (base == 10) { while (dig(*p)) ++p; if (p != b) u = dec(b, (size_t)(p - b), ovf); }
    else for (;; ++p) { unsigned char c = (unsigned char)*p; bool ok = (c >= '0' && c <= '9') || (base > 10 && ((c >= 'a' && c < 'a' + base - 10) || (c >= 'A' && c < 'A' + base - 10))); if (!ok || (base < 10 && c >= '0' + base)) break; unsigned d = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; if (p - b >= safe && u > (~0ull - d) / (unsigned)base) ovf = true; else u = u * (unsigned)base + d; }
    if (end) *end = (char *)(p == b ? s : p);
    if (p == b) return 0;
    if (sgn) { if (ovf || u > (uint64_t)INT64_MAX + (neg ? 1 : 0)) { sx_errno = 34; return neg ? (uint64_t)INT64_MIN : (uint64_t)INT64_MAX; } return neg ? 0 - u : u; }
    if (ovf) { sx_errno = 34; return ~0ull; } return neg ? 0 - u : u;
}
long __sxm_strtol(const char *s, char **e, int b) { return (long)scan(s, e, b, true); }
long long __sxm_strtoll(const char *s, char **e, int b) { return (long long)scan(s, e, b, true); }
unsigned long __sxm_strtoul(const char *s, char **e, int b) { return scan(s, e, b, false); }
unsigned long long __sxm_strtoull(const char *s, char **e, int b) { return scan(s, e, b, false); }
long __sxm___isoc23_strtol(const char *s, char **e, int b) { return (long)scan(s, e, b, true); }
long long __sxm___isoc23_strtoll(const char *s, char **e, int b) { return (long long)scan(s, e, b, true); }
unsigned long __sxm___isoc23_strtoul(const char *s, char **e, int b) { return scan(s, e, b, false); }
unsigned long long __sxm___isoc23_strtoull(const char *s, char **e, int b) { return scan(s, e, b, false); }


// C syntax of a decimal floating-point literal (no hexadecimal form, infinities or NaN)
static size_t fplen(const char *s, size_t &lead, char point) {
    const char *p = s; while (spc(*p)) ++p; lead = (size_t)(p - s); const char *b = p; if (*p == '-' || *p == '+') ++p; size_t n = 0; while (dig(*p)) { ++p; ++n; } if (*p == point) { const char *q = p + 1; size_t m = 0; while (dig(*q)) { ++q; ++m; } if (n + m) { p = q; n += m; } }
    if (!n) return 0;
    if (*p == 'e' || *p == 'E') { const char *q = p + 1; if (*q == '-' || *q == '+') ++q; if (dig(*q)) { while (dig(*q)) ++q; p = q; } }
    return (size_t)(p - b);
}
// Locales: "C"/"POSIX", and "xx_comma" whose decimal point is a comma and whose letters are those of ISO 8859-1.
struct SxLoc { char point; bool latin; };
static SxLoc sx_lc_plain = {'.', false}, sx_lc_comma = {',', true}, lc_global = {'.', false}; static SxLoc *sx_lc_cur = &lc_global; static bool sx_lc_env = false; bool sx_lc_group = false; static char sx_lc_name[16] = "C";
static SxLoc *sx_lc_find(const char *n) { if (!*n) return sx_lc_env ? &sx_lc_comma : &sx_lc_plain; if (!__builtin_strcmp(n, "C") || !__builtin_strcmp(n, "POSIX")) return &sx_lc_plain; if (!__builtin_strcmp(n, "xx_comma")) return &sx_lc_comma; return nullptr; }
static void sx_lc_apply() { sx_setpoint(sx_lc_cur->point == ','); }
locale_t newlocale(int mask, const char *n, locale_t base) { SxLoc *l = sx_lc_find(n); if (!l) return nullptr; if (!(mask & LC_NUMERIC_MASK)) return base ? base : (locale_t)&sx_lc_plain; return (locale_t)l; }
locale_t duplocale(locale_t l) { return l; }
locale_t uselocale(locale_t l) { SxLoc *o = sx_lc_cur; if (l) { sx_lc_cur = l == LC_GLOBAL_LOCALE ? &lc_global : (SxLoc *)l; sx_lc_apply(); } return o == &lc_global ? LC_GLOBAL_LOCALE : (locale_t)o; }
void freelocale(locale_t) {}
char *setlocale(int cat, const char *n) { if (n) { SxLoc *l = sx_lc_find(n); if (!l) return nullptr; if (cat == LC_ALL || cat == LC_NUMERIC) lc_global.point = l->point; if (cat == LC_ALL || cat == LC_CTYPE) lc_global.latin = l->latin; if (cat == LC_ALL || cat == LC_NUMERIC) { const char *m = l == &sx_lc_comma ? "xx_comma" : "C"; for (int i = 0; (sx_lc_name[i] = m[i]); ++i) {} } sx_lc_apply(); } return sx_lc_name; }
static struct lconv lc_conv; struct lconv *localeconv() { lc_conv.decimal_point = (char *)(sx_lc_cur->point == ',' ? "," : "."); lc_conv.thousands_sep = (char *)""; lc_conv.grouping = (char *)""; return &lc_conv; }
void sx_threads(void (*f)(void *), void *p) { sx_freeze(1); f(p); sx_freeze(0); }
void sx_locale(int k) { sx_lc_env = true; if (k & 1) setlocale(LC_ALL, "xx_comma"); if (k & 2) uselocale(newlocale(LC_ALL_MASK, "xx_comma", nullptr)); if (k & 4) sx_lc_group = true; if (k & 8) { setlocale(LC_ALL, "C"); uselocale(LC_GLOBAL_LOCALE); sx_lc_group = false; } }
static double dbl(const char *s, char **e, char point) {
    size_t l, n = fplen(s, l, point); if (e) *e = (char *)(n ? s + l + n : s); if (!n) return 0; bool neg = s[l] == '-'; size_t sk = neg || s[l] == '+'; const char *b = s + l + sk; n -= sk; char t[512];
    if (point != '.' && n < sizeof t) { for (size_t i = 0; i < n; ++i) { t[i] = b[i]; if (b[i] == point) t[i] = '.'; } b = t; } double d = sx_strtod(b, n); return neg ? -d : d; }
static float flt(const char *s, char **e, char point) {
    size_t l, n = fplen(s, l, point); if (e) *e = (char *)(n ? s + l + n : s); if (!n) return 0; bool neg = s[l] == '-'; size_t sk = neg || s[l] == '+'; const char *b = s + l + sk; n -= sk; char t[512];
    if (point != '.' && n < sizeof t) { for (size_t i = 0; i < n; ++i) { t[i] = b[i]; if (b[i] == point) t[i] = '.'; } b = t; } float d = sx_strtof(b, n); return neg ? -d : d; }
double strtod(const char *s, char **e) { return dbl(s, e, sx_lc_cur->point); }
float strtof(const char *s, char **e) { return flt(s, e, sx_lc_cur->point); }
double strtod_l(const char *s, char **e, locale_t l) { return dbl(s, e, ((SxLoc *)l)->point); }
float strtof_l(const char *s, char **e, locale_t l) { return flt(s, e, ((SxLoc *)l)->point); }
double nextafter(double x, double y) {
    if (x != x || y != y) return x + y; if (x == y) return y; uint64_t u; __builtin_memcpy(&u, &x, 8);
    if (x == 0) { u = y > 0 ? 1 : 0x8000000000000001ull; } else { bool up = (x < y) == (x > 0); u = up ? u + 1 : u - 1; } __builtin_memcpy(&x, &u, 8); return x;
}
float nextafterf(float x, float y) {
    if (x != x || y != y) return x + y; if (x == y) return y; uint32_t u; __builtin_memcpy(&u, &x, 4);
    if (x == 0) { u = y > 0 ? 1 : 0x80000001u; } else { bool up = (x < y) == (x > 0); u = up ? u + 1 : u - 1; } __builtin_memcpy(&x, &u, 4); return x;
}
int strcmp(const char *a, const char *b) { for (;; ++a, ++b) { unsigned char x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; ++a, ++b, --n) { unsigned char x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *strrchr(const char *s, int c) { const char *r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
static bool lup(int c) { return sx_lc_cur->latin && c >= 0xC0 && c <= 0xDE && c != 0xD7; } static bool llo(int c) { return sx_lc_cur->latin && ((c >= 0xDF && c <= 0xFF && c != 0xF7) || c == 0xB5); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : lup(c) ? c + 32 : c; } int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : llo(c) && c >= 0xE0 && c < 0xFF ? c - 32 : c; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || lup(c) || llo(c) || (sx_lc_cur->latin && (c == 0xAA || c == 0xBA)); } int isdigit(int c) { return c >= '0' && c <= '9'; } int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); } int isupper(int c) { return (c >= 'A' && c <= 'Z') || lup(c); } int islower(int c) { return (c >= 'a' && c <= 'z') || llo(c); } int isprint(int c) { return (c >= 32 && c < 127) || (sx_lc_cur->latin && c >= 0xA0 && c <= 0xFF); } int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); } int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
void _ZNSt8ios_base4InitC1Ev(void *) {} void _ZNSt8ios_base4InitD1Ev(void *) {}
void __sxm__ZNSt8ios_base4InitC1Ev(void *) {} void __sxm__ZNSt8ios_base4InitD1Ev(void *) {}
}
