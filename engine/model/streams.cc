// The parts of libstdc++'s streams that live in its binary (the templates come from its headers), over files that
// exist only in this model: a table of named contents, with a limit beyond which writing fails.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <iostream>
#include <fstream>
#include <sstream>
#include <locale>
#include <set>
#include <new>
#include "../sx.h"
extern "C" { char __libc_single_threaded = 1; void sx_unmodelled(void); }

// --- files -------------------------------------------------------------------
struct SxFile { const char *name; std::string data; bool dir; SxFile *next; long cut = -1, rfault = -1; bool cfault = false; size_t size() const { return cut >= 0 ? (size_t)cut : data.size(); } }; // cut: writing stopped at a symbolic limit, the contents are not kept
struct SxHandle { SxFile *f; size_t pos; bool wr, app; };
static SxFile *g_files; static long g_limit = -1;
static SxFile *ffind(const char *n) { if (n[0] == '.' && n[1] == '/') n += 2; for (SxFile *f = g_files; f; f = f->next) if (!__builtin_strcmp(f->name, n)) return f; return nullptr; }
static SxFile *fmake(const char *n) { SxFile *f = new SxFile(); size_t l = __builtin_strlen(n); char *p = (char *)__builtin_malloc(l + 1); __builtin_memcpy(p, n, l + 1); f->name = p; f->dir = false; f->next = g_files; g_files = f; return f; }
static size_t put(SxFile *f, size_t pos, const char *p, size_t n) { // bytes accepted
    if (!n) return 0;
    if (g_limit >= 0 && !sx_decide(pos + n <= (size_t)g_limit)) { size_t room = sx_decide(pos < (size_t)g_limit) ? (size_t)g_limit - pos : 0; if (sx_issym((uint64_t)g_limit)) { f->cut = (long)(pos + room); return room; } n = room; }
    if (f->cut >= 0) sx_unmodelled(); // writing over contents that are not kept
    if (pos == f->data.size()) f->data.append(p, n); else { if (f->data.size() < pos + n) f->data.resize(pos + n); for (size_t i = 0; i < n; ++i) f->data[pos + i] = p[i]; } return n;
}
static void (*g_onexit)(int); static std::string *g_out; // text handed to standard output but not yet written
static bool flushout() { SxFile *f = ffind("<stdout>"); if (!f) f = fmake("<stdout>"); size_t n = put(f, f->size(), g_out->data(), g_out->size()); bool ok = n == g_out->size(); g_out->clear(); return ok; }
extern "C" {
void sx_file_put(const char *n, const void *p, size_t k) { SxFile *f = ffind(n); if (!f) f = fmake(n); f->data.assign((const char *)p, k); }
void sx_file_mkdir(const char *n) { fmake(n)->dir = true; }
long sx_file_size(const char *n) { SxFile *f = ffind(n); return f ? (long)f->size() : -1; }
void sx_file_rfault(const char *n, long at) { if (SxFile *f = ffind(n)) f->rfault = at; }
void sx_file_cfault(const char *n) { SxFile *f = ffind(n); if (!f) f = fmake(n); f->cfault = true; }
void sx_file_get(const char *n, void *p) { SxFile *f = ffind(n); __builtin_memcpy(p, f->data.data(), f->data.size()); }
void sx_file_limit(long n) { g_limit = n; }
void sx_capture(void) { }
void sx_onexit(void (*f)(int)) { g_onexit = f; }
void __sxm_exit(int c) { flushout(); if (g_onexit) g_onexit(c); sx_end(); }
void __sxm__Exit(int c) { if (g_onexit) g_onexit(c); sx_end(); } void __sxm__exit(int c) { if (g_onexit) g_onexit(c); sx_end(); }
char *realpath(const char *n, char *o) { if (!ffind(n)) return nullptr; static const char pre[] = "/scratch/"; size_t l = __builtin_strlen(n); if (!o) o = (char *)__builtin_malloc(l + 16); size_t k = n[0] == '/' ? 0 : 9; for (size_t i = 0; i < k; ++i) o[i] = pre[i]; __builtin_memcpy(o + k, n, l + 1); return o; }
char *__realpath_chk(const char *n, char *o, size_t) { return realpath(n, o); }
int remove(const char *n) { SxFile *p = nullptr; for (SxFile *f = g_files; f; p = f, f = f->next) if (!__builtin_strcmp(f->name, n)) { if (p) p->next = f->next; else g_files = f->next; return 0; } return -1; }
int unlink(const char *n) { return remove(n); }
int rename(const char *a, const char *b) { SxFile *f = ffind(a); if (!f) return -1; remove(b); size_t l = __builtin_strlen(b); char *p = (char *)__builtin_malloc(l + 1); __builtin_memcpy(p, b, l + 1); f->name = p; return 0; }
}
namespace std {
#define H ((SxHandle *)_M_cfile)
__basic_file<char>::__basic_file(__c_lock *) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
__basic_file<char> *__basic_file<char>::open(const char *name, ios_base::openmode m, int) {
    if (is_open()) return nullptr; const auto in = ios_base::in, out = ios_base::out, trunc = ios_base::trunc, app = ios_base::app; auto k = m & (in | out | trunc | app); bool rd = false, wr = false, tr = false, ap = false, make_ = false;
    if (k == in) rd = true; else if (k == out || k == (out | trunc)) { wr = tr = make_ = true; } else if (k == app || k == (out | app)) { wr = ap = make_ = true; } else if (k == (in | out)) { rd = wr = true; } else if (k == (in | out | trunc)) { rd = wr = tr = make_ = true; } else if (k == (in | out | app) || k == (in | app)) { rd = wr = ap = make_ = true; } else return nullptr;
    if (!name) return nullptr; SxFile *f = ffind(name); if (f && f->dir && wr) return nullptr; if (!f && !make_) return nullptr;
    if (!f) { const char *s = nullptr; for (const char *p = name; *p; ++p) if (*p == '/') s = p; if (!*name) return nullptr; if (s) { std::string d(name, s); if (d != ".") { SxFile *p = ffind(d.c_str()); if (!p || !p->dir) return nullptr; } } f = fmake(name[0] == '.' && name[1] == '/' ? name + 2 : name); }
    if (tr) { f->data.clear(); f->cut = -1; } SxHandle *h = new SxHandle(); h->f = f; h->pos = 0; h->wr = wr; h->app = ap; _M_cfile = (__c_file *)h; _M_cfile_created = true; return this;
}
bool __basic_file<char>::is_open() const throw() { return _M_cfile != nullptr; }
__basic_file<char> *__basic_file<char>::close() { if (!is_open()) return nullptr; bool bad = H->wr && H->f->cfault; delete H; _M_cfile = nullptr; return bad ? nullptr : this; }
streamsize __basic_file<char>::xsgetn(char *s, streamsize n) { long rf = H->f->rfault; if (H->f->dir || (rf >= 0 && H->pos >= (size_t)rf)) return -1; const std::string &d = H->f->data; size_t k = d.size() > H->pos ? d.size() - H->pos : 0; if (rf >= 0 && k > (size_t)rf - H->pos) k = (size_t)rf - H->pos; if (k > (size_t)n) k = (size_t)n; __builtin_memcpy(s, d.data() + H->pos, k); H->pos += k; return (streamsize)k; }
streamsize __basic_file<char>::xsputn(const char *s, streamsize n) { if (!H->wr) return 0; if (H->app) H->pos = H->f->size(); size_t k = put(H->f, H->pos, s, (size_t)n); H->pos += k; return (streamsize)k; }
streamsize __basic_file<char>::xsputn_2(const char *a, streamsize n, const char *b, streamsize m) { streamsize k = n ? xsputn(a, n) : 0; if (k < n) return k; return k + xsputn(b, m); }
streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw() { long b = w == ios_base::beg ? 0 : w == ios_base::cur ? (long)H->pos : (long)H->f->data.size(); if (b + o < 0) return -1; H->pos = (size_t)(b + o); return (streamoff)H->pos; }
streamsize __basic_file<char>::showmanyc() { return H->f->data.size() > H->pos ? (streamsize)(H->f->data.size() - H->pos) : 0; }
int __basic_file<char>::sync() { return 0; } int __basic_file<char>::fd() throw() { return 9; }

// --- locale and facets ---------------------------------------------------------
static struct { int ref; const void **facets; size_t n; const void **caches; char **names; } sx_impl; static const void *sx_facets[64]; static const void *sx_caches[64]; static size_t sx_nid;
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = ++sx_nid; return _M_index - 1; }
locale::locale() throw() { _M_impl = (_Impl *)(void *)&sx_impl; } locale::~locale() throw() {} locale::locale(const locale &) throw() { _M_impl = (_Impl *)(void *)&sx_impl; } const locale &locale::operator=(const locale &) throw() { return *this; }
bool locale::operator==(const locale &) const throw() { return true; } const locale &locale::classic() { static locale l; return l; }
locale::facet::~facet() {}
locale::id ctype<char>::id; locale::id codecvt<char, char, mbstate_t>::id;
static ctype_base::mask sx_mask[256];
const ctype_base::mask *ctype<char>::classic_table() throw() { return sx_mask; }
ctype<char>::ctype(const mask *, bool, size_t r) : facet(r), _M_c_locale_ctype(nullptr), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(sx_mask), _M_widen_ok(1), _M_narrow_ok(1) { for (int i = 0; i < 256; ++i) { _M_widen[i] = (char)i; _M_narrow[i] = (char)i; } }
ctype<char>::~ctype() {}
void ctype<char>::_M_widen_init() const {} void ctype<char>::_M_narrow_init() const {}
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; } char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
const char *ctype<char>::do_toupper(char *b, const char *e) const { for (; b < e; ++b) *b = do_toupper(*b); return e; } const char *ctype<char>::do_tolower(char *b, const char *e) const { for (; b < e; ++b) *b = do_tolower(*b); return e; }
ctype_byname<char>::ctype_byname(const char *, size_t r) : ctype<char>(nullptr, false, r) {} ctype_byname<char>::~ctype_byname() {}
codecvt<char, char, mbstate_t>::codecvt(size_t r) : __codecvt_abstract_base<char, char, mbstate_t>(r) {} codecvt<char, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<char, char, mbstate_t>::do_out(state_type &, const char *f, const char *, const char *&fn, char *t, char *, char *&tn) const { fn = f; tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(state_type &, char *t, char *, char *&tn) const { tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_in(state_type &, const char *f, const char *, const char *&fn, char *t, char *, char *&tn) const { fn = f; tn = t; return noconv; }
int codecvt<char, char, mbstate_t>::do_encoding() const throw() { return 1; } bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw() { return true; }
int codecvt<char, char, mbstate_t>::do_length(state_type &, const char *f, const char *e, size_t m) const { size_t n = (size_t)(e - f); return (int)(n < m ? n : m); } int codecvt<char, char, mbstate_t>::do_max_length() const throw() { return 1; }
void __throw_bad_cast() { throw bad_cast(); } bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
}

typedef std::ostreambuf_iterator<char> OI; extern bool sx_lc_group;
static std::string grouped(const std::string &t) { if (!sx_lc_group) return t; size_t n = 0; while (n < t.size() && t[n] >= '0' && t[n] <= '9') ++n; std::string r; for (size_t i = 0; i < n; ++i) { if (i && (n - i) % 3 == 0) r += '.'; r += t[i]; } for (size_t i = n; i < t.size(); ++i) r += t[i] == '.' ? ',' : t[i]; return r; }
struct SxNumPut : std::num_put<char> {
    SxNumPut() : std::num_put<char>(1) {}
    static OI text(OI o, std::ios_base &s, char fill, const char *pre, const std::string &t) {
        size_t n = t.size(), p = __builtin_strlen(pre), w = (size_t)(s.width() > 0 ? s.width() : 0); s.width(0); size_t pad = w > n + p ? w - n - p : 0; auto adj = s.flags() & std::ios_base::adjustfield;
        if (adj != std::ios_base::left && adj != std::ios_base::internal) for (size_t i = 0; i < pad; ++i) *o++ = fill; for (size_t i = 0; i < p; ++i) *o++ = pre[i]; if (adj == std::ios_base::internal) for (size_t i = 0; i < pad; ++i) *o++ = fill; for (size_t i = 0; i < n; ++i) *o++ = t[i]; if (adj == std::ios_base::left) for (size_t i = 0; i < pad; ++i) *o++ = fill; return o;
    }
    static std::string decimal(unsigned long long u) { unsigned n = 1; unsigned long long p = 10; while (n < 20 && u >= p) { ++n; if (n < 20) p *= 10; } char b[24]; sx_digits(u, b, n); return std::string(b, n); }
    static OI integer(OI o, std::ios_base &s, char fill, unsigned long long u, long long v, bool sgn, unsigned w) {
        auto b = s.flags() & std::ios_base::basefield; bool up = (s.flags() & std::ios_base::uppercase) != 0, base = (s.flags() & std::ios_base::showbase) != 0;
        if (b == std::ios_base::hex || b == std::ios_base::oct) { unsigned sh = b == std::ios_base::hex ? 4 : 3; if (w < 64) u &= (1ull << w) - 1; char t[24]; int k = 24; const char *dg = up ? "0123456789ABCDEF" : "0123456789abcdef"; bool zero = u == 0; do { unsigned d = (unsigned)(u & ((1u << sh) - 1)); t[--k] = d < 10 ? (char)('0' + d) : (char)((up ? 'A' : 'a') + d - 10); u >>= sh; } while (u); (void)dg; return text(o, s, fill, base && !zero ? (sh == 4 ? (up ? "0X" : "0x") : "0") : "", std::string(t + k, t + 24)); }
        bool neg = sgn && sx_decide(v < 0); return text(o, s, fill, neg ? "-" : (sgn && (s.flags() & std::ios_base::showpos)) ? "+" : "", grouped(decimal(neg ? 0 - (unsigned long long)v : sgn ? (unsigned long long)v : u)));
    }
    OI do_put(OI o, std::ios_base &s, char f, bool v) const override { if (s.flags() & std::ios_base::boolalpha) return text(o, s, f, "", v ? "true" : "false"); return integer(o, s, f, v, v, true, 64); }
    OI do_put(OI o, std::ios_base &s, char f, long v) const override { return integer(o, s, f, (unsigned long)v, v, true, 64); }
    OI do_put(OI o, std::ios_base &s, char f, unsigned long v) const override { return integer(o, s, f, v, 0, false, 64); }
    OI do_put(OI o, std::ios_base &s, char f, long long v) const override { return integer(o, s, f, (unsigned long long)v, v, true, 64); }
    OI do_put(OI o, std::ios_base &s, char f, unsigned long long v) const override { return integer(o, s, f, v, 0, false, 64); }
    OI do_put(OI o, std::ios_base &s, char f, double v) const override { char b[400]; locale_t lc = uselocale(newlocale(LC_ALL_MASK, "C", nullptr)); int p = (int)s.precision(); auto x = s.flags() & std::ios_base::floatfield; int n = x == std::ios_base::fixed ? __builtin_snprintf(b, sizeof b, "%.*f", p, v) : x == std::ios_base::scientific ? __builtin_snprintf(b, sizeof b, "%.*e", p, v) : __builtin_snprintf(b, sizeof b, "%.*g", p, v); uselocale(lc); return text(o, s, f, "", grouped(std::string(b, (size_t)n))); }
};
namespace std {
// --- ios_base --------------------------------------------------------------------
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
void ios_base::_M_call_callbacks(event) throw() {} void ios_base::_M_dispose_callbacks() throw() {} void ios_base::_M_move(ios_base &) noexcept {} void ios_base::_M_swap(ios_base &) noexcept {}
locale ios_base::imbue(const locale &) throw() { return locale(); }
bool ios_base::sync_with_stdio(bool) { return true; }
void ios_base_library_init() {}
ios_base::failure::failure(const string &s) : system_error(error_code(), s) {} ios_base::failure::failure(const string &s, const error_code &c) : system_error(c, s) {} ios_base::failure::failure(const char *s, const error_code &c) : system_error(c, s) {} ios_base::failure::~failure() {} const char *ios_base::failure::what() const noexcept { return runtime_error::what(); }
system_error::~system_error() noexcept {} _V2::error_category::~error_category() {}
struct SxCat : _V2::error_category { const char *name() const noexcept override { return "iostream"; } string message(int) const override { return "iostream error"; } }; static SxCat sx_cat;
__cow_string _V2::error_category::_M_message(int) const { return __cow_string(); } error_condition _V2::error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); } bool _V2::error_category::equivalent(int, const error_condition &) const noexcept { return false; } bool _V2::error_category::equivalent(const error_code &, int) const noexcept { return false; }
const _V2::error_category &_V2::system_category() noexcept { return sx_cat; } const _V2::error_category &_V2::generic_category() noexcept { return sx_cat; } const _V2::error_category &iostream_category() noexcept { return sx_cat; }
void __throw_ios_failure(const char *s) { throw ios_base::failure(s); } void __throw_ios_failure(const char *s, int) { throw ios_base::failure(s); }

template <> basic_istream<char> &getline(basic_istream<char> &in, string &s, char delim) {
    ios_base::iostate err = ios_base::goodbit; bool any = false; istream::sentry ok(in, true);
    if (ok) { try { s.erase(); for (;;) { int c = in.rdbuf()->sgetc(); if (c == -1) { err |= ios_base::eofbit; break; } in.rdbuf()->sbumpc(); any = true; if ((char)c == delim) break; s.push_back((char)c); } } catch (...) { in.setstate(ios_base::badbit); } }
    if (!any) err |= ios_base::failbit; if (err) in.setstate(err); return in;
}
template <> basic_istream<char> &operator>>(basic_istream<char> &in, string &s) {
    ios_base::iostate err = ios_base::goodbit; bool any = false; istream::sentry ok(in, false);
    if (ok) { try { s.erase(); streamsize w = in.width(); size_t n = w > 0 ? (size_t)w : s.max_size(); while (s.size() < n) { int c = in.rdbuf()->sgetc(); if (c == -1) { err |= ios_base::eofbit; break; } if (c == ' ' || (c >= 9 && c <= 13)) break; in.rdbuf()->sbumpc(); any = true; s.push_back((char)c); } in.width(0); } catch (...) { in.setstate(ios_base::badbit); } }
    if (!any) err |= ios_base::failbit; if (err) in.setstate(err); return in;
}
template <> streamsize __copy_streambufs_eof(basic_streambuf<char> *a, basic_streambuf<char> *b, bool &eof) { streamsize r = 0; eof = true; int c = a->sgetc(); while (c != -1) { if (b->sputc((char)c) == -1) { eof = false; break; } ++r; c = a->snextc(); } return r; }

// --- ordered trees: kept unbalanced, which only affects speed ----------------------
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); } const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); } const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    _Rb_tree_node_base *y = z, *x = nullptr; if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; y = z; }
    else { if (x) x->_M_parent = y->_M_parent; if (h._M_parent == z) h._M_parent = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { _Rb_tree_node_base *m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; } } if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { _Rb_tree_node_base *m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; } } }
    return y;
}
}

// --- standard streams ---------------------------------------------------------------
// Standard output is a buffered C stream: what fits the buffer is accepted, and fails or is lost when flushed.
struct SxStd : std::streambuf {
    bool err; SxStd(bool e) : err(e) {}
    std::streamsize xsputn(const char *p, std::streamsize n) override { if (err) { SxFile *f = ffind("<stderr>"); if (!f) f = fmake("<stderr>"); f->data.append(p, (size_t)n); return n; } g_out->append(p, (size_t)n); if (g_out->size() >= 4096) return flushout() ? n : 0; return n; }
    int overflow(int c) override { if (c == -1) return 0; char b = (char)c; return xsputn(&b, 1) == 1 ? c : -1; }
    int sync() override { return err || flushout() ? 0 : -1; }
};
alignas(std::ostream) char sx_cout[sizeof(std::ostream)] asm("_ZSt4cout"); alignas(std::ostream) char sx_cerr[sizeof(std::ostream)] asm("_ZSt4cerr"); alignas(std::ostream) char sx_clog[sizeof(std::ostream)] asm("_ZSt4clog"); alignas(std::istream) char sx_cin[sizeof(std::istream)] asm("_ZSt3cin");
__attribute__((constructor(101))) static void sx_init_streams() {
    for (int i = 0; i < 256; ++i) { unsigned m = 0; bool u = i >= 'A' && i <= 'Z', l = i >= 'a' && i <= 'z', d = i >= '0' && i <= '9'; typedef std::ctype_base B; if (u) m |= B::upper; if (l) m |= B::lower; if (u || l) m |= B::alpha; if (d) m |= B::digit; if (d || (i >= 'a' && i <= 'f') || (i >= 'A' && i <= 'F')) m |= B::xdigit; if (i == ' ' || (i >= 9 && i <= 13)) m |= B::space; if (i >= 32 && i < 127) m |= B::print; if (i > 32 && i < 127 && !u && !l && !d) m |= B::punct; if (i < 32 || i == 127) m |= B::cntrl; std::sx_mask[i] = (B::mask)m; }
    using namespace std; sx_impl.ref = 1; sx_impl.facets = sx_facets; sx_impl.caches = sx_caches; sx_impl.n = 64; g_out = new string();
    sx_facets[ctype<char>::id._M_id()] = static_cast<const locale::facet *>(new ctype<char>(nullptr, false, 1)); sx_facets[codecvt<char, char, mbstate_t>::id._M_id()] = static_cast<const locale::facet *>(new codecvt<char, char, mbstate_t>(1)); sx_facets[num_put<char>::id._M_id()] = static_cast<const locale::facet *>(new SxNumPut());
    new (sx_cout) ostream(new SxStd(false)); new (sx_cerr) ostream(new SxStd(true)); new (sx_clog) ostream(new SxStd(true)); new (sx_cin) istream(nullptr); reinterpret_cast<ostream *>(sx_cerr)->setf(ios_base::unitbuf);
}
