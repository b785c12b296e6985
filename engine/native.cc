// Native replay runtime: feeds recorded inputs to a harness built with the real libraries and sanitizers.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <iostream>
#include <locale>
#include <locale.h>
#include <thread>
#include <sys/resource.h>
#include <sys/stat.h>
#include <dlfcn.h>
#include <errno.h>
struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
extern "C" void __sanitizer_set_report_fd(void *);
static FILE *g_diag; static FILE *dg() { return g_diag ? g_diag : stderr; } static void (*g_exit)(int);
static std::string real(const char *n) { return !strcmp(n, "<stdout>") ? "cap.stdout" : n; }
static int g_errpipe = -1; static std::string g_errtext, g_rname, g_cname; static long g_rat = -1;
static void drain() { fflush(stderr); std::cerr.flush(); char b[4096]; ssize_t k; while (g_errpipe >= 0 && (k = read(g_errpipe, b, sizeof b)) > 0) g_errtext.append(b, (size_t)k); }
extern "C" {
// paths are relative to the scratch directory the replay runs in
void sx_file_put(const char *n, const void *p, size_t k) { if (n[0] == '/' || strstr(n, "..")) _exit(78); FILE *f = fopen(n, "w"); if (k) fwrite(p, 1, k, f); fclose(f); }
void sx_file_mkdir(const char *n) { if (n[0] == '/' || strstr(n, "..")) _exit(78); mkdir(n, 0755); }
long sx_file_size(const char *n) { if (!strcmp(n, "<stderr>")) { drain(); return g_errtext.empty() ? -1 : (long)g_errtext.size(); } struct stat st; return stat(real(n).c_str(), &st) ? -1 : (long)st.st_size; }
void sx_file_get(const char *n, void *p) { if (!strcmp(n, "<stderr>")) { drain(); memcpy(p, g_errtext.data(), g_errtext.size()); return; } FILE *f = fopen(real(n).c_str(), "r"); long k = sx_file_size(n); if (k > 0 && fread(p, 1, (size_t)k, f) != (size_t)k) _exit(78); fclose(f); }
// faults that no file system here would give
static bool same_file(int fd, const char *n) { struct stat a, b; return !fstat(fd, &a) && !stat(n, &b) && a.st_dev == b.st_dev && a.st_ino == b.st_ino; }
void sx_file_rfault(const char *n, long at) { g_rname = n; g_rat = at; }
void sx_file_cfault(const char *n) { g_cname = n; }
ssize_t read(int fd, void *p, size_t n) { static auto f = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read"); if (g_rat >= 0 && same_file(fd, g_rname.c_str())) { long pos = (long)lseek(fd, 0, SEEK_CUR); if (pos >= g_rat) { errno = EIO; return -1; } if ((long)n > g_rat - pos) n = (size_t)(g_rat - pos); } return f(fd, p, n); }
int fclose(FILE *h) { static auto f = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose"); bool bad = !g_cname.empty() && same_file(fileno(h), g_cname.c_str()) && (fcntl(fileno(h), F_GETFL) & O_ACCMODE) != O_RDONLY; int r = f(h); if (bad) { errno = EIO; return EOF; } return r; }
void sx_file_limit(long n) { signal(SIGXFSZ, SIG_IGN); struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = n < 0 ? r.rlim_max : (rlim_t)n; setrlimit(RLIMIT_FSIZE, &r); }
void sx_capture(void) { int d = dup(2); g_diag = fdopen(d, "w"); setbuf(g_diag, nullptr); __sanitizer_set_report_fd((void *)(long)d); fflush(stdout); dup2(open("cap.stdout", O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644), 1); int q[2]; if (pipe(q)) _exit(78); fcntl(q[0], F_SETFL, O_NONBLOCK); g_errpipe = q[0]; dup2(q[1], 2); }
void sx_onexit(void (*f)(int)) { g_exit = f; }
__attribute__((noreturn)) void exit(int c) { if (!g_exit) _exit(c); std::cout.flush(); fflush(nullptr); g_exit(c); fprintf(dg(), "replay: completed\n"); _exit(0); }
}
static std::vector<std::pair<std::string, std::string>> in; static size_t pos;
static std::string nextv(const char *name) { if (pos >= in.size()) { fprintf(dg(), "replay: no more inputs at %s\n", name); _exit(78); } if (in[pos].first != name) { fprintf(dg(), "replay: input %s expected %s\n", in[pos].first.c_str(), name); _exit(78); } return in[pos++].second; }
extern "C" {
void sx_bytes(void *p, size_t n, const char *name) {
    std::string v = nextv(name); if (v.size() != 1 + 2 * n) { fprintf(dg(), "replay: size of %s\n", name); _exit(78); }
    for (size_t i = 0; i < n; ++i) ((unsigned char *)p)[i] = (unsigned char)strtoul(v.substr(1 + 2 * i, 2).c_str(), nullptr, 16);
}
uint32_t sx_choose(uint32_t n, const char *name) { std::string v = nextv(name); uint32_t k = (uint32_t)strtoul(v.c_str() + 1, nullptr, 10); if (k >= n) _exit(78); return k; }
void sx_assume(int c) { if (!c) { fprintf(dg(), "replay: assumption false\n"); _exit(77); } }
void sx_check(int c, const char *m) { if (!c) { fprintf(dg(), "CHECK FAILED: %s\n", m); fflush(nullptr); _exit(66); } }
void sx_known(int c, const char *id) { if (c) { fprintf(dg(), "KNOWN: %s\n", id); _exit(79); } }
void sx_reach(const char *) { }
void sx_tag(const char *) { }
void sx_end(void) { _exit(0); }
int sx_decide(int c) { return c ? 1 : 0; }
int sx_native(void) { return 1; }
int sx_issym(uint64_t) { return 0; }
void sx_locale(int k) { if (k & 4) std::locale::global(std::locale(std::locale::classic(), new Punct)); if ((k & 1) && !setlocale(LC_ALL, "xx_comma")) _exit(78); if (k & 2) { locale_t l = newlocale(LC_ALL_MASK, "xx_comma", nullptr); if (!l) _exit(78); uselocale(l); } if (k & 8) { std::locale::global(std::locale::classic()); uselocale(LC_GLOBAL_LOCALE); setlocale(LC_ALL, "C"); } }
static bool g_threads;
void sx_threads(void (*f)(void *), void *p) { g_threads = true; std::thread a(f, p), b(f, p); a.join(); b.join(); g_threads = false; }
// libc is not instrumented
char *setlocale(int c, const char *n) { static auto f = (char *(*)(int, const char *))dlsym(RTLD_NEXT, "setlocale"); if (g_threads && n) { fprintf(dg(), "race: setlocale\n"); _exit(98); } return f(c, n); }
uint64_t sx_undigits(const char *p, size_t n) { unsigned __int128 r = 0; for (size_t i = 0; i < n; ++i) r = r * 10 + (unsigned)(p[i] - '0'); return (uint64_t)r; }
void sx_print(const char *l, const void *p, size_t n) { fprintf(dg(), "[%s] ", l); for (size_t i = 0; i < n; ++i) { unsigned char c = ((const unsigned char *)p)[i]; fprintf(dg(), c >= 32 && c < 127 ? "%c" : "\\x%02x", c); } fprintf(dg(), "\n"); }
}
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r"); if (!f) return 78; char *line = nullptr; size_t cap = 0;
    while (getline(&line, &cap, f) > 0) { std::string s(line); while (!s.empty() && (s.back() == '\n')) s.pop_back(); size_t t = s.find('\t'); if (t == std::string::npos) continue; if (s[0] == '#') continue; in.push_back({s.substr(0, t), s.substr(t + 1)}); }
    fclose(f); free(line); sx_main(); fprintf(dg(), "replay: completed\n"); return 0;
}
