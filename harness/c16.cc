// C16: field numbers
#include "pp.hh"
#include "protoref.hh"
#include "sizes.hh"
static bool allowed(const string &d, uint64_t &v) { v = sx_undigits(d.data(), d.size()); return (v >= 1) & (v <= 536870911) & !((v >= 19000) & (v <= 19999)); }
static string head(uint32_t k) { static const char *H[] = {"message M{int32 a=", "package p;message M{repeated string b=1;optional M2 a=", "message M{\nbool c = 3;\nbytes a = ", "message N{}message M{N a\n=/**/"}; return H[k]; }
static string tail(uint32_t k) { static const char *T[] = {";}", "[name=\"q\"];}message M2{}", ";\n}\n", ";}"}; return T[k]; }
static bool used(uint32_t k, uint64_t v) { return k == 1 ? v == 1 : k == 2 ? v == 3 : false; }
extern "C" void sx_main() {
    uint32_t k = sx_choose(4, "context");
#ifdef X_DIGITS
    // every decimal literal without leading zeros
    size_t n = 1 + sx_choose(X_DIGITS, "n"); string d = sx_string(n, "d"); int ok = 1; for (size_t i = 0; i < n; ++i) ok &= (d[i] >= (i == 0 && n > 1 ? '1' : '0')) & (d[i] <= '9'); sx_assume(ok);
    uint64_t v; bool want = allowed(d, v) && !used(k, v); Parsed r; run_parser(head(k) + d + tail(k), r); CHECK(r.ok == want, want ? "a valid number is accepted" : "an invalid number is rejected"); if (!r.ok) { sx_reach("rejected"); return; }
    const protogen::Field *f = nullptr; for (auto &m : r.p.messages) if (m->name == "M") for (auto &x : m->fields) if (x.name == "a") f = &x; CHECK(f && (uint32_t)f->index == (uint32_t)v, "the number is recorded exactly"); sx_reach("accepted");
#elif defined(X_LONG)
    // long literals: any digits around every place
    static const char *W[] = {"4294967295", "4294967296", "4294967297", "4294967298", "8589934593", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551618", "2147483647", "2147483648", "2147483649", "9223372036854775807", "9223372036854775808", "340282366920938463463374607431768211457", "536870912", "1073741825"};
    uint32_t wrap = sx_choose(18, "wrap"); if (wrap < 17) { Parsed q; run_parser(head(k) + W[wrap] + tail(k), q); CHECK(!q.ok, "a number out of range is rejected"); return; } // the values that a fixed-width conversion would wrap to
    size_t n = 11 + sx_choose(X_LONG - 10, "n"); string d(n, '0'); d[0] = "1459"[sx_choose(4, "first")]; string x = sx_string(3, "x"); for (char c : x) sx_assume((c >= '0') & (c <= '9')); size_t at = 1 + sx_choose((uint32_t)n - 3, "at"); d.replace(at, 3, x);
    Parsed r; run_parser(head(k) + d + tail(k), r); CHECK(!r.ok, "a number out of range is rejected"); sx_reach("rejected");
#elif defined(X_BIG)
    // many fields: a number used twice anywhere
    size_t n = size_up_to(X_BIG); string x = sx_string(3, "x"); for (char c : x) sx_assume((c >= '0') & (c <= '9')); sx_assume(x[0] >= '1'); uint32_t at = sx_choose(3, "at"); at = at == 0 ? 0 : at == 1 ? (uint32_t)n / 2 : (uint32_t)n - 1; string s = "message M{"; for (size_t i = 0; i < n; ++i) s += "bool f" + std::to_string(i) + "=" + (i == at ? x : k == 0 ? std::to_string(i + 1) : k == 1 ? std::to_string(n - i) : std::to_string(k == 2 ? i * 7 + 5 : i + 500)) + ";"; s += "}"; uint64_t v = sx_undigits(x.data(), 3); int dup = 0; for (size_t i = 0; i < n; ++i) if (i != at) dup |= v == (k == 0 ? i + 1 : k == 1 ? n - i : k == 2 ? i * 7 + 5 : i + 500);
    Parsed r; run_parser(s, r); bool d = sx_decide(dup); CHECK(r.ok == !d, d ? "a number used twice is rejected" : "different numbers are accepted"); sx_reach(d ? "rejected" : "accepted");
#else
    // two to four fields: numbers unique in a message, not across messages
    string a = sx_string(2, "a"), b = sx_string(2, "b"); char c = (char)sx_value<uint8_t>("c"); int ok = (c >= '0') & (c <= '9'); for (size_t i = 0; i < 2; ++i) ok &= (a[i] >= '0' + (i == 0)) & (a[i] <= '9') & (b[i] >= '0' + (i == 0)) & (b[i] <= '9'); sx_assume(ok);
    bool split = sx_choose(2, "split"), first = sx_choose(2, "first"); string s = "message M{int32 x=" + a + (first ? ";string z=100" : ";") + (first ? ";" : "") + "M2 y=" + b + ";" + (split ? "}message M2{" : "") + "bool w=1" + c + ";" + (split ? "}" : "}message M2{}");
    string w = string("1") + c; bool dup = a == b || (!split && (w == a || w == b)); Parsed r; run_parser(s, r); CHECK(r.ok == !dup, dup ? "a number used twice is rejected" : "different numbers are accepted"); sx_reach(dup ? "rejected" : "accepted");
#endif
}
