// C25: the generated header, compiled: documented types, and members that are read and written unless they are transient
#ifdef X_LISTS
#include "alll.pg.hh"
#else
#include "all.pg.hh"
#endif
#include "rt.hh"
#include <type_traits>
#ifdef X_LISTS
namespace NS = gl; template <class T> using C = std::list<T>;
#else
namespace NS = ga::b; template <class T> using C = std::vector<T>;
#endif
#include "alltypes.hh"
template <class A, class B> static bool is() { return std::is_same<A, B>::value; }
static uint8_t digit() { uint8_t x = sx_value<uint8_t>("x"); sx_assume((x >= 1) & (x <= 9)); return x; }
template <class T> static typename std::enable_if<std::is_arithmetic<T>::value && !std::is_floating_point<T>::value>::type put(PG::field<T> &f) { f = (T)digit(); }
static void put(PG::field<bool> &f) { f = true; } static void put(PG::field<double> &f) { f = 1.5; } static void put(PG::field<float> &f) { f = 2.5f; }
static void put(PG::string_field &f) { f = sx_plain(1, "s"); } static void put(std::vector<uint8_t> &f) { f.assign(3, 0x41); } static void put(NS::In &m) { m.t = sx_plain(1, "s"); }
static void put(double &v) { v = 3; } static void put(float &v) { v = 4; } static void put(bool &v) { v = true; }
template <class T> static typename std::enable_if<std::is_integral<T>::value>::type put(T &v) { v = (T)digit(); }
template <class T> static void list(T &l) { typename T::value_type v; put(v); l.push_back(v); }
static void list(std::vector<bool> &l) { l.push_back(true); }
static void put(C<bool> &l) { l.push_back(true); } static void put(C<PG::string_field> &l) { list(l); }
// the value of a member in JSON, for the transient ones
static const char *doc(uint32_t t, bool rep) { static const char *const S[] = {"1.5", "2.5", "3", "4", "5", "6", "7", "8", "9", "1", "2", "3", "true", "\"x\"", "\"QUFB\"", "{\"u\":1}"}; static string r; r = rep ? string("[") + S[t] + "]" : S[t]; return r.c_str(); }
template <class M> static void taken(M &m, const char *name) { // m has one member set
    string j; CHECK(m.serialize(j), "serialize"); string head = string("{\"") + name + "\":"; CHECK(j.size() > head.size() + 1 && same(j.substr(0, head.size()), head) && j[j.size() - 1] == '}', "a set member is written under its name"); CHECK(!m.empty(), "not empty");
    M n; CHECK(n.deserialize(j), "deserialize"); CHECK(n == m, "a member that was written is read"); M z; CHECK(z.empty() && !(z == m), "differs from a default constructed message"); sx_reach("persistent"); }
template <class M> static void ignored(M &m, const char *name, const char *value) {
    string j; CHECK(m.serialize(j), "serialize"); CHECK(j == "{}", "a transient member is not written"); M n; CHECK(n.deserialize(string("{\"") + name + "\":" + value + "}"), "a transient member is skipped"); M z; CHECK(n == z && n.empty(), "a transient member is not read"); sx_reach("transient"); }
extern "C" void sx_main() {
    NS::All a; NS::Hid h; NS::Big b; NS::Nil nil; NS::Only only; ::Free fr; ::other::x::In oi; ::other::x::In2 o2;
    CHECK(std::is_class<NS::All>::value && std::is_class<NS::Nil>::value && !(is<NS::In, ::other::x::In>()), "messages are classes in the namespaces of their packages");
#define X(T, S, E) CHECK((is<decltype(a.s_##T), S>()) && (is<decltype(a.o_##T), S>()) && (is<decltype(h.s_##T), S>()), "the type of a singular " #T " field"); CHECK((is<decltype(a.r_##T), C<E>>()) || (string(#T) == "bytes" && is<decltype(a.r_##T), std::vector<E>>()), "the type of a repeated " #T " field"); CHECK((is<decltype(a.r_##T), decltype(h.r_##T)>()), "the type of a transient repeated " #T " field");
    ALL_TYPES(X)
#undef X
    CHECK((is<decltype(oi.two), ::other::x::In2>()) && (is<decltype(o2.q), C<PG::string_field>>()) && (is<decltype(only.b), C<NS::In>>()) && (is<decltype(fr.i), PG::field<int32_t>>()) && (is<decltype(oi.z), PG::field<bool>>()), "types of members");
    uint32_t t = 0, pick = sx_choose(16, "type"), kind = sx_choose(7, "kind");
    if (kind == 5) { // 64 fields
        uint32_t q = sx_choose(4, "part"), n = q * 16 + pick, i = 0;
#define F1(K) if (i++ == n) { put(b.f##K); if (K % 9 == 8) ignored(b, "f" #K, doc((K) % 15, false)); else taken(b, "f" #K); }
#define F8(A, B, C_, D, E, F, G, H) F1(A) F1(B) F1(C_) F1(D) F1(E) F1(F) F1(G) F1(H)
        F8(0, 1, 2, 3, 4, 5, 6, 7) F8(8, 9, 10, 11, 12, 13, 14, 15) F8(16, 17, 18, 19, 20, 21, 22, 23) F8(24, 25, 26, 27, 28, 29, 30, 31) F8(32, 33, 34, 35, 36, 37, 38, 39) F8(40, 41, 42, 43, 44, 45, 46, 47) F8(48, 49, 50, 51, 52, 53, 54, 55) F8(56, 57, 58, 59, 60, 61, 62, 63)
        return; }
    if (kind == 6) { switch (pick) { case 0: put(h.first); taken(h, "first"); break; case 1: put(h.last); taken(h, "last"); break; case 2: put(only.a); ignored(only, "a", "\"x\""); break; case 3: list(only.b); ignored(only, "b", "[{}]"); break; case 4: put(fr.i); taken(fr, "i"); break; case 5: put(oi.z); taken(oi, "z"); break; case 6: list(oi.two.q); taken(oi, "two"); break; case 7: { string j; CHECK(nil.serialize(j) && j == "{}" && nil.empty(), "a message without fields"); CHECK(nil.deserialize(string("{\"x\":1}")), "a message without fields"); break; } default: sx_end(); } return; }
#define X(T, S, E) if (t++ == pick) switch (kind) { case 0: put(a.s_##T); taken(a, "s_" #T); break; case 1: list(a.r_##T); taken(a, "r_" #T); break; case 2: put(a.o_##T); taken(a, "o_" #T); break; case 3: put(h.s_##T); ignored(h, "s_" #T, doc(pick, false)); break; default: list(h.r_##T); ignored(h, "r_" #T, doc(pick, true)); }
    ALL_TYPES(X)
}
