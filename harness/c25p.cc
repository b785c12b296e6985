// Compiled only when c25c.cc does not: does the generated header have the documented classes and members?
#ifdef X_LISTS
#include "alll.pg.hh"
namespace NS = gl;
#else
#include "all.pg.hh"
namespace NS = ga::b;
#endif
#include "alltypes.hh"
#include <list>
#include <vector>
#include <type_traits>
template <class A, class B> struct same { static_assert(std::is_same<A, B>::value, "documented type"); };
NS::All a; NS::Hid h; NS::Big b; NS::Nil nil; NS::Only only; ::Free fr; ::other::x::In oi; ::other::x::In2 o2;
#define X(T, S, E) static same<decltype(a.s_##T), S> same_##T; typedef decltype(a.r_##T) r_##T; typedef decltype(a.o_##T) o_##T; typedef decltype(h.s_##T) hs_##T; typedef decltype(h.r_##T) hr_##T;
ALL_TYPES(X)
#define M(K) typedef decltype(b.f##K) b##K;
M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(31) M(32) M(62) M(63)
typedef decltype(h.first) t1; typedef decltype(h.last) t2; typedef decltype(only.a) t3; typedef decltype(only.b) t4; typedef decltype(fr.i) t5; typedef decltype(oi.z) t6; typedef decltype(oi.two.q) t7;
