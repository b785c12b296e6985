// C26: headers generated from different files, included together in any order
#ifdef X_REVERSED
#include "nameson.pg.hh"
#include "rbytes.pg.hh"
#include "lists.pg.hh"
#include "bytes.pg.hh"
#include "types.pg.hh"
#else
#include "types.pg.hh"
#include "bytes.pg.hh"
#include "lists.pg.hh"
#include "rbytes.pg.hh"
#include "nameson.pg.hh"
#endif
#include "types.pg.hh"
#include "bytes.pg.hh"
#ifdef X_PROBE
int main() { t::Mix a; u::Mix b; b::By c; n::M d; std::string s; return !(a.serialize(s) & b.serialize(s) & c.serialize(s) & d.serialize(s)); }
#else
#include "rt.hh"
extern "C" void sx_main() {
    uint8_t x = sx_value<uint8_t>("x"); char c = (char)sx_value<uint8_t>("c"); string s, k; sx_assume(x < 100);
    switch (sx_choose(4, "message")) {
        case 0: { t::Mix a, z; u::Mix b, y; a.i = x; b.i = x; a.rs.push_back(string(1, c)); b.rs.push_back(string(1, c)); a.rm.emplace_back(); b.rm.emplace_back(); b.rm.back().a = a.rm.back().a = 1; CHECK(a.serialize(s) && b.serialize(k), "serialize succeeds"); CHECK(same(s, k), "the same text"); CHECK(z.deserialize(k) && y.deserialize(s), "deserialize succeeds"); CHECK(z == a && y == b, "the same message"); break; }
        case 1: { b::By a, z; a.v = std::vector<uint8_t>{x, (uint8_t)c}; CHECK(a.serialize(s) && z.deserialize(s) && z == a, "the same message"); break; }
        case 2: { n::M a, z; a.color = x; CHECK(a.serialize(s) && z.deserialize(s) && z == a, "the same message"); break; }
        default: { u::m_double a; t::m_double z; a.v = 0.5; a.r.push_back(x); CHECK(a.serialize(s) && z.deserialize(s), "the same message"); CHECK((double)z.v == 0.5 && z.r.size() == 1 && z.r[0] == x, "the same message"); } }
    sx_reach("together"); }
#endif
