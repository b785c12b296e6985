// Running the real parser
#pragma once
#include <protogen/proto3.hh>
#include "rt.hh"
struct Parsed { bool ok = false; protogen::Proto3 p; string what; int line = 0, column = 0; };
static void run_parser(const string &src, Parsed &r, const char *file = "f.proto") {
    std::istringstream is(src);
    try { r.p.parse(is, file); r.ok = true; } catch (protogen::exception &e) { r.what = e.what(); r.line = e.line; r.column = e.column; CHECK(!r.what.empty(), "the diagnostic has a message"); }
}
