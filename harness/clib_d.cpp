#include "clib.hpp"
void run_clib_d(const vh::json &s, vh::Out &o) { vh::CRun<double> r(s, o); r.go(); }
