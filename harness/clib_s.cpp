#include "clib.hpp"
void run_clib_s(const vh::json &s, vh::Out &o) { vh::CRun<float> r(s, o); r.go(); }
