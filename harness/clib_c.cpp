#include "clib.hpp"
void run_clib_c(const vh::json &s, vh::Out &o) { vh::CRun<std::complex<float>> r(s, o); r.go(); }
