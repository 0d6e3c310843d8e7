#include "clib.hpp"
void run_clib_z(const vh::json &s, vh::Out &o) { vh::CRun<std::complex<double>> r(s, o); r.go(); }
