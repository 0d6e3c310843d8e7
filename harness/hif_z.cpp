#include "hifdrv.hpp"
void run_hif_z(const vh::json &s, vh::Out &o) { vh::HifRun<std::complex<double>> r(s, o); r.go(); }
