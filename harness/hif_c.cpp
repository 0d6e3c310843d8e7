#include "hifdrv.hpp"
void run_hif_c(const vh::json &s, vh::Out &o) { vh::HifRun<std::complex<float>> r(s, o); r.go(); }
