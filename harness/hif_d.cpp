#include "hifdrv.hpp"
void run_hif_d(const vh::json &s, vh::Out &o) { vh::HifRun<double> r(s, o); r.go(); }
