#include "hifdrv.hpp"
void run_hif_s(const vh::json &s, vh::Out &o) { vh::HifRun<float> r(s, o); r.go(); }
