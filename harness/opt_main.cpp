// Driver for options: names, text forms, verbosity flags and the C parameters.
#define HIF_THROW
#include "hifir.hpp"
#include "libhifir.h"
#include "vh.hpp"
using namespace vh;

static std::string txt(double v) {
  char b[64];
  for (int p = 6; p <= 17; ++p) { snprintf(b, 64, "%.*g", p, v); if (strtod(b, nullptr) == v) break; }
  return b;
}
#define REALS(X) X(tau_L) X(tau_U) X(kappa_d) X(kappa) X(alpha_L) X(alpha_U) X(rho) X(c_d) X(c_h) X(rrqr_cond) X(gamma) X(beta) X(nzp_thres)
#define INTS(X) X(N) X(verbose) X(rf_par) X(reorder) X(spd) X(check) X(pre_scale) X(symm_pre_lvls) X(threads) X(mumps_blr) X(fat_schur_1st) X(pivot) X(is_symm) X(no_pre) X(dense_thres)
static json all(const hif::Options &o) {
  json j = json::object();
#define X(n) j[#n] = txt(o.n);
  REALS(X)
#undef X
#define X(n) j[#n] = std::to_string(o.n);
  INTS(X)
#undef X
  return j;
}
#define SLOTS(X) X(LHF_DROPTOL_L) X(LHF_DROPTOL_U) X(LHF_COND_D) X(LHF_COND) X(LHF_ALPHA_L) X(LHF_ALPHA_U) X(LHF_VERBOSE) X(LHF_REORDER) X(LHF_SYMMPRELVLS) X(LHF_THREADS) X(LHF_RRQR_COND) X(LHF_PIVOT) X(LHF_BETA) X(LHF_ISSYMM) X(LHF_NOPRE) X(LHF_NZP_THRES) X(LHF_DENSE_THRES)
static json call(const double *c) {
  json j = json::object();
#define X(n) j[#n] = txt(c[n]);
  SLOTS(X)
#undef X
  return j;
}
template <class T> bool set(const std::string &n, T v, hif::Options &o, bool alias) { return alias ? hif::set_param_attr(n, v, o) : hif::set_option_attr(n, v, o); }

static void handle(const json &scn, Out &out) {
  hif::Options o = hif::get_default_options();
  double       c[LHF_NUMBER_PARAMS];
  for (double &x : c) x = -77;
  lhfSetDefaultParams(c);
  for (auto &op : scn["ops"]) {
    const std::string k = op["op"];
    json              e = {{"ev", k}};
    if (k == "set") {
      std::string v = op["v"][0];
      bool        r = op["real"] == 1 ? set<double>(op["name"], strtod(v.c_str(), nullptr), o, op["alias"] == 1) : set<int>(op["name"], atoi(v.c_str()), o, op["alias"] == 1);
      e["refused"] = r ? 1 : 0;
    } else if (k == "stream") {
      static const char *seps[] = {" ", "\n", "  \t"};
      std::string        s;
      for (auto &v : op["vals"]) s += v[0].get<std::string>() + seps[op["sep"].get<int>()];
      std::istringstream is(s);
      is >> o;
      e["good"] = !is.fail();
      e["good"] = is.fail() ? 0 : 1;
      std::string rest;
      if (is >> rest) e["good"] = 0;
    } else if (k == "verb") {
      if (op["c"] == 1) hif_enable_verbose(op["flag"], &o);
      else hif::enable_verbose(op["flag"], o);
    } else if (k == "repr") {
      std::istringstream is(hif::opt_repr(o));
      std::string        line;
      json               r = json::object(), now = all(o);
      bool               dup = false;
      while (std::getline(is, line)) {
        std::istringstream l(line);
        std::string        n, v;
        l >> n >> v;
        dup = dup || r.contains(n);
#define X(nm) if (n == #nm) v = std::abs(strtod(v.c_str(), nullptr) - o.nm) <= 5.1e-7 ? "near" : v;
        REALS(X)
#undef X
        r[n] = v;
      }
      if (dup) r["twice"] = "1";
      e["repr"] = r;
    } else if (k == "defaults") {
      switch (op["src"].get<int>()) {
        case 0: o = hif::get_default_options(); break;
        case 1: o = hif::get_default_params(); break;
        case 2: o = hif::DEFAULT_PARAMS; break;
        case 3: o = ::hif_get_default_options(); break;
        default: o = ::hif_get_default_params();
      }
    } else if (k == "cdef") {
      for (double &x : c) x = -77;
      lhfSetDefaultParams(c);
    } else if (k == "cset") {
      double      v = strtod(op["v"].get<std::string>().c_str(), nullptr);
      std::string w = op["what"];
      if (w == "droptol") lhfSetDroptol(v, c);
      else if (w == "alpha") lhfSetAlpha(v, c);
      else lhfSetKappa(v, c);
    } else if (k == "consts") {
      e["verbose"]  = {{"NONE", hif::VERBOSE_NONE}, {"WARN", hif::VERBOSE_WARN}, {"INFO", hif::VERBOSE_INFO}, {"PRE", hif::VERBOSE_PRE}, {"FAC", hif::VERBOSE_FAC}, {"PRE_TIME", hif::VERBOSE_PRE_TIME}, {"MEM", hif::VERBOSE_MEM}};
#ifdef NO_LHF_WARN
      e["cverbose"] = {{"NONE", LHF_VERBOSE_NULL}, {"WARN", -1}, {"INFO", LHF_VERBOSE_INFO}, {"PRE", LHF_VERBOSE_PRE}, {"FAC", LHF_VERBOSE_FAC}, {"PRE_TIME", LHF_VERBOSE_PRE_TIME}, {"MEM", LHF_VERBOSE_MEM}};
#else
      e["cverbose"] = {{"NONE", LHF_VERBOSE_NULL}, {"WARN", LHF_VERBOSE_WARN}, {"INFO", LHF_VERBOSE_INFO}, {"PRE", LHF_VERBOSE_PRE}, {"FAC", LHF_VERBOSE_FAC}, {"PRE_TIME", LHF_VERBOSE_PRE_TIME}, {"MEM", LHF_VERBOSE_MEM}};
#endif
      e["reorder"]  = {hif::REORDER_OFF, hif::REORDER_AUTO, hif::REORDER_AMD, hif::REORDER_RCM};
      e["creorder"] = {LHF_REORDER_OFF, LHF_REORDER_AUTO, LHF_REORDER_AMD, LHF_REORDER_RCM};
      e["pivot"]    = {hif::PIVOTING_OFF, hif::PIVOTING_ON, hif::PIVOTING_AUTO};
      e["cpivot"]   = {LHF_PIVOTING_OFF, LHF_PIVOTING_ON, LHF_PIVOTING_AUTO};
      e["nparams"]  = (int)LHF_NUMBER_PARAMS;
      json s = json::array();
#define X(n) s.push_back((int)n);
      SLOTS(X)
#undef X
      e["slots"] = s;
    }
    e["o"] = all(o);
    e["c"] = call(c);
    out.ev(e);
  }
}
int main(int argc, char **argv) { return run(argc, argv, handle); }
