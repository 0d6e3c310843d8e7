#include "vh.hpp"
void run_hif_d(const vh::json &, vh::Out &);
void run_hif_s(const vh::json &, vh::Out &);
void run_hif_z(const vh::json &, vh::Out &);
void run_hif_c(const vh::json &, vh::Out &);
int main(int c, char **v) {
  return vh::run(c, v, [](const vh::json &s, vh::Out &o) {
    std::string t = s["ty"];
    if (t == "d") run_hif_d(s, o); else if (t == "s") run_hif_s(s, o); else if (t == "z") run_hif_z(s, o); else run_hif_c(s, o);
  });
}
