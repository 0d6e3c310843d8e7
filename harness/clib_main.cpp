#include "vh.hpp"
void run_clib_d(const vh::json &, vh::Out &);
void run_clib_s(const vh::json &, vh::Out &);
void run_clib_z(const vh::json &, vh::Out &);
void run_clib_c(const vh::json &, vh::Out &);
int main(int c, char **v) {
  return vh::run(c, v, [](const vh::json &s, vh::Out &o) {
    std::string t = s["ty"];
    if (t == "d") run_clib_d(s, o); else if (t == "s") run_clib_s(s, o); else if (t == "z") run_clib_z(s, o); else run_clib_c(s, o);
  });
}
