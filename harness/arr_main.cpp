// Driver for Array and DenseMatrix handles.  The element type allocates its
// arrays through its own operator new[], so that blocks are identified,
// counted, and can be made to fail; global allocations made by the library
// calls are balanced to find leaked bookkeeping.
#define HIF_THROW
#include <cstddef>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <cstdlib>
static long g_live = 0;
static bool g_in = false;
void *operator new(std::size_t n) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (g_in) ++g_live; return p; }
void  operator delete(void *p) noexcept { if (p && g_in) --g_live; std::free(p); }
void  operator delete(void *p, std::size_t) noexcept { if (p && g_in) --g_live; std::free(p); }
#include "hifir.hpp"
#include "vh.hpp"
using namespace vh;

struct Blk { int id; std::size_t n; };
static std::map<const void *, Blk> g_own;   // live own blocks
static std::map<const void *, int> g_ext;   // external memory
static int g_next = 0, g_bad = 0, g_fail = 0;
static const int FRESH = -777777;
static void *tracked(std::size_t n) {
  bool in = g_in; g_in = false;
  void *p = std::malloc(n ? n : 1);
  for (std::size_t i = 0; i + sizeof(int) <= n; i += sizeof(int)) *(int *)((char *)p + i) = FRESH;
  g_own[p] = Blk{++g_next, n};
  g_in = in;
  return p;
}
struct T {
  int v;
  T() = default;
  T(double x) : v((int)x) {}
  static void *operator new[](std::size_t n) { return tracked(n); }
  static void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { if (g_fail) { --g_fail; return nullptr; } return tracked(n); }
  static void  operator delete[](void *p) noexcept {
    if (!p) return;
    bool in = g_in; g_in = false;
    auto it = g_own.find(p);
    if (it == g_own.end()) ++g_bad; else { g_own.erase(it); std::free(p); }
    g_in = in;
  }
  static void operator delete[](void *p, const std::nothrow_t &) noexcept { T::operator delete[](p); }
};
struct Lib { Lib() { g_in = true; } ~Lib() { g_in = false; } };
static int blk(const void *p) {
  if (!p) return 0;
  auto i = g_own.find(p); if (i != g_own.end()) return i->second.id;
  auto j = g_ext.find(p); if (j != g_ext.end()) return j->second;
  return -999;
}
static json live() {
  std::vector<int> l; for (auto &x : g_own) l.push_back(x.second.id);
  std::sort(l.begin(), l.end());
  return json(l);
}
static int isz(std::size_t n) { return n > 100000 ? 100000 : (int)n; }
template <class A> json hrec(const A &a) {
  json v = json::array();
  for (auto it = a.cbegin(); it != a.cend() && v.size() < 400; ++it) v.push_back((*it).v);
  return {{"b", blk(a.data())}, {"z", isz(a.size())}, {"c", isz(a.capacity())}, {"s", (int)a.status()}, {"e", a.empty() ? 1 : 0}, {"v", v}};
}
typedef hif::Array<T> Arr;
struct Ext { std::vector<std::vector<T>> m; };

static void arrays(const json &scn, Out &out) {
  const int H = 4;
  Ext ext;
  ext.m.resize(3);
  for (int k = 0; k < 3; ++k) { ext.m[k].resize(6); for (int i = 0; i < 6; ++i) ext.m[k][i].v = 100 * (k + 1) + i; g_ext[ext.m[k].data()] = -(k + 1); }
  std::set<T *> stolen;
  std::vector<std::unique_ptr<Arr>> h(H);
  { Lib l; for (auto &x : h) x.reset(new Arr()); }
  for (auto &o : scn["ops"]) {
    std::string op = o["op"];
    json e = {{"ev", op}, {"err", 0}, {"ret", json::array()}};
    Arr &a = *h[o["a"].get<int>() - 1], &b = *h[o["b"].get<int>() - 1];
    std::unique_ptr<Arr> &ha = h[o["a"].get<int>() - 1];
    std::size_t n = o["n"];
    std::vector<T> vals; for (auto &x : o["vs"]) vals.push_back(T(x.get<int>()));
    T *xd = ext.m[o["x"].get<int>() - 1].data();
    g_fail = o["f"];
    const long live0 = g_live;  // a refusal builds its message
    try {
      if (op == "default") { Lib l; ha.reset(new Arr()); }
      else if (op == "new") { Lib l; ha.reset(new Arr(n)); }
      else if (op == "newv") { Lib l; ha.reset(new Arr(n, vals[0])); }
      else if (op == "copyext") { Lib l; ha.reset(new Arr(n, xd)); }
      else if (op == "wrap") { Lib l; if (o["how"] == 0) ha.reset(new Arr(n, xd, true)); else if (o["how"] == 1) ha.reset(new Arr(hif::wrap_array(n, xd))); else ha.reset(new Arr(hif::wrap_const_array(n, (const T *)xd))); }
      else if (op == "conv") { hif::Array<double> t(b.size()); for (std::size_t i = 0; i < b.size(); ++i) t[i] = b[i].v; { Lib l; ha.reset(new Arr(t)); } }
      else if (op == "share") { Lib l; ha.reset(new Arr(b)); }
      else if (op == "clone") { Lib l; ha.reset(new Arr(b, true)); }
      else if (op == "move") { Lib l; ha.reset(new Arr(std::move(b))); }
      else if (op == "asg") { Lib l; a = b; }
      else if (op == "masg") { Lib l; a = std::move(b); }
      else if (op == "swap") { Lib l; a.swap(b); }
      else if (op == "set") { Lib l; if (o["how"] == 0) a[n] = vals[0]; else if (o["how"] == 1) a.at(n) = vals[0]; else *(a.begin() + n) = vals[0]; }
      else if (op == "setext") { xd[n] = vals[0]; }
      else if (op == "resize") { Lib l; if (o["how"] == 0) a.resize(n); else a.resize(n, false); }
      else if (op == "reserve") { Lib l; a.reserve(n); }
      else if (op == "push") { Lib l; a.push_back(vals[0]); }
      else if (op == "pushr") { Lib l; if (o["how"] == 0) a.push_back(vals.begin(), vals.end()); else a.push_back_n(vals.begin(), vals.size()); }
      else if (op == "steal") {
        T *d = (T *)1; std::size_t s = 77, c = 77;
        { Lib l; hif::steal_array_ownership(a, d, s, c); }
        e["ret"] = {blk(d), isz(s), isz(c)};
        if (d) stolen.insert(d);
      } else if (op == "at") { const Arr &ca = a; e["ret"] = json::array({o["how"] == 0 ? a.at(n).v : ca.at(n).v}); }
      else if (op == "idx") { const Arr &ca = a; e["ret"] = json::array({o["how"] == 0 ? a[n].v : ca[n].v}); }
      else if (op == "ends") { const Arr &ca = a; e["ret"] = json::array({o["how"] == 0 ? a.front().v : ca.front().v, o["how"] == 0 ? a.back().v : ca.back().v, isz(a.end() - a.begin())}); }
    } catch (std::exception &) { e["err"] = 1; g_in = false; g_live = live0; }
    g_fail = 0;
    e["h"] = json::array();
    for (auto &x : h) e["h"].push_back(hrec(*x));
    e["live"] = live(); e["bad"] = g_bad;
    out.ev(e);
  }
  { Lib l; h.clear(); }
  for (T *p : stolen) delete[] p;
  out.ev({{"ev", "fini"}, {"live", live()}, {"bad", g_bad}, {"leak", (int)g_live}});
  g_ext.clear();
}

typedef hif::DenseMatrix<T> DM;
template <class Cs> Cs sparse(const json &o, std::size_t n1, std::size_t n2, bool rows) {
  Cs m(n1, n2);
  std::size_t outer = rows ? n1 : n2, nz = 0;
  m.ind_start().resize(outer + 1); m.ind_start()[0] = 0;
  m.inds().resize(n1 * n2); m.vals().resize(n1 * n2);
  for (std::size_t i = 0; i < outer; ++i) {
    for (auto &t : o["ents"]) { std::size_t r = t[0], c = t[1]; if ((rows ? r : c) != i) continue; m.inds()[nz] = (int)(rows ? c : r); m.vals()[nz++] = t[2].get<int>(); }
    m.ind_start()[i + 1] = nz;
  }
  m.inds().resize(nz); m.vals().resize(nz);
  return m;
}
static void matrices(const json &scn, Out &out) {
  const int H = 3;
  Ext ext; ext.m.resize(3);
  for (int k = 0; k < 3; ++k) { ext.m[k].resize(12); for (int i = 0; i < 12; ++i) ext.m[k][i].v = 100 * (k + 1) + i; g_ext[ext.m[k].data()] = -(k + 1); }
  std::vector<std::unique_ptr<DM>> h(H);
  { Lib l; for (auto &x : h) x.reset(new DM()); }
  for (auto &o : scn["ops"]) {
    std::string op = o["op"];
    json e = {{"ev", op}, {"err", 0}, {"ret", json::array()}};
    DM &a = *h[o["a"].get<int>() - 1], &b = *h[o["b"].get<int>() - 1];
    std::unique_ptr<DM> &ha = h[o["a"].get<int>() - 1];
    std::size_t n1 = o["n1"], n2 = o["n2"];
    T v(o["v"].get<int>());
    T *xd = ext.m[o["x"].get<int>() - 1].data();
    const long live0 = g_live;  // a refusal builds its message
    try {
      if (op == "default") { Lib l; ha.reset(new DM()); }
      else if (op == "square") { Lib l; ha.reset(new DM(n1)); }
      else if (op == "new") { Lib l; ha.reset(new DM(n1, n2)); }
      else if (op == "newv") { Lib l; ha.reset(new DM(n1, n2, v)); }
      else if (op == "copyext") { Lib l; ha.reset(new DM(n1, n2, xd)); }
      else if (op == "wrap") { Lib l; ha.reset(new DM(n1, n2, xd, true)); }
      else if (op == "conv") { hif::DenseMatrix<double> t(b.nrows(), b.ncols(), 0.0); for (std::size_t i = 0; i < b.nrows(); ++i) for (std::size_t j = 0; j < b.ncols(); ++j) t(i, j) = b(i, j).v; { Lib l; ha.reset(new DM(t)); } }
      else if (op == "share") { Lib l; ha.reset(new DM(b)); }
      else if (op == "clone") { Lib l; ha.reset(new DM(b, true)); }
      else if (op == "move") { Lib l; ha.reset(new DM(std::move(b))); }
      else if (op == "asg") { Lib l; a = b; }
      else if (op == "masg") { Lib l; a = std::move(b); }
      else if (op == "resize") { Lib l; a.resize(n1, n2); }
      else if (op == "set") { Lib l; if (o["how"] == 0) a(n1, n2) = v; else if (o["how"] == 1) a[n1 + n2 * a.nrows()] = v; else *(a.col_begin(n2) + n1) = v; }
      else if (op == "crs" || op == "ccs") {
        if (op == "crs") { auto m = sparse<hif::CRS<double, int>>(o, n1, n2, true); if (o["how"] == 0) { Lib l; a.copy_sparse(m); } else { Lib l; ha.reset(new DM(DM::from_sparse(m))); } }
        else { auto m = sparse<hif::CCS<double, int>>(o, n1, n2, false); if (o["how"] == 0) { Lib l; a.copy_sparse(m); } else { Lib l; ha.reset(new DM(DM::from_sparse(m))); } }
      } else if (op == "row") {
        const DM &ca = a; json r = json::array();
        if (o["how"] == 0) for (auto it = a.row_begin(n1); it != a.row_end(n1); ++it) r.push_back((*it).v);
        else if (o["how"] == 1) for (auto it = ca.row_cbegin(n1); it != ca.row_cend(n1); it++) r.push_back(it->v);
        else { auto it = ca.row_end(n1); while (it != ca.row_begin(n1)) { --it; r.insert(r.begin(), (*it).v); } }
        e["ret"] = r;
      } else if (op == "col") {
        const DM &ca = a; json r = json::array();
        if (o["how"] == 0) for (auto it = a.col_begin(n1); it != a.col_end(n1); ++it) r.push_back((*it).v);
        else for (auto it = ca.col_cbegin(n1); it != ca.col_cend(n1); ++it) r.push_back((*it).v);
        e["ret"] = r;
      } else if (op == "at") { const DM &ca = a; e["ret"] = json::array({o["how"] == 0 ? a(n1, n2).v : ca(n1, n2).v}); }
    } catch (std::exception &) { e["err"] = 1; g_in = false; g_live = live0; }
    e["h"] = json::array(); e["d"] = json::array();
    for (auto &x : h) { e["h"].push_back(hrec(x->array())); e["d"].push_back({isz(x->nrows()), isz(x->ncols()), x->is_squared() ? 1 : 0, isz(x->size()), (int)x->status(), x->empty() ? 1 : 0}); }
    e["live"] = live(); e["bad"] = g_bad;
    out.ev(e);
  }
  { Lib l; h.clear(); }
  out.ev({{"ev", "fini"}, {"live", live()}, {"bad", g_bad}, {"leak", (int)g_live}});
  g_ext.clear();
}
int main(int c, char **v) {
  return run(c, v, [](const json &s, Out &o) {
    g_own.clear(); g_next = g_bad = g_fail = 0; g_live = 0; g_in = false;
    if (s["kind"] == "arr") arrays(s, o); else matrices(s, o);
  });
}
