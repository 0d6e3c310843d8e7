// Driver for the C library: replays call histories and compares with the C++
// preconditioner.  One translation unit per value type; libhifir.cpp is a
// translation unit of its own.
#pragma once
#define HIF_THROW
#include <complex>
#include "hifir.hpp"
#include "libhifir.h"
#include "mats.hpp"
#include <map>
#include <memory>

namespace vh {
template <class V> struct Api;
#define VH_API(P, V, CV)                                                                                    \
  template <> struct Api<V> {                                                                               \
    typedef Lhf##P##MatrixHdl MH; typedef Lhf##P##HifHdl HH;                                                \
    static MH mk(int r, size_t n, const LhfIndPtr *p, const LhfInt *i, const V *v) { return lhf##P##CreateMatrix(r, n, p, i, (const CV *)v); } \
    static LhfStatus wrap(MH m, size_t n, const LhfIndPtr *p, const LhfInt *i, const V *v) { return lhf##P##WrapMatrix(m, n, p, i, (const CV *)v); } \
    static LhfStatus rm(MH m) { return lhf##P##DestroyMatrix(m); }                                          \
    static size_t msize(MH m) { return lhf##P##GetMatrixSize(m); }                                          \
    static size_t mnnz(MH m) { return lhf##P##GetMatrixNnz(m); }                                            \
    static LhfStatus readsp(const char *f, MH m) { return lhf##P##ReadSparse(f, m); }                       \
    static LhfStatus readv(const char *f, size_t n, V *v) { return lhf##P##ReadVector(f, n, (CV *)v); }     \
    static HH create(MH a, MH s, const double *p) { return lhf##P##Create(a, s, p); }                       \
    static LhfStatus setup(HH h, MH a, MH s, const double *p) { return lhf##P##Setup(h, a, s, p); }         \
    static LhfStatus update(HH h, MH a) { return lhf##P##Update(h, a); }                                    \
    static LhfStatus refac(HH h, MH s, const double *p) { return lhf##P##Refactorize(h, s, p); }            \
    static LhfStatus apply(HH h, LhfOperationType o, const V *b, int N, const double *be, int r, V *x, int *ir) { return lhf##P##Apply(h, o, (const CV *)b, N, be, r, (CV *)x, ir); } \
    static LhfStatus solve(HH h, const V *b, V *x) { return lhf##P##Solve(h, (const CV *)b, (CV *)x); }     \
    static LhfStatus stats(HH h, size_t *s) { return lhf##P##GetStats(h, s); }                              \
    static size_t nnz(HH h) { return lhf##P##GetNnz(h); }                                                   \
    static size_t levels(HH h) { return lhf##P##GetLevels(h); }                                             \
    static size_t ssize(HH h) { return lhf##P##GetSchurSize(h); }                                           \
    static size_t srank(HH h) { return lhf##P##GetSchurRank(h); }                                           \
    static LhfStatus destroy(HH h) { return lhf##P##Destroy(h); }                                           \
  };
VH_API(d, double, double)
VH_API(s, float, float)
VH_API(z, std::complex<double>, double _Complex)
VH_API(c, std::complex<float>, float _Complex)

// the double-precision side of a single-precision preconditioner
template <class V> struct Mixed {  // none
  typedef V D;
  static const bool has = false;
  static LhfStatus update(typename Api<V>::HH, typename Api<D>::MH) { return LHF_BAD_PREC; }
  static LhfStatus apply(typename Api<V>::HH, LhfOperationType, const D *, int, const double *, int, D *, int *) { return LHF_BAD_PREC; }
  static LhfStatus solve(typename Api<V>::HH, const D *, D *) { return LHF_BAD_PREC; }
};
#define VH_MIX(P, V, DV, CV)                                                                                \
  template <> struct Mixed<V> {                                                                             \
    typedef DV D; static const bool has = true;                                                             \
    static LhfStatus update(Api<V>::HH h, Api<D>::MH a) { return lhf##P##Update(h, a); }                    \
    static LhfStatus apply(Api<V>::HH h, LhfOperationType o, const D *b, int N, const double *be, int r, D *x, int *ir) { return lhf##P##Apply(h, o, (const CV *)b, N, be, r, (CV *)x, ir); } \
    static LhfStatus solve(Api<V>::HH h, const D *b, D *x) { return lhf##P##Solve(h, (const CV *)b, (CV *)x); } \
  };
VH_MIX(sd, float, double, double)
VH_MIX(cz, std::complex<float>, std::complex<double>, double _Complex)

inline double num(const json &v) { return v.is_array() ? v[0].get<double>() / v[1].get<double>() : v.get<double>(); }
struct PName { const char *n; int slot; };
static const PName PNAMES[] = {{"tau_L", LHF_DROPTOL_L}, {"tau_U", LHF_DROPTOL_U}, {"kappa_d", LHF_COND_D}, {"kappa", LHF_COND}, {"alpha_L", LHF_ALPHA_L},
  {"alpha_U", LHF_ALPHA_U}, {"verbose", LHF_VERBOSE}, {"reorder", LHF_REORDER}, {"symm_pre_lvls", LHF_SYMMPRELVLS}, {"threads", LHF_THREADS}, {"rrqr_cond", LHF_RRQR_COND},
  {"pivot", LHF_PIVOT}, {"beta", LHF_BETA}, {"is_symm", LHF_ISSYMM}, {"no_pre", LHF_NOPRE}, {"nzp_thres", LHF_NZP_THRES}, {"dense_thres", LHF_DENSE_THRES}};
inline double cxx_get(const hif::Options &p, const std::string &k) {
#define G(F) if (k == #F) return (double)p.F
  G(tau_L); G(tau_U); G(kappa_d); G(kappa); G(alpha_L); G(alpha_U); G(verbose); G(reorder); G(symm_pre_lvls); G(threads); G(rrqr_cond); G(pivot); G(beta); G(is_symm); G(no_pre); G(nzp_thres); G(dense_thres);
#undef G
  throw std::runtime_error("bad parameter " + k);
}
inline void cxx_set(hif::Options &p, const std::string &k, double v) {
#define S(F) if (k == #F) { p.F = (decltype(p.F))v; return; }
  S(tau_L) S(tau_U) S(kappa_d) S(kappa) S(alpha_L) S(alpha_U) S(verbose) S(reorder) S(symm_pre_lvls) S(threads) S(rrqr_cond) S(pivot) S(beta) S(is_symm) S(no_pre) S(nzp_thres) S(dense_thres)
#undef S
  throw std::runtime_error("bad parameter " + k);
}

template <class V> struct Arrays {
  std::vector<LhfIndPtr> ptr;
  std::vector<LhfInt>    ind;
  std::vector<V>         val;
  void make(const IMat &A, bool row, const std::string &bad) {
    ptr.push_back(0);
    for (int i = 0; i < A.n; ++i) {
      for (int j = 0; j < A.n; ++j) {
        int a = row ? i : j, b = row ? j : i;
        if (A.nz[a][b]) { ind.push_back(j); val.push_back(Traits<V>::mk(A.re[a][b], A.im[a][b])); }
      }
      ptr.push_back((LhfIndPtr)ind.size());
    }
    // one corruption; the arrays stay as long as the pointer array says
    int n = A.n;
    if (bad == "oob") ind.back() = n;
    else if (bad == "neg") ind[0] = -1;
    else if (bad == "none") { for (auto &p : ptr) p = 0; }
    else if (bad == "dec") { if (n >= 2) std::swap(ptr[1], ptr[2]); else ptr[1] = -1; if (n >= 2 && ptr[1] <= ptr[2]) ptr[1] = ptr[2] + 1; }
    else if (bad == "unsorted" || bad == "dup") {  // every matrix with a bad form has at least two entries in some line
      for (int i = 0; i < n; ++i) if (ptr[i + 1] - ptr[i] >= 2) {
        if (bad == "dup") ind[ptr[i] + 1] = ind[ptr[i]]; else std::swap(ind[ptr[i]], ind[ptr[i] + 1]);
        return;
      }
      ind[0] = n + 3;
    }
  }
  std::string print() const { return bits(ptr.data(), ptr.size() * sizeof(LhfIndPtr)) + bits(ind.data(), ind.size() * sizeof(LhfInt)) + bits(val.data(), val.size() * sizeof(V)); }
};

template <class V> struct CRun {
  typedef Api<V> P; typedef Traits<V> T; typedef Mixed<V> MX; typedef typename MX::D D; typedef Api<D> PD;
  typedef hif::HIF<V, LhfInt, LhfIndPtr> Ref;
  const json &scn;
  Out &out;
  struct M { typename P::MH h = nullptr; typename PD::MH d = nullptr; int row = 0; };
  std::map<int, M> mh;
  std::map<int, typename P::HH> hh;
  std::map<std::pair<int, int>, std::unique_ptr<Arrays<V>>> av;
  std::map<std::pair<int, int>, std::unique_ptr<Arrays<D>>> ad;
  std::map<std::string, std::string> prints;
  std::map<std::array<int, 3>, std::shared_ptr<Ref>> refs;
  std::string dir;
  CRun(const json &s, Out &o) : scn(s), out(o) { const char *d = getenv("VH_SCRATCH"); dir = d ? d : "."; }
  IMat mat(int m) {
    const json &j = scn["mats"][m - 1];
    IMat        A = make_matrix(j["fam"], j["n"], j["seed"], T::cplx);
    if (A.nnz() == 0) A.set(0, 0, 3);  // a matrix without entries is not factorizable
    return A;
  }
  int  size(int m) { return scn["mats"][m - 1]["n"]; }
  Arrays<V> &arr(int m, int row) {
    auto &p = av[{m, row}];
    if (!p) { p.reset(new Arrays<V>()); p->make(mat(m), row, scn["mats"][m - 1]["bad"]); prints["v" + std::to_string(m) + "," + std::to_string(row)] = p->print(); }
    return *p;
  }
  Arrays<D> &arrd(int m, int row) {
    auto &p = ad[{m, row}];
    if (!p) { p.reset(new Arrays<D>()); p->make(mat(m), row, scn["mats"][m - 1]["bad"]); prints["d" + std::to_string(m) + "," + std::to_string(row)] = p->print(); }
    return *p;
  }
  int inputs_same() {
    for (auto &x : av) if (prints["v" + std::to_string(x.first.first) + "," + std::to_string(x.first.second)] != x.second->print()) return 0;
    for (auto &x : ad) if (prints["d" + std::to_string(x.first.first) + "," + std::to_string(x.first.second)] != x.second->print()) return 0;
    return 1;
  }
  std::vector<double> cpar(int k) {
    std::vector<double> p(LHF_NUMBER_PARAMS);
    lhfSetDefaultParams(p.data());
    const json &o = scn["pars"][k - 1];
    for (auto it = o.begin(); it != o.end(); ++it)
      for (auto &pn : PNAMES) if (it.key() == pn.n) p[pn.slot] = num(it.value());
    p[LHF_VERBOSE] = 0;
    return p;
  }
  hif::Options xpar(int k) {
    hif::Options p = hif::get_default_options();
    if (k) { const json &o = scn["pars"][k - 1]; for (auto it = o.begin(); it != o.end(); ++it) cxx_set(p, it.key(), num(it.value())); p.verbose = 0; }
    return p;
  }
  Ref &ref(const json &key) {
    std::array<int, 3> k{{key[0].get<int>(), key[1].get<int>(), key[2].get<int>()}};
    auto &r = refs[k];
    if (!r) {
      r.reset(new Ref());
      auto &a = arr(k[0], k[1]);
      if (k[1]) r->template factorize<true>((std::size_t)size(k[0]), a.ptr.data(), a.ind.data(), a.val.data(), xpar(k[2]));
      else r->template factorize<false>((std::size_t)size(k[0]), a.ptr.data(), a.ind.data(), a.val.data(), xpar(k[2]));
    }
    return *r;
  }
  typename P::MH H(int h) { return h ? mh[h].h : nullptr; }
  typename PD::MH HD(int h) { return h ? mh[h].d : nullptr; }

  template <class W> static std::vector<W> rhs(size_t n, uint64_t seed) {
    Rng r(seed + 91); std::vector<W> b(n);
    for (auto &x : b) { int p = r.in(-5, 5), q = r.in(-5, 5); x = Traits<W>::mk(p, q); }
    return b;
  }
  template <class W, class ArrT> void apply_cmp(const json &c, json &e, const ArrT *Aarr, std::function<LhfStatus(const W *, W *, int *)> call) {
    const size_t n = std::max(1, c["n"].get<int>() + 0);
    std::vector<W> b = rhs<W>(n, c["b"].get<uint64_t>()), b0 = b, x(n), x0;
    for (auto &v : x) v = Traits<W>::mk(77, 3);
    x0 = x;
    int ir[3] = {-9, -9, -9};
    LhfStatus st = call(b.data(), x.data(), ir);
    e["st"] = (int)st;
    e["same"] = (int)(bits(x.data(), n * sizeof(W)) == bits(x0.data(), n * sizeof(W)));
    if (bits(b.data(), n * sizeof(W)) != bits(b0.data(), n * sizeof(W))) e["inputs"] = 0;
    e["ir"] = json::array(); e["refir"] = json::array();
    if (st != LHF_SUCCESS || c["ref"].empty()) return;
    // the C++ preconditioner on the same request
    Ref &R = ref(c["ref"]);
    const bool tran = c["what"] == 1 || c["what"] == 3, mult = c["what"] == 2 || c["what"] == 3;
    int N = c["N"], r = c["r"];
    hif::Array<W> bb(n), xx(n);
    std::copy(b0.begin(), b0.end(), bb.begin());
    if (c["viasolve"] == 1 && c["what"] == 0 && N <= 1) r = -2;
    if (mult) { if (r == -2) R.mmultiply(bb, xx, tran); else R.mmultiply(bb, xx, tran, (size_t)r); }
    else if (N <= 1) { if (r == -2) R.solve(bb, xx, tran); else R.solve(bb, xx, tran, (size_t)r); }
    else {
      if (!Aarr) { e["st"] = -1; return; }
      int rows = c["aref"][1].get<int>();
      auto run = [&](const auto &A) {
        if (c["betas"].empty()) { if (r == -2) R.hifir(A, bb, N, xx, tran); else R.hifir(A, bb, N, xx, tran, (size_t)r); }
        else {
          double be[2] = {num(c["betas"][0]), num(c["betas"][1])};
          auto info = r == -2 ? R.hifir(A, bb, N, be, xx, tran) : R.hifir(A, bb, N, be, xx, tran, (size_t)r);
          if (c["irs"] == 1) { e["ir"] = {ir[0], ir[1]}; e["refir"] = {(int)info.first, (int)info.second}; if (ir[2] != -9) e["inputs"] = 0; }
        }
      };
      if (rows) run(hif::wrap_const_crs(n, n, Aarr->ptr.data(), Aarr->ind.data(), Aarr->val.data(), false));
      else run(hif::wrap_const_ccs(n, n, Aarr->ptr.data(), Aarr->ind.data(), Aarr->val.data(), false));
    }
    long double mx = 0, df = 0; int rf = 1, f = 1;
    for (size_t i = 0; i < n; ++i) {
      long double a = std::abs(std::complex<long double>(Traits<W>::re(xx[i]), Traits<W>::im(xx[i])));
      long double d = std::abs(std::complex<long double>(Traits<W>::re(xx[i]) - (long double)Traits<W>::re(x[i]), Traits<W>::im(xx[i]) - (long double)Traits<W>::im(x[i])));
      if (!std::isfinite((double)a)) rf = 0;
      if (!std::isfinite((double)std::abs(x[i]))) f = 0;
      mx = std::max(mx, a); df = std::max(df, d);
    }
    e["reffin"] = rf; e["fin"] = f;
    e["err"] = q(mx > 0 ? df / mx : df, 24);
  }
  void stats(const json &c, json &e) {
    auto h = hh[c["o"]];
    size_t s[9];
    for (auto &x : s) x = 4242;
    e["st"] = (int)P::stats(h, s);
    json g = json::array(), w = json::array();
    for (auto x : s) g.push_back(x);
    g.push_back(P::nnz(h)); g.push_back(P::levels(h)); g.push_back(P::ssize(h)); g.push_back(P::srank(h));
    if (!c["ref"].empty()) {
      Ref &R = ref(c["ref"]);
      w = {R.nnz(), R.stats(0), R.stats(1), R.stats(4), R.stats(5), R.levels(), R.rank(), R.schur_rank(), R.schur_size(), R.nnz(), R.levels(), R.schur_size(), R.schur_rank()};
    }
    e["got"] = g; e["want"] = w;
  }
  void defaults(json &e) {
    std::vector<double> p(LHF_NUMBER_PARAMS + 1, -77);
    e["st"] = (int)lhfSetDefaultParams(p.data());
    json g = json::array(), w = json::array();
    hif::Options o = hif::get_default_options();
    for (auto &pn : PNAMES) { g.push_back(q(p[pn.slot], 16)); w.push_back(q(cxx_get(o, pn.n), 16)); }
    g.push_back(q(p[LHF_NUMBER_PARAMS], 16)); w.push_back(q(-77, 16));
    e["got"] = g; e["want"] = w;
    int ok = 1;
    auto chk = [&](LhfStatus s, std::vector<double> now, std::vector<int> slots, double v) {
      if (s != LHF_SUCCESS) ok = 0;
      for (int i = 0; i <= LHF_NUMBER_PARAMS; ++i) {
        bool in = std::find(slots.begin(), slots.end(), i) != slots.end();
        if (now[i] != (in ? v : p[i])) ok = 0;
      }
    };
    auto t = p; LhfStatus s = lhfSetDroptol(0.125, t.data()); chk(s, t, {LHF_DROPTOL_L, LHF_DROPTOL_U}, 0.125);
    t = p; s = lhfSetAlpha(7.5, t.data()); chk(s, t, {LHF_ALPHA_L, LHF_ALPHA_U}, 7.5);
    t = p; s = lhfSetKappa(2.25, t.data()); chk(s, t, {LHF_COND, LHF_COND_D}, 2.25);
    e["sets"] = ok;
    int v[3]; lhfGetVersions(v);
    e["ver"] = {v[0], v[1], v[2]}; e["wantver"] = {HIF_GLOBAL_VERSION, HIF_MAJOR_VERSION, HIF_MINOR_VERSION};
  }
  // ---------------------------------------------------------- Matrix Market
  std::string write_file(const json &c, const std::string &what) {
    static int cnt = 0;
    std::string fn = dir + "/f" + std::to_string(getpid()) + "_" + std::to_string(cnt++) + ".mm", k = c["file"];
    if (k == "missing") return fn;
    IMat A = mat(c["m"]);
    std::ofstream f(fn);
    if (k == "empty") return fn;
    if (k == "garbage") { f << "this is no matrix\n1 2 3\n"; return fn; }
    std::string fld = T::cplx ? "complex" : "real";
    f << (k == "badbanner" ? "%%MatrixMarket tensor " : "%%MatrixMarket matrix ") << (what == "sp" ? "coordinate " : "array ") << fld << " general\n% comment\n";
    auto v = [&](int re, int im) { f << re << (T::cplx ? " " + std::to_string(im) : std::string()) << "\n"; };
    if (what == "sp") {
      if (k == "badsize") { f << A.n << " x\n"; return fn; }
      f << A.n << " " << A.n << " " << A.nnz() << "\n";
      int left = k == "trunc" ? A.nnz() / 2 : A.nnz();
      for (int j = 0; j < A.n; ++j) for (int i = 0; i < A.n; ++i) if (A.nz[i][j] && left-- > 0) { f << i + 1 << " " << j + 1 << " "; v(A.re[i][j], A.im[i][j]); }
    } else {
      if (k == "badsize") { f << "abc\n"; return fn; }
      auto b = rhs<V>(A.n, c.value("b", 5));
      f << A.n << " 1\n";
      for (int i = 0; i < (k == "trunc" ? A.n / 2 : A.n); ++i) v((int)T::re(b[i]), (int)T::im(b[i]));
    }
    return fn;
  }
  void mmq(const json &c, json &e) {
    std::string fn = write_file(c, c["kind"]);
    int sp = -1, re = -1; size_t nr = 99, nc = 99, nz = 99;
    e["st"] = (int)lhfQueryMmFile(fn.c_str(), &sp, &re, &nr, &nc, &nz);
    IMat A = mat(c["m"]);
    bool s = c["kind"] == "sp";
    e["got"] = {sp != 0, re != 0, nr, nc, nz};
    e["want"] = {s, !T::cplx, A.n, s ? A.n : 0, s ? A.nnz() : 0};
    unlink(fn.c_str());
  }
  void mmread(const json &c, json &e) {
    std::string fn = write_file(c, "sp");
    IMat A = mat(c["m"]);
    Arrays<V> a, w;
    int row = c["row"], n = A.n + c["dn"].get<int>();
    w.make(A, row, "");
    a.ptr.assign(A.n + 3, 5); a.ind.assign(A.nnz() + 2, 6); a.val.assign(A.nnz() + 2, T::mk(9, 0));
    std::string p0 = a.print();
    auto h = c["null"] == 1 ? nullptr : P::mk(row, n, a.ptr.data(), a.ind.data(), a.val.data());
    e["st"] = (int)P::readsp(fn.c_str(), h);
    e["same"] = (int)(p0 == a.print());
    bool tail = a.ptr[A.n + 1] == 5 && a.ind[A.nnz()] == 6 && a.val[A.nnz()] == T::mk(9, 0);
    a.ptr.resize(A.n + 1); a.ind.resize(A.nnz()); a.val.resize(A.nnz());
    e["match"] = (int)(tail && a.ptr == w.ptr && a.ind == w.ind && a.val == w.val);
    P::rm(h);
    unlink(fn.c_str());
  }
  void mmvec(const json &c, json &e) {
    std::string fn = write_file(c, "de");
    IMat A = mat(c["m"]);
    size_t n = A.n + c["dn"].get<int>();
    std::vector<V> v(A.n + 2, T::mk(9, 0)), v0 = v, w = rhs<V>(A.n, c["b"].get<uint64_t>());
    e["st"] = (int)P::readv(fn.c_str(), n, v.data());
    e["same"] = (int)(v == v0);
    e["match"] = (int)(std::equal(w.begin(), w.end(), v.begin()) && v[A.n] == v0[0]);
    unlink(fn.c_str());
  }

  void go() {
    for (auto &c : scn["ops"]) {
      std::string op = c["op"];
      json e = {{"ev", op}, {"c", c}, {"st", 0}, {"inputs", 1}};
      std::vector<double> pv;
      const double *pp = nullptr;
      if (c.count("k") && c["k"] != 0) { pv = cpar(c["k"]); pp = pv.data(); }
      if (op == "mat") {
        M &m = mh[c["h"]]; m.row = c["row"];
        int mm = c["m"];
        if (mm) {
          auto &a = arr(mm, m.row); m.h = P::mk(m.row, size(mm), a.ptr.data(), a.ind.data(), a.val.data());
          if (MX::has) { auto &d = arrd(mm, m.row); m.d = PD::mk(m.row, size(mm), d.ptr.data(), d.ind.data(), d.val.data()); }
        } else { m.h = P::mk(m.row, 5, nullptr, nullptr, nullptr); if (MX::has) m.d = PD::mk(m.row, 5, nullptr, nullptr, nullptr); }
      } else if (op == "mdestroy") {
        M &m = mh[c["h"]];
        e["st"] = (int)P::rm(m.h); m.h = nullptr;
        if (MX::has) { PD::rm(m.d); m.d = nullptr; }
      } else if (op == "wrap") {
        int h = c["h"], mm = c["m"];
        int row = h ? mh[h].row : 0;
        if (mm) {
          auto &a = arr(mm, row); e["st"] = (int)P::wrap(H(h), size(mm), a.ptr.data(), a.ind.data(), a.val.data());
          if (MX::has) { auto &d = arrd(mm, row); PD::wrap(HD(h), size(mm), d.ptr.data(), d.ind.data(), d.val.data()); }
        } else {
          auto &a = arr(1, row);  // one missing piece at a time
          switch (out.sid % 4) {
            case 0: e["st"] = (int)P::wrap(H(h), 3, nullptr, a.ind.data(), a.val.data()); break;
            case 1: e["st"] = (int)P::wrap(H(h), 3, a.ptr.data(), nullptr, a.val.data()); break;
            case 2: e["st"] = (int)P::wrap(H(h), 3, a.ptr.data(), a.ind.data(), nullptr); break;
            default: e["st"] = (int)P::wrap(H(h), 0, a.ptr.data(), a.ind.data(), a.val.data());
          }
        }
      } else if (op == "msize") {
        int h = c["h"];
        e["n"] = P::msize(H(h)); e["nnz"] = (long long)P::mnnz(H(h));
        { int m = c["aref"][0]; e["wantnnz"] = m ? mat(m).nnz() : 0; }
      } else if (op == "create") {
        auto h = P::create(H(c["A"]), H(c["S"]), pp);
        hh[c["o"]] = h;
        e["st"] = h ? 0 : 4;
      } else if (op == "setup") e["st"] = (int)P::setup(hh[c["o"]], H(c["A"]), H(c["S"]), pp);
      else if (op == "refac") e["st"] = (int)P::refac(hh[c["o"]], H(c["S"]), pp);
      else if (op == "update") e["st"] = (int)(c["mixed"] == 1 ? MX::update(hh[c["o"]], HD(c["A"])) : P::update(hh[c["o"]], H(c["A"])));
      else if (op == "destroy") { e["st"] = (int)P::destroy(hh[c["o"]]); hh[c["o"]] = nullptr; }
      else if (op == "errmsg") {
        const char *m = lhfGetErrorMsg(); e["first"] = (int)(m != nullptr && m[0] != 0);
        m = lhfGetErrorMsg(); e["second"] = (int)(m != nullptr);
      } else if (op == "stats") stats(c, e);
      else if (op == "defaults") defaults(e);
      else if (op == "mmq") mmq(c, e);
      else if (op == "mmread") mmread(c, e);
      else if (op == "mmvec") mmvec(c, e);
      else if (op == "apply") {
        auto h = hh[c["o"]];
        double be[2]; const double *bp = nullptr;
        if (!c["betas"].empty()) { be[0] = num(c["betas"][0]); be[1] = num(c["betas"][1]); bp = be; }
        int N = c["N"], r = c["r"], what = c["what"], am = c["aref"][0], arow = c["aref"][1];
        bool vs = c["viasolve"] == 1 && what == 0 && N <= 1, irs = c["irs"] == 1;
        if (c["mixed"] == 1) apply_cmp<D, Arrays<D>>(c, e, am ? &arrd(am, arow) : nullptr, [&](const D *b, D *x, int *ir) { return vs ? MX::solve(h, b, x) : MX::apply(h, (LhfOperationType)what, b, N, bp, r, x, irs ? ir : nullptr); });
        else apply_cmp<V, Arrays<V>>(c, e, am ? &arr(am, arow) : nullptr, [&](const V *b, V *x, int *ir) { return vs ? P::solve(h, b, x) : P::apply(h, (LhfOperationType)what, b, N, bp, r, x, irs ? ir : nullptr); });
      } else throw std::runtime_error("bad op " + op);
      if (!inputs_same()) e["inputs"] = 0;
      out.ev(e);
    }
    for (auto &x : hh) P::destroy(x.second);
    for (auto &x : mh) { P::rm(x.second.h); if (MX::has) PD::rm(x.second.d); }
    lhfGetErrorMsg();  // leave no message for the next scenario
  }
};
}  // namespace vh
