// Driver for the C++ preconditioner object: replays operation histories chosen
// by the specification on hif::HIF and records what a user can observe.
#pragma once
#define HIF_THROW
#include "hifir.hpp"
#include "mats.hpp"
#include <memory>
#include <map>
#include <thread>

namespace vh {

template <class V> struct OtherPrec;  // same numbers, other precision
template <> struct OtherPrec<double> { typedef float type; };
template <> struct OtherPrec<float> { typedef double type; };
template <> struct OtherPrec<std::complex<double>> { typedef std::complex<float> type; };
template <> struct OtherPrec<std::complex<float>> { typedef std::complex<double> type; };

template <class V, class Ptr = std::ptrdiff_t>
struct RawCs {
  std::vector<Ptr> ptr;
  std::vector<int> ind;
  std::vector<V>   val;
  RawCs(const IMat &A, bool row, int base) {
    int outer = row ? A.n : A.m, inner = row ? A.m : A.n;
    ptr.push_back(base);
    for (int i = 0; i < outer; ++i) {
      for (int j = 0; j < inner; ++j) {
        int a = row ? i : j, b = row ? j : i;
        if (A.nz[a][b]) { ind.push_back(j + base); val.push_back(Traits<V>::mk(A.re[a][b], A.im[a][b])); }
      }
      ptr.push_back((Ptr)ind.size() + base);
    }
  }
  std::string print() const {
    return bits(ptr.data(), ptr.size() * sizeof(Ptr)) + bits(ind.data(), ind.size() * sizeof(int)) + fpv(val.data(), val.size());
  }
};

inline void set_opts(const json &o, hif::Options &p) {
  p         = hif::get_default_options();
  p.verbose = 0;
  p.threads = 1;
  if (o.value("complete", false)) { p.tau_L = p.tau_U = 0; p.alpha_L = p.alpha_U = 1e4; }
  if (o.value("ml", false)) { p.dense_thres = 1; p.c_d = 1; p.rho = 1; }
  for (auto it = o.begin(); it != o.end(); ++it) {
    const std::string &k = it.key();
    if (k == "complete" || k == "ml") continue;
    // rational values are written as [num, den]
    double v = it.value().is_array() ? it.value()[0].get<double>() / it.value()[1].get<double>() : it.value().get<double>();
    if (k == "tau_L") p.tau_L = v; else if (k == "tau_U") p.tau_U = v;
    else if (k == "kappa") p.kappa = v; else if (k == "kappa_d") p.kappa_d = v;
    else if (k == "alpha_L") p.alpha_L = v; else if (k == "alpha_U") p.alpha_U = v;
    else if (k == "rho") p.rho = v; else if (k == "c_d") p.c_d = v; else if (k == "c_h") p.c_h = v;
    else if (k == "N") p.N = (int)v; else if (k == "rf_par") p.rf_par = (int)v;
    else if (k == "reorder") p.reorder = (int)v; else if (k == "spd") p.spd = (int)v;
    else if (k == "check") p.check = (int)v; else if (k == "pre_scale") p.pre_scale = (int)v;
    else if (k == "symm_pre_lvls") p.symm_pre_lvls = (int)v; else if (k == "threads") p.threads = (int)v;
    else if (k == "fat_schur_1st") p.fat_schur_1st = (int)v; else if (k == "rrqr_cond") p.rrqr_cond = v;
    else if (k == "pivot") p.pivot = (int)v; else if (k == "gamma") p.gamma = v; else if (k == "beta") p.beta = v;
    else if (k == "is_symm") p.is_symm = (int)v; else if (k == "no_pre") p.no_pre = (int)v;
    else if (k == "nzp_thres") p.nzp_thres = v; else if (k == "dense_thres") p.dense_thres = (int)v;
    else throw std::runtime_error("bad option " + k);
  }
}

template <class V>
struct HifRun {
  typedef hif::HIF<V, int>          H;
  typedef hif::Array<V>             Arr;
  typedef Traits<V>                 T;
  typedef typename T::real          R;
  typedef typename H::crs_type      crs_t;
  typedef typename H::ccs_type      ccs_t;
  const json &            scn;
  Out &                   out;
  std::vector<IMat>       mats;
  std::vector<hif::Options> opts;
  struct Obj {
    std::shared_ptr<H> h;
    int                mat = -1, opt = -1, m0 = 0;
    std::string        rep = "crs0";
  };
  std::map<int, Obj> objs;

  HifRun(const json &s, Out &o) : scn(s), out(o) {}

  Obj &obj(int i) {
    auto &o = objs[i];
    if (!o.h) o.h.reset(new H());
    return o;
  }
  static Arr ints(int n, uint64_t seed, std::vector<int> *raw = nullptr, bool zero = false) {
    Rng r(seed + 77);
    Arr a(n);
    for (int i = 0; i < n; ++i) {
      int x = zero ? 0 : r.in(-5, 5), y = (T::cplx && !zero) ? r.in(-5, 5) : 0;
      a[i] = T::mk(x, y);
      if (raw) { raw->push_back(x); if (T::cplx) raw->push_back(y); }
    }
    return a;
  }
  // exact integer product (conjugate-)A x
  static void mulint(const IMat &A, const std::vector<int> &x, bool tran, Arr &b) {
    int n = A.n, s = T::cplx ? 2 : 1;
    for (int i = 0; i < n; ++i) {
      long long re = 0, im = 0;
      for (int j = 0; j < n; ++j) {
        long long a = tran ? A.re[j][i] : A.re[i][j], c = tran ? -A.im[j][i] : A.im[i][j];
        long long xr = x[s * j], xi = T::cplx ? x[s * j + 1] : 0;
        re += a * xr - c * xi; im += a * xi + c * xr;
      }
      b[i] = T::mk((int)re, (int)im);
    }
  }

  // factorize the given object; returns "" or the error message
  std::string factorize(Obj &o, int mi, int oi, int m0, const std::string &rep, bool *same = nullptr) {
    const IMat &A = mats[mi];
    const auto &p = opts[oi];
    std::string err;
    auto guard = [&](std::function<void()> f) {
      try { f(); } catch (std::exception &e) { err = e.what(); if (err.empty()) err = "error"; }
    };
    bool row = rep.find("ccs") == std::string::npos;
    int  base = rep.back() == '1' ? 1 : 0;
    if (rep.compare(0, 3, "oth") == 0) {  // other precision
      typedef typename OtherPrec<V>::type W;
      RawCs<W>    raw(A, row, base);
      std::string before = raw.print();
      typedef hif::CRS<W, int> ocrs;
      guard([&] { ocrs M(A.n, raw.ptr.data(), raw.ind.data(), raw.val.data(), true); o.h->factorize(M, p, m0); });
      if (same) *same = before == raw.print();
    } else if (rep.compare(0, 3, "ptr") == 0) {
      RawCs<V>    raw(A, row, base);
      std::string before = raw.print();
      guard([&] { o.h->template factorize<true>((std::size_t)A.n, raw.ptr.data(), raw.ind.data(), raw.val.data(), p, (std::size_t)m0); });
      if (same) *same = before == raw.print();
    } else if (rep.compare(0, 3, "ccp") == 0) {  // raw pointers, column-wise
      RawCs<V>    raw(A, false, base);
      std::string before = raw.print();
      guard([&] { o.h->template factorize<false>((std::size_t)A.n, raw.ptr.data(), raw.ind.data(), raw.val.data(), p, (std::size_t)m0); });
      if (same) *same = before == raw.print();
    } else {
      RawCs<V>    raw(A, row, base);
      std::string before = raw.print();
      if (row) guard([&] { crs_t M(A.n, raw.ptr.data(), raw.ind.data(), raw.val.data(), true); o.h->factorize(M, p, m0); });
      else guard([&] { ccs_t M(A.n, raw.ptr.data(), raw.ind.data(), raw.val.data(), true); o.h->factorize(M, p, m0); });
      if (same) *same = before == raw.print();
    }
    o.mat = mi; o.opt = oi; o.m0 = m0; o.rep = rep;
    return err;
  }
  json query(const H &h) {
    json e;
    e["empty"] = h.empty() ? 1 : 0;
    e["lev"] = (long)h.levels(); e["nnz"] = (long)h.nnz(); e["nnzef"] = (long)h.nnz_ef(); e["nnzldu"] = (long)h.nnz_ldu();
    e["rank"] = (long)h.rank(); e["srank"] = (long)h.schur_rank(); e["ssize"] = (long)h.schur_size();
    json st = json::array();
    if (!h.empty()) {
      e["nrows"] = (long)h.nrows(); e["ncols"] = (long)h.ncols();
      for (int i = 0; i < 6; ++i) st.push_back((long)h.stats(i));
    }
    e["stats"] = st;
    return e;
  }

  // singular values of the last level's dense block (one-sided Jacobi in long
  // double), observed as round(4*log2); zero is -4000
  static json dense_sv(const H &h) {
    json out = json::array();
    if (h.precs().empty()) return out;
    const auto &p  = h.precs().back();
    const long  d  = (long)p.n - (long)p.m;
    bool        sy = p.dense_solver.empty();
    if (!d || d > 64 || (sy && p.symm_dense_solver.empty())) return out;
    std::vector<std::vector<cld>> C(d, std::vector<cld>(d));  // columns
    for (long j = 0; j < d; ++j) for (long i = 0; i < d; ++i) {
      V v = sy ? (i >= j ? p.symm_dense_solver.mat_backup()(i, j) : p.symm_dense_solver.mat_backup()(j, i)) : p.dense_solver.mat_backup()(i, j);
      C[j][i] = cld(T::re(v), T::im(v));
      if (sy && i < j) C[j][i] = std::conj(C[j][i]);
      if (sy && i == j) C[j][i] = C[j][i].real();
    }
    auto dot = [&](long a, long b) { cld s = 0; for (long i = 0; i < d; ++i) s += std::conj(C[a][i]) * C[b][i]; return s; };
    for (int sweep = 0; sweep < 60; ++sweep) {
      long double off = 0;
      for (long a = 0; a < d; ++a) for (long b = a + 1; b < d; ++b) {
        long double x = dot(a, a).real(), y = dot(b, b).real(); cld g = dot(a, b); long double ag = std::abs(g);
        if (ag == 0 || x == 0 || y == 0 || ag * ag <= x * y * 1e-34L) continue;
        off = std::max(off, ag * ag / (x * y));
        cld ph = g / ag;  // make the pair real, then rotate
        long double z = (y - x) / (2 * ag), t = (z >= 0 ? 1 : -1) / (std::abs(z) + std::sqrt(1 + z * z)), c = 1 / std::sqrt(1 + t * t), s2 = c * t;
        for (long i = 0; i < d; ++i) { cld u = C[a][i], w = C[b][i] * std::conj(ph); C[a][i] = c * u - s2 * w; C[b][i] = s2 * u + c * w; }
      }
      if (off < 1e-32L) break;
    }
    std::vector<long double> sv;
    for (long a = 0; a < d; ++a) sv.push_back(std::sqrt(dot(a, a).real()));
    std::sort(sv.rbegin(), sv.rend());
    for (auto v : sv) out.push_back(!(v == v) || std::isinf((double)v) ? 4000 : (v < 1e-200L ? -4000 : (int)std::lround(4 * std::log2(v))));
    return out;
  }

  static int mag(const Arr &a) {  // log2 of the largest magnitude (at least 0)
    long double s = 1;
    for (std::size_t i = 0; i < a.size(); ++i) {
      long double m = std::abs(cld(T::re(a[i]), T::im(a[i])));
      if (!(m == m) || std::isinf((double)m)) return 200;
      s = std::max(s, m);
    }
    return (int)std::ceil(std::log2((double)s));
  }
  // ---- op results as (status, fingerprint, quantised) ----
  struct Res { std::string err, fp; json q = json::array(); };
  Res do_solve(H &h, const Arr &b, bool tr, std::size_t r) {
    Res z; Arr x(b.size());
    for (auto &v : x) v = V(12345);
    try { h.solve(b, x, tr, r); z.fp = fpa(x); z.q = qvec(x, x.size()); } catch (std::exception &e) { z.err = e.what(); }
    return z;
  }
  Res do_mult(H &h, const Arr &b, bool tr, std::size_t r) {
    Res z; Arr x(b.size());
    for (auto &v : x) v = V(12345);
    try { h.mmultiply(b, x, tr, r); z.fp = fpa(x); z.q = qvec(x, x.size()); } catch (std::exception &e) { z.err = e.what(); }
    return z;
  }
  template <std::size_t W>
  void mrhs(Obj &o, int n, uint64_t seed, std::size_t r, json &e) {
    typedef hif::Array<std::array<V, W>> MA;
    MA B(n), X(n);
    for (std::size_t k = 0; k < W; ++k) { Arr b = ints(n, seed + 31 * k); for (int i = 0; i < n; ++i) { B[i][k] = b[i]; X[i][k] = V(777); } }
    std::string b0 = fpv((V *)B.data(), n * W);
    std::string err;
    try { o.h->solve_mrhs(B, X, r); } catch (std::exception &ex) { err = ex.what(); }
    e["ok"] = err.empty() ? 1 : 0;
    e["bsame"] = b0 == fpv((V *)B.data(), n * W) ? 1 : 0;
    json cols = json::array(), single = json::array(), tols = json::array();
    if (err.empty())
      for (std::size_t k = 0; k < W; ++k) {
        Arr x(n), b = ints(n, seed + 31 * k);
        for (int i = 0; i < n; ++i) x[i] = X[i][k];
        cols.push_back(qvec(x, n));
        Obj f; fresh(f, o);
        single.push_back(do_solve(*f.h, b, false, r).q);
      }
    e["cols"] = cols; e["single"] = single; e["amp"] = err.empty() && o.mat >= 0 ? unitamp(o, false, r) : 0;
  }
  // log2 of (largest entry of M^-1) * (largest entry of M): bounds round-off
  int unitamp(Obj &o, bool tr, std::size_t r) {
    int nn = mats[o.mat].n, a = 0, b = 0;
    Obj f; fresh(f, o);
    for (int j = 0; j < nn; ++j) {
      Arr u(nn), x(nn);
      for (int i = 0; i < nn; ++i) u[i] = V(i == j ? 1 : 0);
      try { f.h->solve(u, x, tr, r); a = std::max(a, mag(x)); f.h->mmultiply(u, x, tr, r); b = std::max(b, mag(x)); } catch (std::exception &) { return 200; }
    }
    return a + b;
  }
  void fresh(Obj &f, const Obj &o) {
    f.h.reset(new H());
    factorize(f, o.mat, o.opt, o.m0, o.rep);
  }

  void go() {
    for (auto &m : scn["mats"]) {
      IMat A = make_matrix(m["fam"], m["n"], m["seed"], T::cplx && !m.value("real", false));
      mats.push_back(A);
      json e = {{"ev", "Mat"}, {"id", (int)mats.size()}, {"n", A.n}, {"nnz", A.nnz()}, {"rank", A.n > 150 ? -1 : exact_rank(A)}, {"cond", A.n > 150 ? 99 : cond_log2(A)}, {"fam", m["fam"]}};
      if (scn.value("logmat", false)) e["rows"] = jmat(A, T::cplx);
      out.ev(e);
    }
    for (auto &o : scn["opts"]) { hif::Options p; set_opts(o, p); opts.push_back(p); }
    for (auto &op : scn["ops"]) step(op);
  }

  void step(const json &op) {
    const std::string k = op["op"];
    Obj &             o = obj(op["o"]);
    json              e = {{"ev", k}, {"o", op["o"]}};
    auto              n = [&]() { return o.mat < 0 ? 3 : mats[o.mat].n; };
    bool              tr = op.value("tr", 0) != 0;
    std::size_t       r  = op.value("r", 0);
    uint64_t          sd = op.value("b", 1);
    if (k == "fac") {
      bool        same = true;
      int         mi = op["m"], oi = op["k"];
      std::string err = factorize(o, mi - 1, oi - 1, op.value("m0", 0), op.value("rep", std::string("crs0")), &same);
      e["m"] = mi; e["k"] = oi; e["m0"] = op.value("m0", 0); e["rep"] = op.value("rep", std::string("crs0"));
      { int lz = 0, m0 = op.value("m0", 0); if (!m0) m0 = mats[mi - 1].n;  // entries in the leading block
        for (int i = 0; i < m0; ++i) for (int j = 0; j < m0; ++j) lz += mats[mi - 1].nz[i][j]; e["lz"] = lz; }
      e["ok"] = err.empty() ? 1 : 0; e["err"] = err.substr(0, 160); e["same"] = same ? 1 : 0;
      e["sv"] = err.empty() ? dense_sv(*o.h) : json::array();
      if (err.empty()) e["q"] = query(*o.h);
      else e["q"] = {{"empty", o.h->empty() ? 1 : 0}};
      out.ev(e);
    } else if (k == "query") {
      e["q"] = query(*o.h);
      out.ev(e);
    } else if (k == "clear") {
      o.h->clear();
      e["q"] = query(*o.h);
      out.ev(e);
    } else if (k == "solve" || k == "mult") {
      int nn = n() + op.value("dn", 0);
      Arr b  = ints(nn, sd, nullptr, op.value("zero", 0) != 0);
      std::string b0 = fpa(b);
      Res z = k == "solve" ? do_solve(*o.h, b, tr, r) : do_mult(*o.h, b, tr, r);
      e["tr"] = tr; e["r"] = (int)r; e["b"] = (int)sd; e["dn"] = op.value("dn", 0); e["bn"] = nn;
      e["ok"] = z.err.empty() ? 1 : 0; e["fp"] = z.fp; e["q"] = z.q; e["bsame"] = b0 == fpa(b) ? 1 : 0;
      if (op.value("ref", 0) && z.err.empty() && o.mat >= 0) {  // the same call on a fresh object
        Obj f; fresh(f, o);
        f.h->nsp = o.h->nsp; f.h->nsp_tran = o.h->nsp_tran;
        Res y = k == "solve" ? do_solve(*f.h, b, tr, r) : do_mult(*f.h, b, tr, r);
        e["ref"] = y.fp;
      } else e["ref"] = "";
      out.ev(e);
    } else if (k == "exact") {  // A x0 -> solve ; multiply x0 -> A x0
      std::vector<int> x0;
      int nn = n();
      Arr x = ints(nn, sd, &x0), b(nn), y(nn), z(nn);
      mulint(mats[o.mat], x0, tr, b);
      std::string err;
      try { o.h->solve(b, y, tr); o.h->mmultiply(x, z, tr); } catch (std::exception &ex) { err = ex.what(); }
      e["ok"] = err.empty() ? 1 : 0; e["tr"] = tr;
      e["x0"] = x0; e["y"] = qvec(y, nn); e["z"] = qvec(z, nn, 16); 
      json bi = json::array();
      for (int i = 0; i < nn; ++i) { bi.push_back((long)T::re(b[i])); if (T::cplx) bi.push_back((long)T::im(b[i])); }
      e["b0"] = bi;
      out.ev(e);
    } else if (k == "inv") {  // solve(mult(x)) and mult(solve(x))
      std::vector<int> x0;
      int nn = n();
      Arr x = ints(nn, sd, &x0), y(nn), z(nn), u(nn), w(nn);
      std::string fx = fpa(x), err;
      try { o.h->mmultiply(x, y, tr, r); o.h->solve(y, z, tr, r); o.h->solve(x, u, tr, r); o.h->mmultiply(u, w, tr, r); } catch (std::exception &ex) { err = ex.what(); }
      e["ok"] = err.empty() ? 1 : 0; e["tr"] = tr; e["x0"] = x0; e["sm"] = qvec(z, nn); e["ms"] = qvec(w, nn);
      e["xsame"] = fx == fpa(x) ? 1 : 0;
      // magnitude of the intermediate vectors, log2: bounds the round-off
      e["amp"] = mag(y) + mag(u);
      out.ev(e);
    } else if (k == "lin") {  // homogeneity (exact, power of two) and additivity
      int nn = n();
      Arr a = ints(nn, sd), b = ints(nn, sd + 1), c(nn), d(nn), x(nn), y(nn), z(nn), w(nn);
      for (int i = 0; i < nn; ++i) { c[i] = a[i] + b[i]; d[i] = a[i] * V(4); }
      std::string err;
      bool        mm = op.value("mm", 0) != 0;
      auto f = [&](const Arr &in, Arr &res) { mm ? o.h->mmultiply(in, res, tr, r) : o.h->solve(in, res, tr, r); };
      try { f(a, x); f(b, y); f(c, z); f(d, w); } catch (std::exception &ex) { err = ex.what(); }
      for (int i = 0; i < nn; ++i) { w[i] /= R(4); }
      e["amp"] = unitamp(o, tr, r);
      e["ok"] = err.empty() ? 1 : 0; e["tr"] = tr; e["mm"] = mm ? 1 : 0;
      e["x"] = qvec(x, nn); e["y"] = qvec(y, nn); e["z"] = qvec(z, nn); e["w"] = qvec(w, nn);
      out.ev(e);
    } else if (k == "adj") {  // explicit matrices of the four operators (and rank r)
      int nn = n();
      const char *names[4] = {"S", "SH", "M", "MH"};
      std::string err;
      for (int w = 0; w < 4; ++w) {
        json cols = json::array();
        for (int j = 0; j < nn; ++j) {
          Arr u(nn), x(nn);
          for (int i = 0; i < nn; ++i) u[i] = V(i == j ? 1 : 0);
          try { if (w < 2) o.h->solve(u, x, w == 1, r); else o.h->mmultiply(u, x, w == 3, r); } catch (std::exception &ex) { err = ex.what(); }
          cols.push_back(qvec(x, nn));
        }
        e[names[w]] = cols;
      }
      e["ok"] = err.empty() ? 1 : 0; e["n"] = nn; e["r"] = (int)r; e["c"] = T::cplx ? 1 : 0; e["amp"] = unitamp(o, false, r);
      out.ev(e);
    } else if (k == "mrhs") {
      int w = op["w"];
      e["w"] = w; e["r"] = (int)r;
      int nn = n();
      switch (w) {
        case 1: mrhs<1>(o, nn, sd, r, e); break;
        case 2: mrhs<2>(o, nn, sd, r, e); break;
        case 3: mrhs<3>(o, nn, sd, r, e); break;
        case 5: mrhs<5>(o, nn, sd, r, e); break;
        default: mrhs<8>(o, nn, sd, r, e); break;
      }
      out.ev(e);
    } else if (k == "hifir") {
      refine(o, op, e);
    } else if (k == "nsp") {
      setnsp(o, op, e);
    } else if (k == "levels") {
      dump_levels(o, op, e);
    } else if (k == "thr") {
      threads(o, op, e);
    } else if (k == "conc") {
      concurrent(o, op, e);
    } else if (k == "trunc") {
      truncated(o, op, e);
    } else
      throw std::runtime_error("unknown op " + k);
  }
  void refine(Obj &, const json &, json &);
  void setnsp(Obj &, const json &, json &);
  void dump_levels(Obj &, const json &, json &);
  void threads(Obj &, const json &, json &);
  void concurrent(Obj &, const json &, json &);
  void truncated(Obj &, const json &, json &);
};
}  // namespace vh
#include "hifdrv_more.hpp"
