// Driver for the dense last-level solvers: recovers the operators a solver
// applies (column by column) and records them quantised.
#define HIF_THROW
#include "hifir.hpp"
#include "vh.hpp"
#include <memory>
using namespace vh;
using hif::Array;
template <class V> struct OtherP;
template <> struct OtherP<double> { typedef float t; };
template <> struct OtherP<float> { typedef double t; };
template <class R> struct OtherP<std::complex<R>> { typedef std::complex<typename OtherP<R>::t> t; };
static const int QB = 14;

template <class V> struct IsLup { template <class S> static constexpr bool v() { return std::is_same<S, hif::LUP<V>>::value; } };
template <class V, class S, class A> void slv(const S &s, A &x, size_t r, bool t, std::true_type) { s.solve(x, r, t); }
template <class V, class S, class A> void slv(const S &s, A &x, size_t r, bool, std::false_type) { s.solve(x, r); }
// product in place
template <class V, class S, class A, int K> void mlt(const S &s, A &x, size_t r, bool t, std::integral_constant<int, K>) {
  s.multiply(x, r, t);  // QRCP
}
template <class V, class S, class A> void mlt(const S &s, A &x, size_t r, bool, std::integral_constant<int, 1>) { s.multiply(x, r); }
template <class V, class S, class A> void mlt(const S &s, A &x, size_t, bool t, std::integral_constant<int, 2>) {
  A y(x.size());
  for (auto &v : y) v = typename std::decay<decltype(v)>::type(7);
  s.multiply(x, y, 0, t);
  for (size_t i = 0; i < x.size(); ++i) x[i] = y[i];
}
template <class S, size_t N, class A> void smr(const S &s, A &x, size_t r, bool t, std::true_type) { s.solve_mrhs(x, r, t); }
template <class S, size_t N, class A> void smr(const S &s, A &x, size_t r, bool, std::false_type) { s.solve_mrhs(x, r); }
template <class S, class A> void mmr(const S &s, A &x, size_t r, bool t, std::integral_constant<int, 0>) { s.multiply_mrhs(x, r, t); }
template <class S, class A> void mmr(const S &s, A &x, size_t r, bool, std::integral_constant<int, 1>) { s.multiply_mrhs(x, r); }
template <class S, class A> void mmr(const S &, A &, size_t, bool, std::integral_constant<int, 2>) {}

template <class V, class S, int K>
struct Run {
  typedef typename Traits<V>::real real;
  typedef std::integral_constant<int, K> KT;
  typedef std::integral_constant<bool, K != 1> TR;
  Out &out; const json &scn; S s; hif::Options opts = hif::get_default_options();
  size_t n; std::vector<int> e;
  Run(const json &sc, Out &o) : out(o), scn(sc), n(sc["n"]) {
    for (auto &x : sc["e"]) e.push_back(x);
    opts.verbose = 0; opts.spd = sc["spd"];
    int ce = sc["ce"];
    opts.rrqr_cond = ce < 0 ? 0.0 : 1.5 * std::ldexp(1.0, ce);
  }
  real p2(int k) { return std::ldexp(real(1), k); }
  V entry(const json &m, size_t i, size_t j) { return Traits<V>::mk(m[i][j][0].get<int>(), m[i][j][1].get<int>()) * V(p2(e[j])); }
  template <class T> T cv(const V &v, T *) { return T(v); }
  template <class R> std::complex<R> cv(const V &v, std::complex<R> *) { return std::complex<R>((R)Traits<V>::re(v), (R)Traits<V>::im(v)); }
  typedef typename OtherP<V>::t V2;
  void set(const std::string &how, const json &m) {
    hif::DenseMatrix<V> D(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) D(i, j) = entry(m, i, j);
    if (how == "dense") { s.set_matrix(std::move(D)); return; }
    if (how == "other") {
      hif::DenseMatrix<V2> D2(n, n);
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) D2(i, j) = cv(D(i, j), (V2 *)nullptr);
      s.set_matrix(D2); return;
    }
    std::vector<std::ptrdiff_t> p{0}; std::vector<int> q; std::vector<V> v;
    bool row = how == "crs";
    for (size_t a = 0; a < n; ++a) {
      for (size_t b = 0; b < n; ++b) { size_t i = row ? a : b, j = row ? b : a; if (D(i, j) != V(0)) { q.push_back((int)b); v.push_back(D(i, j)); } }
      p.push_back((std::ptrdiff_t)q.size());
    }
    q.resize(q.size() + 1); v.resize(v.size() + 1);
    if (row) { hif::CRS<V, int> A(n, n, p.data(), q.data(), v.data(), true); s.set_matrix(A); }
    else { hif::CCS<V, int> A(n, n, p.data(), q.data(), v.data(), true); s.set_matrix(A); }
  }
  json mat(const std::vector<std::vector<V>> &cols, bool rs, int sgn) {  // rows scaled by 2^(sgn*e_i)
    json M = json::array();
    for (size_t i = 0; i < n; ++i) {
      json r = json::array();
      for (size_t j = 0; j < n; ++j) {
        long double f = rs ? std::ldexp(1.0L, sgn * e[i]) : 1.0L;
        r.push_back(json::array({q(Traits<V>::re(cols[j][i]) * f, QB), q(Traits<V>::im(cols[j][i]) * f, QB)}));
      }
      M.push_back(r);
    }
    return M;
  }
  Array<V> unit(size_t j, int sg) {
    Array<V> x(n);
    for (size_t i = 0; i < n; ++i) x[i] = V(0);
    x[j] = V(p2(sg * e[j]));
    return x;
  }
  // one: a vector operation; ins: exponent sign of the input scaling; outs: of the output
  template <class F> json op(F f, int ins, int outs) {
    std::vector<std::vector<V>> c(n, std::vector<V>(n));
    for (size_t j = 0; j < n; ++j) { Array<V> x = unit(j, ins); f(x); for (size_t i = 0; i < n; ++i) c[j][i] = x[i]; }
    return mat(c, outs != 0, outs);
  }
  template <size_t N> json blk(bool solve, size_t r, bool t, int ins, int outs) {
    // the basis vectors, N at a time (the last block is padded by copies)
    std::vector<std::vector<V>> c(n, std::vector<V>(n));
    for (size_t j0 = 0; j0 < n; j0 += N) {
      Array<std::array<V, N>> x(n);
      for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < N; ++k) { size_t j = std::min(j0 + k, n - 1); x[i][k] = i == j ? V(p2(ins * e[j])) : V(0); }
      if (solve) smr<S, N>(s, x, r, t, TR()); else mmr(s, x, r, t, KT());
      for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < N; ++k) c[std::min(j0 + k, n - 1)][i] = x[i][k];
    }
    return mat(c, outs != 0, outs);
  }
  json blks(int w, bool solve, size_t r, bool t, int ins, int outs) {
    return w == 1 ? blk<1>(solve, r, t, ins, outs) : w == 2 ? blk<2>(solve, r, t, ins, outs) : w == 3 ? blk<3>(solve, r, t, ins, outs) : blk<5>(solve, r, t, ins, outs);
  }
  void probe(const json &o) {
    size_t r = o["r"]; int w = o["w"];
    json ev = {{"ev", "probe"}, {"r", r}};
    auto Sv = [&](Array<V> &x, bool t) { slv<V>(s, x, r, t, TR()); };
    auto Mv = [&](Array<V> &x, bool t) { mlt<V, S, Array<V>>(s, x, r, t, KT()); };
    ev["S"] = op([&](Array<V> &x) { Sv(x, false); }, 0, 1);
    ev["ST"] = op([&](Array<V> &x) { Sv(x, true); }, 1, 0);
    ev["P"] = op([&](Array<V> &x) { Mv(x, false); }, -1, 0);
    ev["PT"] = op([&](Array<V> &x) { Mv(x, true); }, 0, -1);
    ev["Sm"] = blks(w, true, r, false, 0, 1);
    ev["STm"] = blks(w, true, r, true, 1, 0);
    if (K != 2) { ev["Pm"] = blks(w, false, r, false, -1, 0); ev["PTm"] = blks(w, false, r, true, 0, -1); }
    else { ev["Pm"] = ev["P"]; ev["PTm"] = ev["PT"]; }
    ev["SPS"] = op([&](Array<V> &x) { Sv(x, false); Mv(x, false); Sv(x, false); }, 0, 1);
    ev["PSP"] = op([&](Array<V> &x) { Mv(x, false); Sv(x, false); Mv(x, false); }, -1, 0);
    // the wrapper for vectors of another type
    auto W = [&](Array<V> &x, bool sol, bool t) {
      Array<V2> y(n);
      for (size_t i = 0; i < n; ++i) y[i] = cv(x[i], (V2 *)nullptr);
      if (sol) slv<V>(s, y, r, t, TR()); else mlt<V, S, Array<V2>>(s, y, r, t, KT());
      for (size_t i = 0; i < n; ++i) x[i] = Traits<V>::cplx ? cvb(y[i]) : cvb(y[i]);
    };
    ev["Sw"] = op([&](Array<V> &x) { W(x, true, false); }, 0, 1);
    ev["STw"] = op([&](Array<V> &x) { W(x, true, true); }, 1, 0);
    ev["Pw"] = op([&](Array<V> &x) { W(x, false, false); }, -1, 0);
    out.ev(ev);
  }
  double cvb(double x) { return x; }
  float cvb(float x) { return x; }
  template <class R> V cvb(const std::complex<R> &x) { return mkc(x, (V *)nullptr); }
  template <class R, class T> T mkc(const std::complex<R> &x, T *) { return T(x.real()); }
  template <class R, class Q> std::complex<Q> mkc(const std::complex<R> &x, std::complex<Q> *) { return std::complex<Q>((Q)x.real(), (Q)x.imag()); }
  void go() {
    for (auto &o : scn["ops"]) {
      std::string op = o["op"];
      int err = 0;
      try {
        if (op == "set") { set(o["how"], o["M"]); }
        else if (op == "fact") s.factorize(opts);
        else if (op == "refact") {
          if (o["ed"].get<int>()) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) s.mat_backup()(i, j) = entry(o["M"], i, j);
          s.refactorize(opts);
        } else if (op == "probe") { probe(o); continue; }
        else if (op == "bad") {
          Array<V> x(n + o["d"].get<int>());
          for (auto &v : x) v = V(1);
          if (o["sol"].get<int>()) slv<V>(s, x, 0, o["t"].get<int>() == 1, TR()); else mlt<V, S, Array<V>>(s, x, 0, o["t"].get<int>() == 1, KT());
        } else if (op == "badm") {
          Array<std::array<V, 2>> x(n + o["d"].get<int>());
          for (auto &v : x) v[0] = v[1] = V(1);
          if (o["sol"].get<int>() || K == 2) smr<S, 2>(s, x, 0, o["t"].get<int>() == 1, TR()); else mmr(s, x, 0, o["t"].get<int>() == 1, KT());
        }
      } catch (std::exception &) { err = 1; }
      out.ev({{"ev", op}, {"err", err}, {"rank", (int)s.rank()}, {"full", s.full_rank() ? 1 : 0}, {"empty", s.empty() ? 1 : 0}, {"sq", s.is_squared() ? 1 : 0}});
    }
  }
};
template <class V> void ty(const json &scn, Out &out) {
  std::string c = scn["cls"];
  if (c == "qrcp") Run<V, hif::QRCP<V>, 0>(scn, out).go();
  else if (c == "syeig") Run<V, hif::SYEIG<V>, 1>(scn, out).go();
  else Run<V, hif::LUP<V>, 2>(scn, out).go();
}
static void handle(const json &scn, Out &out) {
  std::string t = scn["ty"];
  if (t == "d") ty<double>(scn, out);
  else if (t == "s") ty<float>(scn, out);
  else if (t == "z") ty<std::complex<double>>(scn, out);
  else ty<std::complex<float>>(scn, out);
}
int main(int argc, char **argv) { return run(argc, argv, handle, 20); }
