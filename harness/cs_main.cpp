// Driver for compressed storage: replays operation sequences on CRS / CCS and
// records the resulting arrays and vectors as exact integers.
#define HIF_THROW
#include "hifir.hpp"
#include "vh.hpp"
#include <memory>
#include <omp.h>
using namespace vh;
using hif::Array;

template <class V> struct OtherP;
template <> struct OtherP<double> { typedef float t; };
template <> struct OtherP<float> { typedef double t; };
template <class R> struct OtherP<std::complex<R>> { typedef std::complex<typename OtherP<R>::t> t; };

static int ex(long double v) {
  if (!(v == v) || v > 5e8L || v < -5e8L || v != std::floor(v)) return QBAD;
  return (int)v;
}
template <class V> json pr(const V &v) { return json::array({ex(Traits<V>::re(v)), ex(Traits<V>::im(v))}); }
template <class V, class A> void load(const json &x, A &a) {
  for (size_t i = 0; i < x.size(); ++i) a[i] = Traits<V>::mk(x[i][0].get<int>(), x[i][1].get<int>());
}
template <class A> json vecj(const A &a, size_t n) {
  json r = json::array();
  for (size_t i = 0; i < n; ++i) r.push_back(pr(a[i]));
  return r;
}

template <class V, class I, class P>
struct Cs {
  typedef hif::CRS<V, I, P> R;
  typedef hif::CCS<V, I, P> C;
  const json &scn;
  Out &       out;
  std::vector<P> rp; std::vector<I> ri; std::vector<V> rv;  // raw data kept alive
  std::unique_ptr<R> r; std::unique_ptr<C> c;

  Cs(const json &s, Out &o) : scn(s), out(o) {}

  template <class M> json dump(const M &A) {
    json d = {{"row", M::ROW_MAJOR ? 1 : 0}, {"nr", (long)A.nrows()}, {"nc", (long)A.ncols()}, {"nnz", (long)A.nnz()}};
    json p = json::array(), i = json::array(), v = json::array();
    for (size_t k = 0; k < A.ind_start().size(); ++k) p.push_back((long long)A.ind_start()[k]);
    size_t nn = A.nnz();
    for (size_t k = 0; k < std::min((size_t)nn, (size_t)A.inds().size()); ++k) i.push_back((long long)A.inds()[k]);
    for (size_t k = 0; k < std::min((size_t)nn, (size_t)A.vals().size()); ++k) { v.push_back(ex(Traits<V>::re(A.vals()[k]))); v.push_back(ex(Traits<V>::im(A.vals()[k]))); }
    d["ptr"] = p; d["ind"] = i; d["val"] = v;
    return d;
  }
  // build M (row or column wise) from the entries
  template <class M> std::unique_ptr<M> build(bool row) {
    int m = scn["m"], n = scn["n"], outer = row ? m : n, inner = row ? n : m;
    std::vector<std::vector<std::pair<int, V>>> L(outer);
    for (auto &e : scn["ent"]) {
      int a = e[0], b = e[1];
      L[row ? a : b].push_back({row ? b : a, Traits<V>::mk(e[2].get<int>(), e[3].get<int>())});
    }
    for (auto &l : L) std::sort(l.begin(), l.end(), [](const std::pair<int, V> &x, const std::pair<int, V> &y) { return x.first < y.first; });
    rp.assign(1, 0); ri.clear(); rv.clear();
    for (auto &l : L) { for (auto &e : l) { ri.push_back(e.first); rv.push_back(e.second); } rp.push_back((P)ri.size()); }
    std::string b = scn["build"];
    if (b == "copy") return std::unique_ptr<M>(new M(m, n, rp.data(), ri.data(), rv.data(), false));
    if (b == "wrap") return std::unique_ptr<M>(new M(m, n, rp.data(), ri.data(), rv.data(), true));
    std::unique_ptr<M> A(new M(m, n));
    if (b == "push") { pushall(*A, L, inner); return A; }
    // coordinates in scrambled order
    Rng g(scn["seed"].get<long>());
    size_t nz = ri.size();
    std::vector<size_t> o(nz);
    for (size_t k = 0; k < nz; ++k) o[k] = k;
    for (size_t k = nz; k > 1; --k) std::swap(o[k - 1], o[g.in(0, (int)k - 1)]);
    std::vector<int> line(nz);
    for (int i = 0; i < outer; ++i) for (P k = rp[i]; k < rp[i + 1]; ++k) line[k] = i;
    Array<I> pi(nz), si(nz); Array<V> cv(nz);
    for (size_t k = 0; k < nz; ++k) { pi[k] = line[o[k]]; si[k] = ri[o[k]]; cv[k] = rv[o[k]]; }
    hif::convert_coo2cs(outer, inner, pi, si, cv, A->ind_start(), A->inds(), A->vals());
    return A;
  }
  void pushall(R &A, const std::vector<std::vector<std::pair<int, V>>> &L, int inner) {
    A.begin_assemble_rows();
    for (size_t i = 0; i < L.size(); ++i) push1(A, i, L[i], inner, [&](size_t k) { A.push_back_empty_row(k); },
      [&](size_t k, I *f, I *l, const Array<V> &v) { A.push_back_row(k, f, l, v); },
      [&](size_t k, I *f, I *l, const Array<V> &v, I *f2, I *l2, const Array<V> &v2) { A.push_back_row(k, f, l, v, f2, l2, v2); });
    A.end_assemble_rows();
  }
  void pushall(C &A, const std::vector<std::vector<std::pair<int, V>>> &L, int inner) {
    A.begin_assemble_cols();
    for (size_t i = 0; i < L.size(); ++i) push1(A, i, L[i], inner, [&](size_t k) { A.push_back_empty_col(k); },
      [&](size_t k, I *f, I *l, const Array<V> &v) { A.push_back_col(k, f, l, v); },
      [&](size_t k, I *f, I *l, const Array<V> &v, I *f2, I *l2, const Array<V> &v2) { A.push_back_col(k, f, l, v, f2, l2, v2); });
    A.end_assemble_cols();
  }
  template <class M, class F0, class F1, class F2>
  void push1(M &, size_t i, const std::vector<std::pair<int, V>> &l, int inner, F0 f0, F1 f1, F2 f2) {
    std::vector<I> ix; Array<V> v(inner), v2(inner);
    for (int k = 0; k < inner; ++k) v[k] = v2[k] = V(99);
    for (size_t k = 0; k < l.size(); ++k) { ix.push_back(l[k].first); if (l.size() >= 2 && i % 2 && k >= l.size() / 2) v2[l[k].first] = l[k].second; else v[l[k].first] = l[k].second; }
    if (l.empty() && i % 2 == 0) f0(i);
    else if (l.size() >= 2 && i % 2) f2(i, ix.data(), ix.data() + l.size() / 2, v, ix.data() + l.size() / 2, ix.data() + l.size(), v2);
    else f1(i, ix.data(), ix.data() + l.size(), v);
  }
  // ------------------------------------------------------------ products
  void range_mul(const R &A, const Array<V> &x, Array<V> &y) {
    size_t n = A.nrows(), h = n / 2;
    if (!n) return A.multiply_nt(x, y);
    A.multiply_nt(x, 0, h, y); A.multiply_nt(x, h, n - h, y);
  }
  void range_mul(const C &A, const Array<V> &x, Array<V> &y) { A.multiply_nt(x, y); }
  template <size_t K> void range_mulm(const R &A, const Array<std::array<V, K>> &x, Array<std::array<V, K>> &y) {
    size_t n = A.nrows(), h = n / 2;
    if (!n) return A.multiply_mrhs_nt(x, y);
    A.multiply_mrhs_nt(x, 0, h, y); A.multiply_mrhs_nt(x, h, n - h, y);
  }
  template <size_t K> void range_mulm(const C &A, const Array<std::array<V, K>> &x, Array<std::array<V, K>> &y) { A.multiply_mrhs_nt(x, y); }
  template <class M> void mul(const M &A, const json &op) {
    bool t = op["tran"].get<int>();
    std::string f = op["form"];
    size_t nx = t ? A.nrows() : A.ncols(), ny = t ? A.ncols() : A.nrows();
    Array<V> x(nx), y(ny);
    load<V>(op["x"], x);
    for (auto &v : y) v = V(77);
    omp_set_num_threads(std::max(1, op["nt"].get<int>()));
    json e = {{"ev", "mul"}, {"tran", t ? 1 : 0}, {"form", f}, {"x", op["x"]}};
    if (f == "mixed") {
      typedef typename OtherP<V>::t W;
      Array<W> xo(nx), yo(ny);
      load<W>(op["x"], xo);
      for (auto &v : yo) v = W(77);
      A.multiply(xo, yo, t);
      e["y"] = vecj(yo, ny);
    } else {
      if (f == "low") { if (t) A.multiply_t_low(x.data(), y.data()); else A.multiply_nt_low(x.data(), y.data()); }
      else if (f == "range" && !t) range_mul(A, x, y);
      else if (f == "mt" && !t) hif::mt::multiply_nt(A, x, y);
      else if (f == "mtlow" && !t) hif::mt::multiply_nt_low(A, x.data(), y.data());
      else if (f == "helper") hif::multiply(A, x, y, t);
      else A.multiply(x, y, t);
      e["y"] = vecj(y, ny);
    }
    out.ev(e);
  }
  template <size_t K, class M> void mulm(const M &A, const json &op) {
    bool t = op["tran"].get<int>();
    std::string f = op["form"];
    size_t nx = t ? A.nrows() : A.ncols(), ny = t ? A.ncols() : A.nrows();
    Array<std::array<V, K>> x(nx), y(ny);
    for (size_t k = 0; k < K; ++k) for (size_t i = 0; i < nx; ++i) x[i][k] = Traits<V>::mk(op["xs"][k][i][0].get<int>(), op["xs"][k][i][1].get<int>());
    for (auto &v : y) v.fill(V(77));
    omp_set_num_threads(std::max(1, op["nt"].get<int>()));
    if (f == "range" && !t) range_mulm(A, x, y);
    else if (f == "mt" && !t) hif::mt::multiply_mrhs_nt(A, x, y);
    else if (f == "mtlow" && !t && nx && ny) hif::mt::multiply_mrhs_nt_low<K>(A, x[0].data(), y[0].data());
    else A.multiply_mrhs(x, y, t);
    json ys = json::array();
    for (size_t k = 0; k < K; ++k) { json a = json::array(); for (size_t i = 0; i < ny; ++i) a.push_back(pr(y[i][k])); ys.push_back(a); }
    out.ev({{"ev", "mulm"}, {"tran", t ? 1 : 0}, {"form", f}, {"xs", op["xs"]}, {"ys", ys}});
  }
  // ------------------------------------------------- triangular solves
  template <class M> void tri1(const M &A, const json &op) {
    bool t = op["tran"].get<int>(), low = op["kind"] == "l";
    size_t n = A.nrows();
    Array<V> y(n);
    load<V>(op["bs"][0], y);
    if (op["form"].get<int>()) { std::vector<V> w(y.cbegin(), y.cend()); tri1s(A, w, low, t); std::copy(w.begin(), w.end(), y.begin()); }
    else tri1s(A, y, low, t);
    out.ev({{"ev", "tri"}, {"kind", op["kind"]}, {"tran", t ? 1 : 0}, {"bs", op["bs"]}, {"ys", json::array({vecj(y, n)})}});
  }
  template <class M, class Y> void tri1s(const M &A, Y &y, bool low, bool t) {
    if (low) { if (t) A.solve_as_strict_lower_tran(y); else A.solve_as_strict_lower(y); }
    else { if (t) A.solve_as_strict_upper_tran(y); else A.solve_as_strict_upper(y); }
  }
  template <size_t K, class M> void trik(const M &A, const json &op) {
    bool t = op["tran"].get<int>(), low = op["kind"] == "l";
    size_t n = A.nrows();
    Array<std::array<V, K>> y(n);
    for (size_t k = 0; k < K; ++k) for (size_t i = 0; i < n; ++i) y[i][k] = Traits<V>::mk(op["bs"][k][i][0].get<int>(), op["bs"][k][i][1].get<int>());
    if (low) { if (t) A.solve_as_strict_lower_mrhs_tran(y); else A.solve_as_strict_lower_mrhs(y); }
    else { if (t) A.solve_as_strict_upper_mrhs_tran(y); else A.solve_as_strict_upper_mrhs(y); }
    json ys = json::array();
    for (size_t k = 0; k < K; ++k) { json a = json::array(); for (size_t i = 0; i < n; ++i) a.push_back(pr(y[i][k])); ys.push_back(a); }
    out.ev({{"ev", "tri"}, {"kind", op["kind"]}, {"tran", t ? 1 : 0}, {"bs", op["bs"]}, {"ys", ys}});
  }
  // ---------------------------------------------------------- splitting
  template <class M> hif::Array<P> starts(const M &A, size_t k) {
    Array<P> s(A.primary_size() + 1);
    for (size_t i = 0; i < A.primary_size(); ++i) { P q = A.ind_start()[i]; while (q < A.ind_start()[i + 1] && (size_t)A.inds()[q] < k) ++q; s[i] = q; }
    return s;
  }
  template <bool S> C sdual(const R &A, size_t k, bool st) { return st ? A.template split_ccs<S>(k, starts(A, k)) : A.template split_ccs<S>(k); }
  template <bool S> R sdual(const C &A, size_t k, bool st) { return st ? A.template split_crs<S>(k, starts(A, k)) : A.template split_crs<S>(k); }
  template <class M> void split(const M &A, const json &op) {
    size_t k = op["k"].get<long>();
    bool st = op["st"].get<int>(), du = op["dual"].get<int>();
    json e = {{"ev", "split"}, {"k", (long)k}, {"st", st ? 1 : 0}, {"dual", du ? 1 : 0}};
    if (du) { e["d1"] = dump(sdual<false>(A, k, st)); e["d2"] = dump(sdual<true>(A, k, st)); }
    else if (st) { auto pr = A.split(k, starts(A, k)); e["d1"] = dump(pr.first); e["d2"] = dump(pr.second); }
    else { auto pr = A.split(k); e["d1"] = dump(pr.first); e["d2"] = dump(pr.second); }
    out.ev(e);
  }
  static Array<I> arr(const json &p) { Array<I> a(p.size()); for (size_t i = 0; i < p.size(); ++i) a[i] = p[i].get<int>(); return a; }
  static Array<I> inv(const json &p) { Array<I> a(p.size()); for (size_t i = 0; i < p.size(); ++i) a[p[i].get<int>()] = (I)i; return a; }
  R cperm(const R &A, const json &op) { return A.compute_perm(arr(op["p"]), inv(op["q"]), op["lead"].get<long>(), op["so"].get<int>() != 0); }
  C cperm(const C &A, const json &op) { return A.compute_perm(inv(op["p"]), arr(op["q"]), op["lead"].get<long>(), op["so"].get<int>() != 0); }
  // -------------------------------------------------------- validity
  static R wrapc(const R *, size_t m, size_t n, const P *p, const I *i, const V *v) { return hif::wrap_const_crs<V, I, P>(m, n, p, i, v); }
  static C wrapc(const C *, size_t m, size_t n, const P *p, const I *i, const V *v) { return hif::wrap_const_ccs<V, I, P>(m, n, p, i, v); }
  template <class M> void valid(const M &A0, const json &op) {
    std::string kind = op["kind"];
    size_t at = op["at"].get<long>();
    M A(A0, true);
    bool wrap_ok = true;
    size_t inner = M::ROW_MAJOR ? A.ncols() : A.nrows(), outer = A.primary_size();
    if (A.nnz() == 0 && kind != "none") kind = "none";
    if (kind == "swap" || kind == "dup") {
      size_t pick = (size_t)-1, cnt = 0;
      for (int pass = 0; pass < 2 && pick == (size_t)-1; ++pass) {
        size_t k = 0;
        for (size_t i = 0; i < outer; ++i) for (P q = A.ind_start()[i]; q + 1 < A.ind_start()[i + 1]; ++q) { if (pass && k == at % cnt) pick = q; ++k; }
        cnt = k;
        if (!cnt) break;
      }
      if (cnt) { if (kind == "swap") std::swap(A.inds()[pick], A.inds()[pick + 1]); else A.inds()[pick + 1] = A.inds()[pick]; }
    } else if (kind == "big") A.inds()[at % A.nnz()] = (I)inner + 3;
    else if (kind == "big1") { for (size_t i = 0; i < outer; ++i) { size_t o = (i + at) % outer; if (A.ind_start()[o + 1] > A.ind_start()[o]) { A.inds()[A.ind_start()[o + 1] - 1] = (I)inner; break; } } }
    else if (kind == "neg") { for (size_t i = 0; i < outer; ++i) { size_t o = (i + at) % outer; if (A.ind_start()[o + 1] > A.ind_start()[o]) { A.inds()[A.ind_start()[o]] = -1; break; } } }
    else if (kind == "ptr0") A.ind_start()[0] = 1;
    else if (kind == "ptrdec" && outer >= 2) { size_t i = 1 + at % (outer - 1); A.ind_start()[i] = A.ind_start()[i + 1] + 1; }
    else if (kind == "nnzbig") { A.ind_start()[outer] += 5; wrap_ok = false; }
    else if (kind == "short") { if (M::ROW_MAJOR) A.resize_nrows(outer + 1); else A.resize_ncols(outer + 1); wrap_ok = false; }
    json e = {{"ev", "valid"}, {"kind", kind}, {"outer", (long)A.primary_size()}, {"inner", (long)inner}};
    json p = json::array(), i = json::array();
    for (size_t k = 0; k < A.ind_start().size(); ++k) p.push_back((long long)A.ind_start()[k]);
    for (size_t k = 0; k < A.inds().size(); ++k) i.push_back((long long)A.inds()[k]);
    e["ptr"] = p; e["ind"] = i;
    try { A.check_validity(); e["ok"] = 1; } catch (std::exception &) { e["ok"] = 0; }
    if (wrap_ok) {
      try { M W = wrapc((const M *)0, A.nrows(), A.ncols(), A.ind_start().data(), A.inds().data(), A.vals().data()); e["wok"] = 1; } catch (std::exception &) { e["wok"] = 0; }
    }
    out.ev(e);
  }
  static Array<V> dia(const json &s) { Array<V> a(s.size()); for (size_t i = 0; i < s.size(); ++i) a[i] = V(s[i].get<int>()); return a; }
  template <class M, class N> void conv(const M &A, std::unique_ptr<N> &to) { to.reset(new N(A)); }
  template <class X, class M> json expt(const M &A) {
    size_t o = X::ROW_MAJOR ? A.nrows() : A.ncols();
    std::vector<P> p(o + 1, -7); std::vector<I> i(A.nnz() + 1, -7); std::vector<V> v(A.nnz() + 1, V(-7));
    hif::export_compressed_data<X>(A, p.data(), i.data(), v.data());
    json d = {{"row", X::ROW_MAJOR ? 1 : 0}, {"nr", (long)A.nrows()}, {"nc", (long)A.ncols()}, {"nnz", (long)A.nnz()}};
    json jv = json::array();
    for (size_t k = 0; k + 1 < v.size(); ++k) { jv.push_back(ex(Traits<V>::re(v[k]))); jv.push_back(ex(Traits<V>::im(v[k]))); }
    i.pop_back();
    d["ptr"] = ivec(p, p.size()); d["ind"] = ivec(i, i.size()); d["val"] = jv;
    return d;
  }
  template <class M> void op1(M &A, const json &op) {
    std::string o = op["op"];
    if (o == "mul") mul(A, op);
    else if (o == "mulm") { switch (op["xs"].size()) { case 1: mulm<1>(A, op); break; case 2: mulm<2>(A, op); break; default: mulm<3>(A, op); } }
    else if (o == "tri") { switch (op["k"].get<int>()) { case 0: tri1(A, op); break; case 1: trik<1>(A, op); break; case 2: trik<2>(A, op); break; default: trik<3>(A, op); } }
    else if (o == "scale") { A.scale_diags(dia(op["s"]), dia(op["t"])); out.ev({{"ev", "scale"}, {"s", op["s"]}, {"t", op["t"]}, {"d", dump(A)}}); }
    else if (o == "export") { out.ev({{"ev", "export"}, {"d", expt<R>(A)}}); out.ev({{"ev", "export"}, {"d", expt<C>(A)}}); }
    else if (o == "split") split(A, op);
    else if (o == "perm") { M B = cperm(A, op); out.ev({{"ev", "perm"}, {"p", op["p"]}, {"q", op["q"]}, {"lead", op["lead"]}, {"so", op["so"]}, {"d", dump(B)}}); }
    else if (o == "lead") { M B = A.extract_leading(op["k"].get<long>()); out.ev({{"ev", "lead"}, {"k", op["k"]}, {"d", dump(B)}}); }
    else if (o == "prune") {
      double num = op["eps"][0], den = op["eps"][1];
      // wrapped memory cannot be replaced: shrink a copy's
      if (A.inds().status() == hif::DATA_WRAP) A = M(A, true);
      size_t cnt = A.prune(num / den, op["shrink"].get<int>() != 0);
      out.ev({{"ev", "prune"}, {"num", op["eps"][0]}, {"den", op["eps"][1]}, {"cnt", (long)cnt}, {"d", dump(A)}});
    } else if (o == "copy") {
      M S(A), D(A, true);
      A.scale_diag_left(dia(op["s"]));
      out.ev({{"ev", "copy"}, {"s", op["s"]}, {"shallow", dump(S)}, {"deep", dump(D)}});
    } else if (o == "valid") valid(A, op);
    else if (o == "dump") out.ev({{"ev", "dump"}, {"d", dump(A)}});
    else throw std::runtime_error("op " + o);
  }
  template <class M> void make(const M &A) {
    json l = json::array();
    for (size_t i = 0; i < A.primary_size(); ++i) l.push_back((long)A.nnz_in_primary(i));
    out.ev({{"ev", "make"}, {"d", dump(A)}, {"lines", l}});
  }
  void go() {
    if (scn["row"].get<int>()) { r = build<R>(true); make(*r); } else { c = build<C>(false); make(*c); }
    for (auto &op : scn["ops"]) {
      try {
        if (op["op"] == "conv") {
          if (r) { conv(*r, c); out.ev({{"ev", "conv"}, {"d", dump(*c)}, {"src", dump(*r)}}); r.reset(); }
          else { conv(*c, r); out.ev({{"ev", "conv"}, {"d", dump(*r)}, {"src", dump(*c)}}); c.reset(); }
        } else if (r) op1(*r, op); else op1(*c, op);
      } catch (std::exception &x) { out.ev({{"ev", op["op"]}, {"threw", vh::what(x)}}); }
    }
  }
};
int main(int argc, char **argv) {
  return run(argc, argv, [](const json &s, Out &o) {
    std::string t = s["ty"];
    if (t == "d") Cs<double, int, std::ptrdiff_t>(s, o).go();
    else if (t == "s") Cs<float, int, int>(s, o).go();
    else if (t == "z") Cs<std::complex<double>, int, std::ptrdiff_t>(s, o).go();
    else if (t == "c") Cs<std::complex<float>, int, std::ptrdiff_t>(s, o).go();
    else Cs<double, long, long>(s, o).go();
  });
}
