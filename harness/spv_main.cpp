// Driver for the sparse work vector, the entry selections and the
// off-diagonal dropping.
#define HIF_THROW
#include "hifir.hpp"
#include "vh.hpp"
using namespace vh;
using hif::Array;
static int ex(long double v) {
  if (!(v == v) || v > 5e8L || v < -5e8L || v != std::floor(v)) return QBAD;
  return (int)v;
}
template <class V> json pr(const V &v) { return json::array({ex(Traits<V>::re(v)), ex(Traits<V>::im(v))}); }
template <class V> V num(const json &x) { return Traits<V>::mk(x[0].get<int>(), x[1].get<int>()); }
static int isz(size_t x) { return x == std::numeric_limits<size_t>::max() ? -1 : (int)x; }

template <class V, class I> void walk(const json &scn, Out &out) {
  typedef hif::SparseVector<V, I> Sp;
  size_t n = scn["n"], sn = scn["sn"];
  Sp v(scn["ctor"].get<int>() ? n : 0, scn["ctor"].get<int>() ? sn : 0);
  if (!scn["ctor"].get<int>()) v.resize(n, sn);
  for (size_t i = 0; i < n; ++i) v[i] = V(0);
  for (auto &o : scn["ops"]) {
    std::string op = o["op"];
    json e = {{"ev", op}, {"ret", 0}};
    if (op == "push") {
      I i = (I)o["i"].get<int>(); V x = num<V>(o["x"]);
      if (v.push_back(i, o["step"].get<int>())) { v[i] = x; e["ret"] = 1; } else v[i] += x;
    } else if (op == "mark") { if (!v.empty()) v.mark_delete(o["k"].get<int>() % v.size()); }
    else if (op == "compress") v.compress_indices();
    else if (op == "reset") v.reset_counter();
    else if (op == "restore") { v.restore_cur_state(); v.reset_counter(); }
    else if (op == "sort") v.sort_indices();
    else if (op == "sortmag") v.sort_indices([&](I a, I b) { return std::abs(v[a]) > std::abs(v[b]); });
    else if (op == "scale") v.scale(num<V>(o["a"]));
    else if (op == "resize") { n = o["n"]; v.resize(n); v.reset_counter(); for (size_t i = 0; i < n; ++i) v[i] = V(0); }
    else if (op == "move") { Sp w(std::move(v)); v = std::move(w); }
    else if (op == "numdrop") {
      typedef typename Traits<V>::real R;
      if (o["f"].get<int>()) hif::apply_num_dropping((double)o["tau"].get<int>(), (R)o["kap"].get<int>(), v);
      else hif::apply_num_dropping((double)o["tau"].get<int>(), (double)o["kap"].get<int>(), v);
    } else if (op == "spdrop") {
      if (o["def"].get<int>()) hif::apply_space_dropping((size_t)o["nnz"].get<int>(), o["a4"].get<int>() / 4.0, v);
      else hif::apply_space_dropping((size_t)o["nnz"].get<int>(), o["a4"].get<int>() / 4.0, v, (size_t)o["start"].get<int>());
    } else if (op == "query") {
      int b = o["b"];
      e["norm1"] = q(v.norm1(), 10); e["n2sq"] = ex(v.norm2_sq()); e["n2"] = q(Traits<V>::re(v.norm2()), 10); e["n2i"] = q(Traits<V>::im(v.norm2()), 10);
      e["mx"] = q(v.max_mag(), 10); e["imx"] = isz(v.imax_mag());
      e["imxb"] = isz(v.imax_mag([&](I i) { return (int)i < b; })); e["find"] = isz(v.find_if([&](I i) { return (int)i < b; }));
    }
    json in = json::array(), va = json::array(), lv = json::array();
    for (size_t i = 0; i < v.size(); ++i) { in.push_back((int)v.idx(i)); lv.push_back(pr(v.val(i))); }
    for (size_t i = 0; i < n; ++i) va.push_back(pr(v[i]));
    e["inds"] = in; e["vals"] = va; e["lv"] = lv; e["empty"] = v.empty() ? 1 : 0;
    out.ev(e);
  }
}
template <class M> json lines(const M &A, size_t outer) {
  typedef typename M::value_type V;
  json r = json::array();
  size_t nz = A.ind_start()[outer];
  for (size_t i = 0; i < outer; ++i) {
    json l = json::array();
    for (auto k = A.ind_start()[i]; k < A.ind_start()[i + 1]; ++k) {
      if ((size_t)k >= A.inds().size() || (size_t)k >= A.vals().size()) { l.push_back({-1, 0, 0}); continue; }
      V x = A.vals()[k];
      l.push_back({(int)A.inds()[k], ex(Traits<V>::re(x)), ex(Traits<V>::im(x))});
    }
    r.push_back(l);
  }
  (void)nz;
  return r;
}
template <class V> void drops(const json &scn, Out &out) {
  typedef hif::CRS<V, int> R; typedef hif::CCS<V, int> C;
  size_t n = scn["n"], m = scn["m"];
  Rng g(scn["seed"].get<long>());
  int dens = scn["dens"], ties = scn["ties"];
  typename R::iparray_type rl(n + 1), ru(n + 1);
  rl[0] = ru[0] = 0;
  R L(n, m); C U(m, n);
  auto fill = [&](Array<std::ptrdiff_t> &ptr, Array<int> &ind, Array<V> &val) {
    std::vector<int> q; std::vector<V> x;
    ptr.resize(n + 1); ptr[0] = 0;
    for (size_t i = 0; i < n; ++i) {
      int d = g.chance(20) ? 0 : g.chance(20) ? 100 : dens;
      std::vector<int> c;
      for (size_t j = 0; j < m; ++j) if (g.chance(d)) c.push_back(j);
      if (g.chance(30)) for (size_t k = c.size(); k > 1; --k) std::swap(c[k - 1], c[g.in(0, (int)k - 1)]);
      for (int j : c) { q.push_back(j); int a = g.in(1, ties ? 3 : 30) * (g.chance(50) ? 1 : -1); x.push_back(Traits<V>::cplx && g.chance(50) ? Traits<V>::mk(0, a) : Traits<V>::mk(a, 0)); }
      ptr[i + 1] = q.size();
    }
    ind.resize(q.size()); val.resize(q.size());
    std::copy(q.begin(), q.end(), ind.begin()); std::copy(x.begin(), x.end(), val.begin());
  };
  fill(L.row_start(), L.col_ind(), L.vals());
  fill(U.col_start(), U.row_ind(), U.vals());
  for (size_t i = 0; i < n; ++i) { rl[i + 1] = rl[i] + g.in(0, 4); ru[i + 1] = ru[i] + g.in(0, 4); }
  json cl = json::array(), cu = json::array();
  for (size_t i = 0; i < n; ++i) { cl.push_back((int)(rl[i + 1] - rl[i])); cu.push_back((int)(ru[i + 1] - ru[i])); }
  out.ev({{"ev", "in"}, {"L", lines(L, n)}, {"U", lines(U, n)}, {"rl", cl}, {"ru", cu}});
  double aL = scn["aL"].get<int>() / 4.0, aU = scn["aU"].get<int>() / 4.0;
  size_t bn = std::max(n, m);
  std::vector<V> bl(bn), bu(bn); std::vector<int> il(bn), iu(bn);
  int nt = scn["nt"];
  if (nt == 0) { hif::drop_L_E(rl, aL, L, bl, il); hif::drop_U_F(ru, aU, U, bl, il); }
  else hif::mt::drop_L_E_and_U_F(rl, aL, ru, aU, L, U, bl, il, bu, iu, nt);
  out.ev({{"ev", "out"}, {"L", lines(L, n)}, {"U", lines(U, n)}, {"szL", {(int)L.nnz(), (int)L.col_ind().size(), (int)L.vals().size()}}, {"szU", {(int)U.nnz(), (int)U.row_ind().size(), (int)U.vals().size()}}});
}
static void handle(const json &scn, Out &out) {
  std::string t = scn["ty"];
  if (scn["kind"] == "drop") {
    if (t == "d") drops<double>(scn, out); else if (t == "s") drops<float>(scn, out);
    else if (t == "z") drops<std::complex<double>>(scn, out); else drops<std::complex<float>>(scn, out);
    return;
  }
  if (t == "d") walk<double, int>(scn, out); else if (t == "s") walk<float, long>(scn, out);
  else if (t == "z") walk<std::complex<double>, long>(scn, out); else walk<std::complex<float>, int>(scn, out);
}
int main(int argc, char **argv) { return run(argc, argv, handle, 20); }
