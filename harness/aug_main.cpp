// Driver for the augmented storages and the permutation objects.
#define HIF_THROW
#include "hifir.hpp"
#include "vh.hpp"
using namespace vh;
template <class V> json pr(const V &v) { return json::array({(int)Traits<V>::re(v), (int)Traits<V>::im(v)}); }
template <class V> V num(const json &x) { return Traits<V>::mk(x[0].get<int>(), x[1].get<int>()); }

template <class C> struct Rows {  // row-wise
  typedef hif::AugCRS<C> A;
  static void begin(A &a) { a.begin_assemble_rows(); }
  static void end(A &a) { a.end_assemble_rows(); }
  template <class... T> static void push(A &a, T &&... t) { a.push_back_row(std::forward<T>(t)...); }
  static void swap(A &a, size_t i, size_t k, int how) { if (how) a.interchange_cols(i, k); else a.interchange_entries(i, k); }
  static void defer(A &a, size_t i, size_t k, int how) { if (how) a.defer_col(i, k); else a.defer_entry(i, k); }
  static A make(size_t np, size_t ns, size_t nz) { return A(np, ns, nz); }
  static C base(size_t np, size_t ns) { return C(np, ns); }
  typedef typename C::other_type O;
  static O other(size_t np, size_t ns) { return O(np, ns); }

  static long tail(const A &a, size_t j) { return a.is_nil(a.secondary_end()[j]) ? -1 : (long)a.secondary_end()[j]; }
  static size_t cnt(const A &a, size_t j) { return a.nnz_in_col(j); }
};
template <class C> struct Cols {  // column-wise
  typedef hif::AugCCS<C> A;
  static void begin(A &a) { a.begin_assemble_cols(); }
  static void end(A &a) { a.end_assemble_cols(); }
  template <class... T> static void push(A &a, T &&... t) { a.push_back_col(std::forward<T>(t)...); }
  static void swap(A &a, size_t i, size_t k, int how) { if (how) a.interchange_rows(i, k); else a.interchange_entries(i, k); }
  static void defer(A &a, size_t i, size_t k, int how) { if (how) a.defer_row(i, k); else a.defer_entry(i, k); }
  static A make(size_t np, size_t ns, size_t nz) { return A(ns, np, nz); }
  static C base(size_t np, size_t ns) { return C(ns, np); }
  typedef typename C::other_type O;
  static O other(size_t np, size_t ns) { return O(ns, np); }
  static long tail(const A &a, size_t j) { return a.is_nil(a.secondary_end()[j]) ? -1 : (long)a.secondary_end()[j]; }
  static size_t cnt(const A &a, size_t j) { return a.nnz_in_row(j); }
};
template <class K, class V> json observe(const typename K::A &a, size_t ns) {
  json pri = json::array(), sec = json::array(), cnt = json::array(), tail = json::array();
  size_t np = a.ind_start().size() ? a.ind_start().size() - 1 : 0;
  for (size_t p = 0; p < np; ++p) {
    json l = json::array();
    for (auto k = a.ind_start()[p]; k < a.ind_start()[p + 1]; ++k) l.push_back({(int)a.inds()[k], (int)Traits<V>::re(a.vals()[k]), (int)Traits<V>::im(a.vals()[k])});
    pri.push_back(l);
  }
  for (size_t j = 0; j < ns; ++j) {
    json l = json::array();
    long last = -1;
    auto id = a.start_aug_id(j);
    for (int guard = 0; !a.is_nil(id) && guard < 500; ++guard) {
      V v = a.val_from_aug_id(id);
      l.push_back({(int)a.primary_idx(id), (int)Traits<V>::re(v), (int)Traits<V>::im(v)});
      last = (long)id; id = a.next_aug_id(id);
    }
    sec.push_back(l);
    cnt.push_back((int)a.nnz_in_secondary(j));
    tail.push_back(K::tail(a, j) == last && K::cnt(a, j) == a.nnz_in_secondary(j) ? 1 : 0);
  }
  return {{"pri", pri}, {"sec", sec}, {"cnt", cnt}, {"tail", tail}};
}
template <class K, class V> void aug(const json &scn, Out &out) {
  typedef typename K::A A;
  typedef typename A::index_type I;
  size_t np = scn["np"], ns = scn["ns"];
  A a = K::make(np, ns, scn["nz"].get<int>());
  size_t pushed = 0;
  if (scn["build"] == 0) K::begin(a);
  for (auto &o : scn["ops"]) {
    std::string op = o["op"];
    size_t i = o["i"], k = o["k"];
    if (op == "build") {  // from a plain matrix, copied, shared, moved, or of the other layout
      auto b = K::base(np, ns);
      auto c = K::other(np, ns);
      int how = o["how"];
      b.ind_start().resize(np + 1); b.ind_start()[0] = 0;
      for (size_t p = 0; p < np; ++p) {
        for (auto &t : o["lines"][p]) { b.inds().push_back((I)t[0].get<int>()); b.vals().push_back(num<V>(t[1])); }
        b.ind_start()[p + 1] = b.inds().size();
      }
      b.inds().reserve(1); b.vals().reserve(1);
      if (how == 0) a.build_aug(b);
      else if (how == 1) a.build_aug(b, true);
      else if (how == 2) a.build_aug(std::move(b));
      else { c = typename K::O(b); a.build_aug(c); }
      pushed = np;
    } else if (op == "push" || op == "push2") {
      std::vector<V> v(ns, V(0)), v2(ns, V(0)); std::vector<I> l, l2; size_t cut = op == "push2" ? i : ns;
      for (auto &t : o["ents"]) { size_t j = t[0]; if (j < cut) { l.push_back((I)j); v[j] = num<V>(t[1]); } else { l2.push_back((I)j); v2[j] = num<V>(t[1]); } }
      if (op == "push") K::push(a, pushed, l.begin(), l.end(), v);
      else K::push(a, pushed, l.begin(), l.end(), v, l2.begin(), l2.end(), v2);
      ++pushed;
    } else if (op == "swap") K::swap(a, i, k, o["how"]);
    else if (op == "defer") K::defer(a, i, k, o["how"]);
    else if (op == "copy") { if (o["how"] == 0) { A b(a, true); a = b; } else if (o["how"] == 1) { A b(a); a = b; } else { A b(std::move(a)); a = std::move(b); } }
    else if (op == "end") { if (scn["build"] == 0) K::end(a); }
    json e = observe<K, V>(a, ns);
    e["ev"] = op;
    out.ev(e);
  }
}
template <class I> void perm(const json &scn, Out &out) {
  typedef hif::BiPermMatrix<I> P;
  size_t n = scn["n"];
  P p(n);
  p.make_eye();
  hif::PermMatrix<I> s(n); s.make_eye();
  for (auto &o : scn["ops"]) {
    std::string op = o["op"];
    size_t i = o["i"], k = o["k"];
    if (op == "eye") { p.make_eye(); s.make_eye(); }
    else if (op == "swap") { p.interchange(i, k); s.interchange(i, k); }
    else if (op == "swapinv") { size_t x = p.inv(i), y = p.inv(k); p.interchange_inv(i, k); s.interchange(x, y); }
    else if (op == "build") { for (size_t j = 0; j < n; ++j) { p[j] = (I)o["p"][j].get<int>(); s()[j] = p[j]; } p.build_inv(); }
    else if (op == "from") { hif::Array<I> a(n); for (size_t j = 0; j < n; ++j) a[j] = (I)o["p"][j].get<int>(); if (o["how"] == 0) { P t(a, true); p = t; } else { hif::PermMatrix<I> b(a); P t(b, true); p = std::move(t); } p.build_inv(); s = hif::PermMatrix<I>(a, true); }
    else if (op == "copy") { P t(p, true); p = t; }
    else if (op == "resize") { n = k; p.resize(n); p.make_eye(); s.resize(n); s.make_eye(); }
    const P &cp = p;
    json a = json::array(), b = json::array(), c = json::array();
    for (size_t j = 0; j < n; ++j) { a.push_back((int)cp[j]); b.push_back((int)cp.inv(j)); c.push_back((int)s[j]); }
    out.ev({{"ev", op}, {"p", a}, {"pi", b}, {"s", c}, {"eye", p.is_eye() ? 1 : 0}, {"seye", s.is_eye() ? 1 : 0}, {"n", (int)p.size()}, {"ni", (int)p.inv().size()}});
  }
}
template <class V, class I> void augt(const json &s, Out &o) {
  if (s["row"].get<int>()) aug<Rows<hif::CRS<V, I>>, V>(s, o); else aug<Cols<hif::CCS<V, I>>, V>(s, o);
}
int main(int c, char **v) {
  return run(c, v, [](const json &s, Out &o) {
    if (s["kind"] == "perm") { if (s["ty"] == "d") perm<int>(s, o); else perm<long>(s, o); return; }
    if (s["ty"] == "d") augt<double, int>(s, o);
    else if (s["ty"] == "s") augt<float, long>(s, o);
    else augt<std::complex<double>, int>(s, o);
  });
}
