// Driver for Matrix Market files: composes files from descriptions, reads and
// writes matrices and vectors in both layouts, and reports exact contents.
#define HIF_THROW
#include "hifir.hpp"
#include "vh.hpp"
#include <dirent.h>
#include <memory>
using namespace vh;
using hif::Array;

static int open_fds() {
  int  n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return -1;
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}

template <class R> std::vector<R> specials() {
  typedef std::numeric_limits<R> L;
  R t = R(1) / R(3);
  return {R(0), -R(0), R(1), R(-1), R(0.1), t, -t, R(2) / R(3), L::max(), L::lowest(), L::min(), L::denorm_min(), -L::denorm_min(), L::epsilon(), R(1) + L::epsilon(),
          R(1) - L::epsilon() / 2, R(3.141592653589793238L), R(123456.789), R(-9.87654321e-20L), R(1e22L), R(1) / R(49), R(16777215), R(8.5070592e37L), L::min() * R(0.7)};
}
template <class R> int id_of(R v) {
  static const std::vector<R> t = specials<R>();
  for (size_t i = 0; i < t.size(); ++i)
    if (std::memcmp(&t[i], &v, sizeof(R)) == 0) return (int)i;
  return -1;
}
static int eighth(long double v) {
  long double w = v * 8;
  if (!(w == w) || w > 5e8L || w < -5e8L || w != std::floor(w)) return QBAD;
  return (int)w;
}

struct Text {  // a file described by a scenario
  const json &scn;
  Rng         r;
  std::string s;
  explicit Text(const json &c) : scn(c), r(c["at"].get<int>() + 7) {}
  std::string cased(std::string t) {
    int k = scn["style"]["case"];
    for (size_t i = 0; i < t.size(); ++i)
      if (k == 1 || (k == 2 && i % 2 == 0)) t[i] = (char)toupper(t[i]);
    return t;
  }
  std::string sep() { int k = scn["style"]["sep"]; return k == 0 ? " " : k == 1 ? "\t" : "  \t "; }
  std::string num(int v) {
    char   b[64];
    double x = v / 8.0;
    switch (scn["style"]["num"].get<int>()) {
      case 0: snprintf(b, 64, "%g", x); break;
      case 1: snprintf(b, 64, "%.17g", x); break;
      case 2: snprintf(b, 64, "%.8e", x); break;
      case 3: snprintf(b, 64, "%+.3f", x); break;
      default: snprintf(b, 64, "%.4E", x);
    }
    // "%g" keeps 6 digits, "%.4E" 5: fall back to all digits where that is not exact
    if (strtod(b, nullptr) != x) snprintf(b, 64, "%.17g", x);
    return b;
  }
  void blank(int where) { int k = scn["style"]["blank"]; if (k == where) s += "\n"; }
  std::string pad() { return scn["style"]["pad"] == 1 ? " " : ""; }
  std::string make() {
    std::string bad = scn["bad"];
    const bool        vec = scn["kind"] == "readv";
    const bool        cx  = scn["field"] == "complex";
    auto              is  = [&](const char *b) { return bad == b; };
    if (is("empty")) return "";
    std::string field = scn["field"];
    if (is("typemis")) field = cx ? "real" : "complex";
    if (is("pattern") || is("integer")) field = bad;
    std::string fmt = (vec != (is("array") || is("coord"))) ? "array" : "coordinate";
    if (is("format")) fmt = "sparse";
    std::string sym = vec ? "general" : scn["sym"].get<std::string>();
    if (is("scheme")) sym = "triangular";
    std::string ban = is("banner") ? "%MatrixMarket" : "%%MatrixMarket";
    if (is("longbanner")) ban += std::string(900, 'x');
    s = ban + sep() + cased(is("object") ? "tensor" : "matrix") + sep() + cased(fmt) + sep() + cased(field) + (is("tokens") ? "" : sep() + cased(sym)) + "\n";
    for (int k = 0; k < scn["style"]["ncom"].get<int>(); ++k) {
      s += k == 0 ? "%\n" : "% comment 3 3 " + std::to_string(k) + "\n";
      if (k == 0) blank(3);
    }
    blank(2);
    if (is("nosize")) return s;
    long m = scn["m"], n = scn["n"], nz = scn["ents"].size();
    // truncated files claim one entry more than they have
    const long claim = is("trunc") && !vec ? nz + 1 : nz;
    if (is("negsize")) (r.chance(50) ? m : n) = -1;
    if (is("badsize")) s += "three" + sep() + "by three\n";
    else if (is("shortsize")) { s += std::to_string(m) + sep() + std::to_string(n) + "\n"; return s; }
    else if (vec) s += pad() + std::to_string(is("trunc") ? (long)scn["ents"].size() + 1 : m) + sep() + std::to_string(n) + pad() + "\n";
    else s += pad() + std::to_string(m) + sep() + std::to_string(n) + sep() + std::to_string(is("negnnz") ? -1 : is("half") || is("letters") || is("rowbig") || is("colbig") || is("zerorow") || is("zerocol") || is("negrow") ? nz + 1 : claim) + pad() + "\n";
    blank(1);
    // (an incomplete line is the last one: elsewhere the reader, which does not
    // look at line ends, may take tokens of the next line for the missing ones)
    const long at = vec ? (m > 0 ? scn["at"].get<long>() % m : 0) : is("half") ? nz : scn["at"].get<long>() % (nz + 1);
    long       k  = 0;
    auto entry = [&](long i, long j, const json &a, const json &b) {
      if (!vec) s += pad() + std::to_string(i) + sep() + std::to_string(j) + sep();
      s += num(a);
      if (field == "complex") s += sep() + num(b);
      s += pad() + "\n";
    };
    auto broken = [&]() {
      if (k != at) return;
      if (is("half")) { s += std::to_string(std::max(m, 1l)) + sep() + "1\n"; }
      if (is("letters")) { if (!vec) s += "1" + sep() + "1" + sep(); s += "abc\n"; }
      if (is("rowbig")) entry(m + 1, std::min(n, 1l) + (n == 0), 8, 8);
      if (is("colbig")) entry(std::min(m, 1l) + (m == 0), n + 1, 8, 8);
      if (is("zerorow")) entry(0, 1, 8, 8);
      if (is("zerocol")) entry(1, 0, 8, 8);
      if (is("negrow")) entry(-1, 1, 8, 8);
    };
    for (auto &e : scn["ents"]) {
      broken(); ++k;
      if (vec) { if (!(is("letters") && k == at + 1)) entry(0, 0, e[0], e[1]); }
      else entry(e[0], e[1], e[2], e[3]);
      if (k == 1) blank(1);
    }
    broken();
    if (scn["style"]["noeol"] == 1 && s.size()) s.pop_back();
    return s;
  }
};

template <class M, class F> json dump(const M &A, F f) {
  typedef typename M::value_type V;
  json p = json::array(), i = json::array(), v = json::array();
  for (auto x : A.ind_start()) p.push_back((long long)x);
  for (auto x : A.inds()) i.push_back((long long)x);
  for (const V &x : A.vals()) v.push_back(json::array({f(Traits<V>::re(x)), f(Traits<V>::im(x))}));
  return {{"m", (long)A.nrows()}, {"n", (long)A.ncols()}, {"start", p}, {"ind", i}, {"val", v}};
}

static std::string path() { const char *d = getenv("VH_SCRATCH"); return std::string(d ? d : ".") + "/f.mm"; }
static void put(const std::string &t) { std::ofstream o(path()); o << t; }

template <class M, class F> json read_into(const json &scn, F f) {
  std::unique_ptr<M> A(new M());
  if (scn.value("reuse", 0) == 1) {
    A->resize(9, 9);
    A->ind_start().resize(10); for (int i = 0; i < 10; ++i) A->ind_start()[i] = i;
    A->inds().resize(9); A->vals().resize(9);
    for (int i = 0; i < 9; ++i) { A->inds()[i] = i; A->vals()[i] = 5; }
  }
  if (scn.value("static", 0) == 1) *A = M::from_mm(path().c_str());
  else A->read_mm(path().c_str());
  return dump(*A, f);
}
template <class V> struct Idf { int operator()(typename Traits<V>::real v) const { return id_of(v); } };
struct Eif { int operator()(long double v) const { return eighth(v); } };

template <class V> Array<V> read_vec(const json &scn) {
  Array<V> v;
  if (scn.value("reuse", 0) == 1) { v.resize(5); for (auto &x : v) x = V(7); }
  if (scn.value("static", 0) == 1) v = Array<V>::from_mm(path().c_str());
  else v.read_mm(path().c_str());
  return v;
}

template <class V, class I, class P> void matrix(const json &scn, json &e) {
  typedef hif::CRS<V, I, P> R;
  typedef hif::CCS<V, I, P> C;
  typedef typename Traits<V>::real S;
  if (scn["kind"] == "read") {
    e["d"] = scn["row"] == 1 ? read_into<R>(scn, Eif()) : read_into<C>(scn, Eif());
    return;
  }
  static const std::vector<S> T = specials<S>();
  const bool row = scn["row"] == 1;
  const int  m = scn["m"], n = scn["n"], outer = row ? m : n;
  std::vector<std::vector<std::pair<I, V>>> L(outer);
  for (auto &x : scn["ents"]) {
    int a = x[0], b = x[1];
    V v; 
    { S *q = reinterpret_cast<S *>(&v); q[0] = T[x[2].get<int>()]; if (Traits<V>::cplx) q[1] = T[x[3].get<int>()]; }
    L[row ? a : b].push_back({(I)(row ? b : a), v});
  }
  if (scn["sorted"] == 1)
    for (auto &l : L) std::sort(l.begin(), l.end(), [](const std::pair<I, V> &x, const std::pair<I, V> &y) { return x.first < y.first; });
  std::vector<P> st(1, 0); std::vector<I> in; std::vector<V> va;
  for (auto &l : L) { for (auto &x : l) { in.push_back(x.first); va.push_back(x.second); } st.push_back((P)in.size()); }
  in.push_back(0); va.push_back(V(0));  // never null
  if (row) { R A(m, n, st.data(), in.data(), va.data(), true); A.write_mm(path().c_str()); }
  else { C A(m, n, st.data(), in.data(), va.data(), true); A.write_mm(path().c_str()); }
  // the text
  std::ifstream f(path());
  std::string   line, w;
  std::getline(f, line);
  json ban = json::array(); { std::istringstream is(line); while (is >> w) ban.push_back(w); }
  e["banner"] = ban;
  do std::getline(f, line); while (f && line.size() && line[0] == '%');
  json sz = json::array(); { std::istringstream is(line); long k; while (is >> k) sz.push_back(k); }
  e["size"] = sz;
  json ls = json::array();
  while (std::getline(f, line)) {
    std::istringstream is(line); std::string a, b, c, d;
    is >> a >> b >> c >> d;
    auto val = [](const std::string &t) { return t.empty() ? 0 : id_of((S)strtod(t.c_str(), nullptr)); };
    ls.push_back(json::array({atol(a.c_str()), atol(b.c_str()), val(c), Traits<V>::cplx ? val(d) : 0}));
  }
  e["lines"] = ls;
  f.close();
  e["d"] = scn["brow"] == 1 ? read_into<R>(scn, Idf<V>()) : read_into<C>(scn, Idf<V>());
}
template <class V> void vec(const json &scn, json &e) {
  typedef typename Traits<V>::real S;
  json v = json::array();
  if (scn["kind"] == "readv") {
    Array<V> a = read_vec<V>(scn);
    for (auto &x : a) v.push_back(json::array({eighth(Traits<V>::re(x)), eighth(Traits<V>::im(x))}));
  } else {
    static const std::vector<S> T = specials<S>();
    Array<V> a((size_t)scn["n"].get<int>());
    for (size_t i = 0; i < a.size(); ++i) { S *q = reinterpret_cast<S *>(&a[i]); q[0] = T[scn["ents"][i][0].get<int>()]; if (Traits<V>::cplx) q[1] = T[scn["ents"][i][1].get<int>()]; }
    a.write_mm(path().c_str());
    std::ifstream f(path());
    std::string   line, w;
    std::getline(f, line);
    json ban = json::array(); { std::istringstream is(line); while (is >> w) ban.push_back(w); }
    e["banner"] = ban;
    do std::getline(f, line); while (f && line.size() && line[0] == '%');
    json sz = json::array(); { std::istringstream is(line); long k; while (is >> k) sz.push_back(k); }
    e["size"] = sz;
    f.close();
    Array<V> b = read_vec<V>(scn);
    for (auto &x : b) v.push_back(json::array({id_of((S)Traits<V>::re(x)), Traits<V>::cplx ? id_of((S)Traits<V>::im(x)) : 0}));
  }
  e["v"] = v;
}
template <class V> void typed(const json &scn, json &e) {
  std::string k = scn["kind"];
  if (k == "readv" || k == "writev") return vec<V>(scn, e);
  switch (scn["iw"].get<int>()) {
    case 0: return matrix<V, int, int>(scn, e);
    case 1: return matrix<V, int, long>(scn, e);
    default: return matrix<V, long, long>(scn, e);
  }
}
int main(int argc, char **argv) {
  return run(argc, argv, [](const json &scn, Out &out) {
    json e = {{"ev", "mm"}, {"threw", 0}, {"what", ""}};
    remove(path().c_str());
    if (scn.value("over", 0) == 1) put(std::string(5000, 'z'));
    if (scn.contains("bad") && scn["bad"] != "nofile") put(Text(scn).make());
    int before = open_fds();
    try {
      std::string ty = scn["ty"];
      if (ty == "d") typed<double>(scn, e);
      else if (ty == "s") typed<float>(scn, e);
      else if (ty == "z") typed<std::complex<double>>(scn, e);
      else typed<std::complex<float>>(scn, e);
    } catch (std::exception &x) {
      e["threw"] = 1; e["what"] = what(x);
    }
    e["fds"] = open_fds() - before;
    remove(path().c_str());
    out.ev(e);
  });
}
