// Integer matrix families: concretisation of the abstract matrices the
// specification's generators choose.
#pragma once
#include "vh.hpp"
namespace vh {
struct IMat {  // dense mirror, Gaussian-integer entries, explicit pattern
  int                           n = 0, m = 0;  // n rows, m columns
  std::vector<std::vector<int>> re, im;
  std::vector<std::vector<char>> nz;
  void init(int r, int c) {
    n = r; m = c;
    re.assign(r, std::vector<int>(c, 0)); im = re;
    nz.assign(r, std::vector<char>(c, 0));
  }
  void set(int i, int j, int a, int b = 0) { re[i][j] = a; im[i][j] = b; nz[i][j] = (a != 0 || b != 0); }
  int  nnz() const { int k = 0; for (auto &r : nz) for (char c : r) k += c; return k; }
};

// exact rank over Z[i] via elimination modulo a prime with a square root of -1
inline int exact_rank(const IMat &A) {
  int best = 0;
  for (long long P : {998244353ll, 754974721ll}) {
    auto pw = [&](long long b, long long e) { long long r = 1; b %= P; if (b < 0) b += P; while (e) { if (e & 1) r = r * b % P; b = b * b % P; e >>= 1; } return r; };
    long long I = 0;
    for (long long g = 2;; ++g) { long long t = pw(g, (P - 1) / 4); if (t * t % P == P - 1) { I = t; break; } }
    std::vector<std::vector<long long>> M(A.n, std::vector<long long>(A.m));
    for (int i = 0; i < A.n; ++i) for (int j = 0; j < A.m; ++j) M[i][j] = (((A.re[i][j] + A.im[i][j] * (I % P)) % P) + P) % P;
    int r = 0;
    for (int c = 0; c < A.m && r < A.n; ++c) {
      int p = -1;
      for (int i = r; i < A.n; ++i) if (M[i][c]) { p = i; break; }
      if (p < 0) continue;
      std::swap(M[p], M[r]);
      long long iv = pw(M[r][c], P - 2);
      for (int i = r + 1; i < A.n; ++i) if (M[i][c]) {
        long long f = M[i][c] * iv % P;
        for (int j = c; j < A.m; ++j) M[i][j] = ((M[i][j] - f * M[r][j]) % P + P) % P;
      }
      ++r;
    }
    best = std::max(best, r);
  }
  return best;
}
// log2 of the 1-norm condition number (99 when singular)
typedef std::complex<long double> cld;
inline bool ld_inverse(std::vector<std::vector<cld>> M, std::vector<std::vector<cld>> &R) {
  int n = (int)M.size();
  R.assign(n, std::vector<cld>(n, 0));
  for (int i = 0; i < n; ++i) R[i][i] = 1;
  for (int c = 0; c < n; ++c) {
    int p = c;
    for (int i = c; i < n; ++i) if (std::abs(M[i][c]) > std::abs(M[p][c])) p = i;
    if (std::abs(M[p][c]) < 1e-13L) return false;
    std::swap(M[p], M[c]); std::swap(R[p], R[c]);
    cld iv = (long double)1 / M[c][c];
    for (int j = 0; j < n; ++j) { M[c][j] *= iv; R[c][j] *= iv; }
    for (int i = 0; i < n; ++i) if (i != c && M[i][c] != cld(0)) {
      cld f = M[i][c];
      for (int j = 0; j < n; ++j) { M[i][j] -= f * M[c][j]; R[i][j] -= f * R[c][j]; }
    }
  }
  return true;
}
inline int cond_log2(const IMat &A) {
  if (A.n == 0) return 0;
  std::vector<std::vector<cld>> M(A.n, std::vector<cld>(A.n)), R;
  for (int i = 0; i < A.n; ++i) for (int j = 0; j < A.n; ++j) M[i][j] = cld(A.re[i][j], A.im[i][j]);
  if (!ld_inverse(M, R)) return 99;
  long double a = 0, b = 0;
  for (int j = 0; j < A.n; ++j) {
    long double s = 0, t = 0;
    for (int i = 0; i < A.n; ++i) { s += std::abs(M[i][j]); t += std::abs(R[i][j]); }
    a = std::max(a, s); b = std::max(b, t);
  }
  return (int)std::ceil(std::log2((double)(a * b)));
}

// families.  All entries are small integers; complex types get imaginary parts.
inline IMat make_matrix(const std::string &fam, int n, uint64_t seed, bool cplx) {
  IMat A; A.init(n, n);
  Rng  r(seed * 1315423911ull + n * 2654435761ull + std::hash<std::string>{}(fam));
  auto v = [&](int a) { int x = 0; while (!x) x = r.in(-a, a); return x; };
  auto im = [&](int a) { return cplx ? r.in(-a, a) : 0; };
  auto dominate = [&](bool symm) {
    for (int i = 0; i < n; ++i) {
      int s = 1;
      for (int j = 0; j < n; ++j) if (j != i) s += std::abs(A.re[i][j]) + std::abs(A.im[i][j]);
      A.set(i, i, r.chance(50) && !symm ? -s : s, 0);
    }
  };
  auto symm = [&](int dens, int mag) {
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (r.in(1, 100) <= dens) {
      int a = v(mag), b = im(mag);
      A.set(i, j, a, b); A.set(j, i, a, -b);
    }
  };
  int dens = std::max(12, 300 / std::max(n, 1));
  if (fam == "rand" || fam == "zdiag") {
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
      if (i == j ? !r.chance(fam == "zdiag" ? 70 : 30) : r.in(1, 100) <= dens) A.set(i, j, v(i == j ? 3 : 4), im(3));
    // a hidden transversal keeps most samples structurally nonsingular
    std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i;
    for (int i = n - 1; i > 0; --i) std::swap(p[i], p[r.in(0, i)]);
    for (int i = 0; i < n; ++i) if (!A.nz[i][p[i]]) A.set(i, p[i], v(4), im(2));
  } else if (fam == "dd") {
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && r.in(1, 100) <= dens) A.set(i, j, v(2), im(2));
    dominate(false);
  } else if (fam == "permdd") {  // dominant after an unknown row permutation
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && r.in(1, 100) <= dens) A.set(i, j, v(2), im(1));
    dominate(false);
    for (int i = n - 1; i > 0; --i) { int k = r.in(0, i); std::swap(A.re[i], A.re[k]); std::swap(A.im[i], A.im[k]); std::swap(A.nz[i], A.nz[k]); }
  } else if (fam == "symlead") {  // general, with a (plainly) symmetric leading block of half the size
    int k = (n + 1) / 2;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && r.in(1, 100) <= dens) A.set(i, j, v(3), im(2));
    dominate(false);
    for (int i = 0; i < n; ++i) if (r.chance(25)) A.set(i, i, i < k ? r.in(-1, 1) : v(3), im(1));
    for (int i = 0; i < k; ++i) for (int j = 0; j < i; ++j) { A.set(i, j, A.re[j][i], A.im[j][i]); }
  } else if (fam == "arrow") {
    for (int i = 0; i < n; ++i) { A.set(i, i, v(3), 0); if (i) { A.set(0, i, v(3), im(2)); A.set(i, 0, v(3), im(2)); } }
  } else if (fam == "tri") {  // convection-diffusion like
    for (int i = 0; i < n; ++i) { A.set(i, i, 4 + r.in(0, 2), 0); if (i) { A.set(i, i - 1, -1 - r.in(0, 1), im(1)); A.set(i - 1, i, -1, im(1)); } }
  } else if (fam == "grid" || fam == "hspd") {  // 5-point, (Hermitian) positive definite
    int k = std::max(1, (int)std::sqrt((double)n));
    for (int i = 0; i < n; ++i) {
      if ((i + 1) % k && i + 1 < n) { int b = im(1); A.set(i, i + 1, -1, b); A.set(i + 1, i, -1, -b); }
      if (i + k < n) { int b = im(1); A.set(i, i + k, -1, b); A.set(i + k, i, -1, -b); }
    }
    if (fam == "hspd") symm(dens / 2, 1);
    dominate(true);
  } else if (fam == "hnd") {  // negative definite
    symm(dens, 2); dominate(true);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { A.re[i][j] = -A.re[i][j]; A.im[i][j] = -A.im[i][j]; }
  } else if (fam == "hindef") {  // symmetric/Hermitian indefinite, some zero diagonals
    symm(dens, 3);
    for (int i = 0; i < n; ++i) A.set(i, i, r.chance(35) ? 0 : v(4), 0);
  } else if (fam == "saddle") {  // [K B'; B 0]
    int k = n - n / 3;
    for (int i = 0; i < k; ++i) { A.set(i, i, 4, 0); if (i) { A.set(i, i - 1, -1, 0); A.set(i - 1, i, -1, 0); } }
    for (int i = k; i < n; ++i) { int j0 = (i - k) % std::max(1, k); for (int e = 0; e < 3; ++e) { int j = e ? r.in(0, k - 1) : j0; int a = v(2), b = im(1); A.set(i, j, a, b); A.set(j, i, a, -b); } }
  } else if (fam == "block") {
    for (int b = 0; b < n;) { int w = std::min(n - b, r.in(1, 4)); for (int i = b; i < b + w; ++i) for (int j = b; j < b + w; ++j) A.set(i, j, v(4), im(3)); b += w; }
  } else if (fam == "circ") {  // pure cyclic shift plus noise: zero diagonal everywhere
    for (int i = 0; i < n; ++i) { A.set(i, (i + 1) % n, v(3), im(2)); if (r.chance(40)) { int j = r.in(0, n - 1); if (j != i) A.set(i, j, v(2), im(1)); } }
    if (n == 1) A.set(0, 0, 2, 0);
  } else if (fam == "dense") {
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A.set(i, j, r.in(-4, 4), im(4));
  } else if (fam == "diag") {
    for (int i = 0; i < n; ++i) A.set(i, i, v(9), im(4));
  } else if (fam == "weak") {  // many tiny pivots relative to their row: dynamic deferrals
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && r.in(1, 100) <= dens) A.set(i, j, v(9), im(9));
    for (int i = 0; i < n; ++i) { A.set(i, i, r.chance(50) ? 1 : 8, 0); int j = r.in(0, n - 1); A.set(i, j, v(9), im(5)); }
  } else if (fam == "rscale") {  // rows and columns scaled by powers of two
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && r.in(1, 100) <= dens) A.set(i, j, v(2), im(1));
    dominate(false);
    for (int i = 0; i < n; ++i) { int e = 1 << r.in(0, 4), f = 1 << r.in(0, 4); for (int j = 0; j < n; ++j) { A.re[i][j] *= e; A.im[i][j] *= e; A.re[j][i] *= f; A.im[j][i] *= f; } }
  } else if (fam == "bigarrow") {  // second half has a zero diagonal: deferred, with a large filled complement
    int h = n / 2 - 5;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      if (i == j) { if (i < h) A.set(i, j, 50 + i % 60, 0); }
      else if (i < h && j < h) { if (r.in(1, 200) == 1) A.set(i, j, 1, im(1)); }
      else if (i < h || j < h) { if (r.in(1, 3) == 1) A.set(i, j, v(3), im(1)); }
      else if (r.in(1, 40) == 1 || j == (i + 1 - h) % (n - h) + h) A.set(i, j, 3 + r.in(0, 4), im(2));
    }
  } else if (fam == "lap") {  // singular: path/graph Laplacian (constant null vector)
    for (int i = 0; i + 1 < n; ++i) { A.set(i, i + 1, -1); A.set(i + 1, i, -1); }
    for (int e = 0; e < n; ++e) { int i = r.in(0, n - 1), j = r.in(0, n - 1); if (i != j) { int w = r.in(1, 3); A.set(i, j, -w); A.set(j, i, -w); } }
    for (int i = 0; i < n; ++i) { int s = 0; for (int j = 0; j < n; ++j) if (j != i) s -= A.re[i][j]; A.set(i, i, s); }
  } else if (fam == "sing") {  // k dependent rows
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i == j || r.in(1, 100) <= dens) A.set(i, j, i == j ? 5 + r.in(0, 3) : v(2), im(1));
    int k = r.in(1, std::max(1, n / 4));
    for (int t = 0; t < k && n >= 3; ++t) {
      int i = n - 1 - t, a = r.in(0, n - 1 - k), b = r.in(0, n - 1 - k);
      for (int j = 0; j < n; ++j) A.set(i, j, A.re[a][j] - A.re[b][j] + (a == b ? A.re[a][j] : 0), A.im[a][j] - A.im[b][j] + (a == b ? A.im[a][j] : 0));
    }
  } else if (fam == "hsing") {  // symmetric/Hermitian, singular: bordered duplicate rows+cols
    symm(dens, 2);
    for (int i = 0; i < n; ++i) A.set(i, i, 6 + r.in(0, 3), 0);
    if (n >= 2) {
      for (int j = 0; j < n; ++j) { A.set(n - 1, j, A.re[0][j], A.im[0][j]); }
      for (int j = 0; j < n; ++j) { A.set(j, n - 1, A.re[j][0], A.im[j][0]); }
      A.set(n - 1, n - 1, A.re[0][0], 0); A.set(n - 1, 0, A.re[0][0], 0); A.set(0, n - 1, A.re[0][0], 0);
    }
  } else {
    throw std::runtime_error("unknown family " + fam);
  }
  return A;
}
inline json jmat(const IMat &A, bool cplx) {
  json rows = json::array();
  for (int i = 0; i < A.n; ++i) {
    json row = json::array();
    for (int j = 0; j < A.m; ++j)
      if (A.nz[i][j]) { json e = {j, A.re[i][j]}; if (cplx) e.push_back(A.im[i][j]); row.push_back(e); }
    rows.push_back(row);
  }
  return rows;
}
}  // namespace vh
