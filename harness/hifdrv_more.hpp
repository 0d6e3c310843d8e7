#pragma once
namespace vh {

// ------------------------------------------------------- iterative refinement
template <class V>
void HifRun<V>::refine(Obj &o, const json &op, json &e) {
  bool        tr = op.value("tr", 0) != 0;
  std::size_t r  = op.value("r", 0);
  uint64_t    sd = op.value("b", 1);
  std::size_t N  = op["N"];
  int         nn = mats[o.mat].n;
  int         am = op.value("am", o.mat + 1) - 1;  // operator used for the residual
  bool        cb = op.value("cb", 0) != 0, defr = op.value("defr", 0) != 0, ccs = op.value("ccs", 0) != 0;
  Arr b = ints(nn, sd, nullptr, op.value("zero", 0) != 0), x(nn);
  std::string b0 = fpa(b);
  for (auto &v : x) v = V(999);
  bool bnz = false;
  for (auto &v : b) if (v != V(0)) bnz = true;
  const IMat &A = mats[am];
  RawCs<V> raw(A, true, 0), rawc(A, false, 0);
  crs_t    M(A.n, raw.ptr.data(), raw.ind.data(), raw.val.data(), true);
  ccs_t    Mc(A.n, rawc.ptr.data(), rawc.ind.data(), rawc.val.data(), true);
  int      ncb = 0, badcb = 0;
  auto dense = [&](const V *in, V *res, bool t) {
    for (int i = 0; i < nn; ++i) {
      V s(0);
      for (int j = 0; j < nn; ++j) {
        int a = t ? A.re[j][i] : A.re[i][j], c = t ? -A.im[j][i] : A.im[i][j];
        if (a || c) s += T::mk(a, c) * in[j];
      }
      res[i] = s;
    }
  };
  std::function<void(const void *, const std::size_t, const char, void *, const char, const bool)> fn =
      [&](const void *in, const std::size_t n, const char ic, void *res, const char oc, const bool t) {
        ++ncb;
        char sig = hif::ValueTypeTrait<V>::signature;
        if ((int)n != nn || ic != sig || oc != sig || t != tr) ++badcb;
        dense((const V *)in, (V *)res, t);
      };
  double betas[2] = {0, 0};
  bool   hasb = op.contains("betas");
  if (hasb) for (int i = 0; i < 2; ++i) betas[i] = op["betas"][i][0].template get<double>() / op["betas"][i][1].template get<double>();
  std::string err;
  std::pair<std::size_t, int> ret(0, 0);
  const std::size_t rr = defr ? (std::size_t)-1 : r;
  try {
    if (hasb) {
      if (cb) ret = o.h->hifir(fn, b, N, betas, x, tr, rr);
      else if (ccs) ret = o.h->hifir(Mc, b, N, betas, x, tr, rr);
      else ret = o.h->hifir(M, b, N, betas, x, tr, rr);
    } else {
      if (cb) o.h->hifir(fn, b, N, x, tr, rr);
      else if (ccs) o.h->hifir(Mc, b, N, x, tr, rr);
      else o.h->hifir(M, b, N, x, tr, rr);
    }
  } catch (std::exception &ex) { err = ex.what(); }
  e["N"] = (int)N; e["tr"] = tr; e["hasb"] = hasb; e["ok"] = err.empty() ? 1 : 0; e["bsame"] = b0 == fpa(b) ? 1 : 0;
  e["iters"] = (int)ret.first; e["flag"] = ret.second < 0 ? -1 : (ret.second > 0 ? 1 : 0);
  e["x"] = qvec(x, nn); e["cb"] = cb; e["badcb"] = badcb; e["ncb"] = ncb; e["zero"] = bnz ? 0 : 1; e["defr"] = defr;
  // reference recurrence on a fresh object
  Obj f; fresh(f, o);
  f.h->nsp = o.h->nsp; f.h->nsp_tran = o.h->nsp_tran;
  json        its = json::array(), cls = json::array();
  Arr         xk(nn), rk(nn), d(nn);
  long double bn = 0;
  for (int i = 0; i < nn; ++i) { xk[i] = V(0); rk[i] = b[i]; bn += std::norm(cld(T::re(b[i]), T::im(b[i]))); }
  bn = std::sqrt((double)bn);
  std::size_t K = std::min<std::size_t>(std::max<std::size_t>(N, 1), 8);
  for (std::size_t k = 0; k < K; ++k) {
    try { f.h->solve(rk, d, tr, rr); } catch (std::exception &ex) { break; }
    for (int i = 0; i < nn; ++i) xk[i] += d[i];
    its.push_back(qvec(xk, nn));
    dense(xk.data(), rk.data(), tr);
    long double rn = 0;
    for (int i = 0; i < nn; ++i) { rk[i] = b[i] - rk[i]; rn += std::norm(cld(T::re(rk[i]), T::im(rk[i]))); }
    long double rel = bn > 0 ? std::sqrt((double)rn) / bn : 0;
    // 1: clearly above, -1: clearly not above, 0: too close to call
    auto side = [&](double beta) { long double g = 1e-3L * std::max((long double)beta, (long double)(std::is_same<R, float>::value ? 1e-4 : 1e-11)); return !(rel == rel) ? 0 : (rel > beta + g ? 1 : (rel < beta - g ? -1 : 0)); };
    cls.push_back({side(betas[0]), side(betas[1])});
  }
  e["its"] = its; e["cls"] = cls;
  out.ev(e);
}

// ------------------------------------------------------- null-space filters
struct OrFilter : public hif::NspFilter {
  mutable int calls = 0;
  std::function<void(void *, std::size_t, char)> f;
  OrFilter() { this->_type = USER_OR; }
  void user_filter(void *x, const std::size_t n, const char c) const override { ++calls; f(x, n, c); }
};
template <class V>
void HifRun<V>::setnsp(Obj &o, const json &op, json &e) {
  std::string side = op["side"], kind = op["kind"];
  auto &      slot = side == "r" ? o.h->nsp : o.h->nsp_tran;
  long        a = op.value("start", 0), z = op.value("end", -1);
  auto user = [](void *x, std::size_t n, char c) {  // x_i <- x_i + (i+1), and only with the right tag
    if (c != hif::ValueTypeTrait<V>::signature) return;
    for (std::size_t i = 0; i < n; ++i) ((V *)x)[i] += T::mk((int)(i + 1), 0);
  };
  if (kind == "none") slot.reset();
  else if (kind == "const") slot = hif::create_nsp_filter((std::size_t)a, (std::size_t)z);
  else if (kind == "set") { if (!slot) slot = hif::create_nsp_filter(); slot->set_nsp_const((std::size_t)a, (std::size_t)z); }
  else if (kind == "cb") slot = hif::create_nsp_filter(hif::NspFilter::user_cb_type(user));
  else if (kind == "setcb") { if (!slot) slot = hif::create_nsp_filter(); slot->set_nsp_callback(hif::NspFilter::user_cb_type(user)); }
  else if (kind == "or") { auto p = std::make_shared<OrFilter>(); p->f = user; slot = p; }
  e["side"] = side; e["kind"] = kind; e["start"] = a; e["end"] = z;
  out.ev(e);
  // followed by one observation of the filtered and of the unfiltered solve
  for (int t = 0; t < 2; ++t) {
    Obj f; fresh(f, o);
    int n = mats[o.mat].n;
    Arr b = ints(n, op.value("b", 1));
    Res raw = do_solve(*f.h, b, t == 1, 0), got = do_solve(*o.h, b, t == 1, 0);
    out.ev({{"ev", "fsolve"}, {"o", op["o"]}, {"tr", t}, {"raw", raw.q}, {"got", got.q}, {"ok", got.err.empty() ? 1 : 0}, {"c", T::cplx ? 1 : 0}, {"n", n}});
  }
}

// ------------------------------------------------------- the levels
template <class V>
void HifRun<V>::dump_levels(Obj &o, const json &op, json &e) {
  const H &   h  = *o.h;
  const auto &P  = h.precs();
  const IMat &A  = mats[o.mat];
  json        Ls = json::array();
  bool        pat = op.value("pat", 1) != 0;
  auto pattern = [&](const typename H::prec_type::mat_type &M) {  // CCS: list of [row, col]
    json a = json::array();
    for (std::size_t j = 0; j + 1 < M.col_start().size() && j < M.ncols(); ++j)
      for (auto k = M.col_start()[j]; k < M.col_start()[j + 1]; ++k) a.push_back({(long)M.row_ind()[k], (long)j});
    return a;
  };
  auto sorted = [&](const typename H::prec_type::mat_type &M) {
    for (std::size_t j = 0; j + 1 < M.col_start().size(); ++j)
      for (auto k = M.col_start()[j]; k + 1 < M.col_start()[j + 1]; ++k) if (M.row_ind()[k] >= M.row_ind()[k + 1]) return 0;
    return 1;
  };
  bool first = true;
  for (auto it = P.begin(); it != P.end(); ++it) {
    json l;
    long m = it->m, n = it->n;
    l["m"] = m; l["n"] = n;
    l["p"] = ivec(it->p, it->p.size()); l["pinv"] = ivec(it->p_inv, it->p_inv.size());
    l["q"] = ivec(it->q, it->q.size()); l["qinv"] = ivec(it->q_inv, it->q_inv.size());
    int okst = 1, one = 1;
    for (auto &v : it->s) { if (!(v > 0) || !std::isfinite((double)v)) okst = 0; if (v != 1) one = 0; }
    for (auto &v : it->t) { if (!(v > 0) || !std::isfinite((double)v)) okst = 0; if (v != 1) one = 0; }
    l["ns"] = (long)it->s.size(); l["nt"] = (long)it->t.size(); l["stpos"] = okst; l["stone"] = one;
    auto dims = [&](const typename H::prec_type::mat_type &M) { return json{(long)M.nrows(), (long)M.ncols(), (long)M.nnz(), sorted(M)}; };
    l["L"] = m ? dims(it->L_B) : json{0, 0, 0, 1}; l["U"] = m ? dims(it->U_B) : json{0, 0, 0, 1};
    l["E"] = dims(it->E); l["F"] = dims(it->F);
    l["Lp"] = pat && m ? pattern(it->L_B) : json::array(); l["Up"] = pat && m ? pattern(it->U_B) : json::array();
    l["nd"] = (long)it->d_B.size();
    long double mx = 0, mn = 1e30L;
    for (long i = 0; i < m; ++i) { long double a = std::abs(it->d_B[i]); mx = std::max(mx, a); mn = std::min(mn, a); }
    l["dmin"] = m && mn > 0 && mn < 1e-6L ? 1 : q(m ? mn : 1); l["dmin12"] = q(m ? mn : 1, 12); l["dmax"] = q(mx);
    int kind = !it->dense_solver.empty() ? 1 : (!it->symm_dense_solver.empty() ? 2 : 0);
    l["dense"] = kind;
    l["dn"] = kind == 1 ? (long)it->dense_solver.mat_backup().nrows() : (kind == 2 ? (long)it->symm_dense_solver.mat_backup().nrows() : 0);
    l["drank"] = kind == 1 ? (long)it->dense_solver.rank() : (kind == 2 ? (long)it->symm_dense_solver.rank() : 0);
    l["lastrank"] = (long)it->last_rank(); l["isl"] = it->is_last_level() ? 1 : 0; l["pnnz"] = (long)it->nnz(); l["pnnzef"] = (long)it->nnz_ef();
    long iq[6]; { std::size_t a, b, c, d, x, y; it->inquire_sizes(a, b, c, d, x, y); iq[0] = a; iq[1] = b; iq[2] = c; iq[3] = d; iq[4] = x; iq[5] = y; }
    l["inq"] = ivec(iq, 6);
    // off-diagonal blocks of the first level, scaling undone: must be entries of A
    json Eo = json::array(), Fo = json::array();
    if (first && pat) {
      auto un = [&](json &a, const typename H::prec_type::mat_type &M, long r0, long c0) {
        for (std::size_t j = 0; j < M.ncols(); ++j)
          for (auto k = M.col_start()[j]; k < M.col_start()[j + 1]; ++k) {
            long i = M.row_ind()[k];
            long pr = it->p[i + r0], qc = it->q[j + c0];
            cld  v(T::re(M.vals()[k]), T::im(M.vals()[k]));
            v /= (long double)it->s[pr] * (long double)it->t[qc];
            a.push_back({pr, qc, q(v.real(), 10), q(v.imag(), 10)});
          }
      };
      if (n > m) { un(Eo, it->E, m, 0); un(Fo, it->F, 0, m); }
    }
    l["Eo"] = Eo; l["Fo"] = Fo;
    // per column of L and per row of U of the level: entry counts
    json lc = json::array(), uc = json::array();
    { std::vector<long> c(m, 0), u(m, 0);
      if (m) { for (long j = 0; j < m; ++j) c[j] = it->L_B.col_start()[j + 1] - it->L_B.col_start()[j];
               for (auto i : it->U_B.row_ind()) ++u[i]; }
      lc = ivec(c, m); uc = ivec(u, m); }
    l["lc"] = lc; l["uc"] = uc;
    // the estimates of |L^-1| and |U^-T| the conditioning threshold bounds
    {
      long double ml = 1, mu = 1;
      if (m) {
        std::vector<cld> x(m), y(m), sl(m, 0), su(m, 0);
        auto pick = [](cld s) { cld a = cld(1) - s, b = cld(-1) - s; return std::abs(a) < std::abs(b) ? b : a; };
        std::vector<std::vector<std::pair<long, cld>>> Lr(m);
        for (long j = 0; j < m; ++j)
          for (auto k = it->L_B.col_start()[j]; k < it->L_B.col_start()[j + 1]; ++k)
            Lr[it->L_B.row_ind()[k]].push_back({j, cld(T::re(it->L_B.vals()[k]), T::im(it->L_B.vals()[k]))});
        for (long i = 0; i < m; ++i) {
          cld s = 0, u = 0;
          for (auto &pr : Lr[i]) s += x[pr.first] * pr.second;
          for (auto k = it->U_B.col_start()[i]; k < it->U_B.col_start()[i + 1]; ++k)
            u += y[it->U_B.row_ind()[k]] * cld(T::re(it->U_B.vals()[k]), T::im(it->U_B.vals()[k]));
          x[i] = pick(s); y[i] = pick(u);
          ml = std::max(ml, std::abs(x[i])); mu = std::max(mu, std::abs(y[i]));
        }
      }
      l["kl"] = q(ml, 8); l["ku"] = q(mu, 8);
    }
    Ls.push_back(l);
    first = false;
  }
  e["levels"] = Ls; e["q"] = query(h); e["n"] = A.n; e["c"] = T::cplx ? 1 : 0;
  // bottom-up reassembly of the matrix the levels represent
  json Rb = json::array();
  if (op.value("re", 1) && A.n <= 64) {
    typedef std::vector<std::vector<cld>> Mx;
    Mx S;
    std::vector<const typename H::prec_type *> v;
    for (auto it = P.begin(); it != P.end(); ++it) v.push_back(&*it);
    for (std::size_t lv = v.size(); lv-- > 0;) {
      const auto &p = *v[lv];
      long m = p.m, n = p.n, d = n - m;
      if (lv + 1 == v.size()) {
        S.assign(d, std::vector<cld>(d, 0));
        if (d) {
          bool sy = p.dense_solver.empty();
          auto at = [&](long i, long j) { V x = sy ? p.symm_dense_solver.mat_backup()(i, j) : p.dense_solver.mat_backup()(i, j); return cld(T::re(x), T::im(x)); };
          for (long i = 0; i < d; ++i) for (long j = 0; j < d; ++j) S[i][j] = (sy && j > i) ? std::conj(at(j, i)) : at(i, j);
        }
      }
      auto dens = [&](const typename H::prec_type::mat_type &M, long r, long c, bool unit) {
        Mx D(r, std::vector<cld>(c, 0));
        if (unit) for (long i = 0; i < r; ++i) D[i][i] = 1;
        if (r && c && M.nnz()) for (long j = 0; j < c; ++j) for (auto k = M.col_start()[j]; k < M.col_start()[j + 1]; ++k) D[M.row_ind()[k]][j] = cld(T::re(M.vals()[k]), T::im(M.vals()[k]));
        return D;
      };
      Mx L = dens(p.L_B, m, m, true), U = dens(p.U_B, m, m, true), E = dens(p.E, d, m, false), F = dens(p.F, m, d, false);
      Mx B(n, std::vector<cld>(n, 0));
      for (long i = 0; i < m; ++i) for (long j = 0; j < m; ++j) { cld s = 0; for (long k = 0; k <= std::min(i, j); ++k) s += L[i][k] * cld(T::re(p.d_B[k]), T::im(p.d_B[k])) * U[k][j]; B[i][j] = s; }
      // C = S + E B^-1 F with B = L D U
      Mx G = F;
      for (long j = 0; j < d; ++j) {
        for (long i = 0; i < m; ++i) for (long k = 0; k < i; ++k) G[i][j] -= L[i][k] * G[k][j];
        for (long i = 0; i < m; ++i) G[i][j] /= cld(T::re(p.d_B[i]), T::im(p.d_B[i]));
        for (long i = m; i-- > 0;) for (long k = i + 1; k < m; ++k) G[i][j] -= U[i][k] * G[k][j];
      }
      for (long i = 0; i < m; ++i) for (long j = 0; j < d; ++j) { B[i][m + j] = F[i][j]; B[m + j][i] = E[j][i]; }
      for (long i = 0; i < d; ++i) for (long j = 0; j < d; ++j) { cld s = S[i][j]; for (long k = 0; k < m; ++k) s += E[i][k] * G[k][j]; B[m + i][m + j] = s; }
      Mx N(n, std::vector<cld>(n, 0));
      for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) N[p.p[i]][p.q[j]] = B[i][j] / ((long double)p.s[p.p[i]] * (long double)p.t[p.q[j]]);
      S = N;
    }
    for (auto &row : S) { json a = json::array(); for (auto &x : row) { a.push_back(q(x.real(), 12)); if (T::cplx) a.push_back(q(x.imag(), 12)); } Rb.push_back(a); }
  }
  e["re"] = Rb;
  out.ev(e);
}

// ------------------------------------------------------- threads
template <class V>
void HifRun<V>::threads(Obj &o, const json &op, json &e) {
  int      n  = mats[o.mat].n;
  uint64_t sd = op.value("b", 1);
  json     res = json::array();
  for (auto &tj : op["ts"]) {
    int t = tj;
    hif::Options p = opts[o.opt];
    p.threads      = t;
    opts.push_back(p);
    Obj  f; f.h.reset(new H());
    bool same = true;
    std::string err = factorize(f, o.mat, (int)opts.size() - 1, o.m0, o.rep, &same);
    opts.pop_back();
    json x = {{"t", t}, {"ok", err.empty() ? 1 : 0}, {"same", same ? 1 : 0}};
    if (err.empty()) {
      x["q"] = query(*f.h);
      Arr b = ints(n, sd), y(n);
      x["solve"] = do_solve(*f.h, b, false, 0).fp;
      x["solvet"] = do_solve(*f.h, b, true, 0).fp;
      x["mult"] = do_mult(*f.h, b, false, 0).fp;
      RawCs<V> raw(mats[o.mat], true, 0);
      crs_t    M(n, raw.ptr.data(), raw.ind.data(), raw.val.data(), true);
      hif::mt::get_nthreads(t);
      f.h->hifir(M, b, 3, y);
      x["ir"] = fpa(y);
      hif::mt::multiply_nt(M, b, y);
      x["mv"] = fpa(y);
      // the same product and refinement from inside a caller's parallel region
#ifdef _OPENMP
      Arr z(n), w(n);
      for (auto &v : z) v = V(-77);
#  pragma omp parallel num_threads(2)
      {
#  pragma omp single
        { hif::mt::multiply_nt(M, b, z); f.h->hifir(M, b, 3, w); }
      }
      // and the factorization itself
      p.threads = t; opts.push_back(p);
      Obj         g; g.h.reset(new H());
      std::string gerr;
#  pragma omp parallel num_threads(2)
      {
#  pragma omp single
        gerr = factorize(g, o.mat, (int)opts.size() - 1, o.m0, o.rep);
      }
      opts.pop_back();
      x["okin"] = gerr.empty() ? 1 : 0;
      if (gerr.empty()) { x["qin"] = query(*g.h); x["solvein"] = do_solve(*g.h, b, false, 0).fp; }
      x["mvin"] = fpa(z); x["irin"] = fpa(w);
#else
      x["mvin"] = x["mv"]; x["irin"] = x["ir"]; x["okin"] = 1; x["qin"] = x["q"]; x["solvein"] = x["solve"];
#endif
      {
        typedef hif::Array<std::array<V, 3>> MA;
        MA B(n), Y(n);
        for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) { B[i][k] = b[(i + k) % n]; Y[i][k] = V(5); }
        hif::mt::multiply_mrhs_nt(M, B, Y);
        x["mm"] = fpv((V *)Y.data(), 3 * n);
      }
    } else x["err"] = err.substr(0, 100);
    res.push_back(x);
  }
  hif::mt::get_nthreads(1);
  e["res"] = res;
  // partition of the index range
  json pt = json::array();
  for (auto &pj : op["parts"]) {
    long nn = pj[0]; int T2 = pj[1];
    json iv = json::array();
    for (int t = 0; t < T2; ++t) { auto pr = hif::mt::uniform_partition(nn, T2, t); iv.push_back({(long)pr.first, (long)pr.second}); }
    pt.push_back({{"n", nn}, {"T", T2}, {"iv", iv}});
  }
  e["parts"] = pt;
  out.ev(e);
}

template <class V>
void HifRun<V>::concurrent(Obj &, const json &op, json &e) {
  // several independent objects factorized and used at the same time
  int  K = (int)mats.size(), rounds = op.value("rounds", 2);
  auto work = [&](int i) {
    hif::Options p = opts[i % opts.size()];
    RawCs<V>     raw(mats[i], true, 0);
    crs_t        M(mats[i].n, raw.ptr.data(), raw.ind.data(), raw.val.data(), true);
    H            h;
    std::string  fp;
    for (int k = 0; k < rounds; ++k) {
      h.factorize(M, p);
      Arr b = ints(mats[i].n, 3 + i), x(b.size()), y(b.size());
      h.solve(b, x); h.mmultiply(x, y); fp += fpa(x) + fpa(y);
      h.solve(b, x, true); fp += fpa(x);
      h.hifir(M, b, 3, y); fp += fpa(y);
    }
    return fp;
  };
  std::vector<std::string> seq(K), con(K);
  std::vector<std::thread> th;
  for (int i = 0; i < K; ++i) th.emplace_back([&, i] { try { con[i] = work(i); } catch (std::exception &x) { con[i] = std::string("!") + x.what(); } });
  for (auto &t : th) t.join();
  for (int i = 0; i < K; ++i) try { seq[i] = work(i); } catch (std::exception &x) { seq[i] = std::string("!") + x.what(); }
  json s = json::array(), c = json::array();
  for (int i = 0; i < K; ++i) { s.push_back(bits(seq[i].data(), seq[i].size())); c.push_back(bits(con[i].data(), con[i].size())); }
  e["seq"] = s; e["con"] = c;
  out.ev(e);
}

// ------------------------------------------------------- truncated solves
template <class V>
void HifRun<V>::truncated(Obj &o, const json &op, json &e) {
  int n = mats[o.mat].n;
  auto numrank = [&](const std::vector<Arr> &cols, int &mg) {  // rank by full-pivot elimination, and its gap
    std::vector<std::vector<cld>> M(n, std::vector<cld>(n));
    for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) M[i][j] = cld(T::re(cols[j][i]), T::im(cols[j][i]));
    int r = 0; long double big = 0, last = 0; mg = 0;
    std::vector<char> cu(n, 0);
    for (; r < n; ++r) {
      int pi = -1, pj = -1; long double b = 0;
      for (int i = r; i < n; ++i) for (int j = r; j < n; ++j) if (std::abs(M[i][j]) > b) { b = std::abs(M[i][j]); pi = i; pj = j; }
      if (r == 0) big = b;
      if (pi < 0 || b <= big * (std::is_same<R, float>::value ? 1e-4L : 1e-9L)) { mg = b > 0 && last > 0 ? (int)std::log2((double)(last / b)) : 99; break; }
      last = b;
      std::swap(M[pi], M[r]);
      for (int i = 0; i < n; ++i) std::swap(M[i][pj], M[i][r]);
      for (int i = r + 1; i < n; ++i) { cld f = M[i][r] / M[r][r]; for (int j = r; j < n; ++j) M[i][j] -= f * M[r][j]; }
    }
    if (r == n) mg = 99;
    return r;
  };
  json rs = json::array();
  std::vector<int> list{0};
  int srank = (int)o.h->schur_rank();
  if (srank >= 1) { list.push_back(srank); list.push_back(1); }
  if (srank >= 3) list.push_back(srank / 2);
  if (srank >= 2) list.push_back(srank - 1);
  for (int r : list) {
    json x = {{"r", r}};
    std::string err;
    std::vector<Arr> S, M;
    int finite = 1;
    for (int j = 0; j < n && err.empty(); ++j) {
      Arr u(n), y(n), w(n);
      for (int i = 0; i < n; ++i) u[i] = V(i == j ? 1 : 0);
      try { o.h->solve(u, y, false, r); o.h->mmultiply(u, w, false, r); } catch (std::exception &ex) { err = ex.what(); }
      for (int i = 0; i < n; ++i) if (!std::isfinite((double)T::re(y[i])) || !std::isfinite((double)T::im(y[i])) || !std::isfinite((double)T::re(w[i])) || !std::isfinite((double)T::im(w[i]))) finite = 0;
      S.push_back(y); M.push_back(w);
    }
    x["ok"] = err.empty() ? 1 : 0; x["finite"] = finite;
    int ms = 0, mm = 0;
    if (err.empty()) for (int j = 0; j < n; ++j) { ms = std::max(ms, mag(S[j])); mm = std::max(mm, mag(M[j])); }
    x["amps"] = ms + mm;
    int g1 = 0, g2 = 0;
    x["orank"] = err.empty() && finite ? numrank(S, g1) : -1; x["mrank"] = err.empty() && finite ? numrank(M, g2) : -1;
    x["gap"] = std::min(g1, g2);
    // projector identities on one vector
    Arr b = ints(n, op.value("b", 1)), y(n), w(n), z(n), bt(n);
    try { o.h->solve(b, y, false, r); o.h->mmultiply(y, w, false, r); o.h->solve(w, z, false, r); } catch (std::exception &ex) { err = ex.what(); }
    x["y"] = qvec(y, n); x["z"] = qvec(z, n);
    long double mx = 1; for (int i = 0; i < n; ++i) mx = std::max(mx, (long double)std::abs(w[i]));
    for (int i = 0; i < n; ++i) mx = std::max(mx, (long double)std::abs(y[i]));
    x["amp"] = std::isfinite((double)mx) ? (int)std::ceil(std::log2((double)mx)) : 200;
    try { o.h->solve(b, y, true, r); o.h->mmultiply(y, w, true, r); o.h->solve(w, z, true, r); } catch (std::exception &ex) { err = ex.what(); }
    x["yt"] = qvec(y, n); x["zt"] = qvec(z, n);
    // fingerprints of the operators as a whole, plain on every unit vector and transposed on one
    std::string fp;
    for (int j = 0; j < n && err.empty(); ++j) fp += fpa(S[j]) + fpa(M[j]);
    if (err.empty()) { Arr u(n), v(n); o.h->solve(b, u, true, r); o.h->mmultiply(b, v, true, r); fp += fpa(u) + fpa(v); }
    x["fp"] = bits(fp.data(), fp.size());
    rs.push_back(x);
  }
  e["rs"] = rs; e["n"] = n; e["q"] = query(*o.h);
  out.ev(e);
}
}  // namespace vh
