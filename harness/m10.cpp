// M10: discriminant analysis assigns every observation by the locally weighted score
#include "common.h"
using namespace std; using namespace gwm;
void run_case(Case& c)
{
    Rng& r = c.r; uword n = pickN(r, {24, 40, 61, 80}), nv = uword(r.i(2, 4)); int g = r.i(2, 4); bool qda = c.id % 2;
    Data d = genData(r, n, nv, false); mat D = orc::distMat(d.metric, d.coords, d.coords); Kern k = genKern(r, d, D, -1, r.i(0, 3), .6);
    for (uword i = 0; i < n; i++) { vec di = D.row(i).t(); if (!(orc::kernBw(k, di) > 0)) { c.tag("skip:zero-bandwidth"); return; } }
    vector<string> names = {"north", "a", "Z", "mid dle"}; vector<string> y(n); uvec cls(n);
    double m0 = arma::mean(d.x.col(0)), s0 = arma::stddev(d.x.col(0));
    for (uword i = 0; i < n; i++) { int q = int(floor((d.x(i, 0) - m0) / s0 + .8 * r.n() + g / 2.0)); q = min(g - 1, max(0, q)); if (int(i) < 4 * g) q = int(i) % g; cls(i) = uword(q); y[i] = names[size_t(q)]; }
    // levels in order of first appearance
    vector<string> lev; for (auto& s : y) if (find(lev.begin(), lev.end(), s) == lev.end()) lev.push_back(s);
    uvec cl(n); for (uword i = 0; i < n; i++) cl(i) = uword(find(lev.begin(), lev.end(), y[i]) - lev.begin());
    bool hc = r.b(.7), hm = r.b(.7), hp = r.b(.7); int par = r.i(0, 2), th = r.i(1, 7);
    string cell = string(qda ? "qda" : "lda") + (par ? "/omp" : "/serial");
    c.desc = d.desc + fmt(" %s kernel=%s adaptive=%d bw=%.10g groups=%d localcov=%d localmean=%d localprior=%d threads=%d", cell.c_str(), kname(k.kernel).c_str(), int(k.adaptive), k.bw, g, int(hc), int(hm), int(hp), th);
    mat W = orc::weightMat(k, D); W.diag().zeros();
    GWDA a; a.setCoords(d.coords); a.setVariables(d.x); a.setSpatialWeight(mkSW(k, d.metric)); { auto t = y; a.setGroup(t); } a.setIsWqda(qda); a.setHascov(hc); a.setHasmean(hm); a.setHasprior(hp);
    if (par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(th); }
    // the reference
    mat score(n, uword(g)); vec bad(n, arma::fill::zeros); vector<mat> covs(size_t(g), mat(nv, nv));
    for (uword i = 0; i < n; i++)
    {
        vector<rowvec> mu; vector<mat> cov; vector<double> lp; double nall = 0; mat pool(nv, nv, arma::fill::zeros);
        for (uword q = 0; q < uword(g); q++)
        {
            uvec idx = arma::find(cl == q); mat X = d.x.rows(idx); vec one(idx.n_elem, arma::fill::ones), w = W.row(i).t(); w = w(idx);
            vec wm = hm ? w : one, wc = hc ? w : one, wp = hp ? w : one;
            if (!(arma::sum(w) > 1e-12)) { bad(i) = 1; break; }
            rowvec m = wm.t() * X / arma::sum(wm), mc = wc.t() * X / arma::sum(wc); vec u = wc / arma::sum(wc); mat Z = X.each_row() - mc; mat S = Z.t() * arma::diagmat(u) * Z / (1 - arma::dot(u, u));
            if (!(1 - arma::dot(u, u) > 1e-6)) { bad(i) = 1; break; }
            mu.push_back(m); cov.push_back(S); lp.push_back(log(arma::sum(wp))); pool += double(idx.n_elem) * S; nall += double(idx.n_elem);
        }
        if (bad(i)) continue;
        for (uword q = 0; q < uword(g); q++)
        {
            mat S = qda ? cov[q] : mat(pool / nall); if (!(arma::cond(S) < 1e8)) { bad(i) = 1; break; }
            vec z = (d.x.row(i) - mu[q]).t(); score(i, q) = double(g) / 2 * log(arma::norm(S, 2)) + .5 * arma::dot(z, arma::solve(S, z)) - lp[q];
        }
    }
    try { a.run(); } catch (const std::exception& e) { c.check(arma::accu(bad) > 0, cell + ":exception", string(e.what()) + " in " + c.desc); c.tag("rejected"); return; }
    mat R = a.res(), P = a.probs(); vec pm = a.pmax(), en = a.entropy(); auto grp = a.group();
    if (!c.check(R.n_rows == n && R.n_cols == uword(g) && P.n_rows == n && P.n_cols == uword(g) && pm.n_elem == n && en.n_elem == n && grp.size() == n, cell + ":shape", c.desc)) return;
    double corr = 0; uword used = 0;
    for (uword i = 0; i < n; i++)
    {
        corr += grp[i] == y[i];
        if (bad(i)) { c.tag("skip:degenerate"); continue; } used++;
        double mx = arma::abs(score.row(i)).max() + 1, best = score.row(i).min(), tol = 1e-7 * mx; auto at = [&](int q) { return c.desc + fmt(" at observation %d level %d", int(i), q); };
        double z = 0; for (uword q = 0; q < uword(g); q++) z += exp(best - score(i, q)); double H = 0, pmw = 0;
        for (uword q = 0; q < uword(g); q++)
        {
            if (q) c.close(R(i, q) - R(i, 0), score(i, q) - score(i, 0), tol, cell + ":score", at(int(q)));
            double p = exp(best - score(i, q)) / z; if (p > 0) H -= p * log2(p); pmw = max(pmw, p); c.close(P(i, q), p, 1e-6 * mx, cell + ":probs", at(int(q)));
        }
        c.close(pm(i), pmw, 1e-6 * mx, cell + ":pmax", at(-1)); c.close(en(i), H / log2(double(g)), 1e-5 * mx, cell + ":entropy", at(-1));
        auto it = find(lev.begin(), lev.end(), grp[i]);
        c.check(it != lev.end() && score(i, uword(it - lev.begin())) <= best + tol, cell + ":group", at(-1) + " assigned " + grp[i]);
    }
    c.close(a.correctRate(), corr / double(n), 1e-12, cell + ":rate", c.desc);
    if (used) { c.nontrivial = true; c.tag(cell + fmt("/cov%d", int(hc))); c.tag(cell + fmt("/mean%d", int(hm))); c.tag(cell + fmt("/prior%d", int(hp))); c.tag(fmt("groups%d/", g) + cell); }
}
