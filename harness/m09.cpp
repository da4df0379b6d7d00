// M09: local principal components diagonalise the local weighted covariance
#include "common.h"
using namespace std; using namespace gwm;
void run_case(Case& c)
{
    Rng& r = c.r; uword n = pickN(r, {12, 25, 40, 66}), nv = uword(r.i(2, 6)); int K = r.i(1, int(nv));
    Data d = genData(r, n, nv, false); if (r.b(.3)) for (uword j = 0; j < nv; j++) d.x.col(j) = d.x.col(j) * r.pick({.1, 1.0, 10.0}) + r.pick({0.0, 20.0});
    mat D = orc::distMat(d.metric, d.coords, d.coords); Kern k = genKern(r, d, D, -1, -1, .35);
    for (uword i = 0; i < n; i++)
    {
        vec di = D.row(i).t(); double b = orc::kernBw(k, di); if (!(b > 0)) { c.tag("skip:zero-bandwidth"); return; }
        if (k.kernel == 4) for (double x : di) if (fabs(x - b) <= 1e-9 * b) k.kernel = 2;
    }
    string cell = k.adaptive ? "adaptive" : "fixed"; c.desc = d.desc + fmt(" kernel=%s adaptive=%d bw=%.10g keep=%d", kname(k.kernel).c_str(), int(k.adaptive), k.bw, K);
    mat W = orc::weightMat(k, D);
    GWPCA a; a.setCoords(d.coords); a.setVariables(d.x); a.setSpatialWeight(mkSW(k, d.metric)); a.setKeepComponents(K);
    c.check(a.isValid(), cell + ":valid", c.desc); a.run(); c.check(a.status() == Status::Success, cell + ":status", c.desc);
    mat pv = a.localPV(), sd = a.sdev(); cube L = a.loadings();
    if (!c.check(pv.n_rows == n && pv.n_cols == uword(K), cell + ":pv:shape", c.desc) || !c.check(sd.n_rows == n && sd.n_cols == nv, cell + ":sdev:shape", c.desc) || !c.check(L.n_rows == n && L.n_cols == nv && L.n_slices == uword(K), cell + ":loadings:shape", c.desc)) return;
    for (uword i = 0; i < n; i++)
    {
        vec w = W.row(i).t(); w /= arma::sum(w); rowvec m = w.t() * d.x; mat Z = d.x.each_row() - m; mat S = Z.t() * arma::diagmat(w) * Z;
        vec ev; mat V; arma::eig_sym(ev, V, S); ev = arma::reverse(ev); V = arma::fliplr(V); double tot = arma::accu(ev), mx = max(ev(0), 1e-300);
        if (!(tot > 0) || ev(0) < 1e-8 * arma::accu(arma::square(d.x)) / double(n)) { c.tag("skip:degenerate"); continue; }
        c.nontrivial = true; c.tag(cell + ":" + kname(k.kernel));
        for (uword j = 0; j < nv; j++) if (ev(j) > 1e-10 * mx) c.close(sd(i, j), sqrt(ev(j)), 1e-7 * sqrt(mx) * sqrt(mx / ev(j)), cell + ":sdev", c.desc + fmt(" at observation %d component %d", int(i), int(j)));
        for (int j = 0; j < K; j++)
        {
            c.close(pv(i, uword(j)), 100 * ev(uword(j)) / tot, 1e-7, cell + ":pv", c.desc + fmt(" at observation %d component %d", int(i), j));
            vec l = L.slice(uword(j)).row(i).t(); double gap = 1; if (j) gap = min(gap, (ev(uword(j) - 1) - ev(uword(j))) / mx); if (uword(j) + 1 < nv) gap = min(gap, (ev(uword(j)) - ev(uword(j) + 1)) / mx);
            c.close(arma::dot(l, l), 1, 1e-9, cell + ":unit", c.desc + fmt(" at observation %d component %d", int(i), j));
            for (int q = 0; q < j; q++) c.close(arma::dot(l, arma::vec(L.slice(uword(q)).row(i).t())), 0, 1e-9, cell + ":orthogonal", c.desc + fmt(" at observation %d components %d,%d", int(i), q, j));
            if (gap > 1e-5) c.close(arma::norm(S * l - ev(uword(j)) * l), 0, 1e-7 * mx, cell + ":eigenvector", c.desc + fmt(" at observation %d component %d", int(i), j));
            else c.tag("close-eigenvalues");
        }
    }
}
