// M05: scalable GWR: polynomial kernels over the nearest neighbours, one scale and one global penalty found by minimising the criterion
#include "common.h"
using namespace std; using namespace gwm;
namespace {
struct Nb { vector<vector<uword>> id; vector<vec> d; mat col; bool tied = false; };
// which = 0: the m nearest; 1: the m nearest other observations; 2: the observation, then the m nearest (itself again); 3: the observation, then the m nearest others
Nb nbs(const mat& D, uword m, int which)
{
    Nb o; uword R = D.n_rows, N = D.n_cols; uword cols = m + (which >= 2); o.col.set_size(R, cols);
    for (uword i = 0; i < R; i++)
    {
        vector<uword> ix; for (uword j = 0; j < N; j++) if (!((which == 1 || which == 3) && j == i)) ix.push_back(j);
        sort(ix.begin(), ix.end(), [&](uword a, uword b) { return D(i, a) < D(i, b) || (D(i, a) == D(i, b) && a < b); });
        if (m < ix.size() && D(i, ix[m]) - D(i, ix[m - 1]) <= 1e-9 * (D(i, ix[m]) + 1e-300)) o.tied = true;
        ix.resize(m); if (which >= 2) ix.insert(ix.begin(), i); vec d(cols); for (uword k = 0; k < cols; k++) d(k) = (which >= 2 && k == 0) ? 0 : D(i, ix[k]);
        o.id.push_back(ix); o.d.push_back(d); o.col.row(i) = d.t();
    }
    return o;
}
struct Sc { mat betas, yhat; double trS = 0, cond = 0, mindet = 1e300; };
Sc solveAll(const mat& X, const vec& y, const mat& F, const Nb& q, double band0, int kernel, int P, double b, double a)
{
    uword R = q.id.size(), p = X.n_cols; Sc o; o.betas.zeros(R, p); vec w0(uword(P) + 1); for (int k = 0; k <= P; k++) w0(uword(k)) = pow(b, k + 1); w0 /= arma::sum(w0); mat XX = X.t() * X; vec XY = X.t() * y; o.yhat.zeros(R, 1);
    for (uword i = 0; i < R; i++)
    {
        mat M = a * XX; vec v = a * XY;
        for (uword k = 0; k < q.id[i].size(); k++)
        {
            double t = q.d[i](k) / band0, g0 = kernel ? exp(-t) : exp(-t * t), w = w0(0); for (int h = 1; h <= P; h++) w += w0(uword(h)) * pow(g0, pow(2.0, P / 2.0) / pow(2.0, h));
            uword j = q.id[i][k]; M += w * (X.row(j).t() * X.row(j)); v += w * y(j) * X.row(j).t();
        }
        double cd = arma::cond(M); o.cond = max(o.cond, std::isfinite(cd) ? cd : 1e300); if (!(cd < 1e14)) continue; o.mindet = min(o.mindet, arma::det(M));
        o.betas.row(i) = arma::solve(M, v).t(); o.yhat(i) = F.n_rows ? arma::dot(F.row(i), o.betas.row(i)) : 0; if (F.n_rows) { vec z = arma::solve(M, F.row(i).t()); o.trS += arma::dot(z, z); }
    }
    return o;
}
double band(const Nb& q, uword bw, int kernel) { uword k = min(min<uword>(50, bw), q.col.n_cols) - 1; return arma::median(q.col.col(k)) / (kernel ? 3 : sqrt(3.0)); }
}
void run_case(Case& c)
{
    Rng& r = c.r; bool pred = c.id % 3 == 2; uword n = pickN(r, {25, 40, 60, 90}), np = uword(r.i(1, 3)); bool icpt = r.b(.85);
    Data d = genData(r, n, np, icpt); mat D = orc::distMat(d.metric, d.coords, d.coords); int kernel = r.i(0, 1), P = r.i(1, 6); bool aic = r.b(.4); uword bw = uword(r.pick({r.i(8, 20), r.i(20, int(n)), int(n), int(n) + 10, 52})), m = min(bw, n);
    string cell = string(pred ? "predict" : "fit") + (aic ? "/aic" : "/cv") + (kernel ? "/exponential" : "/gaussian");
    c.desc = d.desc + fmt(" %s bw=%d polynomial=%d", cell.c_str(), int(bw), P); uword nb = min(bw, n - 1);
    Nb own = nbs(D, nb, 0), data = nbs(D, aic ? m : m - 1, aic ? 2 : 0); if (own.tied || data.tied) { c.tag("skip:tied-neighbours"); return; }
    double bo = band(own, nb, kernel), bd = band(data, nb, kernel); if (!(bo > 0) || !(bd > 0)) { c.tag("skip:zero-bandwidth"); return; }
    Nb dn = nbs(D, aic ? min(m, n - 1) : m - 1, aic ? 3 : 1); double bn = band(dn, nb, kernel);
    auto critOf = [&](const Nb& q, double b0, double bt, double al, double& cond) {
        Sc s = solveAll(d.x, d.y, d.x, q, b0, kernel, P, bt * bt, al * al); cond = s.cond; vec e = d.y - s.yhat; double sse = arma::dot(e, e), N = double(n);
        if (aic && !(s.mindet > 1e-9)) cond = 1e300; return aic ? N * log(sse / N) + N * log(2 * 3.14159265358979323846) + N * (N + s.trS) / (N - 2 - s.trS) : sse; };
    GWRScalable a; a.setCoords(d.coords); a.setDependentVariable(d.y); a.setIndependentVariables(d.x); a.setHasIntercept(icpt); { Kern k; k.adaptive = true; k.kernel = kernel; k.bw = double(bw); a.setSpatialWeight(mkSW(k, d.metric)); }
    a.setPolynomial(uword(P)); a.setParameterOptimizeCriterion(aic ? GWRScalable::BandwidthSelectionCriterionType::AIC : GWRScalable::BandwidthSelectionCriterionType::CV);
    auto mon = make_shared<MonState>(); a.setTelegram(tele(mon)); c.check(a.isValid(), cell + ":valid", c.desc); c.check(a.polynomial() == uword(P), cell + ":polynomial", c.desc);
    mat L, B; try { if (pred) { uword q = uword(r.pick({1, 7, 30, 70})); L.set_size(q, 2); for (uword i = 0; i < q; i++) { uword s = uword(r.i(0, int(n) - 1)), t = uword(r.i(0, int(n) - 1)); double u = r.pick({0.0, r.u(0, .4)}); L.row(i) = (1 - u) * d.coords.row(s) + u * d.coords.row(t); } if (r.b(.3)) a.fit(); B = a.predict(L); } else B = a.fit(); }
    catch (const exception& e) { double c1; double v = critOf(data, bd, 1, .01, c1); c.tag("threw/" + cell); c.check(!(c1 < 1e9 && std::isfinite(v)), cell + ":exception", string(e.what()) + " in " + c.desc); return; }
    c.check(a.status() == Status::Success, cell + ":status", c.desc); c.events += uint64_t(mon->progs + mon->stops);
    c.check(a.spatialWeight().weight<BandwidthWeight>()->bandwidth() == double(bw), cell + ":bandwidth-changed", c.desc);
    double sc = a.scale(), pe = a.penalty(), cv = a.cv(); c.check(sc >= 0 && pe >= 0 && std::isfinite(sc) && std::isfinite(pe) && std::isfinite(cv), cell + ":parameters", c.desc + fmt(" scale %g penalty %g criterion %g", sc, pe, cv)); if (!(sc > 0)) return;
    double b = sqrt(sc), al = sqrt(pe), cd, cs; double v = critOf(data, bd, b, al, cd), v0 = critOf(data, bd, 1, .01, cs), ct = max(1e-7, 1e-12 * cd * (aic ? cd : 1));
    if (cd < (aic ? 1e5 : 1e8))
    {
        double N = double(n), cn; double vn = critOf(dn, bn, b, al, cn); bool asNamed = fabs(cv - vn) <= ct * (fabs(vn) + N), asIs = fabs(cv - v) <= ct * (fabs(v) + N);
        c.check(asNamed || asIs, cell + ":criterion", c.desc + fmt(" reports %.12g at scale %.10g penalty %.10g, expected %.12g", cv, sc, pe, v));
        if (asIs && !asNamed) c.check(false, aic ? "own-observation:aic" : "own-observation:cv", c.desc + fmt(" criterion %.10g includes each observation %s; excluding it gives %.10g", cv, aic ? "twice" : "itself", vn));
        c.tag("criterion-judged");
        if (cs < 1e8 && std::isfinite(v0)) c.check(cv <= v0 + ct * (fabs(v0) + N), cell + ":worse-than-start", c.desc + fmt(" criterion %.12g at the start %.12g", cv, v0));
        // a local minimum: nearby parameters are no better
        if (asIs) for (int s = 0; s < 4; s++) { double db = s == 0 ? .01 : s == 1 ? -.01 : 0, da = s == 2 ? .01 : s == 3 ? -.01 : 0, cz; if (b + db <= 0) continue; double z = critOf(data, bd, b + db, al + da, cz); if (cz < 1e7 && std::isfinite(z)) { c.check(z >= cv - 1e-4 * (fabs(cv) + (aic ? N : 0)), cell + ":not-minimal", c.desc + fmt(" criterion %.10g at %g %g, %.10g at %+g %+g", cv, b, al, z, db, da)); c.tag("minimality-judged"); } }
    }
    else c.tag("skip:ill-conditioned-criterion");
    if (!pred)
    {
        Sc g = solveAll(d.x, d.y, d.x, own, bo, kernel, P, sc, pe); if (g.cond > 1e6) { c.tag("skip:ill-conditioned"); return; }
        double rt = max(1e-7, 1e-13 * g.cond * g.cond), N = double(n); c.closeM(B, g.betas, rt, cell + ":betas", c.desc); c.closeM(a.betas(), g.betas, rt, cell + ":accessor", c.desc);
        double rss = orc::rss(d.x, d.y, g.betas), yss = arma::accu(arma::square(d.y - arma::mean(d.y))), ry = rt * 10 * (1 + yss / rss); auto q = a.diagnostic(); c.close(q.RSS, rss, ry * rss, cell + ":RSS", c.desc); c.close(q.RSquare, 1 - rss / yss, ry, cell + ":R2", c.desc);
        double l = N * log(rss / N) + N * log(2 * 3.14159265358979323846), tr = q.AIC - l - N; c.close(q.ENP + q.EDF, N, 1e-8 * N * (1 + fabs(q.EDF)), cell + ":ENP+EDF", c.desc);
        if (fabs(N - 2 - tr) > .5 && fabs(tr) < 1e4) c.close(q.AICc, l + N * (N + tr) / (N - 2 - tr), (1e-6 + ry) * N * N * (1 + fabs(tr)), cell + ":AICc", c.desc);
        if (fabs(q.EDF - 1) > .1) c.close(q.RSquareAdjust, 1 - rss / yss * (N - 1) / (q.EDF - 1), (1e-7 + ry) * N * 10, cell + ":adjR2", c.desc);
    }
    else
    {
        mat DL = orc::distMat(d.metric, L, d.coords); Nb pn = nbs(DL, nb, 0); if (pn.tied) { c.tag("skip:tied-neighbours"); return; } double bp = band(pn, nb, kernel); if (!(bp > 0)) { c.tag("skip:zero-bandwidth"); return; }
        Sc g = solveAll(d.x, d.y, mat(), pn, bp, kernel, P, sc, pe); if (g.cond > 1e6) { c.tag("skip:ill-conditioned"); return; } c.closeM(B, g.betas, max(1e-7, 1e-13 * g.cond * g.cond), cell + ":betas", c.desc);
    }
    c.nontrivial = true; c.tag(cell + fmt("/p%d", P)); c.tag(cell + (bw >= n ? "/all" : bw > 50 ? "/many" : "/some"));
}
