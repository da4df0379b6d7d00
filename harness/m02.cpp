// M02: locally compensated ridge GWR: condition numbers of the local designs, ridge terms, fits, predictions, bandwidth search
#include "common.h"
using namespace std; using namespace gwm;
namespace {
struct Lc { mat betas; double cond = 0, trS = 0, trStS = 0, condHat = 0; bool ambiguous = false, singular = false; uword ridged = 0; };
Lc lcr(const mat& X, const vec& y, mat W, double lambda, bool adj, double T, bool hat, bool loo)
{
    uword n = X.n_rows, p = X.n_cols; Lc o; o.betas.zeros(W.n_rows, p); rowvec sd(p, arma::fill::ones); for (uword j = 1; j < p; j++) sd(j) = arma::stddev(X.col(j));
    if (loo) W.diag().zeros();
    for (uword i = 0; i < W.n_rows; i++)
    {
        vec w = W.row(i).t(); mat A = X.each_col() % w; bool zero = false; for (uword j = 0; j < p; j++) { double s = arma::norm(A.col(j)); if (!(s > 1e-200)) { zero = true; break; } A.col(j) /= s; }
        if (zero) { o.singular = true; o.cond = 1e300; continue; }
        vec S = arma::svd(A); double cn = S(0) / S(p - 1), lam = lambda;
        if (adj) { if (fabs(cn / T - 1) < 1e-7) o.ambiguous = true; if (cn > T) { lam = (S(0) - T * S(p - 1)) / (T - 1); o.ridged++; } }
        vec rw = arma::sqrt(w); mat Z = (X.each_row() / sd).eval().each_col() % rw; mat G = Z.t() * Z + lam * arma::eye(p, p); double cd = arma::cond(G); o.cond = max(o.cond, std::isfinite(cd) ? cd : 1e300);
        mat Q = arma::join_cols(Z, sqrt(lam) * arma::eye(p, p)); vec b; mat U, V; vec s; if (!arma::svd_econ(U, s, V, Q) || !(s(p - 1) > 1e-14 * s(0))) { o.singular = true; o.cond = 1e300; continue; }
        b = V * ((U.t() * arma::join_cols(y % rw, vec(p, arma::fill::zeros))) / s); o.betas.row(i) = (b / sd.t()).t();
        if (hat) { mat N = X.t() * (X.each_col() % w); double c2 = arma::cond(N); o.condHat = max(o.condHat, std::isfinite(c2) ? c2 : 1e300); rowvec h = w(i) * X.row(i) * arma::pinv(N) * (X.each_col() % w).t(); o.trS += h(i); o.trStS += arma::dot(h, h); }
    }
    (void)n; return o;
}
}
void run_case(Case& c)
{
    Rng& r = c.r; int mode = c.id % 3; bool opt = mode == 1; uword n = opt ? pickN(r, {30, 45}, false) : pickN(r, {25, 40, 60, 90}), np = uword(r.i(1, 4));
    Data d = genData(r, n, np, true); bool coll = np > 1 && r.b(.5); if (coll) { double e = r.pick({.02, .1, .4}); d.x.col(2) = d.x.col(1) * r.pick({1.0, -2.0}) + e * arma::stddev(d.x.col(1)) * d.x.col(2) / arma::stddev(d.x.col(2)); }
    mat D = orc::distMat(d.metric, d.coords, d.coords); Kern k = genKern(r, d, D, -1, opt ? r.i(0, 1) : r.i(0, 3), .45); if (opt) k.bw = k.adaptive ? 25 : D.max() / 2;
    double lambda = r.pick({0.0, 0.0, .05, .5, 3.0}), T = r.pick({3.0, 5.0, 10.0, 30.0}); bool adj = r.b(.7); int par = r.i(0, 2), th = r.i(1, 9);
    string cell = string(mode == 0 ? "fit" : mode == 1 ? "bandwidth" : "predict") + (par ? "/omp" : "/serial");
    c.desc = d.desc + fmt(" %s kernel=%s adaptive=%d bw=%.10g lambda=%g adjust=%d threshold=%g threads=%d", cell.c_str(), kname(k.kernel).c_str(), int(k.adaptive), k.bw, lambda, int(adj), T, th);
    auto dz = [&](const Kern& q, const mat& E) { for (uword i = 0; i < E.n_rows; i++) { vec e = E.row(i).t(); if (!(orc::kernBw(q, e) > 0)) return true; } return false; };
    if (!opt && dz(k, D)) { c.tag("skip:zero-bandwidth"); return; }
    GWRLocalCollinearity a; a.setCoords(d.coords); a.setDependentVariable(d.y); a.setIndependentVariables(d.x); a.setSpatialWeight(mkSW(k, d.metric)); a.setHasHatMatrix(r.b(.8)); a.setLambda(lambda); a.setLambdaAdjust(adj); a.setCnThresh(T);
    auto mon = make_shared<MonState>(); a.setTelegram(tele(mon)); bool late = r.b(); auto setPar = [&]() { if (par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(th); } }; if (!late) setPar();
    if (opt) { a.setIsAutoselectBandwidth(true); a.setBandwidthSelectionCriterion(GWRLocalCollinearity::BandwidthSelectionCriterionType::CV); }
    if (late) setPar();
    c.check(a.isValid(), cell + ":valid", c.desc);
    if (mode == 2)
    {
        uword m = uword(r.pick({1, 7, 30, 100})); mat L(m, 2); for (uword i = 0; i < m; i++) { uword p = uword(r.i(0, int(n) - 1)), q = uword(r.i(0, int(n) - 1)); double u = r.pick({0.0, r.u(0, .4)}); L.row(i) = (1 - u) * d.coords.row(p) + u * d.coords.row(q); }
        mat DL = orc::distMat(d.metric, L, d.coords); if (dz(k, DL)) { c.tag("skip:zero-bandwidth"); return; }
        Lc g = lcr(d.x, d.y, orc::weightMat(k, DL), lambda, adj, T, false, false); if (g.cond > 1e8 || g.ambiguous) { c.tag("skip:ill-conditioned"); return; }
        if (r.b()) { Lc f = lcr(d.x, d.y, orc::weightMat(k, D), lambda, adj, T, true, false); if (f.condHat < 1e10) { a.fit(); c.tag(cell + "/after-fit"); } }
        mat B = a.predict(L); c.closeM(B, g.betas, max(1e-7, 1e-12 * g.cond), cell + ":betas", c.desc); c.check(a.status() == Status::Success, cell + ":status", c.desc);
        c.nontrivial = true; c.tag(cell + (k.adaptive ? "/adaptive" : "/fixed")); c.tag(g.ridged ? "ridged/predict" : "plain/predict"); c.events += uint64_t(mon->progs + mon->stops); return;
    }
    if (!opt) { Lc g = lcr(d.x, d.y, orc::weightMat(k, D), lambda, adj, T, true, false); if (g.condHat > 1e9) { c.tag("skip:ill-conditioned"); return; } }
    mat B; try { B = a.fit(); } catch (const exception& e) { c.tag("threw/" + cell); if (!opt) c.check(false, cell + ":exception", string(e.what()) + " in " + c.desc);
        else c.check(!solvableRange(k.adaptive ? 20 : 0, k.adaptive ? double(n) : D.max(), [&](double v) { Kern q = k; q.bw = k.adaptive ? floor(v) : v; return !dz(q, D) && lcr(d.x, d.y, orc::weightMat(q, D), lambda, adj, T, false, true).cond < 1e5 && lcr(d.x, d.y, orc::weightMat(q, D), lambda, adj, T, true, false).condHat < 1e7; }), cell + ":all-refused", string(e.what()) + " in " + c.desc);
        return; }
    c.check(a.status() == Status::Success, cell + ":status", c.desc); c.events += uint64_t(mon->progs + mon->stops);
    Kern kk = k; { auto w = a.spatialWeight().weight<BandwidthWeight>(); kk.bw = w->bandwidth(); c.check(w->adaptive() == k.adaptive && int(w->kernel()) == k.kernel, cell + ":flags", c.desc); if (!opt) c.check(kk.bw == k.bw, cell + ":bandwidth-changed", c.desc); }
    if (opt)
    {
        auto list = a.bandwidthSelectionCriterionList(); double best = DBL_MAX, prev = -1, got = DBL_MAX, lo = k.adaptive ? 20 : 0, hi = k.adaptive ? double(n) : D.max(); bool found = false;
        c.check(!list.empty(), cell + ":reported", c.desc);
        for (auto& p : list)
        {
            c.events++; c.check(p.first > prev, cell + ":list-order", c.desc); prev = p.first; c.check(p.first >= lo - 1e-9 && p.first <= hi * (1 + 1e-9), cell + ":bounds", c.desc + fmt(" candidate %.10g", p.first));
            best = min(best, p.second); if (p.first == kk.bw) { found = true; got = p.second; }
            Kern q = k; q.bw = p.first; if (dz(q, D)) continue; Lc g = lcr(d.x, d.y, orc::weightMat(q, D), lambda, adj, T, false, true);
            if (g.cond > 1e7 || g.ambiguous) { c.tag("ill-conditioned-candidate"); continue; }
            double v = orc::rss(d.x, d.y, g.betas); c.close(p.second, v, max(1e-7, 1e-11 * g.cond) * (v + double(n)), cell + ":criterion", c.desc + fmt(" candidate %.10g", p.first)); c.tag("candidates-judged");
        }
        c.check(found && got == best, cell + ":best", c.desc + fmt(" chose %.10g", kk.bw));
    }
    if (dz(kk, D)) { c.tag("skip:zero-bandwidth"); return; }
    Lc g = lcr(d.x, d.y, orc::weightMat(kk, D), lambda, adj, T, true, false); if (g.cond > 1e8 || g.condHat > 1e9 || g.ambiguous) { c.tag("skip:ill-conditioned"); return; }
    double N = double(n), rt = max(1e-7, 1e-12 * g.cond), rh = max(1e-7, 1e-11 * g.condHat); c.closeM(B, g.betas, rt, cell + ":betas", c.desc); c.closeM(a.betas(), g.betas, rt, cell + ":accessor", c.desc);
    double rss = orc::rss(d.x, d.y, g.betas), yss = arma::accu(arma::square(d.y - arma::mean(d.y))), enp = 2 * g.trS - g.trStS, edf = N - enp; auto q = a.dialnostic();
    double ry = rt * (1 + yss / rss); c.close(q.RSS, rss, ry * rss, cell + ":RSS", c.desc); c.close(q.ENP, enp, rh * N, cell + ":ENP", c.desc); c.close(q.EDF, edf, rh * N, cell + ":EDF", c.desc); c.close(q.RSquare, 1 - rss / yss, ry, cell + ":R2", c.desc);
    if (edf > .5 && fabs(N - enp - 2) > .05)
    {
        double ke = 1 + N / edf, ka = 1 + N / fabs(N - enp - 2), s2 = rss / edf; c.close(q.RSquareAdjust, 1 - rss / yss * (N - 1) / edf, (ry + rh * ke) * ke * (1 + rss / yss), cell + ":adjR2", c.desc);
        c.close(q.AIC, N * (log(2 * 3.14159265358979323846 * s2) + 1) + 2 * (enp + 1), (ry + rh * ke) * N * 2, cell + ":AIC", c.desc);
        c.close(q.AICc, N * log(2 * 3.14159265358979323846 * s2) + N * ((1 + enp / N) / (1 - (enp + 2) / N)), (ry + rh * ke) * N * ka * ka, cell + ":AICc", c.desc); c.tag("diagnostics");
    }
    c.nontrivial = true; c.tag(cell + (k.adaptive ? "/adaptive" : "/fixed")); c.tag(!adj ? "constant-ridge" : g.ridged == n ? "ridged-all" : g.ridged ? "ridged-some" : "ridged-none"); if (coll) c.tag("collinear");
}
