// M04: generalised GWR: locally weighted Poisson and logistic models by local scoring, diagnostics, searches, predictions
#include "common.h"
using namespace std; using namespace gwm;
namespace {
struct Loc { vec z, w2, mu; double ll = 0, cond = 0; bool ambiguous = false, bad = false; int it = 0; };
vec solve1(const mat& X, const vec& z, const vec& w, double& cond)
{
    vec rw = arma::sqrt(w); mat U, V; vec s; if (!arma::svd_econ(U, s, V, X.each_col() % rw) || !(s(s.n_elem - 1) > 1e-13 * s(0))) { cond = 1e300; return vec(X.n_cols, arma::fill::zeros); }
    double k = s(0) / s(s.n_elem - 1); cond = max(cond, k * k); return V * ((U.t() * (z % rw)) / s);
}
// the working response and weights on which the local models are finally solved
Loc scoring(const mat& X, const vec& y, const mat& W, int fam, double tol, size_t maxit)
{
    uword n = y.n_elem; Loc o; vec mu = fam ? vec(n).fill(.5) : vec(y + .1), nu = fam ? vec(n, arma::fill::zeros) : vec(arma::log(mu)); o.w2.ones(n); double ll = 0; size_t it = 0;
    while (it < maxit)
    {
        o.z = fam ? vec(nu + (y - mu) / (mu % (1 - mu))) : vec(nu + (y - mu) / mu);
        for (uword i = 0; i < n; i++) nu(i) = arma::dot(X.row(i).t(), solve1(X, o.z, W.row(i).t() % o.w2, o.cond));
        mu = fam ? vec(1 / (1 + arma::exp(-nu))) : vec(arma::exp(nu)); double old = ll; ll = 0;
        for (uword i = 0; i < n; i++) ll += fam ? y(i) * log(mu(i)) + (1 - y(i)) * log(1 - mu(i)) : -mu(i) + y(i) * log(mu(i)) - lgamma(y(i) + 1);
        if (!std::isfinite(ll) || arma::abs(nu).max() > 12) { o.bad = true; return o; }
        double diff = fabs((old - ll) / ll); if (fabs(diff / tol - 1) < 1e-4) o.ambiguous = true;
        if (diff < tol) break;
        o.w2 = fam ? vec(mu % (1 - mu)) : mu; it++;
    }
    o.it = int(it); o.mu = mu; o.ll = ll; return o;
}
double devOf(const vec& y, const vec& mu, int fam)
{
    double d = 0; for (uword i = 0; i < y.n_elem; i++) d += fam ? -2 * (y(i) * log(mu(i)) + (1 - y(i)) * log(1 - mu(i))) : 2 * ((y(i) > 0 ? y(i) * log(y(i) / mu(i)) : 0) - (y(i) - mu(i))); return d;
}
}
void run_case(Case& c)
{
    Rng& r = c.r; int mode = c.id % 3; bool opt = mode == 1; int fam = r.i(0, 1); uword n = opt ? pickN(r, {36, 50}, false) : pickN(r, {40, 60, 90}), np = uword(r.i(1, 3));
    Data d = genData(r, n, np, true); for (uword j = 1; j <= np; j++) d.x.col(j) = (d.x.col(j) - arma::mean(d.x.col(j))) / arma::stddev(d.x.col(j));
    vec b(np + 1); for (double& x : b) x = r.u(-.6, .6); b(0) = fam ? r.u(-.5, .5) : r.u(.3, 2); vec eta = d.x * b;
    for (uword i = 0; i < n; i++)
    {
        double e = min(4.0, eta(i) + .2 * r.n());
        if (fam == 0) { double q = exp(-exp(e)), p = 1; int k = -1; do { k++; p *= r.u(); } while (p > q && k < 600); d.y(i) = k; } else d.y(i) = r.u() < 1 / (1 + exp(-e)) ? 1 : 0;
    }
    if (arma::accu(d.y) < 2) d.y(0) = d.y(1) = 1;
    mat D = orc::distMat(d.metric, d.coords, d.coords); Kern k = genKern(r, d, D, -1, opt ? r.i(0, 1) : r.i(0, 3), .6); if (opt) k.bw = k.adaptive ? 30 : D.max() / 2; else if (k.adaptive) k.bw = max(k.bw, floor(.6 * double(n)));
    double tol = r.pick({1e-5, 1e-5, 1e-3, 1e-8}); size_t maxit = size_t(r.pick({20, 20, 3, 40})); bool cv = r.b(), hat = r.b(.8); int par = r.i(0, 2), th = r.i(1, 9);
    string cell = string(mode == 0 ? "fit" : mode == 1 ? cv ? "bandwidth-cv" : "bandwidth-aic" : "predict") + (fam ? "/binomial" : "/poisson") + (par ? "/omp" : "/serial");
    c.desc = d.desc + fmt(" %s kernel=%s adaptive=%d bw=%.10g tol=%g maxiter=%d hat=%d threads=%d", cell.c_str(), kname(k.kernel).c_str(), int(k.adaptive), k.bw, tol, int(maxit), int(hat), th);
    auto dz = [&](const Kern& q, const mat& E) { for (uword i = 0; i < E.n_rows; i++) { vec e = E.row(i).t(); if (!(orc::kernBw(q, e) > 0)) return true; } return false; };
    if (!opt && dz(k, D)) { c.tag("skip:zero-bandwidth"); return; }
    Loc g; if (!opt) { g = scoring(d.x, d.y, orc::weightMat(k, D), fam, tol, maxit); if (g.bad || g.cond > 1e7) { c.tag("skip:ill-conditioned"); return; } if (g.ambiguous) { c.tag("skip:threshold"); return; } }
    GWRGeneralized a; a.setCoords(d.coords); a.setDependentVariable(d.y); a.setIndependentVariables(d.x); a.setSpatialWeight(mkSW(k, d.metric)); a.setHasHatMatrix(hat); a.setTol(tol); a.setMaxiter(maxit);
    bool order = r.b(); auto setf = [&]() { a.setFamily(fam ? GWRGeneralized::Family::Binomial : GWRGeneralized::Family::Poisson); };
    if (order) setf(); if (par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(th); } if (!order) setf();
    auto mon = make_shared<MonState>(); a.setTelegram(tele(mon));
    if (opt) { a.setIsAutoselectBandwidth(true); a.setBandwidthSelectionCriterionType(cv ? GWRGeneralized::BandwidthSelectionCriterionType::CV : GWRGeneralized::BandwidthSelectionCriterionType::AIC); }
    c.check(a.isValid(), cell + ":valid", c.desc);
    if (mode == 2)
    {
        uword m = uword(r.pick({1, 9, 30, 100})); mat L(m, 2); for (uword i = 0; i < m; i++) { uword p = uword(r.i(0, int(n) - 1)), q = uword(r.i(0, int(n) - 1)); double u = r.pick({0.0, r.u(0, .4)}); L.row(i) = (1 - u) * d.coords.row(p) + u * d.coords.row(q); }
        mat DL = orc::distMat(d.metric, L, d.coords); if (dz(k, DL)) { c.tag("skip:zero-bandwidth"); return; } mat W = orc::weightMat(k, DL), want(m, np + 1); double cd = g.cond;
        for (uword i = 0; i < m; i++) want.row(i) = solve1(d.x, g.z, W.row(i).t() % g.w2, cd).t(); if (cd > 1e7) { c.tag("skip:ill-conditioned"); return; }
        int before = r.i(0, 2);
        if (before == 1) { a.fit(); c.tag(cell + "/after-fit"); }
        if (before == 2)
        {   // a fit with another bandwidth in between must leave no trace
            SpatialWeight s0 = a.spatialWeight(), s1 = s0; BandwidthWeight* w = s1.weight<BandwidthWeight>(); w->setBandwidth(k.adaptive ? max(double(np + 8), floor(w->bandwidth() * r.pick({.7, 1.5}))) : w->bandwidth() * r.pick({1.3, 2.0}));
            a.setSpatialWeight(s1); try { if (r.b()) a.fit(); else a.predict(L); c.tag(cell + "/after-other-bandwidth"); } catch (const std::exception&) { c.tag("other-bandwidth-infeasible"); } a.setSpatialWeight(s0);
        }
        bool points = r.b(.4); mat B;
        if (points)
        {   // the same places given as regression points of a fit: nothing but the coefficients is defined there
            if (r.b()) { a.setRegressionData(L); a.setHasRegressionData(true); } else { a.setHasRegressionData(true); a.setRegressionData(L); }
            B = a.fit(); c.tag(cell + "/regression-points"); c.check(a.hasRegressionData() && a.regressionData().n_rows == m, cell + ":points-kept", c.desc); c.closeM(a.betas(), B, 0, cell + ":points-betas", c.desc);
            if (r.b(.3)) { a.setHasRegressionData(false); mat A = a.fit(), E(n, np + 1); double c2 = 0; mat V = orc::weightMat(k, D); for (uword i = 0; i < n; i++) E.row(i) = solve1(d.x, g.z, V.row(i).t() % g.w2, c2).t(); if (c2 < 1e7) c.closeM(A, E, max(1e-6, 1e-10 * c2), cell + ":back-to-samples", c.desc); a.setHasRegressionData(true); }
        }
        else B = a.predict(L);
        c.closeM(B, want, max(1e-6, 1e-10 * cd), cell + ":betas", c.desc); c.check(a.status() == Status::Success, cell + ":status", c.desc);
        c.nontrivial = true; c.tag(cell + (k.adaptive ? "/adaptive" : "/fixed")); c.events += uint64_t(mon->progs + mon->stops); return;
    }
    mat B; try { B = a.fit(); } catch (const exception& e) { c.tag("threw/" + cell); if (!opt) c.check(false, cell + ":exception", string(e.what()) + " in " + c.desc);
        else c.check(!solvableRange(k.adaptive ? 20 : 0, k.adaptive ? double(n) : D.max(), [&](double v) { Kern q = k; q.bw = k.adaptive ? floor(v) : v; if (dz(q, D)) return false; Loc f = scoring(d.x, d.y, orc::weightMat(q, D), fam, tol, maxit); if (f.bad || f.cond > 1e4) return false; mat W = orc::weightMat(q, D); if (cv) W.diag().zeros(); Loc s = scoring(d.x, d.y, W, fam, tol, maxit); return !s.bad && s.cond < 1e4; }), cell + ":all-refused", string(e.what()) + " in " + c.desc);
        return; }
    c.check(a.status() == Status::Success, cell + ":status", c.desc); c.events += uint64_t(mon->progs + mon->stops);
    Kern kk = k; { auto w = a.spatialWeight().weight<BandwidthWeight>(); kk.bw = w->bandwidth(); c.check(w->adaptive() == k.adaptive && int(w->kernel()) == k.kernel, cell + ":flags", c.desc); if (!opt) c.check(kk.bw == k.bw, cell + ":bandwidth-changed", c.desc); }
    if (opt)
    {
        auto list = a.bandwidthSelectorCriterions(); double best = DBL_MAX, prev = -1, got = DBL_MAX, lo = k.adaptive ? 20 : 0, hi = k.adaptive ? double(n) : D.max(); bool found = false; c.check(!list.empty(), cell + ":reported", c.desc);
        for (auto& p : list)
        {
            c.events++; c.check(p.first > prev, cell + ":list-order", c.desc); prev = p.first; c.check(p.first >= lo - 1e-9 && p.first <= hi * (1 + 1e-9), cell + ":bounds", c.desc + fmt(" candidate %.10g", p.first));
            best = min(best, p.second); if (p.first == kk.bw) { found = true; got = p.second; }
            Kern q = k; q.bw = p.first; if (dz(q, D)) continue; mat W = orc::weightMat(q, D); if (cv) W.diag().zeros(); Loc s = scoring(d.x, d.y, W, fam, tol, maxit); double v = 0, trs = 0;
            if (!s.bad) for (uword i = 0; i < n; i++)
            {
                vec w = W.row(i).t() % s.w2; if (cv) { double e = arma::dot(d.x.row(i).t(), solve1(d.x, s.z, w, s.cond)); e = d.y(i) - (fam ? 1 / (1 + exp(-e)) : exp(e)); v += e * e; }
                else { double cd = 0; vec u = solve1(d.x, vec(n, arma::fill::zeros), w, cd); s.cond = max(s.cond, cd); if (cd < 1e12) trs += w(i) * arma::dot(d.x.row(i).t(), arma::solve(d.x.t() * (d.x.each_col() % w), d.x.row(i).t())); }
            }
            if (s.bad || s.cond > 1e6 || s.ambiguous || (!cv && fabs(double(n) - trs - 1) < .5)) { c.tag("ill-conditioned-candidate"); continue; }
            if (!cv) v = -2 * s.ll + 2 * trs + 2 * trs * (trs + 1) / (double(n) - trs - 1);
            c.close(p.second, v, max(1e-6, 1e-10 * s.cond) * (fabs(v) + double(n)), cell + ":criterion", c.desc + fmt(" candidate %.10g", p.first)); c.tag(cell + "/candidates-judged");
        }
        c.check(found && got == best, cell + ":best", c.desc + fmt(" chose %.10g", kk.bw));
        if (dz(kk, D)) return; g = scoring(d.x, d.y, orc::weightMat(kk, D), fam, tol, maxit); if (g.bad || g.cond > 1e7 || g.ambiguous) { c.tag("skip:ill-conditioned"); return; }
    }
    mat W = orc::weightMat(kk, D), want(n, np + 1); double trS = 0, N = double(n); vec yh(n);
    for (uword i = 0; i < n; i++) { vec w = W.row(i).t() % g.w2; want.row(i) = solve1(d.x, g.z, w, g.cond).t(); trS += w(i) * arma::dot(d.x.row(i).t(), arma::solve(d.x.t() * (d.x.each_col() % w), d.x.row(i).t())); double e = arma::dot(d.x.row(i), want.row(i)); yh(i) = fam ? 1 / (1 + exp(-e)) : exp(e); }
    double rt = max(1e-6, 1e-10 * g.cond); c.closeM(B, want, rt, cell + ":betas", c.desc); c.closeM(a.betas(), want, rt, cell + ":accessor", c.desc);
    c.nontrivial = true; c.tag(cell + (k.adaptive ? "/adaptive" : "/fixed")); c.tag(g.it >= int(maxit) ? "iterations-limit" : g.it > 4 ? "iterations>4" : "iterations<=4"); c.tag(cell + (order ? "/family-first" : "/parallel-first"));
    // the global model
    vec bg(np + 1, arma::fill::zeros), mu = fam ? vec((d.y + .5) / 2) : vec(d.y + .1), nu = fam ? vec(arma::log(mu / (1 - mu))) : vec(arma::log(mu)); double dev = 0, old = 1e300, cg = 0;
    for (int it = 0; it < 200; it++) { vec w = fam ? vec(mu % (1 - mu)) : mu; bg = solve1(d.x, nu + (d.y - mu) / w, w, cg); nu = d.x * bg; mu = fam ? vec(1 / (1 + arma::exp(-nu))) : vec(arma::exp(nu)); dev = devOf(d.y, mu, fam); if (fabs(dev - old) < 1e-12 * (1 + dev)) break; old = dev; }
    double nd = devOf(d.y, vec(n).fill(arma::mean(d.y)), fam); auto q = a.getGLMDiagnostic(); double K = double(np + 1);
    if (std::isfinite(dev) && arma::abs(nu).max() < 8 && arma::mean(d.y) > 0 && (!fam || arma::mean(d.y) < 1))
    {
        c.close(q.NullDev, nd, 1e-8 * (1 + nd), cell + ":global-null-deviance", c.desc); c.close(q.Dev, dev, 1e-5 * (1 + dev), cell + ":global-deviance", c.desc); c.close(q.AIC, dev + 2 * K, 1e-5 * (1 + dev), cell + ":global-AIC", c.desc);
        c.close(q.AICc, dev + 2 * K + 2 * K * (K + 1) / (N - K - 1), 1e-5 * (1 + dev), cell + ":global-AICc", c.desc); if (nd > 1) c.close(q.RSquare, 1 - dev / nd, 1e-4 * (1 + dev / nd), cell + ":global-R2", c.desc); c.tag("global-judged");
    }
    if (hat && N - trS - 1 > .5)
    {
        double gd = devOf(d.y, fam ? yh : g.mu, fam), ts = rt * 10 * (1 + gd + N), kf = 1 + N / (N - trS - 1); auto z = a.getDiagnostic(); c.tag(cell + "/diagnostics");
        c.close(z.RSS, gd, ts, cell + ":deviance", c.desc); c.close(z.AIC, gd + 2 * trS, ts, cell + ":AIC", c.desc); c.close(z.AICc, gd + 2 * trS + 2 * trS * (trS + 1) / (N - trS - 1), ts * kf * kf, cell + ":AICc", c.desc); if (nd > 1) c.close(z.RSquare, 1 - gd / nd, ts / nd, cell + ":R2", c.desc);
    }
}
