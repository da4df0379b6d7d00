// M06: space-time GWR: local least squares under space-time weights, and the choice of lambda
#include "common.h"
#include <omp.h>
using namespace std; using namespace gwm;
static mat stMat(const Metric& m, const mat& xy, const vec& t, double lambda, double cosA)
{
    mat S = orc::distMat(m, xy, xy); uword n = xy.n_rows; mat D(n, n);
    for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++)
    {
        double dt = t(i) - t(j); if (fabs(lambda - 1) < 1e-16) dt = fabs(dt);
        D(i, j) = dt < 0 ? 1e13 : lambda * S(i, j) + (1 - lambda) * dt + 2 * sqrt(lambda * (1 - lambda) * S(i, j) * dt) * cosA;
    }
    return D;
}
// the weight of space in the distance the object uses now (there is no accessor): the distance between places 1 apart (in space only)
static double lambdaOf(const SpatialWeight& q, const Metric& m)
{
    unique_ptr<Distance> p(q.distance()->clone()); mat xy = {{0, 0}, {1, 0}}; vec t(2, arma::fill::zeros); CRSSTDistance* s = dynamic_cast<CRSSTDistance*>(p.get()); 
    s->makeParameter({xy, xy, t, t}); vec d = s->distance(0); return d(1) / orc::dist(m, 0, 0, 1, 0);
}
static void big(Case& c)
{
    // above the size where the library stops keeping the hat matrix
    int before = omp_get_max_threads(); omp_set_num_threads(1); // no threads inside element-wise functions
    Rng& r = c.r; uword n = 8192 + uword(r.i(0, 40)); bool omp = c.id % 2 == 0;
    Data d = genData(r, n, 1, true, 0, 0); double lambda = r.u(.3, .9); vec t(n, arma::fill::zeros); for (uword i = 0; i < n; i++) if (r.b(.3)) t(i) = r.i(1, 3);
    Kern k; k.kernel = 0; k.adaptive = r.b(); k.bw = k.adaptive ? double(r.i(900, 4000)) : arma::max(arma::max(d.coords) - arma::min(d.coords)) * r.u(.2, .6);
    string cell = omp ? "big/omp" : "big/serial"; c.desc = d.desc + fmt(" %s lambda=%g adaptive=%d bw=%.10g", cell.c_str(), lambda, int(k.adaptive), k.bw);
    CRSDistance sd(false); OneDimDistance td; CRSSTDistance st(&sd, &td, lambda); BandwidthWeight bw = mkBw(k); SpatialWeight sw; sw.setWeight(&bw); sw.setDistance(&st);
    GTWR a; a.setCoords(d.coords, t); a.setDependentVariable(d.y); a.setIndependentVariables(d.x); a.setHasIntercept(true); a.setSpatialWeight(sw); a.setHasHatMatrix(true);
    if (omp) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(4); }
    mat B = a.fit();
    orc::Big o = orc::bigGwr(d.x, d.y, [&](uword i) { vec q(n); for (uword j = 0; j < n; j++) { double S = hypot(d.coords(i, 0) - d.coords(j, 0), d.coords(i, 1) - d.coords(j, 1)), T = t(i) - t(j); q(j) = T < 0 ? 1e13 : lambda * S + (1 - lambda) * T + 2 * sqrt(lambda * (1 - lambda) * S * T); } return orc::weights(k, q); });
    double s2 = orc::rss(d.x, d.y, o.betas) / (double(n) - 2 * o.trS + o.trStS);
    c.closeM(B, o.betas, 1e-8, cell + ":beta", c.desc); c.close(a.sHat()(0), o.trS, 1e-7 * o.trS, cell + ":trS", c.desc); c.close(a.sHat()(1), o.trStS, 1e-7 * o.trStS, cell + ":trStS", c.desc);
    c.closeM(a.qDiag(), o.q, 1e-7, cell + ":q", c.desc); c.closeM(a.betasSE(), arma::sqrt(s2 * o.cc), 1e-7, cell + ":se", c.desc);
    c.tag(cell); c.nontrivial = true; omp_set_num_threads(before);
}
void run_case(Case& c)
{
    if (c.id < 2 || (c.tier == "thorough" && c.id % 500 < 2)) { big(c); return; }
    Rng& r = c.r; uword n = pickN(r, {25, 40, 60, 80}, c.id % 4 < 2), np = uword(r.i(1, 3)); bool icpt = r.b(.85); int kind = c.id % 4; // 0,1 fit, 2 lambda, 3 bandwidth
    Data d = genData(r, n, np, icpt, -1, r.i(0, 1)); mat S = orc::distMat(d.metric, d.coords, d.coords); double sc = S.max();
    vec t(n, arma::fill::zeros); int periods = r.i(1, 4); for (uword i = 0; i < n; i++) if (r.b(.3)) t(i) = r.i(0, periods - 1) * sc * r.pick({.02, .1});
    if (r.b(.2)) for (uword i = 0; i < n; i++) t(i) = t(i) > 0 ? t(i) + sc * .01 * r.u() : 0;   // irregular times
    if (r.b(.15)) t += 1000;
    double lambda = r.b(.1) ? 1.0 : r.b(.05) ? 0.0 : r.u(.05, .95), ang = 1.5707963267948966; bool obl = r.b(.4); if (obl) ang = r.u(.3, 1.5);
    double cosA = obl ? cos(atan(tan(ang))) : 1;   // orthogonal form: (sqrt(l s) + sqrt((1-l) t))^2
    Kern k; k.kernel = kind == 2 ? r.i(0, 1) : r.i(0, 4); k.adaptive = r.b(); k.bw = k.adaptive ? floor(double(n) * r.u(.5, .85)) : sc * r.u(.4, 1.2);
    if (k.kernel == 4) k.kernel = 2; if (lambda == 0 || kind == 2) { k.kernel = r.i(0, 1); k.adaptive = false; k.bw = sc * r.u(.3, .9); }
    if (kind == 3) { k.kernel = r.i(0, 1); }
    mat D = stMat(d.metric, d.coords, t, lambda, cosA);
    int par = r.i(0, 2), th = r.i(1, 8); int ct = r.i(0, 1);
    static const char* kn[] = {"fit", "fit", "lambda", "bw"}; string cell = string(kn[kind]) + (par ? "/omp" : "/serial");
    c.desc = d.desc + fmt(" %s periods=%d lambda=%.6g oblique=%d angle=%.4g kernel=%s adaptive=%d bw=%.10g threads=%d crit=%d", cell.c_str(), periods, lambda, int(obl), ang, kname(k.kernel).c_str(), int(k.adaptive), k.bw, th, ct);
    CRSDistance sd(d.metric.type == Metric::Geo); OneDimDistance td; unique_ptr<CRSSTDistance> st(obl ? new CRSSTDistance(&sd, &td, lambda, ang) : new CRSSTDistance(&sd, &td, lambda));
    BandwidthWeight bw = mkBw(k); SpatialWeight sw; sw.setWeight(&bw); sw.setDistance(st.get());
    GTWR a; a.setCoords(d.coords, t); a.setDependentVariable(d.y); a.setIndependentVariables(d.x); a.setHasIntercept(icpt); a.setSpatialWeight(sw); bool hat = r.b(.8); a.setHasHatMatrix(hat); if (!hat) { c.desc += " hat=0"; c.tag("nohat"); }
    bool late = r.b(); auto setPar = [&]() { if (par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(th); } }; if (!late) setPar();
    auto mon = make_shared<MonState>(); a.setTelegram(tele(mon));
    if (kind == 2) a.setIsAutoselectLambda(true);
    if (kind == 3) { a.setIsAutoselectBandwidth(true); a.setBandwidthSelectionCriterion(ct ? GTWR::BandwidthSelectionCriterionType::AIC : GTWR::BandwidthSelectionCriterionType::CV); }
    if (late) setPar();
    auto okBw = [&](const Kern& q, const mat& DD) { for (uword i = 0; i < n; i++) if (!(orc::kernBw(q, DD.row(i).t()) > 0)) return false; return true; };
    if (kind < 2)
    {
        if (!okBw(k, D)) { c.tag("skip:zero-bandwidth"); return; }
        orc::Gwr g = orc::gwr(d.x, d.y, orc::weightMat(k, D), false); if (g.cond > 1e8) { c.tag("skip:ill-conditioned"); return; }
    }
    c.check(a.isValid(), cell + ":valid", c.desc);
    mat B; string err; try { B = a.fit(); } catch (const exception& e) { err = e.what(); if (err.empty()) err = "?"; }
    auto r2 = [&](double l, double& cond) { mat DD = stMat(d.metric, d.coords, t, l, cosA); if (!okBw(k, DD)) { cond = 1e99; return 0.0; } orc::Gwr g = orc::gwr(d.x, d.y, orc::weightMat(k, DD), false); cond = g.cond; double yss = arma::accu(arma::square(d.y - arma::mean(d.y))); return 1 - orc::rss(d.x, d.y, g.betas) / yss; };
    if (!err.empty())
    {
        c.tag("threw/" + cell); if (kind < 2) c.check(false, cell + ":exception", err + " in " + c.desc);
        if (kind == 3) c.check(!solvableRange(k.adaptive ? 20 : 0, k.adaptive ? double(n) : D.max(), [&](double v) { Kern q = k; q.bw = k.adaptive ? floor(v) : v; if (!okBw(q, D)) return false; orc::Gwr g = orc::gwr(d.x, d.y, orc::weightMat(q, D), false, false), h = orc::gwr(d.x, d.y, orc::weightMat(q, D), false, true); return g.cond < 1e5 && h.cond < 1e5; }), cell + ":all-refused", err + " in " + c.desc);
        if (kind == 2) c.check(!solvableRange(0, 1, [&](double l) { double cd; r2(l, cd); return cd < 1e5; }, 0), cell + ":all-refused", err + " in " + c.desc);
        if (kind == 2) { bool bad = false; for (double l : {0.0, .382, .618, 1.0}) { double cd; r2(l, cd); bad = bad || cd > 1e8; } if (!bad) c.tag("lambda-threw-later"); }
        return;
    }
    c.check(a.status() == Status::Success, cell + ":status", c.desc);
    auto q = a.spatialWeight(); double l1 = lambdaOf(q, d.metric); if (kind != 2 && fabs(l1 - lambda) < 1e-9) l1 = lambda; l1 = min(1.0, max(0.0, l1)); Kern kk = k; kk.bw = q.weight<BandwidthWeight>()->bandwidth();
    if (kind != 2) c.check(fabs(l1 - lambda) < 1e-9, cell + ":lambda-changed", c.desc); if (kind != 3) c.check(kk.bw == k.bw, cell + ":bandwidth-changed", c.desc);
    c.check(l1 >= -1e-9 && l1 <= 1 + 1e-9, cell + ":lambda-range", c.desc + fmt(" lambda %.10g", l1));
    if (kind == 2)
    {
        auto logs = mon->logsWith(GWM_LOG_TAG_LAMBDA_OPTIMIZATION); vector<pair<double, double>> ev; bool well = true;
        for (auto& s : logs)
        {
            double l, v; if (sscanf(s.c_str(), "%lf,%lf", &l, &v) != 2) continue; c.events++;
            double cd, w = r2(l, cd), cd2, w2 = r2(min(1.0, l + 1e-6), cd2), w3 = r2(max(0.0, l - 1e-6), cd2); double slack = max(fabs(w2 - w), fabs(w3 - w)) * 2 + 2e-6;
            if (cd > 1e8 || cd2 > 1e8 || slack > 1e-3) { well = false; continue; }
            c.close(v, w, slack, cell + ":criterion", c.desc + fmt(" lambda %.6f", l)); ev.push_back({l, w});
        }
        c.check(logs.size() >= 5, cell + ":reported", c.desc + fmt(" %d reports", int(logs.size())));
        if (well && ev.size() >= 4)
        {
            sort(ev.begin(), ev.end()); size_t b = 0; double best = -1e99;
            for (size_t i = 0; i < ev.size(); i++) if (ev[i].first > 1e-9 && ev[i].first < 1 - 1e-9 && ev[i].second > best) { best = ev[i].second; b = i; }
            double lo = ev[b < 2 ? 0 : b - 2].first, hi = ev[min(b + 2, ev.size() - 1)].first, cd, got = r2(l1, cd);
            c.check((l1 >= lo - 1e-5 && l1 <= hi + 1e-5) || got > best - 1e-6, cell + ":best-bracket", c.desc + fmt(" lambda %.8f with %.9g outside [%.6f, %.6f] around the best evaluated %.9g", l1, got, lo, hi, best)); c.tag("lambda-judged");
        }
    }
    if (kind == 3)
    {
        auto list = a.bandwidthSelectionCriterionList(); double best = DBL_MAX, lo = k.adaptive ? 20 : 0, hi = k.adaptive ? double(n) : D.max();
        c.check(list.size() > 0, cell + ":list", c.desc);
        for (auto& p : list)
        {
            Kern z = k; z.bw = p.first; c.events++; best = min(best, p.second); c.check(p.first >= lo - 1e-9 * hi && p.first <= hi * (1 + 1e-9), cell + ":bounds", c.desc + fmt(" candidate %.10g", p.first));
            if (!okBw(z, D)) continue; orc::Gwr g = orc::gwr(d.x, d.y, orc::weightMat(z, D), ct == 1, ct == 0); if (g.cond > 1e8) { c.tag("ill-conditioned-candidate"); continue; }
            double v = ct ? orc::aicc(d.x, d.y, g.betas, g.trS) : orc::rss(d.x, d.y, g.betas); c.close(p.second, v, max(1e-7, 1e-11 * g.cond) * (fabs(v) + double(n)), cell + ":criterion", c.desc + fmt(" candidate %.10g", p.first));
        }
        bool f = false; for (auto& p : list) if (p.first == kk.bw) f = p.second == best; c.check(f, cell + ":argmin", c.desc + fmt(" chose %.10g", kk.bw));
    }
    mat DD = stMat(d.metric, d.coords, t, l1, cosA); if (!okBw(kk, DD)) { c.tag("skip:zero-bandwidth"); return; }
    if (kind == 2 && 1 - l1 < 1e-5) { c.tag("lambda-at-limit"); return; }
    orc::Gwr g = orc::gwr(d.x, d.y, orc::weightMat(kk, DD), true); double N = double(n), enp = 2 * g.trS - g.trStS, edf = N - enp;
    if (g.cond > 1e8 || edf < 1.05 || fabs(N - 2 - g.trS) < .05) { c.tag("skip:ill-conditioned"); return; }
    double rt = max(1e-7, 1e-11 * g.cond); c.nontrivial = true; c.tag(cell + (k.adaptive ? "/adaptive" : "/fixed")); c.tag(fmt("%s/periods%d", cell.c_str(), periods)); c.tag(obl ? "oblique" : "orthogonal");
    c.closeM(B, g.betas, rt, cell + ":beta", c.desc); c.closeM(a.betas(), g.betas, rt, cell + ":accessor", c.desc);
    c.close(a.sHat()(0), g.trS, rt * N, cell + ":trS", c.desc); c.close(a.sHat()(1), g.trStS, rt * N, cell + ":trStS", c.desc); c.closeM(a.qDiag(), g.q, rt, cell + ":q", c.desc);
    if (hat) c.closeM(a.s(), g.S, rt, cell + ":S", c.desc);
    double rss = orc::rss(d.x, d.y, g.betas), yss = arma::accu(arma::square(d.y - arma::mean(d.y))), s2 = rss / edf, ry = rt * (1 + yss / rss * 1e-2), kx = 1 + N / fabs(N - 2 - g.trS);
    c.closeM(a.betasSE(), arma::sqrt(s2 * g.cc), ry * (1 + N / edf), cell + ":se", c.desc);
    auto dg = a.diagnostic(); double l = N * log(rss / N) + N * log(2 * 3.14159265358979323846);
    c.close(dg.RSS, rss, ry * rss, cell + ":RSS", c.desc); c.close(dg.ENP, enp, rt * N, cell + ":ENP", c.desc); c.close(dg.EDF, edf, rt * N, cell + ":EDF", c.desc); c.close(dg.RSquare, 1 - rss / yss, ry, cell + ":R2", c.desc);
    c.close(dg.RSquareAdjust, 1 - rss / yss * (N - 1) / (edf - 1), ry * N * (1 + N / (edf - 1) / (edf - 1)), cell + ":adjR2", c.desc);
    c.close(dg.AIC, l + N + g.trS, ry * N, cell + ":AIC", c.desc); c.close(dg.AICc, l + N * ((N + g.trS) / (N - 2 - g.trS)), ry * N * N * kx * kx, cell + ":AICc", c.desc);
    if (kind == 0)
    {
        // prediction at the observations repeats the fitted coefficients
        mat P = a.predict(d.coords); c.closeM(P, g.betas, rt, cell + ":predict-at-data", c.desc);
        if (periods == 1 || t.max() == t.min())
        {
            // one period: the time of the new places cannot matter, so the answer is the local model there
            mat L = d.coords; for (uword i = 0; i < n; i++) { uword p = uword(r.i(0, int(n) - 1)); double u = r.u(.1, .4); L.row(i) = (1 - u) * d.coords.row(i) + u * d.coords.row(p); }
            mat Q = a.predict(L); mat DL = orc::distMat(d.metric, L, d.coords) * l1; double cd; bool z = false; for (uword i = 0; i < n; i++) z = z || !(orc::kernBw(kk, DL.row(i).t()) > 0);
            if (!z) { mat Wp = orc::wls(d.x, d.y, orc::weightMat(kk, DL), &cd); if (cd < 1e8) { bool asData = Q.n_rows == n && Q.n_cols == g.betas.n_cols && arma::approx_equal(Q, g.betas, "both", 1e-7 * (1 + arma::abs(g.betas).max()), 1e-6); c.closeM(Q, Wp, max(1e-7, 1e-11 * cd), asData ? "predict:new-places" : "predict:places", c.desc); c.tag("predict-new-places"); } }
        }
    }
}
