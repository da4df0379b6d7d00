// R03: bandwidth selection - engine (synthetic criteria) and basic / robust / space-time GWR
#include "common.h"
using namespace std; using namespace gwm;

struct Synth : public IBandwidthSelectable
{
    function<double(double)> f; vector<pair<double, double>> calls; bool adaptive; int kernel; bool kept = true; int stopAt = -1;
    Status getCriterion(BandwidthWeight* w, double& cr) override
    {
        if (w->adaptive() != adaptive || int(w->kernel()) != kernel) kept = false;
        if (stopAt >= 0 && int(calls.size()) >= stopAt) { calls.push_back({w->bandwidth(), NAN}); return Status::Terminated; }
        cr = f(w->bandwidth()); calls.push_back({w->bandwidth(), cr}); return Status::Success;
    }
};

static void synth(Case& c)
{
    Rng& r = c.r;
    for (int rep = 0; rep < 20; rep++)
    {
        Synth s; s.adaptive = r.b(); s.kernel = r.i(0, 4);
        double lo, hi;
        if (s.adaptive) { lo = r.i(1, 30); hi = lo + r.i(5, 400); }
        else { double sc = r.pick({1.0, 50.0, 20000.0}); lo = r.b() ? 0 : sc * r.u(0, .3); hi = lo + sc * r.u(.2, 1); }
        double W = hi - lo, xs = lo + W * r.u(.02, .98), K = r.u(1, 50);
        int kind = r.i(0, 4); bool uni = kind <= 1;
        double ph = r.u(0, 6), thr = lo + W * r.u(0.05, .6);
        switch (kind)
        {
        case 0: s.f = [=](double x) { return 10 + K * fabs(x - xs); }; break;
        case 1: s.f = [=](double x) { return -5 + K * (x < xs ? (xs - x) * 3 : (x - xs)); }; break;
        case 2: s.f = [=](double x) { return 100 * sin(7 * (x - lo) / W + ph) + 40 * cos(19 * (x - lo) / W); }; break;
        case 3: s.f = [=](double x) { return x < thr ? DBL_MAX : 1000 + K * fabs(x - xs); }; break;
        default: s.f = [=](double x) { uint64_t h; memcpy(&h, &x, 8); Rng q(h ^ uint64_t(ph * 1e9)); return 1000 * q.u(); }; break;
        }
        if (r.b(.15)) s.stopAt = r.i(0, 12);
        BandwidthWeight bw(r.u(lo + .01 * W, hi), s.adaptive, BandwidthWeight::KernelFunctionType(s.kernel));
        double bw0 = bw.bandwidth();
        string ctx = fmt("synthetic kind=%d adaptive=%d [%.12g,%.12g] opt=%.12g stopAt=%d", kind, int(s.adaptive), lo, hi, xs, s.stopAt);
        BandwidthSelector sel; if (r.b()) sel = BandwidthSelector(&bw, lo, hi); else { sel.setUpper(hi); sel.setBandwidth(&bw); sel.setLower(lo); c.tag("selector-setters"); }
        BandwidthWeight* out = nullptr; bool threw = false;
        try { out = sel.optimize(&s); } catch (const exception&) { threw = true; }
        c.events += s.calls.size();
        c.tag(fmt("synth:%d/%s%s", kind, s.adaptive ? "adaptive" : "fixed", s.stopAt >= 0 ? "/stop" : ""));
        c.check(s.kept, "synth:candidate-flags", ctx);
        c.check(bw.bandwidth() == bw0 && bw.adaptive() == s.adaptive && int(bw.kernel()) == s.kernel, "synth:input-modified", ctx);
        bool stopped = false; map<double, double> seen; double best = DBL_MAX;
        for (auto& p : s.calls)
        {
            if (std::isnan(p.second)) { stopped = true; continue; }
            double slack = s.adaptive ? 1e-9 : 1e-9 * (1 + fabs(hi));
            c.check(p.first >= lo - slack && p.first <= hi + slack, "synth:bounds", ctx + fmt(" candidate %.12g", p.first));
            if (s.adaptive) c.check(p.first == floor(p.first), "synth:integer", ctx + fmt(" candidate %.12g", p.first));
            if (p.second < DBL_MAX) seen[p.first] = p.second;
            best = min(best, p.second);
        }
        if (stopped) { c.check(!threw && (out == nullptr || out->bandwidth() == bw0), "synth:stopped-result", ctx); continue; }
        if (threw) { c.check(s.calls.size() <= 2 && best == DBL_MAX, "synth:throws", ctx); continue; }
        if (!c.check(out != nullptr, "synth:null", ctx)) continue;
        c.check(out->adaptive() == s.adaptive && int(out->kernel()) == s.kernel, "synth:result-flags", ctx);
        c.check(seen.count(out->bandwidth()) && seen[out->bandwidth()] == best, "synth:argmin", ctx + fmt(" chose %.12g best value %.12g", out->bandwidth(), best));
        auto list = sel.bandwidthCriterion();
        bool same = list.size() == seen.size(); size_t i = 0;
        for (auto& p : seen) { if (!same) break; same = list[i].first == p.first && list[i].second == p.second; i++; }
        c.check(same, "synth:list", ctx + fmt(" %d listed, %d evaluated", int(list.size()), int(seen.size())));
        if (uni)
        {
            // the search only stops early when two values are (numerically) level
            double second = DBL_MAX; for (auto& p : seen) if (p.first != out->bandwidth()) second = min(second, p.second);
            double err = fabs(out->bandwidth() - xs);
            if (second - best > 2e-4)
                c.check(err <= (s.adaptive ? 4.0 + .04 * W : 2e-3), "synth:converged", ctx + fmt(" chose %.12g", out->bandwidth()));
        }
        c.nontrivial = true;
    }
}

static double crit(const Data& d, const mat& D, const Kern& k, bool aic, double& cond)
{
    orc::Gwr g = orc::gwr(d.x, d.y, orc::weightMat(k, D), aic, !aic);
    cond = g.cond;
    return aic ? orc::aicc(d.x, d.y, g.betas, g.trS) : orc::rss(d.x, d.y, g.betas);
}

static void real(Case& c)
{
    Rng& r = c.r;
    uword n = pickN(r, {30, 41, 60, 85}, false);
    int alg = r.i(0, 5);         // 0-3 basic, 4 robust, 5 space-time
    Data d = genData(r, n, uword(r.i(1, 3)), r.b(.8), -1, alg == 5 ? r.i(0, 1) : -1);
    vec times(n); double tmax = 0;
    mat D = orc::distMat(d.metric, d.coords, d.coords);
    double lambda = r.u(.1, .9);
    if (alg == 5)
    {
        // only past and present observations contribute; keep every time slot populated from the start
        for (uword i = 0; i < n; i++) { times(i) = 0; } (void)tmax;
        D *= lambda;
    }
    Kern k; k.kernel = r.i(0, 3); k.adaptive = r.b(); k.bw = k.adaptive ? double(n) / 2 : .5 * arma::max(arma::vectorise(D));
    int ct = r.i(0, 2);       // 0 CV 1 AIC 2 default
    int par = r.i(0, 1), threads = r.i(2, 6);
    bool bounds = alg < 5 && r.b(.4), hat = r.b(); double lo = k.adaptive ? 20 : 0, hi = k.adaptive ? double(n) : arma::max(arma::vectorise(D));
    if (bounds)
    {
        if (k.adaptive) { lo = r.i(12, 20); hi = r.i(24, int(n)); }
        else { lo = hi * r.u(.2, .35); hi = hi * r.u(.5, 1.2); }
    }
    c.desc = d.desc + fmt(" alg=%d kernel=%s adaptive=%d crit=%d par=%d bounds=%d [%g,%g] hat=%d", alg, kname(k.kernel).c_str(), int(k.adaptive), ct, par, int(bounds), lo, hi, int(hat));
    bool aic = ct != 0;
    BandwidthCriterionList list; Kern got = k; mat B; bool threw = false;
    auto grab = [&](const SpatialWeight& sw) { auto w = sw.weight<BandwidthWeight>(); got.bw = w->bandwidth(); got.adaptive = w->adaptive(); got.kernel = int(w->kernel()); };
    bool order = r.b();
    try
    {
        if (alg == 5)
        {
            CRSDistance sd(d.metric.type == Metric::Geo); OneDimDistance td; CRSSTDistance st(&sd, &td, lambda);
            SpatialWeight sw; BandwidthWeight b = mkBw(k); sw.setWeight(&b); sw.setDistance(&st);
            GTWR a; a.setCoords(d.coords, times); a.setDependentVariable(d.y); a.setIndependentVariables(d.x); a.setSpatialWeight(sw); a.setHasHatMatrix(hat); a.setHasIntercept(d.intercept);
            if (order && par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(threads); }
            a.setIsAutoselectBandwidth(true);
            if (ct < 2) a.setBandwidthSelectionCriterion(ct == 0 ? GTWR::BandwidthSelectionCriterionType::CV : GTWR::BandwidthSelectionCriterionType::AIC);
            if (!order && par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(threads); }
            c.check((a.bandwidthSelectionCriterion() == GTWR::BandwidthSelectionCriterionType::CV) == (ct == 0), "real:gtwr:criterion-getter", c.desc);
            B = a.fit(); list = a.bandwidthSelectionCriterionList(); grab(a.spatialWeight());
        }
        else
        {
            unique_ptr<GWRBasic> a(alg == 4 ? new GWRRobust() : new GWRBasic());
            a->setCoords(d.coords); a->setDependentVariable(d.y); a->setIndependentVariables(d.x); a->setSpatialWeight(mkSW(k, d.metric)); a->setHasHatMatrix(hat); a->setHasIntercept(d.intercept);
            if (alg == 4) static_cast<GWRRobust*>(a.get())->setFiltered(false);
            if (order && par) { a->setParallelType(ParallelType::OpenMP); a->setOmpThreadNum(threads); }
            a->setIsAutoselectBandwidth(true);
            if (ct < 2) a->setBandwidthSelectionCriterion(ct == 0 ? GWRBasic::BandwidthSelectionCriterionType::CV : GWRBasic::BandwidthSelectionCriterionType::AIC);
            if (!order && par) { a->setParallelType(ParallelType::OpenMP); a->setOmpThreadNum(threads); }
            if (bounds) { a->setGoldenLowerBounds(lo); a->setGoldenUpperBounds(hi); }
            c.check((a->bandwidthSelectionCriterion() == GWRBasic::BandwidthSelectionCriterionType::CV) == (ct == 0), "real:gwr:criterion-getter", c.desc);
            B = a->fit(); list = a->bandwidthSelectionCriterionList(); grab(a->spatialWeight());
        }
    }
    catch (const exception& e) { threw = true; c.desc += string(" threw ") + e.what(); }
    string cell = string(alg == 5 ? "gtwr" : alg == 4 ? "robust" : "basic") + (par ? "/omp" : "/serial") + (aic ? "/aic" : "/cv");
    c.tag("real:" + cell + (k.adaptive ? "/adaptive" : "/fixed") + (bounds ? "/bounds" : ""));
    string key = "real:" + cell + ":";
    if (threw)
    {
        // legitimate only when the two starting candidates have no solvable model
        double R = (sqrt(5.0) - 1) / 2, dd = R * (hi - lo), c1, c2; Kern q = k;
        q.bw = k.adaptive ? floor(lo + dd) : lo + dd; crit(d, D, q, aic, c1);
        q.bw = k.adaptive ? round(hi - dd) : hi - dd; crit(d, D, q, aic, c2);
        c.tag("real:threw");
        c.check(max(c1, c2) > 1e9, key + "unexpected-failure", c.desc);
        return;
    }
    c.nontrivial = true;
    if (!c.check(list.size() > 0, key + "empty-list", c.desc)) return;
    double best = DBL_MAX, prev = -DBL_MAX; bool found = false, wellAll = true;
    for (auto& p : list)
    {
        c.events++;
        c.check(p.first > prev, key + "list-order", c.desc); prev = p.first;
        c.check(p.first >= lo - 1e-9 * (1 + hi) && p.first <= hi + 1e-9 * (1 + hi), key + "bounds", c.desc + fmt(" candidate %.12g", p.first));
        if (k.adaptive) c.check(p.first == floor(p.first), key + "integer", c.desc);
        Kern q = k; q.bw = p.first; double cond; double v = crit(d, D, q, aic, cond);
        bool dz = false; for (uword i = 0; i < n && !dz; i++) dz = !(orc::kernBw(q, D.row(i).t()) > 0);
        if (cond > 1e9 || dz) { wellAll = false; c.tag("real:ill-conditioned-candidate"); }
        else c.close(p.second, v, max(1e-7, 1e-11 * cond) * (fabs(v) + double(n)), key + "value", c.desc + fmt(" candidate %.12g cond %.3g", p.first, cond));
        best = min(best, p.second); if (p.first == got.bw) found = true;
    }
    c.check(got.adaptive == k.adaptive && got.kernel == k.kernel, key + "flags", c.desc);
    if (!c.check(found, key + "selected-not-evaluated", c.desc + fmt(" bw %.12g", got.bw))) return;
    for (auto& p : list) if (p.first == got.bw) c.check(p.second == best, key + "argmin", c.desc + fmt(" chose %.12g (%.12g), best %.12g", got.bw, p.second, best));
    if (alg != 4 && wellAll)
    {
        double cond; mat W = orc::wls(d.x, d.y, orc::weightMat(got, D), &cond);
        if (cond < 1e8) c.closeM(B, W, max(1e-8, 1e-12 * cond), key + "used-in-fit", c.desc);
    }
}

void run_case(Case& c) { if (c.id % 3 == 0) synth(c); else real(c); }
