// M03: multiscale GWR: every back-fitting step, bandwidth choice, lock-in, stop decision and result follows the declared model
#include "common.h"
using namespace std; using namespace gwm;
typedef GWRMultiscale G;
namespace {
struct Uni { vec b; mat A; double trS = 0; bool ok = true; };
Uni uni(const vec& x, const vec& y, const mat& W, bool hat, bool loo = false)
{
    uword n = x.n_elem; Uni u; u.b.zeros(n); if (hat) u.A.zeros(n, n);
    for (uword i = 0; i < n; i++)
    {
        vec w = W.row(i).t(); if (loo) w(i) = 0;
        double sxx = arma::accu(w % x % x), sxy = arma::accu(w % x % y); if (!(sxx > 1e-200)) { u.ok = false; continue; }
        u.b(i) = sxy / sxx; u.trS += x(i) * x(i) * w(i) / sxx; if (hat) u.A.row(i) = (x(i) / sxx) * (w % x).t();
    }
    return u;
}
}
void run_case(Case& c)
{
    Rng& r = c.r; uword n = pickN(r, {30, 40, 55, 70}, false), np = uword(r.i(1, 3)); bool icpt = r.b(.8), select = c.id % 3 != 0;
    Data d = genData(r, n, np, icpt); uword k = d.x.n_cols; bool geo = d.metric.type == Metric::Geo;
    if (!geo && select) { double span = arma::max(arma::max(d.coords, 0) - arma::min(d.coords, 0)); d.coords *= pow(2.0, ceil(log2(1000 / span))); }   // bandwidths are reported with six decimals
    bool golden = select && r.b(.3), allFixed = golden && r.b(), hat = r.b(.8); int par = r.i(0, 2), th = r.i(1, 9); int lowA = r.b(.3) ? r.i(5, 16) : 10;
    vector<Metric> me(k, d.metric); vector<mat> D(k); vector<Kern> ks(k); vector<int> iv(k), cr(k); vector<bool> pc(k); vector<double> th2(k); vector<SpatialWeight> sws; string ds;
    auto ties = [&](const Kern& q, const mat& E) { if (q.kernel == 4) for (uword i = 0; i < n; i++) { vec di = E.row(i).t(); double b = orc::kernBw(q, di); if (arma::accu(arma::abs(di - b) <= 1e-12 * b) > (q.adaptive ? 1 : 0)) return true; } return false; };   // which side of the step a tie falls is rounding
    for (uword j = 0; j < k; j++)
    {
        if (!geo && r.b(.4)) { me[j] = Metric(); if (r.b()) { me[j].type = Metric::Mink; me[j].p = r.pick({1.0, 3.0}); } }
        D[j] = orc::distMat(me[j], d.coords, d.coords);
        ks[j] = genKern(r, d, D[j], golden ? int(!allFixed) : -1, !select ? -1 : r.i(0, 3), .4);
        if (j < k) { iv[j] = select ? r.i(0, 2) : 2; if (select && j == 0) iv[j] = r.i(0, 1); cr[j] = r.i(0, 1); pc[j] = r.b(.7); th2[j] = ks[j].adaptive ? r.pick({1e-5, 1.5, 4.5}) : r.pick({1e-2, 1.0, 20.0}); if (ks[j].adaptive && iv[j] == 1) ks[j].bw = floor(ks[j].bw);
            sws.push_back(mkSW(ks[j], me[j])); ds += fmt(" [%s %s %.8g init=%d crit=%s centre=%d]", kname(ks[j].kernel).c_str(), ks[j].adaptive ? "adaptive" : "fixed", ks[j].bw, iv[j], cr[j] ? "CV" : "AIC", int(pc[j])); }
        if (j < k && iv[j] == 2) for (uword i = 0; i < n; i++) { vec di = D[j].row(i).t(); if (!(orc::kernBw(ks[j], di) > 0)) { c.tag("skip:zero-bandwidth"); return; } }
        if (ties(ks[j], D[j])) { c.tag("skip:tie-at-step"); return; }
    }
    int retry = r.i(1, 4), maxit = r.pick({1, 2, 5, 9, 30}), ct = r.i(0, 1); double tol = r.pick({1e-7, 1e-3, 1e-2, 1.0});
    double gl = allFixed ? D[0].max() * .25 : 12, gu = allFixed ? D[0].max() * .8 : double(n) - 3;
    string cell = string(select ? "select" : "fixed") + (par ? "/omp" : "/serial");
    c.desc = d.desc + fmt(" %s threads=%d hat=%d retry=%d maxit=%d crit=%s tol=%g golden=%d lower=%d", cell.c_str(), th, int(hat), retry, maxit, ct ? "dCVR" : "CVR", tol, int(golden), lowA) + ds;
    // ---- the run under observation
    G a; auto mon = make_shared<MonState>(); a.setTelegram(tele(mon));
    a.setCoords(d.coords); a.setDependentVariable(d.y); a.setIndependentVariables(d.x); a.setHasIntercept(icpt); a.setSpatialWeights(sws); SpatialWeight isw = sws[0];
    { vector<G::BandwidthInitilizeType> b; vector<G::BandwidthSelectionCriterionType> q; for (uword j = 0; j < k; j++) { b.push_back(iv[j] == 0 ? G::Null : iv[j] == 1 ? G::Initial : G::Specified); q.push_back(cr[j] ? G::BandwidthSelectionCriterionType::CV : G::BandwidthSelectionCriterionType::AIC); } a.setBandwidthInitilize(b); a.setBandwidthSelectionApproach(q); }
    a.setPreditorCentered(pc); a.setBandwidthSelectThreshold(th2); a.setBandwidthSelectRetryTimes(size_t(retry)); a.setMaxIteration(size_t(maxit)); a.setCriterionThreshold(tol); a.setCriterionType(ct ? G::BackFittingCriterionType::dCVR : G::BackFittingCriterionType::CVR); a.setHasHatMatrix(hat); a.setAdaptiveLower(lowA);
    if (golden) { a.setGoldenLowerBounds(gl); a.setGoldenUpperBounds(gu); }
    if (par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(th); }
    c.check(a.isValid(), cell + ":valid", c.desc);
    // ---- reference starting point: centred design, basic model with its own bandwidth selection (judged by R01/R02)
    mat X = d.x; for (uword j = icpt ? 1 : 0; j < k; j++) if (pc[j]) X.col(j) -= arma::mean(d.x.col(j));
    vec y = d.y; double N = double(n), yss = arma::accu(arma::square(y - arma::mean(y)));
    GWRBasic g0; g0.setCoords(d.coords); g0.setDependentVariable(y); g0.setIndependentVariables(X); g0.setSpatialWeight(isw); g0.setIsAutoselectBandwidth(true); g0.setBandwidthSelectionCriterion(cr[0] ? GWRBasic::BandwidthSelectionCriterionType::CV : GWRBasic::BandwidthSelectionCriterionType::AIC);
    if (par) { g0.setParallelType(ParallelType::OpenMP); g0.setOmpThreadNum(th); } if (golden) { g0.setGoldenLowerBounds(gl); g0.setGoldenUpperBounds(gu); }
    bool startOk = true; try { g0.fit(); } catch (const exception&) { startOk = false; }
    mat B0; bool threw = false; string what; try { B0 = a.fit(); } catch (const exception& e) { threw = true; what = e.what(); }
    if (!startOk) { c.tag("start-rejected"); c.check(threw || a.status() != Status::Success, cell + ":start", c.desc); return; }
    Kern k0 = ks[0]; k0.bw = g0.spatialWeight().weight<BandwidthWeight>()->bandwidth(); orc::Gwr gg = orc::gwr(X, y, orc::weightMat(k0, D[0]), true);
    if (ties(k0, D[0])) { c.tag("skip:tie-at-step"); return; }
    if (gg.cond > 1e6) { c.tag("skip:ill-conditioned"); return; }
    mat betas = gg.betas, S = gg.S; vector<mat> R(k, mat(n, n)); for (uword j = 0; j < k; j++) for (uword i = 0; i < n; i++) R[j].row(i) = X(i, j) * gg.C.slice(i).row(j);
    // ---- replay of the recorded run
    vector<string> L; for (auto& e : mon->ev) if (e.kind == 'L' && (e.text.compare(0, 21, "#bandwidth-criterion ") == 0 || e.text.compare(0, 19, "#initial-bandwidth ") == 0 || e.text.compare(0, 14, "#back-fitting ") == 0)) L.push_back(e.text);
    size_t p = 0; while (p < L.size() && L[p].compare(0, 21, "#bandwidth-criterion ") == 0) p++;   // reports of the starting model, if any
    const string BF = "#back-fitting ", IB = "#initial-bandwidth ", BC = "#bandwidth-criterion ", VS = BF + "#variable-bandwidth-selection ";
    vector<Kern> kk(ks.begin(), ks.begin() + long(k)); vector<mat> W(k); bool degenerate = false; int judged = 0;
    auto weights = [&](uword j, const Kern& q) { for (uword i = 0; i < n; i++) { vec di = D[j].row(i).t(); if (!(orc::kernBw(q, di) > 0)) return mat(); } return orc::weightMat(q, D[j]); };
    // candidates up to the end line; returns the minimum
    auto candidates = [&](uword j, const vec& yi, vector<pair<double, double>>& cand) {
        double lo = golden ? gl : ks[j].adaptive ? double(lowA) : D[j].min(), hi = golden ? gu : ks[j].adaptive ? N : D[j].max(); vec x = X.col(j);
        for (; p < L.size() && L[p].compare(0, BC.size(), BC) == 0; p++)
        {
            char* e; double bw = strtod(L[p].c_str() + BC.size(), &e), v = 0; if (*e != ',') continue; v = strtod(e + 1, nullptr); cand.push_back({bw, v}); c.events++;
            c.check(bw >= lo - 1e-3 && bw <= hi + 1e-3, cell + ":bounds", c.desc + fmt(" variable %d candidate %g outside [%g, %g]", int(j), bw, lo, hi));
            if (judged > 60 && !r.b(.25)) continue;
            Kern q = ks[j]; q.bw = bw; mat w = weights(j, q); if (w.empty()) continue; Uni u = uni(x, yi, w, false, cr[j] == 1); double rss = arma::accu(arma::square(yi - x % u.b)), want = cr[j] ? rss : orc::aicc(mat(x), yi, mat(u.b), u.trS);
            if (!u.ok || !(rss > 1e-14 * arma::dot(yi, yi)) || fabs(N - 2 - u.trS) < .05) { c.tag("degenerate-candidate"); continue; } judged++;
            double kx = cr[j] ? 1 : 1 + N * N / (N - 2 - u.trS) / (N - 2 - u.trS);
            c.close(v, want, 2e-6 + 2e-6 * (fabs(want) + N * kx * .1), cell + (cr[j] ? ":criterion-cv" : ":criterion-aic"), c.desc + fmt(" variable %d", int(j)) + " " + L[p]);
        }
    };
    auto choose = [&](uword j, double bw, const vector<pair<double, double>>& cand) {
        double best = 1e300, mine = 1e301; for (auto& q : cand) { best = min(best, q.second); if (fabs(q.first - bw) <= 2e-6) mine = min(mine, q.second); }
        c.check(!cand.empty() && mine <= best + 2e-6, cell + ":choice", c.desc + fmt(" variable %d uses %.8g although a candidate is better (%g against %g)", int(j), bw, best, mine));
    };
    auto stopOn = [&](const string& t) { c.tag(t); if (threw) { c.tag("threw"); } };
    if (threw) { bool noCand = true; for (uword j = 0; j < k; j++) if (iv[j] != 2) noCand = false; if (noCand) c.check(false, cell + ":exception", what + " in " + c.desc); else c.tag("threw"); return; }
    c.check(a.status() == Status::Success, cell + ":status", c.desc);
    for (uword j = 0; j < k; j++) if (iv[j] == 0)
    {
        if (!c.check(p < L.size() && L[p] == IB + to_string(j), cell + ":initial-selection", c.desc + fmt(" variable %d", int(j)) + (p < L.size() ? " got " + L[p] : ""))) return;
        p++; vector<pair<double, double>> cand; candidates(j, y, cand); string pre = IB + to_string(j) + ",";
        if (!c.check(p < L.size() && L[p].compare(0, pre.size(), pre) == 0, cell + ":initial-selection", c.desc + fmt(" variable %d", int(j)))) return;
        kk[j].bw = atof(L[p].c_str() + pre.size()); p++; choose(j, kk[j].bw, cand); c.tag("initial-selection");
    }
    vec resid = y - arma::sum(X % betas, 1); double rss0 = arma::dot(resid, resid), crit = 1e300; vector<int> count(k, 0), lock(k, 0); for (uword j = 0; j < k; j++) lock[j] = iv[j] == 2; int it = 0; bool ambiguous = false; int locked = 0;
    auto text = [&]() { while (p < L.size() && (L[p].compare(0, BF.size() + 1, BF + "#") != 0) && L[p] != BF + "Finished" && L[p].compare(0, BC.size(), BC) != 0) p++; return p < L.size() ? L[p] : string("<end>"); };
    double rt = 1e-6 * (select ? 1 : .05);
    for (it = 1; it <= maxit && crit > tol; it++)
    {
        string t = text(); if (!c.check(t.compare(0, BF.size() + 10, BF + "#iteration") == 0, cell + ":iterations", c.desc + fmt(" iteration %d expected (criterion %.9g), got ", it, crit) + t)) return;
        p++;
        for (uword j = 0; j < k; j++)
        {
            vec yi = resid + betas.col(j) % X.col(j);
            if (!lock[j])
            {
                t = text(); if (!c.check(t == VS + to_string(j), cell + ":selection", c.desc + fmt(" iteration %d variable %d is not locked but was not reselected: ", it, int(j)) + t)) return;
                p++; vector<pair<double, double>> cand; candidates(j, yi, cand); t = text(); string pre = VS + to_string(j) + ",";
                if (!c.check(t.compare(0, pre.size(), pre) == 0, cell + ":selection", c.desc + " got " + t)) return;
                p++; const char* s = t.c_str() + pre.size(); char* e; double b0 = strtod(s, &e), b1 = *e ? strtod(e + 1, &e) : -1; string rest = *e ? string(e + 1) : ""; size_t cm = rest.find(','); string flag = cm == string::npos ? "" : rest.substr(cm + 1);
                c.close(b0, kk[j].bw, 2e-6, cell + ":previous-bandwidth", c.desc); choose(j, b1, cand); double df = fabs(b1 - b0);
                if (fabs(df - th2[j]) < 3e-6) ambiguous = true;
                if (ambiguous) { stopOn("ambiguous-threshold"); return; }
                if (df > th2[j]) { count[j] = 0; c.check(flag == "false", cell + ":lock", c.desc + " " + t); }
                else { count[j]++; if (count[j] >= retry) { lock[j] = 1; locked++; c.check(flag == "true", cell + ":lock", c.desc + " " + t); } else c.check(flag.compare(0, to_string(count[j]).size(), to_string(count[j])) == 0, cell + ":lock", c.desc + " " + t); }
                kk[j].bw = b1; W[j].reset();
            }
            if (W[j].empty()) { W[j] = weights(j, kk[j]); if (W[j].empty()) { c.tag("skip:zero-bandwidth"); return; } }
            Uni u = uni(X.col(j), yi, W[j], hat); if (!u.ok || arma::accu(arma::square(yi - X.col(j) % u.b)) < 1e-10 * arma::dot(yi, yi)) degenerate = true;
            if (degenerate) { stopOn("degenerate-fit"); return; }
            if (hat) { mat q = R[j] - S; R[j] = u.A * q + u.A; S = R[j] - q; }
            betas.col(j) = u.b; resid = y - arma::sum(X % betas, 1); c.events++;
        }
        double rss1 = arma::dot(resid, resid); crit = ct ? sqrt(fabs(rss1 - rss0) / rss1) : fabs(rss1 - rss0);
        t = text(); string pre = BF + "#backfitting-criterion "; if (!c.check(t.compare(0, pre.size(), pre) == 0, cell + ":criterion-report", c.desc + " got " + t)) return;
        p++; double v = atof(t.c_str() + pre.size()), tl = 2e-6 + rt * (ct ? 1 / max(crit, 1e-4) : max(rss1, rss0)) + rt * crit;
        c.close(v, crit, tl, cell + ":backfitting-criterion", c.desc + fmt(" iteration %d", it));
        if (fabs(crit - tol) < tl) { stopOn("ambiguous-stop"); return; }
        rss0 = rss1;
    }
    { string t = text(); c.check(t == BF + "Finished", cell + ":iterations", c.desc + fmt(" should have stopped after iteration %d (criterion %.9g) but went on: ", it - 1, crit) + t); }
    c.nontrivial = true; c.tag(cell + fmt("/vars%d", int(k))); c.tag(it - 1 >= maxit ? "stopped-by-limit" : "stopped-by-criterion"); if (locked) c.tag("lock-in"); if (hat) c.tag("hat"); if (golden) c.tag("golden-bounds"); for (uword j = 0; j < k; j++) c.tag(string("init/") + (iv[j] == 0 ? "null" : iv[j] == 1 ? "initial" : "specified") + (cr[j] ? "/cv" : "/aic") + (ks[j].adaptive ? "/adaptive" : "/fixed"));
    for (uword j = 0; j < k; j++) { auto w = a.spatialWeights()[j].weight<BandwidthWeight>(); c.close(w->bandwidth(), kk[j].bw, 2e-6 + (iv[j] == 2 ? 0 : 1e-9 * kk[j].bw), cell + ":bandwidth", c.desc + fmt(" variable %d", int(j))); c.check(w->adaptive() == ks[j].adaptive && int(w->kernel()) == ks[j].kernel, cell + ":flags", c.desc); }
    c.closeM(B0, betas, rt * 10, cell + ":beta", c.desc); c.closeM(a.betas(), betas, rt * 10, cell + ":accessor", c.desc);
    auto q = a.diagnostic(); c.close(q.RSS, rss0, rt * 10 * (rss0 + 1e-2 * yss), cell + ":RSS", c.desc); c.close(q.RSquare, 1 - rss0 / yss, rt * 10, cell + ":R2", c.desc);
    if (hat)
    {
        double trS = arma::trace(S), tss = arma::accu(S % S), enp = 2 * trS - tss, edf = N - enp, l = N * log(rss0 / N) + N * log(2 * 3.14159265358979323846), kx = 1 + N / fabs(N - 2 - trS), rl = rt * 10 * N * (1 + yss / rss0 * 1e-2);
        c.close(q.ENP, enp, rt * 30 * N, cell + ":ENP", c.desc); c.close(q.EDF, edf, rt * 30 * N, cell + ":EDF", c.desc); c.close(q.AIC, l + N + trS, rl + rt * 30 * N, cell + ":AIC", c.desc);
        if (fabs(N - 2 - trS) > .05) c.close(q.AICc, l + N * ((N + trS) / (N - 2 - trS)), rl + rt * 30 * N * kx * kx, cell + ":AICc", c.desc);
        if (fabs(edf - 1) > .05) c.close(q.RSquareAdjust, 1 - rss0 / yss * (N - 1) / (edf - 1), rt * 30 * N * (1 + N / (edf - 1) / (edf - 1)), cell + ":adjR2", c.desc);
    }
}
