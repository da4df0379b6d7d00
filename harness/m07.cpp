// M07: density regression: local least squares with the product of the kernels of every dimension; bandwidth optimisation
#include "common.h"
#include <omp.h>
using namespace std; using namespace gwm;
static void big(Case& c)
{
    // above the size where the library stops keeping the hat matrix
    int before = omp_get_max_threads(); omp_set_num_threads(1); // no threads inside element-wise functions
    Rng& r = c.r; uword n = 8192 + uword(r.i(0, 40)); bool omp = c.id % 2 == 0;
    Data d = genData(r, n, 1, true, 0, 0); vector<Kern> ks(2); vector<SpatialWeight> sws;
    string cell = omp ? "big/omp" : "big/serial"; c.desc = d.desc + " " + cell;
    for (uword m = 0; m < 2; m++)
    {
        Kern& k = ks[m]; k.kernel = int(m); k.adaptive = r.b(); k.bw = k.adaptive ? double(r.i(2000, 7000)) : (d.coords.col(m).max() - d.coords.col(m).min()) * r.u(.3, .9);
        OneDimDistance od; BandwidthWeight bw = mkBw(k); sws.push_back(SpatialWeight(&bw, &od)); c.desc += fmt(" [adaptive=%d bw=%.10g]", int(k.adaptive), k.bw);
    }
    GWDR a(d.x, d.y, d.coords, sws, true, true); if (omp) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(4); }
    mat B = a.fit();
    orc::Big o = orc::bigGwr(d.x, d.y, [&](uword i) { vec w(n, arma::fill::ones); for (uword m = 0; m < 2; m++) w %= orc::weights(ks[m], arma::abs(d.coords.col(m) - d.coords(i, m))); return w; });
    double s2 = orc::rss(d.x, d.y, o.betas) / (double(n) - 2 * o.trS + o.trStS);
    c.closeM(B, o.betas, 1e-8, cell + ":beta", c.desc); c.close(a.sHat()(0), o.trS, 1e-7 * o.trS, cell + ":trS", c.desc); c.close(a.sHat()(1), o.trStS, 1e-7 * o.trStS, cell + ":trStS", c.desc);
    c.closeM(a.qDiag(), o.q, 1e-7, cell + ":q", c.desc); c.closeM(a.betasSE(), arma::sqrt(s2 * o.cc), 1e-7, cell + ":se", c.desc);
    c.tag(cell); c.nontrivial = true; omp_set_num_threads(before);
}
void run_case(Case& c)
{
    if (c.id < 2 || (c.tier == "thorough" && c.id % 500 < 2)) { big(c); return; }
    Rng& r = c.r; bool opt = c.id % 3 == 0; uword n = opt ? pickN(r, {25, 40}, false) : pickN(r, {25, 40, 60, 90}), np = uword(r.i(1, 3)), nd = uword(r.pick({1, 2, 2, 3})); bool icpt = r.b(.85);
    Data d = genData(r, n, np, icpt, r.pick({0, 1, 3}), 0);
    if (opt) { d.coords -= d.coords.min(); d.coords *= 100 / d.coords.max(); }
    mat P(n, nd); for (uword m = 0; m < nd; m++) for (uword i = 0; i < n; i++) P(i, m) = m < 2 ? d.coords(i, m) : r.u(0, 100);
    vector<mat> D; vector<Kern> ks; vector<SpatialWeight> sws; string ws; bool anyAd = false;
    for (uword m = 0; m < nd; m++)
    {
        mat E(n, n); for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) E(i, j) = fabs(P(i, m) - P(j, m)); D.push_back(E);
        Kern k; k.adaptive = r.b(); k.kernel = opt ? r.i(0, 1) : r.i(0, 3); k.bw = k.adaptive ? floor(double(n) * r.u(.6, 1.1)) : E.max() * r.u(.35, 1.2); if (!opt && k.adaptive && r.b(.2)) k.bw += r.u();
        anyAd = anyAd || k.adaptive; ks.push_back(k); OneDimDistance od; BandwidthWeight bw = mkBw(k); sws.push_back(SpatialWeight(&bw, &od)); ws += fmt(" [%s %s %.10g]", kname(k.kernel).c_str(), k.adaptive ? "adaptive" : "fixed", k.bw);
    }
    int par = r.i(0, 2), th = r.i(1, 8), ct = r.i(0, 1); string cell = string(opt ? (ct ? "optimise-aic" : "optimise-cv") : "fit") + (par ? "/omp" : "/serial");
    c.desc = d.desc + fmt(" %s dims=%d threads=%d", cell.c_str(), int(nd), th) + ws;
    auto wm = [&](const vector<Kern>& q) { mat W(n, n, arma::fill::ones); for (uword m = 0; m < nd; m++) { for (uword i = 0; i < n; i++) if (!(orc::kernBw(q[m], D[m].row(i).t()) > 0)) return mat(); W %= orc::weightMat(q[m], D[m]); } return W; };
    if (!opt) { mat W = wm(ks); if (W.empty()) { c.tag("skip:zero-bandwidth"); return; } if (orc::gwr(d.x, d.y, W, false).cond > 1e7) { c.tag("skip:ill-conditioned"); return; } }
    bool hat = r.b(.8); if (!hat) { c.desc += " hat=0"; c.tag("nohat"); } GWDR a(d.x, d.y, P, sws, hat, icpt); auto mon = make_shared<MonState>(); a.setTelegram(tele(mon));
    bool late = r.b(); auto setPar = [&]() { if (par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(th); } }; if (!late) setPar();
    if (opt) { a.setEnableBandwidthOptimize(true); a.setBandwidthOptimizeEps(r.pick({1e-2, 1e-3})); a.setBandwidthOptimizeMaxIter(3000); a.setBandwidthOptimizeStep(anyAd ? .05 : 2.0); a.setBandwidthCriterionType(ct ? GWDR::BandwidthCriterionType::AIC : GWDR::BandwidthCriterionType::CV); }
    if (late) setPar();
    c.check(a.isValid(), cell + ":valid", c.desc);
    mat B; try { B = a.fit(); }
    catch (const exception& e)
    {
        c.tag("threw/" + cell); if (!opt) { c.check(false, cell + ":exception", string(e.what()) + " in " + c.desc); return; }
        // giving up is legitimate, but not when every candidate was refused although the models can be solved
        bool solvable = true, any = false; for (auto& s : mon->logsWith(GWM_LOG_TAG_BANDWIDTH_CIRTERION)) any = any || (s.find(':') == string::npos && s.find("fixed") == string::npos);
        for (double f : {1.0, .618}) { vector<Kern> q = ks; for (auto& k : q) k.bw *= f; mat W = wm(q); if (W.empty()) { solvable = false; break; } orc::Gwr g = orc::gwr(d.x, d.y, W, true); double v = ct ? orc::aicc(d.x, d.y, g.betas, g.trS) : 0; if (!(g.cond < 1e5) || !isfinite(v) || double(n) - 2 - g.trS < .5 || g.S.diag().max() > 1 - 1e-6) solvable = false; }
        c.check(any || !solvable, cell + ":all-refused", string(e.what()) + " in " + c.desc); if (solvable) c.tag("gave-up-solvable/" + cell);
        return;
    }
    vector<Kern> kk = ks; for (uword m = 0; m < nd; m++) { auto w = a.spatialWeights()[m].weight<BandwidthWeight>(); kk[m].bw = w->bandwidth(); c.check(w->adaptive() == ks[m].adaptive && int(w->kernel()) == ks[m].kernel, cell + ":flags", c.desc); if (!opt) c.check(kk[m].bw == ks[m].bw, cell + ":bandwidth-changed", c.desc); }
    if (opt)
    {
        auto crit = [&](const vector<Kern>& q, double& cond) { mat W = wm(q); if (W.empty()) { cond = 1e99; return 0.0; } orc::Gwr g = orc::gwr(d.x, d.y, W, ct == 1, ct == 0); cond = g.cond; return ct ? orc::aicc(d.x, d.y, g.betas, g.trS) : orc::rss(d.x, d.y, g.betas); };
        auto logs = mon->logsWith(GWM_LOG_TAG_BANDWIDTH_CIRTERION); double best = 1e300; vector<pair<double, vector<Kern>>> cands; int judged = 0; bool first = true;
        for (auto& s : logs)
        {
            vector<Kern> q = ks; const char* p = s.c_str(); char* e; bool okp = true; double v = 0; for (uword m = 0; m <= nd; m++) { double x = strtod(p, &e); if (e == p || (m < nd && *e != ',')) { okp = false; break; } if (m < nd) { q[m].bw = x; p = e + 1; } else { v = x; okp = *e == 0; } }
            if (!okp || (first && s.find("fixed") != string::npos)) continue; if (s.find(':') != string::npos) continue; first = false; c.events++;
            best = min(best, v); cands.emplace_back(v, q);
            if (ct && v < -30 * double(n)) { c.tag("degenerate-candidate"); continue; } // an exact fit: the criterion is rounding noise
            if (judged < 40 || r.b(.1))
            {
                double cd, w = crit(q, cd), slack = 2e-6; for (uword m = 0; m < nd; m++) { vector<Kern> z = q; double c2; z[m].bw += 1e-6; slack += 2 * fabs(crit(z, c2) - w); z[m].bw -= 2e-6; slack += 2 * fabs(crit(z, c2) - w); cd = max(cd, c2); }
                if (cd > 1e7 || slack > 1e-3 * (1 + fabs(w))) { c.tag("ill-conditioned-candidate"); continue; } judged++;
                c.close(v, w, slack + max(1e-8, 1e-11 * cd) * (fabs(w) + double(n)), cell + ":criterion", c.desc + " candidate " + s);
            }
        }
        c.check(!cands.empty(), cell + ":reported", c.desc + fmt(" %d reports", int(logs.size())));
        bool found = false; string near; // the simplex may leave the very best point for an expansion beyond it, but never ends above the start
        for (auto& q : cands) if (q.first <= cands[0].first + 2.1e-6) { bool ok = true; for (uword m = 0; m < nd; m++) { double x = q.second[m].bw; ok = ok && (kk[m].adaptive ? kk[m].bw == round(x) || (kk[m].bw == round(x + 1e-5)) || kk[m].bw == round(x - 1e-5) : fabs(kk[m].bw - x) <= 2e-6); } found = found || ok; near += fmt(" (%.8g %.8g=%.9g)", q.second[0].bw, q.second[nd - 1].bw, q.first); }
        if (ct && best < -30 * double(n)) c.tag("degenerate-optimum"); // an exact fit: the criterion is rounding noise
        else if (!cands.empty()) { c.check(found, cell + ":optimum", c.desc + fmt(" uses %.8g %.8g, evaluated and no worse than the start", kk[0].bw, kk[nd - 1].bw) + near.substr(0, 200)); c.tag("optimum-judged"); }
    }
    mat W = wm(kk); if (W.empty()) { c.tag("skip:zero-bandwidth"); return; }
    orc::Gwr g = orc::gwr(d.x, d.y, W, true); double N = double(n), enp = 2 * g.trS - g.trStS, edf = N - enp;
    if (g.cond > 1e7 || edf < 1.05 || fabs(N - 2 - g.trS) < .05) { c.tag("skip:ill-conditioned"); return; }
    double rt = max(1e-7, 1e-10 * g.cond); c.nontrivial = true; c.tag(cell + fmt("/dims%d", int(nd))); c.tag(cell + (anyAd ? "/adaptive" : "/fixed"));
    c.closeM(B, g.betas, rt, cell + ":beta", c.desc); c.closeM(a.betas(), g.betas, rt, cell + ":accessor", c.desc);
    c.close(a.sHat()(0), g.trS, rt * N, cell + ":trS", c.desc); c.close(a.sHat()(1), g.trStS, rt * N, cell + ":trStS", c.desc); c.closeM(a.qDiag(), g.q, rt, cell + ":q", c.desc); if (hat) c.closeM(a.s(), g.S, rt, cell + ":S", c.desc);
    double rss = orc::rss(d.x, d.y, g.betas), yss = arma::accu(arma::square(d.y - arma::mean(d.y))), s2 = rss / edf, ry = rt * (1 + yss / rss * 1e-2), kx = 1 + N / fabs(N - 2 - g.trS);
    c.closeM(a.betasSE(), arma::sqrt(s2 * g.cc), ry * (1 + N / edf), cell + ":se", c.desc);
    auto dg = a.diagnostic(); double l = N * log(rss / N) + N * log(2 * 3.14159265358979323846);
    c.close(dg.RSS, rss, ry * rss, cell + ":RSS", c.desc); c.close(dg.ENP, enp, rt * N, cell + ":ENP", c.desc); c.close(dg.EDF, edf, rt * N, cell + ":EDF", c.desc); c.close(dg.RSquare, 1 - rss / yss, ry, cell + ":R2", c.desc);
    c.close(dg.RSquareAdjust, 1 - rss / yss * (N - 1) / (edf - 1), ry * N * (1 + N / (edf - 1) / (edf - 1)), cell + ":adjR2", c.desc);
    c.close(dg.AIC, l + N + g.trS, ry * N, cell + ":AIC", c.desc); c.close(dg.AICc, l + N * ((N + g.trS) / (N - 2 - g.trS)), ry * N * N * kx * kx, cell + ":AICc", c.desc);
}
