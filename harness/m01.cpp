// M01: robust GWR discards (filtered) or iteratively downweights outlying observations
#include "common.h"
using namespace std; using namespace gwm;
void run_case(Case& c)
{
    Rng& r = c.r; uword n = pickN(r, {25, 40, 64, 90}), np = uword(r.i(1, 3)); bool icpt = r.b(.8), filt = c.id % 2;
    Data d = genData(r, n, np, icpt); mat D = orc::distMat(d.metric, d.coords, d.coords); Kern k = genKern(r, d, D, -1, r.i(0, 3), .45);
    // gross errors in a few responses
    int no = r.i(0, 5); double sd = arma::stddev(d.y); for (int o = 0; o < no; o++) d.y(uword(r.i(0, int(n) - 1))) += sd * r.pick({-1.0, 1.0}) * r.u(2, 20);
    int par = r.i(0, 2), th = r.i(1, 9);
    string cell = string(filt ? "filtered" : "iterative") + (par ? "/omp" : "/serial");
    c.desc = d.desc + fmt(" %s kernel=%s adaptive=%d bw=%.10g threads=%d outliers=%d", cell.c_str(), kname(k.kernel).c_str(), int(k.adaptive), k.bw, th, no);
    for (uword i = 0; i < n; i++) { vec di = D.row(i).t(); if (!(orc::kernBw(k, di) > 0)) { c.tag("skip:zero-bandwidth"); return; } }
    mat W = orc::weightMat(k, D); vec mask(n, arma::fill::ones); double N = double(n); bool ambiguous = false; double cond = 0; int it = 0; uword down = 0;
    auto fitw = [&](const vec& m, bool full) { mat V = W; V.each_row() %= m.t(); orc::Gwr g = orc::gwr(d.x, d.y, V, full); cond = max(cond, g.cond); return g; };
    orc::Gwr g = fitw(mask, true); if (cond > 1e7) { c.tag("skip:ill-conditioned"); return; }
    if (filt)
    {
        double edf = N - 2 * g.trS + g.trStS; if (edf < 1) { c.tag("skip:saturated"); return; }
        vec res = d.y - arma::sum(d.x % g.betas, 1), stu = res / arma::sqrt(arma::dot(res, res) / edf * g.q);
        for (uword i = 0; i < n; i++) { double a = fabs(stu(i)); if (fabs(a - 3) < 1e-5) ambiguous = true; mask(i) = a > 3 ? 0 : 1; }
        g = fitw(mask, true);
    }
    else
    {
        double mse = 0; auto step = [&]() {
            vec res = d.y - arma::sum(d.x % g.betas, 1); mse = arma::dot(res, res) / N;
            for (uword i = 0; i < n; i++) { double a = fabs(res(i)) / sqrt(mse); mask(i) = a <= 2 ? 1 : a < 3 ? pow(1 - (a - 2) * (a - 2), 2) : 0; } };
        step(); double diff = 1;
        while (diff > 1e-5 && it < 20) { double old = mse; vec used = mask; g = fitw(mask, true); step(); down = arma::accu(used < 1); diff = fabs(old - mse) / mse; it++; if (fabs(diff / 1e-5 - 1) < 1e-3) ambiguous = true; }
    }
    if (filt) down = arma::accu(mask < 1);
    double enp = 2 * g.trS - g.trStS, edf = N - enp;
    if (cond > 1e7) { c.tag("skip:ill-conditioned"); return; } if (ambiguous) { c.tag("skip:threshold"); return; } if (edf < 1.05 || fabs(N - 2 - g.trS) < .05) { c.tag("skip:saturated"); return; }
    double rt = max(1e-6, 1e-11 * cond) * (filt ? 1 : 10);
    GWRRobust a; a.setCoords(d.coords); a.setDependentVariable(d.y); a.setIndependentVariables(d.x); a.setHasIntercept(icpt); a.setSpatialWeight(mkSW(k, d.metric)); bool hat = r.b(.8); a.setHasHatMatrix(hat); if (!hat) { c.desc += " hat=0"; c.tag("nohat"); } a.setFiltered(filt);
    if (par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(th); }
    c.check(a.isValid(), cell + ":valid", c.desc); mat B = a.fit(); c.check(a.status() == Status::Success, cell + ":status", c.desc);
    c.nontrivial = true; c.tag(cell + (k.adaptive ? "/adaptive" : "/fixed")); c.tag(down ? cell + "/outliers-found" : cell + "/none"); if (!filt) c.tag(fmt("iterations%s", it >= 20 ? "-limit" : it > 5 ? ">5" : "<=5"));
    c.closeM(B, g.betas, rt, cell + ":beta", c.desc); c.closeM(a.betas(), g.betas, rt, cell + ":accessor", c.desc);
    c.close(a.sHat()(0), g.trS, rt * N, cell + ":trS", c.desc); c.close(a.sHat()(1), g.trStS, rt * N, cell + ":trStS", c.desc); c.closeM(a.qDiag(), g.q, rt * 10, cell + ":q", c.desc); if (hat) c.closeM(a.s(), g.S, rt, cell + ":S", c.desc);
    double rss = orc::rss(d.x, d.y, g.betas), yss = arma::accu(arma::square(d.y - arma::mean(d.y))), s2 = rss / edf, ry = rt * 10 * (1 + yss / rss * 1e-2), kx = 1 + N / fabs(N - 2 - g.trS);
    c.closeM(a.betasSE(), arma::sqrt(s2 * g.cc), ry * (1 + N / edf), cell + ":se", c.desc);
    auto q = a.diagnostic(); double l = N * log(rss / N) + N * log(2 * 3.14159265358979323846);
    c.close(q.RSS, rss, ry * rss, cell + ":RSS", c.desc); c.close(q.ENP, enp, rt * N, cell + ":ENP", c.desc); c.close(q.EDF, edf, rt * N, cell + ":EDF", c.desc); c.close(q.RSquare, 1 - rss / yss, ry, cell + ":R2", c.desc);
    c.close(q.RSquareAdjust, 1 - rss / yss * (N - 1) / (edf - 1), ry * N * (1 + N / (edf - 1) / (edf - 1)), cell + ":adjR2", c.desc);
    c.close(q.AIC, l + N + g.trS, ry * N, cell + ":AIC", c.desc); c.close(q.AICc, l + N * ((N + g.trS) / (N - 2 - g.trS)), ry * N * N * kx * kx, cell + ":AICc", c.desc);
}
