// R02: hat matrix, standard errors and fit diagnostics of basic GWR
#include "common.h"
using namespace std; using namespace gwm;

static void big(Case& c)
{
    // above the size where the library stops keeping the hat matrix
    Rng& r = c.r; uword n = 8192 + uword(r.i(0, 40));
    Data d = genData(r, n, 1, true, 0, 0);
    Kern k; k.kernel = 0; k.adaptive = true; k.bw = double(r.i(900, 4000));
    c.desc = d.desc + fmt(" big bw=%g", k.bw);
    GWRBasic a(d.x, d.y, d.coords, mkSW(k, d.metric), true, true);
    a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(4);
    mat B = a.fit();
    orc::Big o = orc::bigGwr(d.x, d.y, [&](uword i) { return orc::weights(k, arma::sqrt(arma::sum(arma::square(d.coords.each_row() - d.coords.row(i)), 1))); });
    const mat& BB = o.betas; const mat& CC = o.cc; double ts = o.trS, tss = o.trStS; const vec& q = o.q;
    c.closeM(B, BB, 1e-8, "big:beta", c.desc);
    c.close(a.sHat()(0), ts, 1e-7 * ts, "big:trS", c.desc); c.close(a.sHat()(1), tss, 1e-7 * tss, "big:trStS", c.desc);
    c.closeM(a.qDiag(), q, 1e-7, "big:q", c.desc);
    double s2 = orc::rss(d.x, d.y, BB) / (double(n) - 2 * ts + tss);
    c.closeM(a.betasSE(), arma::sqrt(s2 * CC), 1e-7, "big:se", c.desc);
    c.tag("big"); c.nontrivial = true;
}

void run_case(Case& c)
{
    Rng& r = c.r;
    if (c.id == 0 || (c.tier == "thorough" && c.id % 500 == 0)) { big(c); return; }
    uword n = pickN(r, {14, 25, 40, 41, 64, 90});
    uword np = uword(r.i(1, 4)); bool icpt = r.b(.75);
    Data d = genData(r, n, np, icpt);
    mat D = orc::distMat(d.metric, d.coords, d.coords);
    Kern k = genKern(r, d, D);
    int par = r.i(0, 2), threads = r.i(1, 9), store = r.i(0, 3);
    c.desc = d.desc + fmt(" kernel=%s adaptive=%d bw=%.10g par=%d threads=%d store=%d", kname(k.kernel).c_str(), int(k.adaptive), k.bw, par, threads, store);
    for (uword i = 0; i < n; i++)
    {
        vec di = D.row(i).t(); double b = orc::kernBw(k, di);
        if (!(b > 0)) { c.tag("skip:zero-bandwidth"); return; }
        if (k.kernel == 4) for (double x : di) if (fabs(x - b) <= 1e-9 * b) { k.kernel = 2; c.desc += " boxcar->bisquare"; break; }
    }
    orc::Gwr g = orc::gwr(d.x, d.y, orc::weightMat(k, D), true);
    double N = double(n), enp = 2 * g.trS - g.trStS, edf = N - enp;
    if (g.cond > 1e8) { c.tag("skip:ill-conditioned"); return; }
    if (edf < 1.05 || N - 2 - g.trS < 0.05) { c.tag("skip:saturated"); return; }
    double rt = max(1e-8, 1e-12 * g.cond);
    string cell = par ? "omp" : "serial";
    bool hat = r.b(.6), hasS = hat || (store & 1); c.desc += fmt(" hat=%d", int(hat)); GWRBasic a(d.x, d.y, d.coords, mkSW(k, d.metric), hat, icpt);
    if (par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(threads); }
    if (store & 1) a.setStoreS(true);
    if (store & 2) a.setStoreC(true);
    a.fit();
    c.tag(cell + "/" + kname(k.kernel) + (k.adaptive ? "/adaptive" : "/fixed")); c.tag(fmt("%s/store%d", cell.c_str(), store));
    c.nontrivial = true;
    c.close(a.sHat()(0), g.trS, rt * N, cell + ":trS", c.desc);
    c.close(a.sHat()(1), g.trStS, rt * N, cell + ":trStS", c.desc);
    if (!hat) c.tag(cell + fmt("/nohat/store%d", store));
    if (hasS) c.closeM(a.s(), g.S, rt, cell + ":S", c.desc);
    if (store & 2) c.closeC(a.c(), g.C, rt, cell + ":C", c.desc);
    c.closeM(a.qDiag(), g.q, rt, cell + ":q", c.desc);
    double rss = orc::rss(d.x, d.y, g.betas), yss = arma::accu(arma::square(d.y - arma::mean(d.y)));
    double s2 = rss / edf, ry = rt * (1 + yss / max(rss, 1e-300) * 1e-3);
    c.closeM(a.betasSE(), arma::sqrt(s2 * g.cc), ry * (1 + N / edf), cell + ":se", c.desc);
    auto q = a.diagnostic();
    double l = N * log(rss / N) + N * log(2 * 3.14159265358979323846), kx = 1 + N / (N - 2 - g.trS);
    c.close(q.RSS, rss, ry * rss, cell + ":diag:RSS", c.desc);
    c.close(q.ENP, enp, rt * N, cell + ":diag:ENP", c.desc);
    c.close(q.EDF, edf, rt * N, cell + ":diag:EDF", c.desc);
    c.close(q.RSquare, 1 - rss / yss, ry, cell + ":diag:R2", c.desc);
    c.close(q.RSquareAdjust, 1 - rss / yss * (N - 1) / (edf - 1), ry * N * (1 + N / (edf - 1) / (edf - 1)), cell + ":diag:adjR2", c.desc);
    c.close(q.AIC, l + N + g.trS, ry * N, cell + ":diag:AIC", c.desc);
    c.close(q.AICc, l + N * ((N + g.trS) / (N - 2 - g.trS)), ry * N * N * kx * kx, cell + ":diag:AICc", c.desc);
    // the reported hat matrix reproduces the fitted values
    if (hasS) c.closeM(a.s() * d.y, arma::sum(d.x % a.betas(), 1), rt * 100, cell + ":S*y", c.desc);
}
