// R01: basic GWR coefficients are the exact local weighted least squares solution
#include "common.h"
using namespace std; using namespace gwm;

void run_case(Case& c)
{
    Rng& r = c.r;
    uword n = pickN(r, {12, 25, 40, 41, 64, 90, 130});
    uword np = uword(r.i(1, 4));
    if (c.id % 37 == 0) { np = uword(r.i(6, 9)); n = 130; }
    bool icpt = r.b(.75);
    bool noX = icpt && r.b(.05);
    Data d = genData(r, n, noX ? 0 : np, icpt);
    mat D = orc::distMat(d.metric, d.coords, d.coords);
    Kern k = genKern(r, d, D);
    int par = r.i(0, 2), threads = r.i(1, 9);
    bool hat = r.b();
    c.desc = d.desc + fmt(" kernel=%s adaptive=%d bw=%.10g par=%d threads=%d hat=%d", kname(k.kernel).c_str(), int(k.adaptive), k.bw, par, threads, int(hat));
    auto ambiguous = [&](const mat& DD) {
        for (uword i = 0; i < DD.n_rows; i++)
        {
            vec di = DD.row(i).t(); double b = orc::kernBw(k, di);
            if (!(b > 0)) return true;
            if (k.kernel == 4) for (double x : di) if (fabs(x - b) <= 1e-9 * b) return true;
        }
        return false;
    };
    // query locations: data points, new points, copies of data points, points far outside
    uword m = uword(r.pick({1, 2, 7, 30, int(n), int(n) + 11}));
    mat L(m, 2);
    double spanx = max(d.coords.col(0).max() - d.coords.col(0).min(), 1e-9), spany = max(d.coords.col(1).max() - d.coords.col(1).min(), 1e-9);
    for (uword i = 0; i < m; i++)
    {
        uword q = uword(r.i(0, int(n) - 1));
        L(i, 0) = d.coords(q, 0) + (r.b(.3) ? 0 : .05 * spanx * r.n()); L(i, 1) = d.coords(q, 1) + (r.b(.3) ? 0 : .05 * spany * r.n());
    }
    mat DL = orc::distMat(d.metric, L, d.coords);
    if (k.kernel == 4 && (ambiguous(D) || ambiguous(DL))) { k.kernel = 2; c.desc += " boxcar->bisquare"; }
    if (ambiguous(D) || ambiguous(DL)) { c.tag("skip:zero-bandwidth"); return; }
    orc::Gwr g = orc::gwr(d.x, d.y, orc::weightMat(k, D), false);
    if (g.cond > 1e9) { c.tag("skip:ill-conditioned"); return; }
    double rt = max(1e-9, 1e-13 * g.cond);
    string mode = par == 0 ? "serial" : "omp";
    string cell = mode + "/" + (k.adaptive ? "adaptive" : "fixed");
    auto mk = [&]() {
        unique_ptr<GWRBasic> a(new GWRBasic(d.x, d.y, d.coords, mkSW(k, d.metric), hat, icpt));
        if (par) { a->setParallelType(ParallelType::OpenMP); a->setOmpThreadNum(threads); }
        return a;
    };
    auto a = mk();
    c.check(a->isValid(), "fit:" + cell + ":valid", c.desc);
    mat B = a->fit();
    c.tag("fit:" + cell + ":" + kname(k.kernel)); c.tag(string("fit:hat") + (hat ? "1" : "0") + "/" + mode);
    c.closeM(B, g.betas, rt, "fit:" + cell + ":beta", c.desc);
    c.closeM(a->betas(), g.betas, rt, "fit:" + cell + ":accessor", c.desc);
    c.check(a->status() == Status::Success, "fit:" + cell + ":status", c.desc);
    double rss = orc::rss(d.x, d.y, g.betas);
    c.close(a->diagnostic().RSS, rss, max(1e-8, rt * 10) * (1 + rss + 1e-6 * arma::dot(d.y, d.y)), "fit:" + cell + ":rss", c.desc);
    c.closeM(GWRBase::Fitted(d.x, B), arma::sum(d.x % g.betas, 1), rt * 10, "fit:" + cell + ":fitted", c.desc);
    double pc = 0;
    mat P = orc::wls(d.x, d.y, orc::weightMat(k, DL), &pc);
    c.nontrivial = true;
    if (pc < 1e9)
    {
        double rp = max(1e-9, 1e-13 * pc);
        bool after = r.b();
        auto b = after ? move(a) : mk();
        mat R = b->predict(L);
        c.tag("predict:" + cell + ":" + kname(k.kernel)); c.tag(after ? "predict:after-fit" : "predict:fresh"); c.tag(m < n ? "predict:m<n" : m == n ? "predict:m=n" : "predict:m>n");
        c.closeM(R, P, rp, "predict:" + cell + ":beta", c.desc + fmt(" m=%d after=%d", int(m), int(after)));
        mat R2 = b->predict(d.coords);
        c.closeM(R2, g.betas, rt, "predict:" + cell + ":at-data", c.desc);
    }
}
