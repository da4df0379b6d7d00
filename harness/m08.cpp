// M08: local summary statistics equal their definitions under the local weights
#include "common.h"
using namespace std; using namespace gwm;
static const double EPS = 1e-9;
void run_case(Case& c)
{
    Rng& r = c.r; uword n = pickN(r, {12, 23, 40, 64, 97}); bool corr = c.id % 2; uword nv = uword(corr ? r.i(2, 5) : r.i(1, 4));
    Data d = genData(r, n, nv, false);
    if (r.b(.2)) for (uword j = 0; j < nv; j++) d.x.col(j) = d.x.col(j) * r.pick({1e-3, 1e3}) + r.pick({0.0, 50.0});
    mat D = orc::distMat(d.metric, d.coords, d.coords); Kern k = genKern(r, d, D, -1, -1, r.b() ? 0.0 : .4);
    int par = r.i(0, 2), th = r.i(1, 9); bool quant = r.b(.6), first = r.b();
    for (uword i = 0; i < n; i++)
    {
        vec di = D.row(i).t(); double b = orc::kernBw(k, di); if (!(b > 0)) { c.tag("skip:zero-bandwidth"); return; }
        if (k.kernel == 4) for (double x : di) if (fabs(x - b) <= EPS * b) k.kernel = 2;
    }
    string mode = par ? "omp" : "serial", cell = string(corr ? "corr" : "avg") + "/" + mode + (k.adaptive ? "/adaptive" : "/fixed");
    c.desc = d.desc + fmt(" %s kernel=%s bw=%.10g threads=%d quantile=%d first=%d", cell.c_str(), kname(k.kernel).c_str(), k.bw, th, int(quant), int(first));
    mat W = orc::weightMat(k, D); W.each_col() /= arma::sum(W, 1);
    GWSS a; a.setCoords(d.coords); a.setVariables(d.x); a.setSpatialWeight(mkSW(k, d.metric)); a.setQuantile(quant); a.setIsCorrWithFirstOnly(first);
    a.setGWSSMode(corr ? GWSS::GWSSMode::Correlation : GWSS::GWSSMode::Average);
    if (par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(th); if (r.b()) a.setGWSSMode(corr ? GWSS::GWSSMode::Correlation : GWSS::GWSSMode::Average); }
    c.check(a.isValid(), cell + ":valid", c.desc);
    a.run(); c.check(a.status() == Status::Success, cell + ":status", c.desc);
    c.nontrivial = true; c.tag(cell + ":" + kname(k.kernel));
    auto shape = [&](const mat& m, uword cols, const char* what) { return c.check(m.n_rows == n && m.n_cols == cols, cell + ":" + what + ":shape", c.desc + fmt(" %dx%d", int(m.n_rows), int(m.n_cols))); };
    auto cmp = [&](double got, double want, double tol, const char* what, uword i, uword j) { c.close(got, want, tol, cell + ":" + what, c.desc + fmt(" at observation %d column %d", int(i), int(j))); };
    mat mean(n, nv), var(n, nv), m3(n, nv); vec sw2(n);
    for (uword i = 0; i < n; i++)
    {
        rowvec w = W.row(i); sw2(i) = arma::dot(w, w);
        for (uword j = 0; j < nv; j++)
        {
            long double m = 0, v = 0, t = 0; for (uword q = 0; q < n; q++) m += (long double)w(q) * d.x(q, j);
            for (uword q = 0; q < n; q++) { long double e = d.x(q, j) - m; v += w(q) * e * e; t += w(q) * e * e * e; }
            mean(i, j) = double(m); var(i, j) = double(v); m3(i, j) = double(t);
        }
    }
    rowvec sc = arma::max(arma::abs(d.x), 0) + 1e-300;
    if (!shape(a.localMean(), nv, "mean") || !shape(a.localVar(), nv, "var")) return;
    for (uword i = 0; i < n; i++) for (uword j = 0; j < nv; j++)
    {
        cmp(a.localMean()(i, j), mean(i, j), 1e-10 * sc(j), "mean", i, j);
        cmp(a.localVar()(i, j), var(i, j), 1e-9 * sc(j) * sc(j), "var", i, j);
    }
    if (!corr)
    {
        if (!shape(a.localSDev(), nv, "sdev") || !shape(a.localSkewness(), nv, "skew") || !shape(a.localCV(), nv, "cv")) return;
        if (quant && (!shape(a.localMedian(), nv, "median") || !shape(a.iqr(), nv, "iqr") || !shape(a.qi(), nv, "qi"))) return;
        for (uword i = 0; i < n; i++) for (uword j = 0; j < nv; j++)
        {
            double s = sqrt(var(i, j)), rel = s / sc(j);
            if (rel > 1e-4)
            {
                cmp(a.localSDev()(i, j), s, 1e-8 * s / (rel * rel), "sdev", i, j);
                cmp(a.localSkewness()(i, j), m3(i, j) / (s * s * s), 1e-7 / (rel * rel * rel), "skew", i, j);
                if (fabs(mean(i, j)) > 1e-3 * sc(j)) cmp(a.localCV()(i, j), s / mean(i, j), 1e-5 * fabs(s / mean(i, j)) / (rel * rel), "cv", i, j);
            }
            else c.tag("skip:degenerate-variance");
            if (quant)
            {
                // weighted quantile: the largest value whose cumulative weight does not exceed the level (the smallest value if there is none)
                uvec o = arma::sort_index(d.x.col(j)); double got[3] = {0, a.localMedian()(i, j), 0};
                vector<double> cand[3]; long double cum = 0; vector<double> cs(n), xs(n); for (uword q = 0; q < n; q++) { cum += W(i, o(q)); cs[q] = double(cum); xs[q] = d.x(o(q), j); }
                for (int l = 0; l < 3; l++)
                {
                    double lev = .25 * (l + 1);
                    for (double t : {lev - 1e-10, lev + 1e-10}) { uword q = 0; bool f = false; for (; q < n; q++) if (cs[q] > t) { f = true; break; } cand[l].push_back(f ? xs[q > 0 ? q - 1 : 0] : xs[n - 1]); }
                    // cumulative weights that tie at the level: every value in between is legitimate
                    double lo = min(cand[l][0], cand[l][1]), hi = max(cand[l][0], cand[l][1]); for (double x : xs) if (x > lo && x < hi) cand[l].push_back(x);
                }
                bool ok = false; for (double x : cand[1]) ok = ok || x == got[1];
                c.check(ok, cell + ":median", c.desc + fmt(" at %d,%d: median %.17g, expected %.17g", int(i), int(j), got[1], cand[1][0]));
                double iqr = a.iqr()(i, j), qi = a.qi()(i, j); ok = false; bool okq = false;
                for (double x : cand[0]) for (double z : cand[2]) if (fabs(iqr - (z - x)) <= 1e-12 * sc(j)) { ok = true; double w = (2 * got[1] - z - x) / (z - x); okq = okq || z == x || fabs(qi - w) <= 1e-9 * max(1.0, fabs(w)) * max(1.0, sc(j) / (z - x)); }
                c.check(ok, cell + ":iqr", c.desc + fmt(" at %d,%d: iqr %.17g, expected %.17g", int(i), int(j), iqr, cand[2][0] - cand[0][0]));
                c.check(!ok || okq, cell + ":qi", c.desc + fmt(" at %d,%d: qi %.17g", int(i), int(j), qi));
            }
        }
        if (quant) c.tag("quantile/" + mode);
    }
    else
    {
        uword nc = first ? nv - 1 : nv * (nv - 1) / 2;
        if (!shape(a.localCov(), nc, "cov") || !shape(a.localCorr(), nc, "corr") || !shape(a.localSCorr(), nc, "scorr")) return;
        mat R(n, nv); bool ties = false;
        for (uword j = 0; j < nv; j++) { uvec o = arma::sort_index(d.x.col(j)); for (uword q = 0; q < n; q++) { R(o(q), j) = double(q + 1); if (q && d.x(o(q), j) == d.x(o(q - 1), j)) ties = true; } }
        for (uword i = 0; i < n; i++)
        {
            rowvec w = W.row(i); uword t = 0;
            auto wcov = [&](const mat& X, uword p, uword q) { long double mp = 0, mq = 0, s = 0; for (uword l = 0; l < n; l++) { mp += w(l) * (long double)X(l, p); mq += w(l) * (long double)X(l, q); } for (uword l = 0; l < n; l++) s += w(l) * (X(l, p) - mp) * (X(l, q) - mq); return double(s); };
            for (uword p = 0; p < (first ? 1 : nv - 1); p++) for (uword q = p + 1; q < nv; q++, t++)
            {
                double v = wcov(d.x, p, q), vp = var(i, p), vq = var(i, q), nrm = 1 - sw2(i);
                double rp = sqrt(vp) / sc(p), rq = sqrt(vq) / sc(q);
                if (nrm < 1e-6 || rp < 1e-4 || rq < 1e-4) { c.tag("skip:degenerate-variance"); continue; }
                double tolr = 1e-9 / (rp * rp * rq * rq) + 1e-9 / nrm;
                cmp(a.localCov()(i, t), v / nrm, 1e-9 * sc(p) * sc(q) / nrm, "cov", i, t);
                cmp(a.localCorr()(i, t), v / sqrt(vp * vq), tolr, "corr", i, t);
                double sp = wcov(R, p, p), sq = wcov(R, q, q); if (!ties && sp > 1e-3 && sq > 1e-3) cmp(a.localSCorr()(i, t), wcov(R, p, q) / sqrt(sp * sq), 1e-6 + 1e-9 / nrm, "scorr", i, t);
            }
        }
        c.tag(string("first") + (first ? "1" : "0") + "/" + mode);
    }
}
