// X01: models that coincide by definition give the same results
#include "common.h"
using namespace std; using namespace gwm;
namespace {
struct Fit { mat betas, se; double trS = 0, aicc = 0, rss = 0, r2 = 0; BandwidthCriterionList list; double bw = 0; bool full = false; };
template<class A> void base(A& a, const Data& d, const SpatialWeight& sw) { if constexpr (!is_same<A, GTWR>::value) a.setCoords(d.coords); a.setDependentVariable(d.y); a.setIndependentVariables(d.x); a.setHasIntercept(d.intercept); a.setSpatialWeight(sw); a.setHasHatMatrix(true); }
template<class A> void thr(A& a, int th) { if (th) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(th); } }
template<class A> Fit get(A& a) { Fit f; f.betas = a.betas(); auto q = a.diagnostic(); f.rss = q.RSS; f.aicc = q.AICc; f.r2 = q.RSquare; return f; }
template<class A> Fit full(A& a) { Fit f = get(a); f.se = a.betasSE(); f.trS = a.sHat()(0); f.full = true; return f; }
double bwOf(const SpatialWeight& s) { return s.weight<BandwidthWeight>()->bandwidth(); }
Fit basic(const Data& d, const SpatialWeight& sw, int th, int sel = 0)
{
    GWRBasic a; base(a, d, sw); thr(a, th);
    if (sel) { a.setIsAutoselectBandwidth(true); a.setBandwidthSelectionCriterion(sel == 1 ? GWRBasic::BandwidthSelectionCriterionType::CV : GWRBasic::BandwidthSelectionCriterionType::AIC); }
    a.fit(); Fit f = full(a); f.list = a.bandwidthSelectionCriterionList(); f.bw = bwOf(a.spatialWeight()); return f;
}
void same(Case& c, const string& cell, const Fit& f, const Fit& g, double tol)
{
    c.closeM(f.betas, g.betas, tol, cell + ":betas", c.desc);
    auto sc = [&](double u, double v, const char* k, double t) { c.close(u, v, t * (fabs(v) + 1e-6), cell + ":" + k, c.desc); };
    sc(f.rss, g.rss, "rss", 100 * tol); sc(f.aicc, g.aicc, "aicc", 100 * tol); c.close(f.r2, g.r2, 100 * tol, cell + ":r2", c.desc);
    if (f.full && g.full) { c.closeM(f.se, g.se, 10 * tol, cell + ":se", c.desc); sc(f.trS, g.trS, "trace", 10 * tol); }
    c.events += f.betas.n_elem;
}
SpatialWeight sw2(const Kern& k, const Distance& d) { BandwidthWeight b = mkBw(k); return SpatialWeight(&b, &d); }
}
void run_case(Case& c)
{
    static const char* kinds[] = {"all-weights-one", "kernel-limit", "planar-is-minkowski-2", "city-block-is-rotated-maximum", "gtwr-lambda-one", "gtwr-one-period", "gwdr-one-dimension", "gwdr-product-of-gaussians",
        "robust-without-outliers", "lc-without-ridge", "mgwr-one-variable", "mgwr-all-weights-one", "glm-all-weights-one", "gwss-all-weights-one", "pca-all-weights-one", "duplicated", "duplicated-statistics",
        "predict-at-data", "search-agrees", "gwda-nothing-local", "adaptive-all-is-fixed"};
    const int NK = int(sizeof kinds / sizeof *kinds); Rng& r = c.r; string kind = kinds[c.id % NK], cell = kind; 
    auto K = [&](const char* s) { return kind == s; };
    bool planar = K("planar-is-minkowski-2") || K("city-block-is-rotated-maximum") || K("gwdr-one-dimension") || K("gwdr-product-of-gaussians");
    bool stat = K("gwss-all-weights-one") || K("pca-all-weights-one") || K("duplicated-statistics") || K("gwda-nothing-local");
    uword n = pickN(r, {25, 40, 60, 80}, c.id % 4 == 0), np = uword(stat ? r.i(2, 4) : r.i(1, 3)); bool icpt = !stat && !K("mgwr-one-variable") && (K("glm-all-weights-one") || r.b(.8)); if (K("mgwr-one-variable")) np = 1;
    int ck = (K("duplicated") || K("duplicated-statistics") || K("search-agrees") || K("gtwr-lambda-one")) ? r.pick({0, 1, 3}) : -1;
    Data d = genData(r, n, np, icpt, ck, planar ? 0 : -1); mat D = orc::distMat(d.metric, d.coords, d.coords); double sc = D.max(); if (!(sc > 0)) return;
    Kern k = genKern(r, d, D, -1, -1, .5); if (K("gtwr-lambda-one") || K("gtwr-one-period") || K("search-agrees")) { k.kernel = r.i(0, 3); }
    if (K("search-agrees")) k.kernel = r.i(0, 1);
    if (k.adaptive && (K("duplicated") || K("duplicated-statistics"))) k.bw = min(double(n), floor(k.bw));
    int ta = r.b() ? 0 : r.i(1, 6), tb = r.b() ? 0 : r.i(1, 6);
    c.desc = d.desc + fmt(" %s kernel=%s adaptive=%d bw=%.10g threads=%d/%d", cell.c_str(), kname(k.kernel).c_str(), int(k.adaptive), k.bw, ta, tb);
    auto usable = [&](const Kern& q, const mat& DD) { for (uword i = 0; i < DD.n_rows; i++) if (!(orc::kernBw(q, DD.row(i).t()) > 0)) return false; return true; };
    auto wellL = [&](const Kern& q, const Data& e, const mat& DD, double lim) { return usable(q, DD) && orc::gwr(e.x, e.y, orc::weightMat(q, DD), false).cond < lim; };
    auto well = [&](double lim = 1e7) { return wellL(k, d, D, lim); };
    // every weight exactly 1, in several ways
    Kern one; { int w = r.i(0, 2); one.kernel = 4; one.adaptive = w == 1; one.bw = w == 1 ? double(n) * r.u(1.5, 4) : w == 0 ? sc * r.u(1.5, 1e3) : sc * 1e11; if (w == 2) one.kernel = r.i(0, 4); }
    if (K("kernel-limit") || stat || K("all-weights-one") || K("glm-all-weights-one") || K("mgwr-all-weights-one")) c.desc += fmt(" ones: %s adaptive=%d bw=%.6g", kname(one.kernel).c_str(), int(one.adaptive), one.bw);
    try
    {
        if (K("all-weights-one") || K("kernel-limit"))
        {
            if (K("kernel-limit")) { one.kernel = c.id / NK % 5; one.adaptive = false; one.bw = sc * 1e11; }
            mat X = d.x; if (!(arma::cond(X.t() * X) < 1e8)) { c.tag("skip:ill-conditioned"); return; }
            mat XtXi = arma::inv_sympd(X.t() * X); vec b = XtXi * X.t() * d.y; double rss = arma::accu(arma::square(d.y - X * b)), tr = double(X.n_cols), nn = double(n);
            Fit f = basic(d, mkSW(one, d.metric), ta); mat B = arma::repmat(b.t(), n, 1); c.closeM(f.betas, B, 1e-7, cell + ":betas", c.desc);
            c.close(f.rss, rss, 1e-6 * (rss + 1e-9), cell + ":rss", c.desc); c.close(f.trS, tr, 1e-6 * tr, cell + ":trace", c.desc);
            c.closeM(f.se, arma::repmat(arma::sqrt(rss / (nn - tr) * XtXi.diag()).t(), n, 1), 1e-6, cell + ":se", c.desc);
            double aicc = nn * log(rss / nn) + nn * log(2 * M_PI) + nn * (nn + tr) / (nn - 2 - tr); c.close(f.aicc, aicc, 1e-6 * (fabs(aicc) + 1), cell + ":aicc", c.desc);
            c.close(f.r2, 1 - rss / arma::accu(arma::square(d.y - arma::mean(d.y))), 1e-6, cell + ":r2", c.desc); c.events += n;
        }
        else if (K("planar-is-minkowski-2"))
        {
            if (!well()) { c.tag("skip:ill-conditioned"); return; }
            double th = r.b(.3) ? 0 : r.u(-3, 3); c.desc += fmt(" theta=%.4g", th); CRSDistance a(false); MinkwoskiDistance b(2.0, th); same(c, cell, basic(d, sw2(k, a), ta), basic(d, sw2(k, b), tb), 1e-7);
        }
        else if (K("city-block-is-rotated-maximum"))
        {
            Metric m; m.type = Metric::Mink; m.p = -1; mat DM = orc::distMat(m, d.coords, d.coords); Kern q = k; if (!k.adaptive) q.bw = k.bw * sqrt(2.0); 
            if (!wellL(k, d, DM, 1e6)) { c.tag("skip:ill-conditioned"); return; }
            if (k.kernel == 4 || r.b()) k.kernel = q.kernel = r.i(0, 1);       // (a boxcar edge may fall on an observation)
            MinkwoskiDistance a(1.0, M_PI / 4), b(-1.0, 0); same(c, cell, basic(d, sw2(q, a), ta), basic(d, sw2(k, b), tb), 1e-6);
        }
        else if (K("gtwr-lambda-one") || K("gtwr-one-period"))
        {
            if (!well()) { c.tag("skip:ill-conditioned"); return; }
            bool lam1 = K("gtwr-lambda-one"); vec t(n, arma::fill::value(r.b() ? 0.0 : double(r.i(-5, 2000)))); double lambda = lam1 ? 1 : r.u(.05, .95); if (lam1) for (auto& v : t) v = r.i(0, 5) * sc * .1;
            Kern q = k; if (!lam1 && !k.adaptive) q.bw = k.bw * lambda; if (k.kernel == 4) return; bool obl = r.b(.4); unique_ptr<Distance> sd(mkDist(d.metric)); OneDimDistance td; double ang = r.u(.3, 1.5);
            unique_ptr<CRSSTDistance> st(obl ? new CRSSTDistance(sd.get(), &td, lambda, ang) : new CRSSTDistance(sd.get(), &td, lambda)); c.desc += fmt(" lambda=%.6g oblique=%d", lambda, int(obl));
            GTWR a; base(a, d, sw2(q, *st)); a.setCoords(d.coords, t); thr(a, ta); int sel = lam1 && k.kernel < 2 && r.b(.3) ? r.i(1, 2) : 0;
            if (sel) { a.setIsAutoselectBandwidth(true); a.setBandwidthSelectionCriterion(sel == 1 ? GTWR::BandwidthSelectionCriterionType::CV : GTWR::BandwidthSelectionCriterionType::AIC); c.tag("gtwr-search"); }
            if (sel && !solvableRange(k.adaptive ? double(np) + 4 : 0, k.adaptive ? double(n) : sc, [&](double v) { Kern w = k; w.bw = k.adaptive ? floor(v) : v; return wellL(w, d, D, 1e6); }, .05)) { c.tag("skip:search"); return; }
            a.fit(); Fit f = full(a); Fit g = basic(d, mkSW(k, d.metric), tb, sel);
            if (sel) { double b1 = bwOf(a.spatialWeight()); if (!(fabs(b1 - g.bw) < 1e-6 * (g.bw + 1e-9))) { c.tag("other-search-path"); return; } }
            same(c, cell, f, g, 1e-7);
        }
        else if (K("gwdr-one-dimension") || K("gwdr-product-of-gaussians"))
        {
            bool onedim = K("gwdr-one-dimension"); Data e = d; vector<SpatialWeight> sws; OneDimDistance od; mat P; 
            if (onedim) { e.coords.col(1).fill(r.b() ? 0.0 : r.u(-9, 9)); P = e.coords.col(0); sws.push_back(sw2(k, od)); }
            else { k.kernel = 0; k.adaptive = false; k.bw = sc * r.u(.15, 1); P = d.coords; sws.push_back(sw2(k, od)); sws.push_back(sw2(k, od)); }
            mat E = orc::distMat(e.metric, e.coords, e.coords); if (!wellL(k, e, E, 1e7)) { c.tag("skip:ill-conditioned"); return; }
            GWDR a(e.x, e.y, P, sws, true, e.intercept); thr(a, ta); a.fit(); Fit f = full(a); same(c, cell, f, basic(e, mkSW(k, e.metric), tb), 1e-7);
        }
        else if (K("robust-without-outliers"))
        {
            if (!well()) { c.tag("skip:ill-conditioned"); return; }
            if (k.kernel == 4) k.kernel = 0;
            if (!well()) { c.tag("skip:ill-conditioned"); return; }
            GWRBasic b; base(b, d, mkSW(k, d.metric)); thr(b, tb); b.fit(); Fit g = full(b); mat S = b.s(); vec res = d.y - arma::sum(d.x % b.betas(), 1); double edf = double(n) - 2 * b.sHat()(0) + b.sHat()(1);
            vec st = res / (sqrt(g.rss / edf) * arma::sqrt(b.qDiag())); if (!(edf > 1) || st.has_nonfinite() || arma::abs(st).max() > 2.5) { c.tag("skip:outliers"); return; }
            GWRRobust a; base(a, d, mkSW(k, d.metric)); a.setFiltered(true); thr(a, ta); a.fit(); same(c, cell, full(a), g, 1e-7); c.closeM(a.s(), S, 1e-7, cell + ":s", c.desc);
        }
        else if (K("lc-without-ridge"))
        {
            if (!well(1e6)) { c.tag("skip:ill-conditioned"); return; }
            if (d.x.n_cols < 2) { c.tag("skip:one-column"); return; }
            GWRLocalCollinearity a; base(a, d, mkSW(k, d.metric)); a.setLambda(0); a.setLambdaAdjust(false); thr(a, ta); a.fit(); Fit g = basic(d, mkSW(k, d.metric), tb), f = get(a); c.closeM(f.betas, g.betas, 1e-6, cell + ":betas", c.desc); c.close(f.rss, g.rss, 1e-5 * (g.rss + 1e-9), cell + ":rss", c.desc); c.events += n;
        }
        else if (K("mgwr-one-variable") || K("mgwr-all-weights-one"))
        {
            bool ones = K("mgwr-all-weights-one"); Kern q = ones ? one : k; if (ones) { mat U = arma::normalise(d.x); if (d.x.n_cols > 3 || !(arma::cond(U.t() * U) < 6)) { c.tag("skip:slow-backfitting"); return; } }
            if (!wellL(q, d, D, 1e6)) { c.tag("skip:ill-conditioned"); return; }
            uword m = d.x.n_cols; GWRMultiscale a; a.setCoords(d.coords); a.setDependentVariable(d.y); a.setIndependentVariables(d.x); a.setHasIntercept(d.intercept); bool hat = r.b(.7); a.setHasHatMatrix(hat);
            a.setSpatialWeights(vector<SpatialWeight>(m, mkSW(q, d.metric))); a.setBandwidthInitilize(vector<GWRMultiscale::BandwidthInitilizeType>(m, GWRMultiscale::BandwidthInitilizeType::Specified)); a.setBandwidthSelectionApproach(vector<GWRMultiscale::BandwidthSelectionCriterionType>(m, GWRMultiscale::BandwidthSelectionCriterionType::CV));
            a.setPreditorCentered(vector<bool>(m, false)); a.setBandwidthSelectThreshold(vector<double>(m, 1e-5)); a.setMaxIteration(200); a.setCriterionThreshold(1e-12); a.setCriterionType(r.b() ? GWRMultiscale::BackFittingCriterionType::CVR : GWRMultiscale::BackFittingCriterionType::dCVR); thr(a, ta);
            try { a.fit(); } catch (const runtime_error& e) { c.check(!solvableRange(q.adaptive ? 20 : 0, q.adaptive ? double(n) : sc, [&](double v) { Kern w = q; w.bw = q.adaptive ? floor(v) : v; return wellL(w, d, D, 1e6); }, .2), cell + ":exception", string(e.what()) + " in " + c.desc); c.tag("start-refused"); return; }   // the search for the starting bandwidth found no model
            Fit f = get(a), g = basic(d, mkSW(q, d.metric), tb); c.closeM(f.betas, g.betas, 1e-5, cell + ":betas", c.desc); c.close(f.rss, g.rss, 1e-5 * (g.rss + 1e-9), cell + ":rss", c.desc); c.close(f.r2, g.r2, 1e-5, cell + ":r2", c.desc); c.events += n; c.tag(hat ? "mgwr-hat" : "mgwr-nohat");
            if (hat) c.close(f.aicc, g.aicc, 1e-5 * (fabs(g.aicc) + 1), cell + ":aicc", c.desc);
        }
        else if (K("glm-all-weights-one"))
        {
            bool pois = r.b(); Data e = d; for (uword j = 1; j < e.x.n_cols; j++) e.x.col(j) = (e.x.col(j) - arma::mean(e.x.col(j))) / (arma::stddev(e.x.col(j)) + 1e-9) * .4;
            for (uword i = 0; i < n; i++) { double eta = .4 + (e.x.n_cols > 1 ? e.x(i, 1) : 0); if (pois) { double L = exp(-exp(eta)), p = 1; int q = -1; do { q++; p *= r.u(); } while (p > L && q < 200); e.y(i) = q; } else e.y(i) = r.u() < 1 / (1 + exp(-eta)); }
            vec b(e.x.n_cols, arma::fill::zeros), w; mat H; bool okk = false; double dev = 0;      // Newton's method on the likelihood itself
            for (int it = 0; it < 100; it++)
            {
                vec eta = e.x * b, mu = pois ? vec(arma::exp(eta)) : vec(1 / (1 + arma::exp(-eta))); w = pois ? mu : vec(mu % (1 - mu)); H = e.x.t() * (e.x.each_col() % w); if (!H.is_finite() || !(arma::cond(H) < 1e6)) break;
                vec st = arma::solve(H, e.x.t() * (e.y - mu)); b += st; if (arma::norm(st) < 1e-11) { okk = true; break; } if (arma::abs(b).max() > 8) break;
            }
            if (!okk) { c.tag("skip:no-estimate"); return; }
            vec mu = pois ? vec(arma::exp(e.x * b)) : vec(1 / (1 + arma::exp(-e.x * b)));
            for (uword i = 0; i < n; i++) { double y = e.y(i), m = mu(i); dev += pois ? 2 * ((y > 0 ? y * log(y / m) : 0) - (y - m)) : -2 * (y > 0 ? log(m) : log(1 - m)); }
            c.desc += pois ? " poisson" : " binomial";
            GWRGeneralized a; base(a, e, mkSW(one, e.metric)); a.setFamily(pois ? GWRGeneralized::Family::Poisson : GWRGeneralized::Family::Binomial); a.setTol(1e-12); a.setMaxiter(100); thr(a, ta); a.fit();
            c.closeM(a.betas(), arma::repmat(b.t(), n, 1), 1e-5, cell + ":betas", c.desc); c.close(a.getGLMDiagnostic().Dev, dev, 1e-5 * (dev + 1), cell + ":deviance", c.desc); c.tag(pois ? "poisson" : "binomial"); c.events += n;
        }
        else if (K("gwss-all-weights-one"))
        {
            bool corr = r.b(), first = r.b(); GWSS a; a.setCoords(d.coords); a.setVariables(d.x); a.setSpatialWeight(mkSW(one, d.metric)); a.setGWSSMode(corr ? GWSS::GWSSMode::Correlation : GWSS::GWSSMode::Average); a.setQuantile(r.b()); a.setIsCorrWithFirstOnly(first); thr(a, ta); a.run();
            auto all = [&](const mat& got, const rowvec& want, const string& nm) { c.closeM(got, arma::repmat(want, n, 1), 1e-7, cell + ":" + nm, c.desc); };
            all(a.localMean(), arma::mean(d.x), "mean"); mat Z = d.x.each_row() - arma::mean(d.x); double nn = double(n);
            if (!corr) { rowvec v = arma::mean(arma::square(Z)), m3 = arma::mean(Z % Z % Z); all(a.localVar(), v, "var"); all(a.localSDev(), arma::sqrt(v), "sdev"); if (v.min() > 1e-6) { mat S = a.localSkewness(); c.close(arma::abs(S - arma::repmat(m3 / arma::pow(v, 1.5), n, 1)).max(), 0, 1e-6, cell + ":skew", c.desc); } c.tag("gwss-average"); }
            else
            {
                uword nv = d.x.n_cols; vector<double> cv, cr, cs; mat R(n, nv); for (uword j = 0; j < nv; j++) { uvec o = arma::sort_index(d.x.col(j)); for (uword i = 0; i < n; i++) R(o(i), j) = double(i); }
                for (uword p = 0; p < (first ? 1 : nv); p++) for (uword q = p + 1; q < nv; q++) { mat cc = arma::cov(d.x.cols(uvec({p, q}))); cv.push_back(cc(0, 1)); cr.push_back(arma::as_scalar(arma::cor(d.x.col(p), d.x.col(q)))); cs.push_back(arma::as_scalar(arma::cor(R.col(p), R.col(q)))); }
                if (!c.check(a.localCov().n_cols == cv.size() && a.localCorr().n_cols == cv.size() && a.localSCorr().n_cols == cv.size(), cell + ":pairs", c.desc)) return;
                all(a.localCov(), rowvec(cv), "cov"); c.close(arma::abs(a.localCorr() - arma::repmat(rowvec(cr), n, 1)).max(), 0, 1e-7, cell + ":corr", c.desc); c.close(arma::abs(a.localSCorr() - arma::repmat(rowvec(cs), n, 1)).max(), 0, 1e-7, cell + ":scorr", c.desc); c.tag("gwss-correlation");
            }
            (void)nn; c.events += n;
        }
        else if (K("pca-all-weights-one"))
        {
            int kc = r.i(1, int(np)); GWPCA a; a.setCoords(d.coords); a.setVariables(d.x); a.setSpatialWeight(mkSW(one, d.metric)); a.setKeepComponents(kc); a.run();
            mat Z = d.x.each_row() - arma::mean(d.x), V; vec l; arma::eig_sym(l, V, mat(Z.t() * Z / double(n))); l = arma::reverse(l); V = arma::fliplr(V);
            mat sd = a.sdev(); for (uword j = 0; j < np; j++) if (l(j) > 1e-8 * l(0)) c.close(arma::abs(sd.col(j) - sqrt(l(j))).max(), 0, 1e-6 * sqrt(l(0)), cell + ":sdev", c.desc);
            mat pv = a.localPV(); for (uword j = 0; j < uword(kc); j++) c.close(arma::abs(pv.col(j) - 100 * l(j) / arma::accu(l)).max(), 0, 1e-5, cell + ":pv", c.desc);
            cube L = a.loadings(); for (uword j = 0; j < uword(kc); j++) { bool sep = (j == 0 || l(j - 1) - l(j) > 1e-3 * l(0)) && (j + 1 == np || l(j) - l(j + 1) > 1e-3 * l(0)); if (sep) c.close(arma::max(1 - arma::abs(L.slice(j) * V.col(j))), 0, 1e-6, cell + ":loadings", c.desc); }
            c.events += n;
        }
        else if (K("duplicated") || K("duplicated-statistics"))
        {
            Data e = d; e.x = arma::join_cols(d.x, d.x); e.y = arma::join_cols(d.y, d.y); e.coords = arma::join_cols(d.coords, d.coords); uvec pm(2 * n); for (uword i = 0; i < 2 * n; i++) pm(i) = i; for (uword i = 2 * n - 1; i > 0; i--) swap(pm(i), pm(uword(r.i(0, int(i)))));
            if (r.b()) { e.x = e.x.rows(pm); e.y = e.y(pm); e.coords = e.coords.rows(pm); } else for (uword i = 0; i < 2 * n; i++) pm(i) = i;
            uvec src = pm; for (auto& v : src) v = v % n; Kern q = k; if (k.adaptive) q.bw = 2 * k.bw;
            if (K("duplicated"))
            {
                if (k.adaptive && k.kernel == 4) k.kernel = q.kernel = 2;
                if (!well(1e6)) { c.tag("skip:ill-conditioned"); return; }
                GWRBasic a; base(a, e, mkSW(q, d.metric)); thr(a, ta); a.fit(); Fit f = full(a), g = basic(d, mkSW(k, d.metric), tb); mat G = g.betas; c.closeM(f.betas, G.rows(src), 1e-7, cell + ":betas", c.desc); c.close(f.rss, 2 * g.rss, 1e-5 * (g.rss + 1e-9), cell + ":rss", c.desc);
                c.close(f.trS, g.trS, 1e-6 * g.trS, cell + ":trace", c.desc); c.close(f.r2, g.r2, 1e-6, cell + ":r2", c.desc); c.events += 2 * n;
            }
            else
            {
                for (uword i = 0; i < n; i++) if (!(orc::kernBw(k, D.row(i).t()) > 0)) { c.tag("skip:zero-bandwidth"); return; }
                if (k.kernel == 4) k.kernel = q.kernel = r.i(0, 3); GWSS a, b; a.setCoords(e.coords); a.setVariables(e.x); a.setSpatialWeight(mkSW(q, d.metric)); b.setCoords(d.coords); b.setVariables(d.x); b.setSpatialWeight(mkSW(k, d.metric)); thr(a, ta); thr(b, tb); a.run(); b.run();
                mat M = b.localMean(), V = b.localVar(); c.closeM(a.localMean(), M.rows(src), 1e-8, cell + ":mean", c.desc); c.close(arma::abs(a.localVar() - V.rows(src)).max(), 0, 1e-8 * arma::square(d.x).max(), cell + ":var", c.desc); c.events += 2 * n;
            }
        }
        else if (K("predict-at-data"))
        {
            if (!well(1e6)) { c.tag("skip:ill-conditioned"); return; }
            uword m = uword(r.i(1, int(n))); uvec at(m); for (auto& v : at) v = uword(r.i(0, int(n) - 1)); mat L = d.coords.rows(at); int w = d.x.n_cols < 2 ? 0 : r.i(0, 1); mat B, P;
            if (w == 0) { GWRBasic a; base(a, d, mkSW(k, d.metric)); thr(a, ta); B = a.fit(); P = a.predict(L); } else { GWRLocalCollinearity a; base(a, d, mkSW(k, d.metric)); double la = r.pick({0.0, .05, .3}); a.setLambda(la); bool adj = r.b(); a.setLambdaAdjust(adj); a.setCnThresh(r.pick({2.0, 5.0, 30.0})); c.desc += fmt(" ridge=%g adjusted=%d", la, int(adj)); thr(a, ta); B = a.fit(); if (adj) c.tag("predict-adjusted"); P = a.predict(L); }
            c.closeM(P, B.rows(at), 1e-6, cell + (w ? ":lc" : ":basic"), c.desc); c.events += m;
        }
        else if (K("search-agrees"))
        {
            // the leave-one-out criterion of basic GWR and of ridgeless LC-GWR is one function of the bandwidth
            if (!solvableRange(k.adaptive ? double(np) + 4 : 0, k.adaptive ? double(n) : sc, [&](double v) { Kern w = k; w.bw = k.adaptive ? floor(v) : v; return wellL(w, d, D, 1e6); }, .05)) { c.tag("skip:search"); return; }
            if (d.x.n_cols < 2) { c.tag("skip:one-column"); return; }
            GWRLocalCollinearity a; base(a, d, mkSW(k, d.metric)); a.setLambda(0); a.setLambdaAdjust(false); thr(a, ta); a.setIsAutoselectBandwidth(true); a.setBandwidthSelectionCriterion(GWRLocalCollinearity::BandwidthSelectionCriterionType::CV); a.fit();
            Fit g = basic(d, mkSW(k, d.metric), tb, 1); auto l = a.bandwidthSelectionCriterionList(); int both = 0;
            for (auto& p : l) for (auto& q : g.list) if (fabs(p.first - q.first) <= 1e-9 * (fabs(q.first) + 1e-9)) { both++; Kern w = k; w.bw = p.first; if (!usable(w, D) || !(orc::gwr(d.x, d.y, orc::weightMat(w, D), false, true).cond < 1e6)) continue; c.close(p.second, q.second, 1e-5 * (fabs(q.second) + 1e-9), cell + ":criterion", c.desc + fmt(" bandwidth %.10g", p.first)); }
            c.check(both >= 2, cell + ":common", c.desc); c.events += l.size() + g.list.size();
        }
        else if (K("adaptive-all-is-fixed"))
        {
            // an adaptive bandwidth over n stretches the farthest distance; from one place a fixed bandwidth of that length is the same
            double f = r.u(1, 3); Kern q = k; q.adaptive = true; q.bw = floor(f * double(n)); if (q.kernel == 4) q.kernel = 1; uword i = uword(r.i(0, int(n) - 1)); Kern h = q; h.adaptive = false; h.bw = D.row(i).max() * q.bw / double(n); if (!wellL(q, d, D, 1e6) || !wellL(h, d, D, 1e6)) { c.tag("skip:ill-conditioned"); return; }
            Fit a = basic(d, mkSW(q, d.metric), ta), b = basic(d, mkSW(h, d.metric), tb); c.closeM(a.betas.row(i), b.betas.row(i), 1e-6, cell + ":betas", c.desc + fmt(" at %d", int(i))); c.events += 1;
        }
        else if (K("gwda-nothing-local"))
        {
            vector<string> y(n); int g = r.i(2, 3); vec m = d.x.col(0) + .5 * d.x.col(1); uvec o = arma::sort_index(m); for (uword i = 0; i < n; i++) { uword rank = arma::as_scalar(arma::find(o == i)); int q = min(g - 1, max(0, int(double(rank) / double(n) * g + .6 * r.n()))); if (i < uword(3 * g)) q = int(i) % g; y[i] = string(1, char('a' + q)); }
            bool qda = r.b(); if (k.kernel > 1) k.kernel = r.i(0, 1); Kern q = k; q.adaptive = false; q.bw = sc * r.u(.5, 30); q.kernel = 0; k.kernel = 0; k.adaptive = false; k.bw = sc * r.u(.3, 30);
            auto run = [&](const Kern& w, int th, mat& R, mat& P, vector<string>& G) { GWDA a; a.setCoords(d.coords); a.setVariables(d.x); a.setSpatialWeight(mkSW(w, d.metric)); auto t = y; a.setGroup(t); a.setIsWqda(qda); a.setHascov(false); a.setHasmean(false); a.setHasprior(false); thr(a, th); a.run(); R = a.res(); P = a.probs(); G = a.group(); };
            mat R1, P1, R2, P2; vector<string> G1, G2; run(k, ta, R1, P1, G1); run(q, tb, R2, P2, G2); if (R1.has_nonfinite() || arma::abs(R1).max() > 1e6) { c.tag("skip:degenerate"); return; }
            c.closeM(R1, R2, 1e-7, cell + ":scores", c.desc); c.close(arma::abs(P1 - P2).max(), 0, 1e-6, cell + ":probs", c.desc); c.check(arma::abs(R1.col(0) - R1.col(1)).min() < 1e-6 || g > 2 || G1 == G2, cell + ":groups", c.desc); c.events += n;
        }
        c.nontrivial = true; c.tag(cell); c.tag(string(ta ? "omp" : "serial") + (tb ? "/omp" : "/serial"));
    }
    catch (const exception& e) { c.check(false, cell + ":exception", string(e.what()) + " in " + c.desc); return; }
}
