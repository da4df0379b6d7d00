#include "algos.h"
#include <cstring>
using namespace std; using namespace gwm;

static cube C(const mat& m) { cube c(m.n_rows, m.n_cols, 1); if (m.n_elem) c.slice(0) = m; else c.set_size(m.n_rows, m.n_cols, 1); return c; }
static cube C(const vec& m) { return C(mat(m)); }
static cube C(double x) { return C(mat(1, 1, arma::fill::value(x))); }
static cube diag(const RegressionDiagnostic& q) { return C(mat(vec({q.RSS, q.AIC, q.AICc, q.ENP, q.EDF, q.RSquare, q.RSquareAdjust}))); }
static cube lst(const BandwidthCriterionList& l) { mat m(l.size(), 2); uword i = 0; for (auto& p : l) { m(i, 0) = p.first; m(i, 1) = p.second; i++; } return C(m); }
static cube lst(const VariablesCriterionList& l)
{
    size_t w = 0; for (auto& p : l) w = max(w, p.first.size());
    mat m(l.size(), w + 1, arma::fill::value(-1)); uword i = 0;
    for (auto& p : l) { for (uword j = 0; j < p.first.size(); j++) m(i, j) = double(p.first[j]); m(i, w) = p.second; i++; }
    return C(m);
}
static cube vars(const vector<size_t>& v) { mat m(1, v.size()); for (uword i = 0; i < v.size(); i++) m(0, i) = double(v[i]); return C(m); }
static double bwOf(const SpatialWeight& s) { auto w = s.weight<BandwidthWeight>(); return w ? w->bandwidth() : -1; }

template<class T> static Obj wrap(shared_ptr<T> p)
{
    Obj o; o.keep = p; o.alg = p.get(); o.par = dynamic_cast<IParallelizable*>(p.get()); o.omp = dynamic_cast<IParallelOpenmpEnabled*>(p.get());
    return o;
}
template<class T> static void common(T& a, const Data& d, const Cfg& c)
{
    a.setCoords(d.coords); a.setDependentVariable(d.y); a.setIndependentVariables(d.x); a.setHasIntercept(d.intercept); a.setSpatialWeight(mkSW(c.k, d.metric));
}

const vector<string>& boxNames()
{
    static const vector<string> n = {
        "basic", "basic-predict", "basic-bw-cv", "basic-bw-aic", "basic-vars", "robust", "robust-filtered", "robust-bw", "robust-predict",
        "lc", "lc-predict", "lc-bw", "gtwr", "gtwr-bw", "gtwr-lambda", "gtwr-predict", "ggwr-poisson", "ggwr-binomial", "ggwr-nohat", "ggwr-predict", "ggwr-bw",
        "mgwr", "mgwr-auto", "scalable", "scalable-predict", "gwdr", "gwdr-bw", "gwdr-vars", "gwss-avg", "gwss-corr", "gwpca", "gwda-lda", "gwda-qda" };
    return n;
}
static bool starts(const string& s, const string& p) { return s.compare(0, p.size(), p) == 0; }

Box makeBox(const string& name, Rng& r, int n)
{
    Box b; b.name = name;
    bool gl = starts(name, "ggwr"), scal = starts(name, "scalable"), gwdr = starts(name, "gwdr"), gtwr = starts(name, "gtwr"), ss = starts(name, "gwss"), mg = starts(name, "mgwr"), da = starts(name, "gwda"), pca = name == "gwpca";
    int np = ss ? r.i(2, 4) : pca ? r.i(3, 5) : da ? r.i(2, 3) : r.i(1, 3);
    if (name == "basic-vars" || name == "gwdr-vars") np = r.i(2, 4);
    bool icpt = !(ss || pca || da);
    if (icpt && (starts(name, "basic") || starts(name, "robust"))) icpt = r.b(.8);
    Data& d = b.d; Cfg& c = b.c;
    // positions without exact ties / coincident points: neighbours are unambiguous
    int ck = r.pick({0, 1, 3});
    d = genData(r, uword(n), uword(np), icpt, ck, (gwdr || gtwr || scal) ? 0 : r.b(.75) ? 0 : r.i(1, 2));
    mat D = orc::distMat(d.metric, d.coords, d.coords);
    c.k = genKern(r, d, D, -1, r.i(0, 3), 0.5);
    if (c.k.adaptive) c.k.bw = floor(c.k.bw);
    c.hat = true;
    bool bwsel = name.find("-bw") != string::npos;
    if (gl)
    {
        c.i = name == "ggwr-binomial" ? 1 : name == "ggwr-poisson" ? 0 : r.i(0, 1);
        d.x = d.x / max(1.0, arma::abs(arma::vectorise(d.x)).max()) * 1.0; d.x.col(0).fill(1);
        vec eta = d.x * (0.6 * arma::vec(d.x.n_cols, arma::fill::ones));
        for (uword i = 0; i < d.y.n_elem; i++)
        {
            double e = eta(i) + .2 * r.n();
            if (c.i == 0) { double m = exp(1 + e), q = exp(-m), p = 1; int k = -1; do { k++; p *= r.u(); } while (p > q && k < 400); d.y(i) = k; }
            else d.y(i) = r.u() < 1 / (1 + exp(-2 * (e - .8))) ? 1 : 0;
        }
        if (arma::accu(d.y) < 2) d.y(0) = d.y(1) = 1;
        c.k = genKern(r, d, D, r.b() ? 1 : 0, r.i(0, 1), .6); if (c.k.adaptive) c.k.bw = max(floor(c.k.bw), .7 * n);
        if (c.k.adaptive) c.k.bw = floor(c.k.bw);
        c.j = bwsel ? r.i(0, 1) : 0;
    }
    if (scal) { c.k.adaptive = true; c.k.kernel = r.i(0, 1); c.k.bw = double(r.i(n / 2, n + n / 5)); c.i = r.i(0, 1); c.j = r.i(2, 4); }
    if (gtwr)
    {
        // later observations are invisible from earlier ones: keep most of them in the first period
        double sc = arma::max(arma::vectorise(D)) * .1; c.times = vec(uword(n), arma::fill::zeros);
        for (auto& t : c.times) if (r.b(.2)) t = r.i(1, 2) * sc;
        c.u = r.u(.3, .9); c.k.kernel = r.i(0, 1); c.i = r.i(0, 1);
        if (c.k.adaptive) c.k.bw = floor(n * r.u(.45, .6));
    }
    if (gwdr)
        for (int q = 0; q < 2; q++) { Kern k; k.adaptive = true; k.kernel = r.i(0, 3); k.bw = floor(n * r.u(.75, 1.0)); c.ks.push_back(k); }
    if (name == "gwdr-bw") { c.i = r.i(0, 1); for (auto& k : c.ks) { k.bw = floor(n * r.u(.6, .9)); k.kernel = 0; } }
    if (mg)
    {
        // standardise, as the method assumes
        for (uword j = icpt ? 1 : 0; j < d.x.n_cols; j++) d.x.col(j) = (d.x.col(j) - arma::mean(d.x.col(j))) / arma::stddev(d.x.col(j));
        bool ad = r.b();
        for (uword j = 0; j < d.x.n_cols; j++)
        {
            Kern k = genKern(r, d, D, ad, name == "mgwr-auto" ? 0 : r.i(0, 2), .6); if (ad) k.bw = floor(k.bw); c.ks.push_back(k);
            c.iv.push_back(name == "mgwr-auto" ? r.i(0, 1) : 2);
        }
        c.i = r.i(0, 1); c.j = r.i(0, 1); c.hat = r.b(.7);
    }
    if (da)
    {
        int g = r.i(2, 3); c.k.kernel = r.i(0, 1);
        c.k = genKern(r, d, D, r.b() ? 1 : 0, c.k.kernel, .6); if (c.k.adaptive) c.k.bw = max(floor(.7 * n), floor(c.k.bw));
        for (int i = 0; i < n; i++)
        {
            double s = d.x(uword(i), 0) + .7 * r.n(), m = arma::mean(d.x.col(0)), sd = arma::stddev(d.x.col(0));
            int q = g == 2 ? (s > m) : (s > m + .5 * sd ? 2 : s > m - .5 * sd ? 1 : 0);
            if (i < 3 * g) q = i % g;
            c.group.push_back(string("class-") + char('a' + (2 * q + 1) % 5));
        }
    }
    if (ss) { c.a = r.b(); c.b = r.b(); }
    if (pca) c.i = r.i(1, np);
    if (starts(name, "lc")) { c.a = r.b(); c.u = r.pick({0.0, .05, .3}); c.v = r.pick({5.0, 20.0, 30.0}); }
    uword m = uword(r.i(2, n));
    c.locs = mat(m, 2);
    for (uword i = 0; i < m; i++) { uword q = uword(r.i(0, n - 1)), p = uword(r.i(0, n - 1)); double t = r.u(.05, .95); c.locs.row(i) = t * d.coords.row(q) + (1 - t) * d.coords.row(p); }
    if (int lk = r.i(0, 5); lk < 2) { mat L = d.coords; for (uword i = 1; lk == 1 && i < L.n_rows; i++) L.row(i) = c.locs.row(i % m); c.locs = L; }   // the observations themselves, or as many places of which only the first is one
    { string iv; for (int v : c.iv) iv += to_string(v); if (iv.size()) d.desc += " init=" + iv; }
    c.late = r.b();
    b.desc = name + " " + d.desc + fmt(" kernel=%s adaptive=%d bw=%.10g i=%d j=%d a=%d b=%d u=%g v=%g late=%d", kname(c.k.kernel).c_str(), int(c.k.adaptive), c.k.bw, c.i, c.j, int(c.a), int(c.b), c.u, c.v, int(c.late));

    if (starts(name, "basic") || starts(name, "robust"))
        b.make = [name](const Data& d, const Cfg& c) {
            bool rob = starts(name, "robust");
            shared_ptr<GWRBasic> p(rob ? new GWRRobust() : new GWRBasic()); Obj o = wrap(p); GWRBasic* a = p.get();
            o.conf = [a](const Data& d, const Cfg& c) { common(*a, d, c); a->setHasHatMatrix(c.hat); }; o.conf(d, c);
            if (rob) static_cast<GWRRobust*>(a)->setFiltered(name == "robust-filtered");
            if (name == "basic-vars") { a->setIsAutoselectIndepVars(true); a->setIndepVarSelectionThreshold(3.0); }
            if (name.find("-bw") != string::npos) { a->setIsAutoselectBandwidth(true); bool cv = name == "basic-bw-cv"; o.crit = [a, cv]() { a->setBandwidthSelectionCriterion(cv ? GWRBasic::BandwidthSelectionCriterionType::CV : GWRBasic::BandwidthSelectionCriterionType::AIC); }; o.crit(); }
            auto pred = make_shared<mat>(); mat L = c.locs;
            bool isPred = name == "basic-predict" || name == "robust-predict";
            if (isPred) { o.run = [a, pred, L]() { *pred = a->predict(L); }; o.other = [a]() { a->fit(); }; }
            else { o.run = [a]() { a->fit(); }; o.other = [a, L]() { a->predict(L); }; }
            o.out = [a, pred, isPred, rob]() {
                Out r; if (isPred) { r["predict"] = C(*pred); return r; }
                r["betas"] = C(a->betas()); r["se"] = C(a->betasSE()); r["shat"] = C(a->sHat()); r["q"] = C(a->qDiag()); if (!rob) r["S"] = C(a->s()); r["diag"] = diag(a->diagnostic());
                r["bw"] = C(bwOf(a->spatialWeight())); r["bwlist"] = lst(a->bandwidthSelectionCriterionList()); r["varlist"] = lst(a->indepVarsSelectionCriterionList()); r["vars"] = vars(a->selectedVariables());
                return r; };
            return o;
        };
    else if (starts(name, "lc"))
        b.make = [name](const Data& d, const Cfg& c) {
            auto p = make_shared<GWRLocalCollinearity>(); Obj o = wrap(p); auto a = p.get();
            o.conf = [a](const Data& d, const Cfg& c) { common(*a, d, c); a->setHasHatMatrix(c.hat); a->setLambda(c.u); a->setLambdaAdjust(c.a); a->setCnThresh(c.v); }; o.conf(d, c);
            if (name == "lc-bw") { a->setIsAutoselectBandwidth(true); o.crit = [a]() { a->setBandwidthSelectionCriterion(GWRLocalCollinearity::BandwidthSelectionCriterionType::CV); }; o.crit(); }
            auto pred = make_shared<mat>(); mat L = c.locs; bool isPred = name == "lc-predict";
            if (isPred) { o.run = [a, pred, L]() { *pred = a->predict(L); }; o.other = [a]() { a->fit(); }; } else { o.run = [a]() { a->fit(); }; o.other = [a, L]() { a->predict(L); }; }
            o.out = [a, pred, isPred]() {
                Out r; if (isPred) { r["predict"] = C(*pred); return r; }
                r["betas"] = C(a->betas()); r["diag"] = diag(a->diagnostic()); r["bw"] = C(bwOf(a->spatialWeight())); r["bwlist"] = lst(a->bandwidthSelectionCriterionList());
                return r; };
            return o;
        };
    else if (gtwr)
        b.make = [name](const Data& d, const Cfg& c) {
            auto p = make_shared<GTWR>(); Obj o = wrap(p); auto a = p.get(); auto L = make_shared<mat>();
            o.conf = [a, L](const Data& d, const Cfg& c) { *L = d.coords;
            CRSDistance sd(d.metric.type == Metric::Geo); OneDimDistance td; Counted<CRSSTDistance> st(&sd, &td, c.u);
            BandwidthWeight bw = mkBw(c.k); SpatialWeight sw; sw.setWeight(&bw); sw.setDistance(&st);
            a->setCoords(d.coords, c.times); a->setDependentVariable(d.y); a->setIndependentVariables(d.x); a->setHasIntercept(d.intercept); a->setSpatialWeight(sw); a->setHasHatMatrix(c.hat); }; o.conf(d, c);
            if (name == "gtwr-bw") { a->setIsAutoselectBandwidth(true); bool cv = c.i; o.crit = [a, cv]() { a->setBandwidthSelectionCriterion(cv ? GTWR::BandwidthSelectionCriterionType::CV : GTWR::BandwidthSelectionCriterionType::AIC); }; o.crit(); }
            if (name == "gtwr-lambda") a->setIsAutoselectLambda(true);
            auto pred = make_shared<mat>(); bool isPred = name == "gtwr-predict";     // (the requested places have no times: see known_findings.json)
            if (isPred) { o.run = [a, pred, L]() { *pred = a->predict(*L); }; o.other = [a]() { a->fit(); }; } else { o.run = [a]() { a->fit(); }; o.other = [a, L]() { a->predict(*L); }; }
            o.out = [a, pred, isPred]() {
                Out r; if (isPred) { r["predict"] = C(*pred); return r; }
                r["betas"] = C(a->betas()); r["se"] = C(a->betasSE()); r["shat"] = C(a->sHat()); r["q"] = C(a->qDiag()); r["S"] = C(a->s()); r["diag"] = diag(a->diagnostic());
                r["bw"] = C(bwOf(a->spatialWeight())); r["bwlist"] = lst(a->bandwidthSelectionCriterionList());
                return r; };
            return o;
        };
    else if (gl)
        b.make = [name](const Data& d, const Cfg& c) {
            auto p = make_shared<GWRGeneralized>(); Obj o = wrap(p); auto a = p.get(); a->setTol(1e-5); a->setMaxiter(20);
            o.conf = [a, name](const Data& d, const Cfg& c) { common(*a, d, c); a->setHasHatMatrix(c.hat && name != "ggwr-nohat"); a->setFamily(c.i ? GWRGeneralized::Family::Binomial : GWRGeneralized::Family::Poisson); }; o.conf(d, c);
            if (name == "ggwr-bw") { a->setIsAutoselectBandwidth(true); bool cv = c.j; o.crit = [a, cv]() { a->setBandwidthSelectionCriterionType(cv ? GWRGeneralized::BandwidthSelectionCriterionType::CV : GWRGeneralized::BandwidthSelectionCriterionType::AIC); }; o.crit(); }
            auto pred = make_shared<mat>(); mat L = c.locs;
            if (name == "ggwr-predict") { o.run = [a, pred, L]() { *pred = a->predict(L); }; o.other = [a]() { a->fit(); }; } else { o.run = [a]() { a->fit(); }; o.other = [a, L]() { a->predict(L); }; }
            o.out = [a, name, pred]() {
                Out r; if (name == "ggwr-predict") { r["predict"] = C(*pred); return r; }
                r["betas"] = C(a->betas()); if (name == "ggwr-nohat") { auto g = a->getGLMDiagnostic(); r["glm"] = C(mat(vec({g.NullDev, g.Dev, g.AIC, g.AICc, g.RSquare}))); return r; }
                auto q = a->getDiagnostic(); r["diag"] = C(mat(vec({q.RSS, q.AIC, q.AICc, q.RSquare}))); auto g = a->getGLMDiagnostic(); r["glm"] = C(mat(vec({g.NullDev, g.Dev, g.AIC, g.AICc, g.RSquare})));
                r["bw"] = C(bwOf(a->spatialWeight())); return r; };
            return o;
        };
    else if (mg)
        b.make = [name](const Data& d, const Cfg& c) {
            auto p = make_shared<GWRMultiscale>(); Obj o = wrap(p); auto a = p.get();
            o.conf = [a](const Data& d, const Cfg& c) {
            a->setCoords(d.coords); a->setDependentVariable(d.y); a->setIndependentVariables(d.x); a->setHasIntercept(d.intercept);
            vector<SpatialWeight> sws; vector<GWRMultiscale::BandwidthInitilizeType> bi; vector<GWRMultiscale::BandwidthSelectionCriterionType> ba; vector<bool> pc; vector<double> th;
            for (uword j = 0; j < d.x.n_cols; j++)
            {
                sws.push_back(mkSW(c.ks[j], d.metric)); bi.push_back(GWRMultiscale::BandwidthInitilizeType(c.iv[j]));
                ba.push_back(c.i ? GWRMultiscale::BandwidthSelectionCriterionType::CV : GWRMultiscale::BandwidthSelectionCriterionType::AIC); pc.push_back(j > 0 && !c.raw); th.push_back(1e-5);
            }
            a->setSpatialWeights(sws); a->setBandwidthInitilize(bi); a->setBandwidthSelectionApproach(ba); a->setPreditorCentered(pc); a->setBandwidthSelectThreshold(th);
            a->setHasHatMatrix(c.hat); }; o.conf(d, c);
            a->setBandwidthSelectRetryTimes(3); a->setMaxIteration(c.iters ? c.iters : name == "mgwr-auto" ? 6 : 12); a->setCriterionThreshold(1e-6);
            a->setCriterionType(c.j ? GWRMultiscale::BackFittingCriterionType::CVR : GWRMultiscale::BackFittingCriterionType::dCVR);
            o.run = [a]() { a->fit(); };
            o.out = [a]() {
                Out r; r["betas"] = C(a->betas()); auto q = a->diagnostic(); r["diag"] = C(mat(vec({q.RSS, q.AICc, q.ENP, q.EDF, q.RSquare, q.RSquareAdjust})));
                mat m(1, a->spatialWeights().size()); uword i = 0; for (auto& s : a->spatialWeights()) m(0, i++) = bwOf(s); r["bw"] = C(m); return r; };
            return o;
        };
    else if (scal)
        b.make = [name](const Data& d, const Cfg& c) {
            auto p = make_shared<GWRScalable>(); Obj o = wrap(p); auto a = p.get();
            o.conf = [a](const Data& d, const Cfg& c) { common(*a, d, c); a->setHasHatMatrix(c.hat); a->setPolynomial(uword(c.j)); }; o.conf(d, c); a->setParameterOptimizeCriterion(c.i ? GWRScalable::BandwidthSelectionCriterionType::CV : GWRScalable::BandwidthSelectionCriterionType::AIC);
            auto pred = make_shared<mat>(); mat L = c.locs; bool isPred = name == "scalable-predict";
            if (isPred) { o.run = [a, pred, L]() { *pred = a->predict(L); }; o.other = [a]() { a->fit(); }; } else { o.run = [a]() { a->fit(); }; o.other = [a, L]() { a->predict(L); }; }
            o.out = [a, pred, isPred]() {
                Out r; if (isPred) { r["predict"] = C(*pred); return r; }
                r["betas"] = C(a->betas()); r["diag"] = diag(a->diagnostic()); r["par"] = C(mat(vec({a->cv(), a->scale(), a->penalty()}))); return r; };
            return o;
        };
    else if (gwdr)
        b.make = [name](const Data& d, const Cfg& c) {
            auto mk = [](const Cfg& c) { vector<SpatialWeight> sws; for (auto& k : c.ks) { Counted<OneDimDistance> od; BandwidthWeight bw = mkBw(k); sws.push_back(SpatialWeight(&bw, &od)); } return sws; };
            auto p = make_shared<GWDR>(d.x, d.y, d.coords, mk(c), c.hat, d.intercept); Obj o = wrap(p); auto a = p.get();
            o.conf = [a, mk](const Data& d, const Cfg& c) { a->setCoords(d.coords); a->setDependentVariable(d.y); a->setIndependentVariables(d.x); a->setHasIntercept(d.intercept); a->setSpatialWeights(mk(c)); a->setHasHatMatrix(c.hat); };
            if (name == "gwdr-bw") { a->setEnableBandwidthOptimize(true); a->setBandwidthOptimizeEps(1e-3); a->setBandwidthOptimizeMaxIter(c.iters ? c.iters : 2000); a->setBandwidthOptimizeStep(.05); bool cv = c.i; o.crit = [a, cv]() { a->setBandwidthCriterionType(cv ? GWDR::BandwidthCriterionType::CV : GWDR::BandwidthCriterionType::AIC); }; o.crit(); }
            if (name == "gwdr-vars") { a->setEnableIndepVarSelect(true); a->setIndepVarSelectThreshold(3.0); }
            o.run = [a]() { a->fit(); };
            o.out = [a]() {
                Out r; r["betas"] = C(a->betas()); r["se"] = C(a->betasSE()); r["shat"] = C(a->sHat()); r["q"] = C(a->qDiag()); r["S"] = C(a->s()); r["diag"] = diag(a->diagnostic());
                mat m(1, a->spatialWeights().size()); uword i = 0; for (auto& s : a->spatialWeights()) m(0, i++) = bwOf(s); r["bw"] = C(m); r["varlist"] = lst(a->indepVarCriterionList()); r["vars"] = vars(a->selectedIndepVars()); return r; };
            return o;
        };
    else if (ss)
        b.make = [name](const Data& d, const Cfg& c) {
            auto p = make_shared<GWSS>(); Obj o = wrap(p); auto a = p.get(); bool corr = name == "gwss-corr";
            o.conf = [a](const Data& d, const Cfg& c) { a->setCoords(d.coords); a->setVariables(d.x); a->setSpatialWeight(mkSW(c.k, d.metric)); a->setQuantile(c.a); a->setIsCorrWithFirstOnly(c.b); }; o.conf(d, c);
            o.crit = [a, corr]() { a->setGWSSMode(corr ? GWSS::GWSSMode::Correlation : GWSS::GWSSMode::Average); }; o.crit();
            o.run = [a]() { a->run(); };
            o.out = [a, corr]() { bool q = a->quantile();
                Out r; r["mean"] = C(a->localMean()); r["var"] = C(a->localVar()); r["sdev"] = C(a->localSDev());
                if (!corr) { r["skew"] = C(a->localSkewness()); r["cv"] = C(a->localCV()); if (q) { r["median"] = C(a->localMedian()); r["iqr"] = C(a->iqr()); r["qi"] = C(a->qi()); } }
                else { r["cov"] = C(a->localCov()); r["corr"] = C(a->localCorr()); r["scorr"] = C(a->localSCorr()); }
                return r; };
            return o;
        };
    else if (pca)
        b.make = [](const Data& d, const Cfg& c) {
            auto p = make_shared<GWPCA>(); Obj o = wrap(p); auto a = p.get();
            o.conf = [a](const Data& d, const Cfg& c) { a->setCoords(d.coords); a->setVariables(d.x); a->setSpatialWeight(mkSW(c.k, d.metric)); a->setKeepComponents(c.i); }; o.conf(d, c);
            o.run = [a]() { a->run(); };
            o.out = [a]() { Out r; r["pv"] = C(a->localPV()); r["sdev"] = C(a->sdev()); r["loadings"] = a->loadings(); r["scores"] = a->scores(); return r; };
            return o;
        };
    else
        b.make = [name](const Data& d, const Cfg& c) {
            auto p = make_shared<GWDA>(); Obj o = wrap(p); auto a = p.get();
            o.conf = [a](const Data& d, const Cfg& c) { a->setCoords(d.coords); a->setVariables(d.x); a->setSpatialWeight(mkSW(c.k, d.metric)); auto g = c.group; a->setGroup(g); }; o.conf(d, c);
            a->setIsWqda(name == "gwda-qda");
            o.run = [a]() { a->run(); };
            o.out = [a]() {
                Out r; r["res"] = C(a->res()); r["rate"] = C(a->correctRate()); r["probs"] = C(a->probs()); r["pmax"] = C(a->pmax()); r["entropy"] = C(a->entropy());
                mat m(1, a->group().size()); uword i = 0; for (auto& s : a->group()) m(0, i++) = double(s.size() ? s.back() : 0); r["group"] = C(m); return r; };
            return o;
        };
    return b;
}

double outScale(const cube& c) { double s = 0; for (double v : c) if (std::isfinite(v)) s = max(s, fabs(v)); return s; }
bool outFinite(const Out& o) { for (auto& p : o) for (double v : p.second) if (!std::isfinite(v)) return false; return true; }
string diffOut(const Out& a, const Out& b, double rtol, string* where, double* worst)
{
    for (auto& p : a)
    {
        auto it = b.find(p.first); if (it == b.end()) { if (where) *where = "missing"; return p.first; }
        const cube &x = p.second, &y = it->second;
        if (x.n_rows != y.n_rows || x.n_cols != y.n_cols || x.n_slices != y.n_slices)
        { if (where) *where = fmt("shape %dx%dx%d vs %dx%dx%d", int(x.n_rows), int(x.n_cols), int(x.n_slices), int(y.n_rows), int(y.n_cols), int(y.n_slices)); return p.first; }
        for (uword s = 0; s < x.n_slices; s++) for (uword j = 0; j < x.n_cols; j++)
        {
            double sc = 0; for (uword i = 0; i < x.n_rows; i++) { double v = x(i, j, s); if (std::isfinite(v)) sc = max(sc, fabs(v)); }
            for (uword i = 0; i < x.n_rows; i++)
            {
                double u = x(i, j, s), v = y(i, j, s); if (u == v || (std::isnan(u) && std::isnan(v))) continue;
                double e = fabs(u - v), tol = rtol * max(sc, 1e-9); if (worst && rtol > 0) *worst = max(*worst, e / tol);
                if (!(e <= tol)) { if (where) *where = fmt("[%d,%d,%d] %.17g vs %.17g", int(i), int(j), int(s), u, v); return p.first; }
            }
        }
    }
    return "";
}

bool makeBlind(Box& b, Rng& r)
{
    // two well separated groups of points; the last predictor is zero throughout the first,
    // so no local model there can be solved (its normal matrix has a zero row)
    const string& nm = b.name; auto is = [&](const char* q) { return nm.compare(0, strlen(q), q) == 0; };
    uword n = b.d.coords.n_rows, h = n / 2, k = b.d.x.n_cols; double sc = 0; for (uword i = 0; i < 2; i++) sc = max(sc, b.d.coords.col(i).max() - b.d.coords.col(i).min());
    if (k < 2 || is("gwdr")) return false;
    if (b.d.metric.type == Metric::Geo) b.d.metric = Metric();
    for (uword i = h; i < n; i++) b.d.coords.row(i) += 50 * sc;
    for (uword i = 0; i < h; i++) b.d.x(i, k - 1) = 0;
    int kern = r.i(2, 4); if (is("scalable")) kern = b.c.k.kernel;
    b.c.k.kernel = kern; b.c.k.adaptive = r.b() && !is("gtwr"); b.c.k.bw = b.c.k.adaptive ? double(h - 2) : 4 * sc;
    for (auto& q : b.c.ks) q = b.c.k;
    if (is("mgwr") && b.c.ks.size() > 1)
    {
        for (auto& m : b.c.ms) if (m.type == Metric::Geo) m = Metric();
        b.c.raw = true; b.c.iv.assign(b.c.iv.size(), 2);       // every bandwidth as given
        if (r.b(.7)) { b.c.ks[0].adaptive = false; b.c.ks[0].kernel = 0; b.c.ks[0].bw = 200 * sc; }    // only the last variable's own models fail
    }
    if (b.c.times.n_elem) b.c.times.fill(0);
    for (uword i = 0; i < b.c.locs.n_rows; i++) b.c.locs.row(i) = b.d.coords.row(i % h);
    return true;
}
