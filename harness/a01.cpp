// A01: settings read back the value last given, do not disturb each other, and survive a run
#include "algos.h"
using namespace std; using namespace gwm;
namespace {
string str(bool v) { return v ? "true" : "false"; }
string str(double v) { return fmt("%a", v); }
template<class T, typename enable_if<is_integral<T>::value && !is_same<T, bool>::value, int>::type = 0> string str(T v) { return to_string(v); }
template<class T, typename enable_if<is_enum<T>::value, int>::type = 0> string str(T v) { return "enum" + to_string(int(v)); }
string str(const mat& m) { string s = fmt("%dx%d:", int(m.n_rows), int(m.n_cols)); for (double v : m) s += fmt("%a,", v); return s; }
string str(const string& s) { return s; }
template<class T> string str(const vector<T>& v) { string s = "["; for (const auto& q : v) s += str(T(q)) + ","; return s + "]"; }
string str(const SpatialWeight& s)
{
    string o; auto* w = dynamic_cast<BandwidthWeight*>(s.weight()); auto* d = s.distance();
    o += w ? fmt("w(%a,%d,%d)", w->bandwidth(), int(w->adaptive()), int(w->kernel())) : "no weight";
    if (!d) o += "no distance"; else o += "d" + to_string(int(d->type()));
    if (auto* q = dynamic_cast<MinkwoskiDistance*>(d)) o += fmt("p%a,t%a", q->poly(), q->theta());
    else if (auto* q = dynamic_cast<gwm::CRSDistance*>(d)) o += q->geographic() ? "geo" : "plane";
    return o;
}
string str(const vector<SpatialWeight>& v) { string s = "["; for (auto& q : v) s += str(q) + ","; return s + "]"; }
struct Set { string name; function<string(Rng&)> set; function<string()> get; bool runMay = false; };
struct Table
{
    vector<Set> t;
    template<class Setter, class Getter, class Gen> void add(const string& n, Setter s, Getter g, Gen gen, bool runMay = false)
    {
        t.push_back({n, [=](Rng& r) { auto v = gen(r); s(v); return str(v); }, [=]() { return str(g()); }, runMay});
    }
};
bool coin(Rng& r) { return r.b(); }
double anyReal(Rng& r) { return r.pick({0.0, 1.0, 1e-5, 3.5, 100.0, r.u(-5, 50)}); }
double posit(Rng& r) { return r.pick({1.0, 1e-5, 3.5, 100.0, r.u(0.01, 50)}); }
#define SET(o, setter, getter, gen) T.add(#setter, [=](const auto& v) { o->setter(v); }, [=]() { return o->getter(); }, gen)
#define SETRUN(o, setter, getter, gen) T.add(#setter, [=](const auto& v) { o->setter(v); }, [=]() { return o->getter(); }, gen, true)
template<class E> function<E(Rng&)> en(vector<E> v) { return [=](Rng& r) { return v[size_t(r.i(0, int(v.size()) - 1))]; }; }
SpatialWeight anySW(Rng& r)
{
    BandwidthWeight w(r.b() ? double(r.i(10, 40)) : r.u(5, 90), r.b(), BandwidthWeight::KernelFunctionType(r.i(0, 4))); 
    if (r.b(.4)) { MinkwoskiDistance d(r.pick({1.0, 3.0, -1.0}), r.u(0, 1)); return SpatialWeight(&w, &d); }
    gwm::CRSDistance d(r.b()); return SpatialWeight(&w, &d);
}
}
void run_case(Case& c)
{
    Rng& r = c.r; auto& nm = boxNames(); string name = nm[size_t(c.id) % nm.size()]; Box b = makeBox(name, r, r.i(24, 40)); Obj o = b.fresh(); Algorithm* al = o.alg; c.desc = b.desc;
    string cell = name.substr(0, name.find('-')); bool running = (c.id / long(nm.size())) % 3 == 2;
    Table T; uword n = b.d.coords.n_rows;
    auto rmat = [](uword rows, uword cols) { return [=](Rng& q) { mat m(rows, cols); for (auto& v : m) v = q.n(); return m; }; };
    auto rvec = [](uword rows) { return [=](Rng& q) { vec m(rows); for (auto& v : m) v = q.n(); return m; }; };
    auto anyRows = [&]() { return r.b(.7) ? n : uword(r.i(1, 60)); };
    if (auto* a = dynamic_cast<IRegressionAnalysis*>(al))
    {
        uword k = anyRows(), p = dynamic_cast<GWRMultiscale*>(al) ? b.d.x.n_cols : uword(r.i(1, 5));
        SET(a, setDependentVariable, dependentVariable, rvec(k)); 
        auto ba = dynamic_cast<GWRBasic*>(al); auto dr = dynamic_cast<GWDR*>(al);
        bool chooses = dynamic_cast<GWRMultiscale*>(al) || (ba && ba->isAutoselectIndepVars()) || (dr && dr->enableIndpenVarSelect());   // centred or selected predictors replace those given
        T.add("setIndependentVariables", [=](const mat& v) { a->setIndependentVariables(v); }, [=]() { return a->independentVariables(); }, rmat(k, p), chooses);
        SET(a, setHasIntercept, hasIntercept, coin);
    }
    if (auto* a = dynamic_cast<SpatialAlgorithm*>(al)) if (!dynamic_cast<GTWR*>(al)) { uword k = anyRows(), p = dynamic_cast<GWDR*>(al) ? 3 : 2; SET(a, setCoords, coords, rmat(k, p)); }
    if (auto* a = dynamic_cast<IMultivariableAnalysis*>(al)) { uword k = anyRows(), p = uword(r.i(1, 5)); SET(a, setVariables, variables, rmat(k, p)); }
    if (auto* a = dynamic_cast<SpatialMonoscaleAlgorithm*>(al)) if (!dynamic_cast<GTWR*>(al)) SETRUN(a, setSpatialWeight, spatialWeight, anySW);
    if (auto* a = dynamic_cast<SpatialMultiscaleAlgorithm*>(al)) { uword p = uword(r.i(1, 4)); SETRUN(a, setSpatialWeights, spatialWeights, [p](Rng& q) { vector<SpatialWeight> v; for (uword i = 0; i < p; i++) v.push_back(anySW(q)); return v; }); }
    if (auto* a = dynamic_cast<IParallelizable*>(al))
    {
        vector<ParallelType> ok; for (ParallelType t : {ParallelType::SerialOnly, ParallelType::OpenMP}) if (a->parallelAbility() & t) ok.push_back(t);
        SET(a, setParallelType, parallelType, en(ok));
    }
    if (auto* a = dynamic_cast<GWRBasic*>(al))
    {
        SET(a, setHasHatMatrix, hasHatMatrix, coin); SET(a, setIndepVarSelectionThreshold, indepVarSelectionThreshold, anyReal);
        SET(a, setIsAutoselectBandwidth, isAutoselectBandwidth, coin); SET(a, setIsAutoselectIndepVars, isAutoselectIndepVars, coin);
        SET(a, setBandwidthSelectionCriterion, bandwidthSelectionCriterion, en(vector<GWRBasic::BandwidthSelectionCriterionType>{GWRBasic::AIC, GWRBasic::CV}));
    }
    if (auto* a = dynamic_cast<GWRRobust*>(al)) SET(a, setFiltered, filtered, coin);
    if (auto* a = dynamic_cast<GWRMultiscale*>(al))
    {
        uword p = b.d.x.n_cols; typedef GWRMultiscale M;
        auto vb = [p](Rng& q) { vector<bool> v; for (uword i = 0; i < p; i++) v.push_back(q.b()); return v; }; auto vd = [p](Rng& q) { vector<double> v; for (uword i = 0; i < p; i++) v.push_back(posit(q)); return v; };
        auto vi = [p](Rng& q) { vector<M::BandwidthInitilizeType> v; for (uword i = 0; i < p; i++) v.push_back(q.pick({M::Null, M::Initial, M::Specified})); return v; };
        auto va = [p](Rng& q) { vector<M::BandwidthSelectionCriterionType> v; for (uword i = 0; i < p; i++) v.push_back(q.pick({M::CV, M::AIC})); return v; };
        { SET(a, setBandwidthInitilize, bandwidthInitilize, vi); SET(a, setBandwidthSelectionApproach, bandwidthSelectionApproach, va); SET(a, setPreditorCentered, preditorCentered, vb); SET(a, setBandwidthSelectThreshold, bandwidthSelectThreshold, vd); }
        SET(a, setHasHatMatrix, hasHatMatrix, coin); SET(a, setBandwidthSelectRetryTimes, bandwidthSelectRetryTimes, [](Rng& q) { return size_t(q.i(1, 20)); }); SET(a, setMaxIteration, maxIteration, [](Rng& q) { return size_t(q.i(1, 900)); });
        SET(a, setCriterionType, criterionType, en(vector<M::BackFittingCriterionType>{M::CVR, M::dCVR})); SET(a, setCriterionThreshold, criterionThreshold, posit); SET(a, setAdaptiveLower, adaptiveLower, [](Rng& q) { return q.i(2, 40); });
    }
    if (auto* a = dynamic_cast<GWDR*>(al))
    {
        SET(a, setHasHatMatrix, hasHatMatrix, coin); SET(a, setBandwidthOptimizeEps, bandwidthOptimizeEps, posit); SET(a, setBandwidthOptimizeMaxIter, bandwidthOptimizeMaxIter, [](Rng& q) { return size_t(q.i(1, 9000)); });
        SET(a, setBandwidthOptimizeStep, bandwidthOptimizeStep, posit); SET(a, setBandwidthCriterionType, bandwidthCriterionType, en(vector<GWDR::BandwidthCriterionType>{GWDR::CV, GWDR::AIC})); SET(a, setEnableBandwidthOptimize, enableBandwidthOptimize, coin);
        SET(a, setEnableIndepVarSelect, enableIndpenVarSelect, coin); SET(a, setIndepVarSelectThreshold, indepVarSelectThreshold, anyReal); uword p = uword(r.i(1, 4));
        SETRUN(a, setSpatialWeights, spatialWeights, [p](Rng& q) { vector<SpatialWeight> v; for (uword i = 0; i < p; i++) v.push_back(anySW(q)); return v; });
    }
    if (auto* a = dynamic_cast<GTWR*>(al))
    {
        SET(a, setHasHatMatrix, hasHatMatrix, coin); SET(a, setIsAutoselectBandwidth, isAutoselectBandwidth, coin); SET(a, setBandwidthSelectionCriterion, bandwidthSelectionCriterion, en(vector<GTWR::BandwidthSelectionCriterionType>{GTWR::AIC, GTWR::CV}));
        T.add("setCoords", [=](const mat& m) { a->setCoords(m, vec(m.n_rows, arma::fill::zeros)); }, [=]() { return a->coords(); }, rmat(n, 2));
        SETRUN(a, setSpatialWeight, spatialWeight, [](Rng& q) { gwm::CRSDistance s(false); OneDimDistance t; CRSSTDistance d(&s, &t, q.u()); BandwidthWeight w(q.u(10, 40), q.b(), BandwidthWeight::KernelFunctionType(q.i(0, 4))); return SpatialWeight(&w, &d); });
    }
    if (auto* a = dynamic_cast<GWDA*>(al)) { SET(a, setIsWqda, isWqda, coin); SET(a, setHascov, hasCov, coin); SET(a, setHasmean, hasMean, coin); SET(a, setHasprior, hasPrior, coin); }
    if (auto* a = dynamic_cast<GWRLocalCollinearity*>(al))
    {
        SET(a, setCnThresh, cnThresh, posit); SET(a, setLambda, lambda, posit); SET(a, setHasHatMatrix, hasHatMatrix, coin); SET(a, setLambdaAdjust, lambdaAdjust, coin); SET(a, setIsAutoselectBandwidth, isAutoselectBandwidth, coin);
        SET(a, setBandwidthSelectionCriterion, bandwidthSelectionCriterion, en(vector<GWRLocalCollinearity::BandwidthSelectionCriterionType>{GWRLocalCollinearity::CV}));
    }
    if (auto* a = dynamic_cast<GWRGeneralized*>(al))
    {
        typedef GWRGeneralized G;
        SET(a, setTol, getTol, posit); SET(a, setMaxiter, getMaxiter, [](Rng& q) { return size_t(q.i(1, 90)); }); SET(a, setHasHatMatrix, hasHatMatrix, coin); SET(a, setIsAutoselectBandwidth, autoselectBandwidth, coin);
        SET(a, setBandwidthSelectionCriterionType, bandwidthSelectionCriterionType, en(vector<G::BandwidthSelectionCriterionType>{G::AIC, G::CV})); SET(a, setRegressionData, regressionData, rmat(uword(r.i(1, 30)), 2)); SET(a, setHasRegressionData, hasRegressionData, coin);
        T.add("setFamily", [=](G::Family f) { a->setFamily(f); }, [=]() { return a->getFamily(); }, en(vector<G::Family>{G::Poisson, G::Binomial}));
    }
    if (auto* a = dynamic_cast<GWSS*>(al)) { SET(a, setQuantile, quantile, coin); SET(a, setIsCorrWithFirstOnly, isCorrWithFirstOnly, coin); }
    if (auto* a = dynamic_cast<GWPCA*>(al)) SET(a, setKeepComponents, keepComponents, [](Rng& q) { return q.i(1, 9); });
    if (auto* a = dynamic_cast<GWRScalable*>(al))
    {
        SET(a, setPolynomial, polynomial, [](Rng& q) { return uword(q.i(1, 9)); }); SET(a, setHasHatMatrix, hasHatMatrix, coin);
        SET(a, setParameterOptimizeCriterion, parameterOptimizeCriterion, en(vector<GWRScalable::BandwidthSelectionCriterionType>{GWRScalable::CV, GWRScalable::AIC}));
    }
    vector<string> now; for (auto& s : T.t) now.push_back(s.get());
    if (T.t.empty()) { c.tag("no-settings"); return; }
    auto compare = [&](const string& what, int skip, bool ran) {
        bool fine = true;
        for (size_t i = 0; i < T.t.size(); i++)
        {
            if (ran && T.t[i].runMay) continue;
            string g = T.t[i].get(); bool same = g == now[i]; c.events++;
            fine &= c.check(same, cell + (int(i) == skip ? ":reads-back:" : ran ? ":run-changes:" : ":disturbed:") + T.t[i].name, what + ": reads " + g.substr(0, 60) + " instead of " + now[i].substr(0, 60));
        }
        return fine;
    };
    if (running)
    {
        // a run leaves every setting and all data as they are (except weights it was asked to choose)
        if (r.b()) o.omped(r.i(1, 4));
        for (size_t i = 0; i < T.t.size(); i++) now[i] = T.t[i].get();
        try { o.run(); c.tag(cell + "/ran"); } catch (const exception&) { c.tag("run-refused"); }
        compare("after a run", -1, true); c.tag("run"); c.nontrivial = true; return;
    }
    int steps = r.i(20, 60);
    for (int s = 0; s < steps; s++)
    {
        int k = r.i(0, int(T.t.size()) - 1); now[size_t(k)] = T.t[size_t(k)].set(r);
        c.tag(cell + "/" + T.t[size_t(k)].name);
        if (!compare("after " + T.t[size_t(k)].name, k, false)) return;
    }
    c.nontrivial = true;
}
