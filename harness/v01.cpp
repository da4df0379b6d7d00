// V01: the configuration check accepts every complete configuration and rejects every incomplete one; setters refuse what does not fit
#include "algos.h"
using namespace std; using namespace gwm;
namespace {
struct Brk { string name; function<void()> f; };
SpatialWeight badSW(int kind, const SpatialWeight& s) // 0 nothing, 1 weight only, 2 distance only
{
    SpatialWeight o; if (kind == 1) { BandwidthWeight w(*s.weight<BandwidthWeight>()); o.setWeight(&w); } if (kind == 2) { CRSDistance q(false); o.setDistance(&q); } return o;
}
SpatialWeight withBw(const SpatialWeight& s, double bw, int kernel = -1) { SpatialWeight o(s); BandwidthWeight w(*s.weight<BandwidthWeight>()); w.setBandwidth(bw); if (kernel >= 0) w.setKernel(BandwidthWeight::KernelFunctionType(kernel)); o.setWeight(&w); return o; }
}
void run_case(Case& c)
{
    Rng& r = c.r; auto& nm = boxNames(); string name = nm[size_t(c.id) % nm.size()]; Box b = makeBox(name, r, r.i(24, 40)); Obj o = b.fresh(); Algorithm* al = o.alg; c.desc = b.desc;
    string cell = name.substr(0, name.find('-'));
    vector<Brk> br; uword n = b.d.coords.n_rows; mat nothing;
    auto sa = dynamic_cast<SpatialAlgorithm*>(al); auto sm = dynamic_cast<SpatialMonoscaleAlgorithm*>(al); auto ra = dynamic_cast<IRegressionAnalysis*>(al); auto mv = dynamic_cast<IMultivariableAnalysis*>(al);
    auto mg = dynamic_cast<GWRMultiscale*>(al); auto dr = dynamic_cast<GWDR*>(al); auto sc = dynamic_cast<GWRScalable*>(al); auto pca = dynamic_cast<GWPCA*>(al); auto da = dynamic_cast<GWDA*>(al); bool positive = dynamic_cast<GWRBasic*>(al) || sc || dynamic_cast<GTWR*>(al);
    mat X = ra ? ra->independentVariables() : mv ? mv->variables() : mat(); vec y = ra ? ra->dependentVariable() : vec();
    uword less = uword(r.i(1, int(n) - 1));
    if (sa && !dr) { br.push_back({"no-coordinates", [=]() { sa->setCoords(nothing); }}); br.push_back({"few-coordinates", [=]() { sa->setCoords(mat(b.d.coords.rows(0, less - 1))); }}); }
    if (dr) br.push_back({"no-coordinates", [=]() { sa->setCoords(nothing); }});
    if (ra)
    {
        br.push_back({"no-predictors", [=]() { ra->setIndependentVariables(nothing); }}); br.push_back({"no-predictor-columns", [=]() { ra->setIndependentVariables(mat(X.n_rows, 0)); }}); br.push_back({"few-predictor-rows", [=]() { ra->setIndependentVariables(mat(X.rows(0, less - 1))); }});
        br.push_back({"no-response", [=]() { ra->setDependentVariable(vec()); }}); br.push_back({"few-responses", [=]() { ra->setDependentVariable(vec(y.rows(0, less - 1))); }}); br.push_back({"many-responses", [=]() { ra->setDependentVariable(vec(arma::join_cols(y, y))); }});
    }
    if (mv) { br.push_back({"no-variables", [=]() { mv->setVariables(nothing); }}); br.push_back({"no-variable-columns", [=]() { mv->setVariables(mat(X.n_rows, 0)); }}); br.push_back({"few-variable-rows", [=]() { mv->setVariables(mat(X.rows(0, less - 1))); }}); }
    if (sm)
    {
        SpatialWeight s0 = sm->spatialWeight(); for (int q = 0; q < 3; q++) br.push_back({q == 0 ? "no-weighting" : q == 1 ? "no-distance" : "no-weight", [=]() { sm->setSpatialWeight(badSW(q, s0)); }});
        if (positive) { double v = r.pick({0.0, -1.0, -0.5, -1e9, -1e-9}); br.push_back({"bandwidth-not-positive", [=]() { sm->setSpatialWeight(withBw(s0, v)); }}); br.push_back({"bandwidth-zero", [=]() { sm->setSpatialWeight(withBw(s0, 0)); }}); }
        if (sc) { int q = r.i(2, 4); br.push_back({"kernel-unsupported", [=]() { sm->setSpatialWeight(withBw(s0, s0.weight<BandwidthWeight>()->bandwidth(), q)); }}); }
    }
    if (pca) { int q = r.pick({0, -1, -7}); br.push_back({"no-components", [=]() { pca->setKeepComponents(q); }}); int p = int(X.n_cols) + r.i(1, 3); br.push_back({"too-many-components", [=]() { pca->setKeepComponents(p); }}); }
    if (da) { auto g = b.c.group; br.push_back({"no-groups", [=]() { vector<string> t; da->setGroup(t); }}); br.push_back({"few-groups", [=]() { vector<string> t(g.begin(), g.begin() + long(less)); da->setGroup(t); }}); }
    if (dr)
    {
        auto w = dr->spatialWeights(); br.push_back({"few-weightings", [=]() { auto q = w; q.pop_back(); dr->setSpatialWeights(q); }}); br.push_back({"many-weightings", [=]() { auto q = w; q.push_back(q[0]); dr->setSpatialWeights(q); }});
        for (int q = 0; q < 3; q++) { size_t j = size_t(r.i(0, int(w.size()) - 1)); br.push_back({q == 0 ? "no-weighting" : q == 1 ? "no-distance" : "no-weight", [=]() { auto z = w; z[j] = badSW(q, w[j]); dr->setSpatialWeights(z); }}); }
    }
    if (mg)
    {
        auto w = mg->spatialWeights(); auto pc = mg->preditorCentered(); auto th = mg->bandwidthSelectThreshold(); size_t j = size_t(r.i(0, int(w.size()) - 1));
        br.push_back({"few-weightings", [=]() { auto q = w; q.pop_back(); mg->setSpatialWeights(q); }}); br.push_back({"many-weightings", [=]() { auto q = w; q.push_back(q[0]); mg->setSpatialWeights(q); }});
        br.push_back({"few-centred", [=]() { auto q = pc; q.pop_back(); mg->setPreditorCentered(q); }}); br.push_back({"many-thresholds", [=]() { auto q = th; q.push_back(1); mg->setBandwidthSelectThreshold(q); }}); br.push_back({"no-thresholds", [=]() { mg->setBandwidthSelectThreshold({}); }});
        for (int q = 0; q < 3; q++) br.push_back({q == 0 ? "no-weighting" : q == 1 ? "no-distance" : "no-weight", [=]() { auto z = w; z[j] = badSW(q, w[j]); mg->setSpatialWeights(z); }});
        if (b.c.iv[j] != 0) { bool ad = w[j].weight<BandwidthWeight>()->adaptive(); double v = ad ? r.pick({0.0, 1.0, -3.0, .5}) : r.pick({-1.0, -1e-6, -1e9}); br.push_back({ad ? "bandwidth-adaptive-small" : "bandwidth-negative", [=]() { auto z = w; z[j] = withBw(w[j], v); mg->setSpatialWeights(z); }}); }
    }
    bool first = al->isValid(); c.check(first, cell + ":complete-refused", c.desc); c.check(al->isValid() == first, cell + ":unstable", c.desc); c.tag("complete:" + name);
    // an empty object is not ready
    int k = r.i(3, 6); for (int t = 0; t < k; t++)
    {
        auto& q = br[size_t(r.i(0, int(br.size()) - 1))]; q.f(); bool two = r.b(.2); string what = q.name; bool fc = q.name == "few-coordinates"; if (two) { auto& p = br[size_t(r.i(0, int(br.size()) - 1))]; p.f(); fc |= p.name == "few-coordinates"; if (p.name.substr(0, 4) == q.name.substr(0, 4) || p.name.find("weight") != string::npos || p.name.find("bandwidth") != string::npos || p.name.find("kernel") != string::npos || p.name.find("no-d") == 0) what = p.name; }
        bool ok = al->isValid(); if (fc && two) {} else c.check(!ok, cell + ":" + what + ":accepted", c.desc + " broken by " + what); c.tag("incomplete:" + cell + ":" + what); c.events++;
        o.conf(b.d, b.c); c.check(al->isValid(), cell + ":restored-refused", c.desc + " after " + what);
    }
    // refused settings leave the object as it was
    if (mg)
    {
        uword nv = X.n_cols; auto bi = mg->bandwidthInitilize(); auto ba = mg->bandwidthSelectionApproach(); auto tryIt = [&](const string& what, function<void()> f) { bool threw = false; try { f(); } catch (const std::exception&) { threw = true; } c.check(threw, cell + ":" + what + ":not-refused", c.desc); c.tag("refused:" + what); };
        uword m = r.b() ? nv + uword(r.i(1, 2)) : nv - 1; tryIt("initialisation-size", [&]() { mg->setBandwidthInitilize(vector<GWRMultiscale::BandwidthInitilizeType>(m, GWRMultiscale::Null)); }); tryIt("approach-size", [&]() { mg->setBandwidthSelectionApproach(vector<GWRMultiscale::BandwidthSelectionCriterionType>(m, GWRMultiscale::BandwidthSelectionCriterionType::CV)); });
        c.check(mg->bandwidthInitilize() == bi && mg->bandwidthSelectionApproach() == ba && mg->isValid(), cell + ":refused-setting-kept", c.desc);
    }
    if (o.par)
    {
        int abil = o.par->parallelAbility(); for (auto t : {ParallelType::SerialOnly, ParallelType::OpenMP, ParallelType::CUDA, ParallelType::MPI_Serial, ParallelType::MPI_MP})
        {
            if (int(t) & int(ParallelType::MPI)) continue; ParallelType before = o.par->parallelType(); o.par->setParallelType(t); bool can = t == ParallelType::SerialOnly ? (abil & int(ParallelType::SerialOnly)) : (abil & int(t)); ParallelType now = o.par->parallelType();
            c.check(now == (can ? t : before), cell + ":mode", c.desc + fmt(" asked %d ability %d now %d", int(t), abil, int(now))); c.check(al->isValid(), cell + ":mode-valid", c.desc); c.tag(string("mode:") + (can ? "taken" : "ignored"));
        }
        o.par->setParallelType(ParallelType::SerialOnly);
    }
    try { o.run(); } catch (const std::exception&) { c.tag("run-rejected"); return; }
    c.check(al->status() == Status::Success, cell + ":run", c.desc); Obj f = b.fresh(); f.run(); string w; double ww = 0; string df = diffOut(o.out(), f.out(), 1e-12, &w, &ww); c.check(df.empty(), cell + ":lasting-effect", c.desc + " " + df + " " + w); c.nontrivial = true;
}
