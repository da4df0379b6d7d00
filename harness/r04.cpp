// R04: forward variable selection - engine (synthetic criteria) and basic / robust / density GWR
#include "common.h"
using namespace std; using namespace gwm;

typedef vector<size_t> Vars;
// replay of greedy forward selection over a set of evaluated models; checks the engine's trace
static void checkGreedy(Case& c, const Vars& vars, const vector<pair<Vars, double>>& calls, const string& key, const string& ctx)
{
    size_t k = vars.size();
    if (!c.check(calls.size() == k * (k + 1) / 2, key + "count", ctx + fmt(" %d models evaluated for %d variables", int(calls.size()), int(k)))) return;
    Vars cur; size_t at = 0;
    for (size_t lev = 0; lev < k; lev++)
    {
        set<size_t> tried; double best = DBL_MAX * 2; Vars bestSet;
        for (size_t j = 0; j < k - lev; j++, at++)
        {
            Vars v = calls[at].first;
            if (!c.check(v.size() == lev + 1, key + "level", ctx)) return;
            Vars head(v.begin(), v.end() - 1);
            if (!c.check(head == cur, key + "greedy-prefix", ctx + fmt(" at level %d", int(lev)))) return;
            bool fresh = tried.insert(v.back()).second && find(cur.begin(), cur.end(), v.back()) == cur.end() && find(vars.begin(), vars.end(), v.back()) != vars.end();
            if (!c.check(fresh, key + "candidate", ctx)) return;
            if (bestSet.empty() || calls[at].second < best) { best = calls[at].second; bestSet = v; }
        }
        cur = bestSet;
    }
}
// the reported list: per level in decreasing criterion order
static void checkList(Case& c, const Vars& vars, const VariablesCriterionList& list, const string& key, const string& ctx)
{
    size_t k = vars.size(), at = 0;
    if (!c.check(list.size() == k * (k + 1) / 2, key + "list-size", ctx)) return;
    for (size_t lev = 0; lev < k; lev++)
        for (size_t j = 0; j < k - lev; j++, at++)
        {
            if (!c.check(list[at].first.size() == lev + 1, key + "list-level", ctx)) return;
            if (j > 0 && !c.check(list[at - 1].second >= list[at].second, key + "list-order", ctx)) return;
        }
}
static Vars expectSelect(const VariablesCriterionList& list, double thr, bool* tie)
{
    for (size_t i = list.size() - 1; i > 0; i--)
    {
        double drop = list[i - 1].second - list[i].second;
        if (fabs(drop - thr) <= 1e-6 * (1 + fabs(list[i].second))) *tie = true;
        if (drop >= thr) return list[i].first;
    }
    return list.back().first;
}

struct Synth : public IVarialbeSelectable
{
    uint64_t salt; int mode; vector<pair<Vars, double>> calls; int stopAt = -1;
    double val(Vars v) const
    {
        sort(v.begin(), v.end());
        uint64_t h = salt; for (size_t x : v) h = (h ^ (x + 1)) * 0x100000001b3ULL;
        Rng q(h);
        if (mode == 0) return 1000 * q.u();
        if (mode == 1) return 5000 - 300 * double(v.size()) + 50 * q.u();
        if (mode == 2) return 5000 + 300 * double(v.size()) + 50 * q.u();
        return q.b(.3) ? DBL_MAX : 1000 * q.u() - 200 * double(v.size());
    }
    Status getCriterion(const Vars& v, double& cr) override
    {
        if (stopAt >= 0 && int(calls.size()) >= stopAt) return Status::Terminated;
        cr = val(v); calls.push_back({v, cr}); return Status::Success;
    }
    Vars selectedVariables() override { return {}; }
};
static void synth(Case& c)
{
    Rng& r = c.r;
    for (int rep = 0; rep < 15; rep++)
    {
        Synth s; s.salt = r.next(); s.mode = r.i(0, 3);
        size_t k = size_t(r.i(1, 8)); Vars vars; size_t v = size_t(r.i(0, 2));
        for (size_t i = 0; i < k; i++) { vars.push_back(v); v += size_t(r.i(1, 3)); }
        double thr = r.pick({0.5, 3.0, 60.0, 1e5, 1e9});
        if (r.b(.15)) s.stopAt = r.i(0, int(k * (k + 1) / 2) - 1);
        VariableForwardSelector sel; if (r.b()) sel = VariableForwardSelector(vars, thr); else { sel.setThreshold(thr); sel.setIndepVars(vars); c.tag("selector-setters"); }
        Vars out = sel.optimize(&s);
        string ctx = fmt("synthetic k=%d mode=%d thr=%g stopAt=%d", int(k), s.mode, thr, s.stopAt);
        c.tag(fmt("synth:%d/%s", s.mode, s.stopAt >= 0 ? "stop" : "full")); c.events += s.calls.size(); c.nontrivial = true;
        if (s.stopAt >= 0) { c.check(out == vars, "synth:stopped-result", ctx); continue; }
        checkGreedy(c, vars, s.calls, "synth:", ctx);
        auto list = sel.indepVarsCriterion();
        checkList(c, vars, list, "synth:", ctx);
        multiset<pair<Vars, double>> a(s.calls.begin(), s.calls.end()), b; for (auto& p : list) b.insert({p.first, p.second});
        c.check(a == b, "synth:list-content", ctx);
        bool tie = false; if (list.size()) c.check(out == expectSelect(list, thr, &tie) || tie, "synth:threshold", ctx);
    }
}
static void real(Case& c)
{
    Rng& r = c.r;
    int alg = r.i(0, 3);    // 0,1 basic 2 robust 3 density
    uword n = pickN(r, {40, 60, 90}, false), np = uword(r.i(1, 5));
    bool icpt = alg == 3 ? true : r.b(.75);
    Data d = genData(r, n, np, icpt, -1, alg == 3 ? 0 : -1);
    // make some predictors irrelevant
    { uvec dead(np, arma::fill::zeros); for (uword j = 0; j < np; j++) if (r.b(.4)) { uword col = j + (icpt ? 1 : 0); vec z(n); for (auto& v : z) v = r.n(); d.x.col(col) = z; } }
    size_t zero = r.b(.2) ? size_t(r.i(icpt ? 1 : 0, int(d.x.n_cols) - 1)) : SIZE_MAX; bool thrown = false;   // a predictor that is always zero: its models have no solution
    if (zero != SIZE_MAX) d.x.col(zero).zeros();
    auto unsolvable = [&](const Vars& v) { return find(v.begin(), v.end(), zero) != v.end(); };
    mat D = orc::distMat(d.metric, d.coords, d.coords);
    Kern k = genKern(r, d, D, -1, r.i(0, 3), .6);
    if (k.adaptive) for (uword i = 0; i < n; i++) if (!(orc::kernBw(k, D.row(i).t()) > 0)) { c.tag("skip:zero-bandwidth"); return; }
    double thr = r.pick({0.1, 3.0, 20.0, 1e4});
    int par = r.i(0, 1), threads = r.i(2, 5);
    Vars vars; for (size_t i = icpt ? 1 : 0; i < d.x.n_cols; i++) vars.push_back(i);
    c.desc = d.desc + fmt(" alg=%d kernel=%s adaptive=%d bw=%g thr=%g par=%d zero=%d", alg, kname(k.kernel).c_str(), int(k.adaptive), k.bw, thr, par, zero == SIZE_MAX ? -1 : int(zero));
    VariablesCriterionList list; Vars sel; mat B; vector<string> logs; auto ms = make_shared<MonState>();
    string cell = string(alg == 3 ? "gwdr" : alg == 2 ? "robust" : "basic") + (par ? "/omp" : "/serial"), key = "real:" + cell + ":";
    mat W; bool opt = alg == 3 && r.b(.4), fitted = true;   // opt: bandwidths are optimised after the selection, which is then global
    if (opt) { n = 40; if (d.x.n_rows != n) { d.x = d.x.rows(0, n - 1); d.y = d.y.head(n); d.coords = d.coords.rows(0, n - 1); } c.desc += " optimise=1 (first 40 rows)"; cell += "/global"; key = "real:" + cell + ":"; }
    if (alg == 3)
    {
        vector<Kern> kqs; vector<mat> Ds;
        vector<SpatialWeight> sws; W = mat(n, n, arma::fill::ones);
        for (uword q = 0; q < 2; q++)
        {
            Kern kq = k; kq.adaptive = true; kq.bw = double(n) * r.u(.7, 1.0);
            kq.bw = floor(kq.bw);
            OneDimDistance od; BandwidthWeight b = mkBw(kq); sws.push_back(SpatialWeight(&b, &od));
            mat Dq(n, n); for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) Dq(i, j) = fabs(d.coords(i, q) - d.coords(j, q));
            for (uword i = 0; i < n; i++) if (!(orc::kernBw(kq, Dq.row(i).t()) > 0)) { c.tag("skip:zero-bandwidth"); return; }
            W %= orc::weightMat(kq, Dq); kqs.push_back(kq); Ds.push_back(Dq);
        }
        GWDR a(d.x, d.y, d.coords, sws, true, icpt); a.setTelegram(tele(ms));
        if (par) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(threads); }
        a.setEnableIndepVarSelect(true); a.setIndepVarSelectThreshold(thr);
        if (opt) { a.setEnableBandwidthOptimize(true); a.setBandwidthCriterionType(r.b() ? GWDR::CV : GWDR::AIC); a.setBandwidthOptimizeEps(.01); a.setBandwidthOptimizeStep(.05); a.setBandwidthOptimizeMaxIter(300); }
        try { B = a.fit(); } catch (const std::exception&) { if (!opt && zero == SIZE_MAX) throw; fitted = false; thrown = true; c.tag("real:optimiser-gave-up"); }
        list = a.indepVarCriterionList(); sel = a.selectedIndepVars();
        if (opt && fitted)
        {
            auto now = a.spatialWeights(); W.ones();
            for (uword q = 0; q < 2; q++)
            {
                kqs[q].bw = now[q].weight<BandwidthWeight>()->bandwidth();
                for (uword i = 0; i < n; i++) if (!(orc::kernBw(kqs[q], Ds[q].row(i).t()) > 0)) fitted = false;
                W %= orc::weightMat(kqs[q], Ds[q]);
            }
        }
    }
    else
    {
        unique_ptr<GWRBasic> a(alg == 2 ? new GWRRobust() : new GWRBasic());
        a->setCoords(d.coords); a->setDependentVariable(d.y); a->setIndependentVariables(d.x); a->setSpatialWeight(mkSW(k, d.metric)); a->setHasHatMatrix(true); a->setHasIntercept(icpt); a->setTelegram(tele(ms));
        if (par) { a->setParallelType(ParallelType::OpenMP); a->setOmpThreadNum(threads); }
        a->setIsAutoselectIndepVars(true); a->setIndepVarSelectionThreshold(thr);
        try { B = a->fit(); } catch (const std::exception&) { if (zero == SIZE_MAX) throw; thrown = true; fitted = false; }
        list = a->indepVarsSelectionCriterionList(); sel = a->selectedVariables();
        W = orc::weightMat(k, D);
    }
    c.tag("real:" + cell); c.nontrivial = true; c.events += list.size();
    checkList(c, vars, list, key, c.desc);
    auto colsOf = [&](const Vars& v) { uvec u(v.size() + (icpt ? 1 : 0)); uword p = 0; if (icpt) u(p++) = 0; for (size_t x : v) u(p++) = x; return u; };
    bool tie = false;
    for (auto& p : list)
    {
        if (unsolvable(p.first)) { c.check(!(p.second < 1e300), key + "unsolvable", c.desc + fmt(" criterion %.12g", p.second)); c.tag("unsolvable:" + cell); continue; }
        mat xs = d.x.cols(colsOf(p.first)); mat Wq = alg == 3 && !opt ? W : mat(n, n, arma::fill::ones);
        orc::Gwr g = orc::gwr(xs, d.y, Wq, true);
        double v = orc::aicc(xs, d.y, g.betas, g.trS);
        if (g.cond > 1e9) { c.tag("real:ill-conditioned"); continue; }
        c.close(p.second, v, max(1e-7, 1e-12 * g.cond) * (fabs(v) + double(n)), key + "value", c.desc);
    }
    // greedy: best model of each level is the head of every model of the next
    for (size_t lev = 0, at = 0, k1 = vars.size(); lev + 1 < k1; lev++)
    {
        size_t cnt = k1 - lev; Vars best = list[at + cnt - 1].first;
        bool near = cnt > 1 && fabs(list[at + cnt - 2].second - list[at + cnt - 1].second) < 1e-7 * (1 + fabs(list[at].second));
        for (size_t j = 0; j + 1 < cnt; j++)
        {
            Vars h = list[at + cnt + j].first; h.pop_back();
            c.check(near || h == best, key + "greedy", c.desc + fmt(" level %d", int(lev)));
        }
        at += cnt;
    }
    if (vars.size() > 0 && list.size() > 0)
    {
        Vars want = expectSelect(list, thr, &tie);
        c.check(tie || sel == want, key + "threshold", c.desc);
        if (zero != SIZE_MAX && !tie && !(opt && thrown)) c.check(thrown == unsolvable(want), key + "unsolvable-selected", c.desc);
        if (alg != 2 && fitted && !unsolvable(sel))
        {
            double cond; mat xs = d.x.cols(colsOf(sel)); mat want2 = orc::wls(xs, d.y, W, &cond);
            if (cond < 1e9) c.closeM(B, want2, max(1e-8, 1e-12 * cond), key + "fit-on-selected", c.desc);
        }
    }
    // every evaluated model is announced
    auto lg = ms->logsWith("#variable-criterion ");
    size_t solved = 0; for (auto& p : list) solved += !unsolvable(p.first);
    if (alg != 3) c.check(lg.size() == solved + 1, key + "log-count", c.desc + fmt(" %d lines for %d models", int(lg.size()), int(list.size())));
}
void run_case(Case& c) { if (c.id % 3 == 0) synth(c); else real(c); }
