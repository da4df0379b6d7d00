// K03: weighting schemes, weights and distances are values: copies are equal and
// independent, sources stay untouched, algorithms do not alter what they were given
#include "algos.h"
using namespace std; using namespace gwm;

struct DM   // model of a distance object
{
    int kind = 0; Metric m; double lambda = 0, angle = -1; bool param = false; mat fp, dp; vec tf, td;
    vec at(uword i) const
    {
        auto one = [&](const vec& f, const vec& d, bool ab) { vec v = f(i) - d; return ab ? vec(arma::abs(v)) : v; };
        if (kind == 2) return one(tf, td, true);
        vec s(dp.n_rows); for (uword j = 0; j < dp.n_rows; j++) s(j) = orc::dist(m, fp(i, 0), fp(i, 1), dp(j, 0), dp(j, 1));
        if (kind < 2) return s;
        vec t = one(tf, td, lambda == 1), o(s.n_elem);
        for (uword j = 0; j < s.n_elem; j++)
        {
            double cs = angle < 0 ? 1.0 : cos(atan(tan(angle)));
            o(j) = t(j) < 0 ? 1e13 : lambda * s(j) + (1 - lambda) * t(j) + 2 * sqrt(lambda * (1 - lambda) * s(j) * t(j)) * cs;
        }
        return o;
    }
    uword foci() const { return kind == 2 ? tf.n_elem : fp.n_rows; }
};
static unique_ptr<Distance> mk(const DM& d)
{
    if (d.kind < 2) return mkDist(d.m);
    if (d.kind == 2) return make_unique<OneDimDistance>();
    auto s = mkDist(d.m); OneDimDistance t;
    return d.angle < 0 ? unique_ptr<Distance>(new CRSSTDistance(s.get(), &t, d.lambda)) : unique_ptr<Distance>(new CRSSTDistance(s.get(), &t, d.lambda, d.angle));
}
static void param(Distance* p, DM& d, Rng& r)
{
    uword n = uword(r.i(2, 12)), m = d.kind == 3 ? n : uword(r.i(2, 12));
    auto pts = [&](uword k) { mat q(k, 2); for (auto& v : q) v = r.u(d.m.type == Metric::Geo ? -80 : -10, d.m.type == Metric::Geo ? 80 : 10); return q; };
    auto tm = [&](uword k) { vec q(k); for (auto& v : q) v = r.i(0, 6); return q; };
    d.fp = pts(m); d.dp = pts(n); d.tf = tm(m); d.td = tm(n); d.param = true;
    if (d.kind < 2) p->makeParameter({ d.fp, d.dp }); else if (d.kind == 2) p->makeParameter({ d.tf, d.td }); else p->makeParameter({ d.fp, d.dp, d.tf, d.td });
}
static DM genD(Rng& r)
{
    DM d; d.kind = r.i(0, 3); int t = d.kind == 1 ? 2 : d.kind == 0 ? r.i(0, 1) : r.i(0, 1);
    d.m.type = Metric::T(t); if (t == 2) { d.m.p = r.pick({-1.0, 1.0, 1.5, 3.0}); d.m.theta = r.pick({0.0, .4}); }
    if (d.kind == 3) { d.lambda = r.pick({0.0, .05, .5, 1.0}); d.angle = r.b() ? -1 : r.u(.1, 1.4); }
    return d;
}
static Kern genK(Rng& r) { Kern k; k.adaptive = r.b(); k.kernel = r.i(0, 4); k.bw = k.adaptive ? r.u(1, 14) : r.u(.5, 12); return k; }
struct Slot { shared_ptr<SpatialWeight> sw; bool hasK = false, hasD = false; Kern k; DM d; };

static bool verify(Case& c, Slot& s, const string& op)
{
    bool ok = true;
    ok &= c.check(s.sw->isValid() == (s.hasK && s.hasD), "valid", "isValid() wrong after " + op + " in " + c.desc);
    if (s.hasK)
    {
        auto w = s.sw->weight<BandwidthWeight>();
        ok &= c.check(w && w->bandwidth() == s.k.bw && w->adaptive() == s.k.adaptive && int(w->kernel()) == s.k.kernel, "weight-settings", "weight settings changed after " + op + " in " + c.desc);
    }
    if (s.hasK && s.hasD && s.d.param)
        for (uword i : {uword(0), s.d.foci() - 1})
        {
            vec want = s.d.at(i), dd = s.sw->distance()->distance(i), w = s.sw->weightVector(i), ww = orc::weights(s.k, want);
            ok &= c.check(dd.n_elem == want.n_elem && w.n_elem == want.n_elem, "size", "wrong number of weights after " + op + " in " + c.desc); if (!ok) return false;
            for (uword j = 0; j < want.n_elem; j++)
            {
                double tol = (s.d.m.type == Metric::Geo ? 1e-6 : 1e-9) * max(1.0, fabs(want(j)));
                ok &= c.check(fabs(dd(j) - want(j)) <= tol, "distance", fmt("distance(%d)[%d] = %.17g, expected %.17g after %s in %s", int(i), int(j), dd(j), want(j), op.c_str(), c.desc.c_str()));
                if (orc::kernBw(s.k, want) > 1e-9 && fabs(orc::kernBw(s.k, want) - fabs(want(j))) > 10 * tol) ok &= c.check(fabs(w(j) - ww(j)) <= 1e-5 || (std::isnan(w(j)) && std::isnan(ww(j))), "weight", fmt("weight(%d)[%d] = %.17g, expected %.17g after %s in %s", int(i), int(j), w(j), ww(j), op.c_str(), c.desc.c_str()));
            }
        }
    return ok;
}
static void history(Case& c)
{
    Rng& r = c.r; vector<Slot> v; string log; vector<pair<BandwidthWeight, Kern>> ws; vector<pair<shared_ptr<Distance>, DM>> ds;
    auto addW = [&]() { Kern k = genK(r); ws.push_back({mkBw(k), k}); };
    auto addD = [&]() { DM d = genD(r); shared_ptr<Distance> p = mk(d); if (r.b(.7)) param(p.get(), d, r); ds.push_back({p, d}); };
    addW(); addD(); v.push_back({make_shared<SpatialWeight>()});
    int steps = r.i(15, 40); c.desc = fmt("history of %d operations", steps);
    for (int q = 0; q < steps; q++)
    {
        size_t a = size_t(r.i(0, int(v.size()) - 1)), b = size_t(r.i(0, int(v.size()) - 1)), wi = size_t(r.i(0, int(ws.size()) - 1)), di = size_t(r.i(0, int(ds.size()) - 1));
        string op; int o = r.i(0, 17);
        switch (o)
        {
        case 0: op = "construct(pointers)"; v.push_back({make_shared<SpatialWeight>(&ws[wi].first, ds[di].first.get()), true, true, ws[wi].second, ds[di].second}); break;
        case 1: op = "construct(references)"; v.push_back({make_shared<SpatialWeight>(ws[wi].first, *ds[di].first), true, true, ws[wi].second, ds[di].second}); break;
        case 2: { op = "copy construct"; Slot s = v[a]; s.sw = make_shared<SpatialWeight>(*v[a].sw); v.push_back(s); break; }
        case 3: { op = "copy assign"; *v[b].sw = *v[a].sw; auto k = v[b].sw; v[b] = Slot(v[a]); v[b].sw = k; break; }
        case 4: { op = "move construct"; Slot s = v[a]; s.sw = make_shared<SpatialWeight>(std::move(*v[a].sw)); v[a].hasK = v[a].hasD = false; v.push_back(s); break; }
        case 5: { op = "move assign"; if (a == b) break; *v[b].sw = std::move(*v[a].sw); auto k = v[b].sw; v[b] = Slot(v[a]); v[b].sw = k; v[a].hasK = v[a].hasD = false; break; }
        case 6: op = "setWeight(reference)"; v[a].sw->setWeight(ws[wi].first); v[a].k = ws[wi].second; v[a].hasK = true; break;
        case 7: op = "setWeight(temporary)"; { Kern k = genK(r); v[a].sw->setWeight(mkBw(k)); v[a].k = k; v[a].hasK = true; } break;
        case 8: op = "setDistance(pointer)"; v[a].sw->setDistance(ds[di].first.get()); v[a].d = ds[di].second; v[a].hasD = true; break;
        case 9: op = "setDistance(reference)"; v[a].sw->setDistance(*ds[di].first); v[a].d = ds[di].second; v[a].hasD = true; break;
        case 10: op = "setWeight(own)"; v[a].sw->setWeight(v[a].sw->weight()); if (v[a].hasD) v[a].sw->setDistance(v[a].sw->distance()); break;
        case 11: op = "make parameters in place"; if (v[a].hasD) param(v[a].sw->distance(), v[a].d, r); break;
        case 12: op = "change weight in place"; if (v[a].hasK) { Kern k = genK(r); auto w = v[a].sw->weight<BandwidthWeight>(); w->setBandwidth(k.bw); w->setAdaptive(k.adaptive); w->setKernel(BandwidthWeight::KernelFunctionType(k.kernel)); v[a].k = k; } break;
        case 13: op = "make parameters of the source"; param(ds[di].first.get(), ds[di].second, r); break;
        case 14: op = "change the source weight"; { Kern k = genK(r); ws[wi].first.setBandwidth(k.bw); ws[wi].first.setAdaptive(k.adaptive); ws[wi].first.setKernel(BandwidthWeight::KernelFunctionType(k.kernel)); ws[wi].second = k; } break;
        case 15: op = "new sources"; addW(); addD(); if (ds.size() > 3) { ds.erase(ds.begin()); ws.erase(ws.begin()); } break;
        case 16: { op = "clone of the source distance"; shared_ptr<Distance> p(ds[di].first->clone()); ds.push_back({p, ds[di].second}); if (r.b()) param(ds[di].first.get(), ds[di].second, r); break; }
        default: op = "drop"; if (v.size() > 1) v.erase(v.begin() + long(a));
        }
        c.events++; c.tag("op:" + op); log += op + "; ";
        for (auto& s : v) if (!verify(c, s, log)) return;
        // the sources themselves
        for (auto& w : ws) c.check(w.first.bandwidth() == w.second.bw && w.first.adaptive() == w.second.adaptive, "source-weight", "source weight altered after " + log);
        for (auto& d : ds) if (d.second.param) { vec g = d.first->distance(0), e = d.second.at(0); c.check(g.n_elem == e.n_elem && arma::approx_equal(g, e, "both", 1e-6, 1e-6), "source-distance", "source distance altered after " + log); }
        if (v.size() > 8) v.erase(v.begin());
    }
    c.nontrivial = true;
}
// algorithms leave the caller's objects alone and are not affected by later changes to them
static void inputs(Case& c)
{
    Rng& r = c.r; auto& names = boxNames(); string nm = names[size_t(r.i(0, int(names.size()) - 1))];
    Box b = makeBox(nm, r, r.i(20, 36)); c.desc = b.desc + " inputs";
    Box keep = b;       // deep copy of data and settings
    Obj o = b.fresh(); Out w1, w2; string e1, e2;
    auto go = [](Obj& q, Out& w) { try { q.run(); w = q.out(); return string(); } catch (const exception& e) { return string(e.what()); } };
    Obj p = b.fresh();                       // configured from the same objects, not run yet
    e1 = go(o, w1);
    bool same = arma::approx_equal(b.d.x, keep.d.x, "absdiff", 0) && arma::approx_equal(b.d.y, keep.d.y, "absdiff", 0) && arma::approx_equal(b.d.coords, keep.d.coords, "absdiff", 0);
    c.check(same, nm + ":data-changed", "caller's data changed by a run of " + c.desc);
    b.d.x.fill(arma::datum::nan); b.d.y.fill(0); b.d.coords.fill(0);       // the caller reuses its buffers
    e2 = go(p, w2);
    c.check(e1.empty() == e2.empty(), nm + ":outcome", "second object: " + e2 + " first: " + e1 + " in " + c.desc);
    if (e1.empty() && e2.empty()) { string wh, d = diffOut(w1, w2, 1e-12, &wh); c.check(d.empty(), nm + ":shared-state", d + " " + wh + " two objects with the same inputs differ in " + c.desc); c.nontrivial = true; c.tag("inputs:" + nm); }
}
void run_case(Case& c) { if (c.id % 3 == 2) inputs(c); else history(c); }
