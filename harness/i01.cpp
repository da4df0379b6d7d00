// I01: results follow the data, not their order, position, orientation or units
#include "algos.h"
#include <cstring>
#include <set>
using namespace std; using namespace gwm; using arma::uvec;
static string runOf(Obj& o, Out& r) { try { o.run(); r = o.out(); return ""; } catch (const std::exception& e) { return string("exception: ") + e.what(); } }
static double bits(double m) { return pow(2, ceil(log2(max(m, 1e-300))) - 30); }     // positions on this grid move exactly
void run_case(Case& c)
{
    auto& names = boxNames(); string nm = names[size_t(c.id) % names.size()]; Rng& r = c.r;
    int lap = c.id / int(names.size()), kind = lap % 7, n = r.i(16, 34);
    static const char* kinds[] = {"reorder", "shift", "mirror", "rescale", "response-units", "response-trend", "predictor-units"};
    auto is = [&](const char* q) { return nm.compare(0, strlen(q), q) == 0; }; auto skip = [&]() { c.tag(string("skipped:") + kinds[kind]); };
    Box b = makeBox(nm, r, n); uword N = b.d.coords.n_rows;
    bool sel = nm.find("-bw") != string::npos || nm.find("-vars") != string::npos || nm == "mgwr-auto" || nm == "gtwr-lambda", da = is("gwda");
    bool fixedBw = !b.c.k.adaptive; if (b.c.ks.size()) { fixedBw = false; for (auto& k : b.c.ks) fixedBw = fixedBw || !k.adaptive; }
    vector<Metric> ms = b.c.ms; if (ms.empty()) ms.push_back(b.d.metric);
    bool planar = true, plain = true, exact = true; for (auto& m : ms) { planar = planar && m.type != Metric::Geo; plain = plain && (m.type != Metric::Mink || m.theta == 0); exact = exact && m.type != Metric::Mink; }
    bool linear = (is("basic") || is("robust") || is("gtwr") || nm == "gwdr") && !sel;
    if (kind >= 1 && kind <= 3)
    {
        if (!planar || !plain || (kind == 3 && (!exact || (sel && fixedBw) || (is("gtwr") && !fixedBw)))) return skip();   // (future observations have a constant, huge distance)
        double q = bits(max(arma::abs(b.d.coords).max(), b.c.locs.n_elem ? arma::abs(b.c.locs).max() : 0));
        b.d.coords = arma::round(b.d.coords / q) * q; b.c.locs = arma::round(b.c.locs / q) * q;
        if (b.c.times.n_elem) { double t = bits(max(1e-9, b.c.times.max())); b.c.times = arma::round(b.c.times / t) * t; }
    }
    else if (kind >= 4) { if (!linear && !(kind == 4 && is("lc") && !sel)) return skip(); }
    if (kind == 2 && b.c.ms.empty() && b.d.metric.type == Metric::Euclid && !is("gtwr") && !is("gwdr") && !is("scalable") && r.b(.5))
    {
        // axis-aligned Minkowski metrics are symmetric as well
        b.d.metric.type = Metric::Mink; b.d.metric.p = r.pick({-1.0, 1.0, 1.5, 2.0, 3.0}); b.d.metric.theta = 0; b.desc += fmt(" metric replaced by minkowski p=%g", b.d.metric.p); exact = false;
    }
    Box t = b; uvec perm = arma::regspace<uvec>(0, N - 1), inv = perm; double f = 1; vec g; uword col = 0; double tol = 1e-8;
    if (kind == 0)
    {
        uword keep = da ? 6 : 0;        // (the order in which groups first appear names them)
        for (uword i = N - 1; i > keep; i--) swap(perm(i), perm(keep + uword(r.i(0, int(i - keep)))));
        t.d.coords = b.d.coords.rows(perm); t.d.x = b.d.x.rows(perm); if (b.d.y.n_elem) t.d.y = b.d.y(perm);
        if (b.c.times.n_elem) t.c.times = b.c.times(perm);
        if (b.c.group.size()) for (uword i = 0; i < N; i++) t.c.group[i] = b.c.group[perm(i)];
        tol = 1e-6;
    }
    else if (kind == 1)
    {
        for (uword j = 0; j < b.d.coords.n_cols; j++) { double s = bits(arma::abs(b.d.coords).max()) * pow(2, 30 + r.i(0, 6)) * r.pick({-3, -1, 1, 5}); t.d.coords.col(j) += s; if (j < t.c.locs.n_cols) t.c.locs.col(j) += s; }
        if (b.c.times.n_elem) t.c.times += bits(max(1e-9, b.c.times.max())) * pow(2, 31);
    }
    else if (kind == 2) { uword j = uword(r.i(0, int(b.d.coords.n_cols) - 1)); t.d.coords.col(j) *= -1; if (j < t.c.locs.n_cols) t.c.locs.col(j) *= -1; }
    else if (kind == 3)
    {
        f = pow(2, r.pick({-7, -2, 3, 9})); t.d.coords *= f; t.c.locs *= f; t.c.times *= f; if (!t.c.k.adaptive) t.c.k.bw *= f; for (auto& k : t.c.ks) if (!k.adaptive) k.bw *= f;
    }
    else if (kind == 4) { f = pow(2, r.pick({-6, -1, 2, 8})) * r.pick({-1, 1}); t.d.y *= f; }
    else if (kind == 5) { g = vec(b.d.x.n_cols); for (auto& v : g) v = r.u(-3, 3); t.d.y += b.d.x * g; tol = 1e-6; }
    else { col = uword(r.i(b.d.intercept ? 1 : 0, int(b.d.x.n_cols) - 1)); if (col >= b.d.x.n_cols) return skip(); f = pow(2, r.pick({-4, -1, 2, 5})); t.d.x.col(col) *= f; tol = 1e-6; }
    int nt = r.pick({0, 0, 2, 3}); Obj o1 = b.fresh(), o2 = t.fresh(); if (nt) { o1.omped(nt); o2.omped(nt); tol = 1e-6; }
    c.desc = b.desc + fmt(" transformation=%s f=%g threads=%d", kinds[kind], f, nt);
    Out x, y; string e1 = runOf(o1, x), e2 = runOf(o2, y);
    if (!e1.empty() && !e2.empty()) { c.tag("rejected:" + nm); return; }
    if (sel && e1.empty() != e2.empty()) { c.tag("borderline:" + nm); return; }
    c.check(e1.empty() && e2.empty(), nm + ":" + kinds[kind] + ":outcome", "original: " + (e1.empty() ? "succeeds" : e1) + ", transformed: " + (e2.empty() ? "succeeds" : e2) + " in " + c.desc);
    if (!e1.empty() || !e2.empty()) return;
    // what the transformed run must give, from the original results
    static const set<string> whole = {"bw", "bwlist", "varlist", "vars", "diag", "par", "glm", "rate", "shat"};
    auto per = [&](const string& k) { return !whole.count(k) && (k != "predict" || nm == "gtwr-predict"); };
    if (kind == 0) for (auto& p : x)
    {
        cube& v = p.second; if (!per(p.first)) continue;
        if (v.n_rows == 1 && v.n_cols == N && N > 1) { mat m = v.slice(0).cols(perm); v = cube(1, N, 1); v.slice(0) = m; continue; }
        if (v.n_rows != N) continue;
        bool sq = p.first == "S" && v.n_cols == N;
        for (uword s = 0; s < v.n_slices; s++) { mat m = v.slice(s).rows(perm); if (sq) m = m.cols(perm); v.slice(s) = m; }
    }
    auto scaleDiag = [&](double s2) { if (!x.count("diag")) return; cube& v = x["diag"]; v(0, 0, 0) *= s2; for (uword i = 1; i < 3; i++) v(i, 0, 0) += double(N) * log(s2); };
    if (kind == 3 && x.count("bw") && !sel) { cube& v = x["bw"]; if (b.c.ks.empty()) { if (fixedBw) v *= f; } else for (uword j = 0; j < v.n_cols; j++) if (!b.c.ks[j].adaptive) v(0, j, 0) *= f; }
    if (kind == 4) { for (const char* k : {"betas", "predict"}) if (x.count(k)) x[k] *= f; if (x.count("se")) x["se"] *= fabs(f); scaleDiag(f * f); }
    if (kind == 5) { for (const char* k : {"betas", "predict"}) if (x.count(k)) for (uword i = 0; i < x[k].n_rows; i++) for (uword j = 0; j < g.n_elem; j++) x[k](i, j, 0) += g(j); x.erase("diag"); y.erase("diag"); }
    if (kind == 6) for (const char* k : {"betas", "predict", "se"}) if (x.count(k) && x[k].n_cols > col) for (uword i = 0; i < x[k].n_rows; i++) x[k](i, col, 0) /= f;
    for (auto* q : {&x, &y}) if (q->count("loadings")) (*q)["loadings"] = arma::abs((*q)["loadings"]);
    if (sel)
    {
        string wh; Out p1, p2; for (const char* k : {"bw", "vars"}) if (x.count(k)) { p1[k] = x[k]; p2[k] = y[k]; }
        if (nm == "gtwr-lambda" || !diffOut(p1, p2, 1e-10, &wh).empty()) { c.tag("search-differs:" + nm); return; }      // near-ties of the criterion
        for (const char* k : {"bwlist", "varlist"}) { x.erase(k); y.erase(k); }
    }
    for (auto& p : x) c.events += p.second.n_elem;
    string wh, d = diffOut(x, y, tol, &wh, &c.worst); c.evals += 4; c.nontrivial = true; c.tag(string(kinds[kind]) + ":" + nm);
    c.check(d.empty(), nm + ":" + kinds[kind] + ":" + d, d + " " + wh + " (expected vs transformed run) in " + c.desc);
}
