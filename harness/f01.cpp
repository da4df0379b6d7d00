// F01: a model that cannot be solved is reported by an exception the caller can
// catch, in every mode, never by a crash or by silently returning something
#include "algos.h"
using namespace std; using namespace gwm;
static string runOf(Obj& o, Out& r) { try { o.run(); r = o.out(); return ""; } catch (const std::exception& e) { return string("exception: ") + e.what(); } }
void run_case(Case& c)
{
    auto& names = boxNames(); string nm = names[size_t(c.id) % names.size()]; Rng& r = c.r;
    int lap = c.id / int(names.size()), kind = lap % 5;
    static const char* kinds[] = {"blind-predictor", "tiny-adaptive", "far-location", "dead-predictor", "nan-predictor"};
    int n = r.i(20, 40); Box b = makeBox(nm, r, n), good = b;
    bool pred = nm.find("predict") != string::npos, search = nm.find("-bw") != string::npos || nm.find("-vars") != string::npos || nm == "mgwr-auto" || nm == "gtwr-lambda";
    bool stat = nm.compare(0, 4, "gwss") == 0 || nm == "gwpca" || nm.compare(0, 4, "gwda") == 0, gwdr = nm.compare(0, 4, "gwdr") == 0;
    bool mustThrow = false;
    uword k = b.d.x.n_cols; (void)gwdr;
    if (kind == 0)
    {
        if (!makeBlind(b, r)) { c.tag("skipped:" + nm); return; }
        mustThrow = !stat && !search && nm.compare(0, 8, "scalable") != 0 && nm.compare(0, 2, "lc") != 0 && nm != "mgwr-auto";
        if (r.b(.3)) b.c.hat = good.c.hat = false;
    }
    else if (kind == 1) { b.c.k.adaptive = true; b.c.k.bw = r.u(.05, .95); for (auto& q : b.c.ks) { q.adaptive = true; q.bw = r.u(.05, .95); } mustThrow = !search; }
    else if (kind == 2)
    {
        if (!pred) { c.tag("skipped:" + nm); return; }
        if (b.d.metric.type == Metric::Geo) b.d.metric = Metric();
        b.c.k.adaptive = false; b.c.k.kernel = nm.compare(0, 8, "scalable") == 0 ? b.c.k.kernel : r.i(2, 4); if (nm.compare(0, 8, "scalable") == 0) { b.c.k.adaptive = true; }
        double sc = arma::abs(b.d.coords).max(); if (!b.c.k.adaptive) b.c.k.bw = 3 * sc;
        b.c.locs.row(uword(r.i(0, int(b.c.locs.n_rows) - 1))).fill(1e3 * sc);
        mustThrow = nm == "basic-predict" || nm == "robust-predict" || nm == "ggwr-predict";
    }
    else if (kind == 3)
    {
        if (k < 2 || stat) { c.tag("skipped:" + nm); return; }
        b.d.x.col(k - 1).zeros();   // no model with this predictor can be solved, whatever the bandwidth
        mustThrow = nm.find("-vars") == string::npos && nm.compare(0, 8, "scalable") != 0;
    }
    else { b.d.x(uword(r.i(0, n - 1)), k - 1) = arma::datum::nan; }
    c.desc = b.desc + " failure=" + kinds[kind] + fmt(" kernel=%d adaptive=%d bw=%g", b.c.k.kernel, int(b.c.k.adaptive), b.c.k.bw);
    Obj o = b.fresh();
    if (!o.alg->isValid()) { c.tag("invalid:" + nm); return; }
    for (int mode = 0; mode < 2; mode++)
    {
        Obj q = b.fresh(); int nt = r.pick({1, 2, 3, 5}); if (mode && !q.omped(nt)) break;
        if (r.b()) q.alg->setTelegram(tele(make_shared<MonState>()));
        Out w; string e = runOf(q, w); c.events++;
        string tg = string(kinds[kind]) + ":" + (mode ? "omp:" : "serial:") + nm;
        c.tag(tg); if (!e.empty()) c.tag("reported:" + tg);
        c.nontrivial = true;
        if (mustThrow) c.check(!e.empty(), nm + ":" + kinds[kind] + ":silent", string(mode ? fmt("threaded(%d)", nt) : "serial") + " run returned results for a model that cannot be solved: " + c.desc);
        else c.evals++;
        if (mode == 1) c.evals++;
        if (!e.empty() && r.b())
        {
            good.c.locs = b.c.locs; // the reported failure leaves the object usable
            q.conf(good.d, good.c); Obj f = good.fresh(); if (mode) f.omped(nt); Out want, got; string e0 = runOf(f, want), e1 = runOf(q, got); string wh, d;
            c.check(e0.empty() == e1.empty(), nm + ":after-failure:outcome", "after a reported failure: " + (e1.empty() ? "succeeds" : e1) + ", fresh object: " + (e0.empty() ? "succeeds" : e0) + " in " + c.desc);
            if (e0.empty() && e1.empty()) { d = diffOut(want, got, mode ? 1e-6 : 1e-10, &wh, &c.worst); c.check(d.empty(), nm + ":after-failure:" + d, d + " " + wh + " after a reported failure in " + c.desc); c.tag("recovered:" + nm); }
        }
    }
}
