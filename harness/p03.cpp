// P03: a run computes on the threads it was asked for: serially on the caller's, with OpenMP on as many as set
#include "algos.h"
#include <omp.h>
using namespace std; using namespace gwm;
void run_case(Case& c)
{
    auto& names = boxNames(); string nm = names[size_t(c.id) % names.size()]; Rng& r = c.r; Box b = makeBox(nm, r, r.i(40, 70)); c.desc = b.desc; 
    g_watchThreads = true; auto run = [&](Obj& o) { threadWork(); try { o.run(); return string(); } catch (const exception& e) { string s = e.what(); return s.empty() ? string("?") : s; } };
    Obj s = b.fresh(); string e = run(s); auto w = threadWork(); c.check(w.size() <= 1, nm + ":serial", fmt("%d threads computed in a serial run: ", int(w.size())) + c.desc); for (long v : w) c.events += uint64_t(v); 
    if (!e.empty()) { c.tag("rejected:" + nm); return; }
    c.tag("serial:" + nm); c.nontrivial = true;
    // the local work of these is spread over the threads (generalised models and robust predictions compute all distances beforehand or serially)
    static const vector<string> spread = {"basic", "robust", "robust-filtered", "lc", "gtwr", "gwdr", "mgwr", "mgwr-auto", "gwss-avg", "gwss-corr", "gwda-lda", "gwda-qda", "basic-bw-cv", "basic-bw-aic", "basic-vars", "lc-bw", "basic-predict", "lc-predict"};
    omp_set_num_threads(9); size_t used = 0; bool few = nm.find("predict") != string::npos && b.c.locs.n_rows < 6; string at;
    for (int rep = 0; rep < 2; rep++)
    {
        int nt = r.i(2, 6); if (nt < 6 && r.b(.15)) nt = 1; if (rep && used < 2) nt = 4; Obj o = b.fresh(); if (!o.omped(nt)) { c.tag("no-threads:" + nm); return; }
        e = run(o); w = threadWork(); if (!e.empty()) { c.tag("rejected:" + nm); return; }
        long all = 0; for (long v : w) all += v; c.events += uint64_t(all); at = fmt("%d threads asked for, shares", nt); for (long v : w) at += fmt(" %.3f", double(v) / double(max(1l, all))); at += " in " + c.desc;
        c.check(int(w.size()) <= nt, nm + ":too-many", at); used = max(used, w.size());
        // the same object on other settings
        if (rep) { int t2 = r.i(0, 3); if (t2) o.omped(t2); else o.par->setParallelType(ParallelType::SerialOnly); e = run(o); w = threadWork(); if (e.empty()) { c.check(int(w.size()) <= max(1, t2), nm + ":after-change", fmt("%d threads computed after changing to %d: ", int(w.size()), t2) + c.desc); c.tag(t2 ? "changed-threads" : "back-to-serial"); } }
        if (!all) { c.tag("unobserved:" + nm); return; }
        c.tag("threads:" + nm); if (nt == 1) c.tag("one-thread");
    }
    if (!few && find(spread.begin(), spread.end(), nm) != spread.end()) { c.check(used >= 2, nm + ":not-spread", at); c.tag("spread:" + nm); }
}
