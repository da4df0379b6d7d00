// C01: a stop request at any query ends the run promptly and cleanly, is reported
// in the status, and leaves the object usable
#include "algos.h"
#include <cstring>
using namespace std; using namespace gwm;
static string runOf(Obj& o, Out& r) { try { o.run(); r = o.out(); return ""; } catch (const std::exception& e) { return string("exception: ") + e.what(); } }
void run_case(Case& c)
{
    auto& names = boxNames(); string nm = names[size_t(c.id) % names.size()]; Rng& r = c.r;
    int lap = c.id / int(names.size());
    bool om = lap % 3 == 2; int nt = om ? r.pick({1, 2, 4}) : 1;
    Box b = makeBox(nm, r, r.i(16, 26));
    c.desc = b.desc + (om ? fmt(" threads=%d", nt) : " serial");
    Obj ref = b.fresh(); auto s0 = make_shared<MonState>(); ref.alg->setTelegram(tele(s0)); if (om) om = ref.omped(nt);
    Out want; string e0 = runOf(ref, want); long T = s0->stops, w0 = g_work;
    if (!e0.empty()) { c.tag("rejected:" + nm); return; }
    c.check(ref.alg->status() == Status::Success, nm + ":status-completed", "a completed run reports status Terminated in " + c.desc);
    if (T == 0) { c.tag("never-asks:" + nm); return; }
    // how much is computed between two queries: a few local models, except in the passes that only gather
    // weights or local R2 (at most one pass over the observations) and in multiscale's initial basic fit
    auto is = [&](const char* q) { return nm.compare(0, strlen(q), q) == 0; }; bool loc = nm.find("predict") != string::npos && !is("scalable");
    long pass = loc || is("basic") || is("lc") || is("gwss") || nm == "gwpca" ? 0 : is("mgwr") ? 60 : is("gwdr") ? 2 : 1;
    long gap = max(s0->maxGap.load(), s0->lastWork >= 0 ? w0 - s0->lastWork : 0), gb = pass * long(b.d.y.n_elem) + 4 * nt + 4;
    c.check(gap <= gb, nm + ":gap", fmt("%ld distance vectors computed without asking whether to stop (bound %ld) in ", gap, gb) + c.desc);
    string ways = om ? "omp:" : "serial:";
    // the first and last queries, and a sample of the others
    set<long> ks = {0, 1, 2, T - 1, T - 2};
    int want_k = c.tier == "quick" ? 14 : 60;
    for (int i = 0; i < want_k; i++) ks.insert(long(r.next() % uint64_t(T)));
    for (long k : ks)
    {
        if (k < 0 || k >= T) continue;
        auto st = make_shared<MonState>(); st->stopAt = k;
        Obj o = b.fresh(); o.alg->setTelegram(tele(st)); if (om) o.omped(nt);
        Out got; string e = runOf(o, got); c.events += uint64_t(st->stops);
        string at = fmt(" stop at query %ld of %ld in ", k, T) + c.desc;
        if (st->stops <= k) { c.tag("not-reached:" + nm); continue; }     // rounding in threaded runs may shorten a search
        c.tag(ways + nm + (k == 0 ? "/first" : k == T - 1 ? "/last" : k < T / 3 ? "/early" : k < 2 * T / 3 ? "/middle" : "/late"));
        c.nontrivial = true;
        c.check(e.empty(), nm + ":throws", e + " after" + at);
        c.check(o.alg->status() == Status::Terminated, nm + ":status", "status is not Terminated after" + at);
        long bound = 6 * long(b.d.y.n_elem) + 40;
        c.check(st->afterStop <= bound, nm + ":prompt", fmt("%ld further queries", st->afterStop.load()) + " after" + at);
        long work = g_work - st->workAtStop, wbound = 3 * nt + 3;
        c.check(work <= wbound, nm + ":work", fmt("%ld further distance vectors computed (bound %ld)", work, wbound) + " after" + at);
        c.worst = max(c.worst, double(work) / double(wbound));
        c.worst = max(c.worst, double(st->afterStop) / double(bound));
        for (auto& p : got) if (p.first == "predict")
            c.check(p.second.n_rows == want["predict"].n_rows && p.second.n_cols == want["predict"].n_cols, nm + ":shape", fmt("returned %dx%d instead of %dx%d", int(p.second.n_rows), int(p.second.n_cols), int(want["predict"].n_rows), int(want["predict"].n_cols)) + at);
        if (nm.find("-vars") != string::npos || nm == "gwdr-bw") continue;         // selection narrows the object's variables; this search starts from the stored bandwidths
        // the same object, no longer asked to stop, now completes with the usual results
        if (r.b(.5))
        {
            if (find(b.c.iv.begin(), b.c.iv.end(), 1) != b.c.iv.end()) o.conf(b.d, b.c);    // initial bandwidths given by the user move during the run
            auto s2 = make_shared<MonState>(); o.alg->setTelegram(tele(s2)); Out again; string e2 = runOf(o, again);
            if (nm == "gwdr-bw" && e2.find("Bandwidth optimization") != string::npos) continue;
            c.check(e2.empty(), nm + ":rerun", e2 + " when run again after" + at);
            if (e2.empty())
            {
                c.check(o.alg->status() == Status::Success, nm + ":rerun-status", "status still Terminated when run again after" + at);
                string wh, d = diffOut(want, again, om ? 1e-6 : 1e-9, &wh); c.evals++;
                c.check(d.empty(), nm + ":rerun-" + d, d + " " + wh + " (fresh vs run again) after" + at);
            }
        }
    }
    // the request made from within a progress report, as a user interface would
    long P = s0->progs; set<long> js = {0, P - 2}; for (int i = 0; i < want_k / 2; i++) js.insert(long(r.next() % uint64_t(max(1L, P))));
    for (long j : js)
    {
        if (j < 0 || j >= P) continue;
        auto st = make_shared<MonState>(); st->stopAtProg = j;
        Obj o = b.fresh(); o.alg->setTelegram(tele(st)); if (om) o.omped(nt);
        Out got; string e = runOf(o, got); string at = fmt(" stop during progress report %ld of %ld in ", j, P) + c.desc;
        if (!st->asked) continue;
        c.check(e.empty(), nm + ":throws", e + " after" + at);
        if (st->afterStop > 0) c.check(o.alg->status() == Status::Terminated, nm + ":status", "status is not Terminated after" + at);
        long pb = 2 * nt + 2; c.tag(ways + nm + "/in-progress");
        c.check(st->progAfter <= pb, nm + ":steps", fmt("%ld further steps reported (bound %ld)", st->progAfter.load(), pb) + " after" + at);
        c.worst = max(c.worst, double(st->progAfter) / double(pb));
    }
}
