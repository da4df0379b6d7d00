// H01: the result of a run depends on the data and settings in force, not on what
// the object (or another object) did before
#include "algos.h"
using namespace std; using namespace gwm;
static string runOf(Obj& o, Out& r) { try { o.run(); r = o.out(); return ""; } catch (const std::exception& e) { return string("exception: ") + e.what(); } }
void run_case(Case& c)
{
    auto& names = boxNames(); string nm = names[size_t(c.id) % names.size()]; Rng& r = c.r;
    int lap = c.id / int(names.size());
    static const char* hist[] = {"same-again", "other-data", "other-mode", "other-operation", "failed-run", "cancelled-other-data", "interleaved"};
    int kind = lap % 7; string h = hist[kind];
    Box b = makeBox(nm, r, r.i(20, 40));
    Box a = makeBox(nm, r, r.i(20, 40));          // an unrelated data set and settings for the same capability
    a.c.j = b.c.j; if (nm == "gtwr-bw" || nm == "gwdr-bw" || nm.compare(0, 8, "scalable") == 0) a.c.i = b.c.i;
    if (r.b(.2)) a.c.hat = false; if (r.b(.2)) b.c.hat = false;
    a.c.locs = b.c.locs;
    bool narrows = nm.find("-vars") != string::npos, startsStored = nm == "gwdr-bw" || find(b.c.iv.begin(), b.c.iv.end(), 1) != b.c.iv.end();
    Obj f = b.fresh(); bool om = r.b(.3); int nt = r.pick({2, 3}); if (om) om = f.omped(nt);
    c.desc = b.desc + " history=" + h + (om ? " threaded" : " serial");
    Out want; string e0 = runOf(f, want);
    double tol = om ? 1e-6 : 1e-10;
    auto quiet = [](Obj& o) { auto s = make_shared<MonState>(); s->record = false; o.alg->setTelegram(tele(s)); };
    Obj o; bool reconf = true;
    if (kind == 0)
    {
        o = b.fresh(); if (om) o.omped(nt); Out t; runOf(o, t); reconf = narrows || startsStored || r.b();
    }
    else if (kind == 1) { o = a.fresh(); if (om) o.omped(nt); Out t; string e = runOf(o, t); if (e.empty()) c.tag("history-ran:" + nm); if (r.b(.3)) { o.conf(b.d, b.c); runOf(o, t); o.conf(a.d, a.c); runOf(o, t); } }
    else if (kind == 2)
    {
        o = b.fresh(); if (!o.par || !(o.par->parallelAbility() & ParallelType::OpenMP)) { c.tag("no-modes:" + nm); return; }
        if (om) o.par->setParallelType(ParallelType::SerialOnly); else o.omped(3);
        Out t; runOf(o, t); if (om) o.omped(nt); else o.par->setParallelType(ParallelType::SerialOnly);
        reconf = narrows || startsStored || r.b();
    }
    else if (kind == 3)
    {
        o = b.fresh(); if (!o.other) { c.tag("single-operation:" + nm); return; }
        if (om) o.omped(nt); try { o.other(); } catch (const exception&) {}
        Out t; if (r.b()) { runOf(o, t); if (narrows) o.conf(b.d, b.c); try { o.other(); } catch (const exception&) {} }
        reconf = narrows || startsStored;
    }
    else if (kind == 4)
    {
        // a run that fails: predictors that repeat each other (or coincident points)
        Box x = a; for (uword j = 1; j < x.d.x.n_cols; j++) x.d.x.col(j) = x.d.x.col(0); x.c.k.adaptive = true; x.c.k.bw = 2;
        o = x.fresh(); if (om) o.omped(nt); Out t; string e = runOf(o, t); c.tag((e.empty() ? "bad-run-passed:" : "bad-run-failed:") + nm);
    }
    else if (kind == 5)
    {
        o = a.fresh(); if (om) o.omped(nt); auto s = make_shared<MonState>(); s->stopAt = r.i(0, 60); s->record = false; o.alg->setTelegram(tele(s)); Out t; runOf(o, t); quiet(o);
    }
    else
    {
        // two objects configured from the same caller-owned data, used alternately
        o = b.fresh(); Obj p = b.fresh(), q = a.fresh(); if (om) { o.omped(nt); p.omped(nt); } Out t; runOf(p, t); runOf(q, t);
        p.conf(a.d, a.c); reconf = false; runOf(p, t);
    }
    if (reconf) o.conf(b.d, b.c);
    Out got; string e1 = runOf(o, got);
    c.check(e0.empty() == e1.empty(), nm + ":" + h + ":outcome", "fresh object: " + (e0.empty() ? "succeeds" : e0) + ", after history: " + (e1.empty() ? "succeeds" : e1) + " in " + c.desc);
    if (e0.empty() && e1.empty())
    {
        string wh, d = diffOut(want, got, tol, &wh, &c.worst); for (auto& p : want) c.evals += p.second.n_elem;
        c.check(d.empty(), nm + ":" + h + ":" + d, d + " " + wh + " (fresh vs after history) in " + c.desc + " earlier data " + a.desc);
        c.nontrivial = true; c.tag(h + ":" + nm);
    }
    else c.tag("rejected:" + nm);
}
