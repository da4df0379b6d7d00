// T01: progress reports stay within their totals, cover every step, stay inside the run and never change a result
#include "algos.h"
using namespace std; using namespace gwm;
void run_case(Case& c)
{
    Rng& r = c.r; auto& nm = boxNames(); string name = nm[size_t(c.id) % nm.size()]; Box b = makeBox(name, r, r.i(24, 40)); c.desc = b.desc;
    int mode = (c.id / int(nm.size())) % 3; // 0 serial, 1 threads, 2 cancelled
    Obj o = b.fresh(), quiet = b.fresh(); int th = r.i(2, 5); bool omp = mode == 1 || (mode == 2 && r.b()); if (omp) { omp = o.omped(th); quiet.omped(th); }
    string cell = name + (omp ? "/omp" : "/serial"); auto mon = make_shared<MonState>(); o.alg->setTelegram(tele(mon));
    int runs = mode == 2 ? 1 : r.i(1, 2); if (name.find("vars") != string::npos || name == "gwdr-bw") runs = 1; // a selection changes the predictors of the object
    if (mode == 2) mon->stopAt = r.i(0, 60);
    c.desc += fmt(" %s threads=%d runs=%d stop=%ld", cell.c_str(), omp ? th : 1, runs, mon->stopAt);
    Out want; try { quiet.run(); want = quiet.out(); } catch (const exception& e) { c.tag("skip:search-failed"); return; }
    for (int k = 0; k < runs; k++)
    {
        { lock_guard<mutex> g(mon->m); mon->ev.clear(); }
        o.run(); size_t before = mon->ev.size(); long stops = mon->stops; 
        Out got = o.out(); c.check(mon->ev.size() == before && mon->stops == stops, cell + ":after-the-run", c.desc + fmt(" %d reports from reading results", int(mon->ev.size() - before)));
        bool whole = o.alg->status() == Status::Success; if (mode == 2 && !whole) c.tag("cancelled:" + name);
        map<double, map<double, int>> cnt; double prev = 0, prevTot = 0; bool backwards = false; int nq = 0; string firstBad;
        for (auto& e : mon->ev)
        {
            c.events++;
            if (e.kind == 'P')
            {
                c.check(e.a >= 0 && e.a <= e.b && e.b > 0, cell + ":range", c.desc + fmt(" step %g of %g", e.a, e.b)); cnt[e.b][e.a]++;
                if (prevTot == e.b && e.a < prev && e.a > 1) { backwards = true; firstBad = fmt("%g after %g of %g", e.a, prev, e.b); } prev = e.a; prevTot = e.b;
            }
            else if (e.kind == 'Q') { nq++; c.check(isfinite(e.a) && e.a >= 0 && e.a <= 1, cell + ":percent", c.desc + fmt(" share %.17g", e.a)); }
            else if (e.kind == 'L') { prevTot = 0; c.check(!e.text.empty() && e.a >= 0 && e.a <= 7, cell + ":message", c.desc); }
        }
        if (!omp) c.check(!backwards, cell + ":order", c.desc + " " + firstBad);
        if (whole)
        {
            for (auto& q : cnt) { double miss = 0; for (double v = 1; v <= q.first; v++) if (!q.second.count(v)) { miss = v; break; } 
                if (name.find("vars") != string::npos && q.second.size() < 8 && q.first < 30) { c.tag("selection-counter"); continue; } // a selection may end before its upper limit of models
                c.check(miss == 0, cell + ":steps", c.desc + fmt(" step %g of %g was never reported", miss, q.first));
                int lo = 1 << 30, hi = 0; for (auto& z : q.second) if (z.first >= 1) { lo = min(lo, z.second); hi = max(hi, z.second); } if (name.compare(0, 8, "scalable")) c.check(lo == hi, cell + ":once", c.desc + fmt(" steps of %g reported between %d and %d times", q.first, lo, hi)); }
            c.tag(cnt.empty() ? "silent:" + cell : "counted:" + cell); if (nq) c.tag("shares:" + cell);
            string w; double ww = 0; if (k == 0) { string d = diffOut(got, want, omp ? 1e-9 : 0, &w, &ww); c.check(d.empty(), cell + ":result-changed", c.desc + " " + d + " " + w); }
            c.nontrivial = !mon->ev.empty();
        }
    }
    o.alg->setTelegram(tele(make_shared<MonState>())); // the old one is destroyed once
    c.check(mon.use_count() == 1, cell + ":owner", c.desc + fmt(" %ld owners", mon.use_count()));
}
