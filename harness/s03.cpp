// S03: separate algorithm objects run at the same time on different threads: no data race (ThreadSanitizer build), and
// each gives what it gives alone
#include "algos.h"
#include <thread>
using namespace std; using namespace gwm;
struct Job { string nm; Box b; int nt = 0; bool cancel = false; int reps = 1; Out want, got; string e0, e1; long progs0 = 0, progs1 = 0, stops0 = 0, stops1 = 0; bool stopped = false, constructInside = true; Obj o; shared_ptr<MonState> st; };
static void go(Job& j, Out& out, string& e, long& progs, long& stops, Obj& o)
{
    for (int k = 0; k < j.reps; k++)
    {
        auto s = make_shared<MonState>(); s->record = false; if (j.cancel) s->stopAt = 7;
        if (k) o = j.b.fresh();
        o.alg->setTelegram(tele(s)); if (j.nt) o.omped(j.nt);
        out.clear(); e.clear();
        try { o.run(); out = o.out(); } catch (const std::exception& x) { e = x.what(); }
        progs = long(s->progs); stops = long(s->stops);
    }
}
void run_case(Case& c)
{
    auto& names = boxNames(); Rng& r = c.r; int lap = c.id / int(names.size());
    size_t m = size_t(r.i(2, 4)); vector<Job> js(m);
    bool same = lap % 3 == 2;      // several objects of one kind, some on the very same caller-owned data
    for (size_t q = 0; q < m; q++)
    {
        Job& j = js[q];
        j.nm = q == 0 || same ? names[size_t(c.id) % names.size()] : names[size_t(r.i(0, int(names.size()) - 1))];
        if (same && q && r.b()) j.b = js[0].b; else j.b = makeBox(j.nm, r, r.i(18, 36));
        if (r.b(.3)) j.nt = r.pick({2, 3});
        j.cancel = q > 0 && r.b(.2); j.reps = r.pick({1, 1, 2}); j.constructInside = r.b(.7);
        c.desc += (q ? " || " : "") + j.b.desc + fmt(" threads=%d cancel=%d reps=%d", j.nt, int(j.cancel), j.reps);
    }
    for (auto& j : js) { Obj o = j.b.fresh(); go(j, j.want, j.e0, j.progs0, j.stops0, o); if (!j.constructInside) j.o = j.b.fresh(); }
    atomic<int> ready{0}; vector<thread> th;
    for (auto& j : js) th.emplace_back([&j, &ready, m] {
        ready.fetch_add(1, memory_order_relaxed); while (ready.load(memory_order_relaxed) < int(m)) std::this_thread::yield();
        if (j.constructInside) { Obj o = j.b.fresh(); go(j, j.got, j.e1, j.progs1, j.stops1, o); } else go(j, j.got, j.e1, j.progs1, j.stops1, j.o);
    });
    for (auto& t : th) t.join();
    for (auto& j : js)
    {
        c.events += uint64_t(j.progs1 + j.stops1);
        if (j.cancel) { c.tag("cancelled-beside:" + j.nm); if (j.nt == 0) c.check(j.stops0 == j.stops1 && j.progs0 == j.progs1, j.nm + ":cancelled-telegram", c.desc); continue; }
        c.check(j.e0.empty() == j.e1.empty(), j.nm + ":outcome", "alone: " + (j.e0.empty() ? "succeeds" : j.e0) + ", beside others: " + (j.e1.empty() ? "succeeds" : j.e1) + " in " + c.desc);
        if (!j.e0.empty() || !j.e1.empty()) { c.tag("rejected:" + j.nm); continue; }
        if (j.nt == 0) c.check(j.progs0 == j.progs1 && j.stops0 == j.stops1, j.nm + ":telegram", fmt("alone %ld reports %ld queries, beside others %ld and %ld in ", j.progs0, j.stops0, j.progs1, j.stops1) + c.desc);
        string wh, d = diffOut(j.want, j.got, j.nt ? 1e-6 : 1e-10, &wh, &c.worst); for (auto& p : j.want) c.evals += p.second.n_elem;
        c.check(d.empty(), j.nm + ":" + d, d + " " + wh + " (alone vs beside others) in " + c.desc);
        c.nontrivial = true; c.tag(j.nm + (j.nt ? ":omp" : ":serial")); c.tag(same ? "same-kind" : "mixed");
    }
}
