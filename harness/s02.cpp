// S02: no data race between the threads of a run (built with ThreadSanitizer)
#include "algos.h"
using namespace std; using namespace gwm;
void run_case(Case& c)
{
    auto& names = boxNames(); string nm = names[size_t(c.id) % names.size()]; Rng& r = c.r;
    int lap = c.id / int(names.size());
    Box b = makeBox(nm, r, r.i(18, 30));
    int nt = r.pick({2, 3, 4, 6});
    c.desc = b.desc + fmt(" threads=%d lap=%d", nt, lap);
    Obj o = b.fresh(); auto st = make_shared<MonState>(); st->record = false;
    int kind = lap % 4;
    if (kind == 3) { st->stopAt = r.i(1, 40); }
    if (kind == 2)
    {
        int how = r.i(0, 2);
        if (how == 0) { b.c.k.adaptive = true; b.c.k.bw = double(r.i(1, 4)); for (auto& k : b.c.ks) { k.adaptive = true; k.bw = double(r.i(1, 4)); } }
        else if (how == 1) { b.c.k.adaptive = false; b.c.k.bw = 1e-9; for (auto& k : b.c.ks) { k.adaptive = false; k.bw = 1e-9; } }
        else b.c.hat = false;
        o = b.fresh();
    }
    // the telegram of a threaded run is called from its threads: counters only
    if (kind == 3 || r.b(.7)) o.alg->setTelegram(tele(st));
    if (!o.omped(nt)) { c.tag("no-threads:" + nm); return; }
    string e; try { o.run(); Out q = o.out(); for (auto& p : q) c.evals += p.second.n_elem; } catch (const exception& x) { e = x.what(); }
    c.events += uint64_t(st->stops + st->progs);
    c.nontrivial = true; c.tag(fmt("%s:%s", nm.c_str(), kind == 3 ? "cancelled" : kind == 2 ? "hostile" : "plain"));
}
