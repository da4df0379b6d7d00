// S01: no memory error, undefined behaviour, leak or use of uninitialised values
// (run under AddressSanitizer+UBSan+LeakSanitizer and under valgrind memcheck;
// the library's own bounds checks count as memory errors too)
#include "algos.h"
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#define UNDEFINED(p, n) VALGRIND_CHECK_MEM_IS_DEFINED(p, n)
#define ON_VG RUNNING_ON_VALGRIND
#else
#define UNDEFINED(p, n) 0
#define ON_VG 0
#endif
using namespace std; using namespace gwm;

static bool indexError(const string& m)
{
    static const char* pats[] = {"out of bounds", "incompatible matrix dimensions", "incompatible cube", "indices out", "dimensions", "not a valid size", "conversion", "vector::_M_range_check", "Mat::init", "index out"};
    for (auto p : pats) if (m.find(p) != string::npos) return true;
    return false;
}
static string go(Case& c, Box& b, Obj& o, bool hostile)
{
    string e;
    try
    {
        o.run();
        Out r = o.out();
        for (auto& p : r)
        {
            c.evals += p.second.n_elem;
            if (p.second.n_elem && UNDEFINED(p.second.memptr(), p.second.n_elem * sizeof(double)))
                c.fail(b.name + ":uninitialised:" + p.first, "result " + p.first + " contains uninitialised memory in " + c.desc);
        }
    }
    catch (const std::exception& x) { e = x.what(); }
    if (!hostile && indexError(e)) c.fail(b.name + ":index-error", "library's own bounds check fired: " + e + (hostile ? " (hostile settings)" : "") + " in " + c.desc);
    return e;
}
void run_case(Case& c)
{
    auto& names = boxNames(); string nm = names[size_t(c.id) % names.size()]; Rng& r = c.r;
    int lap = c.id / int(names.size());
    bool small = ON_VG || mode_of("small", 0);
    Box b = makeBox(nm, r, small ? r.i(16, 22) : r.i(20, 45));
    int kind = lap % 5;
    int nt = r.pick({2, 3, 5, 8}); if (ON_VG) { nt = 2; if (kind == 4) kind = 3; }
    c.desc = b.desc + fmt(" kind=%d threads=%d", kind, nt);
    if (kind == 0)          // serial, twice on the same object
    {
        Obj o = b.fresh(); string e = go(c, b, o, false), e2 = go(c, b, o, false); c.nontrivial = e.empty() && e2.empty(); c.tag("serial-twice:" + nm);
    }
    else if (kind == 1)     // threaded, with a listening telegram
    {
        Obj o = b.fresh(); auto st = make_shared<MonState>(); o.alg->setTelegram(tele(st)); if (!o.omped(nt)) { c.tag("no-threads:" + nm); }
        string e = go(c, b, o, false); c.nontrivial = e.empty(); c.tag("omp:" + nm); c.events += uint64_t(st->progs + st->stops + st->logs);
    }
    else if (kind == 2)     // cancelled somewhere, then run again
    {
        Obj o = b.fresh(); auto st = make_shared<MonState>(); bool om = r.b(); if (om) om = o.omped(nt);
        { Obj q = b.fresh(); q.alg->setTelegram(tele(st)); if (om) q.omped(nt); go(c, b, q, false); }
        long total = st->stops; auto s2 = make_shared<MonState>(); s2->stopAt = total > 0 ? long(r.next() % uint64_t(total)) : 0;
        o.alg->setTelegram(tele(s2)); go(c, b, o, false); c.events += uint64_t(s2->stops);
        auto s3 = make_shared<MonState>(); o.alg->setTelegram(tele(s3)); go(c, b, o, false);
        c.nontrivial = s2->stops > 0; c.tag(string("cancel:") + (om ? "omp:" : "serial:") + nm);
    }
    else                    // hostile but accepted settings
    {
        bool iterates = nm == "gwdr-bw" || nm.rfind("mgwr", 0) == 0;
        int how = iterates ? r.i(0, 5) : r.i(0, 3);
        if (how == 0) { b.c.k.adaptive = true; b.c.k.bw = double(r.i(1, 4)); for (auto& k : b.c.ks) { k.adaptive = true; k.bw = double(r.i(1, 4)); } }
        else if (how == 1) { b.c.k.adaptive = true; b.c.k.bw = double(b.d.y.n_elem) * r.u(1, 3); for (auto& k : b.c.ks) { k.adaptive = true; k.bw = double(b.d.y.n_elem) * r.u(1, 3); } }
        else if (how == 2) { b.c.k.adaptive = false; b.c.k.bw = 1e-9; for (auto& k : b.c.ks) { k.adaptive = false; k.bw = 1e-9; } }
        else if (how > 3) { b.c.iters = r.i(1, 4); how = 4; }   // gives up before converging
        else { for (uword i = 1; i < b.d.coords.n_rows; i += 2) b.d.coords.row(i) = b.d.coords.row(i - 1); if (b.d.x.n_cols > 2) b.d.x.col(2) = b.d.x.col(1); }
        c.desc = b.desc + fmt(" hostile=%d threads=%d", how, nt);
        Obj o = b.fresh(); bool om = kind == 4 && o.omped(nt);
        string e = go(c, b, o, true); c.nontrivial = true; c.tag(fmt("hostile%d:%s:", how, om ? "omp" : "serial") + nm); if (!e.empty()) c.tag("hostile-rejected:" + nm);
    }
}
