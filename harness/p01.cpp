// P01: multithreaded runs give the serial results, for every algorithm and thread count
#include "algos.h"
using namespace std; using namespace gwm;

static string runOf(Obj& o, Out& r) { try { o.run(); r = o.out(); return ""; } catch (const std::exception& e) { return string("exception: ") + e.what(); } }
void run_case(Case& c)
{
    auto& names = boxNames(); string nm = names[size_t(c.id) % names.size()];
    int lap = c.id / int(names.size());
    Rng& r = c.r;
    bool crowd = lap % 6 == 5;       // more threads than observations
    Box b = makeBox(nm, r, crowd ? r.i(16, 30) : r.i(30, lap % 25 == 9 ? 300 : lap % 5 == 4 ? 120 : 60));
    bool blind = lap % 6 == 4 && makeBlind(b, r); if (blind) { b.desc += " some local models cannot be solved"; }
    if (blind && r.b(.4)) { b.c.hat = false; b.desc += " hat=0"; }
    c.desc = b.desc;
    if (!b.fresh().omped(2)) { c.tag("no-threads:" + nm); return; }
    Out ref; Obj s = b.fresh(); string es = runOf(s, ref);
    auto pickT = [&] { return crowd ? r.i(10, 40) : r.i(1, 9); };
    int nt = lap % 3 == 0 ? 2 : pickT();
    for (int k = 0; k < 2; k++)
    {
        Obj o = b.fresh(); auto st = make_shared<MonState>(); st->record = false; o.alg->setTelegram(tele(st));
        o.omped(nt); Out got; string eo = runOf(o, got);
        c.events += uint64_t(st->progs + st->stops);
        c.desc = b.desc + fmt(" threads=%d", nt);
        if (nm == "gwdr-bw" && (es.find("Bandwidth optimization") != string::npos || eo.find("Bandwidth optimization") != string::npos)) { c.tag("gwdr-bw/not-converged"); return; }   // simplex iteration limit: depends on rounding
        c.check(es.empty() == eo.empty(), nm + ":outcome", "serial: " + (es.empty() ? "succeeds" : es) + ", threaded: " + (eo.empty() ? "succeeds" : eo) + " in " + c.desc);
        if (es.empty() && eo.empty())
        {
            // the simplex search compares criterion values, so rounding may lead it to another of several (near) ties; M07 judges every candidate of both modes against the definition
            if (nm == "gwdr-bw" && ref.count("bw") && got.count("bw") && ref["bw"].n_elem == got["bw"].n_elem && arma::any(arma::vectorise(arma::abs(ref["bw"] - got["bw"])) > 1e-7 * (1 + arma::vectorise(arma::abs(ref["bw"]))))) { c.tag("gwdr-bw/other-optimum"); nt = pickT(); continue; }
            if (!b.c.hat) { ref.erase("S"); got.erase("S"); }     // a placeholder without the hat matrix
            string wh, d = diffOut(ref, got, 1e-7, &wh, &c.worst);
            c.check(d.empty(), nm + ":" + (d.empty() ? "x" : d), d + " " + wh + " (serial vs threaded) in " + c.desc);
            for (auto& p : ref) c.evals += p.second.n_elem;
            c.nontrivial = true; c.tag(nm + fmt("/t%s", nt == 1 ? "1" : nt <= 4 ? "2-4" : nt <= 9 ? "5-9" : "10+"));
        }
        else c.tag(nm + (blind ? "/rejected-blind" : "/rejected"));
        nt = pickT();
    }
}
