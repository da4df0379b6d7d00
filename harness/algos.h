// One generic scenario per library capability, so that the cross-cutting monitors
// (memory, races, thread equivalence, cancellation, history, isolation, telegram)
// drive every algorithm through its public interface in the same way.
#pragma once
#include "common.h"

typedef std::map<std::string, cube> Out;
struct Cfg      // everything random about a scenario except the data
{
    Kern k; std::vector<Kern> ks; std::vector<Metric> ms;
    bool hat = true, a = false, b = false; int i = 0, j = 0; double u = 0, v = 0; vec times; mat locs; std::vector<std::string> group;
    std::vector<int> iv; bool raw = false; bool late = false; int iters = 0;  // iters: iteration limit (0: generous)
     // raw: predictors are not centred
    // late: choose threads before the criterion or mode
};
struct Obj
{
    std::shared_ptr<void> keep;
    gwm::Algorithm* alg = nullptr;
    gwm::IParallelizable* par = nullptr;
    gwm::IParallelOpenmpEnabled* omp = nullptr;
    std::function<void(const Data&, const Cfg&)> conf;   // (re)set all data and settings
    std::function<void()> run;          // the main operation (fit / predict / run)
    std::function<void()> other;        // another operation of the same object, if there is one
    std::function<Out()> out;           // every public result
    std::function<void()> crit; bool late = false;
    bool omped(int threads)             // returns whether threads were really selected
    {
        if (!par || !(par->parallelAbility() & gwm::ParallelType::OpenMP)) return false;
        par->setParallelType(gwm::ParallelType::OpenMP); if (omp) omp->setOmpThreadNum(threads); if (late && crit) crit(); return true;
    }
};
struct Box
{
    std::string name, desc; Data d; Cfg c; bool random = false;
    std::function<Obj(const Data&, const Cfg&)> make;
    Obj fresh() const { Obj o = make(d, c); o.late = c.late; return o; }
};
const std::vector<std::string>& boxNames();
Box makeBox(const std::string& name, Rng& r, int n);
// makes some local models unsolvable: a predictor that is zero throughout a group of places; false if the capability has none
bool makeBlind(Box& b, Rng& r);
// compare two result sets; returns "" or the name of the first differing result
std::string diffOut(const Out& a, const Out& b, double rtol, std::string* where, double* worst = nullptr);
double outScale(const cube& c);
bool outFinite(const Out& o);
