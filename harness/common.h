// Shared support for every monitor binary: deterministic random source, case
// bookkeeping, recording telegram, reference ("oracle") arithmetic.  Uses the
// library only through its public headers.
#pragma once
#include <atomic>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include <armadillo>
#include "gwmodel.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/GWDA.h"

typedef arma::uword uword;
using arma::mat; using arma::vec; using arma::rowvec; using arma::cube; using arma::uvec;

// ---------------------------------------------------------------- random
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { for (int i = 0; i < 4; i++) next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    double u() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double a, double b) { return a + (b - a) * u(); }
    int i(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }   // inclusive
    bool b(double p = 0.5) { return u() < p; }
    double n()
    {
        double a = u(), c = u();
        if (a < 1e-300) a = 1e-300;
        return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * c);
    }
    template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + i(0, int(l.size()) - 1)); }
};

// ---------------------------------------------------------------- cases
struct Violation { std::string key, msg; };
struct Case
{
    std::string prop; uint64_t seed; int id; std::string tier; Rng r;
    std::string desc;                       // human readable description of the case
    std::set<std::string> tags;             // coverage tags (configuration cells reached)
    uint64_t evals = 0;                     // monitor evaluations (single comparisons)
    uint64_t events = 0;                    // events observed by monitors (callbacks, calls)
    bool nontrivial = false;
    double worst = 0;                       // worst |err|/tol seen
    std::vector<Violation> viol;
    Case(const std::string& p, uint64_t sd, int i, const std::string& t)
        : prop(p), seed(sd), id(i), tier(t), r(sd * 1000003ULL + uint64_t(i) * 7919ULL + 17) {}
    void tag(const std::string& t) { tags.insert(t); }
    void fail(const std::string& key, const std::string& msg) { if (viol.size() < 20) viol.push_back({key, msg}); }
    bool check(bool ok, const std::string& key, const std::string& msg)
    {
        evals++; if (!ok) fail(key, msg); return ok;
    }
    bool close(double got, double want, double tol, const std::string& key, const std::string& what = "");
    bool closeM(const mat& got, const mat& want, double rtol, const std::string& key, const std::string& what = "");
    bool closeC(const cube& got, const cube& want, double rtol, const std::string& key, const std::string& what = "");
};
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
void run_case(Case& c);     // provided by each property's translation unit
// a number of observations: mostly the usual ones, sometimes any in their range, rarely a large one
uword pickN(Rng& r, std::initializer_list<int> usual, bool large = true);
// whether the models of a search can be solved throughout (the upper part of) its range, so that it has no reason to give up
inline bool solvableRange(double lo, double hi, const std::function<bool(double)>& ok, double from = .25)
{
    for (int i = 0; i <= 10; i++) if (!ok(lo + (hi - lo) * (from + (1 - from) * i / 10))) return false;
    return true;
}
int  mode_of(const std::string& name, int dflt);

// ---------------------------------------------------------------- telegram
// counters bumped from the library's threads: relaxed, so that watching adds no ordering that would hide a race
template<class T> struct Rel
{
    std::atomic<T> v;
    Rel(T x = T()) : v(x) {}
    operator T() const { return v.load(std::memory_order_relaxed); }
    T load() const { return *this; }
    T operator=(T x) { v.store(x, std::memory_order_relaxed); return x; }
    T operator++(int) { return v.fetch_add(1, std::memory_order_relaxed); }
    T exchange(T x) { return v.exchange(x, std::memory_order_relaxed); }
    bool compare_exchange_strong(T& e, T x) { return v.compare_exchange_strong(e, x, std::memory_order_relaxed); }
};
// counts the distance vectors the library asks for: the work done, whatever the algorithm
extern Rel<long> g_work;
// ... and by whom, when asked to watch
extern Rel<bool> g_watchThreads;
void noteThread();
std::vector<long> threadWork();     // distance vectors computed by each thread since the last call
template<class D> struct Counted : D
{
    using D::D;
    static bool& quiet() { static thread_local bool q = false; return q; }
    arma::vec distance(arma::uword focus) override { if (!quiet()) { g_work++; if (g_watchThreads) noteThread(); } return D::distance(focus); }
    double maxDistance() override { quiet() = true; double d = D::maxDistance(); quiet() = false; return d; }
    double minDistance() override { quiet() = true; double d = D::minDistance(); quiet() = false; return d; }
    gwm::Distance* clone() const override { return new Counted(*this); }
};
struct MonState
{
    std::mutex m;
    struct Ev { char kind; std::string text; double a, b; };  // 'L'og 'P'rogress 'Q'percent 'S'top
    std::vector<Ev> ev;
    Rel<long> stops{0}, afterStop{0}, logs{0}, progs{0};
    Rel<long> lastWork{-1}, maxGap{0};   // most distance vectors computed between two stop queries
    Rel<long> workAtStop{-1};   // distance vectors computed by then
    long stopAt = -1;             // answer true from the stopAt-th stop() query on (0 based)
    long stopAtProg = -1;         // ask to stop from within this progress report on
    Rel<bool> asked{false}; Rel<long> progAfter{0};
    bool record = true;
    std::function<void(char)> hook;
    std::vector<std::string> logsWith(const std::string& prefix)
    {
        std::lock_guard<std::mutex> g(m);
        std::vector<std::string> o;
        for (auto& e : ev) if (e.kind == 'L' && e.text.compare(0, prefix.size(), prefix) == 0) o.push_back(e.text.substr(prefix.size()));
        return o;
    }
};
struct MonTele : public gwm::ITelegram
{
    std::shared_ptr<MonState> s;
    explicit MonTele(std::shared_ptr<MonState> st) : s(st) {}
    void add(char k, const std::string& t, double a, double b)
    {
        if (s->hook) s->hook(k);
        if (!s->record) return;
        std::lock_guard<std::mutex> g(s->m);
        s->ev.push_back({k, t, a, b});
    }
    void print(std::string message, LogLevel level, std::string, std::string) override
    { s->logs++; add('L', message, double(int(level)), 0); }
    void progress(std::size_t c, std::size_t t, std::string, std::string) override
    { note(); add('P', "", double(c), double(t)); }
    void progress(double p, std::string, std::string) override
    { note(); add('Q', "", p, 0); }
    void note() { if (s->asked) s->progAfter++; if (s->progs++ == s->stopAtProg) s->asked = true; }
    bool stop() override
    {
        long k = s->stops++, w = g_work.load(), p = s->lastWork.exchange(w);
        if (p >= 0 && w - p > s->maxGap) s->maxGap = w - p;
        bool r = (s->stopAt >= 0 && k >= s->stopAt) || s->asked;
        if (r) { s->afterStop++; long none = -1; s->workAtStop.compare_exchange_strong(none, g_work.load()); }
        if (s->hook) s->hook('S');
        return r;
    }
};
inline std::unique_ptr<gwm::ITelegram> tele(std::shared_ptr<MonState> s) { return std::unique_ptr<gwm::ITelegram>(new MonTele(s)); }

// ---------------------------------------------------------------- metrics & kernels (reference)
struct Metric
{
    enum T { Euclid, Geo, Mink } type = Euclid;
    double p = 2, theta = 0;
};
struct Kern { double bw = 0; bool adaptive = true; int kernel = 0; };

namespace orc
{
double gcd(double lon1, double lat1, double lon2, double lat2);
double dist(const Metric& m, double ax, double ay, double bx, double by);
mat distMat(const Metric& m, const mat& from, const mat& to);    // from.n_rows x to.n_rows
double kern(int kernel, double d, double b);
double kernBw(const Kern& k, const vec& d);                      // effective distance bandwidth
vec weights(const Kern& k, const vec& d);
mat weightMat(const Kern& k, const mat& D);                      // row i = weights at focus i

struct Gwr { mat betas, cc, S; cube C; vec q; double trS = 0, trStS = 0; double cond = 0; };
// weighted least squares at each row of W; loo: drop own observation
Gwr gwr(const mat& X, const vec& y, const mat& W, bool full, bool loo = false);
mat wls(const mat& X, const vec& y, const mat& W, double* cond = nullptr);
double aicc(const mat& X, const vec& y, const mat& betas, double trS);
double rss(const mat& X, const vec& y, const mat& betas);
// one predictor and an intercept, for data sets too large to keep the hat matrix; closed form, four threads
struct Big { mat betas, cc; double trS = 0, trStS = 0; vec q; };
Big bigGwr(const mat& X, const vec& y, const std::function<vec(uword)>& weightsOf);
}

// ---------------------------------------------------------------- data
struct Data
{
    mat x; vec y; mat coords; bool intercept = true; Metric metric;
    std::string desc;
};
mat genCoords(Rng& r, uword n, int kind, double scale);
Data genData(Rng& r, uword n, uword npred, bool intercept = true, int coordKind = -1, int metricKind = -1);
Kern genKern(Rng& r, const Data& d, const mat& D, int forceAdaptive = -1, int forceKernel = -1, double minFrac = 0.0);
std::unique_ptr<gwm::Distance> mkDist(const Metric& m);
gwm::BandwidthWeight mkBw(const Kern& k);
gwm::SpatialWeight mkSW(const Kern& k, const Metric& m);
std::string kname(int k);
