// P02: runs split over MPI processes give the serial result on every process, and never hang
#include "common.h"
#include <mpi.h>
#include <csignal>
#include <unistd.h>
#include "gwmodelpp/utils/armampi.h"
using namespace std; using namespace gwm;
namespace {
int ip = 0, np = 1;
void onAlarm(int) { const char m[] = "@@HANG a process waited for ever\n"; if (write(2, m, sizeof m - 1)) {} _exit(97); }
struct Mpi
{
    Mpi() { int q; MPI_Initialized(&q); if (!q) { MPI_Init(nullptr, nullptr); atexit([]() { alarm(0); MPI_Finalize(); }); } MPI_Comm_rank(MPI_COMM_WORLD, &ip); MPI_Comm_size(MPI_COMM_WORLD, &np); signal(SIGALRM, onAlarm); }
};
typedef map<string, mat> Res;
mat v1(initializer_list<double> l) { return mat(vec(l)); }
struct Setup { Data d; Kern k; vector<Kern> ks; vector<int> iv, cr; vector<bool> pc; int sel = 0; bool vars = false, hat = true, sS = false, sC = false, golden = false; int th = 1, retry = 2, maxit = 5, ct = 0; bool mg = false, pred = false, only = false; mat L; };
Res result(GWRBasic& a, const mat& B, const Setup& s)
{
    Res r; r["betas"] = B; r["accessor"] = a.betas(); r["bandwidth"] = v1({a.spatialWeight().weight<BandwidthWeight>()->bandwidth()});
    r["se"] = a.betasSE(); r["shat"] = mat(a.sHat()); r["q"] = mat(a.qDiag()); auto g = a.diagnostic(); r["diag"] = v1({g.RSS, g.AIC, g.AICc, g.ENP, g.EDF, g.RSquare, g.RSquareAdjust});
    vector<size_t> sv = a.selectedVariables(); mat m(1, sv.size()); for (size_t i = 0; i < sv.size(); i++) m(0, i) = double(sv[i]); r["variables"] = m; if (s.pred) r["predict"] = a.predict(s.L);
    return r;
}
void conf(GWRBasic& a, const Setup& s, ParallelType pt, int early)
{
    if (early) { a.setParallelType(pt); a.setWorkerId(ip); a.setWorkerNum(np); }
    if (!(s.only && ip > 0 && (pt & ParallelType::MPI))) { a.setCoords(s.d.coords); a.setDependentVariable(s.d.y); a.setIndependentVariables(s.d.x); }     // process 0 hands the data to the others
    a.setHasIntercept(s.d.intercept); a.setSpatialWeight(mkSW(s.k, s.d.metric)); a.setHasHatMatrix(s.hat); a.setStoreS(s.sS); a.setStoreC(s.sC);
    if (s.sel) { a.setIsAutoselectBandwidth(true); a.setBandwidthSelectionCriterion(s.sel == 1 ? GWRBasic::BandwidthSelectionCriterionType::CV : GWRBasic::BandwidthSelectionCriterionType::AIC); }
    if (s.golden) { a.setGoldenLowerBounds(s.k.adaptive ? 13 : s.k.bw * .4); a.setGoldenUpperBounds(s.k.adaptive ? double(s.d.y.n_elem) - 2 : s.k.bw * 1.4); }
    if (s.vars) { a.setIsAutoselectIndepVars(true); a.setIndepVarSelectionThreshold(3.0); }
    if (!early) { a.setParallelType(pt); a.setWorkerId(ip); a.setWorkerNum(np); }
    if (s.th > 1 || pt == ParallelType::MPI_MP) a.setOmpThreadNum(s.th);
}
typedef GWRMultiscale G;
void conf(G& a, const Setup& s, ParallelType pt, int early)
{
    if (early) { a.setParallelType(pt); a.setWorkerId(ip); a.setWorkerNum(np); }
    vector<SpatialWeight> sw; vector<G::BandwidthInitilizeType> b; vector<G::BandwidthSelectionCriterionType> q; for (uword j = 0; j < s.d.x.n_cols; j++) { sw.push_back(mkSW(s.ks[j], s.d.metric)); b.push_back(s.iv[j] == 0 ? G::Null : s.iv[j] == 1 ? G::Initial : G::Specified); q.push_back(s.cr[j] ? G::BandwidthSelectionCriterionType::CV : G::BandwidthSelectionCriterionType::AIC); }
    a.setCoords(s.d.coords); a.setDependentVariable(s.d.y); a.setIndependentVariables(s.d.x); a.setHasIntercept(s.d.intercept); a.setSpatialWeights(sw); a.setBandwidthInitilize(b); a.setBandwidthSelectionApproach(q);
    a.setPreditorCentered(s.pc); a.setBandwidthSelectThreshold(vector<double>(s.d.x.n_cols, 1e-5)); a.setBandwidthSelectRetryTimes(size_t(s.retry)); a.setMaxIteration(size_t(s.maxit)); a.setCriterionThreshold(1e-6); a.setCriterionType(s.ct ? G::BackFittingCriterionType::dCVR : G::BackFittingCriterionType::CVR); a.setHasHatMatrix(s.hat);
    if (!early) { a.setParallelType(pt); a.setWorkerId(ip); a.setWorkerNum(np); }
    if (s.th > 1 || pt == ParallelType::MPI_MP) a.setOmpThreadNum(s.th);
}
Res result(G& a, const mat& B, const Setup& s)
{
    Res r; r["betas"] = B; r["accessor"] = a.betas(); mat m(1, s.ks.size()); for (size_t i = 0; i < s.ks.size(); i++) m(0, i) = a.spatialWeights()[i].weight<BandwidthWeight>()->bandwidth(); r["bandwidth"] = m;
    auto g = a.diagnostic(); r["diag"] = v1({g.RSS, g.AIC, g.AICc, g.ENP, g.EDF, g.RSquare, g.RSquareAdjust}); return r;
}
template<class A> Res runOne(A& a, const Setup& s, string& err, Status& st) { err.clear(); Res r; try { mat B = a.fit(); st = a.status(); r = result(a, B, s); } catch (const exception& e) { err = string("threw ") + e.what(); } return r; }
string diff(const Res& a, const Res& b, double rt, bool shapesOnly = false)
{
    for (auto& q : a) { auto it = b.find(q.first); if (it == b.end()) return q.first + " missing"; const mat &x = q.second, &y = it->second; if (x.n_rows != y.n_rows || x.n_cols != y.n_cols) return q.first + fmt(" shape %dx%d against %dx%d", int(x.n_rows), int(x.n_cols), int(y.n_rows), int(y.n_cols)); if (shapesOnly || x.is_empty()) continue;
        double sc = 1e-12; for (double v : y) if (isfinite(v)) sc = max(sc, fabs(v));
        for (uword i = 0; i < x.n_elem; i++) { double e = fabs(x(i) - y(i)); if (isfinite(x(i)) != isfinite(y(i))) return q.first + fmt(" [%d] %.12g against %.12g", int(i), x(i), y(i)); if (!isfinite(y(i))) continue; if (q.first == "diag" ? !(e <= rt * 100 * max(1.0, fabs(y(i)))) : !(e <= rt * sc)) return q.first + fmt(" [%d] %.12g against %.12g", int(i), x(i), y(i)); }
    }
    return "";
}
template<class A> void scenario(Case& c, const Setup& s, const string& cell)
{
    Rng& r = c.r; ParallelType pt = r.b(.5) ? ParallelType::MPI_Serial : ParallelType::MPI_MP; int early = r.i(0, 1); bool back = r.b(.4), again = r.b(.3) && !s.vars;
    string e0, e1; Status t0 = Status::Success, t1 = t0; A ser; { Setup z = s; conf(ser, z, ParallelType::SerialOnly, 0); } Res want = runOne(ser, s, e0, t0);
    A a; conf(a, s, pt, early); Res got = runOne(a, s, e1, t1);
    string k = cell + (pt == ParallelType::MPI_MP ? "/mp" : "/serial"); c.tag(fmt("np%d/", np) + k); c.tag(cell + (s.d.y.n_elem % uword(np) ? "/uneven" : "/even")); if ((uword(np) - 1) * ((s.d.y.n_elem + uword(np) - 1) / uword(np)) >= s.d.y.n_elem) c.tag("idle-process");
    string at = fmt(" on process %d of %d: ", ip, np) + c.desc; c.events++;
    if (!e0.empty()) { c.tag("rejected/" + cell); c.check(!e1.empty(), k + ":error-lost", "serial " + e0 + " but the parallel run succeeded" + at); }
    else
    {
        if (!c.check(e1.empty(), k + ":exception", e1 + at)) {} else { c.check(t1 == t0, k + ":status", at); auto edf = want["diag"](4); if (fabs(edf) < 1e-6 * double(s.d.y.n_elem)) { want["se"].reset(); got["se"].reset(); } string q = diff(got, want, s.mg ? 1e-6 : 1e-7); c.check(q.empty(), k + ":" + q.substr(0, q.find(' ')), q + at); c.nontrivial = true; }
        if (again) { want.erase("se"); got = runOne(a, s, e1, t1); string q = e1.empty() ? diff(want, got, 1e-6) : e1; c.check(q.empty(), k + ":again", q + at); c.tag("again"); }
        if (back) { Setup z = s; A fresh; conf(fresh, z, ParallelType::SerialOnly, 0); a.setParallelType(ParallelType::SerialOnly); conf(a, z, ParallelType::SerialOnly, 0); Res w2 = runOne(fresh, z, e0, t0); got = runOne(a, z, e1, t1); w2.erase("se"); got.erase("se"); string q = e1.empty() ? diff(w2, got, 1e-9) : e1; c.check(q.empty(), cell + ":serial-afterwards", q + at); c.tag("serial-afterwards"); }
    }
}
void mul(Case& c)
{
    Rng& r = c.r; vector<uword> rows(size_t(np), 0), off(size_t(np), 0); int kind = r.i(0, 2); uword n = 0, base = uword(r.i(1, 9)), p = uword(r.i(1, 30));
    for (int i = 0; i < np; i++) { off[size_t(i)] = n; rows[size_t(i)] = kind == 0 ? base : kind == 1 ? uword(r.i(1, 12)) : (i + 1 < np ? base : uword(r.i(1, int(base)))); n += rows[size_t(i)]; }
    mat A(n, n), B(n, p); for (auto& v : A) v = r.n(); for (auto& v : B) v = r.n(); if (r.b(.3)) p = n, B = A + 1;
    uword f = off[size_t(ip)], t = f + rows[size_t(ip)]; mat a = A.rows(f, t - 1), b = B.rows(f, t - 1), ca, a0 = a, b0 = b; c.desc = fmt("product %dx%d by %dx%d on %d processes, rows %d", int(n), int(n), int(n), int(p), np, int(rows[size_t(ip)])); c.tag(fmt("np%d/product", np));
    mat_mul_mpi(a, b, ca, ip, np, size_t(base)); mat w = A * B; c.closeM(ca, w.rows(f, t - 1), 1e-11, "product:value", c.desc); c.check(arma::all(arma::vectorise(a == a0)) && arma::all(arma::vectorise(b == b0)), "product:inputs", c.desc); c.nontrivial = true;
}
}
void run_case(Case& c)
{
    static Mpi mpi; Rng& r = c.r; alarm(80); int what = c.id % 5;
    if (what == 0) mul(c);
    else
    {
        Setup s; s.mg = what == 4; uword n = uword(r.b(.5) ? np * r.i(s.mg ? 30 / np + 1 : 26 / np + 1, 60 / np + 1) : r.i(27, 64)); if (r.b(.25)) n = uword(r.i(27, 40));
        bool icpt = r.b(.85); s.d = genData(r, n, uword(r.i(1, what == 3 ? 3 : 2)), icpt); mat D = orc::distMat(s.d.metric, s.d.coords, s.d.coords);
        bool hostile = !s.mg && r.b(.15); s.k = genKern(r, s.d, D, -1, r.i(0, 3), .5); s.th = r.i(1, 3); s.hat = r.b(.75); s.sS = r.b(); s.sC = r.b();
        s.only = r.b(.4); if (s.only && !s.mg) c.tag("data-on-process-0-only");
        if (what == 2) { s.sel = r.i(1, 2); s.golden = r.b(.3); if (hostile) s.k.adaptive = true; } if (what == 3) { s.vars = true; s.sel = r.i(0, 2); s.d.intercept = icpt; }
        if (what == 1) { s.pred = r.b(.4); if (s.pred) s.L = s.d.coords.rows(0, 9) + .01 * arma::abs(s.d.coords).max(); }
        if (hostile && what < 3) { if (what == 1) { s.k.kernel = 2; s.k.adaptive = false; arma::uvec o = arma::sort_index(D.row(r.i(0, int(n) - 1)).t()); s.k.bw = D.row(0)(1) * .5; } c.tag("hostile"); }
        if (s.mg) for (uword j = 0; j < s.d.x.n_cols; j++) { Kern q = genKern(r, s.d, D, -1, r.i(0, 3), .5); s.ks.push_back(q); s.iv.push_back(r.i(0, 2)); s.cr.push_back(r.i(0, 1)); s.pc.push_back(j > 0); } s.ct = r.i(0, 1); s.maxit = r.i(1, 5);
        static const char* nm[] = {"", "fit", "bandwidth", "variables", "multiscale"}; string cell = nm[what];
        c.desc = s.d.desc + fmt(" %s kernel=%s adaptive=%d bw=%.10g sel=%d golden=%d hat=%d S=%d C=%d threads=%d iterations=%d", cell.c_str(), kname(s.k.kernel).c_str(), int(s.k.adaptive), s.k.bw, s.sel, int(s.golden), int(s.hat), int(s.sS), int(s.sC), s.th, s.maxit);
        if (s.mg) scenario<G>(c, s, cell); else scenario<GWRBasic>(c, s, cell);
    }
    // every process reports through process 0
    string mine; for (auto& v : c.viol) mine += v.key + "\x01" + v.msg.substr(0, 400) + "\x02"; int len = int(mine.size()); vector<int> lens(np + 0ul), off(np + 0ul); MPI_Gather(&len, 1, MPI_INT, lens.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
    int tot = 0; for (int i = 0; i < np; i++) { off[size_t(i)] = tot; tot += lens[size_t(i)]; } string all(size_t(tot) + 1, 0); MPI_Gatherv(mine.data(), len, MPI_CHAR, &all[0], lens.data(), off.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
    if (ip == 0) { size_t p = size_t(lens[0]); while (p < size_t(tot)) { size_t a = all.find('\x01', p), b = all.find('\x02', p); if (a == string::npos || b == string::npos) break; c.fail(all.substr(p, a - p), all.substr(a + 1, b - a - 1)); p = b + 1; } }
    uint64_t ev = c.evals, te = 0; MPI_Reduce(&ev, &te, 1, MPI_UINT64_T, MPI_SUM, 0, MPI_COMM_WORLD); if (ip == 0) c.evals = te; alarm(0);
}
