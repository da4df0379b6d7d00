#include "common.h"
#include <cstdarg>
using namespace std;

string fmt(const char* f, ...)
{
    char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
bool Case::close(double got, double want, double tol, const string& key, const string& what)
{
    evals++;
    if (std::isnan(want) && std::isnan(got)) return true;
    if (got == want) return true;
    double e = fabs(got - want);
    if (!(e <= tol)) { fail(key, what + fmt(" got %.17g want %.17g tol %.3g", got, want, tol)); return false; }
    if (tol > 0) worst = max(worst, e / tol);
    return true;
}
bool Case::closeM(const mat& got, const mat& want, double rtol, const string& key, const string& what)
{
    evals++;
    if (got.n_rows != want.n_rows || got.n_cols != want.n_cols)
    {
        fail(key, what + fmt(" shape got %llux%llu want %llux%llu", (unsigned long long)got.n_rows, (unsigned long long)got.n_cols,
            (unsigned long long)want.n_rows, (unsigned long long)want.n_cols));
        return false;
    }
    // per column scale
    for (uword j = 0; j < want.n_cols; j++)
    {
        double sc = 0;
        for (uword i = 0; i < want.n_rows; i++) if (std::isfinite(want(i, j))) sc = max(sc, fabs(want(i, j)));
        double tol = rtol * max(sc, 1e-12);
        for (uword i = 0; i < want.n_rows; i++)
        {
            double g = got(i, j), w = want(i, j);
            evals++;
            if (g == w || (std::isnan(g) && std::isnan(w))) continue;
            double e = fabs(g - w);
            if (!(e <= tol)) { fail(key, what + fmt(" [%llu,%llu] got %.17g want %.17g tol %.3g", (unsigned long long)i, (unsigned long long)j, g, w, tol)); return false; }
            worst = max(worst, e / tol);
        }
    }
    return true;
}
bool Case::closeC(const cube& got, const cube& want, double rtol, const string& key, const string& what)
{
    if (!check(got.n_rows == want.n_rows && got.n_cols == want.n_cols && got.n_slices == want.n_slices, key, what + " cube shape differs")) return false;
    for (uword k = 0; k < want.n_slices; k++)
        if (!closeM(got.slice(k), want.slice(k), rtol, key, what + fmt(" slice %llu", (unsigned long long)k))) return false;
    return true;
}

namespace orc
{
double gcd(double lon1, double lat1, double lon2, double lat2)
{
    // Andoyer-Lambert great-ellipse distance on WGS-84, in kilometres, in extended precision
    typedef long double L;
    const L pi = 3.14159265358979323846264338327950288L, rad = pi / 180, a = 6378.137L, f = 1 / 298.257223563L;
    if (fabs(lat1 - lat2) < 1e-8 && (fabs(lon1 - lon2) < 1e-8 || fabs(fabs(lon1) + fabs(lon2) - 360.0) < 1e-8)) return 0;
    L F = ((L)lat1 + lat2) / 2 * rad, G = ((L)lat1 - lat2) / 2 * rad, l = ((L)lon1 - lon2) / 2 * rad;
    L sg = sinl(G) * sinl(G), cg = cosl(G) * cosl(G), sf = sinl(F) * sinl(F), cf = cosl(F) * cosl(F), sl = sinl(l) * sinl(l), cl = cosl(l) * cosl(l);
    L S = sg * cl + cf * sl, C = cg * cl + sf * sl;
    L w = atan2l(sqrtl(S), sqrtl(C)), R = sqrtl(S * C) / w, D = 2 * w * a;
    return double(D * (1 + f * (3 * R - 1) / (2 * C) * sf * cg - f * (3 * R + 1) / (2 * S) * cf * sg));
}
double dist(const Metric& m, double ax, double ay, double bx, double by)
{
    if (m.type == Metric::Euclid) return hypot(ax - bx, ay - by);
    if (m.type == Metric::Geo) return gcd(bx, by, ax, ay);
    double dx = ax - bx, dy = ay - by;
    if (m.theta != 0) { double c = cos(m.theta), s = sin(m.theta), ex = dx * c - dy * s, ey = dx * s + dy * c; dx = ex; dy = ey; }
    dx = fabs(dx); dy = fabs(dy);
    if (m.p == 1) return dx + dy;
    if (m.p == -1) return max(dx, dy);       // the library's name for the maximum metric
    double mx = max(dx, dy); if (mx == 0) return 0;
    return mx * pow(pow(dx / mx, m.p) + pow(dy / mx, m.p), 1 / m.p);
}
mat distMat(const Metric& m, const mat& from, const mat& to)
{
    mat D(from.n_rows, to.n_rows);
    for (uword i = 0; i < from.n_rows; i++) for (uword j = 0; j < to.n_rows; j++)
        D(i, j) = dist(m, from(i, 0), from(i, 1), to(j, 0), to(j, 1));
    return D;
}
double kern(int k, double d, double b)
{
    double t = d / b;
    switch (k)
    {
    case 0: return exp(-0.5 * t * t);
    case 1: return exp(-fabs(t));
    case 2: return d < b ? (1 - t * t) * (1 - t * t) : 0;
    case 3: { double q = 1 - t * t * t; return d < b ? q * q * q : 0; }
    default: return d < b ? 1 : 0;
    }
}
double kernBw(const Kern& k, const vec& d)
{
    if (!k.adaptive) return k.bw;
    uword n = d.n_elem; double N = double(n);
    if (k.bw / N >= 1) return k.bw / N * arma::max(d);
    vector<double> s(d.begin(), d.end()); sort(s.begin(), s.end());
    double fl = floor(k.bw), fr = k.bw - fl; size_t b = size_t(fl);
    double d0 = s[b - 1], d1 = s[b];
    return d0 + (d1 - d0) * fr;
}
vec weights(const Kern& k, const vec& d)
{
    double b = kernBw(k, d); vec w(d.n_elem);
    for (uword i = 0; i < d.n_elem; i++) w(i) = kern(k.kernel, d(i), b);
    return w;
}
mat weightMat(const Kern& k, const mat& D)
{
    mat W(D.n_rows, D.n_cols);
    for (uword i = 0; i < D.n_rows; i++) W.row(i) = weights(k, D.row(i).t()).t();
    return W;
}
Gwr gwr(const mat& X, const vec& y, const mat& W, bool full, bool loo)
{
    uword m = W.n_rows, n = X.n_rows, k = X.n_cols;
    Gwr g; g.betas.zeros(m, k);
    if (full) { g.cc.zeros(m, k); g.S.zeros(m, n); g.C.zeros(k, n, m); g.q.zeros(n); }
    for (uword i = 0; i < m; i++)
    {
        vec w = W.row(i).t(); if (loo) w(i) = 0;
        vec sw = arma::sqrt(w);
        mat A = X.each_col() % sw;
        mat Q, R;
        if (!arma::qr_econ(Q, R, A)) { g.cond = 1e300; continue; }
        vec dR = arma::abs(R.diag());
        double c;
        { vec sv = arma::svd(R); c = (sv.n_elem && sv(sv.n_elem - 1) > 0) ? sv(0) / sv(sv.n_elem - 1) : 1e150; c = c * c; }
        g.cond = max(g.cond, c);
        if (dR.min() <= 0 || !(c < 1e200)) continue;
        mat P = arma::solve(arma::trimatu(R), Q.t(), arma::solve_opts::fast);       // k x n : R^-1 Q'
        P.each_row() %= sw.t();                           // (X'WX)^-1 X'W
        vec b = P * y;
        g.betas.row(i) = b.t();
        if (full)
        {
            for (uword a = 0; a < k; a++) g.cc(i, a) = arma::dot(P.row(a), P.row(a));
            g.C.slice(i) = P;
            rowvec s = X.row(i) * P;
            g.S.row(i) = s;
            g.trS += s(i); g.trStS += arma::dot(s, s);
            for (uword j = 0; j < n; j++) { double p = (j == i ? 1.0 : 0.0) - s(j); g.q(j) += p * p; }
        }
    }
    return g;
}
mat wls(const mat& X, const vec& y, const mat& W, double* cond)
{
    Gwr g = gwr(X, y, W, false); if (cond) *cond = g.cond; return g.betas;
}
Big bigGwr(const mat& X, const vec& y, const std::function<vec(uword)>& weightsOf)
{
    uword n = X.n_rows; Big o; o.betas.set_size(n, 2); o.cc.set_size(n, 2); o.q.zeros(n); vec trs(n), trss(n); std::mutex mx;
#pragma omp parallel num_threads(4)
    {
        vec ql(n, arma::fill::zeros);
#pragma omp for
        for (int64_t ii = 0; ii < int64_t(n); ii++)
        {
            uword i = uword(ii); vec w = weightsOf(i);
            double s0 = 0, s1 = 0, s2 = 0, t0 = 0, t1 = 0;
            for (uword j = 0; j < n; j++) { double x = X(j, 1); s0 += w(j); s1 += w(j) * x; s2 += w(j) * x * x; t0 += w(j) * y(j); t1 += w(j) * x * y(j); }
            double det = s0 * s2 - s1 * s1;
            o.betas(i, 0) = (s2 * t0 - s1 * t1) / det; o.betas(i, 1) = (s0 * t1 - s1 * t0) / det;
            double xi = X(i, 1), c0 = 0, c1 = 0, ss = 0;
            for (uword j = 0; j < n; j++)
            {
                double x = X(j, 1), p0 = (s2 - s1 * x) / det * w(j), p1 = (s0 * x - s1) / det * w(j), s = p0 + xi * p1;
                c0 += p0 * p0; c1 += p1 * p1; ss += s * s; if (j == i) trs(i) = s;
                double e = (j == i ? 1.0 : 0.0) - s; ql(j) += e * e;
            }
            trss(i) = ss; o.cc(i, 0) = c0; o.cc(i, 1) = c1;
        }
        std::lock_guard<std::mutex> g(mx); o.q += ql;
    }
    o.trS = arma::accu(trs); o.trStS = arma::accu(trss); return o;
}
double rss(const mat& X, const vec& y, const mat& b)
{
    double s = 0;
    for (uword i = 0; i < X.n_rows; i++) { double e = y(i) - arma::dot(X.row(i), b.row(i)); s += e * e; }
    return s;
}
double aicc(const mat& X, const vec& y, const mat& b, double trS)
{
    double n = double(X.n_rows), s = rss(X, y, b);
    return n * log(s / n) + n * log(2 * 3.14159265358979323846) + n * ((n + trS) / (n - 2 - trS));
}
}

mat genCoords(Rng& r, uword n, int kind, double L)
{
    mat c(n, 2);
    uword g = uword(ceil(sqrt(double(n))));
    vector<pair<double,double>> ctr; for (int i = 0; i < 4; i++) ctr.push_back({r.u(), r.u()});
    for (uword i = 0; i < n; i++)
    {
        double a, b;
        switch (kind)
        {
        case 1: a = (double(i % g) + r.u(-.3, .3)) / double(g); b = (double(i / g) + r.u(-.3, .3)) / double(g); break;
        case 2: a = double(i % g) / double(g); b = double(i / g) / double(g); break;              // exact grid: many ties
        case 3: { auto& q = ctr[size_t(r.i(0, 3))]; a = q.first + .08 * r.n(); b = q.second + .08 * r.n(); break; }
        case 4: a = r.u(); b = 0.3 * a + 0.02 * r.n(); break;                                     // nearly on a line
        case 5: if (i > 0 && r.b(.25)) { uword q = uword(r.i(0, int(i) - 1)); c(i, 0) = c(q, 0); c(i, 1) = c(q, 1); continue; }
                a = r.u(); b = r.u(); break;                                                     // coincident points
        default: a = r.u(); b = r.u();
        }
        c(i, 0) = a * L; c(i, 1) = b * L;
    }
    return c;
}
Data genData(Rng& r, uword n, uword np, bool intercept, int ck, int mk)
{
    Data d; d.intercept = intercept;
    if (ck < 0) ck = r.i(0, 5);
    if (mk < 0) { int q = r.i(0, 9); mk = q < 6 ? 0 : q < 8 ? 1 : 2; }
    double L = r.pick({1.0, 25.0, 10000.0}), off = r.b(.3) ? L * r.u(-3, 3) : 0.0;
    if (mk == 1)
    {
        d.metric.type = Metric::Geo;
        mat c = genCoords(r, n, ck, 1.0); double span = r.pick({2.0, 10.0, 40.0});
        double lo = r.u(-100, 100), la = r.u(-40, 30);
        d.coords = c * span; d.coords.col(0) += lo; d.coords.col(1) += la; L = span;
    }
    else
    {
        d.coords = genCoords(r, n, ck, L) + off;
        if (mk == 2) { d.metric.type = Metric::Mink; d.metric.p = r.pick({-1.0, 1.0, 1.5, 2.0, 3.0, 4.0}); d.metric.theta = r.b() ? 0.0 : r.u(0.1, 1.5); }
    }
    uword k = np + (intercept ? 1 : 0);
    d.x.set_size(n, k); d.y.set_size(n);
    double sx = r.pick({1.0, 1.0, 5.0}), ox = r.b(.3) ? r.u(-2, 2) : 0;
    for (uword i = 0; i < n; i++)
    {
        uword a = 0; if (intercept) d.x(i, a++) = 1;
        for (; a < k; a++) d.x(i, a) = sx * r.n() + ox;
    }
    vec b0(k), bu(k), bv(k); for (uword a = 0; a < k; a++) { b0(a) = r.u(-3, 3); bu(a) = r.u(-2, 2); bv(a) = r.u(-2, 2); }
    double noise = r.pick({0.1, 0.5, 1.0});
    double cx0 = d.coords.col(0).min(), cy0 = d.coords.col(1).min();
    double wx = max(d.coords.col(0).max() - cx0, 1e-9), wy = max(d.coords.col(1).max() - cy0, 1e-9);
    for (uword i = 0; i < n; i++)
    {
        double e = noise * r.n(), uu = (d.coords(i, 0) - cx0) / wx, vv = (d.coords(i, 1) - cy0) / wy;
        for (uword a = 0; a < k; a++) e += d.x(i, a) * (b0(a) + bu(a) * uu + bv(a) * sin(2 * vv));
        d.y(i) = e;
    }
    static const char* cn[] = {"uniform", "jgrid", "grid", "cluster", "line", "dup"};
    static const char* mn[] = {"euclid", "geo", "mink"};
    d.desc = fmt("n=%d k=%d int=%d coords=%s scale=%g metric=%s p=%g theta=%g", int(n), int(k), int(intercept), cn[ck], L, mn[mk], d.metric.p, d.metric.theta);
    return d;
}
Kern genKern(Rng& r, const Data& d, const mat& D, int fa, int fk, double minFrac)
{
    Kern k; uword n = d.coords.n_rows;
    k.kernel = fk >= 0 ? fk : r.i(0, 4);
    k.adaptive = fa >= 0 ? fa != 0 : r.b();
    double lo = max(minFrac, min(0.95, double(d.x.n_cols * 4 + 8) / double(n)));
    if (k.adaptive)
    {
        int m = r.i(0, 9);
        if (m == 0) k.bw = double(n);
        else if (m == 1) k.bw = floor(double(n) * r.u(1.01, 2.0));
        else if (m == 2) k.bw = double(n) - 1;
        else k.bw = floor(r.u(lo, 1.0) * double(n));
        if (m == 9) k.bw += 0.5;
        k.bw = max(k.bw, 2.0);
    }
    else
    {
        vec v = arma::sort(arma::vectorise(D));
        double q = v(uword(min(double(v.n_elem) - 1, r.u(max(lo, .3), 1.0) * double(v.n_elem))));
        // compact kernels need a radius that reaches enough points at every location
        double need = 0; uword c = min(n - 1, uword(lo * double(n)) + 1);
        for (uword i = 0; i < D.n_rows; i++) { vec s = arma::sort(D.row(i).t()); need = max(need, s(c)); }
        k.bw = (k.kernel <= 1) ? max(q * r.u(.5, 1.5), 0.3 * need) : max(q, need * 1.05) * r.u(1.0, 1.6);
        if (!(k.bw > 0)) k.bw = 1;
    }
    return k;
}
string kname(int k) { static const char* n[] = {"gaussian", "exponential", "bisquare", "tricube", "boxcar"}; return n[k]; }
Rel<long> g_work{0};
Rel<bool> g_watchThreads{false};
static Rel<long> t_work[512]; static Rel<int> t_next{0};
void noteThread() { static thread_local int me = t_next++; if (me < 512) t_work[me]++; }
vector<long> threadWork() { vector<long> o; for (auto& t : t_work) { if (long v = t) o.push_back(v); t = 0; } sort(o.rbegin(), o.rend()); return o; }
unique_ptr<gwm::Distance> mkDist(const Metric& m)
{
    if (m.type == Metric::Mink) return unique_ptr<gwm::Distance>(new Counted<gwm::MinkwoskiDistance>(m.p, m.theta));
    return unique_ptr<gwm::Distance>(new Counted<gwm::CRSDistance>(m.type == Metric::Geo));
}
gwm::BandwidthWeight mkBw(const Kern& k) { return gwm::BandwidthWeight(k.bw, k.adaptive, gwm::BandwidthWeight::KernelFunctionType(k.kernel)); }
gwm::SpatialWeight mkSW(const Kern& k, const Metric& m)
{
    gwm::BandwidthWeight b = mkBw(k); auto d = mkDist(m);
    return gwm::SpatialWeight(&b, d.get());
}

uword pickN(Rng& r, std::initializer_list<int> usual, bool large)
{
    int lo = *std::min_element(usual.begin(), usual.end()), hi = *std::max_element(usual.begin(), usual.end()), k = r.i(0, 99);
    if (k < 3 && large) return uword(r.i(200, 420));
    if (k < 20) return uword(r.i(lo, hi + hi / 3));
    return uword(*(usual.begin() + r.i(0, int(usual.size()) - 1)));
}
