// K02: distance metrics
#include "common.h"
using namespace std; using namespace gwm;

static bool throwsRt(const function<void()>& f)
{
    try { f(); } catch (const std::exception&) { return true; }
    return false;
}
static void planar(Case& c, bool wantGeo)
{
    Rng& r = c.r;
    uword n = uword(r.i(2, 40)), m = r.b() ? n : uword(r.i(1, 30));
    Metric M;
    mat a, b;
    if (wantGeo)
    {
        M.type = Metric::Geo;
        a.set_size(m, 2); b.set_size(n, 2);
        double span = r.pick({0.01, 1.0, 20.0, 170.0});
        double lo = r.u(-90, 90), la = r.u(-40, 40);
        auto pt = [&](mat& q, uword i) { q(i, 0) = max(-180.0, min(180.0, lo + r.u(-.5, .5) * span)); q(i, 1) = max(-89.0, min(89.0, la + r.u(-.5, .5) * min(span, 80.0))); };
        for (uword i = 0; i < m; i++) pt(a, i);
        for (uword i = 0; i < n; i++) pt(b, i);
        if (r.b(.5)) for (uword i = 0; i < min(m, n); i += 3) b.row(i) = a.row(i);
        if (r.b(.3)) { a(0, 1) = b(0, 1); }      // same parallel
        if (r.b(.3)) { a(0, 0) = b(0, 0); }      // same meridian
        if (r.b(.2)) { a(0, 0) = 180; b(0, 0) = -180; a(0, 1) = b(0, 1); }
        if (r.b(.4))                             // pairs in special position: mirrored, rotated, on the equator, on whole degrees, at a pole
        {
            c.tag("geo:special");
            for (uword i = 0; i < min(m, n); i++)
            {
                if (r.b(.3)) { a(i, 0) = round(a(i, 0)); a(i, 1) = round(a(i, 1)); }
                double x = a(i, 0), y = a(i, 1);
                switch (r.i(0, 9))
                {
                case 0: b(i, 0) = -x; b(i, 1) = y; break;
                case 1: b(i, 0) = x; b(i, 1) = -y; break;
                case 2: b(i, 0) = x > 90 ? x - 90 : x + 90; b(i, 1) = y; break;
                case 3: b(i, 0) = y; b(i, 1) = max(-89.0, min(89.0, x)); break;
                case 4: a(i, 1) = 0; b(i, 1) = 0; break;
                case 5: b(i, 0) = 0; b(i, 1) = 0; break;
                case 6: b(i, 0) = x; b(i, 1) = r.b() ? 90 : -90; break;
                case 7: b(i, 0) = x; b(i, 1) = y + r.pick({1e-6, 1e-4, 1.0}) * (y > 0 ? -1 : 1); break;
                case 8: b(i, 0) = x + r.pick({1e-6, 1e-4, 1.0}) * (x > 0 ? -1 : 1); b(i, 1) = y; break;
                default: a(i, 0) = 179.5; b(i, 0) = -179.5; b(i, 1) = y; break;
                }
                if (fabs(fabs(a(i, 0) - b(i, 0)) - 180) < 2 && fabs(a(i, 1) + b(i, 1)) < 2) b.row(i) = a.row(i);   // antipodes have no unique geodesic
            }
        }
    }
    else
    {
        double L = r.pick({1.0, 100.0, 1e6});
        int ck = r.i(0, 5);
        a = genCoords(r, m, ck, L) - (r.b() ? L : 0.0); b = genCoords(r, n, r.i(0, 5), L);
        if (r.b()) for (uword i = 0; i < min(m, n); i++) a.row(i) = b.row(i);
        if (r.b(.6)) { M.type = Metric::Mink; M.p = r.pick({-1.0, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 7.0}); M.theta = r.b() ? 0 : r.u(-3, 3); }
    }
    c.desc = fmt("metric=%d p=%g theta=%g focus=%d data=%d", int(M.type), M.p, M.theta, int(m), int(n));
    string cell = M.type == Metric::Geo ? "geo" : M.type == Metric::Euclid ? "euclid" : fmt("mink%g%s", M.p, M.theta != 0 ? "r" : "");
    c.tag(cell);
    auto dist = mkDist(M);
    if (M.type == Metric::Mink && r.b()) { auto* q = new MinkwoskiDistance(); q->setPoly(M.p); q->setTheta(M.theta); dist.reset(q); c.tag("setters"); }
    if (M.type != Metric::Mink && r.b()) { auto* q = new gwm::CRSDistance(M.type != Metric::Geo); q->setGeographic(M.type == Metric::Geo); dist.reset(q); c.tag("setGeographic"); }
    c.check(throwsRt([&] { dist->distance(0); }), cell + ":noparam", "distance() before parameters did not throw");
    c.check(throwsRt([&] { dist->maxDistance(); }), cell + ":noparam", "maxDistance() before parameters did not throw");
    c.check(throwsRt([&] { dist->minDistance(); }), cell + ":noparam", "minDistance() before parameters did not throw");
    c.check(throwsRt([&] { dist->makeParameter({a}); }), cell + ":badparam", "one parameter accepted");
    c.check(throwsRt([&] { dist->makeParameter({a, mat(3, 3, arma::fill::zeros)}); }), cell + ":badparam", "three-column points accepted");
    dist->makeParameter({a, b});
    mat D = orc::distMat(M, a, b);
    unique_ptr<Distance> cl(dist->clone());
    mat G(m, n);
    double scale = max(arma::max(arma::vectorise(D)), 1e-9);
    for (uword i = 0; i < m; i++)
    {
        vec d = dist->distance(i);
        if (!c.closeM(d, D.row(i).t(), M.type == Metric::Geo ? 1e-7 : 1e-10, cell + ":value", c.desc)) return;
        c.closeM(cl->distance(i), d, 0, cell + ":clone", c.desc);
        c.check(arma::all(d >= 0), cell + ":nonneg", c.desc);
        G.row(i) = d.t();
        for (uword j = 0; j < n; j++)
            if (a(i, 0) == b(j, 0) && a(i, 1) == b(j, 1)) c.check(d(j) == 0, cell + ":identity", fmt("%s distance of a point to itself is %g", c.desc.c_str(), d(j)));
        if (M.type == Metric::Geo)
            for (uword j = 0; j < n; j++)
            {   // independent sanity: spherical great circle within the ellipsoidal deviation
                double rd = M_PI / 180, h = pow(sin((a(i, 1) - b(j, 1)) * rd / 2), 2) + cos(a(i, 1) * rd) * cos(b(j, 1) * rd) * pow(sin((a(i, 0) - b(j, 0)) * rd / 2), 2);
                double s = 2 * 6371.0088 * asin(min(1.0, sqrt(h)));
                if (s < 19000) c.check(fabs(s - d(j)) <= 0.008 * s + 0.01, cell + ":sphere", fmt("great circle %g km vs sphere %g km", d(j), s));
            }
    }
    c.close(dist->maxDistance(), G.max(), 1e-9 * scale, cell + ":max", c.desc);
    c.close(dist->minDistance(), G.min(), 1e-9 * scale, cell + ":min", c.desc);
    c.check(throwsRt([&] { dist->distance(m); }), cell + ":range", "focus index past the end accepted");
    c.check(throwsRt([&] { dist->distance(m + 7); }), cell + ":range", "focus index past the end accepted");
    // swap roles: symmetric
    dist->makeParameter({b, a});
    for (uword j = 0; j < n; j++) c.closeM(dist->distance(j), G.col(j), M.type == Metric::Geo ? 1e-7 : 1e-9, cell + ":symmetry", c.desc);
    // the clone is unaffected by re-parameterising the original
    for (uword i = 0; i < m; i++) c.closeM(cl->distance(i), G.row(i).t(), 0, cell + ":clone-independent", c.desc);
    c.check(throwsRt([&] { dist->distance(n); }), cell + ":range", "focus index past the end accepted after swap");
    // triangle inequality via points of b
    if (M.type != Metric::Geo)
    {
        dist->makeParameter({b, b});
        mat B(n, n); for (uword j = 0; j < n; j++) B.row(j) = dist->distance(j).t();
        for (int t = 0; t < 60; t++)
        {
            uword i = uword(r.i(0, int(n) - 1)), j = uword(r.i(0, int(n) - 1)), k = uword(r.i(0, int(n) - 1));
            c.check(B(i, k) <= B(i, j) + B(j, k) + 1e-9 * scale, cell + ":triangle", c.desc);
        }
    }
    // translation invariance (planar metrics)
    if (M.type != Metric::Geo)
    {
        double tx = r.u(-5, 5) * scale, ty = r.u(-5, 5) * scale;
        mat a2 = a, b2 = b; a2.col(0) += tx; b2.col(0) += tx; a2.col(1) += ty; b2.col(1) += ty;
        dist->makeParameter({a2, b2});
        for (uword i = 0; i < m; i++) for (uword j = 0; j < n; j++)
            if (!c.close(dist->distance(i)(j), G(i, j), 1e-8 * scale, cell + ":translate", c.desc)) return;
    }
    // history: the same object with other points, other settings and refused points in between
    bool startedGeo = M.type == Metric::Geo;
    dist->makeParameter({a, b});
    if (r.b()) { dist->maxDistance(); dist->minDistance(); dist->distance(0); }
    for (int h = 0; h < 5; h++)
    {
        c.tag("history");
        int op = r.i(0, 4);
        if (op == 0) { uword k = uword(r.i(1, int(m))), l = uword(r.i(1, int(n))); a = mat(a.rows(0, k - 1)); b = mat(b.rows(n - l, n - 1)); m = k; n = l; dist->makeParameter({a, b}); c.tag("history:points"); }
        else if (op == 1) { swap(a, b); swap(m, n); dist->makeParameter({a, b}); }
        else if (op == 2)
        {
            if (M.type == Metric::Mink) { auto* q = static_cast<MinkwoskiDistance*>(dist.get()); if (r.b()) { M.p = r.pick({-1.0, 1.0, 2.0, 3.0}); q->setPoly(M.p); } else { M.theta = r.b(.3) ? 0 : r.u(-3, 3); q->setTheta(M.theta); } c.tag("history:metric"); }
            else if (startedGeo) { M.type = M.type == Metric::Geo ? Metric::Euclid : Metric::Geo; static_cast<gwm::CRSDistance*>(dist.get())->setGeographic(M.type == Metric::Geo); c.tag("history:metric"); }
        }
        else if (op == 3)
        {
            c.check(throwsRt([&] { if (r.b()) dist->makeParameter({a}); else dist->makeParameter({a, mat(n, 3, arma::fill::zeros)}); }), cell + ":badparam", "unsuitable points accepted");
            c.check(throwsRt([&] { dist->distance(0); }) && throwsRt([&] { dist->maxDistance(); }) && throwsRt([&] { dist->minDistance(); }), cell + ":stale-points", "distances were answered from earlier points after unsuitable ones were refused");
            dist->makeParameter({a, b}); c.tag("history:refused");
        }
        else { dist.reset(dist->clone()); c.tag("history:clone"); }
        mat E = orc::distMat(M, a, b); double tol = (M.type == Metric::Geo ? 1e-7 : 1e-10) * max(1.0, E.max());
        uword i = uword(r.i(0, int(m) - 1));
        bool asked = r.b();
        if (asked) { c.close(dist->maxDistance(), E.max(), tol, cell + ":history-max", c.desc); c.close(dist->minDistance(), E.min(), tol, cell + ":history-min", c.desc); }
        if (!c.closeM(dist->distance(i), E.row(i).t(), M.type == Metric::Geo ? 1e-7 : 1e-10, cell + ":history-value", c.desc)) return;
    }
    c.nontrivial = true;
}
static void oneDim(Case& c)
{
    Rng& r = c.r;
    uword m = uword(r.i(1, 30)), n = uword(r.i(1, 30));
    vec a(m), b(n); for (auto& v : a) v = r.b(.3) ? double(r.i(-5, 5)) : 10 * r.n(); for (auto& v : b) v = r.b(.3) ? double(r.i(-5, 5)) : 10 * r.n();
    c.desc = fmt("onedim focus=%d data=%d", int(m), int(n)); c.tag("onedim");
    OneDimDistance d;
    c.check(throwsRt([&] { d.distance(0); }), "onedim:noparam", "");
    c.check(throwsRt([&] { d.makeParameter({a}); }), "onedim:badparam", "");
    d.makeParameter({a, b});
    double mx = 0, mn = 1e300;
    unique_ptr<Distance> cl(d.clone());
    for (uword i = 0; i < m; i++)
    {
        vec q = d.distance(i), s = d.noAbsdistance(i);
        c.closeM(q, arma::abs(b - a(i)), 1e-13, "onedim:value", c.desc);
        c.closeM(s, a(i) - b, 1e-13, "onedim:signed", c.desc);
        try { c.closeM(cl->distance(i), q, 0, "onedim:clone", c.desc); } catch (const std::exception& e) { c.fail("onedim:clone", string("a clone lost its points: ") + e.what()); break; }
        mx = max(mx, q.max()); mn = min(mn, q.min());
    }
    c.close(d.maxDistance(), mx, 1e-12 * (1 + mx), "onedim:max"); c.close(d.minDistance(), mn, 1e-12 * (1 + mx), "onedim:min");
    c.check(throwsRt([&] { d.distance(m); }), "onedim:range", "");
    c.check(throwsRt([&] { d.noAbsdistance(m); }), "onedim:range", "");
    c.check(throwsRt([&] { d.makeParameter({a}); }) && throwsRt([&] { d.distance(0); }) && throwsRt([&] { d.maxDistance(); }), "onedim:stale-points", "distances were answered from earlier points after unsuitable ones were refused");
    d.makeParameter({b, a}); c.close(d.maxDistance(), mx, 1e-12 * (1 + mx), "onedim:history-max"); c.close(d.minDistance(), mn, 1e-12 * (1 + mx), "onedim:history-min");
    uword last = uword(r.i(0, int(n) - 1)); c.closeM(d.distance(last), arma::abs(a - b(last)), 1e-13, "onedim:history-value", c.desc);
    c.nontrivial = true;
}
static void spaceTime(Case& c)
{
    Rng& r = c.r;
    uword n = uword(r.i(3, 30)), m = n; bool same = r.b();
    bool geo = r.b(.3), mink = !geo && r.b(.3);
    Metric M; if (geo) M.type = Metric::Geo; if (mink) { M.type = Metric::Mink; M.p = r.pick({-1.0, 1.0, 3.0}); }
    mat b = geo ? mat(genCoords(r, n, 0, 20) + 10.0) : genCoords(r, n, r.i(0, 5), 50);
    mat a = same ? b : (geo ? mat(genCoords(r, m, 0, 20) + 10.0) : genCoords(r, m, 0, 50));
    vec tb(n), ta(m); for (auto& v : tb) v = double(r.i(0, 10)); if (same) ta = tb; else for (auto& v : ta) v = double(r.i(0, 10));
    double lambda = r.pick({0.0, 0.05, 0.3, 0.5, 0.9, 1.0, r.u()});
    int ang = r.i(0, 2); double angle = r.u(0.1, 1.4);
    auto sd = mkDist(M); OneDimDistance td;
    unique_ptr<CRSSTDistance> st(ang == 0 ? new CRSSTDistance(sd.get(), &td, lambda) : ang == 1 ? new CRSSTDistance(sd.get(), &td, lambda, arma::datum::pi / 2) : new CRSSTDistance(sd.get(), &td, lambda, angle));
    if (r.b(.3)) { double l2 = r.u(); st->setLambda(l2); lambda = l2; c.tag("st:setLambda"); }
    c.check(throwsRt([&] { st->setLambda(1.5); }) && throwsRt([&] { st->setLambda(-0.1); }), "st:lambda-range", "lambda outside [0,1] accepted");
    c.desc = fmt("st geo=%d mink=%d lambda=%g angle=%s focus=%d data=%d", int(geo), int(mink), lambda, ang == 2 ? fmt("%g", angle).c_str() : "orth", int(m), int(n));
    c.tag(ang == 2 ? "st:oblique" : "st:orth"); if (!same) c.tag("st:other-points");
    c.check(throwsRt([&] { st->makeParameter({a, b}); }), "st:badparam", "two parameters accepted");
    c.check(throwsRt([&] { st->makeParameter({a, b, ta, vec(n + 1, arma::fill::zeros)}); }), "st:badparam", "unequal rows accepted");
    st->makeParameter({a, b, ta, tb});
    unique_ptr<Distance> cl(st->clone());
    double mx = 0, mn = 1e300;
    for (uword i = 0; i < m; i++)
    {
        vec d = st->distance(i); vec want(n);
        for (uword j = 0; j < n; j++)
        {
            double s = orc::dist(M, a(i, 0), a(i, 1), b(j, 0), b(j, 1)), t = ta(i) - tb(j);
            bool only = fabs(lambda - 1) < 1e-16; if (only) t = fabs(t);
            want(j) = t < 0 ? 1e13 : lambda * s + (1 - lambda) * t + 2 * sqrt(lambda * (1 - lambda) * s * t) * (ang == 2 ? cos(angle) : 1.0);
            if (!c.close(d(j), want(j), 1e-7 * (1 + fabs(want(j))), "st:value", c.desc + fmt(" s=%g t=%g", s, t))) return;
        }
        mx = max(mx, d.max()); mn = min(mn, d.min());
        try { c.closeM(cl->distance(i), d, 0, "st:clone", c.desc); } catch (const std::exception& e) { c.fail("st:clone", string("a clone lost its points: ") + e.what()); break; }
    }
    c.close(st->maxDistance(), mx, 1e-9 * (1 + mx), "st:max"); c.close(st->minDistance(), mn, 1e-9 * (1 + fabs(mn)), "st:min");
    try { c.close(cl->maxDistance(), mx, 1e-9 * (1 + mx), "st:clone-max"); } catch (const std::exception& e) { c.fail("st:clone-max", e.what()); }
    c.check(throwsRt([&] { st->distance(m); }), "st:range", "");
    // history: another weight between space and time, other points, refused points
    for (int h = 0; h < 3; h++)
    {
        bool keep = r.b();
        if (r.b()) { lambda = r.pick({0.0, 0.2, 0.7, 1.0, r.u()}); st->setLambda(lambda); }
        if (!keep && r.b()) { a = arma::reverse(a); ta = arma::reverse(ta); }
        if (!keep && r.b(.3))
        {
            c.check(throwsRt([&] { st->makeParameter({a, b}); }), "st:badparam", "two parameters accepted");
            c.check(throwsRt([&] { st->distance(0); }) && throwsRt([&] { st->maxDistance(); }), "st:stale-points", "distances were answered from earlier points after unsuitable ones were refused");
        }
        if (!keep) st->makeParameter({a, b, ta, tb});
        c.tag("st:history");
        mx = 0; mn = 1e300; uword pick = uword(r.i(0, int(m) - 1));
        for (uword i = 0; i < m; i++)
            for (uword j = 0; j < n; j++)
            {
                double s = orc::dist(M, a(i, 0), a(i, 1), b(j, 0), b(j, 1)), t = ta(i) - tb(j);
                if (fabs(lambda - 1) < 1e-16) t = fabs(t);
                double want = t < 0 ? 1e13 : lambda * s + (1 - lambda) * t + 2 * sqrt(lambda * (1 - lambda) * s * t) * (ang == 2 ? cos(angle) : 1.0);
                mx = max(mx, want); mn = min(mn, want);
                if (i == pick) { double got = st->distance(i)(j); if (!c.close(got, want, 1e-7 * (1 + fabs(want)), "st:history-value", c.desc)) return; }
            }
        c.close(st->maxDistance(), mx, 1e-7 * (1 + mx), "st:history-max"); c.close(st->minDistance(), mn, 1e-7 * (1 + fabs(mn)), "st:history-min");
    }
    c.nontrivial = true;
}
void run_case(Case& c)
{
    switch (c.id % 6)
    {
    case 0: case 1: case 2: planar(c, false); break;
    case 3: planar(c, true); break;
    case 4: oneDim(c); break;
    default: spaceTime(c);
    }
}
