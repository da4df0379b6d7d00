// M11: the global generalised linear model and the families it is built from
#include "common.h"
#include "gwmodelpp/GeneralizedLinearModel.h"
#include "gwmodelpp/PoissonModel.h"
#include "gwmodelpp/BinomialModel.h"
using namespace std; using namespace gwm;
static double lchoose(double n, double k) { return std::lgamma(n + 1) - std::lgamma(k + 1) - std::lgamma(n - k + 1); }
static void families(Case& c)
{
    Rng& r = c.r; bool pois = r.b(); unique_ptr<LinearModel> m(pois ? static_cast<LinearModel*>(new PoissonModel()) : new BinomialModel()); string cell = pois ? "poisson" : "binomial";
    uword n = uword(r.i(1, 60)); int range = r.i(0, 2); double span = range == 0 ? 4 : range == 1 ? 30 : 200; vec eta(n), y(n), w(n), mu(n);
    for (uword i = 0; i < n; i++) { eta(i) = r.u(-span, min(span, 30.0)); if (!pois && range < 2) eta(i) = r.u(-span, span); if (r.b(.1)) eta(i) = 0; }
    bool zeros = r.b(.7), weighted = r.b(.6);
    for (uword i = 0; i < n; i++) { w(i) = weighted ? (r.b(.1) ? 0.0 : r.u(.1, 4)) : 1; y(i) = pois ? r.i(zeros ? 0 : 1, 12) : r.i(0, 1); if (!pois && r.b(.2)) y(i) = r.u(); mu(i) = pois ? r.u(.01, 12) : r.u(.01, .99); }
    c.desc = fmt("families %s n=%d span=%g zeros=%d weighted=%d", cell.c_str(), int(n), span, int(zeros), int(weighted));
    auto cmp = [&](const mat& got, const char* what, const function<double(uword)>& want, double rel = 1e-10)
    {
        if (!c.check(got.n_elem == n, cell + ":" + what + ":shape", c.desc)) return;
        for (uword i = 0; i < n; i++) { double v = want(i); c.close(got(i), v, rel * fabs(v) + 1e-300, cell + ":" + what, c.desc + fmt(" element %d eta %.10g mu %.10g y %.10g", int(i), eta(i), mu(i), y(i))); }
    };
    const double eps = 2.220446e-16; auto expit = [](double e) { return e > 0 ? 1 / (1 + exp(-e)) : exp(e) / (1 + exp(e)); };
    cmp(m->linkinv(eta), "inverse-link", [&](uword i) { return pois ? max(exp(eta(i)), eps) : expit(eta(i)); });
    cmp(m->muEta(eta), "derivative", [&](uword i) { double e = eta(i); return pois ? max(exp(e), eps) : expit(e) * expit(-e); }, 1e-9);
    cmp(m->linkfun(mu), "link", [&](uword i) { return pois ? log(mu(i)) : log(mu(i)) - log1p(-mu(i)); }, 1e-8 / max(1e-3, arma::abs(pois ? vec(arma::log(mu)) : vec(arma::log(mu / (1 - mu)))).min()));
    cmp(m->variance(mu), "variance", [&](uword i) { return pois ? mu(i) : mu(i) * (1 - mu(i)); });
    auto yl = [](double a, double b) { return a > 0 ? a * log(a / b) : 0.0; };
    auto dev = [&](uword i) { return 2 * w(i) * (pois ? yl(y(i), mu(i)) - (y(i) - mu(i)) : yl(y(i), mu(i)) + yl(1 - y(i), 1 - mu(i))); };
    { vec d = m->devResids(y, mu, w); for (uword i = 0; i < n && d.n_elem == n; i++) c.close(d(i), dev(i), 1e-9 * (1 + fabs(w(i)) * (y(i) + mu(i) + 1) * 10), cell + ":deviance", c.desc + fmt(" element %d", int(i))); c.check(d.n_elem == n, cell + ":deviance:shape", c.desc); }
    if (!pois) { mat one(1, 1, arma::fill::value(mu(0))); vec d = m->devResids(y, one, w); for (uword i = 0; i < n && d.n_elem == n; i++) c.close(d(i), 2 * w(i) * (yl(y(i), mu(0)) + yl(1 - y(i), 1 - mu(0))), 1e-8, cell + ":deviance-one-mean", c.desc); }
    // the log-likelihoods
    vec nn(n, arma::fill::ones); vec yy = y; if (!pois) { bool many = r.b(.5); if (many) { for (uword i = 0; i < n; i++) { nn(i) = r.b() ? r.i(1, 9) : r.i(1, 200); yy(i) = double(r.i(0, int(nn(i)))) / nn(i); mu(i) = min(.9, max(.1, mu(i))); } c.tag("binomial-counts"); } else for (auto& v : yy) v = round(v); }
    double ll = 0; bool counts = nn.max() > 1; vec ww = counts ? vec(nn % arma::conv_to<vec>::from(arma::ones(n))) : vec(n, arma::fill::ones); if (pois) ww = w;
    for (uword i = 0; i < n; i++) ll += pois ? ww(i) * (-mu(i) + yy(i) * log(mu(i)) - std::lgamma(yy(i) + 1)) : lchoose(nn(i), round(nn(i) * yy(i))) + nn(i) * (yy(i) * log(mu(i)) + (1 - yy(i)) * log1p(-mu(i)));
    c.close(m->aic(yy, nn, mu, ww), -2 * ll, 1e-8 * (1 + fabs(ll)), cell + ":aic", c.desc);
    // starting values, validity
    m->setY(y); m->setWeight(w); mat n0 = m->initialize(); c.check(n0.n_elem == n && arma::all(arma::vectorise(n0) == 1), cell + ":sizes", c.desc); cmp(m->muStart(), "start", [&](uword i) { return pois ? y(i) + .1 : (w(i) * y(i) + .5) / (w(i) + 1); });
    if (!pois) { vec tot(n), suc(n); for (uword i = 0; i < n; i++) { tot(i) = r.i(1, 9); suc(i) = r.i(0, int(tot(i))); } BinomialModel b; b.setY(arma::join_rows(suc, vec(tot - suc))); b.setWeight(w); mat q = b.initialize(); cmp(q, "sizes2", [&](uword i) { return tot(i); }); cmp(b.getY(), "share", [&](uword i) { return suc(i) / tot(i); }); cmp(b.weights(), "weight2", [&](uword i) { return w(i) * tot(i); }); cmp(b.muStart(), "start2", [&](uword i) { return (suc(i) + .5) / (tot(i) + 1); }); }
    vec bad = mu; bad(uword(r.i(0, int(n) - 1))) = r.pick({0.0, -1.0, double(NAN), double(INFINITY)}); c.check(m->validmu(mu), cell + ":valid", c.desc); c.check(!m->validmu(bad), cell + ":invalid", c.desc);
    if (!pois) { bad = mu; bad(uword(r.i(0, int(n) - 1))) = 1; c.check(!m->validmu(bad), cell + ":invalid-one", c.desc); }
    c.events += n; c.nontrivial = true; c.tag("family/" + cell); if (range == 2) c.tag("family/" + cell + "/extreme");
}
void run_case(Case& c)
{
    if (c.id % 3 == 0) { families(c); return; }
    Rng& r = c.r; uword n = pickN(r, {20, 40, 60}, false), np = uword(r.i(0, 3)); bool pois = r.b(); string cell = pois ? "poisson" : "binomial"; bool icpt = r.b(.85) || !np; uword k = np + icpt;
    mat x(n, k, arma::fill::ones); vec y(n), b0(k); double sx = r.pick({.2, .5, 1.0}), s = r.pick({1.0, 1.0, 100.0}), base = r.u(-.5, 1.5);
    for (uword j = 0; j < k; j++) { b0(j) = (icpt && j == 0) ? base : r.u(-1, 1); if (!(icpt && j == 0)) for (uword i = 0; i < n; i++) x(i, j) = sx * r.n(); }
    vec e = x * b0; for (uword i = 0; i < n; i++) { if (pois) { double L = exp(-exp(min(e(i), 4.0))), p = 1; int q = -1; do { q++; p *= r.u(); } while (p > L && q < 400); y(i) = q; } else y(i) = r.u() < 1 / (1 + exp(-e(i))); }
    if (pois && r.b(.2)) y += 1;        // no zero count
    for (uword j = icpt; j < k; j++) x.col(j) *= s;
    c.desc = fmt("glm %s n=%d k=%d intercept=%d scale=%g*%g zeros=%d", cell.c_str(), int(n), int(k), int(icpt), sx, s, int(arma::accu(y == 0)));
    vec b(k, arma::fill::zeros); mat H; bool ok = false; auto mean = [&](const vec& q) { vec t = x * q; return pois ? vec(arma::exp(t)) : vec(1 / (1 + arma::exp(-t))); }; if (icpt && pois && arma::mean(y) > 0) b(0) = log(arma::mean(y));
    vec sc(k); for (uword j = 0; j < k; j++) sc(j) = arma::norm(x.col(j)) / sqrt(double(n)); 
    for (int it = 0; it < 200; it++) { vec mu = mean(b), w = pois ? mu : vec(mu % (1 - mu)); H = x.t() * (x.each_col() % w); mat Hs = H; for (uword i = 0; i < k; i++) for (uword j = 0; j < k; j++) Hs(i, j) /= sc(i) * sc(j); if (!H.is_finite() || !(arma::cond(Hs) < 1e6)) break; vec st = arma::solve(H, x.t() * (y - mu)); b += st; if (arma::abs(st % sc).max() < 1e-11) { ok = true; break; } if (arma::abs(b % sc).max() > 10) break; }
    if (!ok) { c.tag("skip:no-estimate"); return; }
    vec mu = mean(b); double ym = arma::mean(y), dev = 0, nd = 0, ll = 0; if (!pois && (mu.min() < 1e-6 || mu.max() > 1 - 1e-6)) { c.tag("skip:separated"); return; }
    for (uword i = 0; i < n; i++)
    {
        double q = y(i), m = mu(i);
        if (pois) { dev += 2 * ((q > 0 ? q * log(q / m) : 0) - (q - m)); nd += 2 * (q > 0 ? q * log(q / ym) : 0) - 2 * (q - ym); ll += -m + q * log(m) - std::lgamma(q + 1); }
        else { dev += -2 * (q > 0 ? log(m) : log1p(-m)); nd += -2 * (q > 0 ? log(ym) : log1p(-ym)); ll += q > 0 ? log(m) : log1p(-m); }
    }
    GeneralizedLinearModel g; g.setX(x); g.setY(y); g.setFamily(pois ? GWRGeneralized::Family::Poisson : GWRGeneralized::Family::Binomial);
    try { g.fit(); } catch (const exception& ex) { c.check(false, cell + ":exception", string(ex.what()) + " in " + c.desc); return; }
    c.close(g.dev(), dev, 1e-5 * (1 + dev), cell + ":deviance", c.desc); c.close(g.nullDev(), nd, 1e-8 * (1 + nd), cell + ":null-deviance", c.desc); c.close(g.aic(), -2 * ll + 2 * double(k), 1e-5 * (1 + fabs(ll)), cell + ":aic", c.desc);
    c.events += n; c.nontrivial = true; c.tag("fit/" + cell); if (s > 1) c.tag("fit/" + cell + "/scaled");
}
