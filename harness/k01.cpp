// K01: kernel weights
#include "common.h"
using namespace std; using namespace gwm;

static void checkWeights(Case& c, const vec& w, const vec& d, const Kern& k, const string& where)
{
    double b = orc::kernBw(k, d);
    string cell = kname(k.kernel) + (k.adaptive ? (k.bw >= double(d.n_elem) ? "/adaptive>=n" : (k.bw == floor(k.bw) ? "/adaptive" : "/adaptive-frac")) : "/fixed");
    c.tag(where + ":" + cell);
    if (!c.check(w.n_elem == d.n_elem, where + ":" + cell + ":shape", c.desc)) return;
    vec want = orc::weights(k, d);
    for (uword i = 0; i < d.n_elem; i++)
    {
        if (k.kernel == 4 && fabs(d(i) - b) <= 1e-12 * b && d(i) != b) continue;   // rounding decides
        if (!c.close(w(i), want(i), 1e-11, where + ":" + cell + ":value", fmt("%s d=%.17g b=%.17g", c.desc.c_str(), d(i), b))) return;
        if (!c.check(w(i) >= 0 && w(i) <= 1 + 1e-15, where + ":" + cell + ":range", fmt("w=%.17g d=%g b=%g", w(i), d(i), b))) return;
        if (k.kernel >= 2 && d(i) >= b * (1 + 1e-12) && !c.check(w(i) == 0, where + ":" + cell + ":support", fmt("w=%g at d=%g beyond b=%g", w(i), d(i), b))) return;
        if (d(i) == 0 && !c.check(w(i) == 1, where + ":" + cell + ":self", fmt("w=%.17g at d=0", w(i)))) return;
    }
    uvec o = arma::sort_index(d);
    for (uword i = 1; i < o.n_elem; i++)
        if (!c.check(w(o(i)) <= w(o(i - 1)) + 1e-12, where + ":" + cell + ":monotone", fmt("w increases from %.17g (d=%g) to %.17g (d=%g)", w(o(i - 1)), d(o(i - 1)), w(o(i)), d(o(i))))) return;
}

void run_case(Case& c)
{
    Rng& r = c.r;
    int kind = c.id % 4;
    if (kind <= 1)
    {
        // raw distance vectors through every way of obtaining a weight object
        for (int rep = 0; rep < 20; rep++)
        {
            uword n = uword(r.pick({1, 2, 3, 5, 8, 13, 30, 64, 200}));
            vec d(n);
            int gk = r.i(0, 3); double sc = r.pick({1e-3, 1.0, 10.0, 1e6});
            for (uword i = 0; i < n; i++)
                d(i) = gk == 0 ? sc * r.u() : gk == 1 ? double(r.i(0, 12)) : gk == 2 ? sc * fabs(r.n()) : sc * double(i + 1);
            if (r.b(.6)) d(uword(r.i(0, int(n) - 1))) = 0;
            Kern k; k.kernel = (c.id / 4 + rep) % 5; k.adaptive = r.b();
            if (k.adaptive)
            {
                int m = r.i(0, 5);
                k.bw = m == 0 ? double(n) : m == 1 ? double(n) + r.i(1, 40) : m == 2 ? double(max(1, int(n) - 1)) : double(r.i(1, int(n)));
                if (m == 5 && n > 1) k.bw = min(k.bw, double(n) - 1) + r.u(0.01, 0.99);
            }
            else k.bw = gk == 1 ? double(r.i(1, 12)) : sc * r.u(0.05, 2.0) * (gk == 3 ? double(n) : 1.0);
            if (!(orc::kernBw(k, d) > 0)) { rep--; if (r.b(.02)) break; continue; }
            c.desc = fmt("raw n=%d gen=%d scale=%g bw=%g adaptive=%d kernel=%s", int(n), gk, sc, k.bw, int(k.adaptive), kname(k.kernel).c_str());
            c.nontrivial = true;
            BandwidthWeight w0 = mkBw(k);
            checkWeights(c, w0.weight(d), d, k, "ctor");
            BandwidthWeight w1(1, !k.adaptive, BandwidthWeight::KernelFunctionType((k.kernel + 1) % 5));
            w1.setBandwidth(k.bw); w1.setAdaptive(k.adaptive); w1.setKernel(BandwidthWeight::KernelFunctionType(k.kernel));
            checkWeights(c, w1.weight(d), d, k, "setters");
            BandwidthWeight w2(w0), w3(&w0);
            checkWeights(c, w2.weight(d), d, k, "copy");
            checkWeights(c, w3.weight(d), d, k, "ptrcopy");
            unique_ptr<Weight> w4(w0.clone());
            checkWeights(c, w4->weight(d), d, k, "clone");
            c.check(w1.bandwidth() == k.bw && w1.adaptive() == k.adaptive && int(w1.kernel()) == k.kernel
                && w3.bandwidth() == k.bw && w3.adaptive() == k.adaptive && int(w3.kernel()) == k.kernel, "accessors", c.desc);
            // evaluating must leave the object unchanged
            c.closeM(w0.weight(d), w0.weight(d), 0, "repeat", c.desc);
            if (!k.adaptive)
            {
                checkWeights(c, (*BandwidthWeight::Kernel[k.kernel])(d, k.bw), d, k, "table");
                vec q = k.kernel == 0 ? BandwidthWeight::GaussianKernelFunction(d, k.bw) : k.kernel == 1 ? BandwidthWeight::ExponentialKernelFunction(d, k.bw)
                    : k.kernel == 2 ? BandwidthWeight::BisquareKernelFunction(d, k.bw) : k.kernel == 3 ? BandwidthWeight::TricubeKernelFunction(d, k.bw) : BandwidthWeight::BoxcarKernelFunction(d, k.bw);
                checkWeights(c, q, d, k, "static");
            }
            // interpretation of the adaptive size: adaptive weights are the fixed ones at the b-th nearest distance
            if (k.adaptive && k.bw == floor(k.bw) && k.bw < double(n))
            {
                vec s = arma::sort(d); double bd = s(uword(k.bw) - 1);
                BandwidthWeight f(bd, false, BandwidthWeight::KernelFunctionType(k.kernel));
                if (bd > 0) c.closeM(w0.weight(d), f.weight(d), 1e-12, "adaptive-vs-fixed", c.desc);
            }
        }
    }
    else
    {
        // through a spatial weight on a real metric, different focus and data sets
        uword n = uword(r.i(5, 70));
        Data d = genData(r, n, 2, true);
        mat foc = r.b() ? d.coords : mat(genCoords(r, uword(r.i(1, 20)), 0, 1.0) * arma::diagmat(arma::max(d.coords, 0) - arma::min(d.coords, 0)));
        if (foc.n_rows != n) { foc.each_row() += arma::min(d.coords, 0); }
        mat D = orc::distMat(d.metric, foc, d.coords);
        for (int ker = 0; ker < 5; ker++)
        {
            Kern k; k.kernel = ker; k.adaptive = r.b();
            k.bw = k.adaptive ? double(r.i(3, int(n * 3) / 2)) : arma::max(arma::vectorise(D)) * r.u(.05, 1.2);
            c.desc = d.desc + fmt(" focus=%d bw=%g adaptive=%d", int(foc.n_rows), k.bw, int(k.adaptive));
            SpatialWeight sw = mkSW(k, d.metric);
            sw.distance()->makeParameter({foc, d.coords});
            SpatialWeight sw2 = sw, sw3(mkSW(Kern{1, false, 0}, Metric())); sw3 = sw;
            SpatialWeight sw4(std::move(sw2));
            for (uword i = 0; i < foc.n_rows; i++)
            {
                vec dl = sw.distance()->distance(i);
                c.closeM(dl, D.row(i).t(), 1e-8, "spatial:distance", c.desc);
                double b = orc::kernBw(k, dl); if (!(b > 0)) continue;
                c.nontrivial = true;
                checkWeights(c, sw.weightVector(i), dl, k, "spatial");
                c.closeM(sw3.weightVector(i), sw.weightVector(i), 0, "spatial:assigned", c.desc);
                c.closeM(sw4.weightVector(i), sw.weightVector(i), 0, "spatial:moved", c.desc);
            }
        }
    }
}
