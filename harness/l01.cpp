// L01: the run log tells what the run did
#include "algos.h"
#include <cstring>
#include <map>
#include <sstream>
using namespace std; using namespace gwm;
using Rec = vector<string>;
static Rec fields(const string& s) { Rec f; string t; stringstream ss(s); while (getline(ss, t, ',')) f.push_back(t); return f; }
static bool num(const string& s, double& v) { char* e; v = strtod(s.c_str(), &e); return s.size() && !*e; }
struct Log { vector<string> stages; map<string, vector<Rec>> recs; map<string, Rec> head; map<string, int> heads; vector<string> order; string bad; };
// splits the messages of a run into stages, headers and records
static Log readLog(MonState& s)
{
    Log g; lock_guard<mutex> l(s.m);
    for (auto& e : s.ev)
    {
        if (e.kind != 'L' || e.text.empty() || e.text[0] != '#') continue;
        size_t sp = e.text.find(' '); string kind = e.text.substr(0, sp), rest = sp == string::npos ? "" : e.text.substr(sp + 1);
        if (kind == "#stage") { g.stages.push_back(rest); g.order.push_back("stage"); continue; }
        if (kind == "#bandwidth-criterion" || kind == "#variable-criterion" || kind == "#lambda-optimization")
        {
            Rec f = fields(rest); double v;
            if (f.empty()) g.bad = e.text;
            else if (!num(f.back(), v)) { if (f.back() != "criterion") g.bad = e.text; g.heads[kind]++; if (g.recs[kind].size() && g.heads[kind] == 1) g.bad = "header after records: " + e.text; g.head[kind] = f; }
            else { g.recs[kind].push_back(f); if (g.head.count(kind) && g.head[kind].size() != f.size()) g.bad = "fields do not match the header: " + e.text; }
            g.order.push_back(kind);
        }
    }
    return g;
}
static bool has(const string& s, const char* w) { string t; for (char ch : s) t += char(tolower(ch)); return t.find(w) != string::npos; }
static bool sameNum(const string& a, const string& b) { double x, y; if (!num(a, x) || !num(b, y)) return a == b; return (isnan(x) && isnan(y)) || x == y || fabs(x - y) <= 2e-6 + 1e-6 * max(fabs(x), fabs(y)); }
void run_case(Case& c)
{
    auto& names = boxNames(); string nm = names[size_t(c.id) % names.size()]; Rng& r = c.r;
    Box b = makeBox(nm, r, r.i(20, 40)); if (r.b(.15)) b.c.hat = false;
    auto s = make_shared<MonState>(); Obj o = b.fresh(); o.alg->setTelegram(tele(s)); c.desc = b.desc;
    string e0; Out q; try { o.run(); q = o.out(); } catch (const exception& x) { e0 = x.what(); if (e0.empty()) e0 = "?"; }
    Log g = readLog(*s); c.events += s->ev.size();
    c.check(g.bad.empty(), nm + ":record", g.bad + " in " + c.desc);
    // stages: named, none twice, selections before the fit and exactly when asked for
    bool pred = nm.find("predict") != string::npos, da = nm.compare(0, 4, "gwda") == 0;
    auto at = [&](auto f) { for (size_t i = 0; i < g.stages.size(); i++) if (f(g.stages[i])) return int(i); return -1; };
    for (size_t i = 0; i < g.stages.size(); i++)
    {
        c.check(!g.stages[i].empty(), nm + ":stage-name", c.desc);
        for (size_t j = 0; j < i; j++) c.check(g.stages[i] != g.stages[j], nm + ":stage-twice", g.stages[i] + " in " + c.desc);
    }
    if (!pred && !da)
    {
        bool mg = nm.compare(0, 4, "mgwr") == 0;
        int init = at([](const string& t) { return has(t, "initializ"); }), bw = at([](const string& t) { return (has(t, "bandwidth") && !has(t, "initial")); }), va = at([](const string& t) { return has(t, "variable"); }), la = at([](const string& t) { return has(t, "lambda"); }), fit = at([](const string& t) { return has(t, "fitting") || has(t, "calculating") || has(t, "solving"); }), di = at([](const string& t) { return has(t, "diagnostic") && !has(t, "initializ"); });
        if (e0.empty() || !mg) c.check(init >= 0 && (mg || init == 0), nm + ":stage-first", c.desc);
        bool wantBw = nm.find("-bw") != string::npos, wantVa = nm.find("-vars") != string::npos, wantLa = nm == "gtwr-lambda";
        if (!mg) { c.check((bw >= 0) == wantBw, nm + ":stage-bandwidth", c.desc); c.check((va >= 0) == wantVa, nm + ":stage-variables", c.desc); c.check((la >= 0) == wantLa, nm + ":stage-lambda", c.desc); }
        if (e0.empty()) { c.check(fit >= 0, nm + ":stage-fit", c.desc); if (!mg) for (int k : {bw, va, la}) c.check(k < fit, nm + ":stage-order", c.desc); if (di >= 0 && !mg) c.check(fit < di, nm + ":stage-order", c.desc); }
    }
    // records: one per candidate, in the reported values
    auto against = [&](const char* kind, const char* list, size_t cols)
    {
        if (!e0.empty() || !q.count(list)) return;
        const cube& L = q[list]; auto& R = g.recs[kind]; map<string, int> dummy; vector<char> seen(L.n_rows, 0);
        c.check(g.heads[kind] <= 1, nm + ":header", c.desc);
        for (auto& f : R)
        {
            bool ok = false; double v, k; num(f.back(), v);
            for (uword i = 0; i < L.n_rows; i++)
            {
                double lv = L(i, L.n_cols - 1, 0); bool same = fabs(lv - v) <= 1e-6 + 1e-9 * fabs(lv);
                if (cols == 2) same = same && num(f[0], k) && fabs(k - L(i, 0, 0)) <= 1e-6 + 1e-9 * fabs(k);
                if (same) { ok = true; seen[i] = 1; }
            }
            c.check(ok, nm + ":record-not-evaluated", f[0] + "," + f.back() + " in " + c.desc);
        }
        // candidates whose models could not be solved have no record
        for (uword i = 0; i < L.n_rows; i++) if (L(i, L.n_cols - 1, 0) < 1e300) c.check(seen[i], nm + ":candidate-not-logged", fmt("%.9g %.9g in ", L(i, 0, 0), L(i, L.n_cols - 1, 0)) + c.desc);
        c.tag(fmt("%s:%s", nm.c_str(), list)); c.events += R.size();
    };
    if (nm.compare(0, 8, "basic-bw") == 0 || nm == "robust-bw") against("#bandwidth-criterion", "bwlist", 2);
    if (nm.find("-vars") != string::npos) against("#variable-criterion", "varlist", 1);
    // a threaded run logs the same stages and records
    Obj p = b.fresh(); auto t = make_shared<MonState>(); p.alg->setTelegram(tele(t));
    bool om = r.b(.7) && p.omped(r.i(2, 4)); string e1; try { p.run(); } catch (const exception& x) { e1 = x.what(); }
    Log h = readLog(*t);
    if (e0.empty() && e1.empty())
    {
        c.check(g.stages == h.stages, nm + ":threaded-stages", c.desc);
        bool search = nm == "gwdr-bw" || nm.compare(0, 4, "mgwr") == 0;   // searches that rounding may send another way
        if (!om || !search) for (auto& k : g.recs)
        {
            auto& a = k.second; auto& z = h.recs[k.first]; bool ok = a.size() == z.size();
            for (size_t i = 0; ok && i < a.size(); i++) { ok = a[i].size() == z[i].size(); for (size_t j = 0; ok && j < a[i].size(); j++) ok = sameNum(a[i][j], z[i][j]); }
            if (om && !ok && a.size() != z.size()) { c.tag("search-differs"); continue; }
            c.check(ok, nm + (om ? ":threaded-records" : ":repeated-records"), k.first + " in " + c.desc);
        }
        c.nontrivial = true; c.tag(nm + (om ? "/omp" : "/again"));
    }
    else c.tag("rejected:" + nm);
}
