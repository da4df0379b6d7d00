// Driver: runs a range of cases of one property and reports one line per event
// on stdout ("B id" before a case, "E json" after it).
#include "common.h"
#include <csignal>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#define LEAKCHECK() __lsan_do_recoverable_leak_check()
#else
#define LEAKCHECK() 0
#endif
using namespace std;
static string esc(const string& s)
{
    string o; for (char ch : s) { unsigned char c = (unsigned char)ch; if (c == '"' || c == '\\') { o += '\\'; o += ch; } else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += ch; }
    return o;
}
static map<string, int> gmodes;
int mode_of(const string& n, int d) { auto it = gmodes.find(n); return it == gmodes.end() ? d : it->second; }
int main(int argc, char** argv)
{
    uint64_t seed = 1; int start = 0, end = 1, stride = 1; string prop = "?", tier = "quick";
    for (int i = 1; i < argc; i++)
    {
        string a = argv[i];
        auto nx = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--start") start = atoi(nx().c_str());
        else if (a == "--end") end = atoi(nx().c_str());
        else if (a == "--stride") stride = atoi(nx().c_str());
        else if (a == "--prop") prop = nx();
        else if (a == "--tier") tier = nx();
        else if (a == "--mode") { string m = nx(); auto q = m.find('='); gmodes[m.substr(0, q)] = atoi(m.substr(q + 1).c_str()); }
    }
    const char* rank = getenv("OMPI_COMM_WORLD_RANK");      // under MPI process 0 reports for all
    FILE* out = rank && string(rank) != "0" ? fopen("/dev/null", "w") : fdopen(dup(1), "w");
    static ofstream nul("/dev/null"); arma::set_cerr_stream(nul);
    for (int id = start; id < end; id += stride)
    {
        fprintf(out, "B %d\n", id); fflush(out); fprintf(stderr, "@@CASE %d\n", id); fflush(stderr);
        Case c(prop, seed, id, tier);
        try { run_case(c); }
        catch (const std::exception& e) { c.fail("uncaught-exception", string("exception escaped: ") + e.what() + " in " + c.desc); }
        catch (...) { c.fail("uncaught-exception", "non-standard exception escaped in " + c.desc); }
        string t, v;
        for (auto& s : c.tags) t += (t.empty() ? "\"" : ",\"") + esc(s) + "\"";
        for (auto& s : c.viol) v += string(v.empty() ? "" : ",") + "{\"key\":\"" + esc(s.key) + "\",\"msg\":\"" + esc(s.msg) + "\"}";
        fprintf(out, "E {\"id\":%d,\"evals\":%llu,\"events\":%llu,\"nt\":%d,\"worst\":%.3g,\"desc\":\"%s\",\"tags\":[%s],\"viol\":[%s]}\n",
            id, (unsigned long long)c.evals, (unsigned long long)c.events, int(c.nontrivial), c.worst, esc(c.desc).c_str(), t.c_str(), v.c_str());
        fflush(out);
        if (LEAKCHECK()) _exit(66);     // the report names this case
    }
    fprintf(out, "D\n"); fclose(out);
    return 0;
}
