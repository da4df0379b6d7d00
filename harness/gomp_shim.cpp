// Stand-in for the OpenMP runtime used only in the race-detection build: the GNU
// runtime synchronises with futexes ThreadSanitizer cannot see, so the same entry
// points are provided here on top of pthreads.  Chunk hand-out uses relaxed
// atomics, so that loop scheduling adds no ordering between iterations that the
// OpenMP rules do not give.
#include <pthread.h>
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <mutex>
#include <vector>
#include <unistd.h>
#include <time.h>
#include <sched.h>

namespace {
struct WS { std::atomic<int> st{0}; std::atomic<long> next{0}, end{0}, incr{1}, chunk{1}; std::atomic<int> single{0}; };
struct Team { int n = 1; pthread_barrier_t bar; WS* ws = nullptr; };
constexpr int NWS = 4096;
struct Tl { Team* t = nullptr; int id = 0; int level = 0; int wsn = 0; long cur_end = 0; unsigned long long chunks = 0; };
thread_local Tl tl;
int gmax = [] { const char* e = getenv("OMP_NUM_THREADS"); int n = e ? atoi(e) : 0; return n > 0 ? n : 2; }();
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
std::mutex named;
struct Arg { void (*fn)(void*); void* data; Team* t; int id; int level; };
void jitter(int id)
{
    static std::atomic<unsigned> s{12345};
    unsigned x = s.fetch_add(2654435761u, std::memory_order_relaxed) + unsigned(id) * 40503u; x ^= x >> 13; x *= 0x5bd1e995u; x ^= x >> 15;
    unsigned k = x % 6; if (k < 2) return; if (k < 4) { sched_yield(); return; } usleep(x % 300);
}
void* body(void* p)
{
    Arg* a = static_cast<Arg*>(p); Tl old = tl; tl = Tl(); tl.t = a->t; tl.id = a->id; tl.level = a->level;
    jitter(a->id); a->fn(a->data); tl = old; return nullptr;
}
WS* enter(long start, long end, long incr, long chunk, bool loop)
{
    WS* w = &tl.t->ws[tl.wsn++ % NWS]; int z = 0;
    if (w->st.compare_exchange_strong(z, 1, std::memory_order_relaxed))
    {
        if (loop) { w->next.store(start, std::memory_order_relaxed); w->end.store(end, std::memory_order_relaxed); w->incr.store(incr, std::memory_order_relaxed); w->chunk.store(chunk < 1 ? 1 : chunk, std::memory_order_relaxed); }
        w->st.store(2, std::memory_order_release);
    }
    else while (w->st.load(std::memory_order_acquire) != 2) sched_yield();
    return w;
}
thread_local WS* curws = nullptr;
Team& solo() { static thread_local Team t; if (!t.ws) t.ws = new WS[NWS]; t.n = 1; return t; }
bool next(long* s, long* e)
{
    WS* w = curws; long inc = w->incr.load(std::memory_order_relaxed), ch = w->chunk.load(std::memory_order_relaxed), end = w->end.load(std::memory_order_relaxed);
    jitter(tl.id);
    long a = w->next.fetch_add(inc * ch, std::memory_order_relaxed);
    if (inc > 0 ? a >= end : a <= end) return false;
    long b = a + inc * ch; if (inc > 0 ? b > end : b < end) b = end;
    *s = a; *e = b; return true;
}
bool start(long s, long e, long inc, long ch, long* is, long* ie)
{
    if (!tl.t) { tl.t = &solo(); for (int i = 0; i < NWS; i++) tl.t->ws[i].st = 0; tl.wsn = 0; }
    curws = enter(s, e, inc, ch, true); return next(is, ie);
}
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned num, unsigned)
{
    int n = num ? int(num) : gmax; if (tl.level > 0) n = 1;   // nested regions are serial by default
    Team t; t.n = n; t.ws = new WS[NWS]; pthread_barrier_init(&t.bar, nullptr, unsigned(n));
    std::vector<Arg> args; args.resize(size_t(n)); std::vector<pthread_t> th; th.resize(size_t(n));
    for (int i = 0; i < n; i++) args[size_t(i)] = {fn, data, &t, i, tl.level + 1};
    for (int i = 1; i < n; i++) if (pthread_create(&th[size_t(i)], nullptr, body, &args[size_t(i)])) abort();
    body(&args[0]);
    for (int i = 1; i < n; i++) pthread_join(th[size_t(i)], nullptr);
    pthread_barrier_destroy(&t.bar); delete[] t.ws;
}
void GOMP_barrier() { if (tl.t && tl.t->n > 1) pthread_barrier_wait(&tl.t->bar); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
void GOMP_critical_start() { pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void** p)
{
    pthread_mutex_t* m;
    { std::lock_guard<std::mutex> g(named); if (!*p) { m = new pthread_mutex_t; pthread_mutex_init(m, nullptr); *p = m; } m = static_cast<pthread_mutex_t*>(*p); }
    pthread_mutex_lock(m);
}
void GOMP_critical_name_end(void** p)
{
    pthread_mutex_t* m; { std::lock_guard<std::mutex> g(named); m = static_cast<pthread_mutex_t*>(*p); }
    pthread_mutex_unlock(m);
}
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
bool GOMP_single_start()
{
    if (!tl.t || tl.t->n == 1) return true;
    WS* w = enter(0, 0, 1, 1, false); int z = 0; return w->single.compare_exchange_strong(z, 1, std::memory_order_relaxed);
}
#define LOOP(K) \
bool GOMP_loop_##K##_start(long s, long e, long i, long c, long* is, long* ie) { return start(s, e, i, c, is, ie); } \
bool GOMP_loop_##K##_next(long* is, long* ie) { return next(is, ie); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
#undef LOOP
#define RT(K) \
bool GOMP_loop_##K##_start(long s, long e, long i, long* is, long* ie) { return start(s, e, i, 1, is, ie); } \
bool GOMP_loop_##K##_next(long* is, long* ie) { return next(is, ie); }
RT(runtime) RT(nonmonotonic_runtime) RT(maybe_nonmonotonic_runtime)
#undef RT
// unsigned long long variants (only upward loops are produced for the library's types)
#define ULL(K) \
bool GOMP_loop_ull_##K##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { return start(long(s), long(e), long(i), long(c), reinterpret_cast<long*>(is), reinterpret_cast<long*>(ie)); } \
bool GOMP_loop_ull_##K##_next(unsigned long long* is, unsigned long long* ie) { return next(reinterpret_cast<long*>(is), reinterpret_cast<long*>(ie)); }
ULL(dynamic) ULL(guided) ULL(nonmonotonic_dynamic) ULL(nonmonotonic_guided) ULL(static)
#undef ULL
#define ULLRT(K) \
bool GOMP_loop_ull_##K##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* is, unsigned long long* ie) { return start(long(s), long(e), long(i), 1, reinterpret_cast<long*>(is), reinterpret_cast<long*>(ie)); } \
bool GOMP_loop_ull_##K##_next(unsigned long long* is, unsigned long long* ie) { return next(reinterpret_cast<long*>(is), reinterpret_cast<long*>(ie)); }
ULLRT(runtime) ULLRT(nonmonotonic_runtime) ULLRT(maybe_nonmonotonic_runtime)
#undef ULLRT
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { GOMP_barrier(); return false; }
struct PL { void (*fn)(void*); void* data; long s, e, i, c; };
static void plbody(void* p)
{
    PL* a = static_cast<PL*>(p); curws = enter(a->s, a->e, a->i, a->c, true); a->fn(a->data);
}
#define PLOOP(K) void GOMP_parallel_loop_##K(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f) { PL a{fn, d, s, e, i, c}; GOMP_parallel(plbody, &a, n, f); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided) PLOOP(static)
#undef PLOOP
#define PLRT(K) void GOMP_parallel_loop_##K(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) { PL a{fn, d, s, e, i, 1}; GOMP_parallel(plbody, &a, n, f); }
PLRT(runtime) PLRT(nonmonotonic_runtime) PLRT(maybe_nonmonotonic_runtime)
#undef PLRT
unsigned GOMP_sections_start(unsigned n) { long a, b; return start(1, long(n) + 1, 1, 1, &a, &b) ? unsigned(a) : 0; }
unsigned GOMP_sections_next() { long a, b; return next(&a, &b) ? unsigned(a) : 0; }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned f) { PL a{fn, d, 1, long(c) + 1, 1, 1}; GOMP_parallel(plbody, &a, n, f); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*)
{
    if (cpy) { std::vector<char> buf(size_t(size + align)); char* p = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(buf.data()) + uintptr_t(align) - 1) / uintptr_t(align) * uintptr_t(align)); cpy(p, data); fn(p); }
    else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
int omp_get_thread_num() { return tl.t ? tl.id : 0; }
int omp_get_num_threads() { return tl.t ? tl.t->n : 1; }
int omp_get_max_threads() { return gmax; }
void omp_set_num_threads(int n) { if (n > 0) gmax = n; }
int omp_get_num_procs() { return int(sysconf(_SC_NPROCESSORS_ONLN)); }
int omp_in_parallel() { return tl.t && tl.t->n > 1; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
int omp_get_level() { return tl.level; }
int omp_get_active_level() { return tl.level; }
int omp_get_thread_limit() { return 1 << 20; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_ancestor_thread_num(int) { return 0; }
int omp_get_team_size(int) { return tl.t ? tl.t->n : 1; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void* l) { auto* m = new pthread_mutex_t; pthread_mutex_init(m, nullptr); *static_cast<uint32_t*>(l) = 0; static_assert(sizeof(uint32_t) == 4, ""); std::lock_guard<std::mutex> g(named); static std::vector<pthread_mutex_t*> all; extern pthread_mutex_t* shim_locks[4096]; static uint32_t n = 0; shim_locks[++n % 4096] = m; *static_cast<uint32_t*>(l) = n % 4096; (void)all; }
pthread_mutex_t* shim_locks[4096];
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { pthread_mutex_lock(shim_locks[*static_cast<uint32_t*>(l)]); }
void omp_unset_lock(void* l) { pthread_mutex_unlock(shim_locks[*static_cast<uint32_t*>(l)]); }
int omp_test_lock(void* l) { return pthread_mutex_trylock(shim_locks[*static_cast<uint32_t*>(l)]) == 0; }
}

// The C library's lgamma also stores the sign in a global nobody reads; use the reentrant form, so that this
// documented quirk of the C library is not reported as a race between algorithm objects.
extern "C" double lgamma_r(double, int*);
extern "C" double lgamma(double x) { int sign; return lgamma_r(x, &sign); }
