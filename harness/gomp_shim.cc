// Replacement of the OpenMP run-time library (the GOMP_* ABI that gcc emits) built from pthreads.
// Purposes: (1) ThreadSanitizer understands every synchronisation in it (libgomp itself is not
// instrumented), (2) the schedule of the work-sharing loops can be perturbed (VH_SCHED / vh_sched_*),
// (3) every hand-out of iterations is observable.
// Semantics follow the OpenMP specification for what the repository uses and for common variations:
// the number of threads set by omp_set_num_threads is an ICV of the calling thread, nested regions
// run with one thread, loop counters are handed out with relaxed atomics (no artificial
// happens-before edges between iterations).
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <stdlib.h>
#include <stdint.h>
#include <time.h>
#include <atomic>
#include <map>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <vector>
#include <string>

namespace {

struct WorkShare {
    std::atomic<long long> next{0};
    std::atomic<unsigned long long> unext{0};
    long long start = 0, end = 0, incr = 1, chunk = 1;
    int kind = 1;                       // 0 static, 1 dynamic, 2 guided
    unsigned long long ustart = 0, uend = 0, uincr = 1, uchunk = 1; bool uup = true;
    bool single_taken = false;
    int arrived = 0;
    void* copy = nullptr;
    std::atomic<unsigned> sec_next{1}; unsigned sec_count = 0;
};

struct Team {
    int n = 1;
    std::mutex m;
    std::condition_variable cv;
    int barrier_count = 0;
    unsigned long long barrier_gen = 0;
    std::map<long long, WorkShare*> ws;
    ~Team() { for (auto& p : ws) delete p.second; }
    void barrier() {
        std::unique_lock<std::mutex> l(m);
        if (++barrier_count == n) { barrier_count = 0; barrier_gen++; cv.notify_all(); return; }
        const auto g = barrier_gen;
        while (g == barrier_gen) cv.wait(l);
    }
};

struct Ctx {
    Team* team = nullptr;
    int tid = 0;
    long long ws_id = 0;
    WorkShare* cur = nullptr;
    long long static_iter = 0;
    uint64_t rng = 0;
};

thread_local Ctx ctx;
thread_local int icv_threads = 0;       // 0: default

int default_threads() {
    if (const char* e = getenv("OMP_NUM_THREADS")) { int v = atoi(e); if (v > 0) return v; }
    int n = (int)std::thread::hardware_concurrency();
    return n > 0 ? n : 1;
}

// ---- schedule perturbation ------------------------------------------------------------------------
std::atomic<int> g_mode{-1};            // 0 natural, 1 random yields/naps, 2 one thread starved, 3 bursty
std::atomic<uint64_t> g_seed{1};
std::atomic<long long> g_handouts{0};
// Loops that are too long to run: only chunks at the start, the middle, the end and around the limits of 32-bit
// integers are handed out.
std::atomic<int> g_skip{0};
std::atomic<long long> g_skipped{0};

int mode() {
    int m = g_mode.load(std::memory_order_relaxed);
    if (m < 0) { const char* e = getenv("VH_SCHED"); m = e ? atoi(e) : 0; g_mode.store(m, std::memory_order_relaxed); }
    return m;
}
inline uint64_t rnd() {
    if (!ctx.rng) ctx.rng = g_seed.load(std::memory_order_relaxed) * 0x9E3779B97F4A7C15ull + (uint64_t)ctx.tid * 0xD1B54A32D192ED03ull + 1;
    uint64_t x = ctx.rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return ctx.rng = x;
}
void nap(long ns) { timespec t{0, ns}; nanosleep(&t, nullptr); }
void perturb() {
    g_handouts.fetch_add(1, std::memory_order_relaxed);
    switch (mode()) {
        case 1: { auto r = rnd() % 64; if (r == 0) nap(50000); else if (r < 12) sched_yield(); break; }
        case 2: if (ctx.tid == (int)(g_seed.load(std::memory_order_relaxed) % 3)) nap(200000); break;
        case 3: if (rnd() % 256 == 0) nap(2000000); break;
        default: break;
    }
}

// ---- pool -----------------------------------------------------------------------------------------
struct Worker {
    std::thread th;
    std::mutex m; std::condition_variable cv;
    void (*fn)(void*) = nullptr; void* data = nullptr; Team* team = nullptr; int tid = 0; bool quit = false;
};
struct Pool {
    std::mutex m;
    std::vector<Worker*> idle;          // LIFO by tid would change thread identity; keep ordered
    std::vector<Worker*> all;
    // worker threads persist for the life of the process, as those of libgomp do
    ~Pool() {
        for (auto* w : all) { { std::lock_guard<std::mutex> l(w->m); w->quit = true; } w->cv.notify_one(); }
        for (auto* w : all) { w->th.join(); delete w; }
    }
};
struct PoolHolder {
    Pool p;
};
Pool& pool() { static PoolHolder h; return h.p; }

void worker_main(Worker* w) {
    for (;;) {
        std::unique_lock<std::mutex> l(w->m);
        while (!w->fn && !w->quit) w->cv.wait(l);
        if (w->quit) return;
        auto fn = w->fn; auto data = w->data; auto* team = w->team; int tid = w->tid;
        l.unlock();
        ctx = Ctx{}; ctx.team = team; ctx.tid = tid;
        perturb();
        fn(data);
        ctx = Ctx{};
        {
            std::lock_guard<std::mutex> l2(w->m);
            w->fn = nullptr;
        }
        team->barrier();                // join; the team object outlives this (see run_parallel)
    }
}

void run_parallel(void (*fn)(void*), void* data, unsigned nt, WorkShare* proto) {
    int n = nt ? (int)nt : (icv_threads > 0 ? icv_threads : default_threads());
    if (ctx.team) n = 1;                // nested
    if (n < 1) n = 1;
    if (n > 256) n = 256;
    Ctx saved = ctx;
    // The team is reference-counted by the join barrier; it is kept until every worker left the barrier.
    Team* team = new Team; team->n = n;
    if (proto) team->ws[1] = proto;
    std::vector<Worker*> mine;
    if (n > 1) {
        Pool& P = pool();
        std::lock_guard<std::mutex> l(P.m);
        for (int i = 1; i < n; i++) {
            Worker* w;
            if (!P.idle.empty()) { w = P.idle.front(); P.idle.erase(P.idle.begin()); }
            else { w = new Worker; P.all.push_back(w); w->th = std::thread(worker_main, w); }
            mine.push_back(w);
        }
    }
    ctx = Ctx{}; ctx.team = team; ctx.tid = 0;
    for (int i = 1; i < n; i++) {
        Worker* w = mine[i - 1];
        { std::lock_guard<std::mutex> l(w->m); w->data = data; w->team = team; w->tid = i; w->fn = fn; }
        w->cv.notify_one();
    }
    perturb();
    fn(data);
    if (n > 1) team->barrier();
    ctx = saved;
    if (n > 1) {
        // wait until all workers have left the critical section of the barrier
        { std::lock_guard<std::mutex> l(team->m); }
        Pool& P = pool();
        std::lock_guard<std::mutex> l(P.m);
        P.idle.insert(P.idle.begin(), mine.begin(), mine.end());
    }
    // Workers may still be between barrier() return and loop head, and may still be waking inside wait():
    // never freed while the process is small; teams are leaked into a bounded graveyard instead.
    static std::mutex& gm = *new std::mutex; static std::vector<Team*>& grave = *new std::vector<Team*>;
    std::lock_guard<std::mutex> l(gm);
    grave.push_back(team);
    if (grave.size() > 4096) { delete grave.front(); grave.erase(grave.begin()); }
}

WorkShare* enter_ws(bool& first) {
    const long long id = ++ctx.ws_id;
    Team* t = ctx.team;
    first = false;
    if (!t) { first = true; return ctx.cur = new WorkShare; }     // orphaned: leaked, tiny
    std::lock_guard<std::mutex> l(t->m);
    auto& p = t->ws[id];
    if (!p) { p = new WorkShare; first = true; }
    return ctx.cur = p;
}

bool loop_next(long* istart, long* iend) {
    WorkShare* w = ctx.cur;
    perturb();
    const int n = ctx.team ? ctx.team->n : 1;
    const long long total = w->incr > 0 ? (w->end > w->start ? (w->end - w->start + w->incr - 1) / w->incr : 0)
                                        : (w->end < w->start ? (w->start - w->end - w->incr - 1) / -w->incr : 0);
    long long a, b;
    if (w->kind == 0) {
        if (w->chunk <= 0) {
            if (ctx.static_iter++) return false;
            const long long q = total / n, r = total % n;
            a = ctx.tid * q + (ctx.tid < r ? ctx.tid : r);
            b = a + q + (ctx.tid < r ? 1 : 0);
        }
        else {
            a = ((ctx.static_iter++) * n + ctx.tid) * w->chunk;
            b = a + w->chunk;
        }
    }
    else {
        const long long c = w->chunk > 0 ? w->chunk : 1;
        a = w->next.fetch_add(c, std::memory_order_relaxed);
        if (g_skip.load(std::memory_order_relaxed) && total > 200000000) {
            long long o = g_skipped.load(); while (o < total && !g_skipped.compare_exchange_weak(o, total));
            const long long C = (total + c - 1) / c, k = a / c, L = 1000; 
            const long long at[6] = { 0, 0x7fffffffll / c - L / 2, 0xffffffffll / c - L / 2, C / 2 + 2 * L, C - 4 * L, C - L };
            if (k >= 6 * L) return false;
            long long q = k % L + at[k / L];
            // overlapping windows are handed out once
            for (int j = 0; j < k / L; j++) if (q >= at[j] && q < at[j] + L) q = -1;
            if (q < 0 || q >= C) return loop_next(istart, iend);
            a = q * c;
        }
        b = a + c;
    }
    if (a >= total) return false;
    if (b > total) b = total;
    if (a >= b) return false;
    *istart = w->start + a * w->incr;
    *iend = w->start + b * w->incr;
    return true;
}

void init_ws(WorkShare* w, long long s, long long e, long long i, long long c, int kind) {
    w->start = s; w->end = e; w->incr = i; w->chunk = c; w->kind = kind;
}

bool loop_start(long s, long e, long i, long c, int kind, long* is, long* ie) {
    const long long id = ++ctx.ws_id;
    Team* t = ctx.team;
    if (!t) { ctx.cur = new WorkShare; init_ws(ctx.cur, s, e, i, c, kind); }
    else {
        std::lock_guard<std::mutex> l(t->m);
        auto& p = t->ws[id];
        if (!p) { p = new WorkShare; init_ws(p, s, e, i, c, kind); }
        ctx.cur = p;
    }
    ctx.static_iter = 0;
    return loop_next(is, ie);
}

WorkShare* make_proto(long s, long e, long i, long c, int kind) {
    auto* w = new WorkShare; init_ws(w, s, e, i, c, kind); return w;
}

std::recursive_mutex& crit() { static std::recursive_mutex* m = new std::recursive_mutex; return *m; }

bool uloop_next(unsigned long long* is, unsigned long long* ie) {
    long a, b;
    if (!loop_next(&a, &b)) return false;
    WorkShare* w = ctx.cur;             // normalised to 0..total in make
    *is = w->ustart + (unsigned long long)a * w->uincr;
    *ie = w->ustart + (unsigned long long)b * w->uincr;
    return true;
}
bool uloop_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long c, int kind,
                 unsigned long long* is, unsigned long long* ie) {
    unsigned long long total = up ? (e > s ? (e - s + inc - 1) / inc : 0) : (s > e ? (s - e + (0ull - inc) - 1) / (0ull - inc) : 0);
    const long long id = ++ctx.ws_id;
    Team* t = ctx.team;
    auto mk = [&] { auto* w = new WorkShare; init_ws(w, 0, (long long)total, 1, (long long)c, kind); w->ustart = s; w->uincr = inc; return w; };
    if (!t) ctx.cur = mk();
    else { std::lock_guard<std::mutex> l(t->m); auto& p = t->ws[id]; if (!p) p = mk(); ctx.cur = p; }
    ctx.static_iter = 0;
    return uloop_next(is, ie);
}

} // namespace

#define EXP __attribute__((visibility("default")))
extern "C" {

EXP void vh_sched_skip(int on) { g_skip.store(on); g_skipped.store(0); }
EXP long long vh_sched_skipped() { return g_skipped.load(); }
EXP void vh_sched_mode(int m) { g_mode.store(m, std::memory_order_relaxed); }
EXP void vh_sched_seed(unsigned long long s) { g_seed.store(s, std::memory_order_relaxed); }
EXP long long vh_sched_handouts() { return g_handouts.load(std::memory_order_relaxed); }

EXP int omp_get_thread_num() { return ctx.tid; }
EXP int omp_get_num_threads() { return ctx.team ? ctx.team->n : 1; }
EXP int omp_get_max_threads() { return icv_threads > 0 ? icv_threads : default_threads(); }
EXP void omp_set_num_threads(int n) { if (n > 0) icv_threads = n; }
EXP int omp_get_num_procs() { return (int)std::thread::hardware_concurrency(); }
EXP int omp_in_parallel() { return ctx.team && ctx.team->n > 1; }
EXP void omp_set_dynamic(int) {}
EXP int omp_get_dynamic() { return 0; }
EXP void omp_set_nested(int) {}
EXP int omp_get_nested() { return 0; }
EXP void omp_set_max_active_levels(int) {}
EXP int omp_get_max_active_levels() { return 1; }
EXP int omp_get_level() { return ctx.team ? 1 : 0; }
EXP int omp_get_active_level() { return ctx.team && ctx.team->n > 1 ? 1 : 0; }
EXP int omp_get_thread_limit() { return 256; }
EXP void omp_set_schedule(int, int) {}
EXP int omp_get_cancellation() { return 0; }
EXP double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
EXP double omp_get_wtick() { return 1e-9; }
struct vh_omp_lock { std::recursive_mutex* m; };
EXP void omp_init_lock(void* l) { *(std::mutex**)l = new std::mutex; }
EXP void omp_destroy_lock(void* l) { delete *(std::mutex**)l; }
EXP void omp_set_lock(void* l) { (*(std::mutex**)l)->lock(); }
EXP void omp_unset_lock(void* l) { (*(std::mutex**)l)->unlock(); }
EXP int omp_test_lock(void* l) { return (*(std::mutex**)l)->try_lock(); }

EXP void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { run_parallel(fn, data, nt, nullptr); }
EXP unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned nt, unsigned) { run_parallel(fn, data, nt, nullptr); return 1; }
EXP void GOMP_barrier() { if (ctx.team && ctx.team->n > 1) ctx.team->barrier(); }
EXP bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
EXP bool GOMP_cancel(int, bool) { return false; }
EXP bool GOMP_cancellation_point(int) { return false; }
EXP void GOMP_critical_start() { crit().lock(); }
EXP void GOMP_critical_end() { crit().unlock(); }
EXP void GOMP_critical_name_start(void** p) {
    static std::mutex m; std::recursive_mutex* l;
    { std::lock_guard<std::mutex> g(m); if (!*p) *p = new std::recursive_mutex; l = (std::recursive_mutex*)*p; }
    l->lock();
}
EXP void GOMP_critical_name_end(void** p) { ((std::recursive_mutex*)*p)->unlock(); }
EXP void GOMP_atomic_start() { crit().lock(); }
EXP void GOMP_atomic_end() { crit().unlock(); }
EXP void GOMP_ordered_start() { crit().lock(); }
EXP void GOMP_ordered_end() { crit().unlock(); }
EXP bool GOMP_single_start() { bool f; enter_ws(f); return f; }
EXP void GOMP_taskwait() {}
EXP void GOMP_taskyield() {}
EXP void GOMP_taskgroup_start() {}
EXP void GOMP_taskgroup_end() {}
EXP void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long arg_size, long arg_align, bool, unsigned, void**, int, void*) {
    if (cpyfn) {
        std::string buf(arg_size + arg_align, 0);
        char* a = (char*)(((uintptr_t)&buf[0] + arg_align - 1) & ~(uintptr_t)(arg_align - 1));
        cpyfn(a, data); fn(a);
    }
    else fn(data);
}

#define LOOPS(NAME, KIND) \
EXP void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { run_parallel(fn, d, nt, make_proto(s, e, i, c, KIND)); } \
EXP bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start(s, e, i, c, KIND, is, ie); } \
EXP bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { return uloop_start(up, s, e, i, c, KIND, is, ie); } \
EXP bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) { return uloop_next(is, ie); }
LOOPS(static, 0)
LOOPS(dynamic, 1)
LOOPS(guided, 2)
LOOPS(nonmonotonic_dynamic, 1)
LOOPS(nonmonotonic_guided, 2)
#define NEXT(NAME) EXP bool GOMP_loop_##NAME##_next(long* is, long* ie) { \
    if (!ctx.cur && ctx.team) { std::lock_guard<std::mutex> l(ctx.team->m); ctx.ws_id = 1; ctx.cur = ctx.team->ws[1]; } \
    return loop_next(is, ie); }
NEXT(static) NEXT(dynamic) NEXT(guided) NEXT(nonmonotonic_dynamic) NEXT(nonmonotonic_guided)
EXP void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { run_parallel(fn, d, nt, make_proto(s, e, i, 1, 1)); }
EXP void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { run_parallel(fn, d, nt, make_proto(s, e, i, 1, 1)); }
EXP void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { run_parallel(fn, d, nt, make_proto(s, e, i, 1, 1)); }
EXP bool GOMP_loop_runtime_start(long s, long e, long i, long* is, long* ie) { return loop_start(s, e, i, 1, 1, is, ie); }
EXP bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return loop_start(s, e, i, 1, 1, is, ie); }
EXP bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return loop_start(s, e, i, 1, 1, is, ie); }
NEXT(runtime) NEXT(maybe_nonmonotonic_runtime) NEXT(nonmonotonic_runtime)
EXP void GOMP_loop_end() { ctx.cur = nullptr; GOMP_barrier(); }
EXP void GOMP_loop_end_nowait() { ctx.cur = nullptr; }
EXP bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
EXP unsigned GOMP_sections_start(unsigned count) {
    bool f; auto* w = enter_ws(f);
    if (f) w->sec_count = count;
    unsigned s = w->sec_next.fetch_add(1);
    return s <= count ? s : 0;
}
EXP unsigned GOMP_sections_next() { auto* w = ctx.cur; unsigned s = w->sec_next.fetch_add(1); return s <= w->sec_count ? s : 0; }
EXP void GOMP_sections_end() { ctx.cur = nullptr; GOMP_barrier(); }
EXP void GOMP_sections_end_nowait() { ctx.cur = nullptr; }

} // extern "C"
