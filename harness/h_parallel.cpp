// P06 (mode loop): the parallel loop.  P07 (mode sched): the rendering schedulers.
// Every call of the loop body is recorded as an event (index, thread id, begin, end); the log is
// checked for exactly-once execution, exclusive thread ids, ordering and error delivery.
#include "vh.h"
#include <lm/parallel.h>
#include <lm/scheduler.h>
#include <lm/film.h>
#include <lm/progress.h>
#include <lm/progresscontext.h>
#include <chrono>
using namespace vh;

static int g_threads = 1;
static void set_threads(int n, long long interval) {
    lm::parallel::shutdown();
    lm::parallel::init("openmp", { {"num_threads", n}, {"progress_update_interval", interval} });
}
struct Boom { long long i; };

static void loop(Rand& r, long long id, bool thorough) {
    const int hw = (int)std::thread::hardware_concurrency();
    std::vector<int> ns{ 1, 2, 3, 4, 8, 16, 0, -1, -(hw - 1), -hw, -hw - 3, hw };
    int req = ns[id % ns.size()]; long long interval = r.pick(std::vector<long long>{ 1, 2, 7, 100, 1000000 });
    set_threads(req, interval);
    int nt = lm::parallel::num_threads();
    int want_nt = req > 0 ? req : std::max(1, hw + req);
    std::ostringstream o; o << " [num_threads " << req << " interval " << interval << "]"; auto ctx = o.str();
    VH_CHECK(nt == want_nt, "loop:num-threads", "reports " << nt << " threads, expected " << want_nt << ctx);
    if (nt < 1) return;
    g_threads = nt;
    vh_sched_mode(r.p(.4) ? 0 : r.i(1, 3)); vh_sched_seed(r.next());
    for (int rep = 0; rep < 5; rep++) {
        long long N = r.p(.15) ? r.i(3) : r.p(.2) ? r.i(2000, 6000) : r.i(3, 600);
        if (lm::parallel::num_threads() != nt) violation("loop:num-threads", "the number of threads changed" + ctx);
        std::vector<std::atomic<int>> seen(N + 1), plainseen(1); std::vector<long long> plain(N, -1); std::vector<std::atomic<int>> busy(std::max(nt, 64));
        std::atomic<long long> running{ 0 }, peak{ 0 }, after{ 0 }; std::atomic<bool> returned{ false };
        std::set<std::thread::id> ids; std::map<int, std::set<std::thread::id>> owner; std::mutex m;
        bool slow = r.p(.5) && N < 700; uint64_t salt = r.next();
        std::vector<long long> throwing; if (r.p(.35) && N > 0) for (int k = r.i(1, 3); k > 0; k--) throwing.push_back(r.p(.3) ? 0 : r.p(.3) ? N - 1 : r.i((int)N));
        int how = r.i(3); bool from_other = r.p(.4), with_progress = r.p(.7); bool prog_throw = with_progress && throwing.empty() && r.p(.1) && N > 0;
        std::vector<long long> prog; std::atomic<int> prog_threads{ 0 }; std::atomic<bool> main_wrong{ false }; std::thread::id prog_id; std::atomic<bool> prog_thrown{ false };
        std::atomic<int> thrown{ 0 };
        auto body = [&](long long i, int t) {
            if (returned) after++;
            auto now = ++running; long long p = peak; while (now > p && !peak.compare_exchange_weak(p, now));
            if (i < 0 || i >= N) violation("loop:index", "index " + std::to_string(i) + " of " + std::to_string(N) + ctx);
            else seen[i]++;
            if (t < 0 || t >= nt) violation("loop:thread-id", "thread id " + std::to_string(t) + " with " + std::to_string(nt) + " threads" + ctx);
            else {
                if (busy[t].fetch_add(1) != 0) violation("loop:thread-shared", "two iterations run at the same time with thread id " + std::to_string(t) + ctx);
                if (lm::parallel::main_thread() != (t == 0)) main_wrong = true;
            }
            if (slow || i < 64) { std::lock_guard<std::mutex> l(m); owner[t].insert(std::this_thread::get_id()); }
            if (slow && ((i * 2654435761ull + salt) >> 7) % 5 == 0) std::this_thread::yield();
            if (i >= 0 && i < N) plain[i] = i * 3 + 1;
            if (t >= 0 && t < nt) busy[t]--;
            running--;
            for (auto x : throwing) if (x == i) { thrown++; if (how == 0) throw Boom{ i }; if (how == 1) throw std::runtime_error("boom " + std::to_string(i)); throw (long long)i; }
        };
        auto prg = [&](long long done) {
            std::lock_guard<std::mutex> l(m); prog.push_back(done);
            if (prog.size() == 1) prog_id = std::this_thread::get_id(); else if (prog_id != std::this_thread::get_id()) prog_threads++;
            if (prog_throw && prog.size() == 2) { prog_thrown = true; throw Boom{ -5 }; }
        };
        std::string got;
        auto call = [&] {
            try { if (with_progress) lm::parallel::foreach(N, body, prg); else lm::parallel::foreach(N, body); returned = true; }
            catch (const Boom& b) { returned = true; got = b.i == -5 ? "progress" : how == 0 && std::count(throwing.begin(), throwing.end(), b.i) ? "own" : "foreign"; }
            catch (const std::runtime_error& e) { returned = true; got = "foreign"; for (auto x : throwing) if (how == 1 && e.what() == "boom " + std::to_string(x)) got = "own"; }
            catch (long long v) { returned = true; got = how == 2 && std::count(throwing.begin(), throwing.end(), v) ? "own" : "foreign"; }
            catch (...) { returned = true; got = "foreign"; }
        };
        if (from_other) { std::thread th(call); th.join(); } else call();
        count("loops"); count("iterations", N);
        std::string c2 = ctx + " N=" + std::to_string(N) + (from_other ? " from another thread" : "") + (throwing.empty() ? "" : " throwing");
        cover("loop", "threads" + std::to_string(nt) + (from_other ? "/other" : "") + (throwing.empty() ? "" : "/throws" + std::to_string(how)));
        if (peak > 1) { count("loops with overlapping iterations"); } count("peak overlap sum", peak);
        VH_CHECK(running == 0 && after == 0, "loop:late", "an iteration ran after the loop returned" << c2);
        VH_CHECK(!main_wrong, "loop:main-thread", "the main-thread test disagrees with thread id zero" << c2);
        for (auto& k : owner) VH_CHECK(k.second.size() == 1, "loop:thread-identity", "thread id " << k.first << " was used by " << k.second.size() << " threads within one loop" << c2);
        long long dup = 0, miss = 0; for (long long i = 0; i < N; i++) { dup += seen[i] > 1; miss += seen[i] == 0; if (seen[i] == 1 && plain[i] != i * 3 + 1) violation("loop:effects", "an effect of iteration " + std::to_string(i) + " is missing" + c2); }
        VH_CHECK(dup == 0, "loop:duplicate", dup << " iterations ran more than once" << c2);
        if (throwing.empty() && !prog_thrown) {
            VH_CHECK(miss == 0, "loop:missing", miss << " of " << N << " iterations did not run" << c2);
            VH_CHECK(got.empty(), "loop:spurious-error", "an error came out of a loop without one" << c2);
        } else if (prog_thrown) { VH_CHECK(got == "progress", "loop:error-lost", "the error of the progress callback was not delivered: " << got << c2); }
        else {
            VH_CHECK(thrown > 0, "loop:missing", "no throwing iteration ran" << c2);
            VH_CHECK(got == "own", "loop:error-lost", "an iteration failed but the caller got '" << got << "'" << c2); count("errors delivered");
        }
        long long last = 0; for (auto v : prog) { VH_CHECK(v >= 0 && v <= N, "loop:progress-range", "progress " << v << " of " << N << c2); VH_CHECK(v >= last, "loop:progress-order", "progress went from " << last << " back to " << v << c2); last = v; }
        VH_CHECK(prog_threads == 0, "loop:progress-thread", "progress was reported by several threads" << c2);
        if (with_progress && nt == 1 && N > 0 && throwing.empty() && !prog_throw) VH_CHECK(!prog.empty() && prog.back() > N - interval - 1, "loop:progress-value", "a single thread reported " << (prog.empty() ? -1 : prog.back()) << " of " << N << " at the end" << c2);
        count("progress reports", (long long)prog.size());
        if (r.p(.15) && N > 0 && N < 100) {      // a loop inside of a loop
            std::atomic<long long> inner{ 0 }; std::atomic<bool> badid{ false };
            lm::parallel::foreach(N, [&](long long, int) { lm::parallel::foreach(5, [&](long long, int t) { inner++; if (t < 0 || t >= nt) badid = true; }); });
            VH_CHECK(inner == N * 5 && !badid, "loop:nested", "nested loops ran " << inner.load() << " of " << N * 5 << " iterations" << c2); count("nested");
        }
    }
    if (r.p(.3)) {        // loops started at the same time by several threads
        int K = r.i(2, 4); std::vector<std::thread> th; std::vector<std::atomic<long long>> s(K); std::atomic<int> bad{ 0 };
        for (int k = 0; k < K; k++) th.emplace_back([&, k] { lm::parallel::foreach(200 + k, [&](long long i, int t) { s[k] += i + 1; if (t < 0 || t >= nt) bad++; }); });
        for (auto& t : th) t.join();
        for (int k = 0; k < K; k++) { long long n = 200 + k; VH_CHECK(s[k] == n * (n + 1) / 2, "loop:concurrent", "concurrent loops interfere" << ctx); }
        VH_CHECK(bad == 0, "loop:thread-id", "thread id out of range in a loop started by another thread" << ctx); count("concurrent loops", K);
    }
}

// Loops whose number of iterations does not fit 32 bits: the runtime hands out only a part of them (gomp_shim).
struct Sampled {
    std::mutex m; std::set<std::pair<long long, long long>> seen; long long dup = 0, bad = 0; std::atomic<long long> calls{ 0 }; 
    void operator()(long long a, long long b, bool ok) { const long long n = calls++; if (!ok) bad++; if (n > 300000) return; std::lock_guard<std::mutex> l(m); if (!seen.insert({ a, b }).second) dup++; }
};
static void huge_loop(Rand& r) {
    const long long N = r.pick(std::vector<long long>{ 2147483647, 2147483648ll, 2147483653ll, 4294967295ll, 4294967296ll, 4294967299ll, 3000000000ll, 2200000000ll }); const int nt = r.pick(std::vector<int>{ 4, 8, 16 });
    set_threads(nt, r.pick(std::vector<long long>{ 1, 1000, 1000000 })); vh_sched_mode(0); vh_sched_skip(1); Sampled s; std::atomic<bool> first{ false }, last{ false }; std::atomic<long long> pbad{ 0 };
    lm::parallel::foreach(N, [&](long long i, int t) { if (i == 0) first = true; if (i == N - 1) last = true; s(i, 0, i >= 0 && i < N && t >= 0 && t < nt); }, [&](long long p) { if (p < 0 || p > N) pbad++; });
    const long long total = vh_sched_skipped(); vh_sched_skip(0);
    VH_CHECK(s.bad == 0 && s.dup == 0 && pbad == 0, "loop:huge", "a loop of " << N << " iterations runs " << s.bad << " with index or thread out of range and " << s.dup << " twice; progress out of range " << pbad.load() << " times");
    VH_CHECK(s.calls == N || (total > 0 && first && last), "loop:huge-missing", "a loop of " << N << " iterations ran " << s.calls.load() << " iterations" << (total ? " of those handed out" : "") << (first ? "" : " without the first") << (last ? "" : " without the last"));
    count("huge loops"); count("iterations", s.calls); cover("huge loop", std::to_string(N));
}

// ---- schedulers -----------------------------------------------------------------------------------
struct ProgEvent { int kind; long long a; double b; };
static std::vector<ProgEvent> g_prog; static std::mutex g_pm;
class Progress_VH final : public lm::progress::ProgressContext {
public:
    virtual void start(lm::progress::ProgressMode m, long long total, double tt) override { std::lock_guard<std::mutex> l(g_pm); g_prog.push_back({ m == lm::progress::ProgressMode::Samples ? 0 : 1, total, tt }); }
    virtual void update(long long p) override { std::lock_guard<std::mutex> l(g_pm); g_prog.push_back({ 2, p, 0 }); }
    virtual void update_time(Float e) override { std::lock_guard<std::mutex> l(g_pm); g_prog.push_back({ 3, 0, e }); }
    virtual void end() override { std::lock_guard<std::mutex> l(g_pm); g_prog.push_back({ 4, 0, 0 }); }
};
LM_COMP_REG_IMPL(Progress_VH, "progress::vh");

static void sched(Rand& r, long long id) {
    int nt = r.pick(std::vector<int>{ 1, 2, 4, 8 }); long long interval = r.pick(std::vector<long long>{ 1, 10, 100 });
    set_threads(nt, interval); vh_sched_mode(r.p(.5) ? 0 : r.i(1, 3)); vh_sched_seed(r.next());
    std::string kind = std::vector<std::string>{ "spp::sample", "spi::sample", "spp::time", "spi::time" }[id % 4];
    int w = r.p(.2) ? 1 : r.i(1, 17), h = r.p(.2) ? 1 : r.i(1, 13);
    auto* F = lm::load<lm::Film>("sfilm", "film::bitmap", { {"w", w}, {"h", h} });
    long long P = (long long)w * h, spp = r.p(.1) ? 0 : r.i(1, 20), ns = r.p(.1) ? 0 : r.i(1, 3000), spi = r.p(.15) ? 1 : r.i(1, 500); double tm = r.p(.15) ? 0 : r.u(0, .03);
    if (r.p(.05)) { if (w * h > 4) { w = 1; h = r.i(1, 3); F = lm::load<lm::Film>("sfilm", "film::bitmap", { {"w", w}, {"h", h} }); P = w * h; } spp = r.i(60000, 140000) / P; ns = r.i(60000, 300000); }
    Json p{ {"output", F->loc()}, {"spp", spp}, {"num_samples", ns}, {"render_time", tm}, {"samples_per_iter", spi} };
    auto* S = lm::load<lm::scheduler::Scheduler>("sched", "scheduler::" + kind, p);
    std::ostringstream o; o << " [" << kind << " film " << w << "x" << h << " spp " << spp << " samples " << ns << " time " << tm << " threads " << nt << "]"; auto ctx = o.str();
    if (!S) { violation("sched:create", "not created" + ctx); return; }
    bool timed = kind.find("time") != std::string::npos, pix = kind.find("spp") == 0; cover("scheduler", kind + "/" + std::to_string(nt));
    for (int rep = 0; rep < 2; rep++) {
        bool thr = rep == 1 && r.p(.5) && !(kind == "spp::sample" && spp == 0) && !(kind == "spi::sample" && ns == 0);
        std::mutex m; std::map<std::pair<long long, long long>, int> log; bool badt = false;
        { std::lock_guard<std::mutex> l(g_pm); g_prog.clear(); }
        auto t0 = std::chrono::steady_clock::now(); long long ret = -1; bool caught = false; std::atomic<long long> calls{ 0 }; std::atomic<bool> thrown{ false };
        try {
            ret = S->run([&](long long px, long long s, int t) {
                { std::lock_guard<std::mutex> l(m); log[{px, s}]++; if (t < 0 || t >= nt) badt = true; }
                if (calls++ == 3 && thr) { thrown = true; throw Boom{ 1 }; }
                if (thr && P < 4 && pix && s > 0) { thrown = true; throw Boom{ 1 }; }
                if (thr && !pix && timed && s > 0) { thrown = true; throw Boom{ 1 }; }
                if (thr && kind == "spi::sample" && ns < 4) { thrown = true; throw Boom{ 1 }; }
                if (thr && kind == "spp::sample" && spp * P < 4) { thrown = true; throw Boom{ 1 }; }
            });
        } catch (const Boom&) { caught = true; }
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        count("runs"); count("events", calls);
        VH_CHECK(!badt, "sched:thread-id", "thread id out of range" << ctx);
        if (!thrown) {
            VH_CHECK(!caught, "sched:spurious-error", "an error nobody raised" << ctx);
            long long n = pix ? P : 1, k = ret;
            if (!timed) VH_CHECK(ret == (pix ? spp : ns), "sched:result", "returned " << ret << ctx);
            else { VH_CHECK(ret >= 1 && el >= tm - .002 && (pix || ret % spi == 0), "sched:result", "returned " << ret << " after " << el << " s" << ctx); }
            VH_CHECK((long long)log.size() == n * k, "sched:count", log.size() << " distinct work items, expected " << n * k << ctx);
            for (auto& e : log) {
                VH_CHECK(e.second == 1, "sched:duplicate", "pixel " << e.first.first << " sample " << e.first.second << " processed " << e.second << " times" << ctx);
                VH_CHECK(e.first.first >= 0 && e.first.first < n && e.first.second >= 0 && e.first.second < k, "sched:range", "pixel " << e.first.first << " sample " << e.first.second << " is outside of the work" << ctx);
            }
        } else { VH_CHECK(caught, "sched:error-lost", "a failing work item went unnoticed" << ctx); for (auto& e : log) VH_CHECK(e.second == 1, "sched:duplicate", "work item processed twice" << ctx); count("errors delivered"); }
        std::lock_guard<std::mutex> l(g_pm);
        VH_CHECK(g_prog.size() >= 2 && g_prog[0].kind == (timed ? 1 : 0) && g_prog.back().kind == 4, "sched:progress-brackets", "progress reporting is not bracketed by start and end" << ctx);
        if (!g_prog.empty()) { if (!timed) VH_CHECK(g_prog[0].a == (pix ? P * spp : ns), "sched:progress-total", "announced " << g_prog[0].a << ctx); else VH_CHECK(close(g_prog[0].b, tm, 1e-9), "sched:progress-total", "announced " << g_prog[0].b << ctx); }
        double last = 0; for (size_t i = 1; i + 1 < g_prog.size(); i++) { auto& e = g_prog[i]; VH_CHECK(e.kind == (timed ? 3 : 2), "sched:progress-kind", "kind of progress " << e.kind << ctx); double v = timed ? e.b : e.a; VH_CHECK(v >= last && (timed || v <= g_prog[0].a), "sched:progress-range", "progress " << v << " after " << last << " of " << g_prog[0].a << ctx); last = v; }
        count("progress reports", (long long)g_prog.size());
    }
}

static void huge_sched(Rand& r, long long id) {
    const int nt = r.pick(std::vector<int>{ 4, 8 }); set_threads(nt, 1000); vh_sched_mode(0);
    const bool pix = id % 2 == 0; const int w = r.i(50, 300), h = r.i(50, 300); const long long P = pix ? (long long)w * h : 1, need = r.pick(std::vector<long long>{ 2147483648ll, 2200000000ll, 4294967296ll, 4294980000ll }), k = (need + P - 1) / P;
    auto* F = lm::load<lm::Film>("sfilm", "film::bitmap", { {"w", w}, {"h", h} });
    auto* S = lm::load<lm::scheduler::Scheduler>("sched", pix ? "scheduler::spp::sample" : "scheduler::spi::sample", { {"output", F->loc()}, {"spp", k}, {"num_samples", k} });
    std::ostringstream o; o << " [" << (pix ? "spp" : "spi") << " film " << w << "x" << h << " samples " << k << "]"; auto ctx = o.str(); { std::lock_guard<std::mutex> l(g_pm); g_prog.clear(); }
    vh_sched_skip(1); Sampled s; std::atomic<bool> first{ false }, last{ false };
    const long long ret = S->run([&](long long p, long long q, int t) { if (p == 0 && q == 0) first = true; if (p == P - 1 && q == k - 1) last = true; s(p, q, p >= 0 && p < P && q >= 0 && q < k && t >= 0 && t < nt); });
    const long long total = vh_sched_skipped(); vh_sched_skip(0);
    VH_CHECK(ret == k, "sched:huge", "returned " << ret << ctx);
    VH_CHECK(s.bad == 0 && s.dup == 0, "sched:huge", s.bad << " work items out of range and " << s.dup << " processed twice" << ctx);
    VH_CHECK(s.calls == P * k || total == P * k || (total > 0 && first && last), "sched:huge-missing", "processed " << s.calls.load() << " of " << P * k << " work items" << (total ? " as far as handed out" : "") << ctx);
    { std::lock_guard<std::mutex> l(g_pm); VH_CHECK(!g_prog.empty() && g_prog[0].a == P * k, "sched:progress-total", "announced " << (g_prog.empty() ? -1 : g_prog[0].a) << " of " << P * k << ctx); for (auto& e : g_prog) if (e.kind == 2) VH_CHECK(e.a >= 0 && e.a <= P * k, "sched:progress-range", "progress " << e.a << ctx); }
    count("huge runs"); count("events", s.calls); cover("huge scheduler", std::to_string(P * k));
}

int main(int argc, char** argv) {
    parse(argc, argv);
    lm_init(2);
    const bool s = args().extra["mode"] == "sched";
    if (s) { lm::progress::shutdown(); lm::progress::init("vh"); }
    const int part = atoi(args().part.c_str()), parts = args().extra.count("parts") ? atoi(args().extra["parts"].c_str()) : 1;
    const long long rounds = s ? n_cases(240, 4000) : n_cases(240, 4000);
    for (long long rd = part; rd < rounds; rd += parts) {
        if (!want(rd)) continue;
        Rand r(args().seed * 86028121 + rd);
        begin_case(std::string(s ? "scheduler" : "loop") + " round " + std::to_string(rd));
        if (rd % 16 == 15) { if (s) huge_sched(r, rd / 16); else huge_loop(r); continue; }
        if (s) sched(r, rd); else loop(r, rd, args().thorough());
    }
    count("hand-outs", vh_sched_handouts());
    return finish();
}
