// P09: concurrent use.  Every component is queried by several threads at once, every renderer runs on several
// threads with perturbed schedules; each thread has to get exactly the answers it gets alone.  Built with
// ThreadSanitizer, which watches the memory accesses.
#include "vasset.h"
#include <condition_variable>
using namespace vh;

struct Barrier {
    std::mutex m; std::condition_variable c; int n, k = 0, g = 0;
    explicit Barrier(int n) : n(n) {}
    void wait() { std::unique_lock<std::mutex> l(m); int h = g; if (++k == n) { k = 0; g++; c.notify_all(); } else c.wait(l, [&] { return g != h; }); }
};
static void threads(int n, int interval) { lm::parallel::shutdown(); lm::parallel::init("openmp", { {"num_threads", n}, {"progress_update_interval", interval} }); }
static std::vector<double> pixels(const std::string& f) { auto b = lm::comp::get<lm::Film>(f)->buffer(); return std::vector<double>(b.data, b.data + 3 * b.w * b.h); }

// all threads query all components at once
static void queries(Rand& r, World& w, const std::string& base) {
    std::vector<std::string> names; std::map<std::string, Fp> alone;
    for (auto& s : w.s) { if (s.key == "film::bitmap" || s.key.rfind("renderer::", 0) == 0) continue; names.push_back(s.name); fingerprint(alone[s.name], lm::comp::get<lm::Component>(base + "." + s.name), false); }
    const int T = r.i(2, 6), rounds = 2; Barrier bar(T); std::vector<std::thread> th; std::vector<uint64_t> seeds; for (int t = 0; t < T; t++) seeds.push_back(r.next());
    const bool same_order = r.p(.5);
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
        Rand q(same_order ? seeds[0] : seeds[t]);
        for (int k = 0; k < rounds; k++) {
            auto o = names; for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[q.i((int)i)]);
            bar.wait();
            for (auto& n : o) {
                auto* c = lm::comp::get<lm::Component>(base + "." + n); Fp f; fingerprint(f, c, false);
                std::string d = alone[n].diff(f); VH_CHECK(d.empty(), "concurrent:" + (c ? c->key() : n), "queried by " << T << " threads at once, " << (c ? c->key() : n) << ": " << d);
                count("components queried concurrently"); count("concurrent observations", (long long)f.v.size()); if (c) cover("component", c->key());
            }
        }
    });
    for (auto& x : th) x.join();
    cover("query threads", std::to_string(T));
}
// renderers on several threads
static void renderings(Rand& r, World& w, const std::string& base) {
    for (auto& s : w.s) {
        if (s.key.rfind("renderer::", 0) != 0) continue;
        const std::string film = s.prop["output"].get<std::string>(); const int T = r.i(2, 8);
        const bool fixed = s.key == "renderer::raycast" || s.key == "renderer::blank"; std::vector<double> one; Json j1, j2;
        auto* q = lm::comp::get<lm::Renderer>(base + "." + s.name);
        threads(1, 1); vh_sched_mode(0); j1 = q->render(); one = pixels(film);
        threads(T, r.pick(std::vector<int>{ 1, 1, 5, 100 })); vh_sched_mode(r.i(4)); vh_sched_seed(r.next()); long long h = vh_sched_handouts(); j2 = q->render(); auto many = pixels(film);
        count("parallel renderings"); count("work handed out", vh_sched_handouts() - h); cover("renderer", s.key); cover("threads", std::to_string(T)); cover("renderer x threads", s.key + "/" + std::to_string(T));
        if (fixed) VH_CHECK(one.size() == many.size() && memcmp(one.data(), many.data(), 8 * one.size()) == 0, "threads:" + s.key, s.key << " renders another image with " << T << " threads");
        for (auto& x : j1.items()) if (x.key() == "processed" && s.prop.find("render_time") == s.prop.end()) VH_CHECK(j2[x.key()] == x.value(), "processed:" + s.key, s.key << " reports " << j2.dump() << " with " << T << " threads and " << j1.dump() << " with one");
    }
    threads(1, 100); vh_sched_mode(0);
}
// a parallel loop whose iterations use everything that may be used there
static void mixed(Rand& r, World& w, const std::string& base) {
    auto* sc = lm::comp::get<lm::Scene>(base + ".scene"); auto* f = lm::load<lm::Film>("shared", "film::bitmap", { {"w", 3}, {"h", 2} }); f->clear();
    const int T = r.i(2, 8), n = r.i(50, 400); threads(T, 1); vh_sched_mode(r.i(4)); vh_sched_seed(r.next()); std::vector<lm::Rng> rng; for (int t = 0; t < T; t++) rng.emplace_back(t + 1);
    std::atomic<long long> hits{ 0 }; long long expect = 0; const uint64_t seed = r.next(); const int bad = r.p(.3) ? r.i(n) : -1;
    auto body = [&](long long i) { Rand q(seed + i); int k = 0; for (int a = 0; a < 5; a++) { lm::Ray ray{ q.v3(-3, 3), q.dir() }; if (sc->intersect(ray)) k++; if (sc->visible(lm::SceneInteraction::make_medium_interaction(-1, lm::PointGeometry::make_degenerated(q.v3(-3, 3))), lm::SceneInteraction::make_medium_interaction(-1, lm::PointGeometry::make_degenerated(q.v3(-3, 3))))) k += 100; } return k; };
    for (int i = 0; i < n; i++) expect += body(i);
    bool th = false;
    try {
        lm::parallel::foreach(n, [&](long long i, int t) {
            hits += body(i); f->splat_pixel((int)(i % 3), (int)(i / 3 % 2), Vec3(1, 2, 3)); rng.at(t).u();
            if (i % 7 == 0) { LM_INFO("iteration {}", i); LM_INDENT(); LM_WARN("indented"); }
            if (lm::comp::get<lm::Scene>(base + ".scene") != sc) violation("lookup", "a lookup within a parallel loop fails");
            lm::comp::get<lm::Component>(base + ".nothing");
            if (i == bad) throw std::runtime_error("iteration");
        });
    } catch (const std::runtime_error&) { th = true; }
    VH_CHECK(th == (bad >= 0), "loop:exception", "exception in iteration " << bad << " of " << n << (th ? " arrives" : " does not arrive"));
    if (bad < 0) { VH_CHECK(hits == expect, "loop:answers", "queries within a parallel loop on " << T << " threads give " << hits << ", alone " << expect); double sum = 0; auto p = pixels("$.assets.shared"); for (double x : p) sum += x; VH_CHECK(sum == 6.0 * n, "loop:film", "the film holds " << sum << " after " << n << " splats"); }
    count("mixed iterations", n); cover("threads", std::to_string(T)); threads(1, 100); vh_sched_mode(0);
}
// film operations of one loop, then of the next
int main(int argc, char** argv) {
    parse(argc, argv); lm_init(1);
    auto& A = args(); const long long parts = A.extra.count("parts") ? atoll(A.extra["parts"].c_str()) : 1, part = A.part.empty() ? 0 : atoll(A.part.c_str());
    const long long N = n_cases(160, 4000); const std::string dir = scratch();
    for (long long id = part; id < N; id += parts) {
        if (!want(id)) continue;
        Rand r(A.seed * 31337ull + id); begin_case("case " + std::to_string(id));
        try {
            lm::reset(); const std::string base = "$.assets"; const bool media = r.p(.6); World w = make_world(r, base, dir, true, media);
            if (r.p(.6)) { Spec s; s.name = "model"; s.key = "model::wavefrontobj"; s.prop = { {"path", obj_files(r, dir, (int)(id % 50))} }; w.s.push_back(s); }
            if (!load_world(lm::assets(), w)) continue;
            ScenePlan plan = plan_scene(r, w, media); auto* sc = lm::comp::get<lm::Scene>(base + ".scene"); fill_scene(sc, w, plan);
            if (w.find("model")) { int k = sc->create_group_node(gen_transform(r, r.i(7))); sc->add_child_from_model(k, base + ".model"); sc->add_child(0, k); sc->build(); }
            lm::log::set_severity(1000000);
            begin_case("case " + std::to_string(id) + " queries"); queries(r, w, base);
            begin_case("case " + std::to_string(id) + " mixed"); mixed(r, w, base);
            begin_case("case " + std::to_string(id) + " renderings"); renderings(r, w, base);
            if (id < 3) sample("case " + std::to_string(id) + ": " + std::to_string(w.s.size()) + " assets queried, looped over and rendered on several threads");
        } catch (const std::exception& e) { violation("unexpected-exception", e.what()); }
        if (st().violations > 60) break;
    }
    lm::shutdown();
    return finish();
}
