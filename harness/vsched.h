// Schedulers as assets and inside renderers: what they hand out tells which film they refer to and what their parameters are.
#pragma once
#include "vh.h"
#include <lm/scheduler.h>
#include <lm/film.h>
#include <lm/renderer.h>
#include <lm/assetgroup.h>
#include <chrono>
namespace vh {
struct Scheds {
    std::string base; int w, h; long long spp, ns, per; double time; std::string mode, rkey; bool image = false;
    // creates the film, a scheduler of every kind and a renderer whose scheduler refers to the film
    static Scheds make(Rand& r, lm::AssetGroup* g, const std::string& base, bool renderer) {
        Scheds s; s.base = base; s.spp = r.i(1, 5); s.ns = r.i(1, 200); s.per = r.i(1, 50); s.time = r.u(.003, .02); s.film(r, g);
        const Json p{ {"output", base + ".zfilm"}, {"spp", s.spp}, {"num_samples", s.ns}, {"samples_per_iter", s.per}, {"render_time", s.time} };
        for (auto* k : { "spp::sample", "spp::time", "spi::sample", "spi::time" }) { std::string n = std::string("zsched_") + k; for (auto& c : n) if (c == ':') c = '_'; g->load_asset(n, std::string("scheduler::") + k, p); }
        if (renderer) {
            Json q = p; s.mode = r.pick(std::vector<std::string>{ "sample", "time" }); q["scheduler"] = s.mode; q["scene"] = base + ".scene"; q["max_verts"] = 3; q["min_verts"] = 2; q["seed"] = 1;
            s.rkey = r.pick(std::vector<std::string>{ "renderer::pt", "renderer::pt", "renderer::raycast", "renderer::lt" }); s.image = s.rkey == "renderer::lt" || (s.rkey == "renderer::pt" && r.p(.3)); if (s.image) q["primary_ray_sampling_mode"] = "image";
            g->load_asset("zrend", s.rkey, q);
        }
        return s;
    }
    void film(Rand& r, lm::AssetGroup* g) { w = r.i(1, 9); h = r.i(1, 9); g->load_asset("zfilm", "film::bitmap", { {"w", w}, {"h", h} }); }
    void one(const std::string& loc, const std::string& kind, const std::string& ctx) const {
        auto* s = lm::comp::get<lm::scheduler::Scheduler>(loc); if (!s) { violation("scheduler:missing", "there is no scheduler " + loc + ctx); return; }
        std::atomic<long long> n{ 0 }, mp{ -1 }, mi{ -1 }, neg{ 0 }; const auto t0 = std::chrono::steady_clock::now();
        auto up = [](std::atomic<long long>& a, long long v) { long long o = a; while (o < v && !a.compare_exchange_weak(o, v)) {} };
        const long long ret = s->run([&](long long p, long long i, int) { n++; up(mp, p); up(mi, i); if (p < 0 || i < 0) neg++; });
        const double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); const long long P = (long long)w * h;
        std::ostringstream o; o << kind << ": " << n << " items, last pixel " << mp << ", last sample " << mi << ", result " << ret << " after " << el << " s [film " << w << "x" << h << " spp " << spp << " samples " << ns << " per iteration " << per << " time " << time << "]" << ctx;
        bool ok = neg == 0;
        if (kind == "spp::sample") ok &= ret == spp && n == P * spp && mp == P - 1 && mi == spp - 1;
        else if (kind == "spp::time") ok &= ret >= 1 && n == P * ret && mp == P - 1 && mi == ret - 1 && el >= time;
        else if (kind == "spi::sample") ok &= ret == ns && n == ns && mi == ns - 1;
        else ok &= ret >= per && n == ret && ret % per == 0 && mi == ret - 1 && el >= time;
        VH_CHECK(ok, "scheduler:" + kind, o.str()); count("schedulers observed"); cover("scheduler", kind);
    }
    void check(const std::string& at, const std::string& ctx) const {
        for (auto* k : { "spp::sample", "spp::time", "spi::sample", "spi::time" }) { std::string n = std::string(".zsched_") + k; for (auto& c : n) if (c == ':') c = '_'; one(at + n, k, ctx); }
        if (!mode.empty()) {
            Scheds t = *this; if (rkey == "renderer::raycast") { t.spp = 1; t.mode = "sample"; }
            t.one(at + ".zrend.scheduler", (image ? "spi::" : "spp::") + t.mode, ctx + " [in " + rkey + "]");
            if (rkey != "renderer::lt") lm::comp::get<lm::Renderer>(at + ".zrend")->render(); auto z = lm::comp::get<lm::Film>(at + ".zfilm")->size(); VH_CHECK(z.w == w && z.h == h, "scheduler:film", "the film is " << z.w << "x" << z.h << ctx);
        }
    }
};
}
