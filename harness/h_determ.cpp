// P20: reproducibility.  Renderings with a seed depend on nothing but their parameters; the random
// numbers of threads, seeds and unseeded renderings do not repeat; deterministic renderers do not depend
// on the number of threads or the schedule.
#include "vasset.h"
using namespace vh;

// ---- a material that records the random numbers it is given ---------------------------------------------
struct Rec { std::mutex m; std::vector<std::pair<double, std::thread::id>> u; bool on = false; };
static Rec& rec() { static Rec r; return r; }
LM_NAMESPACE_BEGIN(LM_NAMESPACE)
class Material_VhRecord final : public Material {
    Material* ref_ = nullptr;
public:
    LM_SERIALIZE_IMPL(ar) { ar(ref_); }
    virtual void foreach_underlying(const ComponentVisitor& visit) override { comp::visit(visit, ref_); }
    virtual void construct(const Json& prop) override { ref_ = json::comp_ref<Material>(prop, "ref"); }
    virtual ComponentSample sample_component(const ComponentSampleU& u, const PointGeometry& g, Vec3 wi) const override { return ref_->sample_component(u, g, wi); }
    virtual Float pdf_component(int c, const PointGeometry& g, Vec3 wi) const override { return ref_->pdf_component(c, g, wi); }
    virtual std::optional<DirectionSample> sample_direction(const DirectionSampleU& u, const PointGeometry& g, Vec3 wi, int c, TransDir d) const override {
        auto& R = rec(); if (R.on) { std::lock_guard<std::mutex> l(R.m); if (R.u.size() < 400000) { R.u.push_back({ u.ud.x, std::this_thread::get_id() }); R.u.push_back({ u.ud.y, std::this_thread::get_id() }); } }
        return ref_->sample_direction(u, g, wi, c, d);
    }
    virtual Float pdf_direction(const PointGeometry& g, Vec3 wi, Vec3 wo, int c, bool e) const override { return ref_->pdf_direction(g, wi, wo, c, e); }
    virtual Vec3 eval(const PointGeometry& g, Vec3 wi, Vec3 wo, int c, TransDir d, bool e) const override { return ref_->eval(g, wi, wo, c, d, e); }
    virtual Vec3 reflectance(const PointGeometry& g) const override { return ref_->reflectance(g); }
    virtual bool is_specular_component(int c) const override { return ref_->is_specular_component(c); }
};
LM_COMP_REG_IMPL(Material_VhRecord, "material::vh_record");
LM_NAMESPACE_END(LM_NAMESPACE)

typedef std::vector<float> Buf;
static std::vector<double> image(lm::Renderer* q, const std::string& film, std::vector<std::pair<double, std::thread::id>>* u = nullptr) {
    auto* f = lm::comp::get<lm::Film>(film); rec().u.clear(); rec().on = u != nullptr;
    q->render(); count("renderings"); rec().on = false; if (u) *u = rec().u;
    auto b = f->buffer(); return std::vector<double>(b.data, b.data + 3 * b.w * b.h);
}
static bool same(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size() * 8) == 0; }
static std::string where(const std::vector<double>& a, const std::vector<double>& b) {
    std::ostringstream o; o.precision(17); if (a.size() != b.size()) { o << "size " << a.size() << " and " << b.size(); return o.str(); }
    int n = 0; for (size_t i = 0; i < a.size(); i++) if (memcmp(&a[i], &b[i], 8)) { if (!n++) o << "value " << i << ": " << a[i] << " and " << b[i]; } o << " (" << n << " of " << a.size() << " values differ)"; return o.str();
}
static uint64_t hash(const std::vector<double>& a) { uint64_t h = 1469598103934665603ull; for (double d : a) { if (std::isnan(d)) d = 7; uint64_t x; memcpy(&x, &d, 8); h = (h ^ x) * 1099511628211ull; h ^= h >> 29; } return h; }
static void threads(int n) { lm::parallel::shutdown(); lm::parallel::init("openmp", { {"num_threads", n}, {"progress_update_interval", 100} }); }
// number of values that occur more than once
static size_t repeats(std::vector<double> v) { std::sort(v.begin(), v.end()); size_t k = 0; for (size_t i = 1; i < v.size(); i++) k += v[i] == v[i - 1]; return k; }
static std::vector<double> vals(const std::vector<std::pair<double, std::thread::id>>& u) { std::vector<double> v; for (auto& x : u) v.push_back(x.first); return v; }

int main(int argc, char** argv) {
    parse(argc, argv); lm_init(1);
    auto& A = args(); const long long parts = A.extra.count("parts") ? atoll(A.extra["parts"].c_str()) : 1, part = A.part.empty() ? 0 : atoll(A.part.c_str());
    const long long N = n_cases(400, 8000); const std::string dir = scratch(); const bool rev = A.extra.count("order");
    std::ofstream hs; if (A.extra.count("hashes")) hs.open(A.extra["hashes"]);
    std::vector<long long> ids; for (long long i = part; i < N; i += parts) ids.push_back(i); if (rev) std::reverse(ids.begin(), ids.end());
    for (long long id : ids) {
        if (!want(id)) continue;
        Rand r(A.seed * 77773ull + id); begin_case("case " + std::to_string(id));
        {   // generators: the same seed gives the same numbers, seeds that differ in a single bit have none in common
            const int sd = (int)r.next(); std::vector<double> all, f; for (int k = -2; k < 32; k++) { lm::Rng g(k < 0 ? sd : (int)((unsigned)sd ^ (1u << k))); std::vector<double> v; for (int i = 0; i < 16; i++) v.push_back(g.u()); if (k == -2) f = v; else { all.insert(all.end(), v.begin(), v.end()); if (k == -1) VH_CHECK(v == f, "rng:same", "two generators with the seed " << sd << " give different numbers"); } }
            VH_CHECK(repeats(all) == 0, "rng:seeds", "generators with different seeds near " << sd << " share " << repeats(all) << " of " << all.size() << " random numbers"); count("streams compared", 33); count("random numbers", (long long)all.size());
        }
        try {
            const bool media = r.p(.5); World w; ScenePlan plan; std::string base = "$.assets";
            w = make_world(r, base, dir, true, media);
            { std::vector<std::string> mats; size_t at = 0; for (size_t i = 0; i < w.s.size(); i++) if (w.s[i].name.rfind("mat", 0) == 0 || w.s[i].name.rfind("mix", 0) == 0) { mats.push_back(w.s[i].name); at = i + 1; }
              for (int k = 0; k < 8; k++) { Spec s; s.name = "matrec" + std::to_string(k); s.key = "material::vh_record"; std::string m = r.pick(mats); s.prop = { {"ref", w.ref(m)} }; s.deps = { m }; w.s.insert(w.s.begin() + at++, s); } }
            plan = plan_scene(r, w, media);
            auto make = [&] { lm::reset(); if (!load_world(lm::assets(), w)) return false; fill_scene(lm::comp::get<lm::Scene>(base + ".scene"), w, plan); return true; };
            if (!make()) continue;
            std::vector<const Spec*> rs; for (auto& s : w.s) if (s.key.rfind("renderer::", 0) == 0) rs.push_back(&s);
            auto get = [&](const Spec* s) { return lm::comp::get<lm::Renderer>(base + "." + s->name); };
            std::map<const Spec*, std::vector<double>> first;
            auto film = [&](const Spec* s) { return s->prop["output"].get<std::string>(); };
            for (auto* s : rs) {
                const bool fixed = s->key == "renderer::raycast" || s->key == "renderer::blank";
                std::vector<std::pair<double, std::thread::id>> u1, u2;
                first[s] = image(get(s), film(s), &u1); if (hs.is_open()) hs << id << " " << s->key << " " << std::hex << hash(first[s]) << std::dec << "\n";
                cover("renderer", s->key); count("images"); { bool b = false; for (double d : first[s]) b |= d != 0; if (b) count("images not black"); }
                VH_CHECK(repeats(vals(u1)) == 0, "random:reused:" + s->key, s->key << " uses " << repeats(vals(u1)) << " of " << u1.size() << " random numbers again within one rendering"); count("random numbers", (long long)u1.size());
                auto b = image(get(s), film(s), &u2); VH_CHECK(same(first[s], b), "again:" + s->key, "rendering again with the same renderer: " << where(first[s], b)); count("images compared");
                VH_CHECK(vals(u1) == vals(u2), "again:numbers:" + s->key, "rendering again uses other random numbers");
                if (fixed) {
                    for (int t : { 1, r.i(2, 4), r.i(5, 9) }) { threads(t); vh_sched_mode(r.i(4)); vh_sched_seed(r.next()); auto c = image(get(s), film(s)); VH_CHECK(same(first[s], c), "threads:" + s->key, t << " threads: " << where(first[s], c)); count("images compared"); cover("threads", std::to_string(t)); } threads(1); vh_sched_mode(0);
                    continue;
                }
                // other seeds, no seed, several threads: random numbers must not repeat
                auto fresh = [&](Json p, int t) { threads(t); std::vector<std::pair<double, std::thread::id>> u; lm::load<lm::Renderer>("other", s->key, p); image(lm::comp::get<lm::Renderer>("$.assets.other"), film(s), &u); threads(1); return u; };
                auto uncommon = [&](std::vector<double> a, const std::vector<double>& c, const std::string& key, const std::string& what) { size_t ra = repeats(a) + repeats(c); a.insert(a.end(), c.begin(), c.end()); size_t k = repeats(a) - ra; VH_CHECK(k == 0, key + ":" + s->key, s->key << ": " << what << " share " << k << " of " << a.size() << " random numbers"); count("random numbers", (long long)c.size()); count("streams compared"); };
                if (r.p(.5)) { Json p = s->prop; const int sd = p["seed"].get<int>(); p["seed"] = r.p(.4) ? sd + 5000 + r.i(1 << 20) : sd ^ (1 << r.i(13, 30)); uncommon(vals(u1), vals(fresh(p, 1)), "random:seeds", "renderings with different seeds"); }
                if (r.p(.3)) { Json p = s->prop; p.erase("seed"); auto a = vals(fresh(p, 1)), c = vals(fresh(p, 1)); uncommon(a, c, "random:unseeded", "renderings without a seed"); uncommon(a, vals(u1), "random:unseeded-fixed", "renderings with and without a seed"); if (hs.is_open() && a.size()) hs << id << " unseeded:" << s->key << " " << std::hex << hash(a) << std::dec << "\n"; }
                if (r.p(.6)) {
                    int t = r.i(2, 8); Json p = s->prop; p["spp"] = 6; p["num_samples"] = 1000; if (r.p(.2)) p.erase("seed"); vh_sched_mode(r.i(4)); vh_sched_seed(r.next()); auto u = fresh(p, t); vh_sched_mode(0); std::set<std::thread::id> th; for (auto& x : u) th.insert(x.second);
                    size_t k = repeats(vals(u)); count("random numbers", (long long)u.size()); if (th.size() > 1) { count("renderings on several threads"); count("streams compared", (long long)th.size()); } cover("threads", std::to_string(th.size()));
                    VH_CHECK(k == 0, "random:threads:" + s->key, s->key << ": " << th.size() << " threads share " << k << " of " << u.size() << " random numbers");
                }
            }
            // the same renderings after everything else, from new renderers, in another order, and in a new world
            auto order = rs; for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.i((int)i)]);
            for (auto* s : order) { auto b = image(get(s), film(s)); VH_CHECK(same(first[s], b), "order:" + s->key, "rendering after other renderings: " << where(first[s], b)); count("images compared"); }
            for (auto* s : order) if (r.p(.5)) { lm::assets()->load_asset("again", s->key, s->prop); auto b = image(lm::comp::get<lm::Renderer>("$.assets.again"), film(s)); VH_CHECK(same(first[s], b), "new:" + s->key, "rendering with a new renderer of the same parameters: " << where(first[s], b)); count("images compared"); }
            if (r.p(.5)) { lm::shutdown(); lm_init(1); }
            if (make()) for (auto* s : order) { auto b = image(get(s), film(s)); VH_CHECK(same(first[s], b), "world:" + s->key, "rendering the scene created again: " << where(first[s], b)); count("images compared"); }
            if (id < 3) sample("scene " + std::to_string(id) + ": " + std::to_string(rs.size()) + " renderers, " + (media ? "with" : "without") + " media");
        } catch (const std::exception& e) { violation("unexpected-exception", e.what()); }
        if (st().violations > 60) break;
    }
    lm::shutdown();
    return finish();
}
