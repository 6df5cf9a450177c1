// P10: hostile but acceptable input.  Numbers within the parameters of every component, the transforms and the
// geometry are replaced by extreme ones; whatever is accepted is then used in every way.  Refusing is fine;
// what the sanitizers see (or a crash, or no end) is not.
#include "vasset.h"
#include <lm/serial.h>
#include <lm/exception.h>
using namespace vh;

static void leaves(Json& j, const std::string& path, std::vector<std::pair<Json*, std::string>>& out) {
    if (j.is_number()) out.push_back({ &j, path });
    else if (j.is_array()) { int i = 0; for (auto& x : j) leaves(x, path + "[" + std::to_string(i++) + "]", out); }
    else if (j.is_object()) for (auto& x : j.items()) leaves(x.value(), path + "." + x.key(), out);
}
static bool nonfinite() { return args().extra.count("nonfinite") > 0; }
// Tracking through a medium takes time in proportion to the distance: no far distances where one is crossed.
static bool near_ = false;
static double extreme(Rand& r) {
    if (near_) return r.pick(std::vector<double>{ 0, 0, -0.0, 1, -1, .5, 1e-12, -1e-12, 1e-300, -1e-300, 5e-324, 90, -180, 1 - 1e-16, 1 + 1e-15 });
    static const std::vector<double> v{ 0, 0, -0.0, 1, -1, .5, 1e-12, -1e-12, 1e-300, -1e-300, 1e12, -1e12, 1e150, -1e150, 1e300, -1e300, 5e-324, 90, 180, 360, 1 - 1e-16, 1 + 1e-15, 3e9, 1e19 };
    if (nonfinite() && r.p(.3)) return r.pick(std::vector<double>{ INFINITY, -INFINITY, NAN });
    return r.pick(v);
}
static void damage(Rand& r, Spec& s) {
    std::vector<std::pair<Json*, std::string>> l; leaves(s.prop, "", l); if (l.empty()) return;
    // sizes whose number of pixels does not fit an int (never ones that can be allocated)
    if (s.key == "film::bitmap" && r.p(.15)) { auto z = r.pick(std::vector<std::pair<int, int>>{ { 65536, 65536 }, { 46341, 46341 }, { 1 << 30, 4 }, { 2147483647, 2147483647 }, { 65537, 65535 * 2 } }); s.prop["w"] = z.first; s.prop["h"] = z.second; count("films too large"); return; }
    // many numbers of a mesh, few of everything else
    int n = s.key == "mesh::raw" ? r.i(1, 6) : r.i(1, 2);
    while (n-- > 0) {
        auto& x = r.pick(l); const std::string& p = x.second;
        const bool integer = x.first->is_number_integer() && s.key != "material::diffuse";
        if (integer && (s.key.rfind("renderer::", 0) == 0 || s.key == "film::bitmap")) {
            const bool amount = p == ".spp" || p == ".num_samples" || p == ".w" || p == ".h";
            if (amount) *x.first = r.pick(std::vector<int>{ 0, 1, 2, 3, 300, -1 }); else if (p == ".max_verts") *x.first = r.pick(std::vector<int>{ 0, 1, 2, -1, 3, 12 }); else *x.first = r.pick(std::vector<int>{ 0, 1, 2, -1, 3, 1000, 2147483647, -2147483647 - 1 });
        } else if (integer && p.find(".fs") != std::string::npos) *x.first = r.pick(std::vector<int>{ 0, 0, 1, 2 });
        else if (s.key.rfind("volume::", 0) == 0 && p == ".scalar") *x.first = r.pick(std::vector<double>{ 0, 1e-300, 1e-12, 1, 50 });     // tracking takes time in proportion to the density
        else *x.first = extreme(r);
        cover("damaged", s.key + p.substr(0, p.find('['))); count("damaged numbers");
    }
    if (s.key == "mesh::raw" && r.p(.05)) for (auto* k : { "p", "n", "t" }) s.prop["fs"][k] = Json::array();       // no triangle at all
    if (s.key == "volume::multi" && r.p(.2)) s.prop[r.p(.5) ? "volumes_alb" : "volumes_den"] = Json::array();
    if (s.key.rfind("material::constant_weight", 0) == 0 && r.p(.2)) s.prop = Json::array();
}
static Mat4 hostile_transform(Rand& r) {
    Mat4 M = gen_transform(r, r.i(7)); if (r.p(.4)) return M;
    if (r.p(.3)) return Mat4(0.0);
    for (int k = r.i(1, 3); k > 0; k--) M[r.i(4)][r.i(4)] = extreme(r);
    return M;
}
int main(int argc, char** argv) {
    parse(argc, argv); lm_init(1);
    auto& A = args(); const long long parts = A.extra.count("parts") ? atoll(A.extra["parts"].c_str()) : 1, part = A.part.empty() ? 0 : atoll(A.part.c_str());
    const long long N = n_cases(400, 20000); const std::string dir = scratch();
    for (long long id = part; id < N; id += parts) {
        if (!want(id)) continue;
        Rand r(A.seed * 424243ull + id); std::string at = "case " + std::to_string(id); begin_case(at);
        auto guard = [&](const std::string& what, auto f) { begin_case(at + " " + what); try { f(); count("accepted"); return true; } catch (const std::exception& e) { count("refused"); return false; } };
        near_ = r.p(.5);
        guard("threads", [&] { lm::parallel::shutdown(); lm::parallel::init("openmp", { {"num_threads", r.p(.8) ? 1 : r.i(2, 4)}, {"progress_update_interval", 1} }); });
        lm::reset(); const std::string base = "$.assets"; World w = make_world(r, base, dir, true, r.p(.6));
        if (r.p(.4)) { Spec s; s.name = "model"; s.key = "model::wavefrontobj"; s.prop = { {"path", obj_files(r, dir, (int)(id % 20))} }; w.s.push_back(s); }
        int k = r.i(1, 5); while (k-- > 0) { auto& s = w.s[r.i((int)w.s.size())]; damage(r, s); at += " [" + s.key + " " + s.prop.dump(-1, ' ', false, Json::error_handler_t::replace).substr(0, 120) + "]"; }
        for (auto& s : w.s) guard("load " + s.name + " " + s.key, [&] { if (!lm::assets()->load_asset(s.name, s.key, s.prop)) throw std::runtime_error("null"); });
        auto* sc = lm::comp::get<lm::Scene>(base + ".scene"); if (!sc) continue;
        ScenePlan plan = plan_scene(r, w, true); const bool bent = r.p(.4);
        for (size_t i = 0; i < plan.prims.size(); i++) guard("node " + std::to_string(i), [&] {
            static const char* nm[5] = { "mesh", "material", "light", "camera", "medium" };
            Json j = Json::object(); for (int q = 0; q < 5; q++) if (!plan.prims[i][q].empty()) { if (!lm::comp::get<lm::Component>(w.ref(plan.prims[i][q]))) throw std::runtime_error("missing"); j[nm[q]] = w.ref(plan.prims[i][q]); }
            int n = sc->create_primitive_node(j), g = sc->create_group_node(bent ? hostile_transform(r) : plan.M[i]);
            if (plan.kind[i] == 0) sc->add_child(g, n); else { int in = sc->create_instance_group_node(); sc->add_child(in, n); sc->add_child(g, in); }
            sc->add_child(0, g);
        });
        if (lm::comp::get<lm::Component>(base + ".model")) guard("model", [&] { int g = sc->create_group_node(bent ? hostile_transform(r) : gen_transform(r, 3)); sc->add_child_from_model(g, base + ".model"); sc->add_child(0, g); });
        if (!guard("build", [&] { sc->build(); })) continue;
        for (auto& s : w.s) { auto* c = lm::comp::get<lm::Component>(w.ref(s.name)); if (c && s.key.rfind("renderer::", 0) != 0) guard("use " + s.key, [&] { Fp f; fingerprint(f, c, false); count("observations", (long long)f.v.size()); }); }
        guard("rays", [&] { for (int i = 0; i < 40; i++) { Vec3 o = r.v3(-3, 3), d = r.dir(); if (r.p(.3)) d[r.i(3)] = 0; if (r.p(.1)) o[r.i(3)] = extreme(r); if (r.p(.1)) d[r.i(3)] = extreme(r); auto h = sc->intersect({ o, d }); if (h) { count("hits"); sc->is_light(*h); } } });
        for (auto& s : w.s) if (s.key.rfind("renderer::", 0) == 0) {
            if (!near_ && s.key.rfind("renderer::volpt", 0) == 0) continue;
            auto* q = lm::comp::get<lm::Renderer>(w.ref(s.name)); if (q && guard("render " + s.key, [&] { q->render(); })) { count("renderings"); cover("renderer", s.key); } }
        for (auto& s : w.s) if (s.key == "film::bitmap") if (auto* f = lm::comp::get<lm::Film>(w.ref(s.name))) for (auto* e : { "png", "hdr", "pfm" }) {
            // the writer of .hdr files (stb) converts values to bytes without a check of their range
            auto b = f->buffer(); bool odd = false; for (int i = 0; i < 3 * b.w * b.h; i++) odd |= !(b.data[i] >= 0 && b.data[i] < 1e30); if (odd && std::string(e) == "hdr") continue;
            guard(std::string("save film ") + e, [&] { f->save(dir + "/film." + e); count("films saved"); }); }
        guard("state", [&] { lm::save_state_to_file(dir + "/state"); lm::reset(); lm::load_state_from_file(dir + "/state"); count("states restored"); });
        if (id < 5) sample(at.substr(0, 400));
    }
    lm::shutdown();
    return finish();
}
