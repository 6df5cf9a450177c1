// P04: replacing assets.  Random histories of replacements (also failing ones) are applied to an asset
// tree that uses every component; afterwards all references have to lead to the current assets and
// everything has to behave like a tree that was created with the final parameters in the first place.
#include "vasset.h"
#include "vsched.h"
using namespace vh;

static const std::map<std::string, std::vector<std::string>>& alternatives() {
    static const std::map<std::string, std::vector<std::string>> m{
        { "mesh", { "mesh::raw" } }, { "tex", { "texture::constant", "texture::bitmap" } },
        { "mat", { "material::diffuse", "material::glossy", "material::glass", "material::mirror", "material::mask", "material::proxy" } },
        { "mix", { "material::constant_weight_mixture_rr", "material::constant_weight_mixture_marginalized" } },
        { "light", { "light::area", "light::point", "light::directional" } }, { "env", { "light::envconst", "light::env" } },
        { "cam", { "camera::pinhole" } }, { "phase", { "phase::hg", "phase::isotropic" } },
        { "volc", { "volume::constant", "volume::sphere", "volume::gaussian" } }, { "vold", { "volume::checker", "volume::constant", "volume::sphere" } }, { "zmulti", { "volume::multi" } },
        { "med", { "medium::homogeneous", "medium::heterogeneous" } }, { "film", { "film::bitmap" } }, { "accel", { "accel::sahbvh" } } };
    return m;
}
static std::map<std::string, Fp> prints(const World& w, bool render) {
    std::map<std::string, Fp> m;
    for (auto& s : w.s) { Fp f; auto* c = lm::comp::get<lm::Component>(w.ref(s.name)); f.text = c ? c->key() : "(none)"; fingerprint(f, c, render); m[s.name] = f; }
    return m;
}
static bool depends(const World& w, const Spec& s, const std::string& on, int depth = 0) {
    if (depth > 12) return false;
    for (auto& d : s.deps) { if (d == on) return true; if (auto* x = w.find(d)) if (depends(w, *x, on, depth + 1)) return true; }
    return false;
}

int main(int argc, char** argv) {
    parse(argc, argv);
    lm_init(1);
    const int part = atoi(args().part.c_str()), parts = args().extra.count("parts") ? atoi(args().extra["parts"].c_str()) : 1;
    const std::string dir = scratch();
    const long long N = n_cases(160, 6000);
    for (long long id = part; id < N; id += parts) {
        if (!want(id)) continue;
        Rand r(args().seed * 77773ull + id);
        begin_case("history " + std::to_string(id));
        try {
        lm::reset();
        std::string base = "$.assets"; lm::AssetGroup* g = lm::assets();
        const bool nested = r.p(.4);
        auto enter = [&]() { g = lm::assets(); if (nested) { g = lm::load<lm::AssetGroup>("grp", "asset_group::default", {}); base = "$.assets.grp"; } };
        enter();
        const bool media = r.p(.7);
        World w = make_world(r, base, dir, true, media);
        bool model = r.p(.5);
        if (model) { Spec s; s.name = "model"; s.key = "model::wavefrontobj"; s.prop = { {"path", obj_files(r, dir, (int)(id % 20))} }; w.s.push_back(s); }
        if (!load_world(g, w)) continue;
        ScenePlan plan = plan_scene(r, w, media);
        auto fill = [&](uint64_t seed) {
            Rand q(seed); auto* sc = lm::comp::get<lm::Scene>(base + ".scene"); fill_scene(sc, w, plan);
            if (model) { int k = sc->create_group_node(gen_transform(q, q.i(7))); sc->add_child_from_model(k, base + ".model"); sc->add_child(0, k); sc->build(); }
        };
        const uint64_t fs = r.next(); fill(fs);
        // references from assets outside of the group that is changed
        if (nested) for (auto& s : w.s) if (s.name.rfind("tex", 0) == 0 || s.key == "material::diffuse") { if (s.key.rfind("texture", 0) == 0) lm::load<lm::Material>("outer_" + s.name, "material::diffuse", { {"Kd", {.3, .3, .3}}, {"mapKd", base + "." + s.name} }); else lm::load<lm::Material>("outer_" + s.name, "material::proxy", { {"ref", base + "." + s.name} }); }
        std::string log;
        const int steps = r.i(1, 8);
        for (int k = 0; k < steps; k++) {
            Spec& s = w.s[r.i((int)w.s.size())]; const std::string kind = s.name.substr(0, s.name.find_first_of("0123456789"));
            if (s.name == "scene" || kind == "rend") { if (s.name == "scene") continue; }
            auto alt = alternatives().find(kind);
            World before; before.base = w.base; for (auto& x : w.s) { if (x.name == s.name) break; before.s.push_back(x); }
            if (r.p(.25)) {   // a replacement that fails
                auto* old = lm::comp::get<lm::Component>(w.ref(s.name)); lm::comp::get<lm::Scene>(base + ".scene")->build(); auto f0 = prints(w, false); int how = r.i(3); bool th = false; lm::Component* res = nullptr;
                try { if (how == 0) res = g->load_asset(s.name, "nonexistent::impl", {}); else if (how == 1) res = g->load_asset(s.name, "texture::bitmap", { {"path", dir + "/none.png"} }); else res = g->load_asset(s.name, "light::area", { {"Ke", {1, 1, 1}}, {"mesh", base + ".nothing"} }); } catch (const std::exception&) { th = true; }
                log += " failed(" + s.key + ")";
                VH_CHECK(th || res == nullptr, "failed:accepted", "an asset that cannot be created is accepted");
                VH_CHECK(lm::comp::get<lm::Component>(w.ref(s.name)) == old, "failed:lost", "a failed replacement of '" << s.key << "' removes the asset");
                if (lm::comp::get<lm::Component>(w.ref(s.name)) == old) { auto f1 = prints(w, false); for (auto& x : f0) { std::string d = x.second.diff(f1[x.first]); VH_CHECK(d.empty(), "failed:changed", "a failed replacement of '" << s.key << "' changes '" << x.first << "': " << d); } }
                locators(lm::assets(), "$.assets", "failed replacement of '" + s.key + "'");
                count("failed replacements"); continue;
            }
            Spec n = s; n.deps.clear();
            // the same parameters again: what derives data from the asset still fits and need not be created again
            const bool same = r.p(.25);
            if (same) n.deps = s.deps;
            else if (s.name == "model") { n.prop = { {"path", obj_files(r, dir, (int)(id % 20))} }; }
            else if (kind == "rend") { n.prop = vprop(r, before, n.key, n.deps, dir); }
            else {
                if (alt == alternatives().end()) continue;
                // lights keep their class: the plan of the scene knows area lights as parts of primitives with meshes
                n.key = r.p(.5) ? s.key : r.pick(alt->second);
                if (n.key == "material::proxy") { bool any = false; for (auto& x : before.s) any |= x.name.rfind("mat", 0) == 0; if (!any) n.key = s.key == "material::proxy" ? "material::mirror" : s.key; }
                if ((n.key == "light::area") != (s.key == "light::area")) n.key = s.key;
                // the mesh of an area light is the mesh of its primitive
                n.prop = vprop(r, before, n.key, n.deps, dir);
                if (n.key == "light::area") { n.deps = s.deps; n.prop["mesh"] = s.prop["mesh"]; }
                if (n.key == "material::diffuse" && r.p(.3)) { n.deps.clear(); n.prop.erase("mapKd"); }
            }
            log += " " + s.key + "->" + n.key;
            auto* old = lm::comp::get<lm::Component>(w.ref(s.name)); (void)old;
            auto* c = g->load_asset(n.name, n.key, n.prop); s = n;
            VH_CHECK(c && lm::comp::get<lm::Component>(w.ref(s.name)) == c, "replace:lookup", "after replacing, '" << s.name << "' does not lead to the new asset");
            VH_CHECK(c && c->loc() == w.ref(s.name) && c->key() == s.key, "replace:identity", "the new asset has locator '" << (c ? c->loc() : "") << "' and type '" << (c ? c->key() : "") << "'");
            locators(lm::assets(), "$.assets", "replacement of '" + s.key + "'");
            count("replacements"); cover("replaced", n.key);
            // what derives data from another asset when it is created is created again
            if (same) count("replacements with the same parameters");
            else for (auto& x : w.s) if ((x.key == "light::area" || x.key == "volume::multi" || x.name.rfind("mix", 0) == 0) && depends(w, x, s.name)) { g->load_asset(x.name, x.key, x.prop); locators(lm::assets(), "$.assets", "replacement of '" + x.key + "'"); }
        }
        {   // schedulers, which cannot be compared by images
            lm::comp::get<lm::Scene>(base + ".scene")->build();
            Scheds z = Scheds::make(r, g, base, true); z.check(base, " [created]");
            for (int k = r.i(1, 3); k > 0; k--) { z.film(r, g); locators(lm::assets(), "$.assets", "replacement of the film of schedulers"); z.check(base, " [film replaced]"); count("replacements"); }
        }
        // films are not part of the comparison of histories: renderers leave their images there
        lm::comp::get<lm::Scene>(base + ".scene")->build();
        auto a = prints(w, true);
        std::map<std::string, Fp> ao; if (nested) for (auto& s : w.s) if (auto* c = lm::comp::get<lm::AssetGroup>("$.assets")) { (void)c; try { if (s.name.rfind("tex", 0) == 0 || s.key == "material::diffuse") if (auto* m = lm::comp::get<lm::Material>("$.assets.outer_" + s.name)) fingerprint(ao["outer_" + s.name], m); } catch (...) {} }
        lm::reset(); enter();
        if (!load_world(g, w)) continue;
        fill(fs);
        auto b = prints(w, true);
        for (auto& s : w.s) { if (s.name.rfind("film", 0) == 0) continue;
            // lights that are not part of the scene do not know its extent
            if (s.key == "light::directional" || s.key.rfind("light::env", 0) == 0) { bool in = false; for (auto& p : plan.prims) in |= p[2] == s.name; if (!in) continue; }
            std::string d = a[s.name].diff(b[s.name]); count("components compared"); count("observations", (long long)a[s.name].v.size());
            VH_CHECK(d.empty(), "stale:" + s.key, "after" << log << ": '" << s.name << "' does not behave like one created with the current assets: " << d); }
        for (auto& s : w.s) if (s.name.rfind("film", 0) == 0) { Fp f; fingerprint(f, lm::comp::get<lm::Component>(w.ref(s.name))); count("films compared"); (void)f; }
        if (nested) for (auto& x : ao) { std::string t = x.first.substr(6); Fp f; lm::Material* m; if (t.rfind("tex", 0) == 0) m = lm::load<lm::Material>(x.first, "material::diffuse", { {"Kd", {.3, .3, .3}}, {"mapKd", base + "." + t} }); else m = lm::load<lm::Material>(x.first, "material::proxy", { {"ref", base + "." + t} }); fingerprint(f, m); std::string d = x.second.diff(f); VH_CHECK(d.empty(), "stale:outer", "after" << log << ": an asset outside of the group does not follow: " << d); count("outer references compared"); }
        cover("history", log.substr(0, 200));
        if (id < 6) sample("history" + log);
        } catch (const std::exception& e) { violation("unexpected-exception", std::string("replacing assets fails: ") + e.what()); }
        if (st().violations > 60) break;
    }
    return finish();
}
