// P03: serialization.  Random asset trees are saved and restored, as complete states and as relocated
// subtrees; the restored components have to behave exactly like the saved ones, and saving must be
// refused exactly when a reference leaves the saved subtree.
#include "vasset.h"
#include "vsched.h"
#include <lm/serial.h>
using namespace vh;

static std::map<std::string, Fp> all_fp(const World& w, const std::string& base, bool render) {
    std::map<std::string, Fp> m;
    for (auto& s : w.s) { auto* c = lm::comp::get<lm::Component>(base + "." + s.name); Fp f; if (c) f.text += "(" + s.name + ")"; fingerprint(f, c, render); if (c) { for (auto& x : w.s) (void)x; } m[s.name] = f; }
    // the films last: what the renderers left there
    for (auto& s : w.s) if (s.key == "film::bitmap") { Fp f; fingerprint(f, lm::comp::get<lm::Component>(base + "." + s.name)); m[s.name + "/after"] = f; }
    return m;
}
static void compare(const World& w, std::map<std::string, Fp>& a, std::map<std::string, Fp>& b, const std::string& what) {
    for (auto& x : a) {
        std::string key = "film"; for (auto& s : w.s) if (s.name == x.first) key = s.key;
        std::string d = x.second.diff(b[x.first]);
        count("components compared"); count("observations", (long long)x.second.v.size()); cover("component", key);
        VH_CHECK(d.empty(), "restored:" + key, what << " of a " << key << ": " << d);
    }
}
int main(int argc, char** argv) {
    parse(argc, argv);
    lm_init(1);
    const int part = atoi(args().part.c_str()), parts = args().extra.count("parts") ? atoi(args().extra["parts"].c_str()) : 1;
    const std::string dir = scratch();
    const long long N = n_cases(1600, 40000);
    for (long long id = part; id < N; id += parts) {
        if (!want(id)) continue;
        Rand r(args().seed * 99991ull + id);
        begin_case("tree " + std::to_string(id));
        try {
        lm::reset();
        const bool sub = id % 2 == 1;
        std::string gname = r.pick(std::vector<std::string>{ "g", "obj1", "a:b", "x-1" });
        lm::AssetGroup* g = lm::assets(); std::string base = "$.assets";
        if (sub) { g = lm::load<lm::AssetGroup>(gname, "asset_group::default", {}); base = "$.assets." + gname; }
        const bool media = r.p(.7);
        World w = make_world(r, base, dir, true, media);
        if (r.p(.7)) { Spec s; s.name = "model"; s.key = "model::wavefrontobj"; s.prop = { {"path", obj_files(r, dir, (int)(id % 50))} }; w.s.push_back(s); Spec t; t.name = "omesh"; t.key = "mesh::wavefrontobj"; t.prop = s.prop; w.s.push_back(t); }
        if (!load_world(g, w)) continue;
        ScenePlan plan = plan_scene(r, w, media);
        auto* sc = lm::comp::get<lm::Scene>(base + ".scene");
        fill_scene(sc, w, plan);
        if (w.find("model") && r.p(.6)) { int k = sc->create_group_node(gen_transform(r, r.i(7))); sc->add_child_from_model(k, base + ".model"); sc->add_child(0, k); sc->build(); }
        // renderers would change the films first: they are compared after what they render
        for (auto& s : w.s) if (s.key == "film::bitmap") { auto* f = lm::comp::get<lm::Film>(base + "." + s.name); auto z = f->size(); for (int y = 0; y < z.h; y++) for (int x = 0; x < z.w; x++) f->set_pixel(x, y, r.v3(-1, 9)); }
        const std::string file = dir + "/state" + std::to_string(id % 4);
        const bool scheds = r.p(.3); Scheds z; if (scheds) z = Scheds::make(r, g, base, true);
        if (!sub) {
            auto unsaved = all_fp(w, base, false);
            lm::save_state_to_file(file);
            auto before = all_fp(w, base, true);
            for (auto& x : unsaved) if (x.first.rfind("film", 0) != 0 && x.first.rfind("rend", 0) != 0) { std::string d = x.second.diff(before[x.first]); VH_CHECK(d.empty(), "saving-changes", "saving changed '" << x.first << "': " << d); }
            if (r.p(.5)) lm::reset();
            else if (r.p(.5)) { lm::shutdown(); vh::lm_init(1); }
            lm::load_state_from_file(file);
            locators(lm::assets(), base, "restored state");
            auto after = all_fp(w, base, true);
            compare(w, before, after, "state round trip");
            if (scheds) z.check(base, " [restored state]");
            count("state round trips");
            // again, after the renderers ran
            auto b2 = all_fp(w, base, false);
            lm::save_state_to_file(file); lm::reset(); lm::load_state_from_file(file);
            auto a2 = all_fp(w, base, false); compare(w, b2, a2, "second state round trip");
            // replacing an asset of a restored state updates the restored references
            for (int k = 0; k < 4; k++) {
                std::vector<const Spec*> c; for (auto& s : w.s) if (s.key != "scene::default" && s.key.rfind("renderer", 0) != 0 && s.name != "model") c.push_back(&s);
                const Spec* s = r.pick(c); lm::assets()->load_asset(s->name, s->key, s->prop); 
                locators(lm::assets(), base, "replacement of '" + s->key + "' in a restored state"); count("replacements after restoring");
            }
            lm::comp::get<lm::Scene>(base + ".scene")->build();
            auto a3 = all_fp(w, base, false);
            for (auto& x : a2) if (x.first.rfind("film", 0) != 0) { std::string d = x.second.diff(a3[x.first]); std::string key; for (auto& s : w.s) if (s.name == x.first) key = s.key; VH_CHECK(d.empty() || key == "light::directional" || key == "light::envconst" || key == "light::env", "replaced:" + key, "after replacing assets of a restored state by equal ones: " << d); }
        } else {
            auto unsaved = all_fp(w, base, false);
            std::ofstream os(file, std::ios::binary); lm::serial::save_comp_owned(os, g, g->loc()); os.close();
            auto before = all_fp(w, base, true);
            for (auto& x : unsaved) if (x.first.rfind("film", 0) != 0 && x.first.rfind("rend", 0) != 0) { std::string d = x.second.diff(before[x.first]); VH_CHECK(d.empty(), "saving-changes", "saving changed '" << x.first << "': " << d); }
            // references that leave the subtree
            for (int k = 0; k < 2; k++) {
                std::string outer = k == 0 ? gname + r.pick(std::vector<std::string>{ "0", "1", "x" }) : "out";
                lm::load<lm::Texture>(outer, "texture::constant", { {"color", {1, 0, 0}} });
                auto* g2 = lm::load<lm::AssetGroup>(k == 0 ? gname : "other", "asset_group::default", {});
                g2->load_asset("m", "material::diffuse", { {"Kd", {1, 1, 1}}, {"mapKd", "$.assets." + outer} });
                bool th = false; try { std::ostringstream o; lm::serial::save_comp_owned(o, g2, g2->loc()); } catch (const lm::Exception&) { th = true; }
                VH_CHECK(th, "outer-reference", "the subtree '" << g2->loc() << "' with a reference to '$.assets." << outer << "' is saved without complaint");
                g2->load_asset("m", "material::diffuse", { {"Kd", {1, 1, 1}}, {"mapKd", "$.assets." + outer} });
                // ... while inner references are fine
                g2->load_asset("t", "texture::constant", { {"color", {1, 0, 0}} }); g2->load_asset("m", "material::diffuse", { {"Kd", {1, 1, 1}}, {"mapKd", g2->loc() + ".t"} });
                th = false; try { std::ostringstream o; lm::serial::save_comp_owned(o, g2, g2->loc()); } catch (const lm::Exception& e) { th = true; }
                VH_CHECK(!th, "inner-reference", "a subtree without references to the outside cannot be saved");
                count("subtree reference tests");
            }
            if (r.p(.5)) lm::reset();
            std::string nn = "restored"; auto* h = lm::assets()->load_serialized(nn, file);
            if (!h) { violation("subtree:load", "a saved subtree is not restored"); continue; }
            World w2 = w; w2.base = "$.assets." + nn;
            locators(h, w2.base, "relocated subtree");
            auto after = all_fp(w2, w2.base, true);
            compare(w, before, after, "relocated subtree");
            if (scheds) z.check(w2.base, " [relocated subtree]");
            count("subtree round trips");
            bool th = false; try { lm::assets()->load_serialized(nn, file); } catch (const lm::Exception&) { th = true; }
            VH_CHECK(th, "subtree:twice", "a name that is in use is taken by a restored subtree");
            VH_CHECK(lm::comp::get<lm::Component>(w2.base) == h, "subtree:twice-lost", "a refused restoration changed the asset");
            // names that no locator can reach
            std::string bn = r.pick(std::vector<std::string>{ "a.b", "", "restored.x", "with space", "$", "x." });
            th = false; try { lm::assets()->load_serialized(bn, file); } catch (const lm::Exception&) { th = true; }
            VH_CHECK(th, "subtree:name", "a subtree is restored under the invalid name '" << bn << "'");
            int n = 0; lm::Component::ComponentVisitor vis = [&](lm::Component*& c, bool) { if (c) n++; VH_CHECK(!c || lm::comp::get<lm::Component>(c->loc()) == c, "subtree:unreachable", "an asset is left which its locator does not reach"); };
            lm::assets()->foreach_underlying(vis);
            count("refused names");
        }
        // files that are not what was saved: refused, and the current assets stay
        const std::string bytes = read_file(file);
        for (int k = 0; k < 3; k++) {
            std::string bad = bytes; int kind = r.i(3);
            if (kind == 0) bad = bytes.substr(0, r.i((int)bytes.size())); else if (kind == 1) bad = ""; else { std::string t = r.pick(std::vector<std::string>{ "material::", "texture::", "mesh::raw", "light::", "volume::" }); size_t at = bytes.find(t, r.i(60) * bytes.size() / 200); if (at == std::string::npos) at = bytes.find(t); bad[at + 1] = '#'; }
            write_file(file + ".bad", bad);
            auto* t = lm::load<lm::Texture>("keep", "texture::constant", { {"color", {.25, .5, .75}} });
            bool th = false; try { if (sub) lm::assets()->load_serialized("bad" + std::to_string(k), file + ".bad"); else lm::load_state_from_file(file + ".bad"); } catch (const std::exception&) { th = true; }
            VH_CHECK(th, "damaged:accepted", "a damaged file (kind " << kind << ") is restored without complaint");
            if (th) {
                VH_CHECK(lm::comp::get<lm::Texture>("$.assets.keep") == t && close(t->eval(Vec2(.5)), Vec3(.25, .5, .75)), "damaged:lost", "after a failed restoration the assets are not what they were");
                if (sub) VH_CHECK(lm::comp::get<lm::Component>("$.assets.bad" + std::to_string(k)) == nullptr, "damaged:registered", "a failed restoration leaves an asset behind");
            }
            count("damaged files");
        }
        bool th = false; try { lm::load_state_from_file(dir + "/nonexistent"); } catch (const std::exception&) { th = true; } VH_CHECK(th, "missing:accepted", "a missing file is restored without complaint");
        th = false; try { lm::save_state_to_file(dir + "/nonexistent/state"); } catch (const std::exception&) { th = true; } VH_CHECK(th, "unwritable", "saving where nothing can be written succeeds");
        if (id < 4) { std::string k; for (auto& s : w.s) k += s.key + " "; sample("tree " + std::to_string(id) + (sub ? " (relocated subtree): " : " (state): ") + k); }
        } catch (const std::exception& e) { violation("unexpected-exception", std::string("saving or restoring fails: ") + e.what()); }
        if (st().violations > 60) break;
    }
    return finish();
}
