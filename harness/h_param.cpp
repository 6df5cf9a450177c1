// P21: parameters.  Every parameter of every component is removed, given a wrong type, a wrong size or a
// reference to nothing; the creation must fail with an exception, leave nothing behind and keep the asset
// that had the name.  Omitted optional parameters behave as their documented defaults; JSON values are
// converted exactly; use before initialisation and incomplete scenes raise exceptions.
#include "vasset.h"
#include <lm/json.h>
#include <lm/objloader.h>
#include <lm/progress.h>
using namespace vh;

struct Par { const char* key; const char* par; const char* kind; bool required; Json def; };
static std::vector<Par> table() {
    std::vector<Par> t;
    auto R = [&](const char* k, const char* p, const char* kind) { t.push_back({ k, p, kind, true, Json() }); };
    auto O = [&](const char* k, const char* p, const char* kind, Json d = Json()) { t.push_back({ k, p, kind, false, d }); };
    R("texture::constant", "color", "vec3"); O("texture::constant", "alpha", "num");
    R("texture::bitmap", "path", "file"); O("texture::bitmap", "flip", "bool", true);
    O("material::diffuse", "Kd", "vec3", { 1, 1, 1 });
    R("material::glossy", "Ks", "vec3"); R("material::glossy", "ax", "num"); R("material::glossy", "ay", "num");
    R("material::glass", "Ni", "num"); R("material::proxy", "ref", "ref");
    for (auto* p : { "Kd", "Ks" }) R("material::mixture_wavefrontobj", p, "vec3"); for (auto* p : { "ax", "ay" }) R("material::mixture_wavefrontobj", p, "num"); R("material::mixture_wavefrontobj", "mapKd", "str"); R("material::mixture_wavefrontobj", "no_alpha_mask", "bool");
    R("light::area", "Ke", "vec3"); R("light::area", "mesh", "ref");
    R("light::point", "Le", "vec3"); R("light::point", "position", "vec3"); R("light::directional", "Le", "vec3"); R("light::directional", "direction", "vec3");
    R("light::envconst", "Le", "vec3"); R("light::env", "path", "file"); O("light::env", "rot", "num", 0); O("light::env", "scale", "num", 1);
    for (auto* p : { "position", "center", "up" }) R("camera::pinhole", p, "vec3"); R("camera::pinhole", "vfov", "num"); R("camera::pinhole", "aspect", "num");
    R("phase::hg", "g", "num");
    O("volume::constant", "color", "vec3"); O("volume::constant", "scalar", "num"); O("volume::constant", "bound_min", "vec3"); O("volume::constant", "bound_max", "vec3");
    R("volume::checker", "bound_min", "vec3"); R("volume::checker", "bound_max", "vec3");
    for (auto* k : { "volume::sphere", "volume::gaussian" }) { O(k, "color", "vec3"); O(k, "scalar", "num"); O(k, "pos", "vec3", { 0, 0, 0 }); }
    O("volume::sphere", "radius", "num", 1); O("volume::gaussian", "sigma", "vec3", { 1, 1, 1 });
    R("volume::multi", "volumes_alb", "refs"); R("volume::multi", "volumes_den", "refs");
    R("medium::homogeneous", "density", "num"); R("medium::homogeneous", "albedo", "vec3"); R("medium::homogeneous", "phase", "ref"); O("medium::homogeneous", "bound_min", "vec3", { -lm::Inf, -lm::Inf, -lm::Inf }); O("medium::homogeneous", "bound_max", "vec3", { lm::Inf, lm::Inf, lm::Inf });
    for (auto* p : { "volume_density", "volume_albedo", "phase" }) R("medium::heterogeneous", p, "ref");
    R("film::bitmap", "w", "int"); R("film::bitmap", "h", "int"); O("film::bitmap", "quality", "int", 90);
    R("renderer::blank", "color", "vec3"); R("renderer::blank", "output", "ref");
    R("renderer::raycast", "scene", "ref"); R("renderer::raycast", "output", "ref"); O("renderer::raycast", "bg_color", "vec3", { 0, 0, 0 }); O("renderer::raycast", "use_constant_color", "bool", false); O("renderer::raycast", "visualize_normal", "bool", false); O("renderer::raycast", "color", "vec3");
    for (auto* k : { "renderer::pt", "renderer::lt", "renderer::volpt", "renderer::volpt_naive", "renderer::pt_naive_path", "renderer::pt_nee_path", "renderer::lt_nee_path", "renderer::bdpt", "renderer::bdptopt" }) {
        const std::string s = k; R(k, "scene", "ref"); R(k, "output", "ref"); R(k, "max_verts", "int"); O(k, "seed", "int"); R(k, "scheduler", "name");
        R(k, s == "renderer::volpt" || s == "renderer::volpt_naive" ? "spp" : s == "renderer::pt" ? "*" : "num_samples", "int");
        if (s.find("bdpt") != std::string::npos || s.find("_path") != std::string::npos) O(k, "min_verts", "int", 2);
        if (s.find("volpt") != std::string::npos) O(k, "rr_prob", "num", .2);
    }
    O("renderer::pt", "sampling_mode", "name", "mis"); O("renderer::pt", "primary_ray_sampling_mode", "name", "pixel");
    R("mesh::raw", "ps", "nums"); R("mesh::raw", "ns", "nums"); R("mesh::raw", "ts", "nums"); R("mesh::raw", "fs", "any");
    R("mesh::wavefrontobj", "path", "file"); R("model::wavefrontobj", "path", "file");
    return t;
}
// values of a wrong type, size or meaning
static std::vector<Json> wrong(Rand& r, const std::string& kind, const World& w, const std::string& self, const Json& good) {
    std::vector<Json> v; const Json nul, obj = Json::object(), arr = Json::array();
    auto add = [&](Json j) { v.push_back(j); };
    if (kind == "vec3") { add("1,2,3"); add(3); add(obj); add(nul); add({ 1, 2 }); add({ 1, 2, 3, 4 }); add({ 1, std::string("2"), 3 }); add({ 1, nul, 3 }); add({ 1, { 2 }, 3 }); add(arr); }
    else if (kind == "num" || kind == "int") { add("1"); add(Json::array({ 1 })); add(obj); add(nul); add(arr); }
    else if (kind == "bool") { add(1); add("true"); add(Json::array({ true })); add(nul); add(0.5); }
    else if (kind == "str") { add(1); add(Json::array({ "a" })); add(obj); add(nul); add(true); }
    else if (kind == "file") { add(1); add(nul); add(obj); add("/nonexistent/file"); add(""); add(scratch()); }
    else if (kind == "name") { add(1); add(nul); add(obj); add("unknown"); add(""); add("Sample"); add("mi"); add("sample "); add("pixels"); }
    else if (kind == "nums") { add(nul); add("1"); add(obj); Json g = good; g[0] = "x"; add(g); }
    else if (kind == "any") { add(nul); add("1"); add(3); }
    auto bad_ref = [&](bool list) {
        std::vector<Json> c{ 5, nul, obj, "", "nope", "$.assets.nope", "$.assets.", "$", "$.assets", "$.assets." + self + "x" };
        std::string gp = list ? good[0].get<std::string>() : good.get<std::string>(); const Spec* gs = nullptr; for (auto& s : w.s) if (w.ref(s.name) == gp) gs = &s;
        if (gs) for (auto& s : w.s) { std::string a = s.key.substr(0, s.key.find("::")), b = gs->key.substr(0, gs->key.find("::")); if (a != b) c.push_back(w.ref(s.name)); c.push_back(gp + ".x"); }
        return c;
    };
    if (kind == "ref") for (auto& j : bad_ref(false)) add(j);
    if (kind == "refs") { add("x"); add(nul); add(5); for (auto& j : bad_ref(true)) { Json g = good; g[r.i((int)g.size())] = j; add(g); } }
    if (v.size() > 8) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.i((int)i)]); v.resize(8); }
    return v;
}
static int registered(lm::Component* g) { int n = 0; g->foreach_underlying([&](lm::Component*& c, bool weak) { if (c && !weak) n++; }); return n; }

static void components(Rand& r, long long id) {
    lm::reset(); World w = make_world(r, "$.assets", scratch(), true, true);
    { Spec s; s.name = "model"; s.key = "model::wavefrontobj"; s.prop = { {"path", obj_files(r, scratch(), (int)(id % 20))} }; w.s.push_back(s); Spec t; t.name = "omesh"; t.key = "mesh::wavefrontobj"; t.prop = s.prop; w.s.push_back(t); }
    if (!load_world(lm::assets(), w)) return;
    ScenePlan plan = plan_scene(r, w, false); fill_scene(lm::comp::get<lm::Scene>("$.assets.scene"), w, plan);
    static const auto T = table();
    auto fp = [&](const std::string& n, bool render) { Fp f; auto* c = lm::comp::get<lm::Component>("$.assets." + n); if (auto* l = dynamic_cast<lm::Light*>(c)) { lm::Bound b; b.min = Vec3(-3); b.max = Vec3(4, 5, 6); l->set_scene_bound(b); } fingerprint(f, c, render); if (auto* q = dynamic_cast<lm::Renderer*>(c)) { (void)q; for (auto& s : w.s) if (s.name.rfind("film", 0) == 0) fingerprint(f, lm::comp::get<lm::Component>("$.assets." + s.name)); } return f; };
    for (int k = 0; k < 60; k++) {
        const Par& P = T[r.i((int)T.size())]; const Spec* s = nullptr; for (auto& x : w.s) if (x.key == P.key) { s = &x; if (r.p(.5)) break; }
        if (!s) continue;
        std::string par = P.par; if (par == "*") par = s->prop.value("primary_ray_sampling_mode", std::string("pixel")) == "pixel" ? "spp" : "num_samples";
        std::vector<std::pair<Json, std::string>> bad;
        Json good = s->prop.find(par) != s->prop.end() ? s->prop[par] : Json();
        if (P.required) { Json p = s->prop; p.erase(par); bad.push_back({ p, "missing" }); }
        if ((std::string(P.kind) == "ref" || std::string(P.kind) == "refs" || std::string(P.kind) == "nums") && good.is_null()) continue;
        for (auto& j : wrong(r, P.kind, w, s->name, good)) { Json p = s->prop; p[par] = j; bad.push_back({ p, "as " + j.dump().substr(0, 60) }); }
        const int before = registered(lm::assets());
        for (auto& b : bad) {
            const bool replace = r.p(.5); std::string name = replace ? s->name : "fresh"; auto* old = lm::comp::get<lm::Component>("$.assets." + name);
            bool failed = false; std::string what; lm::Component* c = nullptr; try { c = lm::assets()->load_asset(name, s->key, b.first); failed = !c; } catch (const std::exception& e) { failed = true; what = e.what(); } catch (...) { failed = true; violation("exception:type", s->key + " throws something that is not an exception object"); }
            count("defective parameters"); cover("parameter", s->key + "." + par); cover("defect", std::string(P.kind) + ":" + (b.second == "missing" ? "missing" : "wrong"));
            VH_CHECK(failed, "accepted:" + s->key + "." + par, s->key << " is created although the parameter '" << par << "' is given " << b.second);
            if (!failed) { if (replace) lm::assets()->load_asset(name, s->key, s->prop); else return; continue; }
            VH_CHECK(lm::comp::get<lm::Component>("$.assets." + name) == old, "failed:registered:" + s->key, "after the failed creation of a " << s->key << " the name '" << name << "' means another asset (parameter '" << par << "' " << b.second << ")");
            VH_CHECK(registered(lm::assets()) == before, "failed:number:" + s->key, "the failed creation of a " << s->key << " changes the number of assets from " << before << " to " << registered(lm::assets()));
            count("rejections");
        }
    }
    // mixtures are arrays of entries
    for (auto* key : { "material::constant_weight_mixture_rr", "material::constant_weight_mixture_marginalized" }) {
        std::string m = "$.assets.mat2"; for (auto& s : w.s) if (s.key == "material::diffuse") m = w.ref(s.name);
        Json ok = Json::array({ { {"material", m}, {"weight", .5} }, { {"material", m}, {"weight", .5} } });
        for (int k = 0; k < 6; k++) {
            Json p = ok; int at = r.i(2); switch (k) { case 0: p[at].erase("material"); break; case 1: p[at].erase("weight"); break; case 2: p[at]["weight"] = "x"; break; case 3: p[at]["material"] = "$.assets.nope"; break; case 4: p[at]["material"] = "$.assets.accel"; break; default: p[at]["material"] = 3; }
            bool failed = false; try { failed = !lm::assets()->load_asset("fresh", key, p); } catch (const std::exception&) { failed = true; } count("defective parameters"); count("rejections", failed);
            VH_CHECK(failed && !lm::comp::get<lm::Component>("$.assets.fresh"), std::string("accepted:") + key, key << " is created from " << p.dump());
        }
    }
    // nothing changed
    for (auto& s : w.s) VH_CHECK(lm::comp::get<lm::Component>("$.assets." + s.name) && lm::comp::get<lm::Component>("$.assets." + s.name)->key() == s.key, "failed:lost", "asset " << s.name << " is lost");
    locators(lm::assets(), "$.assets", "after failed creations");
    // defaults
    for (int k = 0; k < 10; k++) {
        const Par& P = T[r.i((int)T.size())]; if (P.required || P.def.is_null()) continue;
        const Spec* s = nullptr; for (auto& x : w.s) if (x.key == P.key) s = &x; if (!s) continue;
        Json a = s->prop, b = s->prop; a.erase(P.par); b[P.par] = P.def; if (std::string(P.par) == "sampling_mode" || std::string(P.par) == "primary_ray_sampling_mode") { a["spp"] = b["spp"] = 2; }
        lm::assets()->load_asset("dflt", s->key, a); Fp f = fp("dflt", true); lm::assets()->load_asset("dflt", s->key, b); Fp g = fp("dflt", true); std::string d = f.diff(g); count("defaults compared"); cover("default", s->key + "." + P.par);
        VH_CHECK(d.empty(), "default:" + s->key + "." + P.par, s->key << " without '" << P.par << "' differs from '" << P.par << "' = " << P.def.dump() << ": " << d);
    }
    // names
    for (std::string n : { "", " ", "a b", "a.b", "a/b", "$", "x\ny" }) { bool failed = false; try { failed = !lm::assets()->load_asset(n, "material::mirror", Json::object()); } catch (const std::exception&) { failed = true; } VH_CHECK(failed, "name:accepted", "the asset name '" << n << "' is accepted"); count("names"); }
    for (std::string n : { "a", "A_9", "x-y", "a:b", "::", "0" }) { auto* c = lm::assets()->load_asset(n, "material::mirror", Json::object()); VH_CHECK(c && lm::comp::get<lm::Component>("$.assets." + n) == c, "name:rejected", "the asset name '" << n << "' does not work"); count("names"); }
    for (std::string kx : { "", "material", "material::", "material::nope", "Material::diffuse", "::diffuse" }) { bool failed = false; try { failed = !lm::assets()->load_asset("fresh", kx, Json::object()); } catch (const std::exception&) { failed = true; } VH_CHECK(failed && !lm::comp::get<lm::Component>("$.assets.fresh"), "key:accepted", "the component '" << kx << "' is created"); count("names"); }
}
// scenes that cannot be rendered, nodes that cannot exist
static void scenes(Rand& r) {
    lm::reset(); World w = make_world(r, "$.assets", scratch(), true, true); if (!load_world(lm::assets(), w)) return;
    auto* S = lm::comp::get<lm::Scene>("$.assets.scene"); std::vector<const Spec*> rs; for (auto& s : w.s) if (s.key.rfind("renderer::", 0) == 0 && s.key != "renderer::blank") rs.push_back(&s);
    auto find = [&](const std::string& pre) { std::vector<std::string> c; for (auto& s : w.s) if (s.name.rfind(pre, 0) == 0) c.push_back(w.ref(s.name)); return r.pick(c); };
    for (int k = 0; k < 12; k++) {
        bool cam = r.p(.5), prim = r.p(.5), accel = r.p(.6), light = r.p(.5); if (cam && accel) continue; lm::reset(); if (!load_world(lm::assets(), w)) return; S = nullptr;
        S = dynamic_cast<lm::Scene*>(lm::assets()->load_asset("scene", "scene::default", accel ? Json{ {"accel", find("accel")} } : Json::object()));
        for (auto& s : w.s) if (s.key.rfind("renderer::", 0) == 0) lm::assets()->load_asset(s.name, s.key, s.prop);
        if (cam) S->add_primitive({ {"camera", find("cam")} }); if (prim) S->add_primitive({ {"mesh", find("mesh")}, {"material", find("mat")} }); if (light) S->add_primitive({ {"light", find("light")} });
        if (accel && r.p(.7)) S->build();
        bool renderable = true; try { S->require_renderable(); } catch (const std::exception&) { renderable = false; }
        VH_CHECK(!renderable, "renderable", "a scene without " << (cam ? "" : "camera ") << (prim ? "" : "primitive ") << (accel ? "" : "acceleration structure") << " counts as renderable");
        if (renderable) continue;
        for (auto* s : rs) { bool th = false; try { lm::comp::get<lm::Renderer>(w.ref(s->name))->render(); } catch (const std::exception&) { th = true; } count("unrenderable scenes"); VH_CHECK(th, "render:unrenderable:" + s->key, s->key << " renders a scene without " << (cam ? "" : "camera ") << (prim ? "" : "primitive ") << (accel ? "" : "acceleration structure")); }
    }
    lm::reset(); if (!load_world(lm::assets(), w)) return; S = lm::comp::get<lm::Scene>("$.assets.scene");
    auto visible = [&] { int k = 0; S->traverse_primitive_nodes([&](const lm::SceneNode& n, Mat4) { k += n.type == lm::SceneNodeType::Primitive; }); return k; }; int nodes = visible();
    for (Json p : { Json{ {"mesh", "$.assets.nope"}, {"material", find("mat")} }, Json{ {"mesh", find("mesh")} }, Json{ {"material", find("mat")} }, Json{ {"light", "$.assets.nope"} }, Json{ {"camera", find("mesh")} }, Json{ {"medium", "nope"} }, Json::object(), Json{ {"mesh", find("mat")}, {"material", find("mat")} } }) {
        bool th = false; try { S->add_primitive(p); } catch (const std::exception&) { th = true; } count("defective nodes"); VH_CHECK(th, "node:accepted", "a primitive of " << p.dump() << " is accepted"); VH_CHECK(!th || visible() == nodes, "node:left", "a rejected primitive " << p.dump() << " leaves a node"); nodes = visible();
    }
}
static void json_values(Rand& r) {
    for (int k = 0; k < 300; k++) {
        auto num = [&]() -> double { switch (r.i(6)) { case 0: return r.u(-1, 1); case 1: return std::ldexp(r.u(-1, 1), r.i(-1000, 1000)); case 2: return r.i(-5, 5); case 3: return 5e-324 * r.i(1000); case 4: return 1.7976931348623157e308; default: return r.u() / 3; } };
        Vec3 a(num(), num(), num()); Vec2 b(num(), num()); Vec4 c(num(), num(), num(), num()); Mat3 m; Mat4 q; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = num(); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) q[i][j] = num();
        double x = num(); long long n = (long long)r.next(); std::string s; for (int i = r.i(12); i > 0; i--) s += (char)r.i(32, 126);
        int pointee; int* ptr = &pointee + r.i(1000);
        Json j; j["a"] = a; j["b"] = b; j["c"] = c; j["m"] = m; j["q"] = q; j["x"] = x; j["n"] = n; j["s"] = s; j["t"] = r.p(.5); const Json ptrj = (lm::Component*)nullptr; (void)ptrj;
        j["p"] = ptr;
        VH_CHECK(j["m"].size() == 9 && j["m"][3].get<double>() == m[1][0] && j["q"][13].get<double>() == q[3][1] && j["a"][2].get<double>() == a.z, "json:layout", "elements of a matrix or vector are stored in another order");
        for (int text = 0; text < 2; text++) {
            const Json k2 = text ? Json::parse(j.dump()) : j;
            VH_CHECK(lm::json::value<Vec3>(k2, "a") == a && lm::json::value<Vec2>(k2, "b") == b && lm::json::value<Vec4>(k2, "c") == c, "json:vector", "a vector does not survive the conversion: " << j.dump());
            VH_CHECK(lm::json::value<Mat3>(k2, "m") == m && lm::json::value<Mat4>(k2, "q") == q, "json:matrix", "a matrix does not survive the conversion");
            VH_CHECK(lm::json::value<Float>(k2, "x") == x && lm::json::value<long long>(k2, "n") == n && lm::json::value<std::string>(k2, "s") == s && lm::json::value<bool>(k2, "t") == j["t"].get<bool>(), "json:scalar", "a scalar does not survive the conversion: " << j.dump());
            VH_CHECK(k2["p"].get<int*>() == ptr, "json:pointer", "a pointer does not survive the conversion");
            VH_CHECK(lm::json::value<Vec3>(k2, "a", Vec3(7)) == a && lm::json::value<Vec3>(k2, "zz", Vec3(7)) == Vec3(7) && lm::json::value<int>(k2, "zz", 3) == 3, "json:default", "a default is used wrongly");
            auto o = lm::json::value_or_none<Vec3>(k2, "a"), z = lm::json::value_or_none<Vec3>(k2, "zz"); VH_CHECK(o && *o == a && !z, "json:optional", "value_or_none");
            bool th = false; try { lm::json::value<Vec3>(k2, "zz"); } catch (const lm::Exception& e) { th = is_invalid_argument(e); } VH_CHECK(th, "json:missing", "a missing value is not reported");
            th = false; try { lm::json::value<Vec3>(k2, "c"); } catch (const std::exception&) { th = true; } VH_CHECK(th, "json:size", "a vector of four elements is taken for one of three");
            th = false; try { lm::json::value<Mat4>(k2, "m"); } catch (const std::exception&) { th = true; } VH_CHECK(th, "json:size", "a 3x3 matrix is taken for a 4x4 matrix");
            th = false; try { lm::json::value<Mat3>(k2, "s"); } catch (const std::exception&) { th = true; } VH_CHECK(th, "json:type", "a string is taken for a matrix");
            for (int sz = 0; sz <= 20; sz++) {     // arrays of every length, and elements that are not numbers
                Json v = Json::array(); for (int i = 0; i < sz; i++) v.push_back(num()); Json o2{ {"v", v} };
                auto takes = [&](auto* t, int need, const char* what) { using T = std::remove_pointer_t<decltype(t)>; bool ok = true; try { lm::json::value<T>(o2, "v"); } catch (const std::exception&) { ok = false; } VH_CHECK(ok == (sz == need), "json:length", "an array of " << sz << " numbers is " << (ok ? "taken for " : "not taken for ") << what); };
                takes((Vec2*)nullptr, 2, "a vector of 2"); takes((Vec3*)nullptr, 3, "a vector of 3"); takes((Vec4*)nullptr, 4, "a vector of 4"); takes((Mat3*)nullptr, 9, "a 3x3 matrix"); takes((Mat4*)nullptr, 16, "a 4x4 matrix");
                if (sz == 3 || sz == 16) { Json bad = v; bad[r.i(sz)] = r.pick(std::vector<Json>{ Json(), Json("x"), Json::array(), Json::object() }); Json o3{ {"v", bad} }; bool ok = true; try { if (sz == 3) lm::json::value<Vec3>(o3, "v"); else lm::json::value<Mat4>(o3, "v"); } catch (const std::exception&) { ok = false; } VH_CHECK(!ok, "json:element", "an array with an element that is not a number is accepted: " << bad.dump()); }
                count("json values", 5);
            }
            count("json values", 12);
        }
        // merging: the first has priority, nothing else is changed
        Json u = Json::object(), v = Json::object(), e = Json::object(); for (int i = 0; i < 8; i++) { std::string key = "k" + std::to_string(i); Json A = r.p(.3) ? Json() : Json(i), B = Json{ {"b", i} }; bool ia = r.p(.5), ib = r.p(.5); if (ia) u[key] = A; if (ib) v[key] = B; if (ia) e[key] = A; else if (ib) e[key] = B; }
        VH_CHECK(lm::json::merge(u, v) == e, "json:merge", "merging " << u.dump() << " and " << v.dump() << " gives " << lm::json::merge(u, v).dump()); count("json values");
        // command lines
        std::vector<std::string> av{ "prog", std::to_string(r.i(100)), "s" + std::to_string(r.i(100)), std::to_string(r.i(9)) }; std::vector<char*> pv; for (auto& y : av) pv.push_back(&y[0]); int ac = r.i(1, 4); pv.push_back(nullptr);
        bool th = false; Json g; try { g = lm::json::parse_positional_args<2>(ac, pv.data(), R"({{"n": {}, "s": "{}"}})"); } catch (const std::exception&) { th = true; }
        VH_CHECK(th == (ac < 3), "json:arguments", "a command line with " << ac - 1 << " arguments for 2 " << (th ? "is rejected" : "is accepted")); if (!th && ac >= 3) VH_CHECK(g["n"].dump() == av[1] && g["s"] == av[2], "json:arguments-value", "command line " << g.dump()); count("json values");
    }
}
// global functions without initialisation
static void lifecycle(Rand& r, bool initial) {
    auto ok = [&](const char* what, std::function<void()> f, int must) { bool th = false; try { f(); } catch (const std::exception&) { th = true; } count("calls without initialisation"); cover("uninitialised", what); if (must) VH_CHECK(th == (must > 0), std::string("uninitialised:") + what, what << (th ? " throws" : " does not throw") << " without initialisation"); };
    ok("parallel::foreach", [] { lm::parallel::foreach(10, [](long long, int) {}, [](long long) {}); }, 1); ok("parallel::num_threads", [] { lm::parallel::num_threads(); }, 1); ok("parallel::main_thread", [] { lm::parallel::main_thread(); }, 1);
    ok("progress", [] { lm::progress::ScopedReport s(10); lm::progress::update(3); }, 0);
    ok("log", [] { LM_INFO("message"); LM_ERROR("message"); LM_INDENT(); }, 0); ok("log::set_severity", [] { lm::log::set_severity(0); }, 0);
    ok("objloader", [] { lm::objloader::OBJSurfaceGeometry g; lm::objloader::load("/nonexistent", g, [](const lm::objloader::OBJMeshFace&, const lm::objloader::MTLMatParams&) { return true; }, [](const lm::objloader::MTLMatParams&) { return true; }); }, 1);
    ok("info", [] { lm::info(); }, 1); ok("shutdown", [] { lm::shutdown(); }, 1);
    if (initial) { ok("save_state_to_file", [] { lm::save_state_to_file(scratch() + "/none"); }, 1); ok("load_state_from_file", [] { lm::load_state_from_file(scratch() + "/none"); }, 1); ok("load", [] { lm::load<lm::Texture>("t", "texture::constant", { {"color", {1, 1, 1}} }); }, 1); ok("comp::get", [] { lm::comp::get<lm::Component>("$.assets.x"); }, 0); ok("print_asset_tree", [] { lm::debug::print_asset_tree(true); }, 1); }
}
int main(int argc, char** argv) {
    parse(argc, argv); auto& A = args(); long long np = A.extra.count("parts") ? atoll(A.extra["parts"].c_str()) : 1, me = A.part.empty() ? 0 : atoll(A.part.c_str());
    { Rand r(A.seed); begin_case("before initialisation"); lifecycle(r, true); }
    lm_init(1);
    long long n = n_cases(480, 6000);
    for (long long c = me; c < n; c += np) {
        if (!want(c)) continue; Rand r(A.seed * 1000003 + c); begin_case("case " + std::to_string(c)); int k = r.i(12);
        try { if (k < 8) components(r, c); else if (k < 10) scenes(r); else if (k < 11) json_values(r); else {
            lm::shutdown(); lifecycle(r, false);
            // contexts of unknown kinds, or with defective parameters: not usable, and replaceable
            auto fails = [&](const char* what, std::function<void()> f, std::function<void()> use) { try { f(); } catch (const std::exception&) {} bool th = false; try { use(); } catch (const std::exception&) { th = true; } count("defective contexts"); VH_CHECK(th, std::string("context:") + what, what << " works after a failed initialisation"); };
            lm::init(); lm::log::set_severity(1000000);
            fails("parallel", [] { lm::parallel::init("nope", Json::object()); }, [] { lm::parallel::num_threads(); }); fails("parallel parameters", [] { lm::parallel::init("openmp", { {"num_threads", "x"} }); }, [] { lm::parallel::foreach(3, [](long long, int) {}, [](long long) {}); });
            lm::parallel::init("openmp", { {"num_threads", 1} }); VH_CHECK(lm::parallel::num_threads() == 1, "context:again", "the parallel context cannot be initialised again");
            fails("objloader", [] { lm::objloader::init("nope", Json::object()); }, [] { lm::objloader::OBJSurfaceGeometry g; lm::objloader::load("/nonexistent", g, [](const lm::objloader::OBJMeshFace&, const lm::objloader::MTLMatParams&) { return true; }, [](const lm::objloader::MTLMatParams&) { return true; }); });
            lm::shutdown(); lm_init(1);
        } } catch (const std::exception& e) { violation("unexpected-exception", e.what()); }
    }
    lm::shutdown(); return finish();
}
