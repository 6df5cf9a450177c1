// Random asset trees that use every component of the framework, and fingerprints of components:
// everything observable through their interfaces for fixed pseudo-random inputs.
#pragma once
#include "vscene.h"
#include "vimg.h"
#include <lm/scene.h>
#include <lm/accel.h>
#include <lm/mesh.h>
#include <lm/light.h>
#include <lm/camera.h>
#include <lm/material.h>
#include <lm/medium.h>
#include <lm/phase.h>
#include <lm/volume.h>
#include <lm/texture.h>
#include <lm/film.h>
#include <lm/model.h>
#include <lm/renderer.h>
#include <lm/scheduler.h>
#include <lm/assetgroup.h>
namespace vh {

struct Spec { std::string name, key; Json prop; std::vector<std::string> deps; };

// ---- fingerprints ------------------------------------------------------------------------------------
struct Fp {
    std::vector<std::pair<std::string, double>> v; std::string text;
    void add(const char* l, double x) { v.push_back({ l, x }); }
    void add(const char* l, Vec3 x) { add(l, x.x); add(l, x.y); add(l, x.z); }
    void add(const char* l, Vec2 x) { add(l, x.x); add(l, x.y); }
    void geom(const char* l, const lm::PointGeometry& g) {
        add(l, g.degenerated); add(l, g.infinite);
        if (g.infinite) { add(l, g.wo); return; }
        add(l, g.p); if (!g.degenerated) { add(l, g.n); add(l, g.gn); add(l, g.t); }
    }
    static bool eq(double a, double b) { return memcmp(&a, &b, 8) == 0 || a == b || (std::isnan(a) && std::isnan(b)); }
    std::string diff(const Fp& o) const {
        if (text != o.text) return "structure '" + text.substr(0, 300) + "' became '" + o.text.substr(0, 300) + "'";
        if (v.size() != o.v.size()) return "number of observations " + std::to_string(v.size()) + " became " + std::to_string(o.v.size()) + (v.empty() ? "" : " (first: " + v[0].first + ")");
        for (size_t i = 0; i < v.size(); i++) if (!eq(v[i].second, o.v[i].second) || v[i].first != o.v[i].first) { std::ostringstream s; s.precision(17); s << v[i].first << " (observation " << i << ") was " << v[i].second << ", is " << o.v[i].second; return s.str(); }
        return "";
    }
};
inline lm::PointGeometry probe_geom(Rand& r, bool medium = false) {
    if (medium) return lm::PointGeometry::make_degenerated(r.v3(-1, 1));
    Vec3 n = r.dir(), gn = glm::normalize(n + .2 * r.v3(-1, 1));
    return lm::PointGeometry::make_on_surface(r.v3(-1, 1), n, gn, Vec2(r.u(0, 1), r.u(0, 1)));
}
inline void fp_bound(Fp& f, const lm::Bound& b) { f.add("bound", b.min); f.add("bound", b.max); }
inline void fingerprint(Fp& f, lm::Component* c, bool render = true, int depth = 0);

inline void fp_scene(Fp& f, lm::Scene* s) {
    Rand r(99);
    f.text += "[nodes " + std::to_string(s->num_nodes()) + "]";
    for (int i = 0; i < s->num_nodes(); i++) {
        const auto& n = s->node_at(i);
        f.add("node index", n.index); f.add("node type", (double)(int)n.type);
        if (n.type == lm::SceneNodeType::Group) {
            f.add("instanced", n.group.instanced); for (int k : n.group.children) f.add("child", k);
            f.add("has transform", (bool)n.group.local_transform);
            if (n.group.local_transform) for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) f.add("transform", (*n.group.local_transform)[a][b]);
        } else {
            auto nm = [&](lm::Component* c) { f.text += c ? c->name() + "," : "-,"; };
            nm(n.primitive.mesh); nm(n.primitive.material); nm(n.primitive.light); nm(n.primitive.camera); nm(n.primitive.medium);
        }
    }
    f.add("camera node", s->camera_node()); f.add("env node", s->env_light_node()); f.add("medium node", s->medium_node()); f.add("lights", s->num_lights());
    for (int i = 0; i < s->num_lights(); i++) {
        auto x = s->light_primitive_index_at(i); f.add("light node", x.index); f.add("light index", s->light_index_at(x.index));
        for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) f.add("light transform", x.global_transform.M[a][b]);
        f.add("light J", x.global_transform.J); f.add("light normal", Vec3(x.global_transform.normal_M[0]));
        f.add("selection", s->pdf_light_selection(i));
    }
    f.text += s->accel() ? "[accel " + s->accel()->name() + "]" : "[no accel]";
    if (s->accel()) for (int k = 0; k < 60; k++) {
        auto h = s->intersect({ r.v3(-3, 3), r.dir() }); f.add("hit", (bool)h);
        if (h) { f.add("hit node", h->primitive); f.geom("hit", h->geom); f.add("hit light", s->is_light(*h)); }
    }
}
inline void fingerprint(Fp& f, lm::Component* c, bool render, int depth) {
    if (!c) { f.text += "[null]"; return; }
    Rand r(12345);
    f.text += "<" + c->key() + ">";
    if (auto* m = dynamic_cast<lm::Mesh*>(c)) {
        const int n = m->num_triangles(); f.add("triangles", n); int seen = 0;
        m->foreach_triangle([&](int i, const lm::Mesh::Tri& t) { seen++; f.add("face", i); for (auto* p : { &t.p1, &t.p2, &t.p3 }) { f.add("p", p->p); f.add("n", p->n); f.add("t", p->t); } });
        f.add("visited", seen);
        for (int k = 0; k < 20 && n; k++) { int i = r.i(n); double a = r.u(), b = r.u() * (1 - a); auto p = m->surface_point(i, Vec2(a, b)); f.add("sp", p.p); f.add("sn", p.n); f.add("sgn", p.gn); f.add("st", p.t); auto t = m->triangle_at(i); f.add("at", t.p2.p); }
    } else if (auto* t = dynamic_cast<lm::Texture*>(c)) {
        auto s = t->size(); f.add("w", s.w); f.add("h", s.h); f.add("alpha?", t->has_alpha());
        for (int k = 0; k < 30; k++) { Vec2 u(r.u(-1, 2), r.u(-1, 2)); f.add("eval", t->eval(u)); if (t->has_alpha()) f.add("alpha", t->eval_alpha(u)); f.add("pixel", t->eval_by_pixel_coords(r.i(s.w), r.i(s.h))); }
        auto b = t->buffer(); f.add("bw", b.w); f.add("bh", b.h); f.add("bc", b.c); if (b.data) for (int i = 0; i < b.w * b.h * b.c; i += 7) f.add("buffer", b.data[i]);
    } else if (auto* m = dynamic_cast<lm::Material*>(c)) {
        for (int k = 0; k < 25; k++) {
            auto g = probe_geom(r); Vec3 wi = r.dir();
            auto cs = m->sample_component({ r.v2() }, g, wi); f.add("comp", cs.comp); f.add("comp weight", cs.weight); f.add("comp pdf", m->pdf_component(cs.comp, g, wi)); f.add("specular", m->is_specular_component(cs.comp));
            for (auto d : { lm::Material::TransDir::EL, lm::Material::TransDir::LE }) {
                auto s = m->sample_direction({ r.v2(), r.v2() }, g, wi, cs.comp, d); f.add("sampled", (bool)s);
                Vec3 wo = s ? s->wo : r.dir(); if (s) { f.add("wo", s->wo); f.add("weight", s->weight); }
                f.add("pdf", m->pdf_direction(g, wi, wo, cs.comp, false)); f.add("value", m->eval(g, wi, wo, cs.comp, d, false));
                Vec3 w2 = r.dir(); f.add("pdf2", m->pdf_direction(g, wi, w2, cs.comp, false)); f.add("value2", m->eval(g, wi, w2, cs.comp, d, false));
            }
            f.add("reflectance", m->reflectance(g));
        }
    } else if (auto* l = dynamic_cast<lm::Light*>(c)) {
        f.add("specular", l->is_specular()); f.add("infinite", l->is_infinite()); f.add("env", l->is_env());
        for (int k = 0; k < 25; k++) {
            lm::Transform T(gen_transform(r, k % 4));
            const Vec2 up = r.v2(); const double upc = r.u(); const Vec2 ud = r.v2();
            auto s = l->sample_ray({ up, upc, ud }, T); f.add("ray", (bool)s);
            if (s) { f.geom("geom", s->geom); f.add("wo", s->wo); f.add("weight", s->weight); f.add("pdf_ray", l->pdf_ray(s->geom, s->wo, T, true)); f.add("eval", l->eval(s->geom, s->wo, true)); f.add("connectable", l->is_connectable(s->geom)); }
            auto g = probe_geom(r); auto d = l->sample_direct({ up, upc, ud }, g, T); f.add("direct", (bool)d);
            if (d) { f.geom("geom", d->geom); f.add("wo", d->wo); f.add("weight", d->weight); f.add("pdf_direct", l->pdf_direct(g, d->geom, T, d->wo, true)); f.add("evald", l->eval(d->geom, d->wo, true)); }
        }
    } else if (auto* k = dynamic_cast<lm::Camera*>(c)) {
        for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { f.add("view", k->view_matrix()[a][b]); f.add("proj", k->projection_matrix()[a][b]); }
        for (int i = 0; i < 25; i++) {
            Vec2 rp = r.v2(); auto ray = k->primary_ray(rp); f.add("o", ray.o); f.add("d", ray.d); auto p = k->raster_position(ray.d); f.add("raster?", (bool)p); if (p) f.add("raster", *p);
            const Vec2 a = r.v2(); auto s = k->sample_ray({ a }); f.add("sr", (bool)s); if (s) { f.geom("geom", s->geom); f.add("wo", s->wo); f.add("weight", s->weight); f.add("pdf", k->pdf_ray(s->geom, s->wo)); f.add("importance", k->eval(s->wo)); }
            auto g = probe_geom(r); auto d = k->sample_direct({ a }, g); f.add("sd", (bool)d); if (d) { f.add("dwo", d->wo); f.add("dw", d->weight); }
        }
    } else if (auto* p = dynamic_cast<lm::Phase*>(c)) {
        for (int i = 0; i < 25; i++) { auto g = probe_geom(r, true); Vec3 wi = r.dir(), wo = r.dir(); auto s = p->sample_direction({ r.v2() }, g, wi); f.add("s", (bool)s); if (s) { f.add("wo", s->wo); f.add("weight", s->weight); } f.add("pdf", p->pdf_direction(g, wi, wo)); f.add("eval", p->eval(g, wi, wo)); }
    } else if (auto* v = dynamic_cast<lm::Volume*>(c)) {
        fp_bound(f, v->bound()); f.add("scalar?", v->has_scalar()); f.add("color?", v->has_color()); if (v->has_scalar()) f.add("max", v->max_scalar());
        for (int i = 0; i < 30; i++) { Vec3 q = r.v3(-1.5, 1.5); if (v->has_scalar()) f.add("scalar", v->eval_scalar(q)); if (v->has_color()) f.add("color", v->eval_color(q)); }
    } else if (auto* m = dynamic_cast<lm::Medium*>(c)) {
        f.add("emitter", m->is_emitter()); lm::Rng rng(7);
        for (int i = 0; i < 25; i++) { lm::Ray ray{ r.v3(-3, 3), r.dir() }; auto s = m->sample_distance(rng, ray, 0, 10); f.add("d", (bool)s); if (s) { f.add("dp", s->p); f.add("dw", s->weight); f.add("dm", s->medium); } f.add("T", m->eval_transmittance(rng, ray, 0, r.u(0, 10))); }
        fingerprint(f, const_cast<lm::Phase*>(m->phase()), render, depth + 1);
    } else if (auto* m = dynamic_cast<lm::Film*>(c)) {
        auto s = m->size(); f.add("w", s.w); f.add("h", s.h); f.add("pixels", (double)m->num_pixels()); auto b = m->buffer(); f.add("bw", b.w); f.add("bh", b.h);
        for (int i = 0; i < 3 * b.w * b.h; i++) f.add("pixel", b.data[i]);
    } else if (auto* s = dynamic_cast<lm::Scene*>(c)) {
        fp_scene(f, s);
    } else if (auto* a = dynamic_cast<lm::Accel*>(c)) {
        for (int i = 0; i < 40; i++) { auto h = a->intersect({ r.v3(-3, 3), r.dir() }, lm::Eps, lm::Inf); f.add("hit", (bool)h); if (h) { f.add("t", h->t); f.add("uv", h->uv); f.add("prim", h->primitive); f.add("face", h->face); f.add("M", Vec3(h->global_transform.M[3])); } }
    } else if (auto* m = dynamic_cast<lm::Model*>(c)) {
        int n = 0; if (depth < 3) m->create_primitives([&](lm::Component* a, lm::Component* b, lm::Component* l) { n++; fingerprint(f, a, render, depth + 1); fingerprint(f, b, render, depth + 1); fingerprint(f, l, render, depth + 1); }); f.add("primitives", n);
    } else if (auto* q = dynamic_cast<lm::Renderer*>(c)) {
        if (!render) return;
        auto j = q->render(); if (j.find("processed") != j.end()) f.add("processed", j["processed"].get<double>());
    }
}

// ---- the world ----------------------------------------------------------------------------------------
struct World {
    std::vector<Spec> s; std::string base;
    std::string ref(const std::string& n) const { return base + "." + n; }
    const Spec* find(const std::string& n) const { for (auto& x : s) if (x.name == n) return &x; return nullptr; }
};
inline Json jv(Vec3 v) { return { v.x, v.y, v.z }; }

// Random parameters of one asset.  `dir` holds the files.
inline Json vprop(Rand& r, World& w, const std::string& key, std::vector<std::string>& deps, const std::string& dir) {
    auto R = [&](const std::string& n) { deps.push_back(n); return w.ref(n); };
    auto pickn = [&](const std::string& pre) { std::vector<std::string> c; for (auto& x : w.s) if (x.name.rfind(pre, 0) == 0) c.push_back(x.name); return c.empty() ? std::string() : r.pick(c); };
    if (key == "mesh::raw") { std::string k = "degenerate"; while (k == "degenerate") k = r.pick(mesh_kinds()); return mesh_json(gen_mesh(r, k, r.i(4, 40))); }
    if (key == "texture::constant") { Json j{ {"color", jv(r.v3())} }; if (r.p(.5)) j["alpha"] = r.u(); return j; }
    if (key == "texture::bitmap") {
        static int n = 0; int W = r.i(1, 6), H = r.i(1, 6), c = r.pick(std::vector<int>{ 1, 3, 4 }); std::vector<unsigned char> px; for (int i = 0; i < W * H * c; i++) px.push_back((unsigned char)r.i(256));
        std::string p = dir + "/tex" + std::to_string(n++) + ".tga"; write_tga(p, W, H, c, px); Json j{ {"path", p} }; if (r.p(.3)) j["flip"] = false; return j;
    }
    if (key == "material::diffuse") { Json j{ {"Kd", jv(r.v3())} }; if (r.p(.6)) { j["mapKd"] = R(pickn("tex")); } return j; }
    if (key == "material::glossy") return { {"Ks", jv(r.v3())}, {"ax", r.u(.05, .6)}, {"ay", r.u(.05, .6)} };
    if (key == "material::mixture_wavefrontobj") { Json j{ {"Kd", jv(r.v3(0, .6))}, {"Ks", jv(r.v3(0, .4))}, {"ax", r.u(.05, .6)}, {"ay", r.u(.05, .6)}, {"no_alpha_mask", r.p(.3)} }; j["mapKd"] = r.p(.6) ? R(pickn("tex")) : std::string(); return j; }
    if (key == "material::glass") return { {"Ni", r.u(1.1, 2)} };
    if (key == "material::mirror" || key == "material::mask" || key == "phase::isotropic" || key == "accel::sahbvh") return Json::object();
    if (key == "material::proxy") return { {"ref", R(pickn("mat"))} };
    if (key == "material::constant_weight_mixture_rr" || key == "material::constant_weight_mixture_marginalized") {
        Json j = Json::array(); int n = r.i(1, 4); for (int i = 0; i < n; i++) j.push_back({ {"material", R(pickn("mat"))}, {"weight", r.u(.1, 1)} }); return j;
    }
    if (key == "light::area") return { {"Ke", jv(r.v3(.1, 4))}, {"mesh", R(pickn("mesh"))} };
    if (key == "light::point") return { {"Le", jv(r.v3(.1, 4))}, {"position", jv(r.v3(-2, 2))} };
    if (key == "light::directional") return { {"Le", jv(r.v3(.1, 4))}, {"direction", jv(r.dir())} };
    if (key == "light::envconst") return { {"Le", jv(r.v3(.1, 4))} };
    if (key == "light::env") {
        static int n = 0; Img m; m.w = r.i(2, 8); m.h = r.i(2, 6); m.c = 3; for (int i = 0; i < m.w * m.h * 3; i++) m.d.push_back((float)r.u(.05, 3)); std::string p = dir + "/env" + std::to_string(n++) + ".hdr"; write_hdr(p, m);
        return { {"path", p}, {"rot", r.u(0, 360)}, {"scale", r.u(.2, 3)} };
    }
    if (key == "camera::pinhole") { Vec3 p = r.dir() * 5.0; return { {"position", jv(p)}, {"center", jv(r.v3(-.5, .5))}, {"up", {0, 1, 0}}, {"vfov", r.u(20, 80)}, {"aspect", r.u(.5, 2)} }; }
    if (key == "phase::hg") return { {"g", r.u(-.9, .9)} };
    if (key == "volume::constant") { Json j{ {"bound_min", jv(r.v3(-2, -.5))}, {"bound_max", jv(r.v3(.5, 2))} }; j["color"] = jv(r.v3()); j["scalar"] = r.u(.1, 2); return j; }
    if (key == "volume::checker") return { {"bound_min", jv(r.v3(-2, -.5))}, {"bound_max", jv(r.v3(.5, 2))} };
    if (key == "volume::sphere" || key == "volume::gaussian") { Json j{ {"color", jv(r.v3())}, {"scalar", r.u(.1, 2)}, {"pos", jv(r.v3(-.5, .5))} }; if (key == "volume::sphere") j["radius"] = r.u(.3, 1.5); else j["sigma"] = jv(r.v3(.3, 1)); return j; }
    if (key == "volume::multi") { Json a = Json::array(), b = Json::array(); int n = r.i(1, 3); for (int i = 0; i < n; i++) { a.push_back(R(pickn("volc"))); b.push_back(R(pickn("vol"))); } return { {"volumes_alb", a}, {"volumes_den", b} }; }
    if (key == "medium::homogeneous") return { {"density", r.u(.1, 2)}, {"albedo", jv(r.v3())}, {"phase", R(pickn("phase"))} };
    if (key == "medium::heterogeneous") return { {"volume_density", R(pickn("vol"))}, {"volume_albedo", R(pickn("volc"))}, {"phase", R(pickn("phase"))} };
    if (key == "film::bitmap") return { {"w", r.i(1, 9)}, {"h", r.i(1, 9)} };
    if (key == "scene::default") return { {"accel", R(pickn("accel"))} };
    if (key == "renderer::blank") return { {"output", R(pickn("film"))}, {"color", jv(r.v3())} };
    if (key == "renderer::raycast") { Json j{ {"scene", R("scene")}, {"output", R(pickn("film"))}, {"bg_color", jv(r.v3())} }; if (r.p(.3)) j["visualize_normal"] = true; else if (r.p(.5)) j["use_constant_color"] = true; if (r.p(.5)) j["color"] = jv(r.v3()); return j; }
    if (key.rfind("renderer::", 0) == 0) {
        Json j{ {"scene", R("scene")}, {"output", R(pickn("film"))}, {"max_verts", r.i(2, 6)}, {"seed", r.i(1000)}, {"scheduler", "sample"}, {"spp", r.i(1, 3)}, {"num_samples", r.i(40, 200)} };
        if (key == "renderer::pt") { j["sampling_mode"] = r.pick(std::vector<std::string>{ "naive", "nee", "mis" }); j["primary_ray_sampling_mode"] = r.pick(std::vector<std::string>{ "pixel", "image" }); }
        if (r.p(.5)) j["min_verts"] = 3; if (r.p(.5)) j["rr_prob"] = r.u(.1, .5);
        return j;
    }
    return Json::object();
}
inline void add_asset(Rand& r, World& w, const std::string& name, const std::string& key, const std::string& dir) {
    Spec s; s.name = name; s.key = key; s.prop = vprop(r, w, key, s.deps, dir); w.s.push_back(s);
}
// Names start with the kind of asset; scenes are filled and built by fill_scene().
inline World make_world(Rand& r, const std::string& base, const std::string& dir, bool renderers = true, bool media = true) {
    World w; w.base = base;
    int n = 0; auto A = [&](const std::string& pre, const std::string& key) { add_asset(r, w, pre + std::to_string(n++), key, dir); };
    for (int i = 0; i < 2; i++) A("mesh", "mesh::raw");
    A("tex", "texture::constant"); A("tex", "texture::bitmap");
    for (auto* k : { "material::diffuse", "material::diffuse", "material::glossy", "material::glass", "material::mirror", "material::mask" }) A("mat", k);
    A("mix", "material::mixture_wavefrontobj"); A("mat", "material::proxy"); A("mix", "material::constant_weight_mixture_rr"); A("mix", "material::constant_weight_mixture_marginalized");
    A("light", "light::area"); A("light", "light::point"); A("light", "light::directional"); A("env", "light::envconst"); A("env", "light::env");
    A("cam", "camera::pinhole");
    A("phase", "phase::hg"); A("phase", "phase::isotropic");
    A("volc", "volume::constant"); A("volc", "volume::sphere"); A("volc", "volume::gaussian"); A("vold", "volume::checker"); A("zmulti", "volume::multi");
    if (media) { A("med", "medium::homogeneous"); A("med", "medium::heterogeneous"); }
    for (int i = 0; i < 2; i++) A("film", "film::bitmap");
    A("accel", "accel::sahbvh");
    add_asset(r, w, "scene", "scene::default", dir);
    if (renderers) {
        A("rend", "renderer::blank"); A("rend", "renderer::raycast"); A("rend", "renderer::pt"); A("rend", "renderer::lt"); A("rend", "renderer::volpt"); A("rend", "renderer::volpt_naive");
        A("rend", "renderer::pt_naive_path"); A("rend", "renderer::pt_nee_path"); A("rend", "renderer::lt_nee_path"); A("rend", "renderer::bdpt"); A("rend", "renderer::bdptopt");
    }
    return w;
}
struct ScenePlan { std::vector<std::array<std::string, 5>> prims; std::vector<Mat4> M; std::vector<int> kind; };
inline ScenePlan plan_scene(Rand& r, const World& w, bool media) {
    ScenePlan p; std::vector<std::string> mesh, mat, light, env, cam, med;
    for (auto& s : w.s) { auto P = [&](const char* x) { return s.name.rfind(x, 0) == 0; }; if (P("mesh")) mesh.push_back(s.name); if (P("mat") || P("mix")) mat.push_back(s.name); if (P("light")) light.push_back(s.name); if (P("env")) env.push_back(s.name); if (P("cam")) cam.push_back(s.name); if (P("med")) med.push_back(s.name); }
    auto add = [&](std::array<std::string, 5> a, int kind) { p.prims.push_back(a); p.M.push_back(gen_transform(r, r.i(7))); p.kind.push_back(kind); };
    for (int i = 0; i < 3; i++) add({ r.pick(mesh), r.pick(mat), "", "", "" }, r.i(3));
    // an emitter whose mesh is the mesh of the light
    std::string al, am; for (auto& s : w.s) if (s.key == "light::area") { al = s.name; am = s.deps[0]; }
    if (!al.empty()) add({ am, r.pick(mat), al, "", "" }, 0);
    for (auto& l : light) if (l != al && r.p(.6)) add({ "", "", l, "", "" }, 0);
    if (!env.empty() && r.p(.8)) add({ "", "", r.pick(env), "", "" }, 0);
    add({ "", "", "", r.pick(cam), "" }, 0);
    if (media && !med.empty() && r.p(.6)) add({ "", "", "", "", r.pick(med) }, 0);
    return p;
}
inline void fill_scene(lm::Scene* s, const World& w, const ScenePlan& p) {
    s->reset(); static const char* nm[5] = { "mesh", "material", "light", "camera", "medium" };
    for (size_t i = 0; i < p.prims.size(); i++) {
        Json j = Json::object(); for (int k = 0; k < 5; k++) if (!p.prims[i][k].empty()) j[nm[k]] = w.ref(p.prims[i][k]);
        int n = s->create_primitive_node(j);
        int g = s->create_group_node(p.M[i]); 
        if (p.kind[i] == 0) s->add_child(g, n);
        else { int in = s->create_instance_group_node(); s->add_child(in, n); s->add_child(g, in); int g2 = s->create_group_node(p.M[(i + 1) % p.M.size()]); s->add_child(g2, in); s->add_child(0, g2); }
        s->add_child(0, g);
    }
    s->build();
}
inline bool load_world(lm::AssetGroup* g, const World& w) {
    for (auto& s : w.s) if (!g->load_asset(s.name, s.key, s.prop)) { violation("world:load", "asset " + s.name + " (" + s.key + ") is not created: " + s.prop.dump().substr(0, 300)); return false; }
    return true;
}

inline void locators(lm::Component* c, const std::string& base, const std::string& what, int depth = 0) {
    lm::Component::ComponentVisitor v = [&](lm::Component*& x, bool weak) {
        if (!x) return;
        VH_CHECK(lm::comp::get<lm::Component>(x->loc()) == x, "locator:" + x->key(), what << ": the component at '" << x->loc() << "' is not found there");
        VH_CHECK(x->loc().rfind(base, 0) == 0, "locator-base:" + x->key(), what << ": locator '" << x->loc() << "' is outside of '" << base << "'");
        count("references checked");
        if (!weak) x->foreach_underlying(v);
    };
    c->foreach_underlying(v);
}
inline std::string obj_files(Rand& r, const std::string& dir, int id) {
    std::string p = dir + "/m" + std::to_string(id); std::string o, m;
    m = "newmtl a\nKd " + std::to_string(r.u()) + " .2 .3\nKs 0.1 0.2 .1\nNs " + std::to_string(r.u(1, 40)) + "\nillum 2\n\nnewmtl b\nKd .6 .2 .3\nNs 5\nillum 2\nmap_Kd t.tga\n\nnewmtl g\nKd 0 0 0\nNi 1.5\nillum 7\n\nnewmtl mi\nillum 5\n";
    o = "mtllib m" + std::to_string(id) + ".mtl\n"; int nv = r.i(5, 9);
    for (int i = 0; i < nv; i++) { Vec3 v = r.v3(-1, 1), n = r.dir(); char b[300]; snprintf(b, 300, "v %.6f %.6f %.6f\nvn %.6f %.6f %.6f\nvt %.4f %.4f\n", v.x, v.y, v.z, n.x, n.y, n.z, r.u(), r.u()); o += b; }
    for (auto* mt : { "a", "b", "g", "mi" }) { o += std::string("usemtl ") + mt + "\n"; for (int k = r.i(1, 3); k > 0; k--) { o += "f"; for (int j = 0; j < 3; j++) { int i = 1 + r.i(nv); char b[60]; snprintf(b, 60, " %d/%d/%d", i, i, i); o += b; } o += "\n"; } }
    std::vector<unsigned char> px; for (int i = 0; i < 4 * 3 * 4; i++) px.push_back((unsigned char)r.i(256)); write_tga(dir + "/t.tga", 4, 3, 4, px);
    write_file(p + ".mtl", m); write_file(p + ".obj", o); return p + ".obj";
}


} // namespace vh
