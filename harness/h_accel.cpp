// P01: every ray query returns the nearest surface of the scene.  Online monitor: each answer of the
// acceleration structure and of the scene is compared with exhaustive search over the triangles of an
// independent flattening of the scene graph, in extended precision, with undecidable cases skipped.
#include "vscene.h"
using namespace vh;

static VScene make_scene(Rand& r, int sc, std::string& desc, lm::Scene* scene, lm::Accel* accel, bool with_env) {
    VScene S; S.scene = scene; S.accel = accel;
    const auto& kinds = mesh_kinds();
    int nm = 1 + r.i(3);
    std::ostringstream o;
    std::vector<std::string> locs;
    for (int i = 0; i < nm; i++) {
        std::string kind = i == 0 ? kinds[sc % kinds.size()] : r.pick(kinds);
        int n = r.p(.15) ? r.i(1, 3) : (r.p(.2) ? r.i(300, 1200) : r.i(4, 150));
        S.meshes.push_back(gen_mesh(r, kind, n));
        auto* m = lm::load<lm::Mesh>("m" + std::to_string(i), "mesh::raw", mesh_json(S.meshes.back()));
        locs.push_back(m->loc());
        o << kind << "x" << S.meshes.back().tris.size() << " ";
        cover("mesh_kind", kind);
    }
    auto reg = [&](int idx, bool prim, int mesh, bool hasM, Mat4 M) { VNode n; n.index = idx; n.prim = prim; n.mesh = mesh; n.has_M = hasM; n.M = M; S.nodes[idx] = n; };
    reg(scene->root_node(), false, -1, false, Mat4(1.0));
    auto link = [&](int p, int c) { scene->add_child(p, c); S.nodes.at(p).children.push_back(c); };
    std::vector<int> inst;
    for (int i = 0; i < nm; i++) {
        int k = scene->create_primitive_node({ {"mesh", locs[i]}, {"material", "$.assets.mat"} });
        reg(k, true, i, false, Mat4(1.0));
        int mode = sc == 0 ? 0 : r.i(4);
        if (mode == 0) link(0, k);
        else {
            int g = -1;
            if (mode == 3) { g = scene->create_instance_group_node(); reg(g, false, -1, false, Mat4(1.0)); link(g, k); }
            int copies = mode == 3 ? r.i(1, 3) : 1;
            for (int c = 0; c < copies; c++) {
                int tk = r.i(7); Mat4 M = gen_transform(r, tk);
                int t = scene->create_group_node(M); reg(t, false, -1, true, M);
                link(t, g >= 0 ? g : k);
                int top = t;
                if (r.p(.4)) { Mat4 M2 = gen_transform(r, r.i(7)); int t2 = scene->create_group_node(M2); reg(t2, false, -1, true, M2); link(t2, t); top = t2; }
                link(0, top);
                cover("transform", std::to_string(tk) + (top != t ? "n" : "") + (g >= 0 ? "i" : ""));
            }
        }
    }
    if (sc % 9 == 5) {      // many nodes, also nested deeply
        int many = r.p(.3) ? r.i(100, 400) : r.i(5, 120), depth = 0, par = 0; VMesh tiny = gen_mesh(r, r.pick(kinds), r.i(1, 4)); if (tiny.tris.size() > 6) tiny.tris.resize(6);
        S.meshes.push_back(tiny); auto* m = lm::load<lm::Mesh>("tiny", "mesh::raw", mesh_json(tiny)); int mi = (int)S.meshes.size() - 1;
        for (int i = 0; i < many; i++) {
            Mat4 M = r.p(.9) ? glm::translate(Mat4(1.0), r.v3(-3, 3)) * gen_transform(r, r.i(7)) : Mat4(1.0);
            if (r.p(.3) && depth < 40) { Mat4 N = glm::rotate(glm::translate(Mat4(1.0), .2 * r.v3(-1, 1)), r.u(-.3, .3), r.dir()); int g = scene->create_group_node(N); reg(g, false, -1, true, N); link(par, g); par = g; depth++; } else if (r.p(.1)) { par = 0; depth = 0; }
            int k = scene->create_primitive_node({ {"mesh", m->loc()}, {"material", "$.assets.mat"} }); reg(k, true, mi, false, Mat4(1.0));
            int t = scene->create_group_node(M); reg(t, false, -1, true, M); link(t, k); link(par, t);
        }
        o << "+" << many << " nodes "; cover("many_nodes", many >= 256 ? "256-400" : many >= 64 ? "64-255" : "5-63");
    }
    if (with_env) { int e = scene->create_primitive_node({ {"light", "$.assets.env"} }); reg(e, true, -1, false, Mat4(1.0)); link(0, e); }
    S.flatten(0, Mat4(1.0));
    desc = o.str();
    return S;
}

static void query(VScene& S, Rand& r, Vec3 o, Vec3 d, double tl, double th, const char* rk, int env_node) {
    count("queries");
    // oracle
    LD best = INFINITY; int certain = 0, unsure = 0;
    std::vector<std::pair<int, TriTest>> cand;
    for (int i = 0; i < (int)S.flat.size(); i++) {
        auto t = tri_test(S.flat[i].p, o, d, tl, th);
        if (t.cls < 0) continue;
        cand.push_back({ i, t });
        if (t.cls > 0) { certain++; if (t.t < best) best = t.t; } else unsure++;
    }
    auto ctx = [&] { return std::string(" ray o=") + str(o) + " d=" + str(d) + " range [" + std::to_string(tl) + "," + std::to_string(th) + "] kind " + rk; };
    auto h = S.accel->intersect({ o, d }, tl, th);
    if (!h) {
        count("answers.miss");
        VH_CHECK(certain == 0, "nearest:missed", "no hit reported, but a triangle is hit at t=" << (double)best << ctx());
    } else {
        count("answers.hit");
        const TriTest* match = nullptr; const Flat* f = nullptr;
        for (auto& c : cand) {
            auto& F = S.flat[c.first];
            if (F.node != h->primitive || F.face != h->face) continue;
            bool same = true;
            for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) if (!close(F.M[a][b], h->global_transform.M[a][b], 1e-9, 1e-9)) same = false;
            if (!same) continue;
            if (!match || fabsl(c.second.t - h->t) < fabsl(match->t - h->t)) { match = &c.second; f = &F; }
        }
        VH_CHECK(match, "nearest:wrong-triangle", "reported primitive " << h->primitive << " face " << h->face << " t=" << h->t << " is not hit by this ray in this range (nearest is t=" << (double)best << ", " << certain << " certain)" << ctx());
        double ttol = 1e-7 * std::max(1.0, std::fabs(h->t));
        if (match && match->cls > 0) {
            VH_CHECK(std::fabs((double)match->t - h->t) <= ttol, "nearest:distance", "reported t=" << h->t << " but the triangle is at t=" << (double)match->t << ctx());
            VH_CHECK(std::fabs((double)match->u - h->uv.x) <= 1e-5 && std::fabs((double)match->v - h->uv.y) <= 1e-5, "nearest:barycentric", "reported uv=" << h->uv.x << "," << h->uv.y << " expected " << (double)match->u << "," << (double)match->v << ctx());
        }
        VH_CHECK(best >= (LD)h->t - ttol, "nearest:not-nearest", "reported t=" << h->t << " but a nearer triangle is hit at t=" << (double)best << ctx());
        VH_CHECK(h->t >= tl - 1e-12 * std::max(1., std::fabs(tl)) && h->t <= th * (1 + 1e-12), "nearest:range", "reported t=" << h->t << " outside of the queried range" << ctx());
        // the transform handed out with the hit is the one of the primitive
        if (f) {
            Mat3 nm = Mat3(glm::transpose(glm::inverse(f->M)));
            bool ok = true;
            for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (!close(nm[a][b], h->global_transform.normal_M[a][b], 1e-7, 1e-7)) ok = false;
            VH_CHECK(ok && close(h->global_transform.J, std::fabs(glm::determinant(Mat3(f->M))), 1e-8, 1e-10), "nearest:transform", "wrong normal matrix or Jacobian of the hit primitive" << ctx());
        }
        if (certain + unsure > 1) count("answers.several_candidates");
        bool lone = match && f && match->cls > 0;
        for (auto& c : cand) if (lone && &c.second != match && fabsl(c.second.t - match->t) < 1e-5 * std::max((LD)1, fabsl(match->t))) lone = false;
        if (lone) {
            // the interaction built from the hit
            auto sp = S.scene->intersect({ o, d }, tl, th);
            VH_CHECK(sp && sp->is_type(lm::SceneInteraction::SurfaceInteraction) && !sp->geom.infinite, "surface:kind", "scene query does not give a surface interaction" << ctx());
            if (sp) {
                VH_CHECK(sp->primitive == f->node, "surface:primitive", "primitive " << sp->primitive << " expected " << f->node << ctx());
                double u = (double)match->u, v = (double)match->v, w = 1 - u - v;
                Vec3 pe = o + d * (double)match->t;
                double sc = std::max({ 1.0, glm::length(pe), glm::length(f->p[0]), glm::length(o) });
                VH_CHECK(glm::length(sp->geom.p - pe) <= 1e-6 * sc, "surface:position", "point " << str(sp->geom.p) << " is not on the ray, expected " << str(pe) << ctx());
                Mat3 nm = Mat3(glm::transpose(glm::inverse(f->M)));
                Vec3 gl = glm::cross(f->local.p[1] - f->local.p[0], f->local.p[2] - f->local.p[0]);
                Vec3 gn = glm::normalize(nm * glm::normalize(gl));
                Vec3 sn = glm::normalize(nm * glm::normalize(f->local.n[0] * w + f->local.n[1] * u + f->local.n[2] * v));
                double q = glm::length(gl) / std::max(1e-30, glm::length(f->local.p[1] - f->local.p[0]) * glm::length(f->local.p[2] - f->local.p[0]));
                if (q > 1e-3) {
                    VH_CHECK(glm::length(sp->geom.gn - gn) <= 1e-6, "surface:geometry-normal", "geometry normal " << str(sp->geom.gn) << " expected " << str(gn) << ctx());
                    VH_CHECK(glm::length(sp->geom.n - sn) <= 1e-5, "surface:shading-normal", "shading normal " << str(sp->geom.n) << " expected " << str(sn) << ctx());
                    Vec2 te = f->local.t[0] * w + f->local.t[1] * u + f->local.t[2] * v;
                    VH_CHECK(glm::length(sp->geom.t - te) <= 1e-5, "surface:texcoord", "texture coordinates " << str(sp->geom.t) << " expected " << str(te) << ctx());
                    VH_CHECK(std::fabs(glm::length(sp->geom.n) - 1) < 1e-9 && std::fabs(glm::length(sp->geom.gn) - 1) < 1e-9, "surface:unit", "normals are not of unit length" << ctx());
                    // tangent frame: unit, mutually orthogonal, right-handed with the shading normal
                    const auto& g = sp->geom;
                    VH_CHECK(std::fabs(glm::length(g.u) - 1) < 1e-6 && std::fabs(glm::length(g.v) - 1) < 1e-6 && std::fabs(glm::dot(g.u, g.v)) < 1e-6 && std::fabs(glm::dot(g.u, g.n)) < 1e-6 && std::fabs(glm::dot(g.v, g.n)) < 1e-6,
                        "surface:frame", "tangent frame is not orthonormal" << ctx());
                }
                count("surface_points");
            }
        }
    }
    // misses
    if (!h) {
        auto sp = S.scene->intersect({ o, d }, tl, th);
        if (th < lm::Inf || env_node < 0) VH_CHECK(!sp, "surface:phantom", "scene query returns an interaction although nothing is hit" << ctx());
        else {
            VH_CHECK(sp && sp->geom.infinite && sp->primitive == env_node && close(sp->geom.wo, -d, 1e-12, 1e-12), "surface:environment", "escaping ray does not reach the environment light" << ctx());
            count("env_hits");
        }
    }
}

static void visibility(VScene& S, Rand& r, int k) {
    // pairs of surface points
    if (S.flat.empty()) return;
    for (int it = 0; it < k; it++) {
        auto pickp = [&](const Flat*& f) { f = &S.flat[r.i((int)S.flat.size())]; double a = r.u(), b = r.u(); if (a + b > 1) { a = 1 - a; b = 1 - b; } return f->p[0] * (1 - a - b) + f->p[1] * a + f->p[2] * b; };
        const Flat *f1, *f2; Vec3 a = pickp(f1), b = pickp(f2);
        auto nrm = [](const Flat* f) { Vec3 g = glm::cross(f->p[1] - f->p[0], f->p[2] - f->p[0]); double l = glm::length(g); return l > 0 ? g / l : Vec3(0, 0, 1); };
        double L = glm::length(b - a);
        if (L < .02) continue;
        Vec3 d = (b - a) / L;
        lm::SceneInteraction s1, s2;
        s1 = lm::SceneInteraction::make_surface_interaction(f1->node, lm::PointGeometry::make_on_surface(a, nrm(f1)));
        s2 = lm::SceneInteraction::make_surface_interaction(f2->node, lm::PointGeometry::make_on_surface(b, nrm(f2)));
        // blockers strictly inside, excluding neighbourhoods of the end points of twice the shadow epsilon
        int certain = 0, unsure = 0;
        for (auto& f : S.flat) {
            auto t = tri_test(f.p, a, d, 0, L);
            if (t.cls < 0) continue;
            if (t.cls > 0 && t.t > 4e-3 * std::max(1., L) && t.t < L - 4e-3 * std::max(1., L)) certain++; else unsure++;
        }
        bool v = S.scene->visible(s1, s2), v2 = S.scene->visible(s2, s1);
        count("visibility_queries");
        auto ctx = [&] { return " from " + str(a) + " to " + str(b); };
        if (certain) { VH_CHECK(!v && !v2, "visible:through", "points separated by a surface are reported mutually visible" << ctx()); count("visibility.blocked"); }
        else if (!unsure) { VH_CHECK(v && v2, "visible:blocked", "points with a free line of sight are reported occluded" << ctx()); count("visibility.free"); }
        else {
            // only the triangles at the two ends may be unsure: then the end points are what is near
            bool only_ends = true;
            for (auto& f : S.flat) { auto t = tri_test(f.p, a, d, 0, L); if (t.cls < 0) continue; double e = 2e-4 * std::min(1., L); if (!(t.t < e || t.t > L - e)) only_ends = false; if (t.cls == 0 && !(t.t < e || t.t > L - e)) only_ends = false; }
            if (only_ends) { VH_CHECK(v && v2, "visible:blocked", "points with a free line of sight are reported occluded (only the end surfaces are near)" << ctx()); count("visibility.free"); }
        }
        // infinitely distant end
        Vec3 wi = r.dir();
        auto inf = lm::SceneInteraction::make_light_endpoint(0, lm::PointGeometry::make_infinite(-wi));
        int c3 = 0, u3 = 0;
        for (auto& f : S.flat) { auto t = tri_test(f.p, a, wi, 0, 1e9); if (t.cls < 0) continue; if (t.cls > 0 && t.t > 4e-3) c3++; else if (t.t > 2e-4) u3++; }
        if (c3 || !u3) {
            bool vi = S.scene->visible(s1, inf) && S.scene->visible(inf, s1), vo = S.scene->visible(s1, inf) || S.scene->visible(inf, s1);
            VH_CHECK(vi == vo, "visible:asymmetric", "visibility towards infinity depends on the order of the arguments" << ctx());
            VH_CHECK(vi == (c3 == 0), "visible:infinite", "visibility towards infinity along " << str(wi) << " is " << vi << ", blockers: " << c3 << ctx());
            count("visibility.infinite");
        }
    }
}

int main(int argc, char** argv) {
    parse(argc, argv);
    lm_init(1);
    long long scenes = n_cases(720, 14400);
    const int part = atoi(args().part.c_str()), parts = args().extra.count("parts") ? atoi(args().extra["parts"].c_str()) : 1;
    lm::load<lm::Material>("mat", "material::diffuse", { {"Kd", {.5, .5, .5}} });
    lm::load<lm::Light>("env", "light::envconst", { {"Le", {1., 1., 1.}} });
    auto* accel = lm::load<lm::Accel>("accel", "accel::sahbvh", {});
    auto* scene = lm::load<lm::Scene>("scene", "scene::default", { {"accel", accel->loc()} });
    if (part == 0) {
        // scenes without any surface
        for (int env = 0; env < 2; env++) {
            Rand r(args().seed + 77 + env);
            begin_case(std::string("empty scene, env=") + std::to_string(env));
            scene->reset();
            VScene S; S.scene = scene; S.accel = accel;
            if (env) { int e = scene->create_primitive_node({ {"light", "$.assets.env"} }); scene->add_child(0, e); }
            try {
                scene->build();
                for (int k = 0; k < 20; k++) query(S, r, r.v3(-1, 1), r.dir(), lm::Eps, k & 1 ? lm::Inf : 5., "empty", scene->env_light_node());
            } catch (const std::exception& e) { violation("empty-scene", std::string("building or querying a scene without surfaces throws: ") + e.what()); }
        }
    }
    if (part == 1 % parts) {
        // geometry whose hierarchy is a very long chain
        for (int v = 0; v < 8; v++) {
            Rand r(args().seed + 177 + v);
            begin_case("chain " + std::to_string(v));
            scene->reset();
            VScene S; S.scene = scene; S.accel = accel;
            VMesh m; m.kind = "chain"; double sg = v & 1 ? -1 : 1; double q = v < 4 ? 1.3 + .3 * (v / 2) : 16; double x = v < 4 ? 1e-2 : 1e-150;
            for (int i = 0; i < 150 && x < 1e8; i++) { double s = x; Vec3 c(sg * x, 0, 0); m.tris.push_back(make_tri(r, c + Vec3(0, -s, -s), c + Vec3(0, s, -s), c + Vec3(0, 0, s))); x *= q; }
            S.meshes.push_back(m);
            auto* ms = lm::load<lm::Mesh>("chain", "mesh::raw", mesh_json(m));
            VNode root; root.index = 0; root.prim = false; root.mesh = -1; root.has_M = false; 
            int k = scene->create_primitive_node({ {"mesh", ms->loc()}, {"material", "$.assets.mat"} });
            scene->add_child(0, k); root.children = { k }; S.nodes[0] = root;
            VNode pn; pn.index = k; pn.prim = true; pn.mesh = 0; pn.has_M = false; S.nodes[k] = pn;
            S.flatten(0, Mat4(1.0));
            scene->build();
            cover("chain_length", std::to_string(S.flat.size()));
            for (int j = 0; j < 60; j++) {
                Vec3 o(0, r.u(-1e-4, 1e-4), r.u(-1e-4, 1e-4)); Vec3 d = j % 3 == 0 ? Vec3(sg, 0, 0) : j % 3 == 1 ? glm::normalize(Vec3(sg, r.u(-.05, .05), r.u(-.05, .05))) : glm::normalize(Vec3(-sg, r.u(-.3, .3), r.u(-.3, .3)));
                if (j % 3 == 2) o.x = sg * x * r.u(0, 1);
                if (j % 6 == 0) o = Vec3(-sg, 0, 0);
                query(S, r, o, d, 0, lm::Inf, "chain", -1);
            }
        }
    }
    for (long long sc = part; sc < scenes; sc += parts) {
        if (!want(sc)) continue;
        Rand r(args().seed * 1000003ull + sc);
        begin_case("scene " + std::to_string(sc));
        scene->reset();                       // the same accelerator object is rebuilt for every scene
        bool env = r.p(.5);
        std::string desc;
        VScene S = make_scene(r, (int)sc, desc, scene, accel, env);
        begin_case("scene " + std::to_string(sc) + " " + desc);
        scene->build();
        if (sc % 7 == 3) scene->build();      // rebuilding changes nothing
        count("triangles", (long long)S.flat.size());
        cover("scenes", desc);
        int envn = scene->env_light_node();
        if (sc < 6) sample("scene " + std::to_string(sc) + ": " + desc + "(" + std::to_string(S.flat.size()) + " world triangles, env=" + std::to_string(env) + ")");
        const int nr = S.flat.size() > 2000 ? 60 : 160;
        Vec3 lo(1e30), hi(-1e30);
        for (auto& f : S.flat) for (auto& p : f.p) { lo = glm::min(lo, p); hi = glm::max(hi, p); }
        if (S.flat.empty()) { lo = Vec3(-1); hi = Vec3(1); }
        double diag = glm::length(hi - lo) + 1e-3;
        for (int k = 0; k < nr; k++) {
            Vec3 o, d; double tl = lm::Eps, th = lm::Inf; const char* rk = "";
            auto target = [&] { if (S.flat.empty()) return r.v3(-1, 1); auto& f = S.flat[r.i((int)S.flat.size())]; double a = r.u(), b = r.u(); if (a + b > 1) { a = 1 - a; b = 1 - b; } return f.p[0] * (1 - a - b) + f.p[1] * a + f.p[2] * b; };
            switch (k % 8) {
                case 0: rk = "aimed"; { Vec3 t = target(); o = t + diag * r.u(.1, 2) * r.dir(); d = glm::normalize(t - o); } break;
                case 1: rk = "inside"; o = lo + (hi - lo) * r.v3(); d = r.dir(); break;
                case 2: rk = "axis"; { Vec3 t = target(); d = Vec3(0); int a = r.i(3); d[a] = r.p(.5) ? 1 : -1; if (r.p(.3)) for (int i = 0; i < 3; i++) if (i != a) d[i] = r.p(.5) ? -0.0 : 0.0; o = t - d * diag * r.u(.1, 2); } break;
                case 3: rk = "axis-plane"; { Vec3 t = target(); int a = r.i(3); d = r.dir(); d[a] = 0; if (glm::length(d) < 1e-6) d = Vec3(a == 0 ? 0 : 1, a == 0 ? 1 : 0, 0); d = glm::normalize(d); o = t - d * diag * r.u(.1, 1.5); } break;
                case 4: rk = "between"; { Vec3 a = target(), b = target(); if (glm::length(b - a) < 1e-6) continue; d = glm::normalize(b - a); o = a - d * r.u(0, .5) * diag; } break;
                case 5: rk = "window"; { Vec3 t = target(); o = t + diag * r.u(.05, 1) * r.dir(); d = glm::normalize(t - o); double L = glm::length(t - o); tl = r.p(.5) ? L * r.u(0, 1.3) : 0; th = tl + L * r.u(.01, 1.2); } break;
                case 6: rk = "escape"; o = lo + (hi - lo) * r.v3(-.5, 1.5); d = glm::normalize(o - (lo + hi) * .5 + 1e-9 * r.v3()); break;
                default: rk = "surface-start"; { o = target(); d = r.dir(); }
            }
            if (!(std::fabs(glm::length(d) - 1) < 1e-6)) continue;
            cover("ray_kind", rk);
            query(S, r, o, d, tl, th, rk, envn);
        }
        visibility(S, r, S.flat.size() > 2000 ? 8 : 30);
    }
    return finish();
}
