// P19: the path sampling interface.  Every sampled quantity carries the weight contribution / density, path
// densities, contributions and weights of all strategies of a path agree, connected paths are proper paths.
#include "vasset.h"
#include <lm/surface.h>
#include <lm/path.h>
#include <lm/bidir.h>
using namespace vh;
using lm::SceneInteraction; using lm::TransDir; using lm::Rng; using lm::PointGeometry; namespace path = lm::path;

static std::string CTX;
static std::string kindof(const lm::Scene* S, const SceneInteraction& sp) {
    const auto& p = S->node_at(sp.primitive).primitive;
    if (sp.type == SceneInteraction::CameraEndpoint) return "camera"; if (sp.type == SceneInteraction::LightEndpoint) return p.light->key(); if (sp.type == SceneInteraction::MediumInteraction) return "medium"; return sp.geom.infinite ? "environment" : p.material->key();
}
static bool okw(Vec3 w, Vec3 f, double p, double rel = 1e-6) { return close(w, f / p, rel, 1e-9); }
// independent geometry term
static double G(const PointGeometry& a, const PointGeometry& b) {
    if (a.infinite && b.infinite) return 0; Vec3 d = a.infinite ? a.wo : b.infinite ? -b.wo : b.p - a.p; double l = glm::length(d); double g = (a.infinite || b.infinite) ? 1 : 1 / (l * l); d /= l;
    if (!a.degenerated && !a.infinite) g *= std::fabs(glm::dot(a.n, d)); if (!b.degenerated && !b.infinite) g *= std::fabs(glm::dot(b.n, d)); return g;
}
// the factor of a shading normal: flux is measured with the normal of the surface, the model with the shading normal
static double sn_factor(const PointGeometry& g, Vec3 wi, Vec3 wo, TransDir td) {
    double ig = glm::dot(wi, g.gn), og = glm::dot(wo, g.gn), is = glm::dot(wi, g.n), os = glm::dot(wo, g.n); if (ig * is <= 0 || og * os <= 0) return 0; return td == TransDir::LE ? is * og / (os * ig) : 1;
}
static bool sn_clear(const PointGeometry& g, Vec3 w) { return std::fabs(glm::dot(w, g.gn)) > 1e-6 && std::fabs(glm::dot(w, g.n)) > 1e-6; }
static void geometry(Rand& r) {
    for (int k = 0; k < 30; k++) {
        Vec3 gn = r.dir(), n = glm::normalize(gn + r.u(0, 1.5) * r.v3(-1, 1)); auto g = PointGeometry::make_on_surface(r.v3(-2, 2), n, gn, r.v2()); Vec3 wi = r.dir(), wo = r.dir(); if (!sn_clear(g, wi) || !sn_clear(g, wo)) continue; count("shading normal factors");
        for (auto td : { TransDir::EL, TransDir::LE }) { double e = sn_factor(g, wi, wo, td), x = lm::surface::shading_normal_correction(g, wi, wo, td); VH_CHECK(close(x, e, 1e-6), "path:shading normal", "factor " << x << " expected " << e); }
    }
    auto gen = [&](int k) { return k == 0 ? PointGeometry::make_degenerated(r.v3(-3, 3)) : k == 1 ? PointGeometry::make_infinite(r.dir()) : probe_geom(r); };
    for (int k = 0; k < 30; k++) {
        auto a = gen(r.i(4)), b = gen(r.i(4)); double e = G(a, b), g = lm::surface::geometry_term(a, b); count("geometry terms");
        VH_CHECK(close(g, e, 1e-9), "path:geometry term", "geometry term " << g << " expected " << e); VH_CHECK(close(lm::surface::geometry_term(b, a), e, 1e-9), "path:geometry term", "not symmetric");
        double p = r.u(0, 3); VH_CHECK(close(lm::surface::convert_pdf_to_area(p, a, b), p * e, 1e-9), "path:area density", "density");
        if (!a.infinite) { Vec3 d = r.dir(); double x = lm::surface::convert_pdf_SA_to_projSA(p, a, d); VH_CHECK(close(x, a.degenerated ? p : p / std::fabs(glm::dot(a.n, d)), 1e-9), "path:projected density", "density " << x); }
    }
}

static void endpoints(const lm::Scene* S, Rng& rng, Rand& r) {
    for (int k = 0; k < 30; k++) for (auto td : { TransDir::EL, TransDir::LE }) {
        bool E = td == TransDir::EL; int ty = E ? SceneInteraction::CameraEndpoint : SceneInteraction::LightEndpoint;
        if (auto s = path::sample_primary_ray(rng, S, td)) {
            count("primary rays"); auto K = kindof(S, s->sp); cover("endpoint", K); std::string ctx = " [" + K + "]" + CTX;
            VH_CHECK(s->sp.type == ty, "path:endpoint type", "type " << s->sp.type << ctx); VH_CHECK(E ? s->sp.primitive == S->camera_node() : S->is_light(s->sp), "path:endpoint", "primary ray does not start at an endpoint" << ctx);
            Vec3 f = path::eval_contrb_direction(S, s->sp, {}, s->wo, 0, td, false); double p = path::pdf_primary_ray(S, s->sp, s->wo, false);
            VH_CHECK(std::fabs(glm::length(s->wo) - 1) < 1e-6, "path:unit", "direction" << ctx);
            if (!(p > 0 && std::isfinite(p))) { VH_CHECK(f == Vec3(0) || s->weight == Vec3(0), "path:ray density", "density " << p << " of a sampled primary ray of value " << str(f) << ctx); continue; }
            VH_CHECK(okw(s->weight, f, p), "path:ray weight", "weight " << str(s->weight) << " expected " << str(f / p) << ctx);
            if (path::is_connectable_endpoint(S, s->sp)) {
                double q = path::pdf_position(S, s->sp) * path::pdf_direction(S, s->sp, {}, s->wo, 0, false); VH_CHECK(close(p, q, 1e-6), "path:ray factorisation", "density " << p << " of a ray is not the product " << q << ctx);
            }
            if (E) { auto rp = path::raster_position(S, s->wo); VH_CHECK(rp && rp->x >= -1e-9 && rp->x <= 1 + 1e-9 && rp->y >= -1e-9 && rp->y <= 1 + 1e-9, "path:raster", "primary ray outside of the film" << ctx); }
        }
        // positions: only for endpoints with a position
        bool pos = true; if (!E) for (int i = 0; i < S->num_lights(); i++) { auto* l = S->node_at(S->light_primitive_index_at(i).index).primitive.light; pos &= l->key() == "light::area" || l->key() == "light::point"; }
        if (!pos) continue;
        if (auto s = path::sample_position(rng, S, td)) {
            count("positions"); auto K = kindof(S, s->sp); std::string ctx = " [" + K + "]" + CTX; double p = path::pdf_position(S, s->sp);
            VH_CHECK(s->sp.type == ty, "path:endpoint type", "type " << s->sp.type << ctx); VH_CHECK(p > 0 && okw(s->weight, Vec3(1), p), "path:position weight", "weight " << str(s->weight) << " expected " << 1 / p << ctx);
            if (auto d = path::sample_direction(rng, S, s->sp, {}, 0, td)) { Vec3 f = path::eval_contrb_direction(S, s->sp, {}, d->wo, 0, td, false); double q = path::pdf_direction(S, s->sp, {}, d->wo, 0, false); if (q > 0) VH_CHECK(okw(d->weight, f, q), "path:emission weight", "weight " << str(d->weight) << " expected " << str(f / q) << ctx); else VH_CHECK(f == Vec3(0) || d->weight == Vec3(0), "path:emission density", "density " << q << ctx); }
        }
    }
    double tot = 0; for (int i = 0; i < S->num_lights(); i++) tot += S->pdf_light_selection(i); if (S->num_lights()) VH_CHECK(close(tot, 1, 1e-9), "path:selection", "selection probabilities sum to " << tot << CTX);
    (void)r;
}
static void at_vertex(const lm::Scene* S, Rng& rng, Rand& r, const SceneInteraction& sp, Vec3 wi) {
    auto K = kindof(S, sp); std::string ctx = " [" + K + "]" + CTX; cover("vertex", K);
    if (sp.geom.infinite) return;
    for (auto td : { TransDir::EL, TransDir::LE }) {
        auto c = path::sample_component(rng, S, sp, wi); double pc = path::pdf_component(S, sp, wi, c.comp); VH_CHECK(pc > 0 && close(c.weight, 1 / pc, 1e-9), "path:component", "weight " << c.weight << " expected " << 1 / pc << ctx); count("components");
        if (auto s = path::sample_direction(rng, S, sp, wi, c.comp, td)) {
            count("directions"); Vec3 f = path::eval_contrb_direction(S, sp, wi, s->wo, c.comp, td, false); double p = path::pdf_direction(S, sp, wi, s->wo, c.comp, false);
            if (p > 0 && std::isfinite(p)) VH_CHECK(okw(s->weight, f, p, 1e-5), "path:direction weight", "weight " << str(s->weight) << " expected " << str(f / p) << ctx);
            else VH_CHECK(f == Vec3(0) || s->weight == Vec3(0) || !(p >= 0), "path:direction density", "density " << p << " value " << str(f) << ctx);
            if (sp.type == SceneInteraction::SurfaceInteraction && sn_clear(sp.geom, wi)) {
                auto* m = S->node_at(sp.primitive).primitive.material; Vec3 q = r.p(.5) ? s->wo : r.dir(); bool dl = r.p(.5);
                if (sn_clear(sp.geom, q)) { Vec3 x = path::eval_contrb_direction(S, sp, wi, q, c.comp, td, dl), e = m->eval(sp.geom, wi, q, c.comp, td == TransDir::LE ? lm::Material::TransDir::LE : lm::Material::TransDir::EL, dl) * sn_factor(sp.geom, wi, q, td); count("surface values"); VH_CHECK(close(x, e, 1e-6, 1e-12), "path:surface value", "value " << str(x) << " of the path interface, " << str(e) << " of the material" << ctx);
                    VH_CHECK(path::pdf_direction(S, sp, wi, q, c.comp, dl) == m->pdf_direction(sp.geom, wi, q, c.comp, dl), "path:surface density", "density differs from the material's" << ctx); }
            }
            bool spec = path::is_specular_component(S, sp, c.comp);
            if (spec) { VH_CHECK(path::eval_contrb_direction(S, sp, wi, s->wo, c.comp, td, true) == Vec3(0) && path::pdf_direction(S, sp, wi, s->wo, c.comp, true) == 0, "path:delta", "specular component evaluated with delta" << ctx); count("specular directions"); }
            else { VH_CHECK(path::eval_contrb_direction(S, sp, wi, s->wo, c.comp, td, true) == f, "path:delta", "value depends on the delta flag" << ctx); }
        }
        if (path::is_specular_component(S, sp, c.comp)) continue;
        if (auto s = path::sample_direct(rng, S, sp, td)) {
            count("direct samples"); auto KL = kindof(S, s->sp); cover("direct", KL); std::string ctx2 = " [" + K + " to " + KL + "]" + CTX;
            Vec3 f = path::eval_contrb_direction(S, s->sp, {}, s->wo, 0, td == TransDir::LE ? TransDir::LE : TransDir::EL, false); double p = path::pdf_direct(S, sp, s->sp, s->wo, false);
            VH_CHECK(s->sp.type == (td == TransDir::LE ? SceneInteraction::LightEndpoint : SceneInteraction::CameraEndpoint), "path:direct type", "type " << s->sp.type << ctx2);
            if (!s->sp.geom.infinite) { Vec3 d = glm::normalize(sp.geom.p - s->sp.geom.p); if (glm::length(sp.geom.p - s->sp.geom.p) > 1e-4) VH_CHECK(glm::length(d - s->wo) < 1e-5, "path:direct direction", "direction " << str(s->wo) << " expected " << str(d) << ctx2); }
            double cs = sp.geom.degenerated ? 1 : std::fabs(glm::dot(sp.geom.n, s->wo)); if (cs < 1e-6) continue;
            if (p > 0 && std::isfinite(p)) VH_CHECK(okw(s->weight, f, p, 1e-5), "path:direct weight", "weight " << str(s->weight) << " expected " << str(f / p) << " density " << p << ctx2);
            else VH_CHECK(f == Vec3(0) || s->weight == Vec3(0), "path:direct density", "density " << p << " value " << str(f) << ctx2);
        }
    }
    (void)r;
}
static void subpath(const lm::Scene* S, const lm::Path& p, TransDir td, int maxv) {
    VH_CHECK(p.num_verts() <= std::max(2, maxv), "path:subpath length", p.num_verts() << " vertices of at most " << maxv << CTX); count("subpaths");
    for (int i = 0; i < p.num_verts(); i++) {
        auto& v = p.vs[i]; if (i == 0) { VH_CHECK(v.sp.type == (td == TransDir::EL ? SceneInteraction::CameraEndpoint : SceneInteraction::LightEndpoint), "path:subpath type", "type of the first vertex" << CTX); continue; }
        VH_CHECK(v.sp.type == (v.sp.geom.infinite ? SceneInteraction::LightEndpoint : SceneInteraction::SurfaceInteraction), "path:subpath type", "type " << v.sp.type << " of vertex " << i << CTX);
        auto& u = p.vs[i - 1]; if (v.sp.geom.infinite) { VH_CHECK(i == p.num_verts() - 1, "path:subpath end", "subpath continues at infinity" << CTX); continue; } if (u.sp.geom.infinite) { continue; }
        double l = glm::length(u.sp.geom.p - v.sp.geom.p); if (l > 1e-2) VH_CHECK(S->visible(u.sp, v.sp), "path:subpath visibility", "consecutive vertices at distance " << l << " do not see each other" << CTX);
    }
}
static void fullpaths(const lm::Scene* S, Rng& rng, Rand& r) {
    int me = r.i(1, 6), ml = r.i(0, 5); auto E = path::sample_subpath(rng, S, me, TransDir::EL), L = path::sample_subpath(rng, S, ml, TransDir::LE); subpath(S, E, TransDir::EL, me); if (ml) subpath(S, L, TransDir::LE, ml); else VH_CHECK(L.num_verts() == 0, "path:subpath length", "vertices of an empty subpath" << CTX);
    for (int i = 1; i < E.num_verts(); i++) at_vertex(S, rng, r, E.vs[i].sp, E.direction(&E.vs[i], &E.vs[i - 1])); for (int i = 1; i < L.num_verts(); i++) at_vertex(S, rng, r, L.vs[i].sp, L.direction(&L.vs[i], &L.vs[i - 1]));
    for (int s = 0; s <= L.num_verts(); s++) for (int t = 0; t <= E.num_verts(); t++) {
        if (s + t < 2) continue; auto P = path::connect_subpaths(S, L, E, s, t); count("connections");
        // what a connection needs
        bool need = true;
        if (s > 0 && t > 0) { auto &a = L.vs[s - 1].sp, &b = E.vs[t - 1].sp; need = !a.geom.infinite && !b.geom.infinite && S->visible(a, b); }
        else if (s == 0) need = !E.vs[t - 1].sp.geom.degenerated && S->is_light(E.vs[t - 1].sp); else need = false;
        VH_CHECK((bool)P == need, "path:connection", "connection " << s << "+" << t << " is " << (P ? "made" : "refused") << CTX);
        if (!P) continue; count("paths"); int n = s + t; cover("strategy", std::to_string(s) + "," + std::to_string(t));
        VH_CHECK(P->num_verts() == n && P->num_edges() == n - 1, "path:vertices", P->num_verts() << " vertices of " << n << CTX);
        if (P->num_verts() != n) continue;
        VH_CHECK(P->vs.front().sp.type == SceneInteraction::LightEndpoint && P->vs.back().sp.type == SceneInteraction::CameraEndpoint, "path:ends", "types of the ends" << CTX);
        auto same = [](const SceneInteraction& a, const SceneInteraction& b) { return a.primitive == b.primitive && (a.geom.infinite ? b.geom.infinite && a.geom.wo == b.geom.wo : a.geom.p == b.geom.p); };
        for (int i = 0; i < s; i++) VH_CHECK(same(P->vs[i].sp, L.vs[i].sp), "path:vertex order", "vertex " << i << " of the light subpath" << CTX); for (int i = 0; i < t; i++) VH_CHECK(same(P->vs[n - 1 - i].sp, E.vs[i].sp), "path:vertex order", "vertex " << i << " of the eye subpath" << CTX);
        for (int i = 0; i < n; i++) VH_CHECK(P->vertex_at(i, TransDir::LE) == &P->vs[i] && P->vertex_at(i, TransDir::EL) == &P->vs[n - 1 - i], "path:index", "vertex access" << CTX);
        VH_CHECK(!P->vertex_at(n, TransDir::LE) && !P->vertex_at(-1, TransDir::EL), "path:index", "vertex outside of the path" << CTX);
        if (P->vs.front().sp.geom.infinite && n >= 2 && P->vs[0].comp != 0) {}
        // quantities of all strategies
        std::vector<double> p(n + 1); double sum = 0; bool fin = true; for (int k = 0; k <= n; k++) { p[k] = P->pdf_bidir(S, k); fin &= std::isfinite(p[k]) && p[k] >= 0; }
        bool grazing = false; for (int i = 1; i < n; i++) { auto &a = P->vs[i - 1].sp.geom, &b = P->vs[i].sp.geom; Vec3 d = P->direction(&P->vs[i - 1], &P->vs[i]); if (!a.degenerated && !a.infinite && std::fabs(glm::dot(a.n, d)) < 1e-4) grazing = true; if (!b.degenerated && !b.infinite && std::fabs(glm::dot(b.n, d)) < 1e-4) grazing = true; }
        if (grazing) continue;
        VH_CHECK(fin, "path:pdf", "density of a strategy is not a density" << CTX); if (!fin) continue;
        bool refr = false; for (auto& v : P->vs) if (v.sp.type == SceneInteraction::SurfaceInteraction) { std::string k = S->node_at(v.sp.primitive).primitive.material->key(); refr |= glm::length(v.sp.geom.n - v.sp.geom.gn) > 1e-7; refr |= k != "material::diffuse" && k != "material::glossy" && k != "material::mixture_wavefrontobj" && k != "material::mirror"; }
        Vec3 f0(0); int first = -1; bool light_spec = path::is_specular_component(S, P->vs[0].sp, 0);
        for (int k = 0; k <= n; k++) {
            bool smp = P->is_samplable_bidir(S, k); if (!smp) { VH_CHECK(p[k] == 0, "path:unsamplable", "density " << p[k] << " of a strategy that cannot sample the path" << CTX); continue; }
            if (p[k] == 0) continue; Vec3 f = P->eval_measurement_contrb_bidir(S, k), C = P->eval_sampling_weight_bidir(S, k); count("strategies");
            if (!finite(f)) { VH_CHECK(false, "path:contribution", "contribution " << str(f) << CTX); continue; }
            VH_CHECK(close(C, f / p[k], 1e-5, 1e-9) || (f == Vec3(0) && C == Vec3(0)), "path:sampling weight", "weight " << str(C) << " of strategy " << k << " of " << n << " expected " << str(f / p[k]) << CTX);
            if (!refr) { if (first < 0) { first = k; f0 = f; } else { VH_CHECK(close(f, f0, 1e-5, 1e-300), "path:contribution of strategies", "contribution " << str(f) << " by strategy " << k << " but " << str(f0) << " by " << first << " of " << n << CTX); count("contributions compared"); } }
            double w = P->eval_mis_weight(S, k); VH_CHECK(w >= 0 && w <= 1 + 1e-9, "path:mis range", "weight " << w << CTX); sum += w;
            double q = 0, mx = 0; for (double x : p) mx = std::max(mx, x); for (double x : p) q += (x / mx) * (x / mx); q = (p[k] / mx) * (p[k] / mx) / q; if (mx > 0 && std::isfinite(q) && q > 1e-30) VH_CHECK(close(w, q, 1e-6, 1e-12), "path:mis weight", "weight " << w << " of strategy " << k << " of " << n << ", by the power heuristic " << q << CTX);
        }
        bool any = false; for (double x : p) any |= x > 0; if (any) { VH_CHECK(close(sum, 1, 1e-6), "path:mis sum", "weights of the strategies sum to " << sum << CTX); count("paths with weights"); }
        // the strategy that made the path can make it
        if (P->is_samplable_bidir(S, s)) { double ds = p[s]; bool zero = false; for (int k = 0; k <= n && !zero; k++) zero = ds == 0 && P->eval_measurement_contrb_bidir(S, s) == Vec3(0); VH_CHECK(ds > 0 || zero, "path:own density", "density of the strategy " << s << "," << t << " that sampled the path is zero" << CTX); }
        (void)light_spec;
    }
}

// shading normals equal to the normals of the faces
static void flatten(World& w) {
    for (auto& s : w.s) if (s.key == "mesh::raw") {
        auto& p = s.prop["ps"]; auto& n = s.prop["ns"]; auto P = [&](int i) { return Vec3(p[3 * i].get<double>(), p[3 * i + 1].get<double>(), p[3 * i + 2].get<double>()); };
        for (size_t t = 0; t < s.prop["fs"]["p"].size(); t += 3) { Vec3 q[3]; for (int k = 0; k < 3; k++) q[k] = P(s.prop["fs"]["p"][t + k].get<int>()); Vec3 g = glm::normalize(glm::cross(q[1] - q[0], q[2] - q[0])); for (int k = 0; k < 3; k++) { int i = s.prop["fs"]["n"][t + k].get<int>(); for (int a = 0; a < 3; a++) n[3 * i + a] = g[a]; } }
    }
}
int main(int argc, char** argv) {
    parse(argc, argv); lm_init(1);
    auto& A = args(); long long np = A.extra.count("parts") ? atoll(A.extra["parts"].c_str()) : 1, me = A.part.empty() ? 0 : atoll(A.part.c_str());
    long long n = n_cases(400, 16000);
    for (long long c = me; c < n; c += np) {
        if (!want(c)) continue;
        Rand r(A.seed * 1000003 + c); begin_case("case " + std::to_string(c)); lm::reset();
        try {
            auto* g = lm::load<lm::AssetGroup>("world", "asset_group::default", Json::object()); auto w = make_world(r, "$.assets.world", scratch(), false, false); bool flat = r.p(.6); if (flat) flatten(w); if (r.p(.5)) { std::vector<Spec> k; for (auto& x : w.s) if (x.key != "light::directional" && x.name.rfind("env", 0) != 0) k.push_back(x); w.s = k; } if (!load_world(g, w)) continue;
            auto* S = lm::comp::get<lm::Scene>("$.assets.world.scene"); auto plan = plan_scene(r, w, false); fill_scene(S, w, plan); Rng rng(r.i(1 << 30)); CTX = "";
            geometry(r); endpoints(S, rng, r); for (int k = 0; k < 150; k++) fullpaths(S, rng, r);
        } catch (std::exception& e) { violation("path:exception", e.what()); }
    }
    lm::shutdown();
    return finish();
}
