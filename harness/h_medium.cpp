// P17: participating media, volumes and phase functions.  Transmittance and free-flight distances are
// compared with the integral of the density the volume reports, phase functions with their closed forms.
#include "vscene.h"
#include <lm/medium.h>
#include <lm/phase.h>
#include <lm/volume.h>
#include <lm/surface.h>
#include <lm/scene.h>
#include <lm/path.h>
using namespace vh;
using lm::Medium; using lm::Phase; using lm::Volume; using lm::Bound; using lm::Ray; using lm::Rng; using lm::PointGeometry; using lm::Pi; using lm::Inf;

static Json j3(Vec3 v) { return Json{ v.x, v.y, v.z }; }
// Kolmogorov-Smirnov statistic against the uniform distribution, scaled by sqrt(n)
static double ks(std::vector<double> v) {
    std::sort(v.begin(), v.end()); double d = 0, n = (double)v.size();
    for (size_t i = 0; i < v.size(); i++) d = std::max({ d, std::fabs(v[i] - i / n), std::fabs(v[i] - (i + 1) / n) });
    return d * std::sqrt(n);
}

static void phase(Rand& r) {
    bool iso = r.p(.25); double g = iso ? 0 : r.p(.1) ? 0 : r.p(.1) ? r.u(-.002, .002) : r.p(.15) ? r.u(-.15, .15) : r.p(.2) ? (r.p(.5) ? 1 : -1) * r.u(.9, .97) : r.u(-.9, .9);
    auto P = iso ? lm::comp::create<Phase>("phase::isotropic", "", Json::object()) : lm::comp::create<Phase>("phase::hg", "", { {"g", g} });
    std::ostringstream o; o << (iso ? " [isotropic]" : " [hg g=") << g << "]"; auto ctx = o.str(); cover("phase", iso ? "isotropic" : g == 0 ? "g=0" : std::fabs(g) < .003 ? "tiny g" : g < -.85 ? "backward" : g > .85 ? "forward" : g < 0 ? "g<0" : "g>0");
    auto geom = PointGeometry::make_degenerated(r.v3(-9, 9)); Vec3 wi = r.dir();
    auto ref = [&](double c) { double t = 1 + g * g - 2 * g * c; return (1 - g * g) / (4 * Pi * t * std::sqrt(t)); };           // c = cos of the deflection
    auto cdf = [&](double c) { return std::fabs(g) < 1e-6 ? (c + 1) / 2 : (1 - g * g) / (2 * g) * (1 / std::sqrt(1 + g * g - 2 * g * c) - 1 / (1 + g)); };
    for (int k = 0; k < 200; k++) {
        Vec3 wo = k == 0 ? wi : k == 1 ? -wi : r.dir(); double c = -glm::dot(wi, wo), e = ref(c), f = P->eval(geom, wi, wo).x, p = P->pdf_direction(geom, wi, wo); Vec3 F = P->eval(geom, wi, wo); count("evaluations");
        VH_CHECK(close(f, e, 1e-6) && F == Vec3(F.x), "phase:value", "phase function " << f << " expected " << e << " at cosine " << c << ctx);
        VH_CHECK(close(p, e, 1e-6), "phase:pdf", "density " << p << " expected " << e << " at cosine " << c << ctx);
        VH_CHECK(close(P->eval(geom, wo, wi).x, f, 1e-12), "phase:reciprocity", "not symmetric" << ctx);
    }
    std::vector<double> us, az; lm::Vec3 b1, b2; { Vec3 a = std::fabs(wi.x) < .5 ? Vec3(1, 0, 0) : Vec3(0, 1, 0); b1 = glm::normalize(glm::cross(wi, a)); b2 = glm::cross(wi, b1); }
    for (int k = 0; k < 1500; k++) {
        Vec2 u = k < 4 ? Vec2(k & 1 ? 0. : .9999999, k & 2 ? 0. : .9999999) : r.v2();
        auto s = P->sample_direction({ u }, geom, wi); if (!s) { violation("phase:sample", "no sample" + ctx); return; }
        count("samples"); double c = -glm::dot(wi, s->wo);
        VH_CHECK(std::fabs(glm::length(s->wo) - 1) < 1e-7, "phase:unit", "sampled direction " << str(s->wo) << ctx);
        double p = P->pdf_direction(geom, wi, s->wo), f = P->eval(geom, wi, s->wo).x;
        VH_CHECK(close(s->weight, Vec3(f / p), 1e-9), "phase:weight", "weight " << str(s->weight) << " expected " << f / p << ctx);
        if (k >= 4) { us.push_back(cdf(std::min(1., std::max(-1., c)))); az.push_back(std::atan2(glm::dot(s->wo, b2), glm::dot(s->wo, b1)) / (2 * Pi) + .5); }
    }
    { MapCheck mc; for (int k = 0; k < 60; k++) mc.point([&](Vec2 u) -> std::optional<Vec3> { auto s = P->sample_direction({ u }, geom, wi); if (!s) return {}; return s->wo; }, [&](Vec3 wo) { return P->pdf_direction(geom, wi, wo); }, r.v2());
      if (std::fabs(g) == 0 || std::fabs(g) >= .003) { VH_CHECK(!mc.bad(), "phase:sample-map", "of " << mc.used << " sampled directions " << mc.off << " are more or less dense than the density says, by a factor up to " << mc.worst << ctx); count("sample map points", mc.used); } }
    double d = ks(us); VH_CHECK(d < (std::fabs(g) < .003 ? 3.3 : 3.0), "phase:distribution", "the sampled deflections do not follow the density (KS " << d << ")" << ctx);
    d = ks(az); VH_CHECK(d < 3.0, "phase:azimuth", "the sampled azimuths are not uniform (KS " << d << ")" << ctx);
}

// ---- volumes with a reference density
struct V { std::string name; std::function<double(Vec3)> f; std::function<Vec3(Vec3)> col; Vec3 lo, hi; double mx; bool color, scalar; double truncated = 0; std::string kind; };
static int VN = 0;
static V volume(Rand& r, int depth = 0) {
    V v; v.name = "v" + std::to_string(VN++); v.color = v.scalar = true; int k = r.i(depth < 2 ? 5 : 4); Vec3 c = r.v3(0, 1); v.col = [c](Vec3) { return c; }; v.mx = r.p(.1) ? 0.01 : std::pow(10., r.u(-1, 1)); double s = v.mx; Json p;
    if (k == 0) { v.kind = "constant"; v.lo = r.v3(-3, 0); v.hi = v.lo + r.v3(.3, 4); p = { {"bound_min", j3(v.lo)}, {"bound_max", j3(v.hi)}, {"color", j3(c)}, {"scalar", s} }; v.f = [s](Vec3) { return s; }; }
    else if (k == 1) { v.kind = "gaussian"; Vec3 q = r.v3(-2, 2), g = r.p(.3) ? Vec3(std::pow(10., r.u(-1.5, 1.5))) : r.v3(.2, 3); p = { {"pos", j3(q)}, {"sigma", j3(g)}, {"color", j3(c)}, {"scalar", s} };
        v.f = [=](Vec3 x) { Vec3 d = (x - q) / g; return s * std::exp(-.5 * glm::dot(d, d)); }; double R = 7.4338 * std::max({ g.x, g.y, g.z }); v.lo = q - Vec3(R); v.hi = q + Vec3(R); }
    else if (k == 2) { v.kind = "sphere"; Vec3 q = r.v3(-2, 2); double R = r.u(.1, 3); p = { {"pos", j3(q)}, {"radius", R}, {"color", j3(c)}, {"scalar", s} }; v.f = [=](Vec3 x) { return glm::length(x - q) < R ? s : 0.; }; v.lo = q - Vec3(R); v.hi = q + Vec3(R); }
    else if (k == 3) { v.kind = "checker"; v.mx = 1; v.color = false; v.lo = r.v3(-3, 0); v.hi = v.lo + r.v3(.3, 4); p = { {"bound_min", j3(v.lo)}, {"bound_max", j3(v.hi)} }; Vec3 lo = v.lo, hi = v.hi; v.f = [=](Vec3 x) { Vec3 t = (x - lo) / (hi - lo); return (int(t.x / .2) + int(t.y / .2)) % 2 == 0 ? 1. : 0.; }; }
    else {
        v.kind = "multi"; std::vector<V> ds, cs; Json a = Json::array(), b = Json::array(); int n = r.i(1, 4); v.mx = 0; v.lo = Vec3(Inf); v.hi = Vec3(-Inf);
        for (int i = 0; i < n; i++) {
            V d = volume(r, depth + 1), e = r.p(.5) ? d : volume(r, depth + 1); while (!e.color) e = volume(r, depth + 1);
            v.mx += d.mx; v.lo = glm::min(v.lo, d.lo); v.hi = glm::max(v.hi, d.hi); ds.push_back(d); cs.push_back(e); b.push_back("$.assets." + d.name); a.push_back("$.assets." + e.name);
        }
        p = { {"volumes_alb", a}, {"volumes_den", b} };
        auto in = [](const V& d, Vec3 x) { for (int i = 0; i < 3; i++) if (x[i] < d.lo[i] || x[i] > d.hi[i]) return false; return true; };
        v.f = [=](Vec3 x) { double t = 0; for (auto& d : ds) if (in(d, x)) t += d.f(x); return t; };
        v.col = [=](Vec3 x) { double t = 0; Vec3 q(0); for (size_t i = 0; i < ds.size(); i++) if (in(ds[i], x)) { double w = ds[i].f(x); t += w; q += w * cs[i].col(x); } return t > 0 ? q / t : Vec3(0); };
    }
    auto* c2 = lm::load<Volume>(v.name, "volume::" + v.kind, p); auto B = c2->bound(); std::string ctx = " [" + v.kind + "]"; cover("volume", v.kind + std::to_string(depth));
    VH_CHECK(c2->has_scalar() == v.scalar && c2->has_color() == v.color, "volume:parts", "scalar " << c2->has_scalar() << " colour " << c2->has_color() << ctx);
    VH_CHECK(close(c2->max_scalar(), v.mx, 1e-12), "volume:maximum", "maximum " << c2->max_scalar() << " expected " << v.mx << ctx);
    for (int k2 = 0; k2 < 60; k2++) {
        Vec3 x = v.lo + (v.hi - v.lo) * (r.p(.3) ? Vec3(.5) + r.v3(-.1, .1) : r.v3(0, 1)); double a = c2->eval_scalar(x), e = v.f(x); count("volume values");
        bool edge = v.kind != "constant" && v.kind != "gaussian" && !close(v.f(x + 1e-9 * r.dir()), e, 1e-3); // near a discontinuity
        if (!edge) VH_CHECK(close(a, e, 1e-9, 1e-12), "volume:scalar", "density " << a << " expected " << e << " at " << str(x) << ctx);
        VH_CHECK(a >= 0 && a <= c2->max_scalar() * (1 + 1e-12), "volume:bounded", "density " << a << " exceeds the maximum " << c2->max_scalar() << ctx);
        if (c2->has_color()) { Vec3 q = c2->eval_color(x); if (!edge) VH_CHECK(close(q, v.col(x), 1e-9), "volume:color", "colour " << str(q) << " expected " << str(v.col(x)) << ctx); }
        // nothing noticeable lies outside of the bound
        bool in = true; for (int i = 0; i < 3; i++) in &= x[i] >= B.min[i] - 1e-9 && x[i] <= B.max[i] + 1e-9;
        if (!in) { VH_CHECK(e <= 2e-3 * v.mx, "volume:outside", "density " << e << " of maximum " << v.mx << " at " << str(x) << " outside of the bound " << str(B.min) << str(B.max) << ctx); count("outside points"); }
    }
    v.lo = B.min; v.hi = B.max;
    return v;
}

static bool overlap(Vec3 lo, Vec3 hi, Ray ray, double& a, double& b) {
    for (int i = 0; i < 3; i++) {
        if (ray.d[i] == 0) { if (ray.o[i] < lo[i] || ray.o[i] > hi[i]) return false; continue; }
        double x = (lo[i] - ray.o[i]) / ray.d[i], y = (hi[i] - ray.o[i]) / ray.d[i]; if (x > y) std::swap(x, y); a = std::max(a, x); b = std::min(b, y);
    }
    return a < b;
}
static Ray gen_ray(Rand& r, Vec3 lo, Vec3 hi) {
    Vec3 in = lo + (hi - lo) * r.v3(0, 1), o = r.p(.4) ? lo + (hi - lo) * r.v3(0, 1) : r.v3(-8, 8), d = in - o; if (glm::length(d) < 1e-3) d = r.dir();
    if (r.p(.1)) { d = Vec3(0); d[r.i(3)] = r.p(.5) ? 1 : -1; } if (r.p(.1)) d = r.dir();
    return { o, glm::normalize(d) };
}

// distances and transmittance of a medium with the optical depth tau(t) from a
static void judge(Rand& r, const Medium* M, Ray ray, double tmin, double tmax, double a, double b, const std::function<double(double)>& tau, const std::function<Vec3(Vec3)>& alb, bool exact, const std::string& ctx, double bias) {
    Rng rng(r.i(1 << 30)); double T = std::exp(-tau(b)); int n = 1200; Stat tr, ev; std::vector<double> us;
    for (int k = 0; k < n; k++) {
        Vec3 t = M->eval_transmittance(rng, ray, tmin, tmax); count("transmittances");
        VH_CHECK(t.x == t.y && t.y == t.z && t.x >= -1e-12 && t.x <= 1 + 1e-12, "medium:transmittance range", "transmittance " << str(t) << ctx);
        tr.add(t.x); if (exact) { VH_CHECK(close(t.x, T, 1e-7, 1e-12), "medium:transmittance", "transmittance " << t.x << " expected " << T << ctx); if (k > 3) break; }
    }
    if (!exact) VH_CHECK(std::fabs(tr.m - T) < 6.5 * std::max(tr.se(), std::sqrt(T * (1 - T) / n) * .5) + bias + 2. / n, "medium:transmittance", "mean transmittance " << tr.m << " +- " << tr.se() << " expected " << T << ctx);
    for (int k = 0; k < n; k++) {
        auto s = M->sample_distance(rng, ray, tmin, tmax); count("distances"); bool in = s && s->medium; ev.add(in);
        if (!in) { if (s) VH_CHECK(close(s->weight, Vec3(1), 1e-12), "medium:surface weight", "weight " << str(s->weight) << " of a passage" << ctx); continue; }
        double t = glm::dot(s->p - ray.o, ray.d); Vec3 off = s->p - ray.o - t * ray.d; count("scattering events");
        VH_CHECK(t >= a - 1e-6 && t <= b + 1e-6 && glm::length(off) < 1e-6 * (1 + std::fabs(t)), "medium:event range", "event at " << t << " outside of " << a << ".." << b << ctx);
        VH_CHECK(close(s->weight, alb(s->p), 1e-7, 1e-9), "medium:event weight", "weight " << str(s->weight) << " expected " << str(alb(s->p)) << ctx);
        if (T < .999) us.push_back((1 - std::exp(-tau(t))) / (1 - T));
    }
    VH_CHECK(std::fabs(ev.m - (1 - T)) < 6.5 * std::sqrt(T * (1 - T) / n) + 3. / n + bias, "medium:event probability", "probability of an event " << ev.m << " expected " << 1 - T << ctx);
    if (us.size() > 200) { double d = ks(us); VH_CHECK(d < 3.0 + bias / std::max(1e-9, 1 - T) * std::sqrt(us.size()), "medium:event distribution", "the distances do not follow the transmittance (KS " << d << ")" << ctx); count("distributions"); }
}

static void homogeneous(Rand& r) {
    double den = std::pow(10., r.u(-1.5, 1.5)); Vec3 al = r.v3(0, 1); bool bounded = r.p(.7); Vec3 lo = r.v3(-3, 0), hi = lo + r.v3(.3, 4);
    lm::load<Phase>("ph", "phase::isotropic", Json::object()); Json p{ {"density", den}, {"albedo", j3(al)}, {"phase", "$.assets.ph"} }; if (bounded) { p["bound_min"] = j3(lo); p["bound_max"] = j3(hi); } else { lo = Vec3(-Inf); hi = Vec3(Inf); }
    auto* M = lm::load<Medium>("m", "medium::homogeneous", p); VH_CHECK(M->phase() == lm::comp::get<Phase>("$.assets.ph") && !M->is_emitter(), "medium:parts", "phase function or emission");
    for (int k = 0; k < 4; k++) {
        Ray ray = gen_ray(r, bounded ? lo : Vec3(-3), bounded ? hi : Vec3(3)); double tmin = r.p(.5) ? 0 : r.u(0, 3), tmax = r.p(.3) ? Inf : tmin + r.u(.1, 12), a = tmin, b = tmax;
        bool hit = overlap(lo, hi, ray, a, b); std::ostringstream o; o << " [homogeneous density " << den << " range " << tmin << ".." << tmax << (bounded ? " bounded" : "") << "]"; cover("medium", std::string("homogeneous") + (bounded ? "/bounded" : "") + (hit ? "/hit" : "/miss") + (tmax == Inf ? "/inf" : ""));
        if (!hit) a = b = tmin; judge(r, M, ray, tmin, tmax, a, b, [&](double t) { return hit ? den * (t - a) : 0.; }, [&](Vec3) { return al; }, true, o.str(), 0);
    }
}
static void heterogeneous(Rand& r) {
    V d = volume(r), c = volume(r); while (!c.color) c = volume(r);
    lm::load<Phase>("ph", "phase::hg", { {"g", .3} });
    auto* M = lm::load<Medium>("m", "medium::heterogeneous", { {"volume_density", "$.assets." + d.name}, {"volume_albedo", "$.assets." + c.name}, {"phase", "$.assets.ph"} });
    VH_CHECK(M->phase() == lm::comp::get<Phase>("$.assets.ph") && !M->is_emitter(), "medium:parts", "phase function or emission");
    for (int k = 0; k < 2; k++) {
        Ray ray = gen_ray(r, glm::max(d.lo, Vec3(-6)), glm::min(d.hi, Vec3(6))); double tmin = r.p(.5) ? 0 : r.u(0, 3), tmax = r.p(.3) ? Inf : tmin + r.u(.1, 12), a = tmin, b = tmax;
        bool hit = overlap(d.lo, d.hi, ray, a, b); if (!hit) a = b = tmin;
        if (hit && (b - a) * d.mx > 300) continue;       // far too many tentative events
        int n = 4000; std::vector<double> acc(n + 1, 0.); double h = (b - a) / n; double jump = 0, prev = hit ? d.f(ray.o + ray.d * (a + h * .5)) : 0;
        for (int i = 0; i < n && hit; i++) { double f = d.f(ray.o + ray.d * (a + h * (i + .5))); acc[i + 1] = acc[i] + h * f; jump += std::fabs(f - prev); prev = f; }
        auto tau = [&](double t) { double x = hit && h > 0 ? (t - a) / h : 0; x = std::min((double)n, std::max(0., x)); int i = std::min(n - 1, (int)x); return acc[i] + (acc[i + 1] - acc[i]) * (x - i); };
        double bias = hit ? jump * h : 0; std::ostringstream o; o << " [heterogeneous " << d.kind << " range " << tmin << ".." << tmax << " inside " << a << ".." << b << "]"; cover("medium", "heterogeneous/" + d.kind + (hit ? "/hit" : "/miss"));
        auto* C = lm::comp::get<Volume>("$.assets." + c.name); judge(r, M, ray, tmin, tmax, a, b, tau, [&](Vec3 x) { return C->eval_color(x); }, false, o.str(), bias);
    }
}

// a scene with a wall and a medium: the sampled events and the transmittance see both
static void scene(Rand& r, bool med) {
    lm::reset(); double den = r.u(.1, 2), dist = r.u(.5, 4); Vec3 al = r.v3(0, 1);
    lm::load<lm::Camera>("cam", "camera::pinhole", { {"position", {0, 0, 0}}, {"center", {0, 0, -1}}, {"up", {0, 1, 0}}, {"vfov", 40.}, {"aspect", 1.} });
    VMesh m; m.tris.push_back(make_tri(r, Vec3(-5, -5, -dist), Vec3(5, -5, -dist), Vec3(5, 5, -dist), true)); m.tris.push_back(make_tri(r, Vec3(-5, -5, -dist), Vec3(5, 5, -dist), Vec3(-5, 5, -dist), true));
    lm::load<lm::Mesh>("wall", "mesh::raw", mesh_json(m)); lm::load<lm::Material>("mat", "material::diffuse", { {"Kd", {.5, .5, .5}} });
    lm::load<Phase>("ph", "phase::isotropic", Json::object()); lm::load<Medium>("med", "medium::homogeneous", { {"density", den}, {"albedo", j3(al)}, {"phase", "$.assets.ph"} });
    lm::load<lm::Accel>("acc", "accel::sahbvh", Json::object()); auto* S = lm::load<lm::Scene>("scene", "scene::default", { {"accel", "$.assets.acc"} });
    S->add_primitive({ {"camera", "$.assets.cam"} }); S->add_primitive({ {"mesh", "$.assets.wall"}, {"material", "$.assets.mat"} }); if (med) S->add_primitive({ {"medium", "$.assets.med"} }); S->build();
    if (!med) den = 0; Rng rng(r.i(1 << 30)); std::string ctx = med ? " [scene with medium]" : " [scene]"; cover("medium", ctx);
    for (int k = 0; k < 6; k++) {
        auto sp = lm::SceneInteraction::make_medium_interaction(S->camera_node(), PointGeometry::make_degenerated(Vec3(0))); sp.type = lm::SceneInteraction::CameraEndpoint;
        Vec3 d = glm::normalize(Vec3(r.u(-.5, .5), r.u(-.5, .5), -1)); bool away = k == 5; if (away) d = -d; double L = dist / std::fabs(d.z), T = away ? 0 : std::exp(-den * L); if (away && !med) T = 0;
        int n = 800, ev = 0, surf = 0, none = 0; std::vector<double> us;
        for (int i = 0; i < n; i++) {
            auto s = lm::path::sample_distance(rng, S, sp, d); count("scene distances");
            if (!s) { none++; continue; }
            if (s->sp.is_type(lm::SceneInteraction::MediumInteraction)) { ev++; double t = glm::length(s->sp.geom.p); VH_CHECK((away || t <= L + 1e-6) && close(s->weight, al, 1e-9), "scene:event", "event at " << t << " of " << L << " weight " << str(s->weight) << ctx); us.push_back((1 - std::exp(-den * t)) / (1 - T)); }
            else { surf++; VH_CHECK(std::fabs(s->sp.geom.p.z + dist) < 1e-6 && close(s->weight, Vec3(1), 1e-9), "scene:surface", "surface event at " << str(s->sp.geom.p) << " weight " << str(s->weight) << ctx); }
        }
        double pe = med ? 1 - T : 0; VH_CHECK(std::fabs(ev / (double)n - pe) < 6.5 * std::sqrt(pe * (1 - pe) / n) + 1e-9, "scene:event probability", ev << " of " << n << " events expected " << pe * n << ctx);
        if (away) VH_CHECK(med ? none == 0 : none == n, "scene:escape", none << " of " << n << " escaped" << ctx); else VH_CHECK(none == 0, "scene:escape", none << " rays towards the wall escaped" << ctx);
        if (us.size() > 200) VH_CHECK(ks(us) < 3, "scene:event distribution", "KS " << ks(us) << ctx);
        // transmittance between two points, on either side of the wall
        double za = r.u(-.9, -.1) * dist, zb = r.p(.5) ? r.u(-.9, -.1) * dist : r.u(-3, -1.1) * dist; Vec3 pa(r.u(-1, 1), r.u(-1, 1), za), pb(r.u(-1, 1), r.u(-1, 1), zb);
        auto A = lm::SceneInteraction::make_medium_interaction(0, PointGeometry::make_degenerated(pa)), B = lm::SceneInteraction::make_medium_interaction(0, PointGeometry::make_degenerated(pb)); A.primitive = B.primitive = S->camera_node();
        bool blocked = zb < -dist; double e = blocked ? 0 : std::exp(-den * glm::length(pa - pb)); Vec3 t = lm::path::eval_transmittance(rng, S, A, B); count("scene transmittances");
        VH_CHECK(close(t, Vec3(e), 1e-9, 1e-12), "scene:transmittance", "transmittance " << str(t) << " expected " << e << (blocked ? " behind the wall" : "") << ctx);
    }
    lm::reset();
}

static void rejected(Rand& r) {
    auto bad = [&](const std::string& what, const std::string& key, const Json& p) {
        bool t = false; try { lm::load<lm::Component>("bad", key, p); } catch (std::exception& e) { t = is_invalid_argument(e); if (!t) violation("medium:error", what + " gave " + e.what()); t = true; }
        VH_CHECK(t, "medium:accepted", what << " was accepted"); VH_CHECK(!lm::comp::get<lm::Component>("$.assets.bad"), "medium:left", what << " left an asset"); count("rejected"); cover("rejected", what);
    };
    lm::load<Phase>("ph", "phase::isotropic", Json::object()); V v = volume(r); while (!v.color) v = volume(r); std::string L = "$.assets." + v.name;
    lm::load<Volume>("onlyc", "volume::constant", { {"color", {1, 1, 1}} }); lm::load<Volume>("onlys", "volume::constant", { {"scalar", 1.}, {"bound_min", {0, 0, 0}}, {"bound_max", {1, 1, 1}} });
    bad("volume without values", r.p(.3) ? "volume::constant" : r.p(.5) ? "volume::gaussian" : "volume::sphere", Json::object());
    bad("multiple volumes of different number", "volume::multi", { {"volumes_alb", {L}}, {"volumes_den", {L, L}} });
    bad("no multiple volumes", "volume::multi", { {"volumes_alb", Json::array()}, {"volumes_den", Json::array()} });
    bad("multiple volumes without colour", "volume::multi", { {"volumes_alb", {"$.assets.onlys"}}, {"volumes_den", {L}} });
    bad("multiple volumes without density", "volume::multi", { {"volumes_alb", {L}}, {"volumes_den", {"$.assets.onlyc"}} });
    bad("multiple volumes with a missing one", "volume::multi", { {"volumes_alb", {L}}, {"volumes_den", {"$.assets.none"}} });
    bad("medium without density volume", "medium::heterogeneous", { {"volume_albedo", L}, {"phase", "$.assets.ph"} });
    bad("medium with a density volume without density", "medium::heterogeneous", { {"volume_density", "$.assets.onlyc"}, {"volume_albedo", L}, {"phase", "$.assets.ph"} });
    bad("medium with an albedo volume without colour", "medium::heterogeneous", { {"volume_density", L}, {"volume_albedo", "$.assets.onlys"}, {"phase", "$.assets.ph"} });
    bad("medium with a wrong phase function", "medium::heterogeneous", { {"volume_density", L}, {"volume_albedo", L}, {"phase", L} });
    bad("medium without phase function", "medium::homogeneous", { {"density", 1.}, {"albedo", {1, 1, 1}} });
    bad("medium without density", "medium::homogeneous", { {"albedo", {1, 1, 1}}, {"phase", "$.assets.ph"} });
    bad("phase function without parameter", "phase::hg", Json::object());
}

int main(int argc, char** argv) {
    parse(argc, argv); lm_init(1);
    auto& A = args(); long long np = A.extra.count("parts") ? atoll(A.extra["parts"].c_str()) : 1, me = A.part.empty() ? 0 : atoll(A.part.c_str());
    long long n = n_cases(2000, 40000);
    for (long long c = me; c < n; c += np) {
        if (!want(c)) continue;
        Rand r(A.seed * 1000003 + c); begin_case("case " + std::to_string(c)); lm::reset(); VN = 0; int k = r.i(20);
        try { if (k < 4) phase(r); else if (k < 8) homogeneous(r); else if (k < 16) heterogeneous(r); else if (k < 18) scene(r, r.p(.8)); else rejected(r); }
        catch (std::exception& e) { violation("medium:exception", e.what()); }
    }
    lm::shutdown();
    return finish();
}
