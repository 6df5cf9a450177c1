// P18: the renderers agree with the light transport of the scene.  Random scenes are rendered many times
// with small sample counts; the mean images are compared with an independent path tracer of the model of
// the scene (own intersection, own estimators) and, where it is known, with the closed solution.
#include "vscene.h"
#include "vimg.h"
#include <lm/scene.h>
#include <lm/surface.h>
#include <lm/camera.h>
#include <lm/film.h>
#include <lm/light.h>
#include <lm/material.h>
#include <lm/medium.h>
#include <lm/phase.h>
#include <lm/volume.h>
#include <lm/renderer.h>
#include <lm/accel.h>
#include <lm/mesh.h>
#include <lm/texture.h>
#include <lm/parallel.h>
using namespace vh;
using lm::Pi; using lm::Inf;

enum Kind { Diffuse, Mirror, Glass, Glossy, Mask, Mix };
struct Mat { Kind k; Vec3 c; double a = 0, b = 0; bool tex = false; std::vector<std::pair<int, double>> sub; lm::Material* m = nullptr; };
struct Tri {
    Vec3 p[3], n; int mat; Vec3 Ke; bool smooth = false; Vec3 vn[3]; Vec2 uv[3] = { Vec2(0), Vec2(0), Vec2(0) };
    // the surface at a point: shading normal and texture coordinates
    lm::PointGeometry at(Vec3 q) const {
        if (!smooth) return lm::PointGeometry::make_on_surface(q, n, n, Vec2(0)); Vec3 e1 = p[1] - p[0], e2 = p[2] - p[0], d = q - p[0]; double a = glm::dot(e1, e1), b = glm::dot(e1, e2), c = glm::dot(e2, e2), x = glm::dot(d, e1), y = glm::dot(d, e2), D = a * c - b * b, u = (c * x - b * y) / D, v = (a * y - b * x) / D, w = 1 - u - v;
        return lm::PointGeometry::make_on_surface(q, glm::normalize(w * vn[0] + u * vn[1] + v * vn[2]), n, w * uv[0] + u * uv[1] + v * uv[2]);
    }
};
struct Model {
    std::vector<Mat> mats; std::vector<Tri> tris; std::vector<int> em; double emA = 0; std::vector<double> emC;
    std::vector<std::pair<Vec3, Vec3>> pts, dirs; bool env = false; Vec3 envL = Vec3(0); lm::Light* envI = nullptr;
    bool med = false; double sig = 0; Vec3 alb; double g = 0; lm::Volume* den = nullptr; lm::Volume* albv = nullptr; Vec3 lo, hi; bool bounded = false;
    int min_verts = 2, max_verts = 5; bool no_spec_eye = false; lm::Camera* cam = nullptr; int w = 3, h = 2;
    std::string desc;

    bool hit(Vec3 o, Vec3 d, double tmax, double& t, int& id) const {
        t = tmax; id = -1;
        for (size_t i = 0; i < tris.size(); i++) {
            const Tri& T = tris[i]; Vec3 e1 = T.p[1] - T.p[0], e2 = T.p[2] - T.p[0], pv = glm::cross(d, e2); double det = glm::dot(e1, pv); if (std::fabs(det) < 1e-12) continue;
            Vec3 tv = o - T.p[0]; double u = glm::dot(tv, pv) / det; if (u < 0 || u > 1) continue; Vec3 q = glm::cross(tv, e1); double v = glm::dot(d, q) / det; if (v < 0 || u + v > 1) continue;
            double x = glm::dot(e2, q) / det; if (x > 1e-3 && x < t) { t = x; id = (int)i; }
        }
        return id >= 0;
    }
    bool range(Vec3 o, Vec3 d, double& a, double& b) const {
        if (!bounded) return a < b;
        for (int i = 0; i < 3; i++) { if (d[i] == 0) { if (o[i] < lo[i] || o[i] > hi[i]) return false; continue; } double x = (lo[i] - o[i]) / d[i], y = (hi[i] - o[i]) / d[i]; if (x > y) std::swap(x, y); a = std::max(a, x); b = std::min(b, y); }
        return a < b;
    }
    // analog tracking: the distance of the next event before tmax, or -1
    double event(Rand& r, Vec3 o, Vec3 d, double tmax, Vec3& al) const {
        if (!med) return -1; double a = 0, b = tmax; if (!range(o, d, a, b)) return -1;
        if (!den) { double t = a - std::log(1 - r.u()) / sig; al = alb; return t < b ? t : -1; }
        for (double t = a;;) { t -= std::log(1 - r.u()) / sig; if (t >= b) return -1; Vec3 p = o + t * d; if (r.u() * sig < den->eval_scalar(p)) { al = albv->eval_color(p); return t; } }
    }
    double trans(Rand& r, Vec3 o, Vec3 d, double tmax) const {
        if (!med) return 1; if (!den) { double a = 0, b = tmax; return range(o, d, a, b) ? std::exp(-sig * (b - a)) : 1; }
        Vec3 x; return event(r, o, d, tmax, x) < 0 ? 1 : 0;
    }
    double hg(double c) const { double t = 1 + g * g - 2 * g * c; return (1 - g * g) / (4 * Pi * t * std::sqrt(t)); }
};
static Vec3 onb(Vec3 n, double x, double y, double z) { Vec3 a = std::fabs(n.x) < .6 ? Vec3(1, 0, 0) : Vec3(0, 1, 0), u = glm::normalize(glm::cross(n, a)), v = glm::cross(n, u); return x * u + y * v + z * n; }
static Vec3 cosdir(Rand& r, Vec3 n) { double s = std::sqrt(r.u()), p = 2 * Pi * r.u(); return onb(n, s * std::cos(p), s * std::sin(p), std::sqrt(std::max(0., 1 - s * s))); }

// The radiance along a primary ray, one sample.
static Vec3 trace(const Model& M, Rand& r, Vec3 o, Vec3 d) {
    Vec3 L(0), thr(1); bool see = true; bool first_spec = false; int prev_med = 0; (void)prev_med;
    for (int nv = 1; nv < M.max_verts; nv++) {
        double t; int id; M.hit(o, d, Inf, t, id); Vec3 al; double te = M.event(r, o, d, t, al);
        bool ok = nv + 1 >= M.min_verts && !(M.no_spec_eye && first_spec);
        if (te >= 0) {
            thr *= al; Vec3 p = o + te * d;
            auto lit = [&](Vec3 wo, double dist, Vec3 Le) { double tt; int ii; if (nv + 2 < M.min_verts || nv + 2 > M.max_verts) return; if (M.hit(p, wo, dist * (1 - 1e-9) - 1e-4, tt, ii)) return; L += thr * Le * M.hg(glm::dot(d, wo)) * M.trans(r, p, wo, dist); };
            if (M.emA > 0) { double u = r.u() * M.emA; size_t k = 0; while (k + 1 < M.em.size() && M.emC[k] < u) k++; const Tri& T = M.tris[M.em[k]]; double a = std::sqrt(r.u()), b = r.u(); Vec3 q = T.p[0] * (1 - a) + T.p[1] * (a * (1 - b)) + T.p[2] * (a * b), w = q - p; double D = glm::length(w); w /= D; double c2 = -glm::dot(w, T.n); if (c2 > 0) lit(w, D, T.Ke * (c2 / (D * D) * M.emA)); }
            for (auto& l : M.pts) { Vec3 w = l.first - p; double D = glm::length(w); lit(w / D, D, l.second / (D * D)); }
            for (auto& l : M.dirs) lit(-l.first, Inf, l.second);
            double u = r.u(), c = std::fabs(M.g) < 1e-4 ? 1 - 2 * u : (1 + M.g * M.g - std::pow((1 - M.g * M.g) / (1 + M.g - 2 * M.g * u), 2)) / (2 * M.g); c = std::min(1., std::max(-1., c)); double s = std::sqrt(1 - c * c), ph = 2 * Pi * r.u();
            d = onb(d, s * std::cos(ph), s * std::sin(ph), c); o = p; see = false; continue;
        }
        if (id < 0) { if (M.env && ok) L += thr * (M.envI ? M.envI->eval(lm::PointGeometry::make_infinite(-d), -d, false) : M.envL); return L; }
        const Tri& T = M.tris[id]; Vec3 p = o + t * d; double cd = glm::dot(d, T.n);
        if (see && ok && T.Ke != Vec3(0) && cd < 0) L += thr * T.Ke;
        const Mat* m = &M.mats[T.mat];
        while (m->k == Mix) { double W = 0; for (auto& s : m->sub) W += s.second; double u = r.u() * W; size_t k = 0; while (k + 1 < m->sub.size() && u >= m->sub[k].second) { u -= m->sub[k].second; k++; } thr *= W; m = &M.mats[m->sub[k].first]; }
        auto geom = T.at(p); Vec3 ns = geom.n; double cg = cd; cd = glm::dot(d, ns); if (cd * cg <= 0) return L;       // black where the normals disagree
        if (m->k == Mirror) { d = d - 2. * cd * ns; if (glm::dot(d, T.n) * glm::dot(d, ns) <= 0) return L; see = true; if (nv == 1) first_spec = true; o = p; continue; }
        if (m->k == Mask) { see = true; if (nv == 1) first_spec = true; o = p; continue; }
        if (m->k == Glass) {
            bool in = cd < 0; Vec3 n = in ? ns : -ns; double ci = std::fabs(cd), eta = in ? 1 / m->a : m->a, s2 = eta * eta * (1 - ci * ci), F = 1, ct = 0;
            if (s2 < 1) { ct = std::sqrt(1 - s2); double r0 = std::pow((1 - m->a) / (1 + m->a), 2); F = r0 + (1 - r0) * std::pow(1 - (in ? ci : ct), 5); }
            if (r.u() < F) d = d + 2. * ci * n; else { d = eta * d + (eta * ci - ct) * n; thr *= eta * eta; }
            if (glm::dot(d, T.n) * glm::dot(d, ns) <= 0) return L;
            see = true; if (nv == 1) first_spec = true; o = p; continue;
        }
        Vec3 nf = cd < 0 ? ns : -ns, gf = cg < 0 ? T.n : -T.n;      // side of the viewer
        auto f = [&](Vec3 wo) -> Vec3 { if (glm::dot(wo, nf) <= 0 || glm::dot(wo, gf) <= 0) return Vec3(0); return m->k == Diffuse ? (m->tex ? m->m->reflectance(geom) : m->c) / Pi : m->m->eval(geom, -d, wo, 0, lm::Material::TransDir::EL, false); };
        auto lit = [&](Vec3 wo, double dist, Vec3 Le) { double c = glm::dot(wo, nf); if (c <= 0 || nv + 2 < M.min_verts || nv + 2 > M.max_verts) return; double tt; int ii; if (M.hit(p, wo, dist * (1 - 1e-9) - 1e-4, tt, ii)) return; L += thr * f(wo) * c * Le * M.trans(r, p, wo, dist); };
        if (!(M.no_spec_eye && first_spec)) {
            if (M.emA > 0) { double u = r.u() * M.emA; size_t k = 0; while (k + 1 < M.em.size() && M.emC[k] < u) k++; const Tri& E = M.tris[M.em[k]]; double a = std::sqrt(r.u()), b = r.u(); Vec3 q = E.p[0] * (1 - a) + E.p[1] * (a * (1 - b)) + E.p[2] * (a * b), w = q - p; double D = glm::length(w); if (D > 1e-6) { w /= D; double c2 = -glm::dot(w, E.n); if (c2 > 0) lit(w, D, E.Ke * (c2 / (D * D) * M.emA)); } }
            for (auto& l : M.pts) { Vec3 w = l.first - p; double D = glm::length(w); lit(w / D, D, l.second / (D * D)); }
            for (auto& l : M.dirs) lit(-l.first, Inf, l.second);
        }
        Vec3 wo = cosdir(r, nf); thr *= f(wo) * Pi; d = wo; o = p; see = false;
    }
    return L;
}
// ---- building the scene in the framework and in the model
static int add_mat(Model& M, const std::string& name, Mat m, const std::string& key, const Json& p) { m.m = lm::load<lm::Material>(name, key, p); M.mats.push_back(m); return (int)M.mats.size() - 1; }
static Json j3(Vec3 v) { return Json{ v.x, v.y, v.z }; }
static void quad(std::vector<Tri>& t, Vec3 a, Vec3 b, Vec3 c, Vec3 d) { for (int k = 0; k < 2; k++) { Tri T; T.p[0] = a; T.p[1] = k ? c : b; T.p[2] = k ? d : c; T.n = glm::normalize(glm::cross(T.p[1] - T.p[0], T.p[2] - T.p[0])); T.Ke = Vec3(0); t.push_back(T); } }
static void ball(std::vector<Tri>& t, Vec3 c, double R, int g, bool inside) {
    auto P = [&](int i, int j) { double th = Pi * i / g, ph = 2 * Pi * (j % (2 * g)) / (2 * g); return c + R * Vec3(sin(th) * cos(ph), sin(th) * sin(ph), cos(th)); };
    auto add = [&](Vec3 a, Vec3 b, Vec3 d) { Tri T; T.p[0] = a; T.p[1] = inside ? d : b; T.p[2] = inside ? b : d; T.n = glm::normalize(glm::cross(T.p[1] - T.p[0], T.p[2] - T.p[0])); T.Ke = Vec3(0); t.push_back(T); };
    for (int i = 0; i < g; i++) for (int j = 0; j < 2 * g; j++) { if (i > 0) add(P(i, j), P(i + 1, j), P(i, j + 1)); if (i < g - 1) add(P(i + 1, j), P(i + 1, j + 1), P(i, j + 1)); }
}
static int NM = 0;
// adds a mesh: in the framework in local coordinates with a transform, in the model in world coordinates
static void add_mesh(Rand& r, Model& M, lm::Scene* S, std::vector<Tri> t, int mat, const std::string& matname, Vec3 Ke) {
    std::string mn = "mesh" + std::to_string(NM), ln = "light" + std::to_string(NM); NM++;
    double rough = Ke == Vec3(0) && r.p(.4) ? r.u(.05, .5) : 0; if (rough) { cover("normals", "interpolated"); for (auto& T : t) { T.smooth = true; for (int i = 0; i < 3; i++) { do T.vn[i] = glm::normalize(T.n + rough * r.v3(-1, 1)); while (glm::dot(T.vn[i], T.n) < .3); T.uv[i] = r.v2(); } } M.desc += " rough"; }
    bool xf = r.p(.5); Mat4 G = xf ? gen_transform(r, r.i(1, 4)) : Mat4(1.0); Mat4 I = glm::inverse(G); VMesh v;
    for (auto& T : t) { VTri q; for (int i = 0; i < 3; i++) { q.p[i] = Vec3(I * Vec4(T.p[i], 1.)); q.t[i] = Vec2(0); } Vec3 n = glm::normalize(glm::cross(q.p[1] - q.p[0], q.p[2] - q.p[0])); for (int i = 0; i < 3; i++) { q.n[i] = T.smooth ? glm::transpose(Mat3(G)) * T.vn[i] : n; q.t[i] = T.uv[i]; } v.tris.push_back(q); T.mat = mat; T.Ke = Ke; M.tris.push_back(T); if (Ke != Vec3(0)) { M.em.push_back((int)M.tris.size() - 1); M.emA += .5 * glm::length(glm::cross(T.p[1] - T.p[0], T.p[2] - T.p[0])); M.emC.push_back(M.emA); } }
    lm::load<lm::Mesh>(mn, "mesh::raw", mesh_json(v)); Json p{ {"mesh", "$.assets." + mn}, {"material", "$.assets." + matname} };
    if (Ke != Vec3(0)) { lm::load<lm::Light>(ln, "light::area", { {"Ke", j3(Ke)}, {"mesh", "$.assets." + mn} }); p["light"] = "$.assets." + ln; }
    if (xf) S->add_transformed_primitive(G, p); else S->add_primitive(p);
}
static lm::Scene* begin(Rand& r, Model& M, Vec3 eye, Vec3 at, double fov) {
    lm::reset(); NM = 0; M.w = r.i(2, 4); M.h = r.i(1, 3);
    lm::load<lm::Accel>("acc", "accel::sahbvh", Json::object()); auto* S = lm::load<lm::Scene>("scene", "scene::default", { {"accel", "$.assets.acc"} });
    M.cam = lm::load<lm::Camera>("cam", "camera::pinhole", { {"position", j3(eye)}, {"center", j3(at)}, {"up", {0, 1, 0}}, {"vfov", fov}, {"aspect", (double)M.w / M.h} });
    lm::load<lm::Film>("film", "film::bitmap", { {"w", M.w}, {"h", M.h} }); S->add_primitive({ {"camera", "$.assets.cam"} }); return S;
}
static int material(Rand& r, Model& M, const std::string& name, int k, int depth = 0) {
    Mat m; m.c = r.v3(.1, .9);
    if (k == 0 && name != "mat0" && r.p(.4)) {
        Img im; im.w = r.i(1, 4); im.h = r.i(1, 4); im.c = 3; for (int i = 0; i < im.w * im.h * 3; i++) im.d.push_back((float)r.u(.05, .95)); std::string p = scratch() + "/" + name + ".hdr"; write_hdr(p, im); lm::load<lm::Texture>("tex_" + name, "texture::bitmap", { {"path", p} });
        m.k = Diffuse; m.tex = true; M.desc += " textured"; cover("material", "textured"); return add_mat(M, name, m, "material::diffuse", { {"mapKd", "$.assets.tex_" + name} });
    }
    if (k == 0) { m.k = Diffuse; return add_mat(M, name, m, "material::diffuse", { {"Kd", j3(m.c)} }); }
    if (k == 1) { m.k = Mirror; return add_mat(M, name, m, "material::mirror", Json::object()); }
    if (k == 2) { m.k = Glass; m.a = r.u(1.2, 1.8); return add_mat(M, name, m, "material::glass", { {"Ni", m.a} }); }
    if (k == 3) { m.k = Glossy; return add_mat(M, name, m, "material::glossy", { {"Ks", j3(m.c)}, {"ax", r.u(.3, .8)}, {"ay", r.u(.3, .8)} }); }
    if (k == 7) { m.k = Glossy; return add_mat(M, name, m, "material::mixture_wavefrontobj", { {"Kd", j3(.5 * m.c)}, {"mapKd", ""}, {"Ks", j3(r.v3(0, .4))}, {"ax", r.u(.3, .8)}, {"ay", r.u(.3, .8)}, {"no_alpha_mask", false} }); }
    if (k == 4) { m.k = Mask; return add_mat(M, name, m, "material::mask", Json::object()); }
    m.k = Mix; int n = r.i(1, 3); Json j = Json::array(); double W = 1; for (int i = 0; i < n; i++) { std::string sn = name + "_" + std::to_string(i); int s = material(r, M, sn, r.pick(std::vector<int>{ 0, 0, 1, 3, 4 })); double w = i == n - 1 ? W * r.u(.5, 1) : W * r.u(.2, .7); W -= w; m.sub.push_back({ s, w }); M.desc += std::string(" ") + "dmgsk"[M.mats[s].k] + std::to_string(w); j.push_back({ {"material", "$.assets." + sn}, {"weight", w} }); }
    return add_mat(M, name, m, k == 5 ? "material::constant_weight_mixture_rr" : "material::constant_weight_mixture_marginalized", j);
}
struct Img3 { std::vector<Vec3> v; };
static Vec3 total(const std::vector<Vec3>& v) { Vec3 s(0); for (auto& x : v) s += x; return s / (double)v.size(); }

// Reference image: mean and standard error of each pixel (three channels) and of the whole image.
struct Ref { std::vector<Stat> px; Stat all[3]; };
static void reference(const Model& M, Rand& r, int n, Ref& R) {
    R.px.resize(3 * M.w * M.h);
    for (int k = 0; k < n; k++) {
        Vec3 s(0);
        for (int i = 0; i < M.w * M.h; i++) { double x = (i % M.w + r.u()) / M.w, y = (i / M.w + r.u()) / M.h; auto ray = M.cam->primary_ray(Vec2(x, y)); Vec3 L = trace(M, r, ray.o, ray.d); for (int c = 0; c < 3; c++) R.px[3 * i + c].add(L[c]); s += L; }
        for (int c = 0; c < 3; c++) R.all[c].add(s[c] / (M.w * M.h));
    }
    count("reference paths", (long long)n * M.w * M.h);
}
static bool TIMED = false; static int THREADS = 1;
struct Rend { std::string key; Json p; bool image; std::string label; };
// K independent renders
static bool renders(Rand& r, const Model& M, const Rend& q, int K, int spp, Ref& R) {
    auto* film = lm::comp::get<lm::Film>("$.assets.film"); R.px.resize(3 * M.w * M.h);
    for (int k = 0; k < K; k++) {
        Json p = q.p; p["scene"] = "$.assets.scene"; p["output"] = "$.assets.film"; p["max_verts"] = M.max_verts; p["seed"] = r.i(1 << 30); p["scheduler"] = "sample"; if (q.image) p["num_samples"] = (long long)spp * M.w * M.h; else p["spp"] = spp;
        if (TIMED) { p["scheduler"] = "time"; p["render_time"] = .002; if (q.image) p["samples_per_iter"] = (long long)spp * M.w * M.h; }
        auto* re = lm::load<lm::Renderer>("renderer", q.key, p); auto out = re->render(); count("renders"); count("rendered paths", (long long)spp * M.w * M.h);
        auto b = film->buffer(); Vec3 s(0);
        for (int i = 0; i < M.w * M.h; i++) { Vec3 v(b.data[3 * i], b.data[3 * i + 1], b.data[3 * i + 2]); if (!finite(v) || v.x < 0 || v.y < 0 || v.z < 0) { violation("render:not a radiance", q.label + " gives " + str(v) + M.desc); return false; } for (int c = 0; c < 3; c++) R.px[3 * i + c].add(v[c]); s += v; }
        for (int c = 0; c < 3; c++) R.all[c].add(s[c] / (M.w * M.h));
    }
    return true;
}
// rare: the variance of a sample that is rarely different from zero, from its expectation; the observed variance is no guide
static double worst(const Ref& a, const Ref& b, double zfloor, std::string& what, double rare = 0) {
    double z = 0, floor = 1e-3 * std::max({ b.all[0].m, b.all[1].m, b.all[2].m }) + 1e-6; auto cmp = [&](const Stat& x, const Stat& y, const std::string& w, double f) { double se = std::sqrt(std::max(x.se() * x.se(), rare * std::fabs(y.m) * (x.m == 0 ? 4 : 1)) + y.se() * y.se()) + zfloor * (std::fabs(x.m) + std::fabs(y.m)) + floor; double q = std::fabs(x.m - y.m) / se * f; if (q > z) { z = q; std::ostringstream o; o << w << ": rendered " << x.m << " +- " << x.se() << ", expected " << y.m << " +- " << y.se(); what = o.str(); } };
    for (int c = 0; c < 3; c++) cmp(a.all[c], b.all[c], "image mean, channel " + std::to_string(c), 1);
    for (size_t i = 0; i < a.px.size(); i++) cmp(a.px[i], b.px[i], "pixel " + std::to_string(i / 3) + ", channel " + std::to_string(i % 3), .8);
    return z;
}
// Sequential comparison: a suspicion is confirmed with more and more independent samples.
static void compare(Rand& r, const Model& M, const Rend& q, Ref& ref, bool exact, double T) {
    TIMED = r.p(.08); cover("scheduler", TIMED ? "time" : "sample"); cover("threads", std::to_string(THREADS));
    int spp = 24, K = 16; std::string what; double z = 0; spp = std::max(2, (int)(spp * T));
    for (int stage = 0; stage < 4; stage++) {
        Ref R; if (!renders(r, M, q, K, spp, R)) return;
        double ke = 0; for (auto& T : M.tris) ke = std::max({ ke, T.Ke.x, T.Ke.y, T.Ke.z }); if (M.env) ke = std::max({ ke, 4., M.envL.x, M.envL.y, M.envL.z }); double rare = !exact && q.label.find("naive") != std::string::npos ? ke / ((double)K * spp) : 0;
        z = worst(R, ref, exact ? 1.5e-3 : 1e-3, what, rare); if (z < 5.5) { count("comparisons"); cover("renderer", q.label); if (stage) count("comparisons repeated"); return; }
        if (!exact) { Ref n; Rand rr(r.next()); reference(M, rr, (int)(4000 * T) << stage, n); ref = n; z = worst(R, ref, 1e-3, what, rare); }
        K = 40; spp *= 3; if (!exact && stage == 0) { }
    }
    violation("render:" + q.label, q.label + " differs (" + std::to_string(z) + " standard errors) in " + what + M.desc);
}
static std::vector<Rend> pts() {
    std::vector<Rend> v; for (std::string s : { "naive", "nee", "mis" }) for (std::string i : { "pixel", "image" }) v.push_back({ "renderer::pt", { {"sampling_mode", s}, {"primary_ray_sampling_mode", i} }, i == "image", "pt/" + s + "/" + i }); return v;
}
static void emitter(Rand& r, Model& M, lm::Scene* S, int k = 1) { double y = k * .8 + r.u(1.3, 2), s = r.u(.5, 1.2); Vec3 o(r.u(-1, 1), y, r.u(-1, 1)); std::vector<Tri> t; { std::ostringstream q; q << " light at " << str(o) << " size " << s; M.desc += q.str(); } quad(t, o + Vec3(-s, 0, -s), o + Vec3(s, 0, -s), o + Vec3(s, 0, s), o + Vec3(-s, 0, s)); add_mesh(r, M, S, t, 0, "mat0", r.v3(.5, 4)); }

static void raycast(Rand& r, const Model& M) {
    Json p{ {"scene", "$.assets.scene"}, {"output", "$.assets.film"} }; Vec3 bg = r.v3(), col = r.v3(); bool nrm = r.p(.3), cst = r.p(.4), c = r.p(.4), hasbg = r.p(.7); if (hasbg) p["bg_color"] = j3(bg); else bg = Vec3(0); if (nrm) p["visualize_normal"] = true; if (cst) p["use_constant_color"] = true; if (c) p["color"] = j3(col);
    auto* film = lm::comp::get<lm::Film>("$.assets.film"); lm::load<lm::Renderer>("raycast", "renderer::raycast", p)->render(); auto b = film->buffer();
    for (int i = 0; i < M.w * M.h; i++) {
        Vec2 rp((i % M.w + .5) / M.w, (i / M.w + .5) / M.h); auto ray = M.cam->primary_ray(rp); double t; int id; M.hit(ray.o, ray.d, Inf, t, id); bool edge = false;
        for (int k = 0; k < 6; k++) { double t2; int i2; M.hit(ray.o, glm::normalize(ray.d + 1e-6 * r.dir()), Inf, t2, i2); edge |= i2 != id; } if (edge) continue;
        Vec3 e = bg, v(b.data[3 * i], b.data[3 * i + 1], b.data[3 * i + 2]);
        if (id >= 0) { const Tri& T = M.tris[id]; auto g = T.at(ray.o + t * ray.d); if (nrm) e = glm::abs(g.n); else { e = c ? col : M.mats[T.mat].m->reflectance(g); if (!cst) e *= .2 + .8 * std::fabs(glm::dot(g.n, ray.d)); } }
        else if (M.env && !nrm) e = M.envI ? M.envI->eval(lm::PointGeometry::make_infinite(-ray.d), -ray.d, false) : M.envL;
        count("ray casts"); cover("ray cast", std::string(id >= 0 ? "surface" : M.env ? "environment" : "background") + (nrm ? "/normal" : cst ? "/constant" : "/shaded") + (c ? "/color" : ""));
        VH_CHECK(close(v, e, 1e-5, 1e-6), "render:raycast", "ray casting gives " << str(v) << " expected " << str(e) << M.desc);
    }
    Vec3 bl = r.v3(); lm::load<lm::Renderer>("blank", "renderer::blank", { {"output", "$.assets.film"}, {"color", j3(bl)} })->render(); b = film->buffer();
    for (int i = 0; i < M.w * M.h; i++) VH_CHECK(close(Vec3(b.data[3 * i], b.data[3 * i + 1], b.data[3 * i + 2]), bl, 1e-6), "render:blank", "blank image");
}
static void general(Rand& r, double T) {
    Model M; auto* S = begin(r, M, Vec3(r.u(-1, 1), r.u(1, 2), 5), Vec3(0, .6, 0), r.u(30, 50));
    material(r, M, "mat0", 0); int nm = r.i(1, 2); M.max_verts = r.pick(std::vector<int>{ 2, 3, 3, 4, 5, 6, 8, 10 }); bool light_only = r.p(.55); std::string d = " [";
    static const char* kn[] = { "diffuse", "mirror", "glass", "glossy", "mask", "mixture", "marginalized mixture", "model material" };
    { std::vector<Tri> t; quad(t, Vec3(-3, 0, 3), Vec3(3, 0, 3), Vec3(3, 0, -3), Vec3(-3, 0, -3)); int k = r.p(.6) ? 0 : r.pick(std::vector<int>{ 0, 3, 5, 5, 6, 6, 7 }); if (k) d += std::string(kn[k]) + " floor "; int id = k ? material(r, M, "matf", k) : 0; add_mesh(r, M, S, t, id, k ? "matf" : "mat0", Vec3(0)); }
    for (int i = 1; i <= nm; i++) {
        std::string n = "mat" + std::to_string(i); int k = r.p(.35) ? 0 : r.i(8); if (k == 4 && r.p(.6)) k = 3; d += std::string(kn[k]) + " "; int id = material(r, M, n, k);
        std::vector<Tri> t; Vec3 c(i == 1 ? -1.1 : 1.1, r.u(.75, 1), r.u(-1, .8)); if (r.p(.5)) ball(t, c, .5, 3, false); else { double s = .4; for (int ax = 0; ax < 3; ax++) for (int sd = 0; sd < 2; sd++) { auto P = [&](int x, int y) { Vec3 v; v[ax] = sd ? s : -s; v[(ax + 1) % 3] = x ? s : -s; v[(ax + 2) % 3] = y ? s : -s; return v + c; }; if (sd) quad(t, P(0, 0), P(1, 0), P(1, 1), P(0, 1)); else quad(t, P(0, 0), P(0, 1), P(1, 1), P(1, 0)); } }
        add_mesh(r, M, S, t, id, n, Vec3(0)); cover("material", kn[k]);
    }
    std::vector<Rend> rs; auto P = pts();
    if (light_only) {
        for (int k = r.i(1, 2); k > 0; k--) emitter(r, M, S, k); d += "area lights ";
        for (auto& x : P) rs.push_back(x);
        for (auto* k : { "pt_naive_path", "pt_nee_path", "bdpt", "bdptopt", "lt", "lt_nee_path" }) rs.push_back({ std::string("renderer::") + k, Json::object(), true, k });
        rs.push_back({ "renderer::volpt", Json::object(), false, "volpt" }); rs.push_back({ "renderer::volpt_naive", Json::object(), false, "volpt_naive" });
    } else {
        bool area = r.p(.4), pt = r.p(.5), dir = r.p(.4), env = r.p(.5) || !(area || pt || dir);
        if (area) { emitter(r, M, S); d += "area "; }
        if (pt) { Vec3 p(r.u(-1, 1), r.u(4.6, 6), r.u(-.5, 2)), I = r.v3(3, 20); lm::load<lm::Light>("pl", "light::point", { {"Le", j3(I)}, {"position", j3(p)} }); S->add_primitive({ {"light", "$.assets.pl"} }); M.pts.push_back({ p, I }); d += "point "; }
        if (dir) { Vec3 w = glm::normalize(Vec3(r.u(-.5, .5), -1, r.u(-.5, .5))), I = r.v3(.2, 2); lm::load<lm::Light>("dl", "light::directional", { {"Le", j3(I)}, {"direction", j3(w)} }); S->add_primitive({ {"light", "$.assets.dl"} }); M.dirs.push_back({ w, I }); d += "directional "; }
        if (env && r.p(.4)) {
            Img m; m.w = r.i(2, 8); m.h = r.i(2, 6); m.c = 3; for (int i = 0; i < m.w * m.h * 3; i++) m.d.push_back((float)r.u(.05, 2)); std::string p = scratch() + "/env.hdr"; write_hdr(p, m);
            M.env = true; M.envI = lm::load<lm::Light>("el", "light::env", { {"path", p}, {"rot", r.u(0, 360)}, {"scale", r.u(.2, 2)} }); S->add_primitive({ {"light", "$.assets.el"} }); d += "environment image ";
        }
        else if (env) { M.env = true; M.envL = r.v3(.1, 1.5); lm::load<lm::Light>("el", "light::envconst", { {"Le", j3(M.envL)} }); S->add_primitive({ {"light", "$.assets.el"} }); d += "environment "; }
        // without direct sampling, only lights with an extent are found
        for (auto& x : P) if (!((pt || dir) && x.label.find("naive") != std::string::npos)) rs.push_back(x);
        rs.push_back({ "renderer::volpt", Json::object(), false, "volpt" }); if (!pt && !dir) rs.push_back({ "renderer::volpt_naive", Json::object(), false, "volpt_naive" });
        bool spec = false; for (auto& m : M.mats) spec |= m.k == Mirror || m.k == Glass || m.k == Mask;      // the caustics of point lights cannot be found from the camera
        if (!env && !(spec && (pt || dir))) { rs.push_back({ "renderer::lt", Json::object(), true, "lt" }); }
    }
    S->build(); d += "vertices " + std::to_string(M.max_verts) + "]"; cover("scene", d); M.desc = d + M.desc; count("scenes");
    raycast(r, M); std::map<std::string, Ref> refs; 
    // every renderer once in a while, three per scene
    for (size_t i = rs.size(); i > 1; i--) std::swap(rs[i - 1], rs[r.i((int)i)]); if (rs.size() > 4) rs.resize(4);
    for (auto& q : rs) {
        Model N = M; std::string key = "full"; bool path = q.label.find("_path") != std::string::npos || q.label.find("bdpt") == 0;
        if (path && r.p(.3)) { N.min_verts = r.i(2, std::max(2, M.max_verts)); q.p["min_verts"] = N.min_verts; key = "min" + std::to_string(N.min_verts); }
        if (q.label == "lt") { N.min_verts = 3; N.no_spec_eye = true; key = "lt"; } if (q.label == "lt_nee_path") { N.min_verts = std::max(N.min_verts, 2); N.no_spec_eye = true; key += "lt"; }
        if (!refs.count(key)) { Rand rr(r.next()); reference(N, rr, (int)(1500 * T), refs[key]); }
        compare(r, N, q, refs[key], false, T);
    }
}
static void furnace(Rand& r, double T) {
    Model M; Vec3 c = r.v3(-1, 1); double R = r.u(.8, 2); auto* S = begin(r, M, c + R * .3 * r.dir(), c, r.u(30, 70)); Mat m; m.k = Diffuse; m.c = r.p(.3) ? Vec3(.95) : r.v3(0, .95); add_mat(M, "mat0", m, "material::diffuse", { {"Kd", j3(m.c)} });
    Vec3 Le = r.v3(.1, 3); std::vector<Tri> t; ball(t, c, R, 5, true); add_mesh(r, M, S, t, 0, "mat0", Le); M.max_verts = r.pick(std::vector<int>{ 2, 3, 4, 5, 6, 7, 8, 12, 20 }); S->build();
    std::vector<Rend> rs = pts(); for (auto* k : { "pt_naive_path", "pt_nee_path", "bdpt", "bdptopt", "lt", "lt_nee_path" }) rs.push_back({ std::string("renderer::") + k, Json::object(), true, k });
    rs.push_back({ "renderer::volpt", Json::object(), false, "volpt" }); rs.push_back({ "renderer::volpt_naive", { {"rr_prob", r.u(.05, .4)} }, false, "volpt_naive" });
    for (size_t i = rs.size(); i > 1; i--) std::swap(rs[i - 1], rs[r.i((int)i)]); rs.resize(4); count("closed solutions");
    for (auto& q : rs) {
        int lo = q.label == "lt" ? 3 : 2; bool heavy = M.max_verts > 8 && (q.label.find("bdpt") == 0 || q.label.find("_path") != std::string::npos); if (heavy) continue; Ref ref; ref.px.resize(3 * M.w * M.h);
        for (int ch = 0; ch < 3; ch++) { double L = 0, f = Le[ch]; for (int v = 2; v <= M.max_verts; v++) { if (v >= lo) L += f; f *= m.c[ch]; } ref.all[ch].add(L); for (int i = 0; i < M.w * M.h; i++) ref.px[3 * i + ch].add(L); }
        M.desc = " [closed sphere, vertices " + std::to_string(M.max_verts) + "]"; compare(r, M, q, ref, true, T);
    }
}
static void media(Rand& r, double T) {
    Model M; auto* S = begin(r, M, Vec3(r.u(-1, 1), r.u(1, 2), 5), Vec3(0, .6, 0), r.u(30, 50)); material(r, M, "mat0", 0); M.max_verts = r.i(2, 7); std::string d = " [medium ";
    { std::vector<Tri> t; quad(t, Vec3(-3, 0, 3), Vec3(3, 0, 3), Vec3(3, 0, -3), Vec3(-3, 0, -3)); add_mesh(r, M, S, t, 0, "mat0", Vec3(0)); }
    if (r.p(.6)) { std::vector<Tri> t; int k = r.pick(std::vector<int>{ 0, 1, 2, 4 }); int id = material(r, M, "mat1", k); ball(t, Vec3(r.u(-1, 1), 1, 0), .5, 3, false); add_mesh(r, M, S, t, id, "mat1", Vec3(0)); d += "ball" + std::to_string(k) + " "; }
    M.med = true; M.g = r.p(.4) ? 0 : r.u(-.7, .7); lm::load<lm::Phase>("ph", M.g == 0 ? "phase::isotropic" : "phase::hg", M.g == 0 ? Json::object() : Json{ {"g", M.g} });
    if (r.p(.5)) { M.sig = r.u(.05, .6); M.alb = r.v3(0, 1); M.bounded = r.p(.5); M.lo = Vec3(-2, -1, -2); M.hi = Vec3(2, 2, 2); Json p{ {"density", M.sig}, {"albedo", j3(M.alb)}, {"phase", "$.assets.ph"} }; if (M.bounded) { p["bound_min"] = j3(M.lo); p["bound_max"] = j3(M.hi); d += "bounded "; } lm::load<lm::Medium>("med", "medium::homogeneous", p); d += "homogeneous "; }
    else { M.den = lm::load<lm::Volume>("vd", "volume::sphere", { {"pos", {0, 1, 0}}, {"radius", r.u(.6, 1.5)}, {"scalar", r.u(.2, 2)} }); M.albv = lm::load<lm::Volume>("va", "volume::constant", { {"color", j3(r.v3(0, 1))} }); M.sig = M.den->max_scalar(); auto b = M.den->bound(); M.lo = b.min; M.hi = b.max; M.bounded = true; lm::load<lm::Medium>("med", "medium::heterogeneous", { {"volume_density", "$.assets.vd"}, {"volume_albedo", "$.assets.va"}, {"phase", "$.assets.ph"} }); d += "heterogeneous "; }
    S->add_primitive({ {"medium", "$.assets.med"} }); bool area = r.p(.6), pt = !area || r.p(.3), env = M.bounded && r.p(.5);
    if (area) emitter(r, M, S); if (pt) { Vec3 p(r.u(-1, 1), r.u(4.6, 6), r.u(-.5, 2)), I = r.v3(3, 20); lm::load<lm::Light>("pl", "light::point", { {"Le", j3(I)}, {"position", j3(p)} }); S->add_primitive({ {"light", "$.assets.pl"} }); M.pts.push_back({ p, I }); d += "point "; }
    if (env) { M.env = true; M.envL = r.v3(.1, 1.5); lm::load<lm::Light>("el", "light::envconst", { {"Le", j3(M.envL)} }); S->add_primitive({ {"light", "$.assets.el"} }); d += "environment "; }
    S->build(); M.desc = d + "vertices " + std::to_string(M.max_verts) + "]"; cover("scene", M.desc); count("scenes");
    std::vector<Rend> rs; rs.push_back({ "renderer::volpt", Json::object(), false, "volpt" }); if (!pt) rs.push_back({ "renderer::volpt_naive", Json::object(), false, "volpt_naive" });
    Ref ref; Rand rr(r.next()); reference(M, rr, (int)(2500 * T), ref); for (auto& q : rs) { q.label += "/medium"; compare(r, M, q, ref, false, 2 * T); }
}

int main(int argc, char** argv) {
    parse(argc, argv); lm_init(1);
    auto& A = args(); long long np = A.extra.count("parts") ? atoll(A.extra["parts"].c_str()) : 1, me = A.part.empty() ? 0 : atoll(A.part.c_str());
    long long n = n_cases(400, 6000); double T = A.extra.count("samples") ? atof(A.extra["samples"].c_str()) : 1;
    for (long long c = me; c < n; c += np) {
        if (!want(c)) continue;
        Rand r(A.seed * 1000003 + c); begin_case("case " + std::to_string(c)); int k = r.i(10);
        THREADS = r.p(.7) ? 1 : r.i(2, 4); lm::parallel::shutdown(); lm::parallel::init("openmp", { {"num_threads", THREADS}, {"progress_update_interval", 1} });
        try { if (k < 6) general(r, T); else if (k < 8) furnace(r, T); else media(r, T); }
        catch (std::exception& e) { violation("render:exception", e.what()); }
    }
    lm::shutdown();
    return finish();
}
