// P11: scattering models.  Every sampled direction is checked against the model's own density and value,
// against closed forms of the documented models, and the empirical distribution of the samples against
// numerical integrals of the claimed density.
#include "vh.h"
#include <lm/material.h>
#include <lm/texture.h>
#include <lm/surface.h>
using namespace vh;
using lm::Material; using lm::PointGeometry; using lm::Pi;
typedef Material::TransDir TD;

struct Mat { std::string name, kind; Material* m; Json prop; int comps; std::vector<std::pair<Material*, double>> parts; double bound = 1; };
static std::vector<Mat> mats;
static Material* gl_;

static Material* load(const std::string& name, const std::string& impl, const Json& p) { return lm::load<Material>(name, impl, p); }

static void make_materials(Rand& r) {
    mats.clear();
    auto c3 = [&](double hi = 1) { Vec3 v = r.v3(0.05, hi); return Json{ v.x, v.y, v.z }; };
    int k = 0;
    auto nm = [&] { return "mat" + std::to_string(k++); };
    auto add = [&](const std::string& kind, const Json& p, int comps) { auto n = nm(); auto* m = load(n, "material::" + kind, p); if (!m) { violation("create:" + kind, "the material could not be created"); return (Material*)nullptr; } mats.push_back({ n, kind, m, p, comps, {} }); return m; };
    Material* d1 = add("diffuse", { {"Kd", c3()} }, 1);
    lm::load<lm::Texture>("tex_c", "texture::constant", { {"color", c3()} });
    double alpha = r.u(.2, .8);
    lm::load<lm::Texture>("tex_a", "texture::constant", { {"color", c3()}, {"alpha", alpha} });
    add("diffuse", { {"Kd", c3()}, {"mapKd", "$.assets.tex_c"} }, 1);
    Material* g1 = add("glossy", { {"Ks", c3()}, {"ax", r.u(.25, .6)}, {"ay", r.u(.25, .6)} }, 1);
    add("glossy", { {"Ks", c3()}, {"ax", .3}, {"ay", .3} }, 1);
    add("glossy", { {"Ks", c3()}, {"ax", r.u(.02, .1)}, {"ay", r.u(.02, .3)} }, 1);
    Material* mi = add("mirror", Json::object(), 1);
    Material* gl = add("glass", { {"Ni", r.u(1.05, 2.4)} }, 1); gl_ = gl;
    add("glass", { {"Ni", r.u(.45, .95)} }, 1);
    Material* mk = add("mask", Json::object(), 1);
    for (auto* ref : { d1, g1, mi, gl, mk }) { auto* p = add("proxy", { {"ref", ref->loc()} }, 1); mats.back().parts = { {ref, 1.0} }; (void)p; }
    // mixtures
    auto mixture = [&](const std::string& kind, std::vector<Material*> ms, bool heavy = false) {
        Json a = Json::array(); double tot = 0; std::vector<double> w;
        for (size_t i = 0; i < ms.size(); i++) { w.push_back(r.u(.1, 1)); tot += w.back(); }
        double target = heavy ? r.u(1, 5) : r.u(.5, 1.0);
        std::vector<std::pair<Material*, double>> parts;
        for (size_t i = 0; i < ms.size(); i++) { double x = w[i] / tot * target; a.push_back({ {"material", ms[i]->loc()}, {"weight", x} }); parts.push_back({ ms[i], x }); }
        int nspec = 0; for (auto* m : ms) nspec += m->is_specular_component(0);
        if (add(kind, a, kind.find("rr") != std::string::npos ? (int)ms.size() : 1 + nspec)) { mats.back().parts = parts; mats.back().bound = std::max(1., target); }
    };
    for (auto* kind : { "constant_weight_mixture_rr", "constant_weight_mixture_marginalized" }) {
        mixture(kind, { d1, g1 }); mixture(kind, { d1, mi }); mixture(kind, { mi, g1, d1, mk }); mixture(kind, { g1 }); mixture(kind, { mi, mk }); mixture(kind, { d1, mats[1].m, g1 });
        mixture(kind, { g1, d1, mats[1].m, mi }, true);       // weights are factors, not probabilities
    }
    for (int v = 0; v < 5; v++) {
        Json p{ {"Kd", c3(v == 3 ? .1 : .6)}, {"mapKd", std::string(v == 1 ? "$.assets.tex_c" : v >= 2 && v < 4 ? "$.assets.tex_a" : "")}, {"Ks", c3(.4)}, {"ax", r.u(.25, .5)}, {"ay", r.u(.25, .5)}, {"no_alpha_mask", v == 3} };
        if (v == 4) { p["Kd"] = Json{ 0., 0., 0. }; }
        add("mixture_wavefrontobj", p, v == 2 ? 2 : 1);
        if (mats.back().kind == "mixture_wavefrontobj") mats.back().prop["alpha_"] = v == 2 ? alpha : 1.0;
    }
}

static PointGeometry geometry(Rand& r, bool same) {
    Vec3 n = r.p(.1) ? Vec3(0, 0, r.p(.5) ? 1 : -1) : r.dir();
    Vec3 gn = same ? n : glm::normalize(n + .2 * r.v3(-1, 1));
    return PointGeometry::make_on_surface(r.v3(-2, 2), n, gn, r.v2());
}
static Vec3 dir_with_cos(Rand& r, const PointGeometry& g, double c, bool below) {
    double ph = 2 * Pi * r.u(), s = std::sqrt(std::max(0., 1 - c * c));
    return g.u * (s * cos(ph)) + g.v * (s * sin(ph)) + g.n * (below ? -c : c);
}

// ---- closed forms ---------------------------------------------------------------------------------
static Vec3 ref_glossy(const Json& p, const PointGeometry& g, Vec3 wi, Vec3 wo, double* pdf) {
    Vec3 Ks(p["Ks"][0], p["Ks"][1], p["Ks"][2]); double ax = p["ax"], ay = p["ay"];
    double ci = glm::dot(wi, g.n), co = glm::dot(wo, g.n);
    if (ci * co <= 0) { if (pdf) *pdf = 0; return Vec3(0); }
    double sg = ci > 0 ? 1 : -1; ci = std::fabs(ci); co = std::fabs(co);
    Vec3 h = glm::normalize(wi + wo);
    double hx = glm::dot(h, g.u), hy = glm::dot(h, g.v), hz = sg * glm::dot(h, g.n);
    double t = hx * hx / (ax * ax) + hy * hy / (ay * ay) + hz * hz;
    double D = 1 / (Pi * ax * ay * t * t);
    auto L = [&](Vec3 w, double c) { double x = glm::dot(w, g.u) * ax, y = glm::dot(w, g.v) * ay; return 2 / (1 + std::sqrt(1 + (x * x + y * y) / (c * c))); };
    double G = L(wi, ci) * L(wo, co);
    double dh = glm::dot(wo, h);
    if (pdf) *pdf = D * hz / (4 * dh * co);
    Vec3 F = Ks + (Vec3(1) - Ks) * std::pow(1 - dh, 5.0);
    return Ks * F * (D * G / (4 * ci * co));
}
static void ref_glass(double Ni, const PointGeometry& g, Vec3 wi, double& F, Vec3& refl, Vec3& refr, bool& total, double& eta) {
    double c = glm::dot(wi, g.n); bool in = c > 0; Vec3 n = in ? g.n : -g.n; double ci = std::fabs(c); eta = in ? 1 / Ni : Ni;
    refl = 2 * c * g.n - wi;
    double s2 = eta * eta * (1 - ci * ci);
    total = s2 >= 1;
    if (total) { F = 1; return; }
    double ct = std::sqrt(1 - s2);
    refr = glm::normalize(-eta * (wi - n * ci) - n * ct);
    double r0 = (1 - Ni) / (1 + Ni); r0 *= r0;
    F = r0 + (1 - r0) * std::pow(1 - (in ? ci : ct), 5.0);
}

static void check_glass(const Mat& M, const PointGeometry& g, Vec3 wi, Rand& r) {
    double Ni = M.prop["Ni"], F, eta; Vec3 refl, refr; bool total;
    ref_glass(Ni, g, wi, F, refl, refr, total, eta);
    std::string ctx = " Ni=" + std::to_string(Ni) + " wi=" + str(wi) + " n=" + str(g.n);
    int n_refl = 0, n_refr = 0;
    for (int k = 0; k < 24; k++) for (TD td : { TD::EL, TD::LE }) {
        auto cs = M.m->sample_component({ r.v2() }, g, wi);
        VH_CHECK(close(cs.weight * M.m->pdf_component(cs.comp, g, wi), 1, 1e-9), "glass:component-weight", "component weight is not the reciprocal of its probability" << ctx);
        Vec2 udc = k < 2 ? Vec2(k == 0 ? 0.0 : 0.9999999, .5) : r.v2();
        auto s = M.m->sample_direction({ r.v2(), udc }, g, wi, cs.comp, td);
        count("samples");
        if (!s) continue;
        double pd = M.m->pdf_direction(g, wi, s->wo, cs.comp, false) * M.m->pdf_component(cs.comp, g, wi);
        Vec3 f = M.m->eval(g, wi, s->wo, cs.comp, td, false);
        bool isrefl = glm::dot(s->wo, g.n) * glm::dot(wi, g.n) > 0;
        double want_f = isrefl ? F : (1 - F) * (td == TD::EL ? eta * eta : 1);
        VH_CHECK(glm::length(s->wo - (isrefl ? refl : refr)) < 1e-7, "glass:direction", (isrefl ? "reflected" : "refracted") << " direction " << str(s->wo) << " expected " << str(isrefl ? refl : refr) << ctx);
        VH_CHECK(isrefl || !total, "glass:total-reflection", "refraction beyond the critical angle" << ctx);
        VH_CHECK(close(f, Vec3(want_f), 1e-7, 1e-9), "glass:value", "value " << str(f) << " expected " << want_f << ctx);
        VH_CHECK(close(pd, isrefl ? F : 1 - F, 1e-7, 1e-9), "glass:probability", "probability " << pd << " expected " << (isrefl ? F : 1 - F) << ctx);
        VH_CHECK(close(s->weight * cs.weight * pd, f, 1e-7, 1e-9), "glass:weight", "sample weight " << str(s->weight) << " is not value/density " << str(f) << "/" << pd << ctx);
        (isrefl ? n_refl : n_refr)++;
        // light paths are reversible: refracting the refracted ray gives the incident direction
        if (!isrefl) {
            double F2, eta2; Vec3 r1, r2; bool t2; ref_glass(Ni, g, s->wo, F2, r1, r2, t2, eta2);
            VH_CHECK(!t2 && glm::length(r2 - wi) < 1e-6, "glass:reversible", "the refracted direction does not refract back" << ctx);
            Vec3 fb = M.m->eval(g, s->wo, wi, cs.comp, td, false);
            VH_CHECK(close(fb.x, (1 - F2) * (td == TD::EL ? eta2 * eta2 : 1), 1e-6, 1e-9), "glass:value", "value of the reverse path " << fb.x << ctx);
        }
    }
    if (n_refl) cover("glass_events", std::string("reflect") + (total ? "-total" : "")); if (n_refr) cover("glass_events", glm::dot(wi, g.n) > 0 ? "refract-in" : "refract-out");
}

static bool specular(const Mat& M, int comp) { return M.m->is_specular_component(comp); }

static void check_point(Mat& M, Rand& r, long long idx) {
    bool below = r.p(.5);
    double c = r.p(.15) ? r.u(.01, .2) : r.u(.2, 1);
    PointGeometry g = geometry(r, r.p(.5));
    Vec3 wi = dir_with_cos(r, g, c, below);
    cover("config", M.kind + (below ? "/below" : "/above"));
    auto ctx = [&] { return " [" + M.kind + " " + M.name + " wi=" + str(wi) + " n=" + str(g.n) + "]"; };
    if (M.kind == "glass") { check_glass(M, g, wi, r); return; }
    const std::string K = M.kind + ":";
    double alpha = M.prop.is_object() && M.prop.count("alpha_") ? (double)M.prop["alpha_"] : 1.0;

    // component probabilities form a distribution
    if (M.kind == "proxy") { double t = 0; M.comps = 0; while (t < 1 - 1e-12 && M.comps < 4) t += M.m->pdf_component(M.comps++, g, wi); }
    double tot = 0;
    for (int i = 0; i < M.comps; i++) { double p = M.m->pdf_component(i, g, wi); VH_CHECK(p >= 0 && p <= 1 + 1e-12, K + "component-probability", "probability " << p << ctx()); tot += p; }
    VH_CHECK(close(tot, 1, 1e-9), K + "component-total", "component probabilities sum to " << tot << ctx());

    for (int k = 0; k < 12; k++) {
        Vec2 uc = k == 0 ? Vec2(0, 0) : k == 1 ? Vec2(1 - 1e-12, .5) : r.v2();
        auto cs = M.m->sample_component({ uc }, g, wi);
        double pc = M.m->pdf_component(cs.comp, g, wi);
        VH_CHECK(cs.comp >= 0 && cs.comp < M.comps, K + "component-range", "component " << cs.comp << ctx());
        VH_CHECK(pc > 0 && close(cs.weight * pc, 1, 1e-9), K + "component-weight", "component weight " << cs.weight << " with probability " << pc << ctx());
        if (!(cs.comp >= 0 && cs.comp < M.comps)) return;
        Vec2 ud = k == 2 ? Vec2(0, 0) : k == 3 ? Vec2(1 - 1e-9, 1 - 1e-9) : r.v2(), udc = k == 4 ? Vec2(0, 0) : k == 5 ? Vec2(1 - 1e-9, 0) : r.v2();
        for (TD td : { TD::EL, TD::LE }) {
            auto s = M.m->sample_direction({ ud, udc }, g, wi, cs.comp, td);
            count("samples");
            if (!s) { count("samples.rejected"); continue; }
            VH_CHECK(finite(s->wo) && std::fabs(glm::length(s->wo) - 1) < 1e-6, K + "direction", "direction " << str(s->wo) << " is not of unit length" << ctx());
            VH_CHECK(finite(s->weight) && s->weight.x >= 0 && s->weight.y >= 0 && s->weight.z >= 0, K + "weight-finite", "weight " << str(s->weight) << " for ud=" << str(ud) << ctx());
            if (std::fabs(glm::dot(s->wo, g.n)) < 1e-6) continue;
            double pd = M.m->pdf_direction(g, wi, s->wo, cs.comp, false);
            Vec3 f = M.m->eval(g, wi, s->wo, cs.comp, td, false);
            VH_CHECK(pd > 0 && std::isfinite(pd), K + "density-of-sample", "density " << pd << " of a sampled direction " << str(s->wo) << ctx());
            VH_CHECK(close(s->weight * pd, f, 1e-6, 1e-9), K + "weight", "sample weight " << str(s->weight) << " is not value/density = " << str(f) << "/" << pd << ctx());
            if (specular(M, cs.comp)) {
                VH_CHECK(M.m->pdf_direction(g, wi, s->wo, cs.comp, true) == 0 && M.m->eval(g, wi, s->wo, cs.comp, td, true) == Vec3(0), K + "delta", "a delta component evaluates to something non-zero" << ctx());
                count("samples.delta");
            } else {
                VH_CHECK(M.m->pdf_direction(g, wi, s->wo, cs.comp, true) == pd && M.m->eval(g, wi, s->wo, cs.comp, td, true) == f, K + "delta", "a non-delta component depends on the delta flag" << ctx());
                count("samples.smooth");
            }
            if (M.kind == "mirror") VH_CHECK(glm::length(s->wo - (2 * glm::dot(wi, g.n) * g.n - wi)) < 1e-9 && close(s->weight, Vec3(1), 1e-9), "mirror:law", "not the mirror direction" << ctx());
            if (M.kind == "mask") VH_CHECK(glm::length(s->wo + wi) < 1e-12 && close(s->weight, Vec3(1), 1e-9), "mask:law", "not a straight transmission" << ctx());
        }
    }

    if (M.kind == "diffuse" || M.kind == "glossy") {
        MapCheck mc; const Vec2 udc = r.v2();
        for (int k = 0; k < 30; k++) mc.point([&](Vec2 u) -> std::optional<Vec3> { auto s = M.m->sample_direction({ u, udc }, g, wi, 0, TD::EL); if (!s) return {}; return s->wo; },
            [&](Vec3 wo) { return M.m->pdf_direction(g, wi, wo, 0, false) * std::fabs(glm::dot(wo, g.n)); }, r.v2());
        VH_CHECK(!mc.bad(), K + "sample-map", "of " << mc.used << " sampled directions " << mc.off << " are more or less dense than the density says, by a factor up to " << mc.worst << ctx()); count("sample maps"); count("sample map points", mc.used);
    }

    // values at arbitrary pairs
    for (int k = 0; k < 8; k++) {
        Vec3 wo = dir_with_cos(r, g, r.u(.02, 1), r.p(.3) ? !below : below);
        bool opp = glm::dot(wi, g.n) * glm::dot(wo, g.n) <= 0;
        for (int comp = 0; comp < M.comps; comp++) {
            if (specular(M, comp)) continue;
            if (M.m->pdf_component(comp, g, wi) == 0) continue;
            for (TD td : { TD::EL, TD::LE }) {
                Vec3 f = M.m->eval(g, wi, wo, comp, td, false), fr = M.m->eval(g, wo, wi, comp, td, false);
                double pd = M.m->pdf_direction(g, wi, wo, comp, false);
                count("evaluations");
                VH_CHECK(finite(f) && f.x >= 0 && f.y >= 0 && f.z >= 0 && std::isfinite(pd) && pd >= 0, K + "value-finite", "value " << str(f) << " density " << pd << ctx());
                VH_CHECK(close(f, fr, 1e-7, 1e-10), K + "reciprocity", "f(wi,wo)=" << str(f) << " f(wo,wi)=" << str(fr) << " wo=" << str(wo) << ctx());
                if (opp) VH_CHECK(f == Vec3(0) && pd == 0, K + "hemisphere", "reflection model is non-zero across the surface: " << str(f) << " density " << pd << ctx());
                VH_CHECK(!(f != Vec3(0) && pd == 0), K + "support", "value " << str(f) << " where the density vanishes: never sampled" << " wo=" << str(wo) << ctx());
                if (M.kind == "diffuse") {
                    Vec3 Kd = M.prop.count("mapKd") ? lm::comp::get<lm::Texture>("$.assets.tex_c")->eval(g.t) : Vec3(M.prop["Kd"][0], M.prop["Kd"][1], M.prop["Kd"][2]);
                    VH_CHECK(close(f, opp ? Vec3(0) : Kd / Pi, 1e-9, 1e-12) && close(pd, opp ? 0 : 1 / Pi, 1e-9, 1e-12), "diffuse:value", "value " << str(f) << " density " << pd << ctx());
                    VH_CHECK(close(M.m->reflectance(g), Kd, 1e-9), "diffuse:reflectance", "reflectance " << str(M.m->reflectance(g)) << ctx());
                }
                if (M.kind == "glossy") {
                    double pr; Vec3 fe = ref_glossy(M.prop, g, wi, wo, &pr);
                    if (std::fabs(glm::dot(wi, g.n)) < .9999 && std::fabs(glm::dot(wo, g.n)) < .9999) {
                        VH_CHECK(close(f, fe, 1e-5, 1e-9), "glossy:value", "value " << str(f) << " expected " << str(fe) << " wo=" << str(wo) << ctx());
                        VH_CHECK(close(pd, pr, 1e-6, 1e-10), "glossy:density", "density " << pd << " expected " << pr << ctx());
                    }
                    VH_CHECK(close(M.m->reflectance(g), Vec3(M.prop["Ks"][0], M.prop["Ks"][1], M.prop["Ks"][2]), 1e-9), "glossy:reflectance", "reflectance" << ctx());
                }
                if (M.kind == "proxy") {
                    auto* ref = M.parts[0].first;
                    VH_CHECK(f == ref->eval(g, wi, wo, comp, td, false) && pd == ref->pdf_direction(g, wi, wo, comp, false) && M.m->reflectance(g) == ref->reflectance(g), "proxy:value", "differs from the referenced material" << ctx());
                }
            }
        }
        if (M.kind.rfind("constant_weight_mixture", 0) == 0) {
            // the sum over the components is the weighted sum of the mixed models
            for (TD td : { TD::EL, TD::LE }) {
                Vec3 want(0), got(0), refl(0);
                for (auto& p : M.parts) if (!p.first->is_specular_component(0)) want += p.second * p.first->eval(g, wi, wo, 0, td, true);
                for (auto& p : M.parts) refl += p.second * p.first->reflectance(g);
                for (int comp = 0; comp < M.comps; comp++) if (!specular(M, comp)) got += M.m->eval(g, wi, wo, comp, td, true);
                VH_CHECK(close(got, want, 1e-9, 1e-12), K + "mixture-value", "value " << str(got) << " is not the weighted sum " << str(want) << ctx());
                VH_CHECK(close(M.m->reflectance(g), refl, 1e-9, 1e-12), K + "reflectance", "reflectance" << ctx());
                // the marginal density of direction
                double pw = 0, pg = 0, W = 0; for (auto& p : M.parts) W += p.second;
                for (auto& p : M.parts) if (!p.first->is_specular_component(0)) pw += p.second / W * p.first->pdf_direction(g, wi, wo, 0, true);
                for (int comp = 0; comp < M.comps; comp++) if (!specular(M, comp) && M.m->pdf_component(comp, g, wi) > 0) pg += M.m->pdf_component(comp, g, wi) * M.m->pdf_direction(g, wi, wo, comp, true);
                VH_CHECK(close(pg, pw, 1e-9, 1e-12), K + "mixture-density", "density " << pg << " expected " << pw << ctx());
            }
        }
        if (M.kind == "mixture_wavefrontobj") {
            Vec3 Kd = M.prop["mapKd"].get<std::string>().empty() ? Vec3(M.prop["Kd"][0], M.prop["Kd"][1], M.prop["Kd"][2]) : lm::comp::get<lm::Texture>(M.prop["mapKd"].get<std::string>())->eval(g.t);
            Vec3 want = (opp ? Vec3(0) : Kd / Pi) + ref_glossy(M.prop, g, wi, wo, nullptr);
            Vec3 f = M.m->eval(g, wi, wo, 0, TD::EL, false);
            if (std::fabs(glm::dot(wi, g.n)) < .9999 && std::fabs(glm::dot(wo, g.n)) < .9999) VH_CHECK(close(f, want * alpha, 1e-5, 1e-9), K + "mixture-value", "value " << str(f) << " expected " << str(want * alpha) << ctx());
        }
    }
}

// Empirical distribution of samples against the integral of the density; total energy.
static void check_distribution(const Mat& M, Rand& r) {
    bool glass = M.kind == "glass" || (M.kind == "proxy" && M.parts[0].first == gl_);
    if (glass || M.kind == "mirror" || M.kind == "mask") return;
    if (M.kind == "glossy" && ((double)M.prop["ax"] < .2 || (double)M.prop["ay"] < .2)) return;
    bool below = r.p(.5);
    PointGeometry g = geometry(r, true);
    Vec3 wi = dir_with_cos(r, g, r.u(.45, .98), below);
    auto ctx = [&] { return " [" + M.kind + " " + M.name + " wi=" + str(wi) + " n=" + str(g.n) + "]"; };
    const int NR = 4, NS = 8, Q = 12;
    const long N = n_cases(12000, 120000);
    std::vector<double> expct(NR * NS, 0);
    double specp = 0;
    for (int comp = 0; comp < M.comps; comp++) {
        double pc = M.m->pdf_component(comp, g, wi);
        if (pc == 0) continue;
        if (specular(M, comp)) { specp += pc; continue; }
        for (int i = 0; i < NR; i++) for (int j = 0; j < NS; j++) {
            double s = 0;
            for (int a = 0; a < Q; a++) for (int b = 0; b < Q; b++) {
                double z1 = std::sqrt(1 - (double)i / NR), z0 = std::sqrt(1 - (i + 1.) / NR), z = z0 + (z1 - z0) * (a + .5) / Q, ph = 2 * Pi * (j + (b + .5) / Q) / NS, rr = std::sqrt(1 - z * z);
                Vec3 wo = g.u * (rr * cos(ph)) + g.v * (rr * sin(ph)) + g.n * (below ? -z : z);
                s += M.m->pdf_direction(g, wi, wo, comp, false) * z * (z1 - z0) * (2 * Pi / NS);
            }
            expct[i * NS + j] += pc * s / (Q * Q);
        }
    }
    std::vector<long> hist(NR * NS, 0); long rej = 0, spec = 0, other = 0; Vec3 energy(0);
    for (long k = 0; k < N; k++) {
        auto cs = M.m->sample_component({ r.v2() }, g, wi);
        auto s = M.m->sample_direction({ r.v2(), r.v2() }, g, wi, cs.comp, TD::EL);
        if (s) energy += s->weight * cs.weight;
        if (specular(M, cs.comp)) { spec++; continue; }
        if (!s) { rej++; continue; }
        double z = glm::dot(s->wo, g.n); if ((z < 0) != below) { other++; continue; }
        double x = glm::dot(s->wo, g.u), y = glm::dot(s->wo, g.v), r2 = std::min(x * x + y * y, 1 - 1e-12), ph = std::atan2(y, x); if (ph < 0) ph += 2 * Pi;
        hist[std::min(NR - 1, (int)(r2 * NR)) * NS + std::min(NS - 1, (int)(ph / (2 * Pi) * NS))]++;
    }
    count("samples", N); count("distribution_tests");
    for (size_t i = 0; i < hist.size(); i++) {
        double p = expct[i], h = (double)hist[i] / N, tol = 6.5 * std::sqrt(std::max(p, 1. / N) / N) + .004 + .03 * p;
        VH_CHECK(std::fabs(h - p) <= tol, M.kind + ":distribution", "fraction of samples in direction bin " << i << " is " << h << " but the density integrates to " << p << " (tolerance " << tol << ")" << ctx());
    }
    double tot = 0; for (double p : expct) tot += p;
    VH_CHECK(tot + specp <= 1.02, M.kind + ":normalisation", "the density integrates to " << tot + specp << ctx());
    double acc = 1 - (double)rej / N;
    VH_CHECK(std::fabs(tot + specp - acc) < .03, M.kind + ":normalisation", "the density integrates to " << tot + specp << " but a fraction " << acc << " of the samples is valid" << ctx());
    VH_CHECK(std::fabs((double)spec / N - specp) < 6.5 * std::sqrt(.25 / N), M.kind + ":component-frequency", "delta components chosen with frequency " << (double)spec / N << " expected " << specp << ctx());
    VH_CHECK(other == 0, M.kind + ":hemisphere", "smooth samples on the other side of the surface" << ctx());
    energy /= (double)N;
    double bound = M.bound;
    if (M.kind == "mixture_wavefrontobj") { Vec3 t = M.m->reflectance(g) + Vec3(M.prop["Ks"][0], M.prop["Ks"][1], M.prop["Ks"][2]); bound = std::max({ 1., t.x, t.y, t.z }); }
    VH_CHECK(std::max({ energy.x, energy.y, energy.z }) <= bound + .02, M.kind + ":energy", "reflects more energy than it receives: " << str(energy) << ctx());
    if (M.kind == "diffuse") VH_CHECK(close(energy, M.m->reflectance(g), 1e-9), "diffuse:albedo", "albedo " << str(energy) << ctx());
    (void)other;
}

// A mixture scatters in every way its constituents do: glass refracts in a mixture, too.
static void constituents(Rand& r) {
    lm::load<Material>("c_d", "material::diffuse", { {"Kd", {.5, .5, .5}} }); lm::load<Material>("c_g", "material::glass", { {"Ni", 1.5} });
    lm::load<Material>("c_m", "material::constant_weight_mixture_rr", Json::array({ { {"material", "$.assets.c_d"}, {"weight", .5} }, { {"material", "$.assets.c_g"}, {"weight", .5} } }));
    for (std::string kind : { "constant_weight_mixture_rr", "constant_weight_mixture_marginalized" }) for (std::string part : { "glass", "mixture" }) {
        auto* m = lm::load<Material>("c_x", "material::" + kind, Json::array({ { {"material", part == "glass" ? "$.assets.c_g" : "$.assets.c_m"}, {"weight", 1.} } }));
        int through = 0, n = 400; auto g = PointGeometry::make_on_surface(Vec3(0), Vec3(0, 0, 1), Vec3(0, 0, 1), Vec2(0)); Vec3 wi = glm::normalize(Vec3(.2, .1, 1));
        for (int k = 0; k < n; k++) { auto c = m->sample_component({ r.v2() }, g, wi); auto s = m->sample_direction({ r.v2(), r.v2() }, g, wi, c.comp, Material::TransDir::EL); if (s && s->wo.z < 0 && finite(s->weight) && s->weight.x * c.weight > 0) through++; }
        count("constituent samples", n);
        VH_CHECK(through > 0, "mixture-constituent:" + kind + "/" + part, "none of " << n << " directions sampled from a " << kind << " of a " << (part == "glass" ? "glass" : "mixture of glass and diffuse") << " material passes the surface");
    }
}

int main(int argc, char** argv) {
    parse(argc, argv);
    lm_init(1);
    const int part = atoi(args().part.c_str()), parts = args().extra.count("parts") ? atoi(args().extra["parts"].c_str()) : 1;
    const long long rounds = n_cases(64, 640);
    for (long long rd = part; rd < rounds; rd += parts) {
        if (!want(rd)) continue;
        Rand r(args().seed * 7919 + rd);
        begin_case("round " + std::to_string(rd));
        make_materials(r);
        if (rd == 0) constituents(r);
        for (auto& M : mats) {
            begin_case("round " + std::to_string(rd) + " " + M.name + " " + M.kind);
            if (rd == 0) sample(M.kind + " " + M.prop.dump());
            for (int k = 0; k < 60; k++) check_point(M, r, rd * 1000 + k);
            check_distribution(M, r);
        }
    }
    return finish();
}
