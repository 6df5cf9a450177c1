// P12: light sources.  Samples, densities, radiance values and geometric claims are compared with each
// other and with an independent description of the emitter; expectations of the sampling weights with
// numerical integrals over the emitter.
#include "vscene.h"
#include "vimg.h"
#include <lm/light.h>
#include <lm/surface.h>
#include <lm/mesh.h>
using namespace vh;
using lm::PointGeometry; using lm::Light; using lm::Transform; using lm::Pi;

static double area(const Vec3 p[3]) { return .5 * glm::length(glm::cross(p[1] - p[0], p[2] - p[0])); }
static double G(const PointGeometry& g, Vec3 p, Vec3 n, bool has_n) {
    Vec3 d = p - g.p; double l2 = glm::dot(d, d); d /= std::sqrt(l2);
    double c1 = g.degenerated ? 1 : std::fabs(glm::dot(g.n, d)), c2 = has_n ? std::fabs(glm::dot(n, d)) : 1;
    return c1 * c2 / l2;
}
static PointGeometry receiver(Rand& r, Vec3 p, bool surf) {
    return surf ? PointGeometry::make_on_surface(p, r.dir()) : PointGeometry::make_degenerated(p);
}

// ---- area lights -----------------------------------------------------------------------------------
static void area_light(Rand& r, long long id) {
    int tk = (int)(id % 7);
    bool rigid = tk <= 2;
    const std::string K = rigid ? "area:" : "area-scaled:";
    Mat4 M = gen_transform(r, tk);
    Transform tr(M);
    std::vector<std::string> kinds{ "soup", "box", "sphere", "sliver", "one" };
    std::string kind = kinds[id % kinds.size()];
    VMesh m = kind == "one" ? gen_mesh(r, "soup", 1) : gen_mesh(r, kind, r.i(2, 40));
    if (kind == "soup" && r.p(.5)) { Vec3 c = r.v3(-1, 1); m.tris.insert(m.tris.begin() + r.i((int)m.tris.size()), make_tri(r, c, c, c)); }    // zero-area triangle
    for (auto& t : m.tris) { Vec3 g = glm::cross(t.p[1] - t.p[0], t.p[2] - t.p[0]); if (glm::length(g) > 1e-12) g = glm::normalize(g); for (auto& n : t.n) n = g; }
    auto* mesh = lm::load<lm::Mesh>("lmesh", "mesh::raw", mesh_json(m));
    Vec3 Ke = r.v3(.1, 5);
    auto* L = lm::load<Light>("larea", "light::area", { {"Ke", {Ke.x, Ke.y, Ke.z}}, {"mesh", mesh->loc()} });
    if (!L) { violation("area:create", "area light not created"); return; }
    cover("light", "area/" + kind + "/transform" + std::to_string(tk));
    VH_CHECK(!L->is_specular() && !L->is_infinite() && !L->is_env(), "area:flags", "wrong classification");
    struct WT { Vec3 p[3], n; double A, lA; };
    std::vector<WT> w; double A = 0, lA = 0;
    Mat3 nm = Mat3(glm::transpose(glm::inverse(M)));
    for (auto& t : m.tris) {
        WT x; for (int i = 0; i < 3; i++) x.p[i] = Vec3(M * Vec4(t.p[i], 1));
        x.A = area(x.p); x.lA = area(t.p); Vec3 g = glm::cross(t.p[1] - t.p[0], t.p[2] - t.p[0]); x.n = glm::length(g) > 0 ? glm::normalize(nm * glm::normalize(g)) : Vec3(0, 0, 1);
        A += x.A; lA += x.lA; w.push_back(x);
    }
    auto ctx = [&] { return " [area light, " + kind + ", " + std::to_string(m.tris.size()) + " triangles, transform kind " + std::to_string(tk) + "]"; };
    const int N = (int)n_cases(6000, 60000);
    std::vector<long> hist(w.size(), 0); Stat su, sv, suv, power, invp;
    Stat direct[3]; PointGeometry rec = receiver(r, Vec3(M * Vec4(r.v3(-4, 4), 1)), r.p(.6));
    double ref = 0;     // integral of radiance x geometry term over the front faces
    for (auto& x : w) {
        const int Q = 24;
        for (int i = 0; i < Q; i++) for (int j = 0; j < Q - i; j++) for (int k = 0; k < 2; k++) {
            if (k && j == Q - i - 1) continue;
            double u = (i + (k ? 2. : 1.) / 3) / Q, v = (j + (k ? 2. : 1.) / 3) / Q;
            Vec3 p = x.p[0] * (1 - u - v) + x.p[1] * u + x.p[2] * v;
            if (glm::dot(rec.p - p, x.n) <= 0) continue;
            ref += Ke.x * G(rec, p, x.n, true) * x.A / (Q * Q);
        }
    }
    double near = 1e30; for (auto& x : w) for (auto& p : x.p) near = std::min(near, glm::length(p - rec.p));
    for (int k = 0; k < N; k++) {
        auto s = L->sample_position({ k == 0 ? Vec2(0, 0) : k == 1 ? Vec2(1 - 1e-12, 1 - 1e-12) : r.v2(), k == 2 ? 0. : k == 3 ? 1 - 1e-12 : r.u() }, tr);
        if (!s) { violation("area:position-none", "no position sampled" + ctx()); continue; }
        count("samples");
        // identify the triangle
        int best = -1, any = -1; double bu = 0, bv = 0, tol = 1e-6 * std::max(1., glm::length(s->geom.p)), bd = tol;
        for (size_t i = 0; i < w.size(); i++) {
            if (w[i].A <= 1e-14) continue;
            Vec3 e1 = w[i].p[1] - w[i].p[0], e2 = w[i].p[2] - w[i].p[0], q = s->geom.p - w[i].p[0];
            double a = glm::dot(e1, e1), b = glm::dot(e1, e2), c = glm::dot(e2, e2), d1 = glm::dot(q, e1), d2 = glm::dot(q, e2), det = a * c - b * b;
            double u = (c * d1 - b * d2) / det, v = (a * d2 - b * d1) / det;
            double dist = glm::length(q - e1 * u - e2 * v) + std::max({ 0., -u, -v, u + v - 1 });
            if (dist >= tol) continue;
            any = (int)i;
            if (glm::length(s->geom.gn - w[i].n) < 1e-6 && dist < bd) { bd = dist; best = (int)i; bu = u; bv = v; }   // points on shared edges belong to the triangle whose normal they carry
        }
        if (best < 0 && any >= 0) { violation(K + "normal", "sampled point " + str(s->geom.p) + " carries the normal " + str(s->geom.gn) + ", none of the triangles there has it (one has " + str(w[any].n) + ")" + ctx()); continue; }
        if (best < 0) { violation(K + "position", "sampled point " + str(s->geom.p) + " is not on the emitter" + ctx()); continue; }
        hist[best]++; su.add(bu); sv.add(bv); suv.add(bu * bv);
        VH_CHECK(glm::length(s->geom.n - w[best].n) < 1e-6 && glm::length(s->geom.gn - w[best].n) < 1e-6, K + "normal", "normal " << str(s->geom.n) << " expected " << str(w[best].n) << ctx());
        VH_CHECK(!s->geom.degenerated && !s->geom.infinite, K + "geometry", "a point on an area light must be a finite surface point" << ctx());
        double p = L->pdf_position(s->geom, tr);
        // density of a uniformly chosen point: probability of its triangle over the (transformed) area
        double pe = w[best].lA / lA / w[best].A;
        VH_CHECK(close(p, pe, 1e-6), K + "position-density", "density " << p << " expected " << pe << ctx());
        VH_CHECK(close(s->weight, Vec3(1 / p), 1e-9), K + "position-weight", "weight " << str(s->weight) << " density " << p << ctx());
        // rays
        auto ray = L->sample_ray({ r.v2(), r.u(), r.v2() }, tr);
        if (!ray) { violation(K + "ray-none", "no ray sampled" + ctx()); continue; }
        double pr = L->pdf_ray(ray->geom, ray->wo, tr, false);
        Vec3 le = L->eval(ray->geom, ray->wo, false);
        double cs = glm::dot(ray->wo, ray->geom.n);
        VH_CHECK(std::fabs(glm::length(ray->wo) - 1) < 1e-6 && cs >= -1e-9, K + "ray-direction", "emitted direction into the back side" << ctx());
        if (cs > 1e-9) {
            VH_CHECK(close(le, Ke, 1e-9), K + "radiance", "radiance " << str(le) << " expected " << str(Ke) << ctx());
            VH_CHECK(close(ray->weight * pr, le, 1e-6, 1e-12) && pr > 0, K + "ray-weight", "weight " << str(ray->weight) << " x density " << pr << " is not the radiance" << ctx());
            VH_CHECK(close(pr, L->pdf_position(ray->geom, tr) * L->pdf_direction(ray->geom, ray->wo), 1e-9), K + "ray-density", "ray density is not the product of position and direction densities" << ctx());
        }
        power.add(ray->weight.x);
        auto dsm = L->sample_direction({ r.v2() }, s->geom);
        if (dsm && glm::dot(dsm->wo, s->geom.n) > 1e-9) {
            double pd = L->pdf_direction(s->geom, dsm->wo);
            VH_CHECK(close(dsm->weight * pd, Ke, 1e-9) && close(pd, 1 / Pi, 1e-9), K + "direction-weight", "direction weight " << str(dsm->weight) << " density " << pd << ctx());
            direct[1].add(glm::dot(dsm->wo, s->geom.n));
        }
        Vec3 back = -ray->wo;
        if (glm::dot(back, ray->geom.n) < -1e-9) VH_CHECK(L->eval(ray->geom, back, false) == Vec3(0) && L->pdf_direction(ray->geom, back) == 0, K + "one-sided", "emits towards the back side" << ctx());
        // next-event sampling
        auto d = L->sample_direct({ r.v2(), r.u(), r.v2() }, rec, tr);
        direct[0].add(d ? d->weight.x : 0);
        if (d) {
            count("samples.direct");
            Vec3 wo = glm::normalize(rec.p - d->geom.p);
            VH_CHECK(glm::length(d->wo - wo) < 1e-7, K + "direct-direction", "direction does not lead to the receiver" << ctx());
            double pl = L->pdf_direct(rec, d->geom, tr, d->wo, false); Vec3 lv = L->eval(d->geom, d->wo, false);
            VH_CHECK(pl > 0 && close(d->weight * pl, lv, 1e-6, 1e-12), K + "direct-weight", "weight " << str(d->weight) << " x density " << pl << " is not the radiance " << str(lv) << ctx());
            double g = G(rec, d->geom.p, d->geom.n, true);
            VH_CHECK(close(pl * g, L->pdf_position(d->geom, tr), 1e-6, 1e-12), K + "direct-density", "projected solid angle density " << pl << " does not convert to the area density" << ctx());
        }
    }
    // receivers at any distance
    for (int q = 0; q < 6; q++) {
        PointGeometry far = receiver(r, w[r.i((int)w.size())].p[0] + r.dir() * std::pow(10., r.u(-1, 5)), r.p(.6)); int front = 0, got = 0; const int n = 60;
        for (int k = 0; k < n; k++) {
            auto s = L->sample_position({ r.v2(), r.u() }, tr); if (!s) continue;
            Vec3 wo = glm::normalize(far.p - s->geom.p); const double c = glm::dot(wo, s->geom.n), cr = far.degenerated ? 1 : std::fabs(glm::dot(wo, far.n)); if (std::fabs(c) < 1e-3 || cr < 1e-3) continue;
            const double pl = L->pdf_direct(far, s->geom, tr, wo, false), g = G(far, s->geom.p, s->geom.n, true); count("far connections");
            if (c < 0) { VH_CHECK(pl == 0, K + "far-back", "density " << pl << " of a connection to the back side" << ctx()); continue; }
            front++; VH_CHECK(close(pl * g, L->pdf_position(s->geom, tr), 1e-6), K + "far-density", "density " << pl << " of a connection over the distance " << glm::length(far.p - s->geom.p) << " does not convert to the area density" << ctx());
            auto d = L->sample_direct({ r.v2(), r.u(), r.v2() }, far, tr); if (d) { got++; const double pd = L->pdf_direct(far, d->geom, tr, d->wo, false); VH_CHECK(pd > 0 && close(d->weight * pd, L->eval(d->geom, d->wo, false), 1e-6), K + "far-weight", "weight " << str(d->weight) << " of a connection over the distance " << glm::length(far.p - d->geom.p) << ctx()); }
        }
        VH_CHECK(front < .6 * n || got > 0, K + "far-none", "no connection over the distance " << glm::length(far.p - w[0].p[0]) << ctx());
    }
    for (size_t i = 0; i < w.size(); i++) { double p = w[i].lA / lA, h = (double)hist[i] / N; VH_CHECK(std::fabs(h - p) < 6.5 * std::sqrt(std::max(p, 1. / N) / N) + .002, K + "triangle-frequency", "triangle " << i << " chosen with frequency " << h << ", area fraction " << p << ctx()); }
    VH_CHECK(std::fabs(su.m - 1 / 3.) < 6.5 * su.se() + 1e-3 && std::fabs(sv.m - 1 / 3.) < 6.5 * sv.se() + 1e-3 && std::fabs(suv.m - 1 / 12.) < 6.5 * suv.se() + 1e-3, K + "uniform-on-triangle", "barycentric moments " << su.m << " " << sv.m << " " << suv.m << ctx());
    VH_CHECK(std::fabs(power.m - Pi * A * Ke.x) < 6.5 * power.se() + 1e-6 * power.m, K + "power", "expected ray weight " << power.m << " is not the emitted power " << Pi * A * Ke.x << ctx());
    VH_CHECK(std::fabs(direct[1].m - 2 / 3.) < 6.5 * direct[1].se() + 1e-3, K + "cosine", "mean emission cosine " << direct[1].m << ctx());
    if (near > .8) VH_CHECK(std::fabs(direct[0].m - ref) < 7 * direct[0].se() + .01 * ref + 1e-9, K + "direct-expectation", "next-event estimate " << direct[0].m << " expected " << ref << ctx());
    count("expectations", 4);
}

static void simple_lights(Rand& r, long long id) {
    // point
    {
        Vec3 Le = r.v3(.1, 5), pos = r.v3(-3, 3);
        auto* L = lm::load<Light>("lpoint", "light::point", { {"Le", {Le.x, Le.y, Le.z}}, {"position", {pos.x, pos.y, pos.z}} });
        cover("light", "point");
        Stat pw; Transform tr(Mat4(1.0));
        VH_CHECK(!L->is_infinite() && !L->is_env(), "point:flags", "wrong classification");
        for (int k = 0; k < 400; k++) {
            auto s = L->sample_ray({ r.v2(), r.u(), r.v2() }, tr); count("samples");
            if (!s) { violation("point:none", "no ray"); break; }
            VH_CHECK(close(s->geom.p, pos, 1e-12) && s->geom.degenerated && !s->geom.infinite, "point:position", "ray starts at " << str(s->geom.p));
            VH_CHECK(std::fabs(glm::length(s->wo) - 1) < 1e-9, "point:direction", "not a unit direction");
            VH_CHECK(close(s->weight * L->pdf_ray(s->geom, s->wo, tr, false), L->eval(s->geom, s->wo, false), 1e-9) && close(L->eval(s->geom, s->wo, false), Le, 1e-12) && close(L->pdf_ray(s->geom, s->wo, tr, false), 1 / (4 * Pi), 1e-9), "point:weight", "weight " << str(s->weight));
            auto ds = L->sample_direction({ r.v2() }, s->geom); auto ps = L->sample_position({ r.v2(), r.u() }, tr);
            VH_CHECK(ds && close(ds->weight * L->pdf_direction(s->geom, ds->wo), Le, 1e-9), "point:direction-weight", "direction weight");
            VH_CHECK(ps && close(ps->weight * L->pdf_position(ps->geom, tr), Vec3(1), 1e-9) && close(ps->geom.p, pos, 1e-12), "point:position-weight", "position weight");
            auto rec = receiver(r, r.v3(-6, 6), k & 1);
            auto d = L->sample_direct({ r.v2(), r.u(), r.v2() }, rec, tr);
            double g = G(rec, pos, Vec3(0), false);
            if (d) VH_CHECK(close(d->weight, Le * g, 1e-7) && glm::length(d->wo - glm::normalize(rec.p - pos)) < 1e-9 && close(d->weight * L->pdf_direct(rec, d->geom, tr, d->wo, false), Le, 1e-7), "point:direct", "direct weight " << str(d->weight) << " expected " << str(Le * g));
            else VH_CHECK(g < 1e-12, "point:direct", "no direct sample");
        }
    }
    // directional and constant environment, bounded by the scene
    Vec3 lo = r.v3(-5, 0), hi = lo + r.v3(.1, 4);
    lm::Bound b; b.min = lo; b.max = hi;
    auto disk = [&](Light* L, const std::string& K, bool dir, Vec3 dd, std::function<Vec3(Vec3)> Lref) {
        Transform tr(Mat4(1.0));
        L->set_scene_bound(b);
        VH_CHECK(L->is_infinite(), K + "flags", "not classified as infinitely distant");
        double R2 = 0; Vec3 c(0); Stat rr, mu[3]; double rmax = 0;
        const int N = 3000;
        for (int k = 0; k < N; k++) {
            auto s = L->sample_ray({ r.v2(), r.u(), r.v2() }, tr); count("samples");
            if (!s) { violation(K + "none", "no ray"); return; }
            double p = L->pdf_ray(s->geom, s->wo, tr, false); Vec3 le = L->eval(s->geom, s->wo, false);
            VH_CHECK(s->geom.infinite && glm::length(s->geom.wo - s->wo) < 1e-9 && std::fabs(glm::length(s->wo) - 1) < 1e-9, K + "geometry", "ray geometry");
            VH_CHECK(p > 0 && close(s->weight * p, le, 1e-7, 1e-12), K + "ray-weight", "weight " << str(s->weight) << " x density " << p << " is not the radiance " << str(le));
            VH_CHECK(close(le, Lref(-s->wo), 1e-5, 1e-9), K + "radiance", "radiance " << str(le) << " expected " << str(Lref(-s->wo)) << " for direction " << str(-s->wo));
            double pd = dir ? 1 : 1 / (4 * Pi);
            R2 = pd / (p * Pi);           // squared radius of the disk the positions come from
            c = (lo + hi) * .5;
            Vec3 q = s->geom.p - c; double along = glm::dot(q, s->wo); Vec3 perp = q - along * s->wo;
            double d2 = glm::dot(perp, perp);
            VH_CHECK(d2 <= R2 * (1 + 1e-9), K + "disk", "position outside of the disk its density describes: " << std::sqrt(d2) << " > " << std::sqrt(R2));
            VH_CHECK(along <= -glm::length(hi - c) * .999, K + "outside", "ray starts inside of the scene");
            rr.add(d2 / R2); rmax = std::max(rmax, d2 / R2);
            if (dir) VH_CHECK(glm::length(s->wo - dd) < 1e-9, K + "direction", "direction " << str(s->wo) << " expected " << str(dd));
            else for (int a = 0; a < 3; a++) mu[a].add(s->wo[a] * s->wo[a]);
        }
        VH_CHECK(std::sqrt(R2) >= glm::length(hi - c), K + "cover", "the emitting disk (radius " << std::sqrt(R2) << ") does not cover the scene (radius " << glm::length(hi - c) << ")");
        VH_CHECK(std::fabs(rr.m - .5) < 6.5 * rr.se() + 1e-3 && rmax > .98, K + "disk-uniform", "positions are not uniform on the disk: mean squared radius fraction " << rr.m);
        if (!dir) for (int a = 0; a < 3; a++) VH_CHECK(std::fabs(mu[a].m - 1 / 3.) < 6.5 * mu[a].se() + 1e-3, K + "sphere-uniform", "directions are not uniform: second moment " << mu[a].m);
        count("expectations", 2);
    };
    {
        Vec3 Le = r.v3(.1, 5), d0 = r.dir() * r.u(.1, 4), dd = glm::normalize(d0);
        auto* L = lm::load<Light>("ldir", "light::directional", { {"Le", {Le.x, Le.y, Le.z}}, {"direction", {d0.x, d0.y, d0.z}} });
        cover("light", "directional");
        VH_CHECK(L->is_specular() && !L->is_env(), "directional:flags", "wrong classification");
        disk(L, "directional:", true, dd, [&](Vec3) { return Le; });
        Transform tr(Mat4(1.0));
        for (int k = 0; k < 100; k++) {
            auto rec = receiver(r, r.v3(-4, 4), k & 1);
            auto d = L->sample_direct({ r.v2(), r.u(), r.v2() }, rec, tr); count("samples.direct");
            double cs = rec.degenerated ? 1 : std::fabs(glm::dot(rec.n, dd));
            if (d) {
                VH_CHECK(glm::length(d->wo - dd) < 1e-9 && d->geom.infinite && close(d->weight, Le * cs, 1e-7), "directional:direct", "direct weight " << str(d->weight) << " expected " << str(Le * cs));
                VH_CHECK(L->pdf_direct(rec, d->geom, tr, d->wo, true) == 0 && L->eval(d->geom, d->wo, true) == Vec3(0), "directional:delta", "a delta light evaluates to something non-zero");
            } else VH_CHECK(cs < 1e-9, "directional:direct", "no direct sample");
        }
    }
    {
        Vec3 Le = r.v3(.1, 5);
        auto* L = lm::load<Light>("lec", "light::envconst", { {"Le", {Le.x, Le.y, Le.z}} });
        cover("light", "envconst");
        VH_CHECK(!L->is_specular() && L->is_env(), "envconst:flags", "wrong classification");
        disk(L, "envconst:", false, Vec3(0), [&](Vec3) { return Le; });
        Transform tr(Mat4(1.0)); Stat e; auto rec = receiver(r, r.v3(-1, 1), id & 1);
        for (int k = 0; k < 3000; k++) {
            auto d = L->sample_direct({ r.v2(), r.u(), r.v2() }, rec, tr); count("samples.direct");
            e.add(d ? d->weight.x : 0);
            if (d) { double p = L->pdf_direct(rec, d->geom, tr, d->wo, false); VH_CHECK(d->geom.infinite && close(d->weight * p, Le, 1e-7) && glm::length(d->geom.wo - d->wo) < 1e-12, "envconst:direct", "direct weight");
                double cs = rec.degenerated ? 1 : std::fabs(glm::dot(rec.n, d->wo)); if (cs > 1e-6) VH_CHECK(close(p, 1 / (4 * Pi) / cs, 1e-7), "envconst:direct-density", "density " << p); }
        }
        double want = Le.x * (rec.degenerated ? 4 * Pi : 2 * Pi);
        VH_CHECK(std::fabs(e.m - want) < 6.5 * e.se() + 1e-6 * want, "envconst:direct-expectation", "estimate " << e.m << " expected " << want);
        count("expectations");
    }
    // environment map
    {
        Img im; im.w = r.i(1, 12); im.h = r.i(1, 9); im.c = 3; im.d.resize(3 * im.w * im.h);
        int style = r.i(4);
        for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) for (int c = 0; c < 3; c++) {
            float v = (float)r.u(0, 2);
            if (style == 1 && y >= (im.h + 1) / 2) v = 0;                 // dark lower half
            if (style == 2 && !(x == im.w / 2 && y == im.h / 2)) v *= .01f;   // one bright spot
            if (style == 3 && r.p(.5)) v = 0;
            im.d[3 * (im.w * y + x) + c] = v;
        }
        im.d[0] = 1;
        std::string path = scratch() + "/env.hdr"; write_hdr(path, im);
        double rot = r.p(.3) ? 0 : r.u(-400, 400), sc = r.p(.3) ? 1 : r.u(.1, 4); bool flip = r.p(.5);
        Json p{ {"path", path}, {"rot", rot}, {"flip", flip} }; if (sc != 1) p["scale"] = sc;
        auto* L = lm::load<Light>("lenv", "light::env", p);
        if (!L) { violation("env:create", "not created"); return; }
        std::ostringstream o; o << " [env map " << im.w << "x" << im.h << " style " << style << " rot " << rot << " scale " << sc << " flip " << flip << "]";
        std::string ctx = o.str();
        cover("light", "env/style" + std::to_string(style) + (flip ? "f" : ""));
        VH_CHECK(!L->is_specular() && L->is_env(), "env:flags", "wrong classification");
        auto uvof = [&](Vec3 d, double& u, double& v) { double at = std::atan2(d.x, d.z) - glm::radians(rot); u = at / (2 * Pi); u -= std::floor(u); v = std::acos(std::clamp(d.y, -1., 1.)) / Pi; };
        auto pix = [&](double u, double v, int c) { int x = std::min(im.w - 1, (int)(u * im.w)), y = std::min(im.h - 1, (int)(v * im.h)); if (flip) y = im.h - 1 - y; return sc * im.at(x, y, c); };
        auto edge = [&](double u, double v) { double a = u * im.w, b = v * im.h; return std::fabs(a - std::round(a)) < 1e-7 || std::fabs(b - std::round(b)) < 1e-7; };
        auto Lref = [&](Vec3 d) { double u, v; uvof(d, u, v); return Vec3(pix(u, v, 0), pix(u, v, 1), pix(u, v, 2)); };
        Transform tr(Mat4(1.0));
        disk(L, "env:", false, Vec3(0), [&](Vec3 d) { double u, v; uvof(d, u, v); return edge(u, v) ? L->eval(PointGeometry::make_infinite(-d), -d, false) : Lref(d); });
        auto rec = receiver(r, r.v3(-1, 1), id & 1);
        // reference integrals on a fine grid aligned with the texels
        double ref = 0, ptot = 0; const int q = 24; std::vector<double> pbin(im.w * im.h, 0);
        for (int y = 0; y < im.h * q; y++) for (int x = 0; x < im.w * q; x++) {
            double v = (y + .5) / (im.h * q), u = (x + .5) / (im.w * q), th = Pi * v, ph = 2 * Pi * u + glm::radians(rot);
            Vec3 d(sin(th) * sin(ph), cos(th), sin(th) * cos(ph));
            double dw = (2 * Pi / (im.w * q)) * (cos(Pi * y / (im.h * q)) - cos(Pi * (y + 1) / (im.h * q)));
            double cs = rec.degenerated ? 1 : std::fabs(glm::dot(rec.n, d));
            auto gl = PointGeometry::make_infinite(-d);
            double pd = L->pdf_direct(rec, gl, tr, -d, false);
            VH_CHECK(std::isfinite(pd) && pd >= 0, "env:density", "density " << pd << " towards " << str(d) << ctx);
            Vec3 lv = L->eval(gl, -d, false);
            VH_CHECK(close(lv, Lref(d), 1e-5, 1e-9), "env:radiance", "radiance " << str(lv) << " expected " << str(Lref(d)) << " towards " << str(d) << ctx);
            VH_CHECK(!(lv.x + lv.y + lv.z > 0 && pd == 0 && cs > 1e-9), "env:support", "emitting direction is never sampled" << ctx);
            double m = pd * cs * dw; ptot += m; pbin[(y / q) * im.w + x / q] += m; ref += pix(u, v, 0) * cs * dw;
            count("evaluations");
        }
        VH_CHECK(std::fabs(ptot - 1) < 5e-3, "env:normalisation", "direct density integrates to " << ptot << ctx);
        Stat e; const int N = (int)n_cases(6000, 60000); std::vector<long> hist(im.w * im.h, 0);
        for (int k = 0; k < N; k++) {
            auto d = L->sample_direct({ r.v2(), r.u(), r.v2() }, rec, tr); count("samples.direct");
            e.add(d ? d->weight.x : 0);
            if (!d) continue;
            double pl = L->pdf_direct(rec, d->geom, tr, d->wo, false); Vec3 le = L->eval(d->geom, d->wo, false);
            VH_CHECK(pl > 0 && close(d->weight * pl, le, 1e-6, 1e-12) && d->geom.infinite && glm::length(d->geom.wo - d->wo) < 1e-9 && std::fabs(glm::length(d->wo) - 1) < 1e-9, "env:direct-weight", "weight " << str(d->weight) << " x density " << pl << " is not the radiance " << str(le) << ctx);
            double u, v; uvof(-d->wo, u, v); hist[std::min(im.h - 1, (int)(v * im.h)) * im.w + std::min(im.w - 1, (int)(u * im.w))]++;
        }
        for (size_t i = 0; i < hist.size(); i++) { double pb = pbin[i], h = (double)hist[i] / N; VH_CHECK(std::fabs(h - pb) < 6.5 * std::sqrt(std::max(pb, 1. / N) / N) + .005 * pb + .002, "env:distribution", "texel " << i << " sampled with frequency " << h << " but its density integrates to " << pb << ctx); }
        VH_CHECK(std::fabs(e.m - ref) < 7 * e.se() + .01 * ref + 1e-9, "env:direct-expectation", "next-event estimate " << e.m << " expected " << ref << ctx);
        // poles and axis directions
        for (int a = 0; a < 6; a++) { Vec3 d(0); d[a / 2] = a & 1 ? -1 : 1; auto gl = PointGeometry::make_infinite(-d); double pd = L->pdf_direct(rec, gl, tr, -d, false); Vec3 lv = L->eval(gl, -d, false); VH_CHECK(std::isfinite(pd) && pd >= 0 && finite(lv), "env:poles", "density " << pd << " radiance " << str(lv) << " along an axis" << ctx); }
        count("expectations", 2);
    }
}

int main(int argc, char** argv) {
    parse(argc, argv);
    lm_init(1);
    const int part = atoi(args().part.c_str()), parts = args().extra.count("parts") ? atoi(args().extra["parts"].c_str()) : 1;
    const long long rounds = n_cases(140, 1400);
    for (long long rd = part; rd < rounds; rd += parts) {
        if (!want(rd)) continue;
        Rand r(args().seed * 104729 + rd);
        begin_case("area light round " + std::to_string(rd));
        area_light(r, rd);
        begin_case("other lights round " + std::to_string(rd));
        simple_lights(r, rd);
    }
    return finish();
}
