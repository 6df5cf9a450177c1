// P13: the pinhole camera.  Primary rays, raster positions, importance, densities, connections and
// matrices are compared with each other and with the look-at geometry.
#include "vscene.h"
#include <lm/camera.h>
#include <lm/surface.h>
using namespace vh;
using lm::PointGeometry; using lm::Camera; using lm::Pi;

static void camera(Rand& r, long long id) {
    bool by_matrix = id % 4 == 3;
    Vec3 pos = r.v3(-5, 5), w = r.dir(), up = r.dir();
    while (glm::length(glm::cross(up, w)) < .05) up = r.dir();
    if (r.p(.3)) { up = Vec3(0, 1, 0); w = glm::normalize(Vec3(r.u(-1, 1), r.u(-.5, .5), r.u(.2, 1))); }
    double dist = std::pow(10., r.u(-2, 2)), vfov = r.p(.2) ? r.u(1, 10) : r.p(.2) ? r.u(120, 170) : r.u(15, 100), aspect = r.p(.3) ? 1 : r.u(.2, 4);
    Vec3 ctr = pos - w * dist;                     // the camera looks along -w
    Vec3 u = glm::normalize(glm::cross(up, w)), v = glm::cross(w, u);
    Json p{ {"vfov", vfov}, {"aspect", aspect} };
    if (by_matrix) {
        Mat4 M(1.0); M[0] = Vec4(-u, 0); M[1] = Vec4(v, 0); M[2] = Vec4(-w, 0); M[3] = Vec4(pos, 1);
        p["matrix"] = M;
    } else { p["position"] = { pos.x, pos.y, pos.z }; p["center"] = { ctr.x, ctr.y, ctr.z }; Vec3 us = up * r.u(.1, 5); p["up"] = { us.x, us.y, us.z }; }
    auto* C = lm::load<Camera>("cam", "camera::pinhole", p);
    if (!C) { violation("camera:create", "not created"); return; }
    if (r.p(.4)) { aspect = r.u(.2, 4); C->set_aspect_ratio(aspect); cover("camera", "aspect changed"); }
    std::ostringstream o; o << " [vfov " << vfov << " aspect " << aspect << (by_matrix ? " by matrix" : "") << "]"; auto ctx = o.str();
    cover("camera", std::string(by_matrix ? "matrix" : "look-at") + (vfov < 11 ? "/narrow" : vfov > 119 ? "/wide" : ""));
    double tf = std::tan(vfov * Pi / 360);
    auto refdir = [&](Vec2 rp) { Vec2 q = rp * 2. - 1.; return glm::normalize(u * (aspect * tf * q.x) + v * (tf * q.y) - w); };
    double A = 4 * tf * tf * aspect;
    Mat4 V = C->view_matrix(), P = C->projection_matrix();
    auto geomE = PointGeometry::make_degenerated(pos);
    Stat quad;                                          // integral of the density over the view
    for (int k = 0; k < 400; k++) {
        Vec2 rp = k < 4 ? Vec2(k & 1 ? .999999 : 1e-6, k & 2 ? .999999 : 1e-6) : k == 4 ? Vec2(.5) : r.v2();
        auto ray = C->primary_ray(rp); Vec3 d = refdir(rp); count("rays");
        VH_CHECK(close(ray.o, pos, 1e-12) && glm::length(ray.d - d) < 1e-6, "camera:primary", "ray through " << str(rp) << " goes along " << str(ray.d) << " expected " << str(d) << ctx);
        auto q = C->raster_position(ray.d);
        if (rp.x > 1e-7 && rp.x < 1 - 1e-7 && rp.y > 1e-7 && rp.y < 1 - 1e-7) {
            VH_CHECK(q && std::fabs(q->x - rp.x) < 1e-7 && std::fabs(q->y - rp.y) < 1e-7, "camera:roundtrip", "the ray through " << str(rp) << " projects to " << (q ? str(*q) : "nothing") << ctx);
            // importance: solid angle density of a uniformly distributed raster position
            double c = -glm::dot(d, w), J = 1 / (A * c * c * c);
            double pd = C->pdf_direction(geomE, ray.d); Vec3 We = C->eval(ray.d);
            VH_CHECK(close(pd, J, 1e-6), "camera:density", "density " << pd << " expected " << J << " at " << str(rp) << ctx);
            VH_CHECK(close(We, Vec3(J), 1e-6), "camera:importance", "importance " << str(We) << " expected " << J << " at " << str(rp) << ctx);
            VH_CHECK(close(C->pdf_ray(geomE, ray.d), J, 1e-6) && close(C->pdf_position(geomE), 1, 1e-12), "camera:ray-density", "ray density" << ctx);
            // numerical Jacobian of the raster map
            double h = 1e-5; auto a = C->primary_ray(rp + Vec2(h, 0)).d, b = C->primary_ray(rp + Vec2(0, h)).d, e = C->primary_ray(rp - Vec2(h, 0)).d, f = C->primary_ray(rp - Vec2(0, h)).d;
            double dw = glm::length(glm::cross((a - e) / (2 * h), (b - f) / (2 * h)));
            VH_CHECK(close(pd * dw, 1, 1e-4), "camera:jacobian", "density " << pd << " times solid angle per raster area " << dw << " is not one" << ctx);
            // matrices
            Vec3 x = pos + d * r.u(.5, 50); Vec4 clip = P * V * Vec4(x, 1); Vec2 ndc(clip.x / clip.w, clip.y / clip.w);
            VH_CHECK(clip.w > 0 && std::fabs(ndc.x * .5 + .5 - rp.x) < 1e-6 && std::fabs(ndc.y * .5 + .5 - rp.y) < 1e-6, "camera:matrices", "the matrices project the ray through " << str(rp) << " to " << str(ndc * .5 + .5) << ctx);
        }
        lm::Camera::RaySampleU su; su.ud = rp;
        auto s = C->sample_ray(su);
        VH_CHECK(s && s->geom.degenerated && !s->geom.infinite && close(s->geom.p, pos, 1e-12) && glm::length(s->wo - d) < 1e-6 && close(s->weight, Vec3(1), 1e-9), "camera:sample-ray", "sampled ray at " << str(rp) << ctx);
        auto sd = C->sample_direction({ rp }, geomE);
        VH_CHECK(sd && glm::length(sd->wo - d) < 1e-6 && close(sd->weight, Vec3(1), 1e-9), "camera:sample-direction", "sampled direction at " << str(rp) << ctx);
        auto sp = C->sample_position({});
        VH_CHECK(sp && sp->geom.degenerated && close(sp->geom.p, pos, 1e-12) && close(sp->weight * C->pdf_position(sp->geom), Vec3(1), 1e-9), "camera:sample-position", "sampled position" << ctx);
    }
    for (int k = 0; k < 400; k++) {
        Vec3 d = r.dir(); double z = -glm::dot(d, w), x = glm::dot(d, u) / z / (tf * aspect) * .5 + .5, y = glm::dot(d, v) / z / tf * .5 + .5;
        bool in = z > 0 && x >= 0 && x <= 1 && y >= 0 && y <= 1;
        double margin = z > 0 ? std::min({ std::fabs(x), std::fabs(1 - x), std::fabs(y), std::fabs(1 - y) }) : std::fabs(z);
        if (margin < 1e-6 || std::fabs(z) < 1e-6) continue;
        auto q = C->raster_position(d); count("directions"); cover("view", in ? "inside" : z > 0 ? "beside" : "behind");
        VH_CHECK(bool(q) == in, "camera:frustum", "direction " << str(d) << " is " << (in ? "inside" : "outside") << " of the view" << ctx);
        if (q && in) VH_CHECK(std::fabs(q->x - x) < 1e-6 * std::max(1., std::fabs(x)) && std::fabs(q->y - y) < 1e-6, "camera:raster", "direction " << str(d) << " projects to " << str(*q) << " expected " << x << "," << y << ctx);
        double pd = C->pdf_direction(geomE, d); Vec3 We = C->eval(d); double J = in ? 1 / (A * z * z * z) : 0;
        VH_CHECK(close(pd, J, 1e-6) && close(We, Vec3(J), 1e-6), "camera:support", "density " << pd << " importance " << str(We) << " expected " << J << ctx);
        quad.add(pd * 4 * Pi);
        // connections
        bool surf = k & 1; const double dist = r.p(.2) ? std::pow(10., r.u(-2, 5)) : r.u(.1, 20); auto g = surf ? PointGeometry::make_on_surface(pos + d * dist, r.dir()) : PointGeometry::make_degenerated(pos + d * dist);
        auto s = C->sample_direct({}, g); double l2 = glm::dot(g.p - pos, g.p - pos), cs = surf ? std::fabs(glm::dot(g.n, d)) : 1, G = cs / l2;
        if (in && cs > 1e-6) {
            VH_CHECK(s.has_value(), "camera:direct-none", "no connection to a visible point" << ctx);
            if (s) {
                VH_CHECK(glm::length(s->wo - d) < 1e-6 && close(s->geom.p, pos, 1e-9) && s->geom.degenerated, "camera:direct-geometry", "connection leaves along " << str(s->wo) << ctx);
                VH_CHECK(close(s->weight, Vec3(J * G), 1e-6), "camera:direct-weight", "weight " << str(s->weight) << " expected " << J * G << ctx);
                VH_CHECK(close(s->weight * C->pdf_direct(g, s->geom, s->wo), C->eval(s->wo), 1e-6), "camera:direct-density", "weight times density is not the importance" << ctx);
            }
        } else if (!in && s) VH_CHECK(close(s->weight, Vec3(0), 0, 1e-12), "camera:direct-outside", "weight " << str(s->weight) << " of a connection from outside of the view" << ctx);
    }
    for (int k = 0; k < 4; k++) { auto gi = PointGeometry::make_infinite(k < 2 ? r.dir() : refdir(r.v2()) * (k == 2 ? 1. : -1.)); VH_CHECK(C->pdf_direct(gi, geomE, -gi.wo) == 0 && C->pdf_direct(gi, geomE, gi.wo) == 0 && !C->sample_direct({}, gi), "camera:direct-infinite", "connection to a point at infinity" << ctx); }
    VH_CHECK(C->is_connectable(geomE), "camera:connectable", "the camera cannot be connected to" << ctx);
    VH_CHECK(!C->sample_direct({}, PointGeometry::make_infinite(r.dir())), "camera:direct-infinite", "connection to a point at infinity" << ctx);
    auto j = C->underlying_value("");
    Vec3 eye = j["eye"], c2 = j["center"], up2 = j["up"];
    VH_CHECK(close(eye, pos, 1e-9) && close(double(j["vfov"]), vfov, 1e-9) && close(double(j["aspect"]), aspect, 1e-9) && glm::length(glm::normalize(eye - c2) - w) < 1e-6 && glm::length(glm::normalize(glm::cross(up2, w)) - u) < 1e-6, "camera:reported", "reported view " << j.dump() << ctx);
}

int main(int argc, char** argv) {
    parse(argc, argv);
    lm_init(1);
    const int part = atoi(args().part.c_str()), parts = args().extra.count("parts") ? atoi(args().extra["parts"].c_str()) : 1;
    const long long rounds = n_cases(1600, 40000);
    for (long long rd = part; rd < rounds; rd += parts) {
        if (!want(rd)) continue;
        Rand r(args().seed * 32452843 + rd);
        begin_case("camera round " + std::to_string(rd));
        camera(r, rd);
    }
    return finish();
}
