// P16: sampling primitives, discrete distributions, the random number generator and geometry helpers.
#include "vscene.h"
#include <lm/surface.h>
using namespace vh;
using lm::Pi; using lm::Dist; using lm::Dist2; using lm::Rng; using lm::PointGeometry;
namespace m = lm::math;

static std::vector<double> weights(Rand& r, int n, int style) {
    std::vector<double> w(n);
    for (int i = 0; i < n; i++) {
        double v = r.u(.01, 1);
        if (style == 1 && r.p(.5)) v = 0;
        if (style == 2) v = std::pow(10., r.u(-12, 12));
        if (style == 3 && (i < n / 3 || i > 2 * n / 3)) v = 0;
        if (style == 4) v = 1;
        if (style == 5 && i != n / 2) v = 0;
        w[i] = v;
    }
    double s = 0; for (double v : w) s += v;
    if (s == 0) w[r.i(n)] = 1;
    return w;
}

static void dist1(Rand& r) {
    int n = r.p(.1) ? 1 : r.p(.2) ? r.i(100, 3000) : r.i(2, 40), style = r.i(6);
    auto w = weights(r, n, style);
    Dist d;
    VH_CHECK(d.empty(), "dist:empty", "a new distribution is not empty");
    if (r.p(.3)) { d.add(3); d.add(5); d.norm(); d.clear(); VH_CHECK(d.empty(), "dist:clear", "not empty after clear"); }
    for (double v : w) d.add(v);
    VH_CHECK(!d.empty(), "dist:empty", "empty after adding");
    d.norm();
    long double sum = 0; for (double v : w) sum += v;
    std::string ctx = " [n=" + std::to_string(n) + " style=" + std::to_string(style) + "]";
    cover("dist", "style" + std::to_string(style) + (n == 1 ? "/one" : n < 50 ? "/small" : "/large"));
    double tot = 0; std::vector<double> cdf(n + 1, 0); long double acc = 0;
    for (int i = 0; i < n; i++) {
        double p = d.pmf(i); tot += p; acc += w[i]; cdf[i + 1] = (double)(acc / sum);
        VH_CHECK(std::fabs(p - (double)(w[i] / sum)) < 1e-12, "dist:pmf", "probability of " << i << " is " << p << " expected " << (double)(w[i] / sum) << ctx);
        VH_CHECK(p >= 0 && (w[i] > 0 || p == 0), "dist:pmf-zero", "an element of zero weight has probability " << p << ctx);
        count("evaluations");
    }
    VH_CHECK(std::fabs(tot - 1) < 1e-9, "dist:sum", "probabilities add up to " << tot << ctx);
    VH_CHECK(d.pmf(-1) == 0 && d.pmf(n) == 0 && d.pmf(n + 7) == 0, "dist:outside", "non-zero probability outside of the domain" << ctx);
    for (int k = 0; k < 300; k++) {
        double u = k == 0 ? 0 : k == 1 ? std::nextafter(1., 0.) : k == 2 ? 1 : k < 20 ? cdf[r.i(n + 1)] : r.u();
        int i = d.sample(u); count("samples");
        if (i < 0 || i >= n) { violation("dist:range", "sampled index " + std::to_string(i) + ctx); continue; }
        if (u < 1) VH_CHECK(d.pmf(i) > 0, "dist:zero-probability", "element " << i << " of probability zero sampled for u=" << u << ctx);
        VH_CHECK(cdf[i] <= u + 1e-12 && u <= cdf[i + 1] + 1e-12, "dist:inverse", "u=" << u << " mapped to " << i << " with cumulative range " << cdf[i] << ".." << cdf[i + 1] << ctx);
    }
}

static void dist2(Rand& r) {
    int w = r.i(1, 20), h = r.i(1, 20);
    Dist2 d;
    for (int rep = 0; rep < 2; rep++) {                  // a second initialisation replaces the first
        if (rep) { w = r.i(1, 20); h = r.i(1, 20); }
        auto v = weights(r, w * h, r.i(6));
        if (r.p(.3)) { int row = r.i(h); double s = 0; for (int i = 0; i < w * h; i++) if (i / w != row) s += v[i]; if (s > 0) for (int i = 0; i < w; i++) v[row * w + i] = 0; }
        d.init(v, w, h);
        long double sum = 0; for (double x : v) sum += x;
        std::ostringstream cs; cs << " [" << w << "x" << h << " init " << rep + 1 << "]"; auto ctx = cs.str();
        cover("dist2", std::string(rep ? "again" : "first") + (w == 1 || h == 1 ? "/thin" : ""));
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
            double p = d.pdf((x + r.u(.01, .99)) / w, (y + r.u(.01, .99)) / h), e = (double)(v[y * w + x] / sum) * w * h;
            VH_CHECK(close(p, e, 1e-6, 1e-9 * w * h), "dist2:density", "density " << p << " of cell " << x << "," << y << " expected " << e << ctx); count("evaluations");
        }
        for (int k = 0; k < 300; k++) {
            Vec4 u(k == 0 ? 0 : k == 1 ? std::nextafter(1., 0.) : r.u(), k == 0 ? 0 : k == 1 ? std::nextafter(1., 0.) : r.u(), r.u(.001, .999), r.u(.001, .999));
            Vec2 s = d.sample(u); count("samples");
            if (!(s.x >= 0 && s.x < 1 && s.y >= 0 && s.y < 1)) { violation("dist2:range", "sample " + str(s) + ctx); continue; }
            int x = (int)(s.x * w), y = (int)(s.y * h);
            VH_CHECK(d.pdf(s.x, s.y) > 0 && v[y * w + x] > 0, "dist2:zero", "cell of weight zero sampled" << ctx);
            VH_CHECK(close(s.x * w - x, u[2], 1e-6) && close(s.y * h - y, u[3], 1e-6), "dist2:position", "position within the cell is not the given one" << ctx);
            long double ab = 0, at = 0; for (int j = 0; j < w * h; j++) { if (j / w < y) ab += v[j]; if (j / w == y) at += v[j]; }
            VH_CHECK((double)(ab / sum) <= u[0] + 1e-9 && u[0] <= (double)((ab + at) / sum) + 1e-9, "dist2:inverse", "row " << y << " for u=" << u[0] << ctx);
            long double cb = 0; for (int j = 0; j < x; j++) cb += v[y * w + j];
            VH_CHECK((double)(cb / at) <= u[1] + 1e-9 && u[1] <= (double)((cb + v[y * w + x]) / at) + 1e-9, "dist2:inverse", "column " << x << " for u=" << u[1] << ctx);
        }
    }
}

static void rng(Rand& r) {
    int seed = r.p(.3) ? std::vector<int>{ 0, 1, -1, 2147483647, 42 }[r.i(5)] : (int)r.next();
    Rng a(seed), b(seed), c((int)((unsigned)seed + 1u));
    Stat mean, sq; int same = 0; double lo = 1, hi = 0, lag = 0, prev = .5;
    const int N = 4000; std::vector<int> bins(64, 0);
    for (int i = 0; i < N; i++) {
        double x = a.u(), y = b.u(), z = c.u(); count("samples");
        VH_CHECK(x == y, "rng:deterministic", "two generators with seed " << seed << " differ at number " << i);
        VH_CHECK(x >= 0 && x < 1, "rng:range", "number " << x);
        same += x == z; mean.add(x); sq.add(x * x); lo = std::min(lo, x); hi = std::max(hi, x); bins[(int)(x * 64) & 63]++; lag += (x - .5) * (prev - .5); prev = x;
    }
    // every bit of the seed matters
    for (int bit = 0; bit < 32; bit++) { const int s2 = (int)((unsigned)seed ^ (1u << bit)); Rng p(seed), q(s2); int eq = 0; for (int i = 0; i < 8; i++) eq += p.u() == q.u(); VH_CHECK(eq < 3, "rng:seeds", "seeds " << seed << " and " << s2 << " give the same numbers"); count("seed pairs"); }
    VH_CHECK(same < 3, "rng:seeds", "seeds " << seed << " and " << seed + 1 << " give the same numbers");
    VH_CHECK(std::fabs(mean.m - .5) < 6.5 * .289 / std::sqrt(N) && std::fabs(sq.m - 1 / 3.) < 6.5 * .3 / std::sqrt(N) && lo < .01 && hi > .99 && std::fabs(lag / N) < 6.5 / 12 / std::sqrt(N), "rng:uniform", "mean " << mean.m << " second moment " << sq.m << " range " << lo << ".." << hi);
    for (int x : bins) VH_CHECK(std::fabs(x - N / 64.) < 6.5 * std::sqrt(N / 64.), "rng:uniform", "bin count " << x);
    Rng e(seed), f(seed);
    for (int i = 0; i < 20; i++) {
        Vec3 v = e.next<Vec3>(); double x = f.u(), y = f.u(), z = f.u(); VH_CHECK(v == Vec3(x, y, z), "rng:vector", "a vector of numbers is not the next numbers of the stream");
        Vec2 q = e.next<Vec2>(); double s = f.u(), t = f.u(); VH_CHECK(q == Vec2(s, t), "rng:vector", "a vector of numbers is not the next numbers of the stream");
    }
    cover("rng", seed < 0 ? "negative" : seed == 0 ? "zero" : "positive");
}

static Vec3 unit(Rand& r) {
    switch (r.i(8)) {
    case 0: { Vec3 v(0); v[r.i(3)] = r.p(.5) ? 1 : -1; return v; }
    case 1: { double e = std::pow(10., r.u(-16, -2)), p = r.u(0, 2 * Pi); return glm::normalize(Vec3(e * cos(p), e * sin(p), r.p(.5) ? 1 : -1)); }
    case 2: { double p = r.u(0, 2 * Pi); return Vec3(cos(p), sin(p), r.p(.5) ? 0. : -0.); }
    case 3: { double p = r.u(0, 2 * Pi), z = std::pow(10., r.u(-300, -4)) * (r.p(.5) ? 1 : -1); return glm::normalize(Vec3(cos(p), sin(p), z)); }
    default: return r.dir();
    }
}

static void geometry(Rand& r) {
    for (int k = 0; k < 200; k++) {
        Vec3 n = unit(r); auto [u, v] = m::orthonormal_basis(n); count("evaluations");
        double e = 1e-7;
        VH_CHECK(std::fabs(glm::length(u) - 1) < e && std::fabs(glm::length(v) - 1) < e && std::fabs(glm::dot(u, v)) < e && std::fabs(glm::dot(u, n)) < e && std::fabs(glm::dot(v, n)) < e, "basis:orthonormal", "basis of " << str(n) << ": " << str(u) << " " << str(v));
        VH_CHECK(glm::length(glm::cross(u, v) - n) < 1e-6, "basis:handed", "basis of " << str(n) << " is not right-handed");
        Vec3 w = r.dir();
        // two-sided frames
        auto g = PointGeometry::make_on_surface(r.v3(-3, 3), n, n);
        auto [fn, fu, fv] = g.orthonormal_basis_twosided(w);
        if (std::fabs(glm::dot(w, n)) > 1e-9) VH_CHECK(glm::dot(fn, w) > 0 && glm::length(glm::cross(fu, fv) - fn) < 1e-6 && std::fabs(std::fabs(glm::dot(fn, n)) - 1) < 1e-9, "basis:twosided", "two-sided frame of " << str(n) << " for " << str(w));
        VH_CHECK(glm::length(g.to_world * (g.to_local * w) - w) < 1e-6 && glm::length(g.to_local * n - Vec3(0, 0, 1)) < 1e-6, "frame:roundtrip", "local frame of " << str(n));
        Vec3 w2 = r.dir(); double pr = glm::dot(w, n) * glm::dot(w2, n);
        if (std::fabs(pr) > 1e-9) VH_CHECK(g.opposite(w, w2) == (pr < 0) && g.opposite(w2, w) == (pr < 0), "opposite", "sides of " << str(w) << " and " << str(w2));
        // reflection and refraction
        Vec3 rf = m::reflection(w, n);
        VH_CHECK(std::fabs(glm::length(rf) - 1) < e && std::fabs(glm::dot(rf, n) - glm::dot(w, n)) < e && glm::length(glm::cross(rf + w, n)) < e * 3, "reflection", "mirror direction of " << str(w) << " at " << str(n) << " is " << str(rf));
        Vec3 wi = glm::dot(w, n) < 0 ? -w : w; double eta = r.p(.2) ? 1 : r.u(.4, 2.5), ci = glm::dot(wi, n), s2 = eta * eta * (1 - ci * ci);
        if (std::fabs(s2 - 1) > 1e-6) {
            auto t = m::refraction(wi, n, eta);
            VH_CHECK(t.total == (s2 > 1), "refraction:total", "total internal reflection is " << t.total << " for sin2=" << s2);
            if (!t.total) {
                VH_CHECK(std::fabs(glm::length(t.wt) - 1) < 1e-6 && glm::dot(t.wt, n) < 0, "refraction:side", "refracted direction " << str(t.wt));
                Vec3 ti = wi - ci * n, tt = t.wt - glm::dot(t.wt, n) * n;
                VH_CHECK(glm::length(tt + eta * ti) < 1e-6, "refraction:snell", "tangential part " << str(tt) << " of " << str(ti) << " at eta " << eta);
            }
        }
        // triangles
        Vec3 a = r.v3(-3, 3), b = r.v3(-3, 3), c = r.v3(-3, 3), gn = m::geometry_normal(a, b, c), cr = glm::cross(b - a, c - a);
        if (glm::length(cr) > 1e-3) VH_CHECK(glm::length(gn - glm::normalize(cr)) < e, "normal", "normal of a triangle");
        Vec2 uv = r.v2(); if (uv.x + uv.y > 1) uv = Vec2(1) - uv;
        VH_CHECK(close(m::mix_barycentric(a, b, c, uv), a + (b - a) * uv.x + (c - a) * uv.y, 1e-12, 1e-12), "barycentric", "barycentric interpolation");
        double th = r.u(0, Pi), ph = r.u(0, 2 * Pi); Vec3 sc = m::spherical_to_cartesian(th, ph);
        VH_CHECK(close(sc, Vec3(sin(th) * cos(ph), sin(th) * sin(ph), cos(th)), 1e-12), "spherical", "spherical coordinates");
        VH_CHECK(close(m::local_cos(sc), cos(th), 1e-12, 1e-9) && close(m::local_sin(sc), std::fabs(sin(th)), 1e-6, 1e-7), "local", "local sine and cosine");
        { double a = r.u(0, 6.3); Vec3 up(0, 0, r.p(.5) ? 1 : -1), flat(std::cos(a), std::sin(a), 0); VH_CHECK(m::local_tan2(up) == 0 && m::local_tan(up) == 0, "local", "tangent at the pole"); VH_CHECK(m::local_tan2(flat) >= 1e9, "local", "tangent at the horizon is " << m::local_tan2(flat)); }
        if (std::fabs(cos(th)) > 1e-3 && std::fabs(sin(th)) > 1e-3) VH_CHECK(close(m::local_tan(sc), tan(th), 1e-6) && close(m::local_tan2(sc), tan(th) * tan(th), 1e-6), "local", "local tangent");
        VH_CHECK(m::safe_sqrt(-r.u()) == 0 && close(m::safe_sqrt(4 * th * th), 2 * th, 1e-12), "sqrt", "guarded square root");
        VH_CHECK(m::is_zero(Vec3(0)) && m::is_zero(Vec3(-0., 0, 0)) && !m::is_zero(Vec3(0, 1e-300, 0)), "zero", "zero test");
        // combination weights
        double p1 = r.p(.2) ? 0 : std::pow(10., r.u(-9, 9)), p2 = r.p(.2) ? 0 : std::pow(10., r.u(-9, 9)), w1 = m::balance_heuristic(p1, p2), w3 = m::balance_heuristic(p2, p1);
        VH_CHECK(w1 >= 0 && w1 <= 1 && (p1 == 0 ? w1 == 0 : close(w1 / p1, w1 > 0 ? 1 / (p1 + p2) : 0, 1e-9)), "balance:value", "weight " << w1 << " of " << p1 << "," << p2);
        if (p1 + p2 > 0) VH_CHECK(std::fabs(w1 + w3 - 1) < 1e-12, "balance:sum", "weights add up to " << w1 + w3);
        // transforms
        int tk = r.i(7); Mat4 M = gen_transform(r, tk); lm::Transform tr(M); Mat3 L(M); cover("transform", std::to_string(tk));
        Vec3 t1 = r.dir(), nn = glm::normalize(glm::cross(t1, r.dir()));
        Vec3 wn = tr.normal_M * nn;
        VH_CHECK(std::fabs(glm::dot(glm::normalize(wn), glm::normalize(L * t1))) < 1e-6 && glm::dot(wn, L * nn) > 0, "transform:normal", "transformed normal is not perpendicular to the transformed surface");
        Vec3 e0 = L * Vec3(1, 0, 0), e1 = L * Vec3(0, 1, 0), e2 = L * Vec3(0, 0, 1);
        VH_CHECK(close(tr.J, std::fabs(glm::dot(glm::cross(e0, e1), e2)), 1e-9) && tr.M == M, "transform:volume", "volume change " << tr.J);
    }
    // bounds
    for (int k = 0; k < 60; k++) {
        lm::Bound b; Vec3 lo(1e30), hi(-1e30); int n = r.i(1, 6);
        for (int i = 0; i < n; i++) { Vec3 p = r.v3(-3, 3); b = merge(b, p); lo = glm::min(lo, p); hi = glm::max(hi, p); }
        if (r.p(.5)) { lm::Bound c; for (int i = 0; i < 2; i++) { Vec3 p = r.v3(-3, 3); c = merge(c, p); lo = glm::min(lo, p); hi = glm::max(hi, p); } b = merge(b, c); }
        VH_CHECK(b.min == lo && b.max == hi && b[0] == lo && b[1] == hi && close(b.center(), (lo + hi) / 2., 1e-12), "bound:merge", "merged bounds");
        Vec3 d = hi - lo; VH_CHECK(close(b.surface_area(), 2 * (d.x * d.y + d.y * d.z + d.z * d.x), 1e-12), "bound:area", "surface area");
        for (int j = 0; j < 20; j++) {
            Vec3 o = r.v3(-5, 5), dir = r.p(.3) ? unit(r) : r.dir(); double t0 = r.p(.5) ? 0 : r.u(0, 3), t1 = r.p(.5) ? 1e10 : t0 + r.u(0, 8);
            double a = t0, c = t1; bool near = false;
            for (int i = 0; i < 3; i++) {
                if (std::fabs(dir[i]) < 1e-12) { if (o[i] < lo[i] - 1e-9 || o[i] > hi[i] + 1e-9) { a = 1; c = 0; break; } if (o[i] < lo[i] + 1e-9 || o[i] > hi[i] - 1e-9) near = true; continue; }
                double x = (lo[i] - o[i]) / dir[i], y = (hi[i] - o[i]) / dir[i]; if (x > y) std::swap(x, y); a = std::max(a, x); c = std::min(c, y);
            }
            if (near || std::fabs(a - c) < 1e-9) continue;
            bool hit = b.isect({ o, dir }, t0, t1); count("evaluations");
            VH_CHECK(hit == (a < c), "bound:ray", "box " << str(lo) << str(hi) << " ray " << str(o) << str(dir) << " range " << t0 << ".." << t1 << " answers " << hit);
            double x0 = t0, x1 = t1; bool h2 = b.isect_range({ o, dir }, x0, x1);
            VH_CHECK(h2 == hit && (!hit || (close(x0, a, 1e-9, 1e-9) && close(x1, c, 1e-9, 1e-9))), "bound:range", "range " << x0 << ".." << x1 << " expected " << a << ".." << c);
        }
    }
    // geometry terms between all kinds of points
    for (int k = 0; k < 200; k++) {
        auto mk = [&](int t) { Vec3 p = r.v3(-4, 4); return t == 0 ? PointGeometry::make_on_surface(p, r.dir()) : t == 1 ? PointGeometry::make_degenerated(p) : PointGeometry::make_infinite(r.dir()); };
        int t1 = r.i(3), t2 = r.i(3); if (t1 == 2 && t2 == 2) continue;
        auto a = mk(t1), b = mk(t2);
        Vec3 d = t1 == 2 ? -a.wo : t2 == 2 ? b.wo : a.p - b.p; double l2 = t1 == 2 || t2 == 2 ? 1 : glm::dot(d, d); d /= glm::length(d);
        double e = (t1 == 0 ? std::fabs(glm::dot(a.n, d)) : 1) * (t2 == 0 ? std::fabs(glm::dot(b.n, d)) : 1) / l2;
        double g = lm::surface::geometry_term(a, b); count("evaluations"); cover("geometry term", std::to_string(t1) + std::to_string(t2));
        VH_CHECK(close(g, e, 1e-6, 1e-9), "geometry-term", "geometry term " << g << " expected " << e << " for kinds " << t1 << "," << t2);
        VH_CHECK(close(lm::surface::geometry_term(b, a), g, 1e-12), "geometry-term:symmetric", "geometry term depends on the order");
        double ps = r.u(.1, 3); Vec3 w = r.dir(); double cs = t1 == 0 ? std::fabs(glm::dot(a.n, w)) : 1;
        if (t1 != 2 && cs > 1e-3) VH_CHECK(close(lm::surface::convert_pdf_SA_to_projSA(ps, a, w), ps / cs, 1e-9), "projected", "conversion to projected solid angle");
    }
}

static void sampling(Rand& r, bool extremes) {
    const int N = (int)n_cases(20000, 200000);
    Stat dx, dy, dr, hc, hx, hy, sx, sy, sz, sxx, syy, szz; std::vector<int> hb(20, 0), db(20, 0), sb(20, 0);
    for (int k = 0; k < N; k++) {
        Vec2 u = r.v2();
        if (extremes && k < 8) u = Vec2(k & 1 ? std::nextafter(1., 0.) : 0, k & 2 ? std::nextafter(1., 0.) : k & 4 ? 1 : 0);
        Vec2 d = m::sample_uniform_disk(u); Vec3 h = m::sample_cosine_weighted(u), s = m::sample_uniform_sphere(u); count("samples", 3);
        double r2 = glm::dot(d, d);
        VH_CHECK(r2 <= 1 + 1e-12, "disk:range", "point " << str(d));
        VH_CHECK(std::fabs(glm::length(h) - 1) < 1e-6 && h.z >= 0, "cosine:range", "direction " << str(h));
        VH_CHECK(std::fabs(glm::length(s) - 1) < 1e-6, "sphere:range", "direction " << str(s));
        dx.add(d.x); dy.add(d.y); dr.add(r2); hc.add(h.z); hx.add(h.x * h.x); hy.add(h.x * h.y); sx.add(s.x); sy.add(s.y); sz.add(s.z); sxx.add(s.x * s.x); syy.add(s.y * s.y); szz.add(s.z * s.z);
        db[std::min(19, (int)(r2 * 20))]++; hb[std::min(19, (int)(h.z * h.z * 20))]++; sb[std::min(19, (int)((s.z * .5 + .5) * 20))]++;
    }
    auto ck = [&](Stat& s, double e, const std::string& key) { VH_CHECK(std::fabs(s.m - e) < 6.5 * s.se() + 1e-6, key, "moment " << s.m << " expected " << e); count("expectations"); };
    ck(dx, 0, "disk:moments"); ck(dy, 0, "disk:moments"); ck(dr, .5, "disk:moments"); ck(hc, 2 / 3., "cosine:moments"); ck(hx, .25, "cosine:moments"); ck(hy, 0, "cosine:moments");
    ck(sx, 0, "sphere:moments"); ck(sy, 0, "sphere:moments"); ck(sz, 0, "sphere:moments"); ck(sxx, 1 / 3., "sphere:moments"); ck(syy, 1 / 3., "sphere:moments"); ck(szz, 1 / 3., "sphere:moments");
    for (int i = 0; i < 20; i++) for (auto* b : { &db, &hb, &sb }) VH_CHECK(std::fabs((*b)[i] - N / 20.) < 6.5 * std::sqrt(N / 20.), b == &db ? "disk:histogram" : b == &hb ? "cosine:histogram" : "sphere:histogram", "bin " << i << " has " << (*b)[i] << " of " << N << " samples");
    VH_CHECK(close(m::pdf_uniform_disk(), 1 / Pi, 1e-12) && close(m::pdf_cosine_weighted_projSA(), 1 / Pi, 1e-12) && close(m::pdf_uniform_sphere(), 1 / (4 * Pi), 1e-12), "densities", "constant densities");
}

int main(int argc, char** argv) {
    parse(argc, argv);
    lm_init(1);
    const int part = atoi(args().part.c_str()), parts = args().extra.count("parts") ? atoi(args().extra["parts"].c_str()) : 1;
    const long long rounds = n_cases(200, 4000);
    for (long long rd = part; rd < rounds; rd += parts) {
        if (!want(rd)) continue;
        Rand r(args().seed * 15485863 + rd);
        begin_case("math round " + std::to_string(rd));
        for (int i = 0; i < 4; i++) { dist1(r); dist2(r); }
        rng(r); geometry(r); sampling(r, rd % 2 == 0);
    }
    return finish();
}
