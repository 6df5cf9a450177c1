// Scene generators with an independent model of what the scene contains.
#pragma once
#include "vh.h"

namespace vh {

struct VTri { Vec3 p[3], n[3]; Vec2 t[3]; };
struct VMesh { std::vector<VTri> tris; std::string kind; };

inline Json mesh_json(const VMesh& m) {
    Json ps = Json::array(), ns = Json::array(), ts = Json::array(), fp = Json::array(), ft = Json::array(), fn = Json::array();
    int k = 0;
    for (const auto& t : m.tris) for (int i = 0; i < 3; i++, k++) {
        for (int a = 0; a < 3; a++) { ps.push_back(t.p[i][a]); ns.push_back(t.n[i][a]); }
        ts.push_back(t.t[i].x); ts.push_back(t.t[i].y);
        fp.push_back(k); ft.push_back(k); fn.push_back(k);
    }
    return { {"ps", ps}, {"ns", ns}, {"ts", ts}, {"fs", { {"p", fp}, {"t", ft}, {"n", fn} }} };
}

inline VTri make_tri(Rand& r, Vec3 a, Vec3 b, Vec3 c, bool flat_normals = false) {
    VTri t; t.p[0] = a; t.p[1] = b; t.p[2] = c;
    Vec3 g = glm::cross(b - a, c - a);
    const double l = glm::length(g);
    g = l > 1e-300 ? g / l : Vec3(0, 0, 1);
    for (int i = 0; i < 3; i++) {
        // shading normals tilted around the geometry normal, not always of unit length
        Vec3 n = flat_normals ? g : g + 0.4 * r.v3(-1, 1);
        t.n[i] = n;
        t.t[i] = Vec2(r.u(-1, 2), r.u(-1, 2));
    }
    return t;
}

inline VMesh gen_mesh(Rand& r, const std::string& kind, int n) {
    VMesh m; m.kind = kind;
    auto add = [&](Vec3 a, Vec3 b, Vec3 c) { m.tris.push_back(make_tri(r, a, b, c)); };
    if (kind == "soup") {
        for (int i = 0; i < n; i++) { Vec3 c = r.v3(-2, 2); double s = r.u(.05, .8); add(c + s * r.v3(-1, 1), c + s * r.v3(-1, 1), c + s * r.v3(-1, 1)); }
    } else if (kind == "grid") {        // axis-aligned flat patches, shared edges
        int ax = r.i(3); double h = r.u(-1, 1); int g = std::max(1, (int)std::sqrt(n / 2.0));
        auto P = [&](int x, int y) { Vec3 v; v[ax] = h; v[(ax + 1) % 3] = -2 + 4.0 * x / g; v[(ax + 2) % 3] = -2 + 4.0 * y / g; return v; };
        for (int x = 0; x < g; x++) for (int y = 0; y < g; y++) { add(P(x, y), P(x + 1, y), P(x + 1, y + 1)); add(P(x, y), P(x + 1, y + 1), P(x, y + 1)); }
    } else if (kind == "sliver") {
        for (int i = 0; i < n; i++) { Vec3 c = r.v3(-2, 2); Vec3 d = r.dir(); Vec3 e = r.dir(); add(c, c + 3.0 * d, c + 3.0 * d + 0.02 * e); }
    } else if (kind == "sphere") {
        int g = std::max(3, (int)std::sqrt(n / 2.0)); Vec3 c = r.v3(-1, 1); double R = r.u(.3, 1.5);
        auto P = [&](int i, int j) { double th = lm::Pi * i / g, ph = 2 * lm::Pi * j / g; return c + R * Vec3(sin(th) * cos(ph), sin(th) * sin(ph), cos(th)); };
        for (int i = 0; i < g; i++) for (int j = 0; j < g; j++) {
            if (i > 0) add(P(i, j), P(i + 1, j), P(i, j + 1));
            if (i < g - 1) add(P(i + 1, j), P(i + 1, j + 1), P(i, j + 1));
        }
    } else if (kind == "mixed") {       // one huge triangle and many small ones
        add(Vec3(-50, -50, -1.5), Vec3(50, -50, -1.5), Vec3(0, 80, -1.5));
        for (int i = 1; i < n; i++) { Vec3 c = r.v3(-1, 1); add(c + .05 * r.v3(-1, 1), c + .05 * r.v3(-1, 1), c + .05 * r.v3(-1, 1)); }
    } else if (kind == "layers") {      // parallel stacked quads: many overlapping hits along one ray
        for (int i = 0; i < n; i++) { double z = -2 + 4.0 * i / n; if (i & 1) add(Vec3(-2, -2, z), Vec3(2, -2, z), Vec3(0, 2, z)); else add(Vec3(-2, 2, z), Vec3(0, -2, z), Vec3(2, 2, z)); }
    } else if (kind == "concentric") {  // all bound centres coincide
        for (int i = 0; i < n; i++) { double s = .1 + 2.0 * i / n; Vec3 a = s * Vec3(-1, -1, 0), b = s * Vec3(1, -1, .5 * (i % 3)), c = s * Vec3(1, 1, -.5 * (i % 3)); add(a, b, c); }
    } else if (kind == "samebound") {   // distinct triangles with one and the same bound: a single large leaf
        Vec3 lo = r.v3(-2, -.5), hi = r.v3(.5, 2);
        for (int i = 0; i < n; i++) { Vec3 c; for (int a = 0; a < 3; a++) c[a] = r.u(lo[a], hi[a]); if (i & 1) add(lo, hi, c); else add(Vec3(lo.x, hi.y, lo.z), c, Vec3(hi.x, lo.y, hi.z)); }
    } else if (kind == "duplicates") {
        std::vector<VTri> base;
        for (int i = 0; i < std::max(1, n / 8); i++) { Vec3 c = r.v3(-2, 2); base.push_back(make_tri(r, c + r.v3(-.5, .5), c + r.v3(-.5, .5), c + r.v3(-.5, .5))); }
        for (int i = 0; i < n; i++) m.tris.push_back(r.pick(base));
    } else if (kind == "degenerate") {  // points and segments among proper triangles
        for (int i = 0; i < n; i++) {
            Vec3 c = r.v3(-2, 2), d = r.v3(-1, 1);
            switch (r.i(4)) { case 0: add(c, c, c); break; case 1: add(c, c + d, c + d); break; case 2: add(c, c + d, c + 2.0 * d); break;
                default: add(c + .6 * r.v3(-1, 1), c + .6 * r.v3(-1, 1), c + .6 * r.v3(-1, 1)); }
        }
    } else if (kind == "geometric") {   // sizes and positions grow geometrically: very unbalanced hierarchies
        double sg = r.p(.5) ? 1 : -1; double q = r.p(.5) ? 1.08 : 1.6; n = std::min(n, q > 1.5 ? 26 : 200); double x = 1e-2;
        for (int i = 0; i < n; i++) { double s = .4 * x; Vec3 c(sg * x, 0, 0); add(c + Vec3(0, -s, -s), c + Vec3(0, s, -s), c + Vec3(.1 * s, 0, s)); x *= q; }
    } else if (kind == "far") {         // far away from the origin
        Vec3 o = 1e3 * r.dir();
        for (int i = 0; i < n; i++) { Vec3 c = o + r.v3(-2, 2); add(c + r.v3(-.6, .6), c + r.v3(-.6, .6), c + r.v3(-.6, .6)); }
    } else {                            // box
        Vec3 lo = r.v3(-2, -.2), hi = r.v3(.2, 2);
        for (int ax = 0; ax < 3; ax++) for (int sd = 0; sd < 2; sd++) {
            auto P = [&](int x, int y) { Vec3 v; v[ax] = sd ? hi[ax] : lo[ax]; int b = (ax + 1) % 3, c = (ax + 2) % 3; v[b] = x ? hi[b] : lo[b]; v[c] = y ? hi[c] : lo[c]; return v; };
            if (sd) { add(P(0, 0), P(1, 0), P(1, 1)); add(P(0, 0), P(1, 1), P(0, 1)); } else { add(P(0, 0), P(1, 1), P(1, 0)); add(P(0, 0), P(0, 1), P(1, 1)); }
        }
    }
    return m;
}
inline const std::vector<std::string>& mesh_kinds() {
    static const std::vector<std::string> k{ "soup", "grid", "sliver", "sphere", "mixed", "layers", "concentric", "samebound", "duplicates", "degenerate", "geometric", "far", "box" };
    return k;
}

inline Mat4 gen_transform(Rand& r, int kind) {
    Mat4 M(1.0);
    auto T = glm::translate(Mat4(1.0), r.v3(-2, 2));
    auto R = glm::rotate(Mat4(1.0), r.u(-4, 4), r.dir());
    switch (kind % 7) {
        case 0: return M;
        case 1: return T;
        case 2: return T * R;
        case 3: return T * R * glm::scale(Mat4(1.0), Vec3(r.u(.3, 2)));
        case 4: return T * R * glm::scale(Mat4(1.0), r.v3(.3, 2.5));
        case 5: return R * glm::scale(Mat4(1.0), Vec3(-1, r.u(.5, 2), 1)) * T;
        default: { Mat4 S(1.0); S[1][0] = r.u(-.7, .7); S[2][1] = r.u(-.7, .7); return T * R * S; }
    }
}

struct Flat { Vec3 p[3]; VTri local; Mat4 M; int node, face; };

struct VNode { int index; bool prim; int mesh; std::vector<int> children; bool has_M; Mat4 M; int light = -1; };

// A random scene together with its model.
struct VScene {
    std::vector<VMesh> meshes;
    std::map<int, VNode> nodes;
    std::vector<Flat> flat;
    std::vector<std::pair<int, Mat4>> visits;     // (primitive node, global transform) in traversal order
    lm::Scene* scene = nullptr; lm::Accel* accel = nullptr;

    void flatten(int node, Mat4 G) {
        auto& n = nodes.at(node);
        if (n.prim) {
            visits.push_back({ node, G });
            if (n.mesh >= 0) {
                int f = 0;
                for (auto& t : meshes[n.mesh].tris) {
                    Flat x; x.local = t; x.M = G; x.node = node; x.face = f++;
                    for (int i = 0; i < 3; i++) x.p[i] = Vec3(G * Vec4(t.p[i], 1.0));
                    flat.push_back(x);
                }
            }
            return;
        }
        Mat4 M = n.has_M ? G * n.M : G;
        for (int c : n.children) flatten(c, M);
    }
};

// ---- exact-ish ray/triangle test with a margin -----------------------------------------------------
typedef long double LD;
struct TriTest { int cls; LD t, u, v; };     // cls: 1 certain hit, 0 undecidable at this precision, -1 certain miss
inline TriTest tri_test(const Vec3 p[3], Vec3 o, Vec3 d, double tl, double th) {
    auto X = [](const LD* a, const LD* b, LD* c) { c[0] = a[1] * b[2] - a[2] * b[1]; c[1] = a[2] * b[0] - a[0] * b[2]; c[2] = a[0] * b[1] - a[1] * b[0]; };
    auto D = [](const LD* a, const LD* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; };
    LD e1[3], e2[3], tv[3], dd[3], pv[3], qv[3];
    LD se = 0, st_ = 0;
    for (int i = 0; i < 3; i++) {
        e1[i] = (LD)p[1][i] - p[0][i]; e2[i] = (LD)p[2][i] - p[0][i]; tv[i] = (LD)o[i] - p[0][i]; dd[i] = d[i];
        se = std::max({ se, fabsl(e1[i]), fabsl(e2[i]) }); st_ = std::max(st_, std::max(fabsl(tv[i]), (LD)std::fabs(p[0][i])));
    }
    X(dd, e2, pv); X(tv, e1, qv);
    LD det = D(e1, pv), ad = fabsl(det);
    LD derr = 1e-14L * se * (se + st_) + 1e-300L;
    if (ad < 0.9e-8L) return { ad + derr < 1e-8L ? -1 : 0, 0, 0, 0 };   // the documented intersector treats these as parallel
    LD u = D(tv, pv) / det, v = D(dd, qv) / det, t = D(e2, qv) / det;
    LD m = 1e-9L + 1e-13L * se * (se + st_) / ad * 10;
    LD tm = (1e-9L + 1e-13L * se * se * (st_ + se) / ad * 10) * std::max((LD)1, fabsl(t));
    if (ad < 1.1e-8L) return { 0, t, u, v };
    if (u < -m || v < -m || u + v > 1 + m || t < tl - tm || t > th + tm) return { -1, t, u, v };
    if (u > m && v > m && u + v < 1 - m && t > tl + tm && t < th - tm) return { 1, t, u, v };
    return { 0, t, u, v };
}

} // namespace vh
