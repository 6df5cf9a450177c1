// P14: geometry and materials of model files.  OBJ and MTL files are written together with a record of
// what they say; meshes, primitives, materials and lights of both loaders are compared with the record.
// Raw meshes are compared with their arrays.  Damaged files must be rejected or load as a sane mesh.
#include "vscene.h"
#include "vimg.h"
#include <lm/objloader.h>
#include <lm/mesh.h>
#include <lm/model.h>
#include <lm/material.h>
#include <lm/light.h>
#include <lm/texture.h>
#include <lm/surface.h>
using namespace vh;
using lm::Mesh; using lm::PointGeometry; using lm::Material; using lm::Light; using lm::Model;

static std::string num(Rand& r, double v) {
    char b[64]; int k = r.i(6);
    if (k == 0) snprintf(b, 64, "%d", (int)std::lround(v)); else if (k == 1) snprintf(b, 64, "%.1f", v); else if (k == 2) snprintf(b, 64, "%.9f", v);
    else if (k == 3) snprintf(b, 64, "%.6e", v); else if (k == 4) snprintf(b, 64, "%.17g", v); else snprintf(b, 64, "%+.5f", v);
    return b;
}
static double val(const std::string& s) { return strtod(s.c_str(), nullptr); }

struct Vx { int p, t, n; };
struct Poly { std::vector<Vx> v; int mat; };
struct Mtl { std::string name; int illum; bool has_illum; Vec3 Kd{}, Ks{}, Ke{}; double Ni = 0, Ns = 0, an = 0; std::string map; int tex = -1; bool full; };
struct File {
    std::vector<Vec3> ps, ns; std::vector<Vec2> ts; std::vector<Poly> polys; std::vector<Mtl> mtl; std::string obj, mtltext, mtltext2, dir; std::map<std::string, int> by;
};
static const char* TEX[] = { "wood.tga", "a/wood.tga", "b/wood.tga", "wood.v2.tga", "wood.v3.tga", "stone.ppm", "wood.ppm" };
static std::vector<Vec3> TEXC; static std::vector<double> TEXA;

static File gen(Rand& r, bool tiny, const std::string& dir) {
    File f; f.dir = dir;
    std::string eol = r.p(.3) ? "\r\n" : "\n"; std::string& o = f.obj;
    auto sp = [&] { return std::string(tiny || r.p(.8) ? " " : r.p(.5) ? "\t" : "   "); };
    auto lead = [&] { return std::string(r.p(.9) ? "" : r.p(.5) ? "  " : "\t"); };
    auto trail = [&] { return std::string(tiny || r.p(.85) ? "" : r.p(.5) ? " " : " \t "); };
    auto num3 = [&](Vec3 v, Vec3& got) { std::string s; for (int k = 0; k < 3; k++) { auto t = num(r, v[k]); got[k] = val(t); s += sp() + t; } return s; };
    // ---- materials
    int nm = r.p(.15) ? 0 : r.i(1, 6), nm1 = nm > 1 && r.p(.3) ? r.i(1, nm) : nm;       // the materials from nm1 on are in a second file
    std::vector<std::string> pool = { "white", "Material.001", "Material.002", "Material_001", "mesh_0", "mesh_1", "mesh_2", "texture_wood", "a/b", "light", "diffuse", "default", std::string(300, 'n'), "kA-1_2.x.y" };
    for (int i = 0; i < nm; i++) {
        Mtl m; do m.name = r.pick(pool); while (f.by.count(m.name)); f.by[m.name] = i;
        m.full = tiny || r.p(.7);
        auto& t = i < nm1 ? f.mtltext : f.mtltext2; if (r.p(.3)) t += "# comment" + eol + eol;
        t += lead() + "newmtl" + sp() + m.name + trail() + eol;
        int il = r.i(8); m.illum = il < 5 ? 2 : il == 5 ? 5 : il == 6 ? 7 : 0; m.has_illum = true;
        struct L { std::string s; }; std::vector<std::string> ls;
        ls.push_back("illum" + sp() + std::to_string(m.illum));
        if (m.full || r.p(.5)) { std::string s; s = "Kd" + num3(r.v3(0, 1), m.Kd); ls.push_back(s); }
        if (m.full || r.p(.5)) { std::string s = "Ks" + num3(r.p(.3) ? Vec3(0) : r.v3(0, 1), m.Ks); ls.push_back(s); }
        if (r.p(.4)) { std::string s = "Ke" + num3(r.p(.3) ? Vec3(0) : r.v3(0, 9), m.Ke); ls.push_back(s); }
        if (m.full || m.illum == 7 || r.p(.5)) { auto s = num(r, r.u(1.2, 2.5)); m.Ni = val(s); ls.push_back("Ni" + sp() + s); }
        if (m.full || r.p(.5)) { auto s = num(r, r.p(.2) ? 0 : std::pow(10., r.u(0, 3))); m.Ns = val(s); ls.push_back("Ns" + sp() + s); }
        if (r.p(.3)) { auto s = num(r, r.u(0, 1)); m.an = val(s); if (m.an <= 1) ls.push_back("aniso" + sp() + s); else m.an = 0; }
        if (r.p(.5)) { m.tex = r.i(7); m.map = TEX[m.tex]; ls.push_back("map_Kd" + sp() + m.map); }
        if (r.p(.3)) ls.push_back("Tf 1 1 1"); if (r.p(.3)) ls.push_back("# Kd 9 9 9");
        for (int k = (int)ls.size() - 1; k > 0; k--) std::swap(ls[k], ls[r.i(k + 1)]);
        for (auto& l : ls) t += lead() + l + trail() + eol;
        f.mtl.push_back(m);
    }
    if (nm) { o += (r.p(.3) ? "# head" + eol : "") + "mtllib" + sp() + "m.mtl" + eol; }
    // ---- geometry
    bool ht = r.p(.7), hn = r.p(.7); int cur = -1, blocks = r.i(1, 8), block2 = r.p(.5) ? 0 : r.i(blocks);
    auto vert = [&](Vec3 p) { Vec3 q; o += lead() + "v" + num3(p, q) + trail() + eol; f.ps.push_back(q); };
    auto extra = [&] {
        if (ht) { Vec2 q; auto a = num(r, r.u(-2, 2)), b = num(r, r.u(-2, 2)); q = Vec2(val(a), val(b)); o += "vt" + sp() + a + sp() + b + (r.p(.2) ? " 0" : "") + eol; f.ts.push_back(q); }
        if (hn) { Vec3 q; do { auto s = num3(r.dir() * r.u(.5, 2), q); if (glm::length(q) > .1) { o += "vn" + s + eol; break; } } while (true); f.ns.push_back(q); }
    };
    for (int b = 0; b < blocks; b++) {
        if (nm1 < nm && b == block2) { o += lead() + "mtllib" + sp() + "m2.mtl" + trail() + eol; cover("second material file", b == 0 ? "before the geometry" : "within the geometry"); }
        // statements that start a primitive, in any order and repeated
        for (int k = r.i(4); k-- > 0;) {
            int w = r.i(5);
            if (w == 0) o += "g" + sp() + "grp" + std::to_string(r.i(3)) + (r.p(.2) ? " second" : "") + trail() + eol;
            else if (w == 1) o += "o obj" + std::to_string(r.i(3)) + eol;
            else if (w == 2) o += "s " + std::string(r.p(.5) ? "off" : "1") + eol;
            else if (nm) { cur = r.i(b >= block2 ? nm : nm1); o += "usemtl" + sp() + f.mtl[cur].name + trail() + eol; }
        }
        if (r.p(.1)) o += eol; if (r.p(.2)) o += "# f 1 2 3" + eol;
        int base = (int)f.ps.size(), nv = r.i(3, 9); for (int k = 0; k < nv; k++) vert(r.v3(-5, 5));
        for (int k = r.i(1, 4); k-- > 0;) extra();
        std::vector<Poly> pend; std::vector<std::string> lines;
        for (int k = r.i(0, 5); k-- > 0;) {
            Poly P; P.mat = cur; int m = r.p(.6) ? 3 : r.p(.98) ? r.i(4, 7) : r.i(40, 400);
            int from = 0;
            if (m == 3) from = -1;
            else {  // a convex planar polygon of new vertices
                from = (int)f.ps.size(); Vec3 c = r.v3(-3, 3), w = r.dir(), u = glm::normalize(glm::cross(w, std::fabs(w.x) < .5 ? Vec3(1, 0, 0) : Vec3(0, 1, 0))), v = glm::cross(w, u);
                double R = r.u(1, 3), ph = r.u(0, 6);
                for (int q = 0; q < m; q++) { double a = ph + 2 * lm::Pi * (q + (m < 20 ? r.u(-.3, .3) : 0)) / m; Vec3 p = c + (u * std::cos(a) + v * std::sin(a)) * R;
                    char t[256]; snprintf(t, 256, "v %.17g %.17g %.17g", p.x, p.y, p.z); o += t + eol; f.ps.push_back(p); }
            }
            (void)base;
            std::string l = lead() + "f"; int kind = r.i(4); if (!ht || f.ts.empty()) kind &= ~1; if (!hn || f.ns.empty()) kind &= ~2;
            bool mixed = r.p(.1);
            for (int q = 0; q < m; q++) {
                Vx x{ -1, -1, -1 }; int kk = kind; if (mixed && r.p(.5)) kk = 0;
                x.p = from < 0 ? r.i((int)f.ps.size()) : from + q;
                if (kk & 1) x.t = r.i((int)f.ts.size()); if (kk & 2) x.n = r.i((int)f.ns.size());
                bool neg = r.p(.3);
                auto ix = [&](int i, size_t n) { return std::to_string(neg ? i - (int)n : i + 1); };
                l += sp() + ix(x.p, f.ps.size()); if (kk == 1) l += "/" + ix(x.t, f.ts.size()); if (kk == 2) l += "//" + ix(x.n, f.ns.size());
                if (kk == 3) l += "/" + ix(x.t, f.ts.size()) + "/" + ix(x.n, f.ns.size());
                P.v.push_back(x);
            }
            o += l + trail() + eol; f.polys.push_back(P);
            cover("face", std::string(m == 3 ? "triangle" : m == 4 ? "quad" : m < 10 ? "polygon" : "huge polygon") + "/" + std::to_string(kind) + (mixed ? "/mixed" : ""));
        }
    }
    if (r.p(.2) && o.size() > eol.size()) o.resize(o.size() - eol.size());      // no newline at the end
    cover("file", std::string(eol.size() == 2 ? "crlf" : "lf") + "/" + std::to_string(nm) + (ht ? "t" : "") + (hn ? "n" : ""));
    write_file(dir + "/m.obj", f.obj); write_file(dir + "/m.mtl", f.mtltext); write_file(dir + "/m2.mtl", f.mtltext2);
    return f;
}

// ---- consistency of a mesh; returns its triangles
static std::vector<Mesh::Tri> tris(Rand& r, const Mesh* m, const std::string& ctx, bool points = true) {
    std::vector<Mesh::Tri> v; int n = m->num_triangles(); int expect = 0;
    m->foreach_triangle([&](int fi, const Mesh::Tri& t) { VH_CHECK(fi == expect, "mesh:order", "face " << fi << " visited as number " << expect << ctx); expect++; v.push_back(t); });
    VH_CHECK(expect == n, "mesh:count", "num_triangles is " << n << " but " << expect << " were visited" << ctx);
    for (int i = 0; i < (int)v.size(); i++) {
        auto t = m->triangle_at(i); auto same = [](const Mesh::Point& a, const Mesh::Point& b) { return !memcmp(&a.p, &b.p, sizeof a.p) && !memcmp(&a.n, &b.n, sizeof a.n) && !memcmp(&a.t, &b.t, sizeof a.t); };
        VH_CHECK(same(t.p1, v[i].p1) && same(t.p2, v[i].p2) && same(t.p3, v[i].p3), "mesh:triangle_at", "triangle_at(" << i << ") is not the triangle visited" << ctx);
        if (!points) continue;
        for (int k = 0; k < 3; k++) {
            Vec2 uv = k == 0 ? Vec2(0) : k == 1 ? Vec2(r.u(), 0) : r.v2(); if (uv.x + uv.y > 1) uv = Vec2(1) - uv;
            auto s = m->surface_point(i, uv); count("surface points");
            double w = 1 - uv.x - uv.y; Vec3 p = w * t.p1.p + uv.x * t.p2.p + uv.y * t.p3.p;
            double sz = glm::length(t.p1.p) + glm::length(t.p2.p) + glm::length(t.p3.p);
            VH_CHECK(glm::length(s.p - p) <= 1e-12 * sz, "mesh:point", "surface_point(" << i << "," << str(uv) << ") is at " << str(s.p) << " expected " << str(p) << ctx);
            Vec3 g = glm::cross(t.p2.p - t.p1.p, t.p3.p - t.p1.p); double gl = glm::length(g); bool flat = gl > 1e-9 * sz * sz;
            if (flat) VH_CHECK(glm::length(s.gn - g / gl) < 1e-6, "mesh:geometry normal", "geometry normal of " << i << " is " << str(s.gn) << " expected " << str(g / gl) << ctx);
            Vec3 z(0); bool hasn = t.p1.n != z && t.p2.n != z && t.p3.n != z;
            Vec3 nn = w * t.p1.n + uv.x * t.p2.n + uv.y * t.p3.n;
            if (hasn) { if (glm::length(nn) > 1e-3) { nn = glm::normalize(nn); VH_CHECK(glm::length(s.n - nn) < 1e-9, "mesh:normal", "normal at " << i << str(uv) << " is " << str(s.n) << " expected " << str(nn) << ctx); count("interpolated normals"); } }
            else if (flat) VH_CHECK(glm::length(s.n - g / gl) < 1e-6, "mesh:normal", "normal of the face " << i << " without normals is " << str(s.n) << ctx);
        }
    }
    count("triangles", v.size()); return v;
}
// texture coordinates, given which vertices have them
static void check_uv(Rand& r, const Mesh* m, int i, const Mesh::Tri& t, bool all, const std::string& ctx) {
    Vec2 uv = r.v2(); if (uv.x + uv.y > 1) uv = Vec2(1) - uv; auto s = m->surface_point(i, uv);
    Vec2 e = all ? (1 - uv.x - uv.y) * t.p1.t + uv.x * t.p2.t + uv.y * t.p3.t : Vec2(0);
    VH_CHECK(glm::length(s.t - e) < 1e-9, "mesh:texcoord", "texture coordinates at " << i << str(uv) << " are " << str(s.t) << " expected " << str(e) << ctx);
}

// the next triangles of the sequence are a triangulation of the polygon
struct Ref { const Mesh* m; int i; const Mesh::Tri* t; };
static bool match_poly(Rand& r, const File& f, const Poly& P, const std::vector<Ref>& q, size_t at, double tol, const std::string& ctx) {
    int k = (int)P.v.size(); if (at + k - 2 > q.size()) return false;
    auto nearp = [&](Vec3 a, Vec3 b) { return glm::length(a - b) <= tol * (1 + glm::length(b)); };
    Vec3 sum(0), area(0); Vec3 c0 = f.ps[P.v[0].p];
    for (int j = 1; j + 1 < k; j++) area += glm::cross(f.ps[P.v[j].p] - c0, f.ps[P.v[j + 1].p] - c0);
    for (int j = 0; j < k - 2; j++) {
        const auto& t = *q[at + j].t; const Mesh::Point* tp[3] = { &t.p1, &t.p2, &t.p3 };
        sum += glm::cross(t.p2.p - t.p1.p, t.p3.p - t.p1.p);
        // the vertices are vertices of the polygon with their attributes, in cyclic order
        int rot = -1; bool ok = false;
        for (int s = 0; s < k && !ok; s++) {
            int pos = s; ok = true; int start = s; (void)start;
            for (int w = 0; w < 3; w++) {
                bool found = false;
                for (int d = w == 0 ? 0 : 1; d < k && !found; d++) {
                    int x = (pos + d) % k; if (w == 0 && d > 0) break;
                    const auto& V = P.v[x];
                    if (w > 0 && (x - s + k) % k <= (pos - s + k) % k) break;
                    if (nearp(tp[w]->p, f.ps[V.p]) && (V.n < 0 ? tp[w]->n == Vec3(0) : nearp(tp[w]->n, f.ns[V.n])) && (V.t < 0 ? tp[w]->t == Vec2(0) : glm::length(tp[w]->t - f.ts[V.t]) <= tol * 4)) { found = true; pos = x; }
                    if (w == 0) break;
                }
                if (!found) { ok = false; break; }
            }
            if (ok) rot = s;
        }
        if (rot < 0) return false;
        bool all = true, none = true; for (auto& V : P.v) { all &= V.t >= 0; none &= V.t < 0; }
        if (all || none) check_uv(r, q[at + j].m, q[at + j].i, t, all, ctx);
    }
    if (k > 3 && glm::length(sum - area) > 1e-6 * glm::length(area) + 1e-9) return false;
    return true;
}
static void match_all(Rand& r, const File& f, const std::vector<Ref>& q, double tol, const std::string& ctx, const std::function<void(const Poly&, size_t)>& each) {
    size_t at = 0; int n = 0;
    for (auto& P : f.polys) {
        if (!match_poly(r, f, P, q, at, tol, ctx)) { violation("obj:faces", "face " + std::to_string(n) + " of " + std::to_string(f.polys.size()) + " with " + std::to_string(P.v.size()) + " vertices is not the triangles from " + std::to_string(at) + " of " + std::to_string(q.size()) + ctx); return; }
        for (size_t j = 0; j + 2 < P.v.size(); j++) each(P, at + j);
        at += P.v.size() - 2; n++; count("faces");
    }
    VH_CHECK(at == q.size(), "obj:extra", q.size() - at << " triangles that are not in the file" << ctx);
}

// behaviour of a material at a point, compared with a reference value
static Vec3 refl(const Material* m, Vec2 t) { return m->reflectance(PointGeometry::make_on_surface(Vec3(0), Vec3(0, 0, 1), Vec3(0, 0, 1), t)); }

static void materials(Rand& r, const File& f, const Material* mat, const Mtl& m, const Json& mp, bool tiny, const std::string& ctx) {
    using TD = Material::TransDir; double tol = tiny ? 1e-6 : 1e-9;
    Vec2 t = r.v2(); Vec3 n(0, 0, 1); auto g = PointGeometry::make_on_surface(Vec3(0), n, n, t);
    Vec3 wi = r.dir(), wo = r.dir(); wi.z = std::fabs(wi.z) + .05; wo.z = std::fabs(wo.z) + .05; wi = glm::normalize(wi); wo = glm::normalize(wo);
    bool skip = mp.value("skip_specular_mat", false);
    if (mp.count("base_material")) {
        auto* b = lm::comp::get<Material>(mp["base_material"].get<std::string>());
        VH_CHECK(b && b->eval(g, wi, wo, 0, TD::EL, false) == mat->eval(g, wi, wo, 0, TD::EL, false) && b->reflectance(g) == mat->reflectance(g), "mtl:base", "material " << m.name << " does not behave as the given base material" << ctx);
        cover("material", "base"); return;
    }
    if ((m.illum == 5 || m.illum == 7) && skip) {
        VH_CHECK(mat->eval(g, wi, wo, 0, TD::EL, false) == Vec3(0) && mat->reflectance(g) == Vec3(0), "mtl:black", "skipped specular material " << m.name << " is not black" << ctx);
        cover("material", "skipped"); return;
    }
    if (m.illum == 7 || m.illum == 5) {
        VH_CHECK(mat->is_specular_component(0), "mtl:specular", "material " << m.name << " is not specular" << ctx);
        auto ref = m.illum == 7 ? lm::comp::create<Material>("material::glass", "", { {"Ni", m.Ni} }) : lm::comp::create<Material>("material::mirror", "", Json());
        for (int k = 0; k < 4; k++) {
            if (k & 1) wi = -wi; Vec2 u = r.v2(); double c = r.u();
            auto ca = mat->sample_component({ Vec2(c, r.u()) }, g, wi); auto cb = ref->sample_component({ Vec2(c, 0) }, g, wi);
            auto a = mat->sample_direction({ u, Vec2(c, c) }, g, wi, ca.comp, TD::EL), b = ref->sample_direction({ u, Vec2(c, c) }, g, wi, cb.comp, TD::EL);
            VH_CHECK(!!a == !!b && (!a || (close(a->wo, b->wo, tol) && close(a->weight, b->weight, tol))), "mtl:specular", "material " << m.name << " of illumination model " << m.illum << " differs from the reference" << ctx);
        }
        cover("material", m.illum == 7 ? "glass" : "mirror"); return;
    }
    Vec3 Kd = m.tex >= 0 ? TEXC[m.tex] : m.Kd; double alpha = m.tex >= 0 && !skip ? TEXA[m.tex] : 1;
    VH_CHECK(close(refl(mat, t), Kd, tol), "mtl:diffuse", "reflectance of " << m.name << " is " << str(refl(mat, t)) << " expected " << str(Kd) << (m.tex >= 0 ? " of texture " + m.map : "") << ctx);
    double rr = 2 / (2 + m.Ns), as = std::sqrt(std::max(0., 1 - m.an * .9));
    auto d = lm::comp::create<Material>("material::diffuse", "", { {"Kd", Kd} });
    auto gl = lm::comp::create<Material>("material::glossy", "", { {"Ks", m.Ks}, {"ax", std::max(1e-3, rr / as)}, {"ay", std::max(1e-3, rr * as)} });
    Vec3 e = alpha * (d->eval(g, wi, wo, 0, TD::EL, false) + gl->eval(g, wi, wo, 0, TD::EL, false)), v = mat->eval(g, wi, wo, 0, TD::EL, false);
    VH_CHECK(close(v, e, 1e-5, 1e-12), "mtl:scattering", "material " << m.name << " scatters " << str(v) << " expected " << str(e) << " [Kd " << str(Kd) << " Ks " << str(m.Ks) << " Ns " << m.Ns << " aniso " << m.an << " alpha " << alpha << "]" << ctx);
    cover("material", std::string("mixture") + (m.tex >= 0 ? "/texture" : "") + (alpha < 1 ? "/alpha" : "") + (m.Ks == Vec3(0) ? "" : "/glossy")); count("materials compared");
}

static std::string ROOT;
static void init_loader(bool tiny) { lm::objloader::shutdown(); lm::objloader::init(tiny ? "tinyobjloader" : "simple"); }

static void valid_file(Rand& r, long long id, bool tiny) {
    File f = gen(r, tiny, ROOT); double tol = tiny ? 1e-9 : 0; std::string ctx = tiny ? " [tinyobjloader]" : " [simple]";
    auto path = ROOT + "/m.obj"; cover("loader", tiny ? "tinyobjloader" : "simple");
    try {
        auto* me = lm::load<Mesh>("mesh", "mesh::wavefrontobj", { {"path", path} });
        auto ts = tris(r, me, ctx); std::vector<Ref> q; for (int i = 0; i < (int)ts.size(); i++) q.push_back({ me, i, &ts[i] });
        match_all(r, f, q, tol, ctx + " [mesh]", [](const Poly&, size_t) {});
        Json mp{ {"path", path} };
        if (r.p(.3)) mp["skip_specular_mat"] = r.p(.5);
        if (r.p(.15)) { lm::load<Material>("base", "material::diffuse", { {"Kd", r.v3(0, 1)} }); mp["base_material"] = "$.assets.base"; }
        auto* mo = lm::load<Model>("model", "model::wavefrontobj", mp);
        q.clear(); std::vector<std::vector<Mesh::Tri>> keep; std::vector<const Material*> qm; std::vector<const Light*> ql;
        struct Prim { lm::Component *m, *a, *l; }; std::vector<Prim> prims;
        mo->create_primitives([&](lm::Component* a, lm::Component* b, lm::Component* c) { prims.push_back({ a, b, c }); });
        keep.reserve(prims.size());
        for (auto& p : prims) {
            auto* m = dynamic_cast<Mesh*>(p.m); auto* a = dynamic_cast<Material*>(p.a); auto* l = dynamic_cast<Light*>(p.l);
            if (!m || !a || (p.l && !l)) { violation("model:primitive", "a primitive does not consist of a mesh, a material and possibly a light" + ctx); return; }
            for (auto* x : { (lm::Component*)m, (lm::Component*)a, (lm::Component*)l }) if (x) VH_CHECK(lm::comp::get<lm::Component>(x->loc()) == x, "model:locator", "the locator " << x->loc() << " does not lead to its component" << ctx);
            keep.push_back(tris(r, m, ctx, false)); auto& t = keep.back();
            VH_CHECK(!t.empty(), "model:empty", "a primitive without triangles" << ctx);
            for (int i = 0; i < (int)t.size(); i++) { q.push_back({ m, i, &t[i] }); qm.push_back(a); ql.push_back(l); }
            count("primitives");
        }
        std::map<const Material*, std::set<int>> used; std::map<int, std::set<const Material*>> back;
        match_all(r, f, q, tol, ctx + " [model]", [&](const Poly& P, size_t k) {
            int mi = P.mat < 0 && !f.mtl.empty() ? 0 : P.mat;         // faces without usemtl use the first material
            used[qm[k]].insert(mi); back[mi].insert(qm[k]);
            Vec3 Ke = mi < 0 ? Vec3(0) : f.mtl[mi].Ke; bool lit = glm::compMax(Ke) > 0;
            VH_CHECK(!!ql[k] == lit, "model:light", "a face of a material with emission " << str(Ke) << (ql[k] ? " has a light" : " has no light") << ctx);
            if (ql[k] && lit) {
                auto& t = *q[k].t; Vec3 g = glm::cross(t.p2.p - t.p1.p, t.p3.p - t.p1.p);
                if (glm::length(g) > 1e-6) { g = glm::normalize(g); Vec3 e = ql[k]->eval(PointGeometry::make_on_surface(t.p1.p, g, g, Vec2(0)), g, false);
                    VH_CHECK(close(e, Ke, 1e-6), "model:emission", "emission " << str(e) << " expected " << str(Ke) << ctx); count("lights compared"); }
            }
        });
        for (auto& u : used) VH_CHECK(u.second.size() == 1, "model:material", "one material asset is used for " << u.second.size() << " materials of the file" << ctx);
        for (auto& b : back) for (auto* m : b.second) if (b.first >= 0) materials(r, f, m, f.mtl[b.first], mp, tiny, ctx);
            else if (!mp.count("base_material")) VH_CHECK(close(refl(m, Vec2(0)), Vec3(1), 1e-12), "model:default", "the default material has the reflectance " << str(refl(m, Vec2(0))) << ctx);
    } catch (std::exception& e) { violation("obj:rejected", std::string("a valid file was rejected: ") + e.what() + ctx); }
}

static bool must_fail(const std::string& what, const std::string& comp, const Json& p, bool io) {
    bool threw = false; std::string text;
    try { auto* m = lm::load<lm::Component>("bad", comp, p); (void)m; } catch (std::exception& e) { threw = true; text = err_code(e); }
    VH_CHECK(threw, "damaged:accepted", what << " was accepted by " << comp);
    if (threw) VH_CHECK(!text.empty(), "damaged:error", what << " gave an error without a code");
    VH_CHECK(!lm::comp::get<lm::Component>("$.assets.bad"), "damaged:left", what << " left an asset behind");
    (void)io; count("rejected files"); cover("damage", what); return threw;
}
static void damaged(Rand& r, bool tiny) {
    File f = gen(r, tiny, ROOT); auto path = ROOT + "/bad.obj"; std::string comp = r.p(.5) ? "mesh::wavefrontobj" : "model::wavefrontobj";
    auto n = [&](int d) { return std::to_string((int)f.ps.size() + d); };
    auto put = [&](const std::string& l) { write_file(path, f.obj + "\n" + l + "\n"); };
    std::string v3 = "v 0 0 0\nv 1 0 0\nv 0 1 0\n";
    put("f 1 2 " + n(1)); must_fail("position index past the end", comp, { {"path", path} }, true);
    put("f 1 2 " + n(1 + r.i(1000000))); must_fail("position index far past the end", comp, { {"path", path} }, true);
    put("f 1 2 2147483647"); must_fail("huge index", comp, { {"path", path} }, true);
    put("f -1 -2 -" + n(1 + r.i(100))); must_fail("negative index past the start", comp, { {"path", path} }, true);
    put("f 1/" + std::to_string(f.ts.size() + 1 + r.i(50)) + " 2 3"); must_fail("texture index past the end", comp, { {"path", path} }, true);
    put("f 1//" + std::to_string(f.ns.size() + 1 + r.i(50)) + " 2 3"); must_fail("normal index past the end", comp, { {"path", path} }, true);
    put("f 1 2 0"); must_fail("zero index", comp, { {"path", path} }, true);
    if (!tiny) {
        put("f 1 2"); must_fail("face with two vertices", comp, { {"path", path} }, true);
        put("f"); put("f "); must_fail("face without vertices", comp, { {"path", path} }, true);
        put("usemtl no-such-material"); must_fail("unknown material", comp, { {"path", path} }, true);
        write_file(path, "mtllib none.mtl\n" + f.obj); must_fail("missing material file", comp, { {"path", path} }, true);
        must_fail("directory", comp, { {"path", ROOT} }, true);
    }
    must_fail("missing file", comp, { {"path", ROOT + "/none.obj"} }, true);
    must_fail("missing path", comp, Json::object(), false);
    if (!f.mtl.empty()) {
        write_file(ROOT + "/t.mtl", "newmtl a\nKd 1 1 1\nmap_Kd none.png\n"); write_file(path, "mtllib t.mtl\nusemtl a\n" + v3 + "f 1 2 3\n");
        must_fail("missing texture", "model::wavefrontobj", { {"path", path} }, true);
    }
    // arbitrary damage: an error, or a mesh that can be used
    for (int k = 0; k < 12; k++) {
        std::string s = f.obj; int how = r.i(5);
        for (int e = r.i(1, 6); e-- > 0 && !s.empty();) {
            size_t at = r.i((int)s.size());
            if (how == 0) s[at] = (char)r.i(256); else if (how == 1) s.erase(at, r.i(1, 20)); else if (how == 2) s.insert(at, s.substr(r.i((int)s.size()), r.i(1, 30)));
            else if (how == 3) s.insert(at, std::string(r.p(.5) ? "/" : r.p(.5) ? " " : "-") ); else s[at] = "0123456789/- \t\n#.e"[r.i(18)];
        }
        write_file(path, s);
        try { auto* m = lm::load<Mesh>("bad", "mesh::wavefrontobj", { {"path", path} }); auto v = tris(r, m, " [damaged]", false); for (int i = 0; i < (int)v.size(); i++) m->surface_point(i, Vec2(.3, .3)); count("damaged files used");
            lm::assets()->load_asset("bad", "mesh::raw", { {"ps", Json::array()}, {"ns", Json::array()}, {"ts", Json::array()}, {"fs", { {"p", Json::array()}, {"t", Json::array()}, {"n", Json::array()} }} }); }
        catch (std::exception& e) { VH_CHECK(!err_code(e).empty(), "damaged:error", "damaged file gave: " << e.what()); count("damaged files rejected"); }
        if (!tiny && r.p(.3)) { std::string t = f.mtltext; for (int e = r.i(1, 6); e-- > 0 && !t.empty();) { size_t at = r.i((int)t.size()); if (r.p(.5)) t[at] = (char)r.i(256); else t.erase(at, r.i(1, 20)); }
            write_file(ROOT + "/m.mtl", t); write_file(path, f.obj); try { lm::load<Mesh>("bad", "mesh::wavefrontobj", { {"path", path} }); count("damaged files used"); } catch (std::exception& e) { count("damaged files rejected"); } write_file(ROOT + "/m.mtl", f.mtltext); }
    }
    lm::reset();
}

static void raw(Rand& r) {
    int np = r.i(1, 20), nn = r.i(1, 20), nt = r.i(1, 20), nf = r.i(0, 20);
    std::vector<double> ps, ns, ts; std::vector<int> fp, ft, fn;
    for (int i = 0; i < np * 3; i++) ps.push_back(r.u(-5, 5)); for (int i = 0; i < nn; i++) { Vec3 d = r.dir() * r.u(.5, 3); ns.insert(ns.end(), { d.x, d.y, d.z }); } for (int i = 0; i < nt * 2; i++) ts.push_back(r.u(-2, 2));
    for (int i = 0; i < nf * 3; i++) { fp.push_back(r.i(np)); ft.push_back(r.i(nt)); fn.push_back(r.i(nn)); }
    auto make = [&] { return Json{ {"ps", ps}, {"ns", ns}, {"ts", ts}, {"fs", { {"p", fp}, {"t", ft}, {"n", fn} }} }; };
    try {
        auto* m = lm::load<Mesh>("raw", "mesh::raw", make()); auto v = tris(r, m, " [raw]");
        VH_CHECK((int)v.size() == nf, "raw:count", v.size() << " triangles of " << nf);
        for (int i = 0; i < (int)v.size() && i < nf; i++) for (int k = 0; k < 3; k++) {
            auto& p = k == 0 ? v[i].p1 : k == 1 ? v[i].p2 : v[i].p3; int a = fp[3 * i + k], b = ft[3 * i + k], c = fn[3 * i + k];
            VH_CHECK(p.p == Vec3(ps[3 * a], ps[3 * a + 1], ps[3 * a + 2]) && p.t == Vec2(ts[2 * b], ts[2 * b + 1]) && p.n == Vec3(ns[3 * c], ns[3 * c + 1], ns[3 * c + 2]), "raw:vertex", "vertex " << k << " of triangle " << i << " is not the given one");
            if (k == 0) check_uv(r, m, i, v[i], true, " [raw]");
        }
        count("raw meshes");
    } catch (std::exception& e) { violation("raw:rejected", e.what()); }
    // damaged arrays
    Json j = make(); std::string what; int d = r.i(nf ? 12 : 9);
    if (d < 4) { const char* k[] = { "ps", "ns", "ts", "fs" }; j.erase(k[d]); what = std::string("missing ") + k[d]; }
    else if (d == 4) { j["ps"].push_back(1.); what = "incomplete position"; } else if (d == 5) { j["ns"].push_back(1.); what = "incomplete normal"; } else if (d == 6) { j["ts"].push_back(1.); what = "incomplete texture coordinate"; }
    else if (d == 7) { const char* k[] = { "p", "t", "n" }; j["fs"].erase(k[r.i(3)]); what = "missing indices"; }
    else if (d == 8) { const char* k[] = { "p", "t", "n" }; auto& a = j["fs"][k[r.i(3)]]; a.push_back(0); if (r.p(.5)) { a.push_back(0); a.push_back(0); } what = "inconsistent indices"; }
    else { const char* k[] = { "p", "t", "n" }; int w = d - 9, n = w == 0 ? np : w == 1 ? nt : nn; j["fs"][k[w]][r.i(nf * 3)] = r.p(.3) ? -1 - r.i(5) : r.p(.5) ? n : n + r.i(1000000); what = std::string("index out of range ") + k[w]; }
    bool threw = false; try { lm::load<Mesh>("bad", "mesh::raw", j); } catch (std::exception& e) { threw = true; }
    VH_CHECK(threw, "raw:accepted", what << " was accepted"); cover("damage", "raw " + what); count("rejected meshes");
    VH_CHECK(!lm::comp::get<lm::Component>("$.assets.bad"), "raw:left", what << " left an asset behind");
}

int main(int argc, char** argv) {
    parse(argc, argv); lm_init(1);
    auto& A = args(); long long np = A.extra.count("parts") ? atoll(A.extra["parts"].c_str()) : 1, me = A.part.empty() ? 0 : atoll(A.part.c_str());
    ROOT = scratch() + "/obj" + std::to_string(me); for (auto* d : { "", "/a", "/b" }) mkdir((ROOT + d).c_str(), 0755);
    for (int i = 0; i < 7; i++) {      // constant textures with distinct colours
        std::string p = ROOT + "/" + TEX[i]; std::vector<unsigned char> px; bool tga = p.find(".tga") != std::string::npos; int c = tga && i % 2 ? 4 : 3;
        unsigned char q[4] = { (unsigned char)(20 + 30 * i), (unsigned char)(230 - 25 * i), (unsigned char)(i * 11 + 40), (unsigned char)(60 + 20 * i) };
        for (int k = 0; k < 4 * 4; k++) for (int j = 0; j < c; j++) px.push_back(q[j]);
        if (tga) write_tga(p, 4, 4, c, px); else write_pnm(p, 4, 4, c, px);
        TEXC.push_back(Vec3(ldr(q[0]), ldr(q[1]), ldr(q[2]))); TEXA.push_back(c == 4 ? (double)(q[3] / 255.f) : 1.);
    }
    bool plug = A.extra.count("plugin"); if (plug) { auto p = A.extra["plugin"]; lm::comp::load_plugin(p.substr(0, p.rfind(".so"))); }
    long long n = n_cases(1200, 30000);
    for (long long c = me; c < n; c += np) {
        if (!want(c)) continue;
        Rand r(A.seed * 1000003 + c); bool tiny = plug && r.p(.35); int kind = r.i(10);
        begin_case("case " + std::to_string(c) + (tiny ? " tinyobjloader" : " simple")); if (r.p(.3)) lm::reset();
        init_loader(tiny);
        if (kind < 7) valid_file(r, c, tiny); else if (kind < 8) damaged(r, tiny); else raw(r);
    }
    for (int i = 0; i < 7; i++) unlink((ROOT + "/" + TEX[i]).c_str());
    lm::shutdown();
    return finish();
}
