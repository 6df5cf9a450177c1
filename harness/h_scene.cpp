// P02: the scene graph.  Random histories of scene operations (valid and invalid) are run against the
// real scene and an independent model; after every step everything observable is compared.
#include "vscene.h"
#include <lm/scene.h>
#include <lm/accel.h>
#include <lm/mesh.h>
#include <lm/light.h>
#include <lm/camera.h>
#include <lm/material.h>
#include <lm/medium.h>
#include <lm/model.h>
#include <lm/phase.h>
using namespace vh;
using lm::Scene; using lm::SceneNode; using lm::SceneNodeType; using lm::PointGeometry; using lm::Transform;

// A light that records the bound it is given.
class VhLight final : public lm::Light {
public:
    bool env = false; int calls = 0; lm::Bound bound;
    virtual void construct(const Json& prop) override { env = lm::json::value<bool>(prop, "env", false); }
    virtual void set_scene_bound(const lm::Bound& b) override { calls++; bound = b; }
    virtual std::optional<RaySample> sample_ray(const RaySampleU&, const Transform&) const override { return {}; }
    virtual Float pdf_ray(const PointGeometry&, Vec3, const Transform&, bool) const override { return 0; }
    virtual std::optional<DirectionSample> sample_direction(const DirectionSampleU&, const PointGeometry&) const override { return {}; }
    virtual Float pdf_direction(const PointGeometry&, Vec3) const override { return 0; }
    virtual std::optional<PositionSample> sample_position(const PositionSampleU&, const Transform&) const override { return {}; }
    virtual Float pdf_position(const PointGeometry&, const Transform&) const override { return 0; }
    virtual std::optional<RaySample> sample_direct(const RaySampleU&, const PointGeometry&, const Transform&) const override { return {}; }
    virtual Float pdf_direct(const PointGeometry&, const PointGeometry&, const Transform&, Vec3, bool) const override { return 0; }
    virtual bool is_specular() const override { return false; }
    virtual bool is_infinite() const override { return env; }
    virtual bool is_env() const override { return env; }
    virtual bool is_connectable(const PointGeometry&) const override { return false; }
    virtual Vec3 eval(const PointGeometry&, Vec3, bool) const override { return Vec3(0); }
};
LM_COMP_REG_IMPL(VhLight, "light::vh");

class VhMedium final : public lm::Medium {
public:
    bool em = false;
    virtual void construct(const Json& prop) override { em = lm::json::value<bool>(prop, "emitter", false); }
    virtual std::optional<DistanceSample> sample_distance(lm::Rng&, lm::Ray, Float, Float) const override { return {}; }
    virtual Vec3 eval_transmittance(lm::Rng&, lm::Ray, Float, Float) const override { return Vec3(1); }
    virtual bool is_emitter() const override { return em; }
    virtual const lm::Phase* phase() const override { return nullptr; }
};
LM_COMP_REG_IMPL(VhMedium, "medium::vh");

class VhModel final : public lm::Model {
public:
    std::vector<SceneNode> nodes;
    std::vector<std::array<lm::Component*, 3>> prims;
    virtual void create_primitives(const CreatePrimitiveFunc& f) const override { for (auto& p : prims) f(p[0], p[1], p[2]); }
    virtual void foreach_node(const VisitNodeFuncType& f) const override { for (auto& n : nodes) f(n); }
};
LM_COMP_REG_IMPL(VhModel, "model::vh");

struct MN { bool prim = false; lm::Component* a[5] = {}; std::vector<int> ch; bool inst = false; std::optional<Mat4> M; };
struct Model {
    std::vector<MN> n; int cam = -1, env = -1, med = -1;
    void reset() { n.clear(); n.push_back(MN()); cam = env = med = -1; }
    void walk(int i, Mat4 G, const std::function<void(int, const Mat4&)>& f) const {
        if (n[i].prim) { f(i, G); return; }
        Mat4 M = n[i].M ? G * *n[i].M : G;
        for (int c : n[i].ch) walk(c, M, f);
    }
    bool reaches(int from, int to) const { if (from == to) return true; for (int c : n[from].ch) if (reaches(c, to)) return true; return false; }
    long long weight(int i) const { if (n[i].prim) return 1; long long s = 1; for (int c : n[i].ch) s += weight(c); return s; }
    int inst_depth(int i) const { int d = 0; for (int c : n[i].ch) d = std::max(d, inst_depth(c)); return d + (n[i].inst ? 1 : 0); }
};
static bool same(const Mat4& a, const Mat4& b) { double s = 1e-300, e = 0; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { s = std::max(s, std::fabs(b[i][j])); e = std::max(e, std::fabs(a[i][j] - b[i][j])); } return e <= 1e-9 * s; }
static std::string mstr(const Mat4& a) { std::ostringstream o; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) o << a[i][j] << (i == 3 && j == 3 ? "" : " "); return o.str(); }

static void compare(const Scene& s, const Model& m, const std::string& op) {
    auto ctx = [&] { return " [after " + op + "]"; };
    count("comparisons");
    if (s.num_nodes() != (int)m.n.size()) { violation("nodes:count", "the scene has " + std::to_string(s.num_nodes()) + " nodes instead of " + std::to_string(m.n.size()) + ctx()); return; }
    for (int i = 0; i < (int)m.n.size(); i++) {
        const auto& a = s.node_at(i); const auto& b = m.n[i];
        VH_CHECK(a.index == i, "nodes:index", "node " << i << " has index " << a.index << ctx());
        if ((a.type == SceneNodeType::Primitive) != b.prim) { violation("nodes:type", "node " + std::to_string(i) + " has the wrong type" + ctx()); continue; }
        if (b.prim) {
            const void* x[5] = { dynamic_cast<lm::Component*>(a.primitive.mesh), dynamic_cast<lm::Component*>(a.primitive.material), dynamic_cast<lm::Component*>(a.primitive.light), dynamic_cast<lm::Component*>(a.primitive.camera), dynamic_cast<lm::Component*>(a.primitive.medium) };
            static const char* nm[5] = { "mesh", "material", "light", "camera", "medium" };
            for (int k = 0; k < 5; k++) VH_CHECK(x[k] == b.a[k], std::string("nodes:asset-") + nm[k], "node " << i << " refers to the wrong " << nm[k] << ctx());
        } else {
            VH_CHECK(a.group.children == b.ch, "nodes:children", "the children of node " << i << " differ (" << a.group.children.size() << " instead of " << b.ch.size() << ")" << ctx());
            VH_CHECK(a.group.instanced == b.inst, "nodes:instanced", "instancing flag of node " << i << " is " << a.group.instanced << ctx());
            Mat4 x = a.group.local_transform ? *a.group.local_transform : Mat4(1), y = b.M ? *b.M : Mat4(1);
            VH_CHECK(same(x, y), "nodes:transform", "transform of node " << i << " differs" << ctx());
        }
        int seen = 0; s.visit_node(i, [&](const SceneNode& n) { seen++; VH_CHECK(n.index == i, "visit:node", "visiting node " << i << " yields node " << n.index << ctx()); });
        VH_CHECK(seen == 1, "visit:once", "visiting one node calls back " << seen << " times" << ctx());
    }
    VH_CHECK(s.camera_node() == m.cam, "camera-node", "camera node is " << s.camera_node() << ", expected " << m.cam << ctx());
    VH_CHECK(s.env_light_node() == m.env, "env-node", "environment light node is " << s.env_light_node() << ", expected " << m.env << ctx());
    VH_CHECK(s.medium_node() == m.med, "medium-node", "medium node is " << s.medium_node() << ", expected " << m.med << ctx());
    if (m.cam >= 0) VH_CHECK(s.camera() == dynamic_cast<lm::Camera*>(m.n[m.cam].a[3]), "camera", "the camera of the scene is another one" << ctx());
    // traversal
    std::vector<std::pair<int, Mat4>> exp, got;
    m.walk(0, Mat4(1), [&](int i, const Mat4& G) { exp.push_back({ i, G }); });
    s.traverse_primitive_nodes([&](const SceneNode& n, Mat4 G) { if (n.type == SceneNodeType::Primitive) got.push_back({ n.index, G }); });
    VH_CHECK(exp.size() == got.size(), "traverse:count", got.size() << " primitive occurrences traversed instead of " << exp.size() << ctx());
    if (exp.size() == got.size()) {
        // as multisets: every occurrence matches one of the expected ones
        std::vector<char> used(exp.size(), 0);
        for (auto& g : got) {
            bool ok = false;
            for (size_t k = 0; k < exp.size() && !ok; k++) if (!used[k] && exp[k].first == g.first && same(g.second, exp[k].second)) { used[k] = 1; ok = true; }
            if (!ok) { violation("traverse:transform", "primitive node " + std::to_string(g.first) + " is traversed with a transform it does not have: " + mstr(g.second) + ctx()); break; }
        }
        count("occurrences", (long long)exp.size());
    }
    // requirements
    auto need = [&](const char* w, bool have, const std::function<void()>& f) {
        bool th = false; std::string e;
        try { f(); } catch (const lm::Exception& x) { th = true; e = err_code(x); } catch (...) { violation(std::string("require:") + w, "throws something else"); return; }
        VH_CHECK(th == !have, std::string("require:") + w, "requirement " << w << (have ? " is met but reported missing" : " is missing but accepted") << ctx());
        if (th) VH_CHECK(e == "Unsupported", std::string("require-code:") + w, "wrong error code" << ctx());
    };
    need("primitive", m.n.size() > 1, [&] { s.require_primitive(); });
    need("camera", m.cam >= 0, [&] { s.require_camera(); });
    need("light", s.num_lights() > 0, [&] { s.require_light(); });
    need("accel", s.accel() != nullptr, [&] { s.require_accel(); });
    need("renderable", m.n.size() > 1 && m.cam >= 0 && s.num_lights() > 0 && s.accel(), [&] { s.require_renderable(); });
    // classification of interactions
    for (int i = 0; i < (int)m.n.size(); i++) {
        if (!m.n[i].prim) continue;
        auto sp = lm::SceneInteraction::make_surface_interaction(i, PointGeometry::make_degenerated(Vec3(0)));
        VH_CHECK(s.is_light(sp) == (m.n[i].a[2] != nullptr), "is-light", "node " << i << " is" << (s.is_light(sp) ? "" : " not") << " a light" << ctx());
        VH_CHECK(s.is_camera(sp) == (i == m.cam), "is-camera", "node " << i << " is" << (s.is_camera(sp) ? "" : " not") << " the camera" << ctx());
        if (m.n[i].a[4]) {
            auto mp = lm::SceneInteraction::make_medium_interaction(i, PointGeometry::make_degenerated(Vec3(0)));
            VH_CHECK(s.is_light(mp) == dynamic_cast<lm::Medium*>(m.n[i].a[4])->is_emitter(), "is-light-medium", "wrong classification of a point in a medium" << ctx());
        }
    }
}

static void built(Rand& r, const Scene& s, const Model& m, const std::map<lm::Component*, VMesh>& meshes, const std::string& op) {
    auto ctx = [&] { return " [after " + op + "]"; };
    count("builds");
    std::vector<std::pair<int, Mat4>> L; std::set<lm::Component*> lights;
    Vec3 lo(1e10), hi(-1e10); bool any = false;
    m.walk(0, Mat4(1), [&](int i, const Mat4& G) {
        if (m.n[i].a[2]) { L.push_back({ i, G }); lights.insert(m.n[i].a[2]); }
        if (m.n[i].a[0]) for (auto& t : meshes.at(m.n[i].a[0]).tris) for (auto& p : t.p) { Vec3 q = Vec3(G * Vec4(p, 1)); lo = glm::min(lo, q); hi = glm::max(hi, q); any = true; }
    });
    const int n = (int)L.size();
    VH_CHECK(s.num_lights() == n, "lights:count", s.num_lights() << " lights instead of " << n << ctx());
    if (s.num_lights() != n) return;
    std::vector<char> used(n, 0); std::set<int> nodes;
    for (int k = 0; k < n; k++) {
        auto x = s.light_primitive_index_at(k); bool ok = false;
        for (int j = 0; j < n && !ok; j++) if (!used[j] && L[j].first == x.index && same(x.global_transform.M, L[j].second)) { used[j] = 1; ok = true; }
        VH_CHECK(ok, "lights:entry", "light " << k << " (node " << x.index << ") is not an occurrence of a light in the scene with its transform" << ctx());
        nodes.insert(x.index);
        // the derived quantities of the transform belong to the same matrix
        Mat3 nm = glm::transpose(glm::inverse(Mat3(x.global_transform.M)));
        double s1 = 0, e1 = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { s1 = std::max(s1, std::fabs(nm[i][j])); e1 = std::max(e1, std::fabs(nm[i][j] - x.global_transform.normal_M[i][j])); }
        VH_CHECK(e1 <= 1e-8 * s1, "lights:normal-matrix", "the normal matrix of light " << k << " does not belong to its transform" << ctx());
        VH_CHECK(close(std::fabs(x.global_transform.J), std::fabs(glm::determinant(Mat3(x.global_transform.M))), 1e-9), "lights:determinant", "determinant of the transform of light " << k << ctx());
    }
    for (int i : nodes) {
        int k = -1; try { k = s.light_index_at(i); } catch (...) {}
        VH_CHECK(k >= 0 && k < n && s.light_primitive_index_at(k).index == i, "lights:inverse", "light index of node " << i << " is " << k << ", which is not that node" << ctx());
    }
    if (n) {
        std::vector<double> us{ 0, 1 - 1e-16, 1, .5 }; for (int i = 0; i < 40; i++) us.push_back(r.u()); for (int i = 0; i < n; i++) { us.push_back((i + .5) / n); }
        std::vector<long> hist(n, 0);
        for (double u : us) {
            auto ss = s.sample_light_selection(u);
            VH_CHECK(ss.light_index >= 0 && ss.light_index < n, "select:range", "u=" << u << " selects light " << ss.light_index << " of " << n << ctx());
            if (ss.light_index < 0 || ss.light_index >= n) continue;
            double p = s.pdf_light_selection(ss.light_index);
            VH_CHECK(close(ss.p_sel, p) && p > 0, "select:pdf", "probability " << ss.p_sel << " reported, " << p << " evaluated" << ctx());
        }
        // probabilities sum up and are what is sampled
        double sum = 0; for (int k = 0; k < n; k++) sum += s.pdf_light_selection(k);
        VH_CHECK(close(sum, 1, 1e-9), "select:sum", "selection probabilities sum up to " << sum << ctx());
        const int Q = 64 * n; for (int k = 0; k < Q; k++) { int j = s.sample_light_selection((k + .5) / Q).light_index; if (j >= 0 && j < n) hist[j]++; }
        for (int k = 0; k < n; k++) VH_CHECK(std::fabs(hist[k] / (double)Q - s.pdf_light_selection(k)) < 2.5 / Q, "select:frequency", "light " << k << " of " << n << " is selected for a share " << hist[k] / (double)Q << " of the random numbers, its probability is " << s.pdf_light_selection(k) << ctx());
        count("selections", (long long)us.size() + Q);
    }
    for (auto* c : lights) {
        auto* v = dynamic_cast<VhLight*>(c); if (!v) continue;
        VH_CHECK(v->calls > 0, "bound:told", "a light of the scene is not told the extent of the scene" << ctx());
        if (any && v->calls) VH_CHECK(close(v->bound.min, lo, 1e-9, 1e-9) && close(v->bound.max, hi, 1e-9, 1e-9), "bound:value", "a light is told the bound " << str(v->bound.min) << str(v->bound.max) << ", the scene is within " << str(lo) << str(hi) << ctx());
        count("bounds");
    }
    // the environment is met exactly by rays of unlimited length that leave the scene
    Vec3 d = r.dir(), o = (any ? (lo + hi) * .5 : Vec3(0)) + d * (any ? glm::length(hi - lo) + 1 : 1.);
    auto h = s.intersect({ o, d }, lm::Eps, lm::Inf);
    VH_CHECK(bool(h) == (m.env >= 0), "env:miss", "a ray that leaves the scene is " << (h ? "" : "not ") << "reported to meet the environment" << ctx());
    if (h && m.env >= 0) VH_CHECK(h->geom.infinite && h->primitive == m.env && close(h->geom.wo, -d, 1e-12) && h->is_type(lm::SceneInteraction::LightEndpoint), "env:interaction", "wrong interaction with the environment" << ctx());
    VH_CHECK(!s.intersect({ o, d }, lm::Eps, 1e6), "env:limited", "a ray of limited length meets something outside of the scene" << ctx());
}

int main(int argc, char** argv) {
    parse(argc, argv);
    lm_init(1);
    const int part = atoi(args().part.c_str()), parts = args().extra.count("parts") ? atoi(args().extra["parts"].c_str()) : 1;
    std::map<lm::Component*, VMesh> meshes;
    std::vector<std::string> lm_, lmat, ll, lc, lmed, lenv, lmod; std::vector<VhLight*> vl;
    Rand g(5);
    for (int i = 0; i < 5; i++) { VMesh m = gen_mesh(g, mesh_kinds()[i * 2], 6 + i); auto* p = lm::load<lm::Mesh>("mesh" + std::to_string(i), "mesh::raw", mesh_json(m)); meshes[p] = m; lm_.push_back(p->loc()); }
    for (int i = 0; i < 3; i++) lmat.push_back(lm::load<lm::Material>("mat" + std::to_string(i), "material::diffuse", { {"Kd", {.1 * i, .5, .5}} })->loc());
    for (int i = 0; i < 4; i++) { auto* p = lm::load<lm::Light>("light" + std::to_string(i), "light::vh", {}); ll.push_back(p->loc()); vl.push_back(dynamic_cast<VhLight*>(p)); }
    ll.push_back(lm::load<lm::Light>("lightp", "light::point", { {"Le", {1, 1, 1}}, {"position", {0, 0, 0}} })->loc());
    ll.push_back(lm::load<lm::Light>("lightd", "light::directional", { {"Le", {1, 1, 1}}, {"direction", {0, 0, -1}} })->loc());
    for (int i = 0; i < 2; i++) { auto* p = lm::load<lm::Light>("env" + std::to_string(i), "light::vh", { {"env", true} }); lenv.push_back(p->loc()); vl.push_back(dynamic_cast<VhLight*>(p)); }
    lenv.push_back(lm::load<lm::Light>("envc", "light::envconst", { {"Le", {1, 1, 1}} })->loc());
    for (int i = 0; i < 3; i++) lc.push_back(lm::load<lm::Camera>("cam" + std::to_string(i), "camera::pinhole", { {"position", {0., 0., 5. + i}}, {"center", {0, 0, 0}}, {"up", {0, 1, 0}}, {"vfov", 40}, {"aspect", 1} })->loc());
    for (int i = 0; i < 2; i++) lmed.push_back(lm::load<lm::Medium>("med" + std::to_string(i), "medium::vh", { {"emitter", i == 1} })->loc());
    auto* a0 = lm::load<lm::Accel>("accel", "accel::sahbvh", {}); auto* a1 = lm::load<lm::Accel>("accel2", "accel::sahbvh", {});
    auto C = [&](const std::string& l) { return lm::comp::get<lm::Component>(l); };
    const long long N = n_cases(480, 12000);
    for (long long id = part; id < N; id += parts) {
        if (!want(id)) continue;
        Rand r(args().seed * 77777ull + id);
        begin_case("history " + std::to_string(id));
        for (auto* v : vl) { v->calls = 0; v->bound = lm::Bound(); }
        const bool with_accel = r.p(.9);
        auto* s = lm::load<Scene>("scene", "scene::default", with_accel ? Json{ {"accel", a0->loc()} } : Json::object());
        Model m; m.reset(); bool has_accel = with_accel; bool lights_valid = false;
        compare(*s, m, "creation");
        const int steps = r.i(8, 40);
        std::string hist;
        auto group = [&]() { std::vector<int> g; for (int i = 0; i < (int)m.n.size(); i++) if (!m.n[i].prim) g.push_back(i); return r.pick(g); };
        for (int st = 0; st < steps; st++) {
            std::string op; int k = r.i(20);
            const int before = s->num_nodes();
            try {
            if (k < 6) {                // primitives
                Json p = Json::object(); MN n; n.prim = true; bool mesh = false, mat = false, light = false, cam = false, med = false, env = false;
                auto put = [&](const char* key, int slot, const std::vector<std::string>& from) { std::string l = r.pick(from); p[key] = l; n.a[slot] = C(l); };
                if (r.p(.6)) { put("mesh", 0, lm_); mesh = true; if (r.p(.93)) { put("material", 1, lmat); mat = true; } } else if (r.p(.05)) { put("material", 1, lmat); mat = true; }
                if (r.p(.4)) { env = r.p(.3); put("light", 2, env ? lenv : ll); light = true; }
                if (r.p(.25)) { put("camera", 3, lc); cam = true; }
                if (r.p(.2)) { put("medium", 4, lmed); med = true; }
                if (r.p(.05)) p["mesh2"] = "x";
                bool wrongtype = false; if (!mesh && !mat && r.p(.1)) { p["mesh"] = r.pick(ll); wrongtype = true; }       // an asset of another kind
                (void)wrongtype;
                bool bad = (!mesh && !mat && !light && !cam && !med) || (cam && light) || mesh != mat || (env && m.env >= 0);
                op = "create primitive " + p.dump();
                int idx = -2; bool th = false; std::string e;
                try { idx = s->create_primitive_node(p); } catch (const lm::Exception& x) { th = true; e = err_code(x); }
                VH_CHECK(th == bad, "primitive:validity", (bad ? "an invalid primitive is accepted: " : "a valid primitive is rejected: ") << p.dump());
                if (th) { VH_CHECK(e.rfind("InvalidArg", 0) == 0, "primitive:error-code", "wrong error code for " << p.dump()); count("rejected primitives"); }
                else if (!bad) {
                    VH_CHECK(idx == before, "primitive:index", "the new node has index " << idx << " instead of " << before);
                    if (cam) m.cam = idx; if (env) m.env = idx; if (med) m.med = idx;
                    m.n.push_back(n);
                    count("primitives");
                }
            } else if (k < 9) {
                Mat4 M = gen_transform(r, r.i(7)); int idx = s->create_group_node(M); MN n; n.M = M; m.n.push_back(n); op = "create group";
                VH_CHECK(idx == before, "group:index", "the new node has index " << idx);
            } else if (k < 10) {
                int idx = s->create_instance_group_node(); MN n; n.inst = true; m.n.push_back(n); op = "create instance group";
                VH_CHECK(idx == before, "group:index", "the new node has index " << idx);
            } else if (k < 15) {
                int a = r.p(.06) ? r.pick(std::vector<int>{ -1, -5, before, before + 7, 1 << 30 }) : r.p(.1) ? r.i(before) : group();
                int b = r.p(.06) ? r.pick(std::vector<int>{ -1, -5, before, before + 7, 1 << 30 }) : r.i(before);
                bool in = a >= 0 && a < before && b >= 0 && b < before;
                if (in && (!m.n[a].prim) && (m.reaches(b, a) || m.weight(0) + 8 * m.weight(b) > 4000)) continue;      // no cycles, bounded size
                if (in && !m.n[a].prim) { m.n[a].ch.push_back(b); if (m.inst_depth(0) > 1) { m.n[a].ch.pop_back(); continue; } }
                s->add_child(a, b); op = "add child " + std::to_string(b) + " to " + std::to_string(a);
                count(in ? "edges" : "invalid edges");
            } else if (k < 16) {        // generated from models
                std::string name = "model"; auto* md = dynamic_cast<VhModel*>(lm::load<lm::Model>(name, "model::vh", {}));
                int np = r.i(4); for (int i = 0; i < np; i++) { std::string a = r.pick(lm_), b = r.pick(lmat); lm::Component* l = r.p(.4) ? C(r.pick(ll)) : nullptr; md->prims.push_back({ C(a), C(b), l }); }
                int a = r.p(.1) ? r.pick(std::vector<int>{ -1, before }) : r.p(.1) ? r.i(before) : group();
                if (a >= 0 && a < before && m.weight(0) > 3000) continue;
                const bool unknown = r.p(.1);
                s->add_child_from_model(a, unknown ? std::string("$.assets.nonexistent") : md->loc());
                // an unknown locator and a parent that is not a group add nothing
                if (unknown || a < 0 || a >= before || m.n[a].prim) { VH_CHECK(s->num_nodes() == before, "model:refused", "adding the primitives of " << (unknown ? "an unknown model" : "a model to an invalid parent") << " adds " << s->num_nodes() - before << " nodes"); count("refused models"); }
                else { for (auto& q : md->prims) { MN n; n.prim = true; n.a[0] = q[0]; n.a[1] = q[1]; n.a[2] = q[2]; m.n[a].ch.push_back((int)m.n.size()); m.n.push_back(n); } count("model primitives", np); }
                op = "add primitives of a model to " + std::to_string(a);
            } else if (k < 17) {        // sub-graph of a model
                auto* md = dynamic_cast<VhModel*>(lm::load<lm::Model>("model", "model::vh", {}));
                Model sub; sub.reset(); md->nodes.push_back(SceneNode::make_group(0, false, {}));
                int nn = r.i(1, 6);
                for (int i = 1; i <= nn; i++) {
                    MN n;
                    if (r.p(.4)) { n.M = gen_transform(r, r.i(7)); md->nodes.push_back(SceneNode::make_group(i, false, n.M)); }
                    else {
                        n.prim = true; bool cam = r.p(.2);
                        if (cam) n.a[3] = C(r.pick(lc)); else { n.a[0] = C(r.pick(lm_)); n.a[1] = C(r.pick(lmat)); if (r.p(.3)) n.a[2] = C(r.pick(ll)); }
                        md->nodes.push_back(SceneNode::make_primitive(i, dynamic_cast<lm::Mesh*>(n.a[0]), dynamic_cast<lm::Material*>(n.a[1]), dynamic_cast<lm::Light*>(n.a[2]), dynamic_cast<lm::Camera*>(n.a[3]), nullptr));
                    }
                    sub.n.push_back(n);
                    for (int j = i - 1; j >= 0; j--) if (!sub.n[j].prim && (r.p(.6) || j == 0)) { sub.n[j].ch.push_back(i); md->nodes[j].group.children.push_back(i); break; }
                }
                bool bad = r.p(.15);
                int idx = s->create_group_from_model(bad ? std::string("$.assets.mesh0") : md->loc());
                if (bad) VH_CHECK(idx == -1, "model:invalid", "a group is created from something that is not a model");
                else {
                    VH_CHECK(idx == before, "model:index", "the group of the model has index " << idx << " instead of " << before);
                    for (int i = 0; i < (int)sub.n.size(); i++) { MN n = sub.n[i]; for (int& c : n.ch) c += before; if (n.a[3]) m.cam = before + i; m.n.push_back(n); }
                    count("model graphs");
                }
                op = "create group from model";
            } else if (k < 18) {
                bool add = r.p(.5); op = "add (transformed) primitive";
                Mat4 M = gen_transform(r, r.i(7)); std::string a = r.pick(lm_), b = r.pick(lmat);
                if (add) s->add_primitive({ {"mesh", a}, {"material", b} }); else s->add_transformed_primitive(M, { {"mesh", a}, {"material", b} });
                MN gnode; gnode.M = add ? Mat4(1) : M; gnode.ch = { before + 1 }; m.n.push_back(gnode);
                MN pn; pn.prim = true; pn.a[0] = C(a); pn.a[1] = C(b); m.n.push_back(pn); m.n[0].ch.push_back(before);
                count("primitives");
            } else if (k == 18) {
                if (r.p(.3)) { std::string l = r.pick(std::vector<std::string>{ a0->loc(), a1->loc() }); s->set_accel(l); has_accel = true; VH_CHECK(s->accel() == dynamic_cast<lm::Accel*>(C(l)), "accel:set", "the acceleration structure is not the one set"); op = "set accel"; }
                else if (r.p(.3)) { s->reset(); m.reset(); op = "reset"; VH_CHECK(s->num_lights() == 0, "reset:lights", "lights after a reset"); count("resets"); }
                else continue;
            } else {
                op = "build";
                bool th = false;
                for (auto* v : vl) { v->calls = 0; v->bound = lm::Bound(); }
                try { s->build(); } catch (const lm::Exception& x) { th = true; VH_CHECK(err_code(x) == "Unsupported", "build:code", "wrong error code"); }
                VH_CHECK(th == !has_accel, "build:accel", (has_accel ? "building fails" : "building without acceleration structure succeeds"));
                if (!th) { built(r, *s, m, meshes, "history " + std::to_string(id) + " step " + std::to_string(st) + hist); }
                (void)lights_valid;
            }
            } catch (const std::exception& e) { violation("unexpected-exception", op + ": " + e.what()); break; }
            hist += "; " + op; if (hist.size() > 1500) hist = "..." + hist.substr(hist.size() - 1200);
            cover("operations", op.substr(0, op.find(' ', op.find(' ') + 1)));
            count("operations");
            compare(*s, m, "history " + std::to_string(id) + " step " + std::to_string(st) + hist);
        }
        cover("graph shapes", std::to_string(m.n.size()) + "/" + std::to_string(m.weight(0)) + "/" + std::to_string(m.inst_depth(0)));
        if (id < 3 * parts && id >= part) sample("history " + std::to_string(id) + hist.substr(0, 400));
        if (has_accel) { s->build(); built(r, *s, m, meshes, "history " + std::to_string(id) + " end" + hist); }
        if (st().violations > 50) break;
    }
    return finish();
}
