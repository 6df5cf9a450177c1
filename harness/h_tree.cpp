// P24: the asset tree as it is shown.  For random trees that use every component, before and after replacing,
// saving and restoring assets, the listing and the visits are compared with what the parameters say.
#include "vasset.h"
#include <lm/debug.h>
using namespace vh;

struct Line { int indent; std::string msg; };
static std::vector<Line> g_lines; static int g_ind = 0;
struct RecL : public lm::log::LoggerContext {
    void log(lm::log::LogLevel, int, const char*, int, const char* m) override { g_lines.push_back({ g_ind, m }); }
    void update_indentation(int n) override { g_ind += n; } void set_severity(int) override {}
};
LM_COMP_REG_IMPL(RecL, "logger::vhrec");

// what a component owns and refers to
struct Node { std::string name, key; std::vector<Node> own; std::multiset<std::string> refs; };
static void show(const Node& n, bool refs, const std::string& path, std::multiset<std::string>& out) {
    const std::string p = path + "/" + n.name + " [" + n.key + "]"; out.insert(p);
    if (refs) for (auto& r : n.refs) out.insert(p + "/-> " + r);
    for (auto& c : n.own) show(c, refs, p, out);
}
static Node expected(const World& w, const Spec& s, const ScenePlan& plan, const std::map<std::string, bool>& alpha, bool model) {
    Node n; n.name = "." + s.name; n.key = s.key; for (auto& d : s.deps) n.refs.insert(w.ref(d));
    const std::string me = w.ref(s.name);
    if (s.key == "scene::default") {
        for (auto& p : plan.prims) for (auto& x : p) if (!x.empty()) n.refs.insert(w.ref(x));
        if (model) if (auto* m = lm::comp::get<lm::Model>(w.ref("model"))) m->create_primitives([&](lm::Component* a, lm::Component* b, lm::Component* l) { for (auto* c : { a, b, l }) if (c) n.refs.insert(c->loc()); });
    } else if (s.key == "light::env") { Node t; t.name = ".envmap"; t.key = "texture::bitmap"; n.own.push_back(t); }
    else if (s.key == "material::mixture_wavefrontobj") {
        n.refs.clear(); Node d, g; d.name = ".diffuse"; d.key = "material::diffuse"; g.name = ".glossy"; g.key = "material::glossy";
        if (!s.deps.empty()) { d.refs.insert(w.ref(s.deps[0])); if (!s.prop["no_alpha_mask"].get<bool>() && alpha.at(s.deps[0])) n.refs.insert(w.ref(s.deps[0])); }
        n.own = { d, g };
    } else if (s.key.rfind("renderer::", 0) == 0 && s.key != "renderer::blank") {
        Node c; c.name = ".scheduler"; const bool pixels = s.key == "renderer::raycast" || s.key.rfind("renderer::volpt", 0) == 0 || (s.key == "renderer::pt" && s.prop.value("primary_ray_sampling_mode", std::string("pixel")) == "pixel");
        const std::string how = s.key == "renderer::raycast" ? std::string("sample") : s.prop["scheduler"].get<std::string>();
        c.key = std::string(pixels ? "scheduler::spp::" : "scheduler::spi::") + how; if (pixels) c.refs.insert(s.prop["output"].get<std::string>()); n.own.push_back(c);
    } else if (s.key == "model::wavefrontobj") {
        // the meshes and materials of the file (and the lights, none here), and the texture of one material
        const std::string tex = me + ".t_tga";
        std::set<std::string> mats; int meshes = 0;
        if (auto* m = lm::comp::get<lm::Model>(me)) m->create_primitives([&](lm::Component* a, lm::Component* b, lm::Component*) {
            Node x; x.name = a->loc().substr(me.size()); x.key = "mesh::wavefrontobj_ref"; x.refs.insert(me); n.own.push_back(x); meshes++; mats.insert(b->loc().substr(me.size() + 1)); });
        VH_CHECK(meshes == 4 && mats.size() == 4, "model:primitives", "a model with four groups and materials gives " << meshes << " primitives with " << mats.size() << " materials");
    }
    return n;
}
static std::multiset<std::string> listing(bool refs, std::string& err) {
    g_lines.clear(); g_ind = 0; lm::log::init("vhrec"); try { lm::debug::print_asset_tree(refs); } catch (const std::exception& e) { err = e.what(); }
    lm::log::init(); lm::log::set_severity(1000000);
    std::multiset<std::string> out; std::vector<std::string> path; bool first = true;
    for (auto& l : g_lines) {
        if (first) { if (l.msg != "$.assets" || l.indent != 0) err = "the first line is '" + l.msg + "'"; first = false; continue; }
        const int d = l.indent - 1; if (d < 0 || d > (int)path.size()) { err = "the line '" + l.msg + "' has indentation " + std::to_string(l.indent); break; }
        path.resize(d); std::string p; for (auto& x : path) p += "/" + x; out.insert(p + "/" + l.msg); path.push_back(l.msg);
    }
    if (g_ind != 0) err = "the indentation is left at " + std::to_string(g_ind);
    return out;
}
static std::string difference(const std::multiset<std::string>& a, const std::multiset<std::string>& b) {
    for (auto& x : a) if (a.count(x) != b.count(x)) return "'" + x + "' is listed " + std::to_string(b.count(x)) + " times instead of " + std::to_string(a.count(x));
    for (auto& x : b) if (a.count(x) != b.count(x)) return "'" + x + "' is listed " + std::to_string(b.count(x)) + " times instead of " + std::to_string(a.count(x));
    return "";
}
// The models list more than their primitives (materials without faces, textures): their part is compared with
// the model's own visits, and the primitives have to be there.
static void check(const std::vector<Node>& roots, const std::string& base, const std::string& what) {
    for (bool refs : { false, true }) {
        std::multiset<std::string> exp, model; for (auto& n : roots) show(n, refs, "", exp);
        std::string err; auto got = listing(refs, err); VH_CHECK(err.empty(), "listing:form", what << ": " << err);
        auto in_model = [](const std::string& s) { return s.find("/.model [model::wavefrontobj]/") != std::string::npos; };
        std::multiset<std::string> a, b, ma, mb; for (auto& x : exp) (in_model(x) ? ma : a).insert(x); for (auto& x : got) (in_model(x) ? mb : b).insert(x);
        std::string d = difference(a, b); VH_CHECK(d.empty(), std::string("listing:") + (refs ? "references" : "owned"), what << ": " << d);
        for (auto& x : ma) VH_CHECK(mb.count(x) == ma.count(x), "listing:model", what << ": '" << x << "' is listed " << mb.count(x) << " times instead of " << ma.count(x));
        if (!ma.empty()) {
            // four materials (a with lobes, b with a texture, glass and a mirror), the lobes and the texture
            int n = 0, lob = 0, t = 0; for (auto& x : mb) { const std::string y = x.substr(x.find("/.model [model::wavefrontobj]/") + 30); if (y.find("-> ") != std::string::npos) continue; const bool deep = y.find('/') != std::string::npos; if (deep) lob++; else if (y.find("[material::") != std::string::npos) n++; else if (y.find("[texture::bitmap]") != std::string::npos) t++; }
            VH_CHECK(n == 4 && t == 1 && lob == 4, "listing:model-parts", what << ": a model with four materials, two of them mixtures, and a texture lists " << n << " materials, " << lob << " parts of them and " << t << " textures"); 
        }
        count("listings"); count("listed lines", (long long)got.size());
    }
    // every visited component is the one at its locator, owned ones below their owner and only once
    std::set<lm::Component*> owned; std::set<std::string> locs;
    std::function<void(lm::Component*)> walk = [&](lm::Component* o) {
        const std::string ol = o->loc();
        o->foreach_underlying([&](lm::Component*& c, bool weak) {
            if (!c) return; count("visits");
            VH_CHECK(lm::comp::get<lm::Component>(c->loc()) == c, "visit:locator", what << ": '" << ol << "' visits a component with locator '" << c->loc() << "' that is not the one found there");
            if (weak) return;
            VH_CHECK(c->loc().rfind(ol + ".", 0) == 0 && c->loc().find('.', ol.size() + 1) == std::string::npos && c->parent_loc() == ol, "visit:owner", what << ": '" << ol << "' owns '" << c->loc() << "'");
            VH_CHECK(owned.insert(c).second && locs.insert(c->loc()).second, "visit:twice", what << ": '" << c->loc() << "' has two owners"); walk(c);
        });
    };
    walk(lm::assets()); (void)base;
}

static void polling(Rand& r) {
    std::vector<Json> got; const bool reg = r.p(.8); lm::debug::reg_on_poll(nullptr); lm::debug::poll({ {"x", 1} });
    if (reg) lm::debug::reg_on_poll([&](const Json& j) { got.push_back(j); });
    std::vector<Json> sent; for (int k = r.i(0, 8); k > 0; k--) { Json j; switch (r.i(5)) { case 0: j = r.i(100000); break; case 1: j = r.u(); break; case 2: j = { {"id", "path"}, {"path", { jv(r.v3()), jv(r.v3()) }} }; break; case 3: j = Json::array({ 1, "x", nullptr, true }); break; default: break; } sent.push_back(j); lm::debug::poll(j); }
    if (!reg) sent.clear();
    VH_CHECK(got == sent, "poll:values", "of " << sent.size() << " polled values " << got.size() << " arrive, or they differ");
    std::vector<Json> other; lm::debug::reg_on_poll([&](const Json& j) { other.push_back(j); }); lm::debug::poll(5); VH_CHECK(got == sent && other.size() == 1, "poll:replaced", "a replaced function still receives values");
    lm::debug::reg_on_poll(nullptr); lm::debug::poll(6); VH_CHECK(other.size() == 1, "poll:removed", "a removed function still receives values");
    bool th = false; lm::debug::reg_on_poll([](const Json&) { throw std::runtime_error("stop"); }); try { lm::debug::poll(1); } catch (const std::runtime_error&) { th = true; } VH_CHECK(th, "poll:error", "the error of the function is lost"); lm::debug::reg_on_poll(nullptr);
    count("polled values", (long long)sent.size() + 4);
}

int main(int argc, char** argv) {
    parse(argc, argv);
    // without initialisation there is no tree
    begin_case("not initialised"); { bool th = false; std::string code; try { lm::debug::print_asset_tree(true); } catch (const std::exception& e) { th = true; code = err_code(e); } VH_CHECK(th && code.rfind("Uninitialized", 0) == 0, "listing:uninitialised", "listing the assets without initialisation gives '" << code << "'"); }
    { bool th = false; try { lm::debug::attach_to_debugger(); } catch (const std::exception& e) { th = err_code(e).rfind("Unsupported", 0) == 0; } VH_CHECK(th, "debugger:unsupported", "attaching to a debugger does not report that it is not supported"); }
    lm_init(1);
    const int part = atoi(args().part.c_str()), parts = args().extra.count("parts") ? atoi(args().extra["parts"].c_str()) : 1;
    const std::string dir = scratch(); const long long N = n_cases(1000, 20000);
    for (long long id = part; id < N; id += parts) {
        if (!want(id)) continue;
        Rand r(args().seed * 51343ull + id); begin_case("tree " + std::to_string(id));
        try {
        polling(r);
        lm::reset(); std::string base = "$.assets"; lm::AssetGroup* g = lm::assets(); std::vector<std::string> groups;
        for (int k = r.i(4) == 0 ? r.i(1, 3) : 0; k > 0; k--) { std::string n = "grp" + std::to_string(k); g = dynamic_cast<lm::AssetGroup*>(g->load_asset(n, "asset_group::default", {})); base += "." + n; groups.push_back(n); if (!g) break; }
        if (!g) { violation("group", "a nested group of assets is not created"); continue; }
        const bool media = r.p(.7), model = r.p(.6), filled = r.p(.85); World w = make_world(r, base, dir, true, media);
        for (auto& s : w.s) if (s.key.rfind("renderer::", 0) == 0 && s.prop.count("scheduler") && r.p(.3)) { s.prop["scheduler"] = "time"; s.prop["render_time"] = .1; }
        if (model) { Spec s; s.name = "model"; s.key = "model::wavefrontobj"; s.prop = { {"path", obj_files(r, dir, (int)(id % 20))} }; w.s.push_back(s); }
        if (!load_world(g, w)) continue;
        ScenePlan plan; if (filled) { plan = plan_scene(r, w, media); auto* sc = lm::comp::get<lm::Scene>(base + ".scene"); fill_scene(sc, w, plan); if (model) { int k = sc->create_group_node(Mat4(1)); sc->add_child_from_model(k, base + ".model"); sc->add_child(0, k); if (r.p(.5)) sc->build(); } }
        auto tree = [&]() {
            std::map<std::string, bool> alpha; for (auto& s : w.s) if (auto* t = lm::comp::get<lm::Texture>(w.ref(s.name))) alpha[s.name] = t->has_alpha();
            std::vector<Node> v; for (auto& s : w.s) v.push_back(expected(w, s, plan, alpha, model && filled));
            for (int i = (int)groups.size() - 1; i >= 0; i--) { Node n; n.name = "." + groups[i]; n.key = "asset_group::default"; n.own = v; v = { n }; }
            return v;
        };
        check(tree(), base, "created");
        cover("structure", std::to_string(groups.size()) + (media ? " media" : "") + (model ? " model" : "") + (filled ? " scene" : ""));
        for (int k = r.i(0, 4); k > 0; k--) {       // the same asset again: nothing may change
            auto& s = w.s[r.i((int)w.s.size())]; if (s.name == "scene" || s.name == "model") continue;
            g->load_asset(s.name, s.key, s.prop); count("replacements");
        }
        check(tree(), base, "replaced");
        if (r.p(.5)) { lm::save_state_to_file(dir + "/state"); lm::reset(); { std::string e; auto l = listing(true, e); VH_CHECK(l.empty() && e.empty(), "listing:reset", "assets are listed after a reset: " << (l.empty() ? e : *l.begin())); } lm::load_state_from_file(dir + "/state"); check(tree(), base, "restored"); count("restored"); }
        if (id < 3) { std::string e; auto l = listing(true, e); std::string t; for (auto& x : l) t += x + "\n"; sample(t.substr(0, 600)); }
        } catch (const std::exception& e) { violation("unexpected-exception", e.what()); }
        if (st().violations > 60) break;
    }
    return finish();
}
