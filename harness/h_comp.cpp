// P05: the component system.  Random histories of registration, creation and release, of trees and locators,
// of plugins and of initialisation and shutdown are compared with a model; components count themselves.
#include "vasset.h"
#include "vh_plugin.h"
using namespace vh;

struct IA : public lm::Component { virtual int id() const = 0; };
struct IB : public lm::Component { virtual int id() const = 0; };
static long long g_made = 0, g_dead = 0;
struct Tracked { int gen; bool alive = true; int released_by = -1; int constructs = 0; Json prop; };
static std::vector<Tracked> g_t;
static int g_fail_construct = 0;      // 1: construct throws
struct CA : public IA {
    int me; explicit CA(int gen) { me = (int)g_t.size(); g_t.push_back({ gen }); g_made++; }
    ~CA() override { g_t[me].alive = false; g_dead++; }
    int id() const override { return me; }
    void construct(const Json& j) override { g_t[me].constructs++; g_t[me].prop = j; if (g_fail_construct) throw std::runtime_error("construct"); }
};
struct CB : public IB {
    int me; explicit CB(int gen) { me = (int)g_t.size(); g_t.push_back({ gen }); g_made++; }
    ~CB() override { g_t[me].alive = false; g_dead++; }
    int id() const override { return me; }
    void construct(const Json& j) override { g_t[me].constructs++; g_t[me].prop = j; if (g_fail_construct) throw std::runtime_error("construct"); }
};
static int idof(lm::Component* p) { if (auto* a = dynamic_cast<IA*>(p)) return a->id(); if (auto* b = dynamic_cast<IB*>(p)) return b->id(); return -1; }

static std::set<std::string> registered() { std::set<std::string> s; lm::comp::foreach_registered([&](const std::string& n) { VH_CHECK(s.insert(n).second, "registry:twice", "key '" << n << "' is listed twice"); }); return s; }

static void registry(Rand& r) {
    struct E { int gen; bool isA; };
    std::map<std::string, E> reg; std::map<std::string, std::string> alias; int gen = 0;
    const std::set<std::string> base = registered();
    struct Held { lm::Component::Ptr<lm::Component> p; int id, gen; std::string key, loc; };
    std::vector<Held> held; std::set<int> gone;
    auto check_released = [&](int id, int g, const char* how) {
        VH_CHECK(!g_t[id].alive, "release:leak", how << ": an instance is not destroyed");
        VH_CHECK(g_t[id].released_by == g, "release:wrong", how << ": an instance created by registration " << g << " is released by " << g_t[id].released_by);
    };
    const std::vector<std::string> keys{ "vh::k0", "vh::k1", "vh::k2", "vh::long::key::with::parts", "vh::K0" }, als{ "vh::a0", "vh::a1", "vh::a2" };
    const int steps = r.i(5, 60);
    for (int k = 0; k < steps; k++) {
        const int op = r.i(10);
        if (op < 3) {
            std::string key = r.pick(keys), al = r.p(.5) ? r.pick(als) : std::string(); const int g = gen++; const bool isA = r.p(.5);
            lm::comp::detail::reg(key, al, [g, isA]() -> lm::Component* { if (isA) return new CA(g); return new CB(g); }, [g](lm::Component* p) { const int i = idof(p); if (g_t[i].released_by != -1) violation("release:twice", "an instance is released twice"); g_t[i].released_by = g; delete p; });
            reg[key] = { g, isA }; if (!al.empty()) alias[al] = key;
        } else if (op == 3) {
            if (reg.empty()) continue;
            std::string key = r.p(.9) ? std::next(reg.begin(), r.i((int)reg.size()))->first : std::string("vh::never"); std::string al;
            if (r.p(.6)) for (auto& a : alias) if (a.second == key) al = a.first;
            lm::comp::detail::unreg(key, al); reg.erase(key); if (!al.empty()) alias.erase(al);
        } else if (op < 8) {
            std::string name = r.p(.3) ? r.pick(als) : r.p(.9) ? r.pick(keys) : r.pick(std::vector<std::string>{ "", "vh::none", "vh::k", "vh::k0 ", "k0", "vh::k0::x" });
            std::string key = alias.count(name) ? alias[name] : name; auto it = reg.find(key);
            std::string loc = r.p(.3) ? std::string() : r.p(.5) ? std::string("$.x.y") : std::string("$.assets.n" + std::to_string(k));
            const int want = r.i(3); g_fail_construct = r.p(.15); const bool noconstruct = !g_fail_construct && r.p(.3); const long long made = g_made; const size_t first = g_t.size();
            Json prop{ {"k", k}, {"s", "x"} }; lm::Component::Ptr<lm::Component> p; bool th = false; 
            try {
                if (noconstruct) { if (want == 0) { auto q = lm::comp::create_without_construct<lm::Component>(name, loc); p = std::move(q); } else if (want == 1) p = lm::comp::create_without_construct<IA>(name, loc); else p = lm::comp::create_without_construct<IB>(name, loc); }
                else { if (want == 0) p = lm::comp::create<lm::Component>(name, loc, prop); else if (want == 1) p = lm::comp::create<IA>(name, loc, prop); else p = lm::comp::create<IB>(name, loc, prop); }
            } catch (const std::exception&) { th = true; }
            const bool fits = it != reg.end() && (want == 0 || (want == 1) == it->second.isA);
            count("creations");
            if (it == reg.end()) { VH_CHECK(!p && !th && g_made == made, "create:unknown", "creating the unknown '" << name << "' does not give null"); count("creations.unknown"); }
            else {
                VH_CHECK(g_made == made + 1, "create:count", "creating '" << name << "' makes " << g_made - made << " instances");
                if (!fits) { VH_CHECK(!p && !th, "create:interface", "creating '" << name << "' with a wrong interface does not give null"); if (g_t.size() == first + 1) check_released((int)first, it->second.gen, "wrong interface"); count("creations.wrong interface"); }
                else if (g_fail_construct) { VH_CHECK(!p && th, "create:construct", "the error of a failing construction is lost"); if (g_t.size() == first + 1) check_released((int)first, it->second.gen, "failed construction"); count("creations.failing"); }
                else {
                    VH_CHECK(p && !th, "create:null", "creating the registered '" << name << "' gives null");
                    if (p) {
                        const int id = idof(p.get());
                        VH_CHECK(g_t[id].gen == it->second.gen, "create:override", "'" << name << "' creates registration " << g_t[id].gen << ", the latest is " << it->second.gen);
                        VH_CHECK(p->key() == key, "create:key", "key() is '" << p->key() << "' instead of '" << key << "'");
                        VH_CHECK(p->loc() == loc, "create:loc", "loc() is '" << p->loc() << "' instead of '" << loc << "'");
                        VH_CHECK(g_t[id].constructs == (noconstruct ? 0 : 1), "create:constructs", "constructed " << g_t[id].constructs << " times");
                        if (!noconstruct) VH_CHECK(g_t[id].prop == prop, "create:prop", "the properties are not passed on");
                        if (!loc.empty()) { auto d = loc.find_last_of('.'); VH_CHECK(p->parent_loc() == loc.substr(0, d) && p->name() == loc.substr(d + 1) && p->make_loc("c") == loc + ".c", "create:names", "name '" << p->name() << "', parent '" << p->parent_loc() << "' of '" << loc << "'"); }
                        held.push_back({ std::move(p), id, it->second.gen, key, loc });
                    }
                }
            }
            g_fail_construct = 0;
        } else if (op == 8 && !held.empty()) {
            const int i = r.i((int)held.size()); const int id = held[i].id, g = held[i].gen;
            VH_CHECK(g_t[id].alive, "release:early", "an instance is destroyed while it is owned");
            held[i].p.reset(); check_released(id, g, "release"); count("releases"); held.erase(held.begin() + i);
        } else {
            auto s = registered(); std::set<std::string> exp = base; for (auto& e : reg) exp.insert(e.first);
            VH_CHECK(s == exp, "registry:list", "the list of registered components has " << s.size() << " entries instead of " << exp.size()); count("listings");
        }
        for (auto& h : held) VH_CHECK(g_t[h.id].alive && h.p->key() == h.key && h.p->loc() == h.loc, "instance:changed", "an owned instance changed or died");
    }
    for (auto& h : held) { h.p.reset(); check_released(h.id, h.gen, "end"); count("releases"); }
    for (auto& e : reg) lm::comp::detail::unreg(e.first, ""); for (auto& a : alias) lm::comp::detail::unreg("vh::none", a.first);
    VH_CHECK(registered() == base, "registry:restore", "unregistering everything does not restore the registry");
    VH_CHECK(g_made == g_dead, "release:balance", g_made - g_dead << " instances are left");
}

// ---- trees -----------------------------------------------------------------------------------------------
struct TNode : public lm::Component {
    std::map<std::string, std::unique_ptr<TNode>> c;
    Component* underlying(const std::string& n) const override { auto i = c.find(n); return i == c.end() ? nullptr : i->second.get(); }
};
static void tree(Rand& r) {
    lm::Component* user = lm::comp::get<lm::Component>("$");
    TNode root; lm::comp::detail::Access::loc(&root) = "$"; lm::comp::detail::register_root_comp(&root);
    std::map<std::string, lm::Component*> all{ { "$", &root } };
    std::function<void(TNode&, const std::string&, int)> grow = [&](TNode& n, const std::string& loc, int d) {
        const int k = d > 5 ? 0 : r.i(d == 0 ? 1 : 0, 4);
        for (int i = 0; i < k; i++) { std::string nm = r.pick(std::vector<std::string>{ "a", "b", "ab", "a-b", "a::b", "assets", "$", "0", "_", "A" }); if (n.c.count(nm)) continue; n.c[nm] = std::make_unique<TNode>(); lm::comp::detail::Access::loc(n.c[nm].get()) = loc + "." + nm; all[loc + "." + nm] = n.c[nm].get(); grow(*n.c[nm], loc + "." + nm, d + 1); }
    };
    grow(root, "$", 0);
    for (auto& x : all) { VH_CHECK(lm::comp::get<lm::Component>(x.first) == x.second, "get:found", "'" << x.first << "' is not found"); VH_CHECK(lm::comp::get<lm::Film>(x.first) == nullptr, "get:type", "a component of another type is returned for '" << x.first << "'"); count("locators.present"); }
    for (int k = 0; k < 40; k++) {
        std::string s = std::next(all.begin(), r.i((int)all.size()))->first;
        switch (r.i(9)) { case 0: s += ".zz"; break; case 1: s = s.substr(1); break; case 2: s.insert(r.i((int)s.size()), "."); break; case 3: s = "x" + s; break; case 4: s = s.substr(0, r.i((int)s.size())); break; case 5: s += ".a.b.c.d"; break; case 6: s = ""; break; case 7: s = " " + s; break; default: { auto d = s.find('.'); if (d != std::string::npos) s.insert(d, "."); } }
        auto it = all.find(s); lm::Component* p = lm::comp::get<lm::Component>(s);
        count("locators.altered");
        if (it != all.end()) VH_CHECK(p == it->second, "get:found", "'" << s << "' is not found");
        else { std::string t = s; bool trail = !t.empty() && t.back() == '.'; if (trail) t.pop_back(); auto i2 = all.find(t); VH_CHECK(p == nullptr || (trail && i2 != all.end() && p == i2->second), "get:missing", "the locator '" << s << "' leads to '" << (p ? p->loc() : "") << "'"); }
    }
    TNode other; lm::comp::detail::Access::loc(&other) = "$.x"; bool th = false; try { lm::comp::detail::register_root_comp(&other); } catch (const std::exception&) { th = true; }
    VH_CHECK(th && lm::comp::get<lm::Component>("$") == &root, "root:rejected", "a root with another locator is accepted");
    lm::comp::detail::register_root_comp(user);
    VH_CHECK(lm::comp::get<lm::Component>("$") == user, "root:set", "the root is not the registered one");
}

// ---- real assets -----------------------------------------------------------------------------------------
static void assets(Rand& r, const std::string& dir, long long id) {
    lm::reset();
    World w = make_world(r, "$.assets", dir, true, true);
    Spec s; s.name = "model"; s.key = "model::wavefrontobj"; s.prop = { {"path", obj_files(r, dir, (int)(id % 10))} }; w.s.push_back(s);
    if (!load_world(lm::assets(), w)) return;
    ScenePlan plan = plan_scene(r, w, true); fill_scene(lm::comp::get<lm::Scene>("$.assets.scene"), w, plan);
    for (auto& x : w.s) {
        auto* c = lm::comp::get<lm::Component>(w.ref(x.name));
        VH_CHECK(c && c->loc() == w.ref(x.name) && c->name() == x.name && c->key() == x.key && c->parent_loc() == "$.assets", "assets:names", "asset '" << x.name << "' is named '" << (c ? c->loc() : "nothing") << "'");
        if (!c) continue;
        for (auto* n : { "none", "", "$", "assets", "mesh_99", "scheduler", "a.b", "mapKd", "diffuse" }) { 
            lm::Component* u = nullptr; std::string e; try { u = lm::comp::get<lm::Component>(w.ref(x.name) + "." + n); } catch (const std::exception& ex) { e = ex.what(); }
            VH_CHECK(e.empty(), "get:throws:" + x.key, "asking '" << x.key << "' for '" << n << "' throws: " << e);
            count("locators.asset"); (void)u; }
    }
    locators(lm::assets(), "$.assets", "created assets");
    // names
    const size_t before = [&] { size_t n = 0; lm::Component::ComponentVisitor v = [&](lm::Component*&, bool) { n++; }; lm::assets()->foreach_underlying(v); return n; }();
    for (auto* n : { "", "a.b", "$", "a b", "x/y", "\n", "a$", ".", "ü" }) {
        lm::Component* c = nullptr; bool th = false; try { c = lm::assets()->load_asset(n, "texture::constant", { {"color", {1, 1, 1}} }); } catch (const std::exception&) { th = true; }
        VH_CHECK(!c, "assets:badname", "the asset name '" << n << "' is accepted"); count("names.rejected"); (void)th;
    }
    size_t after = 0; { lm::Component::ComponentVisitor v = [&](lm::Component*&, bool) { after++; }; lm::assets()->foreach_underlying(v); }
    VH_CHECK(before == after, "assets:badname-count", "rejected names change the number of assets from " << before << " to " << after);
    for (auto* n : { "a", "A-b_c", "x::y", "0", "-", "_", "a0" }) { auto* c = lm::assets()->load_asset(n, "texture::constant", { {"color", {1, 1, 1}} }); VH_CHECK(c && lm::comp::get<lm::Texture>(std::string("$.assets.") + n) == c, "assets:goodname", "the asset name '" << n << "' is not usable"); count("names.accepted"); }
}

// ---- plugins ---------------------------------------------------------------------------------------------
static void plugins(Rand& r, const std::string& dir, const std::string& so) {
    if (so.empty()) return;
    const std::string pd = dir + "/plug" + std::to_string(r.i(1000000)); mkdir(pd.c_str(), 0755);
    auto bytes = read_file(so); write_file(pd + "/vh_plugin.so", bytes); write_file(pd + "/broken.so", "not a library"); write_file(pd + "/readme.txt", "x"); mkdir((pd + "/dir.so").c_str(), 0755);
    const std::string name = pd + "/vh_plugin"; bool loaded = false; lm::Component::Ptr<vhplug::Plug> keep;
    for (int k = r.i(3, 14); k > 0; k--) {
        count("plugin operations"); bool th = false; std::string code;
        switch (r.i(6)) {
        case 0: try { lm::comp::load_plugin(name); } catch (const std::exception& e) { th = true; } VH_CHECK(!th, "plugin:load", "loading a plugin fails"); loaded = true; break;
        case 1: { keep.reset(); try { lm::comp::unload_plugin(name); } catch (const std::exception& e) { th = true; code = err_code(e); } VH_CHECK(th == !loaded, "plugin:unload", "unloading a plugin " << (th ? "fails although it is loaded" : "succeeds although it is not loaded")); if (th) VH_CHECK(code.rfind("IOError", 0) == 0, "plugin:code", "the error is '" << code << "'"); loaded = false; break; }
        case 2: { for (auto& bad : { pd + "/broken", pd + "/missing", pd + "/readme", pd + "/dir", std::string("") }) { th = false; code = ""; try { lm::comp::load_plugin(bad); } catch (const std::exception& e) { th = true; code = err_code(e); } VH_CHECK(th && code.rfind("IOError", 0) == 0, "plugin:bad", "loading '" << bad << "' does not fail with an IO error"); th = false; try { lm::comp::unload_plugin(bad); } catch (const std::exception&) { th = true; } VH_CHECK(th, "plugin:bad-listed", "a plugin that failed to load counts as loaded"); } break; }
        case 3: try { lm::comp::load_plugin_directory(pd); } catch (const std::exception& e) { th = true; } VH_CHECK(!th, "plugin:directory", "loading the plugins of a directory throws"); loaded = true; try { lm::comp::load_plugin_directory(pd + "/nowhere"); } catch (const std::exception&) { th = true; } VH_CHECK(!th, "plugin:directory-missing", "a missing plugin directory throws"); break;
        case 4: keep.reset(); lm::comp::unload_all_plugins(); loaded = false; break;
        default:
            if (loaded) {
                auto p = lm::comp::create<vhplug::Plug>("vhplug::p1", "$.p", { {"v", 5} }); VH_CHECK(p && p->f() == 5 && p->key() == "vhplug::p1" && p->loc() == "$.p", "plugin:create", "a component of a loaded plugin is not usable");
                auto q = lm::comp::create<vhplug::Plug>("vhplug::palias", "", {}); VH_CHECK(q && q->f() == 7 && q->key() == "vhplug::p1", "plugin:alias", "the alias of a component of a plugin is not usable");
                auto t = lm::comp::create<vhplug::Q<int>>("vhplug::q1", ""); auto u = lm::comp::create<vhplug::Q<double>>("vhplug::q1", ""); VH_CHECK(t && u && t->f() == 3 && u->f() == 3.5, "plugin:template", "template components of a plugin are not told apart");
                if (p) { const long long a = p->alive(); q.reset(); VH_CHECK(p->alive() == a - (q ? 0 : 1), "plugin:alive", "the number of live instances is wrong"); }
                count("plugin creations"); keep = std::move(p);
            }
        }
    }
    keep.reset(); lm::comp::unload_all_plugins();
    { bool th = false; try { lm::comp::load_plugin(name); } catch (...) { th = true; } VH_CHECK(!th, "plugin:reload", "loading a plugin again fails"); { auto p = lm::comp::create<vhplug::Plug>("vhplug::p1", "", {}); VH_CHECK(p && p->f() == 7, "plugin:again", "a plugin that was loaded again is not usable"); } lm::comp::unload_plugin(name); }
}

// ---- initialisation and shutdown -------------------------------------------------------------------------
static void lifecycle(Rand& r) {
    bool init = true;      // lm_init() was called
    auto expect = [&](const char* what, const std::function<void()>& f, bool ok) {
        std::string code = "none"; bool th = false; try { f(); } catch (const std::exception& e) { th = true; code = err_code(e); }
        VH_CHECK(th == !ok, "lifecycle:" + std::string(what), what << (th ? " fails with " + code + " although the framework is initialised" : std::string(" succeeds although the framework is not initialised")));
        if (th && !ok) VH_CHECK(code.rfind("Uninitialized", 0) == 0, "lifecycle:code", what << " fails with '" << code << "'");
        count("lifecycle operations");
    };
    for (int k = r.i(2, 20); k > 0; k--) switch (r.i(8)) {
    case 0: lm::init(); init = true; lm::log::set_severity(1000000); VH_CHECK(lm::assets() && lm::comp::get<lm::AssetGroup>("$.assets") == lm::assets(), "lifecycle:assets", "no assets after initialisation"); break;
    case 1: { const bool was = init; expect("shutdown", [] { lm::shutdown(); }, was); init = false; lm::log::init(); lm::log::set_severity(1000000); break; }
    case 2: expect("info", [] { lm::info(); }, init); break;
    case 3: expect("parallel", [] { lm::parallel::num_threads(); }, init); break;
    case 4: expect("foreach", [] { std::atomic<int> n{ 0 }; lm::parallel::foreach(5, [&](long long, int) { n++; }, [](long long) {}); if (n != 5) throw std::runtime_error("x"); }, init); break;
    case 5: expect("progress", [] { lm::progress::start(lm::progress::ProgressMode::Samples, 1, -1); lm::progress::update(1); lm::progress::end(); }, init); break;
    case 6: { LM_INFO("hidden {}", 1); LM_INDENT(); LM_ERROR("hidden"); count("lifecycle operations"); break; }
    default: { bool ok = init; if (ok) { lm::log::init("nonexistent"); LM_INFO("%s"); lm::log::shutdown(); lm::log::init(); lm::log::set_severity(1000000); lm::parallel::init("nonexistent", {}); expect("unknown type", [] { lm::parallel::num_threads(); }, false); lm::parallel::init("openmp", { {"num_threads", 2} }); expect("known type", [] { lm::parallel::num_threads(); }, true); } }
    }
    if (!init) lm::init();
    lm_init(1);
}

int main(int argc, char** argv) {
    parse(argc, argv);
    { // before initialisation
        begin_case("before initialisation");
        auto expect = [&](const char* what, const std::function<void()>& f) { std::string code = "none"; try { f(); } catch (const std::exception& e) { code = err_code(e); } VH_CHECK(code.rfind("Uninitialized", 0) == 0, "lifecycle:before", what << " before the initialisation gives '" << code << "'"); count("lifecycle operations"); };
        expect("info", [] { lm::info(); }); expect("shutdown", [] { lm::shutdown(); }); expect("parallel", [] { lm::parallel::num_threads(); }); expect("progress", [] { lm::progress::end(); });
    }
    lm_init(1);
    const int part = atoi(args().part.c_str()), parts = args().extra.count("parts") ? atoi(args().extra["parts"].c_str()) : 1;
    const std::string dir = scratch(), so = args().extra.count("plugin") ? args().extra["plugin"] : "";
    const long long N = n_cases(1600, 60000);
    for (long long id = part; id < N; id += parts) {
        if (!want(id)) continue;
        Rand r(args().seed * 13331ull + id);
        const int k = (int)(id / parts) % 16;
        begin_case("case " + std::to_string(id));
        try {
            if (k < 8) { cover("workload", "registry"); registry(r); }
            else if (k < 12) { cover("workload", "tree"); tree(r); }
            else if (k == 12) { cover("workload", "assets"); assets(r, dir, id); }
            else if (k == 13) { cover("workload", "plugins"); plugins(r, dir, so); }
            else { cover("workload", "lifecycle"); lifecycle(r); }
        } catch (const std::exception& e) { violation("unexpected-exception", e.what()); }
        if (st().violations > 60) break;
    }
    return finish();
}
