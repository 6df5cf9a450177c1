// P25: life cycle of the framework and of its global services.  Histories of initialisations, replacements, failed
// installations, resets and shutdowns are compared with a model that knows which implementation is installed; recording
// implementations count their instances and the calls they receive.
#include "vh.h"
#include <lm/loggercontext.h>
#include <lm/progresscontext.h>
#include <lm/parallelcontext.h>
#include <lm/objloader.h>
#include <lm/assetgroup.h>
#include <lm/mesh.h>
#include <lm/debug.h>
#include <sys/wait.h>
using namespace vh;

enum { LOG, PAR, PRO, OBJ, NS };
static const char* SN[] = { "logger", "parallel", "progress", "objloader" };
struct Call { int id; std::string what; };
static std::vector<Call> calls; static std::map<int, int> made, freed, ready; static int next_id = 0; static int fault = 0;
struct Refuse : std::runtime_error { using std::runtime_error::runtime_error; };
template <typename B> struct Rec : B {
    int id; Rec() : id(++next_id) { made[id]++; }
    ~Rec() { freed[id]++; }
    void construct(const Json& j) override { if (lm::json::value<bool>(j, "fail", false)) throw Refuse("refused"); ready[id] = lm::json::value<int>(j, "tag", 0); }
    void rec(const std::string& w) const {
        VH_CHECK(ready.count(id), "service:half-made", "an implementation that was not constructed receives " << w);
        VH_CHECK(!freed[id], "service:released", "a released implementation receives " << w);
        calls.push_back({ id, w });
    }
};
template <typename... A> static std::string S(A... a) { std::ostringstream o; o.precision(17); ((o << a << " "), ...); return o.str(); }
struct RL final : Rec<lm::log::LoggerContext> {
    void log(lm::log::LogLevel l, int s, const char* f, int n, const char* m) override { if (std::string(m).rfind("#", 0) == 0) rec(S("log", (int)l, s, f, n, m)); }
    void update_indentation(int n) override { if (std::abs(n) > 50) rec(S("indent", n)); }
    void set_severity(int s) override { rec(S("severity", s)); }
};
struct RP final : Rec<lm::parallel::ParallelContext> {
    int num_threads() const override { rec("threads"); return 100 + id; }
    bool main_thread() const override { rec("main"); return id % 2; }
    void foreach(long long n, const lm::parallel::ParallelProcessFunc& f, const lm::parallel::ProgressUpdateFunc& p) const override {
        rec(S("foreach", n)); for (long long i = 0; i < n; i++) f(i, 0); if (p) p(n);
    }
};
struct RG final : Rec<lm::progress::ProgressContext> {
    void start(lm::progress::ProgressMode m, long long t, double tt) override { rec(S("start", (int)m, t, tt)); }
    void update(long long p) override { rec(S("update", p)); }
    void update_time(Float e) override { rec(S("time", e)); }
    void end() override { rec("end"); }
};
struct RO final : Rec<lm::objloader::OBJLoaderContext> {
    bool load(const std::string& path, lm::objloader::OBJSurfaceGeometry& geo, const lm::objloader::ProcessMeshFunc& pm, const lm::objloader::ProcessMaterialFunc& pt) override {
        rec(S("load", path)); if (path == "throw") throw Refuse("load"); if (path == "false") return false;
        geo.ps = { Vec3(0), Vec3(1, 0, 0), Vec3(id, 1, 0) };
        lm::objloader::MTLMatParams m{}; m.name = "m" + std::to_string(id); m.illum = 2;
        if (pt && !pt(m)) return false;
        lm::objloader::OBJMeshFace fs(3); for (int i = 0; i < 3; i++) fs[i].p = i;
        return pm ? pm(fs, m) : true;
    }
};
LM_COMP_REG_IMPL(RL, "logger::vh"); LM_COMP_REG_IMPL(RP, "parallel::vh"); LM_COMP_REG_IMPL(RG, "progress::vh"); LM_COMP_REG_IMPL(RO, "objloader::vh");
static int assets_alive = 0;
struct RA final : lm::Component { RA() { assets_alive++; } ~RA() { assets_alive--; } Component* underlying(const std::string&) const override { return nullptr; } };
LM_COMP_REG_IMPL(RA, "vh::life");

// what is installed: none, the shipped implementation, or the recording one with an identity
struct Slot { int kind = 0; int id = 0; };      // 0 none, 1 shipped, 2 recording
static Slot M[NS]; static bool inited = false, root = false;
static std::string hist;

static void init_service(int s, const std::string& t, const Json& p) {
    if (s == LOG) lm::log::init(t, p); else if (s == PAR) lm::parallel::init(t, p); else if (s == PRO) lm::progress::init(t, p); else lm::objloader::init(t, p);
}
static void stop_service(int s) { if (s == LOG) lm::log::shutdown(); else if (s == PAR) lm::parallel::shutdown(); else if (s == PRO) lm::progress::shutdown(); else lm::objloader::shutdown(); }

// every recording instance that is not installed is released, exactly once
static void lives(const std::string& ctx) {
    for (auto& m : made) {
        bool in = false; for (auto& s : M) in |= s.kind == 2 && s.id == m.first;
        const int f = freed.count(m.first) ? freed[m.first] : 0;
        VH_CHECK(f <= 1, "service:released twice", "an implementation is released " << f << " times" << ctx);
        VH_CHECK(in == (f == 0), "service:life", (in ? "the installed implementation was released" : "an implementation that is no longer installed is not released") << ctx);
        count("instances followed");
    }
    // forget those that are gone
    for (auto it = made.begin(); it != made.end();) if (freed[it->first]) { freed.erase(it->first); it = made.erase(it); } else ++it;
}
struct Out { bool threw = false; std::string code, text; };
template <typename F> static Out attempt(F f) { Out o; try { f(); } catch (const std::exception& e) { o.threw = true; o.code = err_code(e); o.text = e.what(); } return o; }
static void expect_call(int s, size_t at, const std::string& w, const std::string& ctx) {
    if (M[s].kind != 2) { VH_CHECK(calls.size() == at, "service:stray", "a call of " << SN[s] << " reaches an implementation that is not installed" << ctx); return; }
    VH_CHECK(calls.size() == at + 1, "service:calls", calls.size() - at << " calls reach the " << SN[s] << " instead of one" << ctx);
    if (calls.size() > at) VH_CHECK(calls[at].id == M[s].id && calls[at].what == w, "service:call", "the " << SN[s] << " receives '" << calls[at].what << "' (instance " << calls[at].id << ") instead of '" << w << "' (instance " << M[s].id << ")" << ctx);
    count("calls received");
}
static void refused(int s, const Out& o, const std::string& what, const std::string& ctx) {
    if (M[s].kind == 0) { VH_CHECK(o.threw && o.code == "Uninitialized", "absent:accepted", what << " without " << SN[s] << (o.threw ? " fails with " + o.code : std::string(" is accepted")) << ctx); count("refused uses"); }
    else VH_CHECK(!o.threw, "present:refused", what << " with an installed " << SN[s] << " fails: " << o.text << ctx);
}
static std::string SCR;

static void use(Rand& r, int s, const std::string& ctx) {
    const size_t at = calls.size(); cover("use", std::string(SN[s]) + " " + std::to_string(M[s].kind)); count("uses");
    if (s == LOG) {
        std::ostringstream cap; auto* old = std::cout.rdbuf(cap.rdbuf());
        const int k = r.i(3), n = r.i(51, 1000) * (r.p(.5) ? 1 : -1), sev = r.i(-500, 500); std::string m = "#" + std::to_string(r.next());
        Out o = attempt([&] { if (k == 0) lm::log::log(lm::log::LogLevel::Warn, sev, "file.x", n, m.c_str()); else if (k == 1) { if (M[s].kind != 1) lm::log::update_indentation(n); } else if (M[s].kind != 1) lm::log::set_severity(sev); });
        std::cout.rdbuf(old);
        VH_CHECK(!o.threw, "log:threw", "logging throws " << o.text << ctx);
        if (k == 0) expect_call(s, at, S("log", (int)lm::log::LogLevel::Warn, sev, "file.x", n, m.c_str()), ctx); else if (M[s].kind != 1) expect_call(s, at, k == 1 ? S("indent", n) : S("severity", sev), ctx);
        if (k == 0 && M[s].kind == 0) VH_CHECK(cap.str() == m + "\n", "log:fallback", "without logger '" << cap.str() << "' is written" << ctx);
        if (M[s].kind == 2) VH_CHECK(cap.str().empty(), "log:output", "a message for the user's logger is written to the standard output as well" << ctx);
        return;
    }
    if (s == PAR) {
        const int k = r.i(3);
        if (k == 0) { int n = -1; Out o = attempt([&] { n = lm::parallel::num_threads(); }); refused(s, o, "num_threads", ctx); expect_call(s, at, "threads", ctx); if (M[s].kind == 2) VH_CHECK(n == 100 + M[s].id, "parallel:result", "num_threads returns " << n << ctx); else if (M[s].kind == 1) VH_CHECK(n > 0, "parallel:result", "num_threads returns " << n << ctx); }
        else if (k == 1) { bool b = false; Out o = attempt([&] { b = lm::parallel::main_thread(); }); refused(s, o, "main_thread", ctx); expect_call(s, at, "main", ctx); if (M[s].kind == 2) VH_CHECK(b == (M[s].id % 2), "parallel:result", "main_thread returns " << b << ctx); else if (M[s].kind == 1) VH_CHECK(b, "parallel:result", "this is not the main thread" << ctx); }
        else {
            const long long n = r.i(0, 40); std::vector<std::atomic<int>> seen(41); std::atomic<int> wild{ 0 }; const long long bad = r.p(.2) && n > 0 ? r.i((int)n) : -1;
            Out o = attempt([&] { lm::parallel::foreach(n, [&](long long i, int) { if (i < 0 || i >= n) wild++; else seen[i]++; if (i == bad) throw Refuse("item"); }, [](long long) {}); });
            if (M[s].kind == 0 || bad < 0) refused(s, o, "a parallel loop", ctx); else VH_CHECK(o.threw, "parallel:lost", "the exception of a work item is lost" << ctx);
            expect_call(s, at, S("foreach", n), ctx);
            if (M[s].kind == 0) { int t = 0; for (auto& x : seen) t += x; VH_CHECK(t == 0, "parallel:ran", "a refused loop runs" << ctx); }
            else if (bad < 0) for (int i = 0; i < n; i++) VH_CHECK(seen[i] == 1 && !wild, "parallel:items", "item " << i << " runs " << seen[i] << " times" << ctx);
        }
        return;
    }
    if (s == PRO) {
        const int k = r.i(4); const long long a = (long long)r.next() >> r.i(1, 60); const double b = r.u(-5, 5); Out o; std::string w;
        if (M[s].kind == 1) { lm::log::set_severity(1000000); calls.resize(at); }
        if (M[s].kind == 1 && M[LOG].kind == 0) return;       // the shipped reporter would write
        if (k == 0) { auto m = r.p(.5) ? lm::progress::ProgressMode::Samples : lm::progress::ProgressMode::Time; w = S("start", (int)m, a, b); o = attempt([&] { lm::progress::start(m, a, b); }); }
        else if (k == 1) { w = S("update", a); o = attempt([&] { lm::progress::update(a); }); }
        else if (k == 2) { w = S("time", b); o = attempt([&] { lm::progress::update_time(b); }); }
        else { w = "end"; o = attempt([&] { lm::progress::end(); }); }
        if (M[s].kind == 1) { calls.resize(at); VH_CHECK(!o.threw, "present:refused", "progress fails: " << o.text << ctx); return; }
        refused(s, o, "a progress report", ctx); expect_call(s, at, w, ctx); return;
    }
    // models
    const int k = r.i(4); lm::objloader::OBJSurfaceGeometry g; int nm = 0, nf = 0; bool res = false; const std::string path = k == 0 ? "throw" : k == 1 ? "false" : M[s].kind == 1 ? SCR + "/t.obj" : "x" + std::to_string(r.i(1000)) + ".obj";
    const bool stop = k == 3; std::string name;
    Out o = attempt([&] { res = lm::objloader::load(path, g, [&](const lm::objloader::OBJMeshFace& f, const lm::objloader::MTLMatParams& m) { nf += (int)f.size(); name = m.name; return !stop; }, [&](const lm::objloader::MTLMatParams&) { nm++; return true; }); });
    if (M[s].kind == 2) {
        expect_call(s, at, S("load", path), ctx);
        if (k == 0) VH_CHECK(o.threw && o.text.find("load") != std::string::npos, "objloader:exception", "the exception of the loader is lost" << ctx);
        else { VH_CHECK(!o.threw && res == (k == 2), "objloader:result", "load returns " << res << " " << o.text << ctx); if (k >= 2) VH_CHECK(nf == 3 && nm == 1 && g.ps.size() == 3 && g.ps[2] == Vec3(M[s].id, 1, 0) && name == "m" + std::to_string(M[s].id), "objloader:data", "the data of the loader are not passed on" << ctx); }
    } else if (M[s].kind == 0) { refused(s, o, "loading a model", ctx); VH_CHECK(calls.size() == at && nf == 0, "service:stray", "a loader that is not installed is called" << ctx); }
    else { VH_CHECK(calls.size() == at, "service:stray", "a loader that is not installed is called" << ctx); if (k == 2) VH_CHECK(!o.threw && res && nf == 3, "objloader:shipped", "the shipped loader does not load a file: " << o.text << ctx); if (k < 2) VH_CHECK(!res, "objloader:missing", "a missing file is loaded" << ctx); }
    // components go through the installed loader
    if (root && k == 2 && M[LOG].kind != 0) {
        const size_t b = calls.size(); lm::Mesh* mesh = nullptr; Out q = attempt([&] { mesh = lm::load<lm::Mesh>("mesh", "mesh::wavefrontobj", { {"path", path} }); });
        if (M[s].kind == 0) VH_CHECK(q.threw && q.code == "Uninitialized", "absent:accepted", "a mesh is loaded without loader" << ctx);
        else { VH_CHECK(!q.threw && mesh, "present:refused", "a mesh is not loaded: " << q.text << ctx); if (M[s].kind == 2) { VH_CHECK(calls.size() == b + 1 && calls.back().id == M[s].id, "service:calls", "a mesh is not loaded by the installed loader" << ctx); if (mesh) VH_CHECK(mesh->num_triangles() == 1 && mesh->triangle_at(0).p3.p == Vec3(M[s].id, 1, 0), "objloader:data", "the mesh is not that of the installed loader" << ctx); } }
    }
}

static void framework(Rand& r, const std::string& ctx) {
    std::ostringstream cap; auto* old = std::cout.rdbuf(cap.rdbuf()); const size_t at = calls.size(); const int k = r.i(7);
    const bool need_root = k >= 1; Out o;
    if (k == 0) { o = attempt([&] { lm::info(); }); }
    else if (k == 1) o = attempt([&] { VH_CHECK(lm::assets() == lm::comp::get<lm::AssetGroup>("$.assets"), "root", "the assets are not those of the root" << ctx); });
    else if (k == 2) o = attempt([&] { auto* p = lm::load<lm::Component>("a" + std::to_string(r.i(4)), "vh::life", {}); VH_CHECK(p, "root:load", "an asset is not loaded" << ctx); });
    else if (k == 3) o = attempt([&] { lm::save_state_to_file(SCR + "/state"); });
    else if (k == 4) o = attempt([&] { lm::debug::print_asset_tree(false); });
    else if (k == 5) { o = attempt([&] { lm::assets()->load_asset("bad", "vh::none", {}); }); }
    else if (!root) o = attempt([&] { lm::load_state_from_file(SCR + "/state"); });
    std::cout.rdbuf(old); (void)at;
    const bool ok = need_root ? root : inited; cover("framework", std::to_string(k) + (ok ? " up" : " down")); count("uses");
    if (ok) VH_CHECK(!o.threw, "framework:refused", "use " << k << " of the initialised framework fails: " << o.text << ctx);
    else { VH_CHECK(o.threw && o.code == "Uninitialized", "framework:accepted", "use " << k << " of the framework before its initialisation" << (o.threw ? " fails with " + o.text : std::string(" is accepted")) << ctx); count("refused uses"); }
    if (root) VH_CHECK(lm::comp::get<lm::Component>("$") != nullptr, "root", "there is no root" << ctx);
}

static void history(long long id) {
    auto quiet = [] { if (M[LOG].kind == 1) lm::log::set_severity(1000000); };
        Rand r(args().seed * 91193ull + id); begin_case("history " + std::to_string(id)); hist.clear();
        for (int st_ = 0, steps = r.i(5, 40); st_ < steps; st_++) {
            const int k = r.i(20); std::string op; auto C = [&] { return " [history " + std::to_string(id) + ": " + hist + op + "]"; };
            calls.clear(); if (M[PAR].kind == 1 && r.p(.05)) quiet();
            std::ostringstream cap; auto* old = std::cout.rdbuf(cap.rdbuf());
            try {
                if (k == 0) { op = "init"; lm::init(); inited = root = true; for (auto& s : M) s = { 1, 0 }; VH_CHECK(assets_alive == 0, "init:assets", assets_alive << " assets survive an initialisation" << C()); quiet(); }
                else if (k == 1) { op = "shutdown"; Out o = attempt([&] { lm::shutdown(); });
                    if (inited) { VH_CHECK(!o.threw, "shutdown:refused", "a shutdown fails: " << o.text << C()); for (auto& s : M) s = {}; inited = false; }
                    else { VH_CHECK(o.threw && o.code == "Uninitialized", "shutdown:accepted", "a shutdown without initialisation is accepted" << C()); count("refused uses"); } }
                else if (k == 2) { op = "reset"; lm::reset(); root = true; VH_CHECK(assets_alive == 0, "reset:assets", assets_alive << " assets survive a reset" << C()); }
                else if (k < 8) {
                    const int s = r.i(NS), how = r.i(8); op = std::string("install ") + SN[s];
                    if (how < 4) { op += " vh"; const int n = next_id; init_service(s, "vh", { {"tag", r.i(100)} }); VH_CHECK(next_id == n + 1, "service:made", next_id - n << " instances are made" << C()); M[s] = { 2, next_id }; }
                    else if (how < 6) { op += " shipped"; init_service(s, s == LOG || s == PRO ? "default" : s == PAR ? "openmp" : "simple", s == PAR ? Json{ {"num_threads", 2} } : Json::object()); M[s] = { 1, 0 }; quiet(); }
                    else if (how == 6) { op += " unknown"; Out o = attempt([&] { init_service(s, "nothing", {}); }); M[s] = {}; (void)o; count("failed installations"); }
                    else { op += " failing"; Out o = attempt([&] { init_service(s, "vh", { {"fail", true} }); }); VH_CHECK(o.threw && o.text.find("refused") != std::string::npos, "service:exception", "the exception of a service is lost" << C()); M[s] = {}; count("failed installations"); }
                    cover("installed", std::string(SN[s]) + " " + std::to_string(how));
                }
                else if (k < 10) { const int s = r.i(NS); op = std::string("stop ") + SN[s]; stop_service(s); M[s] = {}; }
                std::cout.rdbuf(old);
                if (k >= 10 && k < 17) { const int s = r.i(NS); op = std::string("use ") + SN[s]; use(r, s, C()); }
                else if (k >= 17) { op = "use framework"; framework(r, C()); }
            } catch (const std::exception& e) { std::cout.rdbuf(old); violation("unexpected-exception", op + ": " + e.what() + C()); }
            hist += op + "; "; if (hist.size() > 1200) hist = "..." + hist.substr(hist.size() - 900);
            count("operations"); cover("states", std::to_string(M[0].kind) + std::to_string(M[1].kind) + std::to_string(M[2].kind) + std::to_string(M[3].kind) + (inited ? "i" : "") + (root ? "r" : ""));
            lives(C());
        }
}

int main(int argc, char** argv) {
    parse(argc, argv);
    const int part = atoi(args().part.c_str()), parts = args().extra.count("parts") ? atoi(args().extra["parts"].c_str()) : 1;
    SCR = scratch(); write_file(SCR + "/t.obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n"); write_file(SCR + "/t.mtl", "");
    const long long N = n_cases(12000, 300000);
    // histories of processes of their own, from before any initialisation to the end of the process in whatever state it is
    for (long long id = part; id < N / 30; id += parts) {
        const long long key = 1000000000ll + id; if (!want(key)) continue;
        begin_case("process " + std::to_string(key)); fflush(nullptr);
        const pid_t p = fork();
        if (p == 0) { history(key); const long long v = st().violations; fflush(nullptr); exit(v ? 77 : 0); }
        int status = 0; if (p < 0 || waitpid(p, &status, 0) != p) { fprintf(stderr, "cannot fork\n"); return 3; }
        if (WIFEXITED(status) && WEXITSTATUS(status) == 77) st().violations++;
        else VH_CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0, "process:end", "a process with the history " << key << " does not end normally (status " << status << ")");
        count("processes"); if (st().violations > 50) break;
    }
    for (long long id = part; id < N; id += parts) {
        if (!want(id)) continue;
        history(id);
        if (id < 3 * parts && id >= part && part == 0) sample(hist.substr(0, 400));
        if (st().violations > 50) break;
    }
    // the process ends in whatever state this is: initialised or not, with installed services and living assets
    const int rc = finish(); st().viol = nullptr; st().prog = nullptr; return rc;
}
