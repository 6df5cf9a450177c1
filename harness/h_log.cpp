// P22: log messages and progress reports.  The output of the logger is captured and every character of it
// has to be explained by the posted messages; user-defined contexts record the events they receive.
#include "vh.h"
#include <lm/loggercontext.h>
#include <lm/progresscontext.h>
#include <regex>
using namespace vh;
using lm::log::LogLevel;

struct Cap {
    std::ostringstream o; std::streambuf* old;
    Cap() { old = std::cout.rdbuf(o.rdbuf()); }
    ~Cap() { std::cout.rdbuf(old); }
};
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; std::string c; for (char x : s) if (x == '\n') { v.push_back(c); c.clear(); } else c += x; if (!c.empty()) v.push_back("<no newline>" + c); return v; }
static std::string indent(int n) { return n > 0 ? std::string(2 * n, '.') + " " : std::string(); }
static std::string strip(std::string s) { std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\033') { while (i < s.size() && s[i] != 'm') i++; continue; } o += s[i]; } return o; }
static std::string text(Rand& r) {
    static const std::vector<std::string> w{ "hello", "{}", "%s", "a b", "[x]", "....", "ü", "\\n", "", " ", "{0}", "}", "tab\there", "/path/to", "|" };
    std::string s; for (int k = r.i(0, 5); k > 0; k--) s += r.pick(w); return s;
}
static const std::vector<std::pair<LogLevel, char>> levels{ { LogLevel::Debug, 'D' }, { LogLevel::Info, 'I' }, { LogLevel::Warn, 'W' }, { LogLevel::Err, 'E' } };

// one line of output: [X|sec|line@file] body
static bool parse_line(const std::string& l, bool file, char& lv, std::string& pos, std::string& body) {
    static const std::regex a(R"x(^\[(.)\|(\d+\.\d{3})\|(.{10,}?)\] ([\s\S]*)$)x"), b(R"x(^\[(.)\|(\d+\.\d{3})\] ([\s\S]*)$)x");
    std::smatch m; if (!std::regex_match(l, m, file ? a : b)) return false;
    lv = m[1].str()[0]; pos = file ? m[3].str() : ""; body = m[file ? 4 : 3].str(); return true;
}

static void sequential(Rand& r) {
    const bool file = r.p(.7); lm::log::init("default", { {"color", r.p(.5)}, {"show_line_and_filename", file} });
    int sev = 0, ind = 0; Cap cap; std::string log;
    struct Exp { char lv; std::string pos, body; }; std::vector<Exp> exp;
    for (int k = r.i(3, 40); k > 0; k--) {
        switch (r.i(6)) {
        case 0: sev = r.i(5) == 0 ? r.i(-200, 200) : r.pick(std::vector<int>{ -10, 0, 10, 20, 30, 100 }); if (r.p(.3)) { auto l = r.pick(levels).first; sev = (int)l; lm::log::set_severity(l); } else lm::log::set_severity(sev); break;
        case 1: { int n = r.i(-2, 3); lm::log::update_indentation(n); ind = std::max(0, ind + n); break; }
        default: {
            auto lv = r.pick(levels); int s = r.p(.6) ? (int)lv.first : r.i(-40, 40); if (r.p(.1)) s = sev; if (r.p(.1)) s = sev - 1;
            std::string m = text(r); const int ml = r.p(.25) ? r.i(1, 4) : 0; for (int i = 0; i < ml; i++) m += "\n" + text(r);
            const std::string fn = r.p(.5) ? "/some/dir/file" + std::to_string(r.i(9)) + ".cpp" : r.p(.5) ? "averyveryverylongname.cpp" : "x"; const int ln = r.i(0, 100000);
            // the formatting interface and the plain one
            bool fmt = r.p(.4); std::string shown = m;
            if (fmt) { lm::log::log(lv.first, s, fn.c_str(), ln, std::string("{}<{:>4}>"), m, 7); shown = m + "<   7>"; } else if (r.p(.5)) lm::log::log(lv.first, s, fn.c_str(), ln, m.c_str()); else lm::log::log(lv.first, s, fn.c_str(), ln, m);
            if (s >= sev) {
                std::string stem = fn.substr(fn.find_last_of('/') == std::string::npos ? 0 : fn.find_last_of('/') + 1); if (stem.find('.') != std::string::npos) stem = stem.substr(0, stem.find('.'));
                std::string pos = (std::to_string(ln) + "@" + stem).substr(0, 10); while (pos.size() < 10) pos += ' ';
                if (shown.empty()) exp.push_back({ lv.second, file ? pos : "", indent(ind) });
                else { std::stringstream ss(shown); std::string x; while (std::getline(ss, x, '\n')) exp.push_back({ lv.second, file ? pos : "", indent(ind) + x }); }
                count("messages.shown");
            } else count("messages.hidden");
            count("messages");
        } }
    }
    auto got = lines(strip(cap.o.str()));
    VH_CHECK(got.size() == exp.size(), "log:count", "severity " << sev << ": " << exp.size() << " lines are expected, " << got.size() << " are written");
    for (size_t i = 0; i < std::min(got.size(), exp.size()); i++) {
        char lv; std::string pos, body;
        if (!parse_line(got[i], file, lv, pos, body)) { violation("log:header", "no header in '" + got[i] + "'"); break; }
        VH_CHECK(lv == exp[i].lv, "log:level", "level '" << lv << "' instead of '" << exp[i].lv << "' in '" << got[i] << "'");
        VH_CHECK(pos == exp[i].pos, "log:position", "'" << pos << "' instead of '" << exp[i].pos << "'");
        VH_CHECK(body == exp[i].body, "log:body", "'" << body << "' instead of '" << exp[i].body << "'");
    }
}

static void concurrent(Rand& r) {
    lm::log::init("default", { {"color", false} }); lm::log::set_severity(0);
    const int T = r.i(2, 8), N = r.i(5, 60); Cap cap; std::atomic<int> go{ 0 }; std::vector<std::thread> th; std::vector<std::vector<int>> nl(T);
    const uint64_t sd = r.next(); const bool toggle = r.p(.3);
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
        Rand q(sd + t); go++; while (go < T) std::this_thread::yield();
        for (int i = 0; i < N; i++) {
            const int L = q.i(1, 4); nl[t].push_back(L); std::string m; for (int l = 0; l < L; l++) m += (l ? "\n" : "") + std::string("T") + std::to_string(t) + " M" + std::to_string(i) + " L" + std::to_string(l) + " " + std::string(q.i(0, 40), (char)('a' + t)) + " END";
            lm::log::log(LogLevel::Info, 10, "f.cpp", i, m.c_str());
            if (toggle && q.p(.2)) lm::log::set_severity(q.i(-10, 10));
            if (q.p(.2)) { lm::log::LogIndenter in; std::this_thread::yield(); }
        }
    });
    for (auto& t : th) t.join();
    auto got = lines(cap.o.str()); std::vector<int> m(T, 0), l(T, 0); int open = -1; size_t total = 0; for (auto& v : nl) for (int x : v) total += x;
    VH_CHECK(got.size() == total, "concurrent:count", got.size() << " lines instead of " << total << " from " << T << " threads");
    for (auto& g : got) {
        char lv; std::string pos, body; int t, i, k; char tail[8] = "";
        if (!parse_line(g, true, lv, pos, body)) { violation("concurrent:header", "damaged line '" + g + "'"); break; }
        size_t d = body.find('T'); if (d == std::string::npos || sscanf(body.c_str() + d, "T%d M%d L%d", &t, &i, &k) != 3 || body.size() < 4 || body.substr(body.size() - 4) != " END" || t < 0 || t >= T) { violation("concurrent:torn", "damaged line '" + g + "'"); break; }
        (void)tail;
        VH_CHECK(body.find_first_not_of(". ") == d, "concurrent:torn", "damaged line '" << g << "'");
        VH_CHECK(open < 0 || open == t, "concurrent:mixed", "a message of thread " << t << " is inside of one of thread " << open);
        VH_CHECK(i == m[t] && k == l[t], "concurrent:order", "thread " << t << ": line " << i << "." << k << " instead of " << m[t] << "." << l[t]);
        if (!(i == m[t] && k == l[t])) break;
        if (++l[t] == nl[t][m[t]]) { l[t] = 0; m[t]++; open = -1; } else open = t;
    }
    count("concurrent messages", (long long)T * N);
    // the indentation is balanced again
    cap.o.str(""); lm::log::set_severity(0); LM_INFO("after"); char lv; std::string pos, body; auto g = lines(cap.o.str());
    VH_CHECK(g.size() == 1 && parse_line(g[0], true, lv, pos, body) && body == "after", "concurrent:indentation", "the indentation is not restored: '" << (g.empty() ? "" : g[0]) << "'");
}

static void fallback(Rand& r) {
    lm::log::shutdown(); Cap cap; std::string exp; for (int k = r.i(1, 6); k > 0; k--) { std::string m = text(r); lm::log::log(r.pick(levels).first, -1000, "f", 1, m.c_str()); exp += m + "\n"; lm::log::set_severity(5000); lm::log::update_indentation(1); }
    VH_CHECK(cap.o.str() == exp, "fallback", "without logger '" << cap.o.str() << "' is written instead of '" << exp << "'"); count("messages", 1);
}

// A terminal: what is visible after carriage returns.
static std::string screen(const std::string& s) { std::string l; size_t c = 0; for (char x : s) { if (x == '\r') c = 0; else if (x == '\n') { l += "\n"; return screen(s.substr(s.find('\n') + 1)); } else { if (c < l.size()) l[c] = x; else l += x; c++; } } while (!l.empty() && l.back() == ' ') l.pop_back(); return l; }
static void progress_lines(Rand& r) {
    lm::log::init("default", { {"color", false} }); Cap cap; const int N = r.i(2, 10);
    for (int round = 0; round < 2; round++) {
        std::string last;
        for (int k = 0; k < N; k++) {
            std::string m = "p" + std::to_string(k) + std::string(r.i(0, 60), 'x') + "!"; LM_PROGRESS(m); std::string s = screen(cap.o.str()); char lv; std::string pos, body;
            VH_CHECK(parse_line(s, true, lv, pos, body) && body == m, "progress:visible", "after the progress message '" << m << "' the terminal shows '" << s << "'"); count("progress messages");
        }
        std::string e = "done" + std::string(r.i(0, 20), 'y'); const size_t at = cap.o.str().size(); LM_PROGRESS_END(e);
        std::string out = cap.o.str().substr(at); VH_CHECK(!out.empty() && out.back() == '\n', "progress:end", "the last progress message does not end the line");
        cap.o.str(""); LM_INFO("next"); char lv; std::string pos, body; auto g = lines(cap.o.str()); VH_CHECK(g.size() == 1 && parse_line(g[0], true, lv, pos, body) && body == "next", "progress:after", "a message after the end of a progress is damaged"); cap.o.str("");
    }
}

// ---- contexts of the user ----------------------------------------------------------------------------------
struct Ev { int who; char k; long long a; double b; std::chrono::steady_clock::time_point t; };
static std::vector<Ev> g_ev; static std::mutex g_m; static std::atomic<int> g_next{ 0 };
struct RecP : public lm::progress::ProgressContext {
    int me = 0; void construct(const Json& j) override { me = lm::json::value<int>(j, "id", -1); }
    void rec(char k, long long a, double b) { std::lock_guard<std::mutex> l(g_m); g_ev.push_back({ me, k, a, b, std::chrono::steady_clock::now() }); }
    void start(lm::progress::ProgressMode m, long long t, double tt) override { rec('s', t, tt); rec('m', (long long)(int)m, 0); }
    void update(long long p) override { rec('u', p, 0); }
    void update_time(Float e) override { rec('t', 0, e); }
    void end() override { rec('e', 0, 0); }
};
LM_COMP_REG_IMPL(RecP, "progress::vhrec");
struct LE { int level, sev, line; std::string file, msg; };
static std::vector<LE> g_le; static int g_ind, g_sev;
struct RecL : public lm::log::LoggerContext {
    void log(LogLevel l, int s, const char* f, int n, const char* m) override { g_le.push_back({ (int)l, s, n, f, m }); }
    void update_indentation(int n) override { g_ind += n; } void set_severity(int s) override { g_sev = s; }
};
LM_COMP_REG_IMPL(RecL, "logger::vhrec");

static void user_logger(Rand& r) {
    lm::log::init("vhrec"); g_le.clear(); g_ind = 0; std::vector<LE> exp;
    for (int k = r.i(1, 10); k > 0; k--) { std::string m = text(r) + "\n" + text(r); int s = r.i(-100, 100), l = r.i(1000); auto lv = r.pick(levels).first; lm::log::log(lv, s, "some/file.cpp", l, m.c_str()); exp.push_back({ (int)lv, s, l, "some/file.cpp", m }); }
    int e = (int)exp.size(); LM_ERROR("e{}", 1); LM_WARN("w"); LM_INFO("i"); LM_DEBUG("d"); LM_LOG(77, "l{}", "x"); LM_PROGRESS("p"); LM_PROGRESS_END("pe");
    struct X { LogLevel l; int s; const char* m; }; for (auto& x : std::vector<X>{ { LogLevel::Err, 30, "e1" }, { LogLevel::Warn, 20, "w" }, { LogLevel::Info, 10, "i" }, { LogLevel::Debug, -10, "d" }, { LogLevel::Info, 77, "lx" }, { LogLevel::Progress, (int)LogLevel::Progress, "p" }, { LogLevel::ProgressEnd, (int)LogLevel::ProgressEnd, "pe" } }) exp.push_back({ (int)x.l, x.s, -1, "", x.m });
    VH_CHECK(g_le.size() == exp.size(), "user:count", "the user's logger receives " << g_le.size() << " messages instead of " << exp.size());
    for (size_t i = 0; i < std::min(g_le.size(), exp.size()); i++) { auto& a = g_le[i]; auto& b = exp[i]; VH_CHECK(a.level == b.level && a.sev == b.sev && a.msg == b.msg && ((int)i >= e || (a.line == b.line && a.file == b.file)), "user:message", "message '" << a.msg << "' level " << a.level << " severity " << a.sev << " instead of '" << b.msg << "' " << b.level << " " << b.sev); }
    { LM_INDENT(); VH_CHECK(g_ind == 1, "user:indent", "indentation " << g_ind); { LM_INDENT(); VH_CHECK(g_ind == 2, "user:indent", "indentation " << g_ind); } } VH_CHECK(g_ind == 0, "user:indent", "indentation " << g_ind << " after the scope");
    lm::log::set_severity(-3); VH_CHECK(g_sev == -3, "user:severity", "severity is not passed on"); count("user messages", (long long)exp.size());
}

static std::vector<Ev> drive(Rand& r, bool time, int& n) {   // a session as a scheduler would run it
    std::vector<Ev> exp; auto now = std::chrono::steady_clock::now(); n = r.i(0, 12);
    auto mode = time ? lm::progress::ProgressMode::Time : lm::progress::ProgressMode::Samples; const long long total = time ? -1 : n; const double tt = time ? n * .1 : -1.0;
    if (r.p(.5)) { lm::progress::start(mode, total, tt); for (int i = 0; i <= n; i++) { if (time) lm::progress::update_time(i * .1); else lm::progress::update(i); } lm::progress::end(); }
    else if (time) { lm::progress::ScopedTimeReport s(tt); for (int i = 0; i <= n; i++) lm::progress::update_time(i * .1); }
    else { lm::progress::ScopedReport s(total); for (int i = 0; i <= n; i++) lm::progress::update(i); }
    exp.push_back({ 0, 's', total, tt, now }); exp.push_back({ 0, 'm', (long long)(int)mode, 0, now }); for (int i = 0; i <= n; i++) exp.push_back({ 0, time ? 't' : 'u', time ? 0 : i, time ? i * .1 : 0, now }); exp.push_back({ 0, 'e', 0, 0, now });
    return exp;
}
static void compare(const std::vector<Ev>& exp, int who, const char* what) {
    std::vector<Ev> g; for (auto& e : g_ev) if (e.who == who) g.push_back(e);
    VH_CHECK(g.size() == exp.size(), "progress:count", what << ": reporter " << who << " receives " << g.size() << " events instead of " << exp.size());
    for (size_t i = 0; i < std::min(g.size(), exp.size()); i++) VH_CHECK(g[i].k == exp[i].k && g[i].a == exp[i].a && g[i].b == exp[i].b, "progress:event", what << ": event " << i << " is " << g[i].k << " " << g[i].a << " " << g[i].b << " instead of " << exp[i].k << " " << exp[i].a << " " << exp[i].b);
    count("progress events", (long long)g.size());
}
static void contexts(Rand& r) {
    int n; g_ev.clear(); const int kind = r.i(4);
    if (kind == 0) { lm::progress::init("vhrec", { {"id", 0} }); bool t = r.p(.5); auto e = drive(r, t, n); compare(e, 0, "user reporter"); cover("progress context", "user"); }
    else if (kind == 1) {
        Json j = Json::array(); const int K = r.i(0, 4); for (int i = 0; i < K; i++) j.push_back({ {"progress::vhrec", { {"id", i} }} });
        lm::progress::init("mux", j); bool t = r.p(.5); auto e = drive(r, t, n); for (int i = 0; i < K; i++) compare(e, i, "multiplexer"); cover("progress context", "mux");
        for (size_t i = 0; i + 1 < g_ev.size(); i++) if (g_ev[i].k != 's' && g_ev[i].k != 'm' && g_ev[i + 1].k == g_ev[i].k && g_ev[i + 1].a == g_ev[i].a && g_ev[i + 1].b == g_ev[i].b) VH_CHECK(g_ev[i + 1].who == g_ev[i].who + 1, "mux:order", "the reporters are not called in order");
    }
    else if (kind == 2) {
        const int d = r.pick(std::vector<int>{ 0, 5, 20, 100000 }); lm::progress::init("delay", { {"delay", d}, {"progress", { {"progress::vhrec", { {"id", 0} }} }} });
        const bool time = r.p(.5); lm::progress::start(time ? lm::progress::ProgressMode::Time : lm::progress::ProgressMode::Samples, 100, 10); auto t0 = std::chrono::steady_clock::now(); std::vector<long long> sent; const int N = r.i(1, 30);
        for (int i = 1; i <= N; i++) { if (r.p(.3)) std::this_thread::sleep_for(std::chrono::milliseconds(r.i(0, 4))); if (time) lm::progress::update_time(i); else lm::progress::update(i); }
        if (d == 5) { std::this_thread::sleep_for(std::chrono::milliseconds(30)); if (time) lm::progress::update_time(N + 1); else lm::progress::update(N + 1); }
        lm::progress::end(); cover("progress context", "delay");
        VH_CHECK(g_ev.size() >= 3 && g_ev[0].k == 's' && g_ev[0].a == 100 && g_ev.back().k == 'e', "delay:frame", "start or end is not passed on");
        long long prev = 0; auto last = t0; int ups = 0; bool lastseen = false;
        for (auto& e : g_ev) if (e.k == 'u' || e.k == 't') { const long long v = time ? (long long)e.b : e.a; VH_CHECK((e.k == 't') == time && v > prev && v <= N + 1, "delay:event", "update " << v << " after " << prev); double ms = std::chrono::duration<double, std::milli>(e.t - last).count(); VH_CHECK(ms > d - 1.5, "delay:early", "an update comes " << ms << " ms after the one before, the delay is " << d); last = e.t; prev = v; ups++; lastseen = v == N + 1; }
        if (d == 100000) VH_CHECK(ups == 0, "delay:early", ups << " updates are passed on within the delay");
        if (d == 5) VH_CHECK(lastseen, "delay:lost", "an update after the delay is not passed on");
        count("progress events", (long long)g_ev.size());
    } else {
        // contexts that cannot be created
        struct B { const char* t; Json j; }; Json bad1 = Json::array(); bad1.push_back({ {"progress::none", Json::object()} });
        for (auto& b : std::vector<B>{ { "delay", { {"delay", 1} } }, { "delay", { {"delay", 1}, {"progress", { {"progress::none", Json::object()} }} } }, { "delay", { {"progress", { {"progress::vhrec", Json::object()} }} } }, { "delay", { {"delay", 1}, {"progress", Json::object()} } }, { "mux", bad1 } }) {
            bool th = false; try { lm::progress::init(b.t, b.j); } catch (const std::exception&) { th = true; } VH_CHECK(th, "context:rejected", "an unusable reporter is accepted: " << b.j.dump()); th = false;
            try { lm::progress::start(lm::progress::ProgressMode::Samples, 1, 1); } catch (const std::exception& e) { th = err_code(e).rfind("Uninitialized", 0) == 0; } VH_CHECK(th, "context:state", "after a failed initialisation the progress is usable"); count("rejected contexts");
        }
    }
    lm::progress::init("default");
}
static void default_reporter(Rand& r) {
    lm::log::init("default", { {"color", false} }); lm::progress::init("default"); Cap cap; const long long total = r.i(10, 1000); const bool time = r.p(.5);
    auto t0 = std::chrono::steady_clock::now();
    lm::progress::start(time ? lm::progress::ProgressMode::Time : lm::progress::ProgressMode::Samples, total, 8.0);
    if (time) lm::progress::update_time(1); else lm::progress::update(1);
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > .4) { lm::progress::end(); return; }
    VH_CHECK(cap.o.str().empty(), "default:eager", "the progress is written at once");
    std::this_thread::sleep_for(std::chrono::milliseconds(560)); const long long p = r.i(1, (int)total);
    if (time) { lm::progress::update(p); VH_CHECK(cap.o.str().empty(), "default:mode", "samples are reported in the time mode"); lm::progress::update_time(2.0); } else { lm::progress::update_time(1.0); VH_CHECK(cap.o.str().empty(), "default:mode", "times are reported in the sample mode"); lm::progress::update(p); }
    char b[200]; if (time) snprintf(b, 200, "Processing [iter=2.0/8.0, progress=25.0%%, ETA=6.0s]"); else snprintf(b, 200, "Processing [iter=%lld/%lld, progress=%.1f%%, ETA=", p, total, 100.0 * p / total);
    std::string s = screen(cap.o.str()); const bool ok = time ? s.find("/8") != std::string::npos && s.find("progress=25.0%") != std::string::npos && s.find("ETA=6.0s") != std::string::npos : s.find(b) != std::string::npos;
    VH_CHECK(ok, "default:text", "the progress reads '" << s << "' instead of '" << b << "'"); lm::progress::end();
    VH_CHECK(cap.o.str().find("completed") != std::string::npos, "default:end", "the end of the progress is not written"); count("default reports");
}

int main(int argc, char** argv) {
    parse(argc, argv);
    lm::init();
    const int part = atoi(args().part.c_str()), parts = args().extra.count("parts") ? atoi(args().extra["parts"].c_str()) : 1;
    const long long N = n_cases(2400, 100000);
    for (long long id = part; id < N; id += parts) {
        if (!want(id)) continue;
        Rand r(args().seed * 40009ull + id);
        const int k = (int)(id / parts) % 20;
        begin_case("case " + std::to_string(id));
        try {
            if (k < 8) sequential(r); else if (k < 12) concurrent(r); else if (k == 12) fallback(r); else if (k < 15) progress_lines(r); else if (k == 15) user_logger(r); else if (k < 19 || (id / parts) % 100 != 19) contexts(r); else default_reporter(r);
        } catch (const std::exception& e) { violation("unexpected-exception", e.what()); }
        if (st().violations > 60) break;
    }
    lm::log::init(); lm::log::set_severity(1000000);
    return finish();
}
