// Common part of the monitors: arguments, deterministic random numbers, event counters,
// coverage sets and the violation log.
#pragma once
#include <lm/lm.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <mutex>
#include <atomic>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <thread>
#include <algorithm>
#include <unistd.h>
#include <sys/stat.h>

extern "C" { void vh_sched_mode(int); void vh_sched_seed(unsigned long long); long long vh_sched_handouts(); void vh_sched_skip(int); long long vh_sched_skipped(); }

namespace vh {

using lm::Float; using lm::Vec2; using lm::Vec3; using lm::Vec4; using lm::Mat3; using lm::Mat4; using lm::Json;

struct Rand {
    uint64_t s;
    explicit Rand(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 3; i++) next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
    }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }          // [0,1)
    double u(double a, double b) { return a + (b - a) * u(); }
    int i(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }             // [0,n)
    int i(int a, int b) { return a + i(b - a + 1); }                              // [a,b]
    bool p(double q) { return u() < q; }
    Vec2 v2() { const double a = u(), b = u(); return Vec2(a, b); }
    Vec3 v3(double a = 0, double b = 1) { const double x = u(a, b), y = u(a, b), z = u(a, b); return Vec3(x, y, z); }
    Vec3 dir() {
        for (;;) { Vec3 v = v3(-1, 1); double l = glm::dot(v, v); if (l > 1e-3 && l <= 1) return v / std::sqrt(l); }
    }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[i((int)v.size())]; }
};

struct Args {
    uint64_t seed = 1; std::string tier = "quick", out, part, dir, progress; long long only = -1; double scale = 1.0;
    std::map<std::string, std::string> extra;
    bool thorough() const { return tier == "thorough"; }
};
inline Args& args() { static Args a; return a; }

struct State {
    std::mutex m;
    std::map<std::string, long long> counters;
    std::map<std::string, std::set<std::string>> cover;
    std::map<std::string, long long> vcount;
    std::vector<std::string> samples;
    long long violations = 0;
    std::string current;
    FILE* viol = nullptr;
    FILE* prog = nullptr;
};
inline State& st() { static State* s = new State; return *s; }

inline std::string jstr(const std::string& s) { return Json(s).dump(-1, ' ', false, Json::error_handler_t::replace); }

inline void begin_case(const std::string& what) {
    auto& S = st();
    std::lock_guard<std::mutex> l(S.m);
    S.current = what;
    if (S.prog) { rewind(S.prog); fprintf(S.prog, "%-400.400s\n", what.c_str()); fflush(S.prog); }
    S.counters["cases"]++;
}
inline void count(const std::string& k, long long n = 1) { auto& S = st(); std::lock_guard<std::mutex> l(S.m); S.counters[k] += n; }
inline void cover(const std::string& k, const std::string& v) { auto& S = st(); std::lock_guard<std::mutex> l(S.m); auto& c = S.cover[k]; if (c.size() < 200000) c.insert(v); }
inline void sample(const std::string& v) { auto& S = st(); std::lock_guard<std::mutex> l(S.m); if (S.samples.size() < 12) S.samples.push_back(v); }

// Record a violation.  `key` identifies the kind of failure (stable, used for known findings).
inline void violation(const std::string& key, const std::string& detail) {
    auto& S = st();
    std::lock_guard<std::mutex> l(S.m);
    S.violations++;
    if (S.vcount[key]++ >= 3) return;
    const std::string line = "{\"key\":" + jstr(key) + ",\"case\":" + jstr(S.current) + ",\"detail\":" + jstr(detail) + "}";
    if (S.viol) { fprintf(S.viol, "%s\n", line.c_str()); fflush(S.viol); }
    fprintf(stderr, "[violation] %s\n", line.c_str());
}
#define VH_CHECK(cond, key, detail) do { if (!(cond)) { std::ostringstream o_; o_.precision(17); o_ << detail; vh::violation(key, o_.str()); } } while (0)

inline bool want(long long idx) { return args().only < 0 || args().only == idx; }
inline long long n_cases(long long quick, long long thorough) {
    const double v = (args().thorough() ? thorough : quick) * args().scale;
    return v < 1 ? 1 : (long long)v;
}

inline std::ostream& operator<<(std::ostream& o, const Vec3& v) { return o << "(" << v.x << "," << v.y << "," << v.z << ")"; }
inline std::string str(Vec3 v) { std::ostringstream o; o.precision(17); o << "(" << v.x << "," << v.y << "," << v.z << ")"; return o.str(); }
inline std::string str(Vec2 v) { std::ostringstream o; o.precision(17); o << "(" << v.x << "," << v.y << ")"; return o.str(); }
inline bool finite(Vec3 v) { return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z); }
inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-12) {
    if (a == b) return true;
    if (!std::isfinite(a) || !std::isfinite(b)) return false;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
inline bool close(Vec3 a, Vec3 b, double rel = 1e-9, double abs = 1e-12) {
    const double s = std::max({std::fabs(a.x), std::fabs(a.y), std::fabs(a.z), std::fabs(b.x), std::fabs(b.y), std::fabs(b.z)});
    for (int i = 0; i < 3; i++) { if (!std::isfinite(a[i]) || !std::isfinite(b[i])) { if (!(a[i] == b[i])) return false; continue; }
        if (std::fabs(a[i] - b[i]) > abs + rel * s) return false; }
    return true;
}

inline std::string scratch() {
    if (args().dir.empty()) { char b[] = "/tmp/vhXXXXXX"; args().dir = mkdtemp(b); }
    return args().dir;
}
inline void write_file(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; }
inline std::string read_file(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str(); }

inline int finish() {
    auto& S = st();
    std::lock_guard<std::mutex> l(S.m);
    std::ostringstream o;
    o << "{\"counters\":{";
    bool f = true;
    for (auto& c : S.counters) { o << (f ? "" : ",") << jstr(c.first) << ":" << c.second; f = false; }
    o << "},\"cover\":{";
    f = true;
    for (auto& c : S.cover) {
        o << (f ? "" : ",") << jstr(c.first) << ":{\"n\":" << c.second.size() << ",\"items\":[";
        int k = 0; for (auto& s : c.second) { if (k >= 40) break; o << (k++ ? "," : "") << jstr(s); }
        o << "]}"; f = false;
    }
    o << "},\"samples\":[";
    f = true;
    for (auto& s : S.samples) { o << (f ? "" : ",") << jstr(s); f = false; }
    o << "],\"violations\":" << S.violations << ",\"finished\":true}\n";
    if (!args().out.empty()) { std::ofstream w(args().out); w << o.str(); }
    else std::cout << o.str();
    fflush(nullptr);
    return 0;
}

inline void parse(int argc, char** argv) {
    auto& A = args();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") A.seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--tier") A.tier = nx();
        else if (a == "--out") A.out = nx();
        else if (a == "--part") A.part = nx();
        else if (a == "--dir") A.dir = nx();
        else if (a == "--only") A.only = atoll(nx().c_str());
        else if (a == "--scale") A.scale = atof(nx().c_str());
        else if (a.rfind("--", 0) == 0) A.extra[a.substr(2)] = nx();
    }
    if (!A.out.empty()) { st().viol = fopen((A.out + ".viol").c_str(), "w"); st().prog = fopen((A.out + ".prog").c_str(), "w"); }
}

// Initialise the framework quietly.
inline void lm_init(int threads = 1, long long interval = 100) {
    lm::init();
    lm::log::set_severity(1000000);
    lm::parallel::shutdown();
    lm::parallel::init("openmp", { {"num_threads", threads}, {"progress_update_interval", interval} });
}

// The error code of an exception, as its text tells it.
inline std::string err_code(const std::exception& e) {
    const std::string w = e.what(); auto i = w.find("[err='"); if (i == std::string::npos) return "";
    i += 6; auto j = w.find("'", i); return w.substr(i, j == std::string::npos ? j : j - i);
}
inline bool is_invalid_argument(const std::exception& e) { return err_code(e).rfind("InvalidArg", 0) == 0; }

// ---- statistics -----------------------------------------------------------------------------------
struct Stat {   // running mean / variance
    long long n = 0; double m = 0, s = 0;
    void add(double x) { n++; double d = x - m; m += d / n; s += d * (x - m); }
    double var() const { return n > 1 ? s / (n - 1) : 0; }
    double se() const { return n > 0 ? std::sqrt(var() / n) : 0; }
};

// A map from two random numbers to directions agrees with a density of directions exactly when the solid angle covered
// per unit of random numbers is the reciprocal of the density (or of a fraction of it, where several numbers lead to a direction).
// Counts points where it does not; steps over edges of the map are left out.
struct MapCheck {
    int used = 0, off = 0; double worst = 1;
    template <typename F, typename P> void point(F f, P pdf, Vec2 u) {
        auto jac = [&](double h, double& J) {
            auto a = f(u + Vec2(h, 0)), b = f(u - Vec2(h, 0)), c = f(u + Vec2(0, h)), d = f(u - Vec2(0, h)); if (!a || !b || !c || !d) return false;
            J = glm::length(glm::cross((*a - *b) / (2 * h), (*c - *d) / (2 * h))); return true; };
        auto w = f(u); double J1, J2; if (!w || u.x < 1e-3 || u.y < 1e-3 || u.x > 1 - 1e-3 || u.y > 1 - 1e-3 || !jac(1e-4, J1) || !jac(3e-5, J2)) return;
        if (!(J2 > 1e-9) || std::fabs(J1 / J2 - 1) > 3e-4) return;
        double q = pdf(*w) * J2; used++; bool ok = false; for (int k = 1; k <= 4; k++) ok |= std::fabs(q - k) < 1e-3 * k; if (!ok) { off++; if (std::fabs(q - 1) > std::fabs(worst - 1)) worst = q; }
    }
    bool bad() const { return used >= 20 && off > .2 * used; }
};

} // namespace vh
