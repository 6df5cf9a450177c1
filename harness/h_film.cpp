// P08: the film.  Histories of concurrent updates are checked for lost, duplicated and torn updates;
// rasterisation, buffers and saved files against the pixel values.
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <unistd.h>
#include "vh.h"
#include "vimg.h"
#include <lm/film.h>
#include <lm/texture.h>
#include <lm/parallel.h>
using namespace vh;
using lm::Film;

static Vec3 px(Film* f, int x, int y) { auto b = f->buffer(); const double* p = b.data + 3 * (b.w * y + x); return Vec3(p[0], p[1], p[2]); }

struct Barrier { std::atomic<int> n; explicit Barrier(int k) : n(k) {} void wait() { n--; while (n > 0) std::this_thread::yield(); } };

static void concurrent(Rand& r, long long id) {
    int T = r.i(2, 8), w = r.p(.5) ? r.i(1, 3) : r.i(2, 16), h = r.p(.5) ? r.i(1, 2) : r.i(2, 12);
    auto* F = lm::load<Film>("film", "film::bitmap", { {"w", w}, {"h", h} });
    std::string kind = std::vector<std::string>{ "splat", "update", "mixed", "set", "accum", "inc_ave", "pairs" }[id % 7];
    std::string ctx = " [" + kind + " " + std::to_string(T) + " threads " + std::to_string(w) + "x" + std::to_string(h) + "]";
    cover("history", kind + "/" + std::to_string(T));
    const int N = (int)n_cases(3000, 20000);
    Barrier bar(T); std::vector<std::thread> th; std::vector<std::vector<Vec3>> sum(T, std::vector<Vec3>((size_t)w * h, Vec3(0)));
    std::vector<std::vector<long>> cnt(T, std::vector<long>((size_t)w * h, 0)); std::vector<long> retries(T, 0);
    Film* src = nullptr;
    if (kind == "accum") { src = lm::load<Film>("src", "film::bitmap", { {"w", w}, {"h", h} }); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) src->set_pixel(x, y, Vec3(x + 1, y + 1, x * y)); }
    uint64_t sd = r.next();
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
        Rand q(sd + t * 977); bar.wait();
        for (int k = 0; k < N; k++) {
            int x = q.i(w), y = q.i(h), i = y * w + x; Vec3 v(q.i(16), q.i(16) + 1, -q.i(16));
            if (kind == "splat" || (kind == "mixed" && k % 2)) { if (k % 3) F->splat_pixel(x, y, v); else F->splat(Vec2((x + q.u(.05, .95)) / w, (y + q.u(.05, .95)) / h), v); sum[t][i] += v; }
            else if (kind == "update" || kind == "mixed") {
                int calls = 0;
                F->update_pixel(x, y, [&](Vec3 c) { if (calls++ == 0 && q.p(.05)) std::this_thread::yield(); return c + v; });      // a slow update function widens the window
                retries[t] += calls - 1; sum[t][i] += v;
            }
            else if (kind == "pairs") { F->update_pixel(x, y, [&](Vec3 c) { return Vec3(c.x + 1, c.y + 2, c.z - 3); }); cnt[t][i]++; }     // invariant y=2x, z=-3x
            else if (kind == "set") { double c = 1 + t + T * q.i(64); F->set_pixel(x, y, Vec3(c, 2 * c, 3 * c)); cnt[t][i]++; }
            else if (kind == "accum") { if (k % 200 == 0) { F->accum(src); cnt[t][0]++; } else { F->splat_pixel(x, y, v); sum[t][i] += v; } }
            else if (kind == "inc_ave") { int xx = t % w, yy = (t / w) % h; if (t < w * h) { F->inc_ave(xx, yy, cnt[t][0], Vec3(v)); sum[t][0] += v; cnt[t][0]++; } }
        }
    });
    for (auto& t : th) t.join();
    count("updates", (long long)T * N); for (long x : retries) count("contended updates", x);
    auto b = F->buffer(); VH_CHECK(b.w == w && b.h == h && b.data, "film:buffer", "buffer size" << ctx);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        int i = y * w + x; Vec3 got(b.data[3 * i], b.data[3 * i + 1], b.data[3 * i + 2]), exp(0); long c = 0; count("pixels");
        for (int t = 0; t < T; t++) { exp += sum[t][i]; c += cnt[t][i]; }
        if (kind == "splat" || kind == "update" || kind == "mixed") VH_CHECK(got == exp, "film:conservation", "pixel " << x << "," << y << " holds " << str(got) << " but updates add up to " << str(exp) << ctx);
        else if (kind == "pairs") VH_CHECK(got == Vec3(c, 2 * c, -3 * c), "film:atomic", "pixel " << x << "," << y << " holds " << str(got) << " after " << c << " updates" << ctx);
        else if (kind == "set") { bool ok = got == Vec3(0) ? c == 0 : c > 0 && got.y == 2 * got.x && got.z == 3 * got.x && got.x == std::floor(got.x) && got.x >= 1 && got.x < 1 + T * 64; VH_CHECK(ok, "film:torn", "pixel " << x << "," << y << " holds " << str(got) << ", which nobody wrote" << ctx); }
        else if (kind == "accum") { long a = 0; for (int t = 0; t < T; t++) a += cnt[t][0]; exp += Vec3(x + 1, y + 1, x * y) * (double)a; VH_CHECK(got == exp, "film:accumulate", "pixel holds " << str(got) << " expected " << str(exp) << ctx); }
        else if (kind == "inc_ave" && T <= w * h && i < T) { Vec3 e = sum[i][0] / (double)cnt[i][0]; VH_CHECK(close(got, e, 1e-9, 1e-9), "film:average", "running average " << str(got) << " expected " << str(e) << ctx); }
    }
}

// an observer never sees a torn pixel
static void observed(Rand& r) {
    auto* F = lm::load<Film>("film", "film::bitmap", { {"w", 2}, {"h", 1} });
    std::atomic<bool> stop{ false }; std::vector<std::thread> th; std::atomic<long> bad{ 0 }, seen{ 0 };
    for (int t = 0; t < 3; t++) th.emplace_back([&, t] { for (int k = 1; !stop; k++) { double c = 3 * k + t; F->set_pixel(k & 1, 0, Vec3(c, c + 1, c + 2)); } });
    std::set<double> distinct;
    for (int k = 0; k < 3000; k++) { F->update_pixel(k & 1, 0, [&](Vec3 c) { if (c != Vec3(0)) { seen++; distinct.insert(c.x); if (c.y != c.x + 1 || c.z != c.x + 2) bad++; } return c; }); }
    stop = true; for (auto& t : th) t.join();
    count("observations", seen); count("distinct values observed", (long long)distinct.size());
    VH_CHECK(bad == 0, "film:torn", "an observer saw a torn pixel " << bad.load() << " times");
}

static void sequential(Rand& r, long long id) {
    int w = r.p(.2) ? 1 : r.p(.05) ? r.i(100, 700) : r.i(1, 20), h = r.p(.2) ? 1 : r.p(.05) ? r.i(60, 300) : r.i(1, 20); if (w > 20 && h > 20) h = 3;
    const bool wild = r.p(.2);       // any sign and magnitude
    auto* F = lm::load<Film>("film", "film::bitmap", { {"w", w}, {"h", h} });
    std::string ctx = " [" + std::to_string(w) + "x" + std::to_string(h) + "]";
    VH_CHECK(F->size().w == w && F->size().h == h && F->num_pixels() == (long long)w * h && close(F->aspect(), (double)w / h, 1e-12), "film:size", "size" << ctx);
    for (int k = 0; k < 5; k++) VH_CHECK(px(F, r.i(w), r.i(h)) == Vec3(0), "film:initial", "a new film is not black" << ctx);
    std::vector<Vec3> ref((size_t)w * h, Vec3(0)); auto at = [&](int x, int y) -> Vec3& { return ref[y * w + x]; };
    auto* G = lm::load<Film>("film2", "film::bitmap", { {"w", w}, {"h", h} }); std::vector<Vec3> ref2((size_t)w * h, Vec3(0));
    auto* O = lm::load<Film>("film3", "film::bitmap", { {"w", w + 1}, {"h", h} });
    std::string hist; double mag = 1; auto v3 = [&] { if (!wild) return r.v3(0, 4); Vec3 v = r.v3(-1, 1) * std::pow(10., r.u(-8, 12)); for (int k = 0; k < 3; k++) { if (r.p(.1)) v[k] = 0; mag = std::max(mag, std::fabs(v[k])); } return v; };
    for (int k = 0; k < 60; k++) {
        int op = r.i(12), x = r.i(w), y = r.i(h); Vec3 v = v3(); hist += (char)('a' + op); count("operations");
        switch (op) {
        case 0: case 1: F->set_pixel(x, y, v); at(x, y) = v; break;
        case 2: case 3: F->splat_pixel(x, y, v); at(x, y) += v; break;
        case 4: { Vec2 rp((x + r.u(.01, .99)) / w, (y + r.u(.01, .99)) / h); F->splat(rp, v); at(x, y) += v; break; }
        case 5: F->update_pixel(x, y, [&](Vec3 c) { return c * .5 + v; }); at(x, y) = at(x, y) * .5 + v; break;
        case 6: { double s = wild ? r.u(-2, 2) : r.u(0, 2); if (wild && r.p(.1)) s = 0; mag *= std::max(1., std::fabs(s)); F->rescale(s); for (auto& p : ref) p *= s; break; }
        case 7: if (r.p(.3)) { F->clear(); for (auto& p : ref) p = Vec3(0); } break;
        case 8: { F->accum(G); for (size_t i = 0; i < ref.size(); i++) ref[i] += ref2[i]; break; }
        case 9: G->splat_pixel(x, y, v); ref2[y * w + x] += v; break;
        case 10: { long long n = r.i(5); if (r.p(.5)) F->inc_ave(x, y, n, v); else F->inc_ave(Vec2((x + .5) / w, (y + .5) / h), n, v); at(x, y) += (v - at(x, y)) / (double)(n + 1); break; }
        case 11: O->splat_pixel(0, 0, v); F->accum(O); break;       // different size: refused, nothing changes
        }
    }
    auto b = F->buffer(); bool same = b.w == w && b.h == h;
    for (int i = 0; same && i < w * h; i++) { Vec3 g(b.data[3 * i], b.data[3 * i + 1], b.data[3 * i + 2]); VH_CHECK(close(g, ref[i], 1e-9, wild ? 64 * mag * 1e-14 : 1e-12), "film:history", "pixel " << i << " holds " << str(g) << " expected " << str(ref[i]) << " after " << hist << ctx); }
    VH_CHECK(same, "film:buffer", "buffer size" << ctx);
    cover("sequence", hist.substr(0, 6));
    // raster positions
    for (int k = 0; k < 60; k++) {
        Vec2 rp = k < 30 ? r.v2() : k < 40 ? Vec2(r.pick(std::vector<double>{ 0, 1, -0., .5 }), r.pick(std::vector<double>{ 0, 1 })) : k < 50 ? Vec2(r.u(-3, 4), r.u(-3, 4)) : Vec2(r.u(-1, 1) * std::pow(10., r.i(3, 300)), r.u(-1, 1) * std::pow(10., r.i(3, 18)));
        auto p = F->raster_to_pixel(rp); count("raster positions");
        int ex = rp.x < 0 ? 0 : rp.x >= 1 ? w - 1 : std::min(w - 1, (int)std::floor(rp.x * w)), ey = rp.y < 0 ? 0 : rp.y >= 1 ? h - 1 : std::min(h - 1, (int)std::floor(rp.y * h));
        VH_CHECK(p.x == ex && p.y == ey, "film:raster", "raster position " << str(rp) << " is pixel " << p.x << "," << p.y << " expected " << ex << "," << ey << ctx);
    }
    // files
    if (wild) { cover("values", "any magnitude"); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { Vec3 v = r.v3(0, 4); F->set_pixel(x, y, v); at(x, y) = v; } }
    if (r.p(.3)) { int x = r.i(w), y = r.i(h); double big = std::pow(10., r.u(0, 30)); F->set_pixel(x, y, Vec3(big, 0, -1)); at(x, y) = Vec3(big, 0, -1); cover("file", "extreme values"); }
    std::string ext = std::vector<std::string>{ "pfm", "hdr", "png" }[id % 3], dir = scratch() + "/out" + (r.p(.5) ? "/a/b" : ""), path = dir + "/f." + ext;
    bool ok = F->save(path); count("files");
    VH_CHECK(ok, "film:save", "saving failed" << ctx); if (!ok) return;
    cover("file", ext);
    if (ext == "pfm") {
        std::string s = read_file(path); std::istringstream in(s); std::string m; int fw, fh; double sc; in >> m >> fw >> fh >> sc; in.get();
        VH_CHECK(m == "PF" && fw == w && fh == h && sc < 0 && s.size() - (size_t)in.tellg() == (size_t)w * h * 12, "film:pfm-header", "header of the file" << ctx);
        if (s.size() - (size_t)in.tellg() == (size_t)w * h * 12) { const char* d = s.data() + (size_t)in.tellg();
            for (int i = 0; i < w * h; i++) { float q[3]; memcpy(q, d + 12 * i, 12); VH_CHECK(close(Vec3(q[0], q[1], q[2]), ref[i], 1e-6, 1e-6), "film:pfm", "pixel " << i << " in the file is " << q[0] << " expected " << str(ref[i]) << ctx); } }
    } else {
        auto* T = lm::load<lm::Texture>("back", "texture::bitmap", { {"path", path}, {"flip", true} });
        VH_CHECK(T && T->size().w == w && T->size().h == h, "film:file-size", "size of the written image" << ctx);
        if (T && T->size().w == w && T->size().h == h) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
            Vec3 g = T->eval_by_pixel_coords(x, y), e = at(x, y);
            if (ext == "hdr") { double m = std::max({ e.x, e.y, e.z }); e = glm::max(e, Vec3(0)); if (at(x, y).z < 0) { g.z = 0; } VH_CHECK(m < 1e-30 || glm::length(g - e) <= m * .02, "film:hdr", "pixel " << x << "," << y << " in the file is " << str(g) << " expected " << str(e) << ctx); }
            else for (int k = 0; k < 3; k++) { double v = std::pow(std::clamp(e[k], 0., 1.), 1 / 2.2), q = std::pow(std::max(0., g[k]), 1 / 2.2); VH_CHECK(std::fabs(v - q) < .008, "film:png", "pixel " << x << "," << y << " channel " << k << " in the file is " << q << " expected " << v << " of " << e[k] << ctx); }
        }
    }
    VH_CHECK(!F->save(scratch() + "/f.xyz"), "film:unknown-format", "saving to an unknown format claims to succeed");
    VH_CHECK(access((scratch() + "/f.xyz").c_str(), F_OK) != 0, "film:unknown-format", "a file of unknown format appeared");
    write_file(scratch() + "/plain", "x");
    bool un = true; try { un = F->save(scratch() + "/plain/sub/f." + ext); } catch (const std::exception&) { un = false; }
    VH_CHECK(!un, "film:save-impossible", "saving below a regular file claims to succeed");
    // the device is full at once, or after some bytes
    std::string full = scratch() + "/full." + ext; unlink(full.c_str());
    if (access("/dev/full", W_OK) == 0 && symlink("/dev/full", full.c_str()) == 0) {
        un = true; try { un = F->save(full); } catch (const std::exception&) { un = false; }
        VH_CHECK(!un, "film:save-full", "saving ." << ext << " to a full device claims to succeed" << ctx); cover("fault", ext + " full device"); unlink(full.c_str());
    }
    struct stat st; 
    if (stat(path.c_str(), &st) == 0 && st.st_size > 1) {
        struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); auto osig = signal(SIGXFSZ, SIG_IGN);
        lim = old; lim.rlim_cur = (rlim_t)r.i(1, (int)st.st_size - 1); setrlimit(RLIMIT_FSIZE, &lim);
        std::string part = scratch() + "/part." + ext; un = true; try { un = F->save(part); } catch (const std::exception&) { un = false; }
        setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, osig);
        VH_CHECK(!un, "film:save-short", "saving ." << ext << " with room for " << lim.rlim_cur << " of " << st.st_size << " bytes claims to succeed" << ctx); cover("fault", ext + " short write"); count("failed writes");
        VH_CHECK(F->save(part), "film:save-again", "saving fails after a failed attempt" << ctx); VH_CHECK(read_file(part) == read_file(path), "film:save-again", "the file differs after a failed attempt" << ctx);
    }
}

int main(int argc, char** argv) {
    parse(argc, argv);
    const int part = atoi(args().part.c_str()), parts = args().extra.count("parts") ? atoi(args().extra["parts"].c_str()) : 1;
    lm_init(1 + part % 4);
    const long long rounds = n_cases(210, 4200);
    for (long long rd = part; rd < rounds; rd += parts) {
        if (!want(rd)) continue;
        Rand r(args().seed * 67867967 + rd);
        begin_case("film history round " + std::to_string(rd)); concurrent(r, rd);
        begin_case("film observer round " + std::to_string(rd)); observed(r);
        begin_case("film sequence round " + std::to_string(rd)); for (int k = 0; k < 4; k++) sequential(r, rd * 4 + k);
    }
    return finish();
}
