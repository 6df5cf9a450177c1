// P15: textures.  Files written by the monitor are decoded by the code under test and every texel,
// wrap-around, channel and orientation is compared.
#include "vh.h"
#include "vimg.h"
#include <lm/texture.h>
using namespace vh;
using lm::Texture;

// PNG writer (stored deflate blocks), 8 bits, 1..4 channels.
static uint32_t crc(const std::string& s) { uint32_t c = ~0u; for (unsigned char b : s) { c ^= b; for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1; } return ~c; }
static std::string be(uint32_t v) { return { (char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v }; }
static void write_png(const std::string& path, int w, int h, int c, const std::vector<unsigned char>& px) {
    std::string raw; for (int y = 0; y < h; y++) { raw.push_back(0); raw.append((const char*)&px[(size_t)y * w * c], (size_t)w * c); }
    std::string z = "\x78\x01"; size_t o = 0;
    do { size_t n = std::min<size_t>(65535, raw.size() - o); z.push_back(o + n == raw.size()); z.push_back((char)(n & 255)); z.push_back((char)(n >> 8)); z.push_back((char)(~n & 255)); z.push_back((char)((~n >> 8) & 255)); z.append(raw, o, n); o += n; } while (o < raw.size());
    uint32_t a = 1, b = 0; for (unsigned char x : raw) { a = (a + x) % 65521; b = (b + a) % 65521; } z += be(b << 16 | a);
    std::string s = "\x89PNG\r\n\x1a\n"; const char ct[] = { 0, 0, 4, 2, 6 };
    auto chunk = [&](std::string t, std::string d) { s += be((uint32_t)d.size()) + t + d + be(crc(t + d)); };
    chunk("IHDR", be(w) + be(h) + std::string{ 8, ct[c], 0, 0, 0 }); chunk("IDAT", z); chunk("IEND", "");
    write_file(path, s);
}

static void bitmap(Rand& r, long long id) {
    int w = r.p(.1) ? 1 : r.i(1, 24), h = r.p(.1) ? 1 : r.i(1, 24);
    std::vector<std::string> fmts{ "png1", "png2", "png3", "png4", "tga1", "tga3", "tga4", "ppm3", "pgm1", "hdr3" };
    std::string fmt = fmts[id % fmts.size()]; int c = fmt[3] - '0'; fmt = fmt.substr(0, 3);
    std::vector<unsigned char> px((size_t)w * h * c); for (auto& v : px) v = (unsigned char)(r.p(.1) ? 255 : r.p(.1) ? 0 : r.i(256));
    std::string path = scratch() + "/t." + (fmt == "pgm" || fmt == "ppm" ? fmt : fmt);
    Img ref{ w, h, c, std::vector<float>((size_t)w * h * c) };
    if (fmt == "hdr") { for (auto& v : ref.d) v = (float)std::pow(2., r.u(-6, 6)); write_hdr(path, ref); }
    else {
        if (fmt == "png") write_png(path, w, h, c, px); else if (fmt == "tga") write_tga(path, w, h, c, px); else write_pnm(path, w, h, c, px);
        for (size_t i = 0; i < px.size(); i++) { bool alpha = (c == 2 || c == 4) && (int)(i % c) == c - 1; ref.d[i] = alpha ? px[i] / 255.f : (float)ldr(px[i]); }
    }
    bool flip = r.p(.5), deflt = flip && r.p(.5);
    Json p{ {"path", path} }; if (!deflt) p["flip"] = flip;
    if (r.p(.2)) { std::string q = path; std::replace(q.begin(), q.end(), '/', '\\'); p["path"] = q; cover("path", "backslash"); }
    if (r.p(.4)) { lm::load<Texture>("other", "texture::bitmap", { {"path", path}, {"flip", !flip} }); cover("path", "other flip before"); }   // orientation is per texture
    auto* T = lm::load<Texture>("tex", "texture::bitmap", p);
    if (!T) { violation("texture:create", "not created: " + fmt); return; }
    std::ostringstream o; o << " [" << fmt << " " << c << " channels " << w << "x" << h << (flip ? " flipped" : "") << "]"; auto ctx = o.str();
    cover("format", fmt + std::to_string(c) + (flip ? "f" : ""));
    auto sz = T->size(); VH_CHECK(sz.w == w && sz.h == h, "texture:size", "size " << sz.w << "x" << sz.h << ctx);
    auto tx = [&](int x, int y, int k) { return (double)ref.at(x, flip ? h - 1 - y : y, k); };
    auto col = [&](int x, int y) { return c < 3 ? Vec3(tx(x, y, 0)) : Vec3(tx(x, y, 0), tx(x, y, 1), tx(x, y, 2)); };
    bool alpha = c == 2 || c == 4;
    VH_CHECK(T->has_alpha() == alpha, "texture:has-alpha", "reports alpha " << T->has_alpha() << ctx);
    auto b = T->buffer();
    VH_CHECK(b.w == w && b.h == h && b.c == c && b.data, "texture:buffer", "buffer " << b.w << "x" << b.h << "x" << b.c << ctx);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        count("texels");
        VH_CHECK(close(T->eval_by_pixel_coords(x, y), col(x, y), 1e-5, 1e-7), "texture:pixel", "texel " << x << "," << y << " is " << str(T->eval_by_pixel_coords(x, y)) << " expected " << str(col(x, y)) << ctx);
        Vec2 t((x + r.u(.01, .99)) / w, (y + r.u(.01, .99)) / h);
        VH_CHECK(close(T->eval(t), col(x, y), 1e-5, 1e-7), "texture:eval", "lookup at " << str(t) << " is " << str(T->eval(t)) << " expected " << str(col(x, y)) << ctx);
        Vec2 tw = t + Vec2(r.i(-3, 3), r.i(-3, 3));
        Vec2 fr = tw - glm::floor(tw); int xx = (int)(fr.x * w), yy = (int)(fr.y * h);
        if (xx == x && yy == y) VH_CHECK(close(T->eval(tw), col(x, y), 1e-5, 1e-7), "texture:wrap", "lookup at " << str(tw) << " does not repeat the texture" << ctx);
        if (alpha) { double e = tx(x, y, c - 1); VH_CHECK(close(T->eval_alpha(t), e, 1e-5, 1e-6) && (xx != x || yy != y || close(T->eval_alpha(tw), e, 1e-5, 1e-6)), "texture:alpha", "alpha at " << str(t) << " is " << T->eval_alpha(t) << " expected " << e << ctx); }
        if (b.data && b.c == c) for (int k = 0; k < c; k++) VH_CHECK(close((double)b.data[c * (y * w + x) + k], tx(x, y, k), 1e-5, 1e-6), "texture:buffer", "buffer value" << ctx);
    }
    // borders and far coordinates stay inside of the image
    for (double u : { 0., 1., -1., -1e-20, 1 - 1e-17, 1e9 + .5, -1e9 - .25, 1e15, -0. }) for (double v : { 0., 1., -1e-20, 123456.75 }) {
        Vec3 e = T->eval({ u, v }); bool ok = false; count("borders");
        for (int y = 0; y < h && !ok; y++) for (int x = 0; x < w && !ok; x++) ok = close(e, col(x, y), 1e-5, 1e-7);
        VH_CHECK(ok, "texture:border", "lookup at " << u << "," << v << " gives " << str(e) << ", which is no texel" << ctx);
    }
    // 1.0 is the seam
    VH_CHECK(close(T->eval({ 1, 1 }), col(0, 0), 1e-5, 1e-7) && close(T->eval({ 0, 0 }), col(0, 0), 1e-5, 1e-7), "texture:seam", "lookup at the seam" << ctx);
}
static void constant(Rand& r) {
    Vec3 c = r.v3(0, 3); bool al = r.p(.5); double a = r.u(); Json p{ {"color", {c.x, c.y, c.z}} }; if (al) p["alpha"] = a;
    auto* T = lm::load<Texture>("texc", "texture::constant", p); cover("format", al ? "constant+alpha" : "constant");
    for (int k = 0; k < 10; k++) { Vec2 t(r.u(-9, 9), r.u(-9, 9)); VH_CHECK(T->eval(t) == c && T->eval_by_pixel_coords(r.i(10), r.i(10)) == c && T->has_alpha() == al && (!al || T->eval_alpha(t) == a) && T->size().w == 1 && T->size().h == 1, "constant", "constant texture"); count("texels"); }
}
static void broken(Rand& r) {
    // unreadable files are reported, nothing is created
    std::string path = scratch() + "/bad.png"; int k = r.i(4);
    if (k == 0) path = scratch() + "/nothing-here.png"; else if (k == 1) write_file(path, ""); else if (k == 2) write_file(path, "not an image"); else { write_file(path, std::string("\x89PNG\r\n\x1a\n\0\0\0\rIHDR", 16)); }
    bool thrown = false;
    try { auto* T = lm::load<Texture>("broken", "texture::bitmap", { {"path", path} }); thrown = T == nullptr; } catch (const lm::Exception&) { thrown = true; }
    count("broken files"); VH_CHECK(thrown, "texture:broken-accepted", "an unreadable image was accepted, kind " << k);
}
int main(int argc, char** argv) {
    parse(argc, argv);
    lm_init(1);
    const int part = atoi(args().part.c_str()), parts = args().extra.count("parts") ? atoi(args().extra["parts"].c_str()) : 1;
    const long long rounds = n_cases(800, 20000);
    for (long long rd = part; rd < rounds; rd += parts) {
        if (!want(rd)) continue;
        Rand r(args().seed * 49979687 + rd);
        begin_case("texture round " + std::to_string(rd));
        bitmap(r, rd); constant(r); broken(r);
    }
    return finish();
}
