// Writers of small image files and independent decoders of what they contain.
#pragma once
#include "vh.h"
namespace vh {
struct Img { int w, h, c; std::vector<float> d; float at(int x, int y, int k) const { return d[(size_t)c * (w * y + x) + k]; } };

// Radiance HDR, flat scanlines, top row first.  The image is rewritten with the values the file encodes.
inline void write_hdr(const std::string& path, Img& m) {
    std::string s = "#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y " + std::to_string(m.h) + " +X " + std::to_string(m.w) + "\n";
    for (int i = 0; i < m.w * m.h; i++) {
        float v = std::max({ m.d[3 * i], m.d[3 * i + 1], m.d[3 * i + 2] });
        unsigned char q[4] = { 0, 0, 0, 0 };
        if (v > 1e-30f) {
            int e; std::frexp(v, &e); float sc = std::ldexp(1.f, 8 - e);
            for (int k = 0; k < 3; k++) q[k] = (unsigned char)std::min(255.f, m.d[3 * i + k] * sc);
            q[3] = (unsigned char)(e + 128);
            for (int k = 0; k < 3; k++) m.d[3 * i + k] = std::ldexp((float)q[k], e - 8);
        } else for (int k = 0; k < 3; k++) m.d[3 * i + k] = 0;
        // avoid the run-length marker as the first pixel
        s.append((char*)q, 4);
    }
    write_file(path, s);
}

// TGA, 8 bits per channel, 1, 3 or 4 channels, uncompressed, top row first.
inline void write_tga(const std::string& path, int w, int h, int c, const std::vector<unsigned char>& px) {
    std::string s(18, '\0');
    s[2] = c == 1 ? 3 : 2; s[12] = (char)(w & 255); s[13] = (char)(w >> 8); s[14] = (char)(h & 255); s[15] = (char)(h >> 8);
    s[16] = (char)(8 * c); s[17] = (char)(0x20 | (c == 4 ? 8 : 0));
    for (int i = 0; i < w * h; i++) {
        const unsigned char* p = &px[(size_t)i * c];
        if (c == 1) s.push_back((char)p[0]);
        else { s.push_back((char)p[2]); s.push_back((char)p[1]); s.push_back((char)p[0]); if (c == 4) s.push_back((char)p[3]); }
    }
    write_file(path, s);
}
// PNM (P6 / P5), 8 bits.
inline void write_pnm(const std::string& path, int w, int h, int c, const std::vector<unsigned char>& px) {
    std::string s = (c == 1 ? "P5\n" : "P6\n") + std::to_string(w) + " " + std::to_string(h) + "\n255\n";
    s.append((const char*)px.data(), (size_t)w * h * c);
    write_file(path, s);
}
inline double ldr(unsigned char v) { return (double)(float)std::pow(v / 255.0f, 2.2f); }   // gamma-encoded colour channel
} // namespace vh
