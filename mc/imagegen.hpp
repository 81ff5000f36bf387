// Image files and ICC profiles of every kind.
#pragma once
#include "explore.hpp"
#include <csetjmp>
#include <cstdio>
#include <jpeglib.h>
#include <lcms2.h>
#include <png.h>
#include <tiffio.h>
#include <zlib.h>
#include <stdexcept>
namespace mc {
using std::string;
static const char *CS[] = {"DeviceRGB", "DeviceGray", "DeviceCMYK"};
static const int NC[] = {3, 1, 4};
static const int RGB = 0, GRAY = 1, CMYK = 2;
static size_t row_bytes(uint32_t w, int n, int depth) { return ((size_t)w * (size_t)n * (size_t)depth + 7) / 8; }
static string pack(const std::vector<int> &v, uint32_t w, uint32_t h, int n, int depth) {
    string r;
    size_t k = 0;
    for(uint32_t y = 0; y < h; ++y) {
        string row(row_bytes(w, n, depth), '\0');
        size_t bit = 0;
        for(uint32_t i = 0; i < w * (uint32_t)n; ++i) {
            int s = v[k++];
            for(int b = depth - 1; b >= 0; --b, ++bit)
                if(s >> b & 1) row[bit / 8] |= (char)(0x80 >> (bit % 8));
        }
        r += row;
    }
    return r;
}
static std::vector<int> pattern(size_t n, int depth, int seed) {
    std::vector<int> v;
    uint64_t x = 88172645463325252ull + (uint64_t)seed * 7919;
    for(size_t i = 0; i < n; ++i) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        v.push_back((int)(x % (1ull << depth)));
    }
    return v;
}
static string gray_icc() {
    static const string r = [] {
        auto c = cmsBuildGamma(nullptr, 2.2);
        auto h = cmsCreateGrayProfile(cmsD50_xyY(), c);
        cmsFreeToneCurve(c);
        cmsUInt32Number n = 0;
        cmsSaveProfileToMem(h, nullptr, &n);
        string s(n, '\0');
        cmsSaveProfileToMem(h, s.data(), &n);
        cmsCloseProfile(h);
        return s;
    }();
    return r;
}
static string rgb_icc() { return read_file(repo_dir() + "/testdata/icc/compatibleWithAdobeRGB1998.icc"); }
static string cmyk_icc() {
    static const string r = [] {
        auto h = cmsCreateProfilePlaceholder(nullptr);
        cmsSetProfileVersion(h, 4.3);
        cmsSetDeviceClass(h, cmsSigOutputClass);
        cmsSetColorSpace(h, cmsSigCmykData);
        cmsSetPCS(h, cmsSigLabData);
        cmsUInt32Number n = 0;
        cmsSaveProfileToMem(h, nullptr, &n);
        string s(n, '\0');
        cmsSaveProfileToMem(h, s.data(), &n);
        cmsCloseProfile(h);
        return s;
    }();
    return r;
}
static string icc_for(int cs) { return cs == RGB ? rgb_icc() : cs == GRAY ? gray_icc() : cmyk_icc(); }
static string png_file(int type, int depth, uint32_t w, uint32_t h, const std::vector<int> &px, bool interlaced, const std::vector<png_color> &pal, const std::vector<png_byte> &trns, const png_color_16 *key, const string &icc) {
    string out;
    auto *p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, [](png_structp, png_const_charp m) { throw std::runtime_error(m); }, [](png_structp, png_const_charp) {});
    auto *info = png_create_info_struct(p);
    png_set_write_fn(p, &out, [](png_structp q, png_bytep b, size_t n) { ((string *)png_get_io_ptr(q))->append((char *)b, n); }, [](png_structp) {});
    png_set_IHDR(p, info, w, h, depth, type, interlaced ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    if(!pal.empty()) png_set_PLTE(p, info, pal.data(), (int)pal.size());
    if(!trns.empty()) png_set_tRNS(p, info, trns.data(), (int)trns.size(), nullptr);
    if(key) png_set_tRNS(p, info, nullptr, 1, key);
    if(!icc.empty()) png_set_iCCP(p, info, "p", 0, (png_const_bytep)icc.data(), (png_uint_32)icc.size());
    int n = type == PNG_COLOR_TYPE_RGB ? 3 : type == PNG_COLOR_TYPE_RGBA ? 4 : type == PNG_COLOR_TYPE_GA ? 2 : 1;
    auto data = pack(px, w, h, n, depth);
    std::vector<png_bytep> rows;
    for(uint32_t y = 0; y < h; ++y) rows.push_back((png_bytep)data.data() + y * row_bytes(w, n, depth));
    png_set_rows(p, info, rows.data());
    png_write_png(p, info, PNG_TRANSFORM_IDENTITY, nullptr);
    png_destroy_write_struct(&p, &info);
    return out;
}
struct PngKind { int type, depth; };
static const std::vector<PngKind> PNGS = {{PNG_COLOR_TYPE_GRAY, 1}, {PNG_COLOR_TYPE_GRAY, 2}, {PNG_COLOR_TYPE_GRAY, 4}, {PNG_COLOR_TYPE_GRAY, 8}, {PNG_COLOR_TYPE_GRAY, 16}, {PNG_COLOR_TYPE_GA, 8}, {PNG_COLOR_TYPE_GA, 16},
                                          {PNG_COLOR_TYPE_RGB, 8}, {PNG_COLOR_TYPE_RGB, 16}, {PNG_COLOR_TYPE_RGBA, 8}, {PNG_COLOR_TYPE_RGBA, 16}};
struct TiffKind { int cs, photometric, spp, extra; };
static const std::vector<TiffKind> TIFFS = {{GRAY, PHOTOMETRIC_MINISBLACK, 1, -1}, {GRAY, PHOTOMETRIC_MINISBLACK, 2, EXTRASAMPLE_UNASSALPHA}, {GRAY, PHOTOMETRIC_MINISWHITE, 1, -1}, {RGB, PHOTOMETRIC_RGB, 3, -1}, {RGB, PHOTOMETRIC_RGB, 4, EXTRASAMPLE_UNASSALPHA},
                                            {CMYK, PHOTOMETRIC_SEPARATED, 4, -1}, {CMYK, PHOTOMETRIC_SEPARATED, 5, EXTRASAMPLE_UNASSALPHA}, {RGB, PHOTOMETRIC_PALETTE, 1, -1}, {RGB, PHOTOMETRIC_RGB, 5, EXTRASAMPLE_UNASSALPHA}, {RGB, PHOTOMETRIC_RGB, 2, -1}};
static string tiff_file(const TiffKind &k, uint32_t w, uint32_t h, int depth, const std::vector<int> &px, int compression, bool planar, bool bigendian, bool tiled, uint32_t rps, const string &icc) {
    auto name = scratch() + "/make.tif";
    TIFFSetErrorHandler(nullptr);
    TIFFSetWarningHandler(nullptr);
    auto *t = TIFFOpen(name.c_str(), bigendian ? "wb" : "wl");
    if(!t) throw std::runtime_error("no tiff");
    TIFFSetField(t, TIFFTAG_IMAGEWIDTH, w);
    TIFFSetField(t, TIFFTAG_IMAGELENGTH, h);
    TIFFSetField(t, TIFFTAG_BITSPERSAMPLE, depth);
    TIFFSetField(t, TIFFTAG_SAMPLESPERPIXEL, k.spp);
    TIFFSetField(t, TIFFTAG_PHOTOMETRIC, k.photometric);
    TIFFSetField(t, TIFFTAG_PLANARCONFIG, planar ? PLANARCONFIG_SEPARATE : PLANARCONFIG_CONTIG);
    TIFFSetField(t, TIFFTAG_COMPRESSION, compression);
    if(k.extra >= 0) {
        std::vector<uint16_t> ex((size_t)(k.spp - NC[k.cs]), (uint16_t)k.extra);
        TIFFSetField(t, TIFFTAG_EXTRASAMPLES, (int)ex.size(), ex.data());
    }
    std::vector<uint16_t> map(3u << (depth > 8 ? 8 : depth), 0x1234);
    if(k.photometric == PHOTOMETRIC_PALETTE) TIFFSetField(t, TIFFTAG_COLORMAP, map.data(), map.data(), map.data());
    if(!icc.empty()) TIFFSetField(t, TIFFTAG_ICCPROFILE, (uint32_t)icc.size(), icc.data());
    if(tiled) {
        TIFFSetField(t, TIFFTAG_TILEWIDTH, 16);
        TIFFSetField(t, TIFFTAG_TILELENGTH, 16);
        string tile((size_t)TIFFTileSize(t), 'x');
        for(uint32_t y = 0; y < h; y += 16)
            for(uint32_t x = 0; x < w; x += 16)
                for(int s = 0; s < (planar ? k.spp : 1); ++s) TIFFWriteTile(t, tile.data(), x, y, 0, (uint16_t)s);
    } else {
        TIFFSetField(t, TIFFTAG_ROWSPERSTRIP, rps);
        for(int s = 0; s < (planar ? k.spp : 1); ++s)
            for(uint32_t y = 0; y < h; ++y) {
                std::vector<int> row;
                for(uint32_t x = 0; x < w; ++x)
                    for(int c = 0; c < k.spp; ++c)
                        if(!planar || c == s) row.push_back(px[(y * w + x) * (uint32_t)k.spp + (uint32_t)c]);
                auto b = pack(row, (uint32_t)row.size(), 1, 1, depth);
                if(depth == 16) // native order for the library
                    for(size_t q = 0; q + 1 < b.size(); q += 2) std::swap(b[q], b[q + 1]);
                TIFFWriteScanline(t, b.data(), y, (uint16_t)s);
            }
    }
    TIFFClose(t);
    return read_file(name);
}
struct JpegKind { J_COLOR_SPACE in, file; int cs; bool adobe; };
static const std::vector<JpegKind> JPEGS = {{JCS_GRAYSCALE, JCS_GRAYSCALE, GRAY, false}, {JCS_RGB, JCS_YCbCr, RGB, false}, {JCS_RGB, JCS_YCbCr, RGB, true}, {JCS_RGB, JCS_RGB, RGB, true}, {JCS_CMYK, JCS_CMYK, CMYK, true}, {JCS_CMYK, JCS_CMYK, CMYK, false}, {JCS_CMYK, JCS_YCCK, CMYK, true}};
static string jpeg_file(const JpegKind &k, uint32_t w, uint32_t h, bool progressive, int restart, bool jfif, const string &icc) {
    jpeg_compress_struct c;
    jpeg_error_mgr e;
    c.err = jpeg_std_error(&e);
    jpeg_create_compress(&c);
    unsigned char *buf = nullptr;
    unsigned long n = 0;
    jpeg_mem_dest(&c, &buf, &n);
    c.image_width = w;
    c.image_height = h;
    c.input_components = NC[k.cs];
    c.in_color_space = k.in;
    jpeg_set_defaults(&c);
    jpeg_set_colorspace(&c, k.file);
    c.write_Adobe_marker = k.adobe;
    if(!jfif) c.write_JFIF_header = FALSE;
    c.restart_interval = (unsigned)restart;
    if(progressive) jpeg_simple_progression(&c);
    jpeg_start_compress(&c, TRUE);
    if(!icc.empty()) jpeg_write_icc_profile(&c, (const JOCTET *)icc.data(), (unsigned)icc.size());
    auto px = pattern(w * (size_t)NC[k.cs], 8, 3);
    string row;
    for(int v : px) row += (char)v;
    while(c.next_scanline < h) {
        JSAMPROW r = (JSAMPROW)row.data();
        jpeg_write_scanlines(&c, &r, 1);
    }
    jpeg_finish_compress(&c);
    jpeg_destroy_compress(&c);
    string s((char *)buf, n);
    free(buf);
    return s;
}
} // namespace mc
