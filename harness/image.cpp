/* Colour maps and image files. */
#include <cmath>
#include <fstream>
#include <string>
#include <softlib/ImageGenerator/ImageColormap.h>
#include <softlib/ImageGenerator/ImageGenerator.h>
#include <softlib/ImageGenerator/ImageGeneratorPNG.h>
#include <softlib/ImageGenerator/ImageGeneratorPPM.h>
#include <softlib/SOFTLibException.h>
#include "sym.h"
#ifndef NC
#define NC 4
#endif
typedef ImageColormap::scolor_t C;
static unsigned fl(double x) { return (unsigned)x; }

/* any value and range start with fixed tables; any table at fixed values */
static void mapped(bool any) {
    unsigned n = 1 + sym_choice("n", NC);
    C tab[NC]; unsigned fix[6][3] = {{10, 250, 30}, {255, 0, 31}, {0, 128, 29}, {100, 7, 200}, {101, 255, 0}, {3, 3, 255}};
    static const double W[3] = {1, 2.5, 0.125}, V[5] = {0, 0.3125, 0.5, 0.90625, 1};
    double lo, hi, v;
    for (unsigned i = 0; i < n; i++) {
        if (any) { tab[i].red = (unsigned)sym_zint("r", 0, 255); tab[i].green = (unsigned)sym_zint("g", 0, 255); tab[i].blue = (unsigned)sym_zint("b", 0, 255); }
        else { tab[i].red = fix[i][0]; tab[i].green = fix[i][1]; tab[i].blue = fix[i][2]; }
    }
    if (any) { lo = -1; hi = 1.5; v = lo + 2.5 * V[sym_choice("v", 5)]; }
    else { lo = sym_real("vmin"); hi = lo + W[sym_choice("w", 3)]; v = sym_real("v"); }
    ImageColormap m(tab, n, lo, hi);
    C want, c;
    unsigned k = sym_choice("where", n + 1);       /* 0: below, n: above, else between k-1 and k */
    if (k == 0) { sym_assume(v <= lo); want = tab[0]; sym_reach("below"); }
    else if (k == n) { sym_assume(v >= hi); want = tab[n - 1]; sym_reach("above"); }
    else {
        double t = (v - lo) / (hi - lo) * (n - 1);
        sym_assume(v > lo && v < hi && t >= k - 1 && t < k);
        double f = t - (k - 1);
        c = m.Eval(v);
        double er = (1 - f) * tab[k - 1].red + f * tab[k].red, eg = (1 - f) * tab[k - 1].green + f * tab[k].green, eb = (1 - f) * tab[k - 1].blue + f * tab[k].blue;
        SYM_ASSERT((double)c.red <= er && er < (double)c.red + 1, "colours in between are interpolated (red)");
        SYM_ASSERT((double)c.green <= eg && eg < (double)c.green + 1, "colours in between are interpolated (green)");
        SYM_ASSERT((double)c.blue <= eb && eb < (double)c.blue + 1, "colours in between are interpolated (blue)");
        sym_reach("between");
        return;
    }
    c = m.Eval(v);
    SYM_ASSERT(c.red == want.red && c.green == want.green && c.blue == want.blue, "values outside the range get the end colours");
}
extern "C" void h_map() { mapped(false); }
extern "C" void h_table() { mapped(true); }
/* values that are not in any range */
extern "C" void h_special() {
    C tab[2] = {{1, 2, 3}, {200, 100, 50}};
    ImageColormap m(tab, 2, 0, 1);
    unsigned k = sym_choice("k", 3);
    double v = k == 0 ? __builtin_inf() : k == 1 ? -__builtin_inf() : __builtin_nan("");
    C c = m.Eval(v);
    if (k == 0) SYM_ASSERT(c.red == 200 && c.green == 100 && c.blue == 50, "infinity gets the last colour");
    else if (k == 1) SYM_ASSERT(c.red == 1 && c.green == 2 && c.blue == 3, "minus infinity gets the first colour");
    else SYM_ASSERT(c.red <= 200 && c.green <= 100 && c.blue <= 50, "nan gets some colour of the map");
    sym_reach("end");
}
/* built-in maps */
extern "C" void h_builtin() {
    ImageGeneratorPPM g;
    double v = sym_real("v");
    C c = g.cmap_gray->Eval(v), d = g.cmap_gerimap->Eval(v);
    SYM_ASSERT(c.red == c.green && c.green == c.blue, "the gray map is gray");
    SYM_ASSERT(c.red <= 255, "colours fit a byte");
    SYM_ASSERT(d.red <= 255 && d.green <= 255 && d.blue <= 255, "colours fit a byte");
    if (v <= 0) SYM_ASSERT(c.red == 0 && d.red == 0 && d.green == 0 && d.blue == 0, "both maps start at black");
    if (v >= 1) SYM_ASSERT(c.red == 255 && d.red == 255 && d.green == 255 && d.blue == 255, "both maps end at white");
    if (v > 0 && v < 1) SYM_ASSERT((double)c.red <= 255 * v && 255 * v < (double)c.red + 1, "the gray map is linear");
    sym_reach("end");
}

/* the file: header and every pixel, in order */
#ifndef DIM
#define DIM 3
#endif
/* what libpng was asked to write (native: what it reads back) */
struct Pic { unsigned w, h; unsigned char px[DIM * DIM * 3]; bool ok; };
#ifdef VERIF_NATIVE
#include <png.h>
#include <cstring>
static Pic readback(const char *nm) {
    Pic p; memset(&p, 0, sizeof p);
    png_image im; memset(&im, 0, sizeof im); im.version = PNG_IMAGE_VERSION;
    if (!png_image_begin_read_from_file(&im, nm)) return p;
    im.format = PNG_FORMAT_RGB;
    p.w = im.width; p.h = im.height;
    if (p.w * p.h * 3 > sizeof p.px) return p;
    p.ok = png_image_finish_read(&im, nullptr, p.px, 0, nullptr);
    return p;
}
#else
extern "C" { extern unsigned vpng_w, vpng_h; extern bool vpng_written, vpng_closed; extern unsigned char vpng_px[]; extern unsigned vpng_n; }
static Pic readback(const char *) {
    Pic p; p.w = vpng_w; p.h = vpng_h; p.ok = vpng_written && vpng_closed && vpng_n == p.w * p.h * 3;
    for (unsigned i = 0; i < vpng_n; i++) p.px[i] = vpng_px[i];
    return p;
}
#endif
static void picture(bool png) {
    unsigned nr = 1 + sym_choice("nr", DIM), nc = 1 + sym_choice("nc", DIM);
    double img[DIM * DIM];
    for (unsigned i = 0; i < nr * nc; i++) { img[i] = sym_real("p"); sym_assume(img[i] > 0 && img[i] < 1); }
    C tab[2] = {{0, 255, 100}, {255, 0, 100}};
    unsigned how = sym_choice("how", 3);
    ImageColormap own(tab, 2, 0, 1);
    ImageGeneratorPPM ref;
    ImageGenerator::image_type ty = png ? ImageGenerator::IMAGE_TYPE_PNG : ImageGenerator::IMAGE_TYPE_PPM;
    ImageColormap *used = &own;
    if (how == 0) ImageGenerator::gen(ty, "out.img", img, nr, nc, &own);
    else if (how == 1) { ImageGenerator::gen(ty, "out.img", img, nr, nc, ImageGenerator::COLORMAP_GRAY); used = ref.cmap_gray; }
    else { used = ref.cmap_gray; ImageGenerator *g = ImageGenerator::GetImageGenerator(ty); g->SaveImage("out.img", img, nr, nc, ImageGenerator::COLORMAP_GRAY); delete g; }
    if (png) {
        Pic p = readback("out.img");
        SYM_ASSERT(p.ok, "the picture is written");
        SYM_ASSERT(p.w == nr && p.h == nc, "the size of the picture");
        for (unsigned y = 0; y < nc; y++) for (unsigned x = 0; x < nr; x++) {
            C c = used->Eval(img[x * nc + y]); unsigned char *q = p.px + 3 * (y * nr + x);
            SYM_ASSERT(q[0] == c.red && q[1] == c.green && q[2] == c.blue, "pixel (x,y) has the colour of element (x,y)");
        }
    } else {
        std::ifstream f("out.img"); std::string sig; unsigned w = 0, h = 0, mx = 0;
        f >> sig >> w >> h >> mx;
        SYM_ASSERT(sig == "P3" && mx == 255, "the header of the picture");
        SYM_ASSERT(w == nr && h == nc, "the size of the picture");
        for (unsigned y = 0; y < nc; y++) for (unsigned x = 0; x < nr; x++) {
            C c = used->Eval(img[x * nc + y]); unsigned r = 999, g = 999, b = 999;
            f >> r >> g >> b;
            SYM_ASSERT(r == c.red && g == c.green && b == c.blue, "pixel (x,y) has the colour of element (x,y)");
        }
        std::string rest; f >> rest;
        SYM_ASSERT(rest.empty(), "nothing follows the last pixel");
    }
    sym_reach("end");
}
extern "C" void h_ppm() { picture(false); }
extern "C" void h_png() { picture(true); }
extern "C" void h_types() {
    bool threw = false;
    try { ImageGenerator::GetImageGenerator((ImageGenerator::image_type)7); } catch (SOFTLibException &) { threw = true; }
    SYM_ASSERT(threw, "unknown formats are refused");
    threw = false;
    ImageGeneratorPPM gp; ImageGenerator &g = gp; double v = 0.5;
    try { g.SaveImage("out.img", &v, 1, 1, (ImageGenerator::colormap_type)9); } catch (SOFTLibException &) { threw = true; }
    SYM_ASSERT(threw, "unknown colour maps are refused");
    /* no colour map given */
    ImageGenerator::gen(ImageGenerator::IMAGE_TYPE_PPM, "out.img", &v, 1, 1);
    std::ifstream f("out.img"); std::string sig; f >> sig;
    SYM_ASSERT(sig == "P3", "a picture is written without a colour map as well");
    sym_reach("end");
}

/* larger pictures and maps */
extern "C" void h_bigpicture() {
    bool png = sym_choice("png", 2);
    static const unsigned SZ[3][2] = {{13, 9}, {3, 17}, {17, 2}};
    unsigned k = sym_choice("size", 3), nr = SZ[k][0], nc = SZ[k][1], w = 0, h = 0, mx = 0;
    double img[17 * 9];
    for (unsigned i = 0; i < nr * nc; i++) img[i] = (i * 37 % 101) / 101.0;
    img[nc] = sym_real_in("p", 0, 1); img[nr * nc - 1] = sym_real_in("p", 0, 1); sym_assume(img[nc] < 1); sym_assume(img[nr * nc - 1] < 1);
    ImageGeneratorPPM ref;
    ImageGenerator::gen(png ? ImageGenerator::IMAGE_TYPE_PNG : ImageGenerator::IMAGE_TYPE_PPM, "out.img", img, nr, nc, ImageGenerator::COLORMAP_GRAY);
    bool same = true;
    if (png) {
        Pic p = readback("out.img");
        SYM_ASSERT(p.ok && p.w == nr && p.h == nc, "the size of the picture");
        for (unsigned y = 0; y < nc; y++) for (unsigned x = 0; x < nr; x++) { C c = ref.cmap_gray->Eval(img[x * nc + y]); unsigned char *q = p.px + 3 * (y * nr + x); same &= (q[0] == c.red) & (q[1] == c.green) & (q[2] == c.blue); }
    } else {
        std::ifstream f("out.img"); std::string sig;
        f >> sig >> w >> h >> mx;
        SYM_ASSERT(sig == "P3" && mx == 255 && w == nr && h == nc, "the header of the picture");
        for (unsigned y = 0; y < nc; y++) for (unsigned x = 0; x < nr; x++) { C c = ref.cmap_gray->Eval(img[x * nc + y]); unsigned r = 999, g = 999, b = 999; f >> r >> g >> b; same &= (r == c.red) & (g == c.green) & (b == c.blue); }
    }
    SYM_ASSERT(same, "pixel (x,y) has the colour of element (x,y)");
    sym_reach("end");
}
extern "C" void h_bigmap() {
    C tab[41];
    for (unsigned i = 0; i < 41; i++) { tab[i].red = i * 53 % 256; tab[i].green = 255 - i * 6; tab[i].blue = i * i % 256; }
    ImageColormap m(tab, 41, -1, 3);
    unsigned k = sym_choice("where", 8) * 5 + 4;
    double v = sym_real("v"), t = (v + 1) * 10;
    sym_assume(t >= k); sym_assume(k == 39 ? t <= 40 : t < k + 1);
    C c = m.Eval(v);
    double f = t - k, er = (1 - f) * tab[k].red + f * tab[k + 1].red, eg = (1 - f) * tab[k].green + f * tab[k + 1].green, eb = (1 - f) * tab[k].blue + f * tab[k + 1].blue;
    SYM_ASSERT((double)c.red <= er && er < (double)c.red + 1, "colours in between are interpolated (red)");
    SYM_ASSERT((double)c.green <= eg && eg < (double)c.green + 1, "colours in between are interpolated (green)");
    SYM_ASSERT((double)c.blue <= eb && eb < (double)c.blue + 1, "colours in between are interpolated (blue)");
    sym_reach("end");
}
