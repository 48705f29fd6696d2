#ifndef SIM_IMG_H
#define SIM_IMG_H
#include "util.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_colorspace.h"

// Reference picture held outside the library's heap.
struct Ref {
        int w = 0, h = 0, ch = 1;               // ch: 1 gray, 4 RGBA
        std::vector<unsigned char> px;          // tight
        std::vector<unsigned char> alt;         // where given: the other acceptable values (rounding of a luma on the edge)
        const unsigned char* at(int x, int y) const { return &px[((size_t)y * w + x) * ch]; }
};
// 8-bit luma of a colour: the integer part of 0.3 R + 0.59 G + 0.11 B; both
// neighbours are acceptable where it is an integer up to float rounding
inline void push_luma(Ref& r, int R, int G, int B) {
        double l = 0.3 * R + 0.59 * G + 0.11 * B;
        r.px.push_back((unsigned char)(l + 1e-3 > 255 ? 255 : l + 1e-3));
        r.alt.push_back((unsigned char)(l - 1e-3 < 0 ? 0 : l - 1e-3));
}
enum Fmt { F_PNM, F_PNG, F_JPEG };
Ref draw_ref(int maxdim, bool smooth);
void fill_ref(Ref& r, bool smooth, int flavour, uint64_t seed);
struct NXImage* make_image(const Ref& r, int pad);          // inside an op
bool image_equals(const struct NXImage* img, const Ref& r, std::string* why);
// Independent codecs (harness-side libpng/libjpeg, in memory).
bool decode_pnm(const std::string& b, Ref& out, std::string* why);
bool decode_png(const std::string& b, Ref& out, std::string* why);
bool decode_jpeg(const std::string& b, Ref& out, int want_ch, std::string* why);
std::string encode_pnm(const Ref& r, int style);
std::string encode_pnm16(const Ref& r);
// color: 0 gray,1 GA,2 RGB,3 RGBA,4 palette ; depth 1,2,4,8,16
std::string encode_png(const Ref& rgba, int color, int depth, bool interlace, bool trns);
// odd: 0 gray/RGB, 1 CMYK, 2 YCCK, 3..5 unknown colour space with 2..4 components
std::string encode_jpeg(const Ref& r, bool progressive, int quality, int odd = 0);
#endif
