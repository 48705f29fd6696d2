// Harness-side encoders/decoders: independent of the code under test.
#include "img.h"
#include <png.h>
#include <jpeglib.h>
#include <setjmp.h>

void fill_ref(Ref& r, bool smooth, int flavour, uint64_t seed) {
        r.px.assign((size_t)r.w * r.h * r.ch, 0);
        Rng g(seed);
        int ax = g.below(5), ay = g.below(5), b = g.below(256);
        for (int y = 0; y < r.h; ++y)
                for (int x = 0; x < r.w; ++x)
                        for (int c = 0; c < r.ch; ++c) {
                                unsigned char v;
                                if (smooth) v = (unsigned char)std::min(255, std::max(0, b / 2 + ax * x + ay * y / 2 + (c == 3 ? 255 : 0)));
                                else if (flavour == 0) v = (unsigned char)(b + c);
                                else if (flavour == 1) v = (unsigned char)"\n\r \t#0159P"[g.below(10)];
                                else v = (unsigned char)g.next();
                                r.px[((size_t)y * r.w + x) * r.ch + c] = v;
                        }
}
Ref draw_ref(int maxdim, bool smooth) {
        Ref r;
        r.ch = choose(2) ? 4 : 1;
        r.w = 1 + (int)small(maxdim - 1);
        r.h = 1 + (int)small(maxdim - 1);
        fill_ref(r, smooth, choose(3), choose(1u << 20));
        return r;
}
struct NXImage* make_image(const Ref& r, int pad) {
        struct NXImage* img = nx_image_alloc();
        nx_image_resize(img, r.w, r.h, r.w * r.ch + pad, r.ch == 1 ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA, NX_IMAGE_UCHAR);
        for (int y = 0; y < r.h; ++y) memcpy(img->data.uc + (size_t)y * img->row_stride, &r.px[(size_t)y * r.w * r.ch], (size_t)r.w * r.ch);
        return img;
}
bool image_equals(const struct NXImage* img, const Ref& r, std::string* why) {
        char b[200];
        if (img->width != r.w || img->height != r.h || img->n_channels != r.ch || img->dtype != NX_IMAGE_UCHAR ||
            img->type != (r.ch == 1 ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA) || img->row_stride < r.w * r.ch) {
                snprintf(b, sizeof b, "image is %dx%d ch=%d type=%d dtype=%d stride=%d, expected %dx%d ch=%d", img->width, img->height, img->n_channels,
                         (int)img->type, (int)img->dtype, img->row_stride, r.w, r.h, r.ch);
                if (why) *why = b;
                return false;
        }
        for (int y = 0; y < r.h; ++y)
                for (int x = 0; x < r.w * r.ch; ++x)
                        if (img->data.uc[(size_t)y * img->row_stride + x] != r.px[(size_t)y * r.w * r.ch + x] &&
                            (r.alt.size() != r.px.size() || img->data.uc[(size_t)y * img->row_stride + x] != r.alt[(size_t)y * r.w * r.ch + x])) {
                                snprintf(b, sizeof b, "pixel byte (row %d, offset %d) is %d, expected %d", y, x,
                                         img->data.uc[(size_t)y * img->row_stride + x], r.px[(size_t)y * r.w * r.ch + x]);
                                if (why) *why = b;
                                return false;
                        }
        return true;
}
bool decode_pnm(const std::string& s, Ref& out, std::string* why) {
        size_t p = 2;
        auto bad = [&](const char* m) { *why = m; return false; };
        if (s.size() < 2 || s[0] != 'P' || (s[1] != '5' && s[1] != '6')) return bad("no P5/P6 magic");
        int v[3];
        for (int i = 0; i < 3; ++i) {
                while (p < s.size() && isspace((unsigned char)s[p])) ++p;
                if (p < s.size() && s[p] == '#') { while (p < s.size() && s[p] != '\n') ++p; --i; continue; }
                int n = 0, d = 0;
                while (p < s.size() && isdigit((unsigned char)s[p])) { n = n * 10 + (s[p++] - '0'); ++d; }
                if (!d) return bad("bad header number");
                v[i] = n;
        }
        if (p >= s.size() || !isspace((unsigned char)s[p])) return bad("no separator after header");
        ++p;
        if (v[2] != 255) return bad("maxval is not 255");
        int nch = s[1] == '5' ? 1 : 3;
        if (s.size() - p != (size_t)v[0] * v[1] * nch) { *why = "raster has " + std::to_string(s.size() - p) + " bytes"; return false; }
        out.w = v[0]; out.h = v[1]; out.ch = nch == 1 ? 1 : 4;
        out.px.clear();
        for (size_t i = 0; i < (size_t)v[0] * v[1]; ++i) {
                for (int c = 0; c < nch; ++c) out.px.push_back((unsigned char)s[p + i * nch + c]);
                if (nch == 3) out.px.push_back(255);
        }
        return true;
}
bool decode_png(const std::string& s, Ref& out, std::string* why) {
        png_image im;
        memset(&im, 0, sizeof im);
        im.version = PNG_IMAGE_VERSION;
        if (!png_image_begin_read_from_memory(&im, s.data(), s.size())) { *why = im.message; return false; }
        bool gray = !(im.format & PNG_FORMAT_FLAG_COLOR);
        im.format = gray ? PNG_FORMAT_GRAY : PNG_FORMAT_RGBA;
        out.w = im.width; out.h = im.height; out.ch = gray ? 1 : 4;
        out.px.assign(PNG_IMAGE_SIZE(im), 0);
        if (!png_image_finish_read(&im, nullptr, out.px.data(), 0, nullptr)) { *why = im.message; return false; }
        if (im.warning_or_error) { *why = im.message; return false; }
        if (s.size() < 12 || memcmp(s.data() + s.size() - 8, "IEND", 4)) { *why = "no IEND at end of file"; return false; }
        return true;
}
struct JErr { struct jpeg_error_mgr pub; jmp_buf jb; };
static void jexit(j_common_ptr c) { longjmp(((JErr*)c->err)->jb, 1); }
static void jmsg(j_common_ptr) {}
bool decode_jpeg(const std::string& s, Ref& out, int want_ch, std::string* why) {
        struct jpeg_decompress_struct ci;
        JErr e;
        ci.err = jpeg_std_error(&e.pub);
        e.pub.error_exit = jexit;
        e.pub.output_message = jmsg;
        if (setjmp(e.jb)) { jpeg_destroy_decompress(&ci); *why = "libjpeg error"; return false; }
        jpeg_create_decompress(&ci);
        jpeg_mem_src(&ci, (const unsigned char*)s.data(), s.size());
        jpeg_read_header(&ci, TRUE);
        int nc = want_ch == 1 ? 1 : want_ch == 4 ? 3 : (ci.num_components == 1 ? 1 : 3);
        ci.out_color_space = nc == 1 ? JCS_GRAYSCALE : JCS_RGB;
        jpeg_start_decompress(&ci);
        out.w = ci.output_width; out.h = ci.output_height; out.ch = nc == 1 ? 1 : 4;
        out.px.clear();
        std::vector<unsigned char> row((size_t)out.w * nc);
        while (ci.output_scanline < ci.output_height) {
                JSAMPROW rp = row.data();
                jpeg_read_scanlines(&ci, &rp, 1);
                for (int x = 0; x < out.w; ++x) {
                        for (int c = 0; c < nc; ++c) out.px.push_back(row[x * nc + c]);
                        if (nc == 3) out.px.push_back(255);
                }
        }
        jpeg_finish_decompress(&ci);
        long w = ci.err->num_warnings;
        jpeg_destroy_decompress(&ci);
        if (w) { *why = "libjpeg warnings (truncated or corrupt stream)"; return false; }
        return true;
}
std::string encode_pnm(const Ref& r, int style) {
        char b[160];
        const char* m = r.ch == 1 ? "P5" : "P6";
        switch (style) {
        case 1: snprintf(b, sizeof b, "%s\n%d %d %d\n", m, r.w, r.h, 255); break;
        case 2: snprintf(b, sizeof b, "%s %d %d %d ", m, r.w, r.h, 255); break;
        case 3: snprintf(b, sizeof b, "%s\n# a comment\n%d %d\n255\n", m, r.w, r.h); break;
        case 4: snprintf(b, sizeof b, "%s\n# one\n#two 1 2 3\n%d\n%d\n255\t", m, r.w, r.h); break;
        default: snprintf(b, sizeof b, "%s\n%d %d\n255\n", m, r.w, r.h); break;
        }
        std::string s = b;
        for (size_t i = 0; i < (size_t)r.w * r.h; ++i) s.append((const char*)&r.px[i * r.ch], r.ch == 1 ? 1 : 3);
        return s;
}
std::string encode_pnm16(const Ref& r) {
        std::string s = (r.ch == 1 ? "P5\n" : "P6\n") + std::to_string(r.w) + " " + std::to_string(r.h) + "\n65535\n";
        for (size_t i = 0; i < (size_t)r.w * r.h; ++i)
                for (int c = 0; c < (r.ch == 1 ? 1 : 3); ++c) s.append(2, (char)r.px[i * r.ch + c]);
        return s;
}
static void pw(png_structp p, png_bytep d, size_t n) { ((std::string*)png_get_io_ptr(p))->append((const char*)d, n); }
static void pf(png_structp) {}
std::string encode_png(const Ref& r, int color, int depth, bool interlace, bool trns) {
        std::string s;
        png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0);
        png_infop inf = png_create_info_struct(p);
        if (setjmp(png_jmpbuf(p))) { png_destroy_write_struct(&p, &inf); return std::string(); }
        png_set_write_fn(p, &s, pw, pf);
        static const int ct[] = {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGBA, PNG_COLOR_TYPE_PALETTE};
        png_set_IHDR(p, inf, r.w, r.h, depth, ct[color], interlace ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_BASE, PNG_FILTER_TYPE_BASE);
        int nc = color == 0 || color == 4 ? 1 : color == 1 ? 2 : color == 2 ? 3 : 4;
        if (color == 4) {
                png_color pal[256];
                for (int i = 0; i < 256; ++i) { pal[i].red = i; pal[i].green = 255 - i; pal[i].blue = i * 7; }
                png_set_PLTE(p, inf, pal, 1 << depth);
                if (trns) { unsigned char t[4] = {0, 128, 255, 7}; png_set_tRNS(p, inf, t, std::min(4, 1 << depth), nullptr); }
        } else if (trns && (color == 0 || color == 2)) {
                png_color_16 c;
                memset(&c, 0, sizeof c);
                png_set_tRNS(p, inf, nullptr, 1, &c);
        }
        png_write_info(p, inf);
        size_t bpr = ((size_t)r.w * nc * depth + 7) / 8;
        std::vector<std::vector<unsigned char>> rows(r.h, std::vector<unsigned char>(bpr, 0));
        std::vector<png_bytep> rp;
        for (int y = 0; y < r.h; ++y) {
                for (int x = 0; x < r.w; ++x)
                        for (int c = 0; c < nc; ++c) {
                                // channel samples come from the RGBA reference; gray uses R, alpha uses A
                                int src = color == 1 ? (c == 0 ? 0 : 3) : c;
                                unsigned v = r.at(x, y)[src];
                                if (depth == 16) { size_t o = ((size_t)x * nc + c) * 2; rows[y][o] = v; rows[y][o + 1] = 0; }
                                else if (depth == 8) rows[y][(size_t)x * nc + c] = v;
                                else { unsigned q = v >> (8 - depth); size_t bit = (size_t)x * depth; rows[y][bit / 8] |= q << (8 - depth - bit % 8); }
                        }
                rp.push_back(rows[y].data());
        }
        png_write_image(p, rp.data());
        png_write_end(p, inf);
        png_destroy_write_struct(&p, &inf);
        return s;
}
std::string encode_jpeg(const Ref& r, bool progressive, int quality, int odd) {
        struct jpeg_compress_struct ci;
        JErr e;
        ci.err = jpeg_std_error(&e.pub);
        e.pub.error_exit = jexit;
        unsigned char* buf = nullptr;
        unsigned long n = 0;
        if (setjmp(e.jb)) { jpeg_destroy_compress(&ci); return std::string(); }
        jpeg_create_compress(&ci);
        jpeg_mem_dest(&ci, &buf, &n);
        ci.image_width = r.w; ci.image_height = r.h;
        ci.input_components = r.ch == 1 ? 1 : 3;
        ci.in_color_space = r.ch == 1 ? JCS_GRAYSCALE : JCS_RGB;
        if (odd) {
                static const int oc[] = {4, 4, 2, 3, 4};
                ci.input_components = oc[odd - 1];
                ci.in_color_space = odd <= 2 ? JCS_CMYK : JCS_UNKNOWN;
        }
        jpeg_set_defaults(&ci);
        if (odd == 2) jpeg_set_colorspace(&ci, JCS_YCCK);
        jpeg_set_quality(&ci, quality, TRUE);
        if (progressive) jpeg_simple_progression(&ci);
        jpeg_start_compress(&ci, TRUE);
        std::vector<unsigned char> row((size_t)r.w * 4);
        while (ci.next_scanline < ci.image_height) {
                int y = ci.next_scanline;
                for (int x = 0; x < r.w; ++x)
                        for (int c = 0; c < ci.input_components; ++c) row[x * ci.input_components + c] = r.at(x, y)[r.ch == 1 ? 0 : c];
                JSAMPROW rp = row.data();
                jpeg_write_scanlines(&ci, &rp, 1);
        }
        jpeg_finish_compress(&ci);
        std::string s((char*)buf, n);
        free(buf);
        jpeg_destroy_compress(&ci);
        return s;
}
