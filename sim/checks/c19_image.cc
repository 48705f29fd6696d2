// C19: image operations are functions of the pixels and parameters alone, match
// their definitions and stay inside their images, on a hostile heap.
#include "pic.h"
#include <functional>
#include "virg/nexus/nx_filter.h"
#include "virg/nexus/nx_image_warp.h"
#include "virg/nexus/vg_image.hpp"

using virg::nexus::VGImage;
using virg::nexus::VGColorMap;
namespace {
typedef std::function<void(struct NXImage*, struct NXImage*, struct NXImage*)> Fn;

// Run the operation in several memory layouts: every result matches the
// reference, and the results are bit-identical.
void run_layouts(const char* what, const Pic& src, const Pic* src2, const Pic& ref, double lo, double hi, bool in_place, Rng& r, const Fn& f) {
        std::vector<float> first;
        int n = 2 + choose(2);
        for (int k = 0; k < n; ++k) {
                int ls = k == 0 ? 0 : (int)choose(4), ld = k == 0 ? 4 : (int)choose(5);
                bool inp = in_place && k > 0 && choose(3) == 0;
                knobs().junk_seed = r.next();
                op("  %s %dx%d -> %dx%d source layout %d dest layout %s%d", what, src.w, src.h, ref.w, ref.h, ls, inp ? "in place " : "", ld);
                std::vector<float> px;
                run_clean(what, [&] {
                        Im s = make_im(src, ls, r), s2, d;
                        if (src2) s2 = make_im(*src2, (int)r.below(4), r);
                        if (!inp) {
                                bool same = ld == 1 || ld == 2;
                                d = same ? shape_im(std::max(1, ref.w), std::max(1, ref.h), ref.ch, ref.f, ld, r)
                                         : shape_im(1 + r.below(30), 1 + r.below(30), r.below(2) ? 1 : 4, r.below(2), ld, r);
                        }
                        f(inp ? s.p : d.p, s.p, s2.p);
                        match(what, inp ? s.p : d.p, ref, lo, hi);
                        px = pixels_of(inp ? s.p : d.p);
                        if (!inp) { same_source(what, s, src); free_im(d); }
                        if (src2) { same_source(what, s2, *src2); free_im(s2); }
                        free_im(s);
                });
                if (k == 0) first = px; else same_pixels(what, first, px, inp ? "in place" : "not in place");
        }
        for (float v : first) { uint32_t u; memcpy(&u, &v, 4); hash_mix(u); }
}
// In-place operations on one image.
void run_inplace(const char* what, const Pic& src, const Pic& ref, double lo, double hi, Rng& r, const std::function<void(struct NXImage*)>& f) {
        std::vector<float> first;
        for (int k = 0; k < 2; ++k) {
                int ls = k == 0 ? 0 : (int)choose(4);
                knobs().junk_seed = r.next();
                op("  %s %dx%dx%d layout %d", what, src.w, src.h, src.ch, ls);
                std::vector<float> px;
                run_clean(what, [&] {
                        Im s = make_im(src, ls, r);
                        f(s.p);
                        match(what, s.p, ref, lo, hi);
                        px = pixels_of(s.p);
                        free_im(s);
                });
                if (k == 0) first = px; else same_pixels(what, first, px, "in place");
        }
        for (float v : first) { uint32_t u; memcpy(&u, &v, 4); hash_mix(u); }
}
bool cxx() { return choose(3) == 2; }

// ---------------------------------------------------------------- structure
void t_structure(Rng& r) {
        int ch = choose(2) ? 4 : 1;
        bool f = choose(2);
        Pic a = draw_pic(24, ch, f, r), b = draw_pic(24, choose(2) ? 4 : 1, choose(2), r);
        switch (choose(7)) {
        case 6:
                run_clean("new", [&] {
                        struct NXImage* n = choose(2) ? nx_image_new(a.w, a.h, nxt(ch), nxd(f)) : ch == 4 ? nx_image_new_rgba(a.w, a.h, nxd(f)) : nx_image_new_gray(a.w, a.h, nxd(f));
                        struct NXImage* m = ch == 4 ? (f ? nx_image_new_rgba_f32(a.w, a.h) : nx_image_new_rgba_uc(a.w, a.h)) : (f ? nx_image_new_gray_f32(a.w, a.h) : nx_image_new_gray_uc(a.w, a.h));
                        for (struct NXImage* i : {n, m}) {
                                same_shape("new", i, a);
                                for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) for (int c = 0; c < ch; ++c) put_px(i, x, y, c, a.at(x, y, c));
                                match("new", i, a, 0, 0);
                        }
                        // memory handed over is freed with the image, memory lent is not
                        size_t st = (size_t)a.w * ch + choose(5), len = st * a.h * (f ? 4 : 1);
                        bool own = choose(2);
                        void* p = nx_xmalloc(len);
                        nx_image_wrap(m, p, a.w, a.h, (int)st, nxt(ch), nxd(f), own);
                        for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) for (int c = 0; c < ch; ++c) put_px(m, x, y, c, a.at(x, y, c));
                        match("wrap", m, a, 0, 0);
                        if (m->data.v != p) V("value@wrap", "a wrapped image does not use the memory it was given");
                        nx_image_resize(m, b.w, b.h, NX_IMAGE_STRIDE_DEFAULT, nxt(b.ch), nxd(b.f));
                        same_shape("wrap", m, b);
                        junk(m->data.v, (size_t)m->row_stride * m->height * (b.f ? 4 : 1), r);
                        nx_image_free(m);
                        if (!own) { junk(p, len, r); nx_free(p); }
                        nx_image_free(n);
                });
                break;
        case 0: run_layouts("copy", a, nullptr, a, 0, 0, false, r, [&](NXImage* d, NXImage* s, NXImage*) { if (cxx()) { VGImage vd(d, false), vs(s, false); vd.copy_of(vs); } else nx_image_copy(d, s); }); break;
        case 1:
                run_clean("copy0", [&] {
                        Im s = make_im(a, choose(4), r);
                        if (cxx()) {
                                VGImage vs(s.p, false);
                                VGImage c = vs.clone();
                                match("clone", c.nx_img(), a, 0, 0);
                                junk(c.nx_img()->mem->ptr, c.nx_img()->mem->size, r);
                        } else {
                                struct NXImage* c = nx_image_copy0(s.p);
                                match("copy0", c, a, 0, 0);
                                junk(c->mem->ptr, c->mem->size, r);
                                nx_image_free(c);
                        }
                        same_source("copy0", s, a);
                        free_im(s);
                });
                break;
        case 2:
                run_clean("swap", [&] {
                        Im s = make_im(a, choose(4), r), t = make_im(b, choose(4), r);
                        if (cxx()) {
                                VGImage vs(s.p, false), vt(t.p, false);
                                vs.swap_with(vt);
                                match("swap_with", vs.nx_img(), b, 0, 0);
                                match("swap_with", vt.nx_img(), a, 0, 0);
                        } else {
                                nx_image_swap(s.p, t.p);
                                match("swap", s.p, b, 0, 0);
                                match("swap", t.p, a, 0, 0);
                                // memory moved with the pixels: releasing one leaves the other
                                nx_image_release(s.p);
                                match("swap", t.p, a, 0, 0);
                        }
                        free_im(s);
                        free_im(t);
                });
                break;
        case 3:
                run_clean("resize-like", [&] {
                        Im s = make_im(a, choose(4), r);
                        struct NXImage* n = nx_image_new_like(s.p);
                        same_shape("new_like", n, a);
                        junk(n->data.v, (size_t)n->row_stride * n->height * (f ? 4 : 1), r);
                        Im t = make_im(b, choose(4), r);
                        nx_image_resize_like(t.p, s.p);
                        same_shape("resize_like", t.p, a);
                        junk(t.p->data.v, (size_t)t.p->row_stride * t.p->height * (f ? 4 : 1), r);
                        VGImage v;
                        v.create_like(VGImage(s.p, false));
                        same_shape("create_like", v.nx_img(), a);
                        if (v.width() != a.w || v.height() != a.h || v.n_channels() != a.ch || (v.type() == VGImage::RGBA) != (a.ch == 4) || (v.data_type() == VGImage::FLOAT32) != a.f)
                                V("value@VGImage", "accessors give %dx%dx%d", v.width(), v.height(), v.n_channels());
                        for (int y = 0; y < a.h; ++y) {
                                const void* want = (const char*)v.nx_img()->data.v + (size_t)y * v.row_stride() * (f ? 4 : 1);
                                const void* got = f ? (const void*)v.data<float>(y) : (const void*)v.data<uchar>(y);
                                if (got != want) V("value@VGImage", "row %d starts at offset %td", y, (const char*)got - (const char*)v.nx_img()->data.v);
                        }
                        // an explicit stride is honoured whatever the image was before, one that is too small widened
                        for (int i = 0; i < 3; ++i) {
                                const Pic& g = choose(3) ? a : b;
                                int st = choose(4) == 0 ? (int)choose(g.w * g.ch + 1) : g.w * g.ch + (int)choose(6);
                                nx_image_resize(n, g.w, g.h, st, nxt(g.ch), nxd(g.f));
                                same_shape("resize", n, g);
                                if (n->row_stride != std::max(st, g.w * g.ch)) V("value@resize", "row stride %d after a resize to width %d x %d with stride %d", n->row_stride, g.w, g.ch, st);
                                junk(n->data.v, (size_t)n->row_stride * n->height * (g.f ? 4 : 1), r);
                                for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) for (int c = 0; c < g.ch; ++c) put_px(n, x, y, c, g.at(x, y, c));
                                match("resize", n, g, 0, 0);
                        }
                        same_source("resize_like", s, a);
                        nx_image_free(n);
                        free_im(s);
                        free_im(t);
                });
                break;
        case 4: {
                Pic z = a;
                for (double& q : z.v) q = 0;
                run_inplace("set_zero", a, z, 0, 0, r, [&](NXImage* s) { if (cxx()) VGImage(s, false).set_zero(); else nx_image_set_zero(s); });
                break;
        }
        default:
                run_clean("release", [&] {
                        Im s = make_im(a, choose(4), r);
                        if (cxx()) VGImage(s.p, false).release(); else nx_image_release(s.p);
                        if (s.p->width || s.p->height || s.p->data.v) V("value@release", "%dx%d left", s.p->width, s.p->height);
                        if (s.ext && memcmp(s.ext, s.snap.data(), s.snap.size())) V("source-changed@release", "releasing a wrapping image changed the caller's memory");
                        // and it can be used again
                        nx_image_resize(s.p, b.w, b.h, NX_IMAGE_STRIDE_DEFAULT, nxt(b.ch), nxd(b.f));
                        for (int y = 0; y < b.h; ++y) for (int x = 0; x < b.w; ++x) for (int c = 0; c < b.ch; ++c) put_px(s.p, x, y, c, b.at(x, y, c));
                        match("release", s.p, b, 0, 0);
                        free_im(s);
                });
        }
}
// ---------------------------------------------------------------- per pixel
void t_convert(Rng& r) {
        switch (choose(3)) {
        case 0: {
                bool f = choose(2);
                Pic a = draw_pic(24, 1, f, r), b(a.w, a.h, 4, f);
                for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) for (int c = 0; c < 4; ++c) b.at(x, y, c) = c == 3 ? (f ? 1 : 255) : a.at(x, y);
                run_inplace("gray-to-rgba", a, b, 0, 0, r, [&](NXImage* s) { if (cxx()) VGImage(s, false).convert_type_to(VGImage::RGBA); else nx_image_convert_type(s, NX_IMAGE_RGBA); });
                break;
        }
        case 1: {
                bool f = choose(2);
                Pic a = draw_pic(24, 4, f, r), b(a.w, a.h, 1, f);
                for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) {
                        double g = .3 * a.at(x, y, 0) + .59 * a.at(x, y, 1) + .11 * a.at(x, y, 2);
                        b.at(x, y) = f ? std::min(1.0, std::max(0.0, g)) : g;
                }
                run_inplace("rgba-to-gray", a, b, f ? 1e-5 : 1.01, f ? 1e-5 : .02, r, [&](NXImage* s) { if (cxx()) VGImage(s, false).convert_type_to(VGImage::GRAYSCALE); else nx_image_convert_type(s, NX_IMAGE_GRAYSCALE); });
                break;
        }
        default: {
                bool f = choose(2), same = choose(4) == 3;
                Pic a = draw_pic(24, 1, f, r), b(a.w, a.h, 1, same ? f : !f);
                for (size_t i = 0; i < a.v.size(); ++i) b.v[i] = same ? a.v[i] : f ? a.v[i] * 255 : a.v[i] / 255;
                // the destination's current data type selects the conversion
                run_layouts("convert_dtype", a, nullptr, b, same ? 0 : f ? 1.01 : 1e-6, same ? 0 : f ? .02 : 1e-6, false, r, [&](NXImage* d, NXImage* s, NXImage*) {
                        nx_image_resize(d, 3, 2, NX_IMAGE_STRIDE_DEFAULT, NX_IMAGE_GRAYSCALE, nxd(b.f));
                        nx_image_convert_dtype(d, s);
                });
        }
        }
}
void t_colormap(Rng& r) {
        int map = choose(5);
        bool f = choose(2);
        Pic a = draw_pic(16, 1, f, r), b(a.w, a.h, 4, false);
        if (f && choose(2)) for (double& v : a.v) switch (r.below(12)) { case 0: v = 0; break; case 1: v = 1; break; case 2: v = -0.2; break; case 3: v = 1.7; break; default: v = (float)r.unit(); }
        run_clean("color_map_apply", [&] {
                uchar c[3], p[3] = {0, 0, 0};
                static const int ends[5][6] = {{0, 0, 0, 255, 255, 255}, {68, 1, 84, 253, 231, 36}, {12, 7, 134, 240, 249, 33}, {0, 0, 3, 252, 253, 191}, {0, 0, 0, 255, 255, 255}};
                for (int i = 0; i <= 700; ++i) {
                        float v = i / 700.0f;
                        nx_color_map_apply(c, c + 1, c + 2, v, (enum NXColorMap)map);
                        virg::nexus::VGColor vc = VGColorMap::apply((VGColorMap::Type)map, v);
                        double l = .2126 * c[0] + .7152 * c[1] + .0722 * c[2], lp = .2126 * p[0] + .7152 * p[1] + .0722 * p[2];
                        for (int k = 0; k < 3 && i; ++k) if (abs((int)c[k] - p[k]) > 6) V("value@colormap", "map %d jumps from %d to %d (channel %d) at %g", map, p[k], c[k], k, v);
                        if (i && l < lp - 3) V("value@colormap", "map %d gets darker from %.1f to %.1f at %g", map, lp, l, v);
                        if (map == 0 && (fabs(c[0] - 255 * v) > 1.01 || c[0] != c[1] || c[1] != c[2])) V("value@colormap", "gray map gives %d at %g", c[0], v);
                        for (int k = 0; k < 3; ++k) { if (i == 0 && abs(c[k] - ends[map][k]) > 3) V("value@colormap", "map %d starts at %d", map, c[k]); if (i == 700 && abs(c[k] - ends[map][3 + k]) > 3) V("value@colormap", "map %d ends at %d", map, c[k]); }
                        (void)vc;
                        memcpy(p, c, 3);
                }
                for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) {
                        float v = f ? (float)a.at(x, y) : (float)(a.at(x, y) / 255.0);
                        nx_color_map_apply(c, c + 1, c + 2, v < 0 ? 0 : v > 1 ? 1 : v, (enum NXColorMap)map);
                        for (int k = 0; k < 3; ++k) b.at(x, y, k) = c[k];
                        b.at(x, y, 3) = 255;
                }
        });
        run_layouts("colormap", a, nullptr, b, f ? 0 : 1, f ? 0 : 1, false, r, [&](NXImage* d, NXImage* s, NXImage*) {
                if (cxx()) { VGImage vd(d, false), vs(s, false), q; q.apply_colormap(vd, vs, (VGColorMap::Type)map); }
                else nx_image_apply_colormap(d, s, (enum NXColorMap)map);
        });
}
void t_arith(Rng& r) {
        int ch = choose(2) ? 4 : 1;
        switch (choose(3)) {
        case 0: {
                bool f = choose(2);
                Pic a = draw_pic(24, ch, f, r), b = a;
                float s = (float)((r.unit() - .4) * 4), y = (float)((r.unit() - .5) * (f ? 3 : 300));
                if (choose(3) == 0) { s = 1; y = 0; }
                double m = 0;
                for (double& v : b.v) { m = std::max(m, std::fabs(v * s) + std::fabs(y)); v = s * v + y; }
                run_inplace("axpy", a, b, f ? 1e-6 * m : 1.01, f ? 1e-6 * m : .02, r, [&](NXImage* i) { if (cxx()) VGImage(i, false).axpy(s, y); else nx_image_axpy(i, s, y); });
                break;
        }
        case 1: {
                Pic a = draw_pic(24, ch, true, r), b = a;
                bool sym = choose(2);
                double lo = 1e300, hi = -1e300;
                for (double v : a.v) { lo = std::min(lo, v); hi = std::max(hi, v); }
                double t = std::max(std::fabs(lo), std::fabs(hi));
                for (double& v : b.v) { v = lo == hi ? 0 : sym ? v / (2 * t) + .5 : (v - lo) / (hi - lo); v = std::min(1.0, std::max(0.0, v)); }
                double tol = 2e-6 + (lo == hi ? 0 : 1e-6 * t / (hi - lo));
                run_inplace("normalize", a, b, tol, tol, r, [&](NXImage* i) { if (cxx()) VGImage(i, false).normalize_to_zero_one(sym); else nx_image_normalize_to_zero_one(i, sym); });
                break;
        }
        default: {
                bool f = choose(2);
                Pic a = draw_pic(20, 1, f, r), b = draw_pic(20, 1, f, r);
                if (choose(2)) { b = Pic(a.w, a.h, 1, f); fill_pic(b, choose(6), r); }
                Pic d(std::min(a.w, b.w), std::min(a.h, b.h), 1, true);
                for (int y = 0; y < d.h; ++y) for (int x = 0; x < d.w; ++x) d.at(x, y) = a.at(x, y) - b.at(x, y);
                double tol = 1e-6 * (a.maxabs() + b.maxabs());
                run_layouts("subtract", a, &b, d, tol, tol, false, r, [&](NXImage* o, NXImage* s, NXImage* s2) { nx_image_subtract(o, s, s2); });
        }
        }
}
// ---------------------------------------------------------------- resampling
void t_resample(Rng& r) {
        bool f = choose(2);
        Pic a = draw_pic(28, 1, f, r);
        double m = std::max(1e-3, a.maxabs()), ft = 1e-5 * m;
        switch (choose(5)) {
        case 0: {
                float s;
                switch (choose(4)) { case 0: s = (float)(.2 + 3 * r.unit()); break; case 1: s = 1; break; case 2: s = 2; break; default: s = (float)(1 / (1.0 + r.below(4))); }
                Pic b((int)(a.w * s), (int)(a.h * s), 1, f);
                for (int y = 0; y < b.h; ++y) for (int x = 0; x < b.w; ++x) {
                        double xp = x / (double)s, yp = y / (double)s;
                        int xi = (int)std::floor(xp), yi = (int)std::floor(yp);
                        double u = xp - xi, v = yp - yi;
                        b.at(x, y) = (1 - v) * ((1 - u) * a.rep(xi, yi) + u * a.rep(xi + 1, yi)) + v * ((1 - u) * a.rep(xi, yi + 1) + u * a.rep(xi + 1, yi + 1));
                }
                run_layouts("scale", a, nullptr, b, f ? ft * 10 : 1.05, f ? ft * 10 : .05, false, r, [&](NXImage* d, NXImage* i, NXImage*) { if (cxx()) { VGImage v(d, false), w(i, false); v.scaled_of(w, s); } else nx_image_scale(d, i, s); });
                break;
        }
        case 1: {
                Pic b(a.w / 2, a.h / 2, 1, f);
                for (int y = 0; y < b.h; ++y) for (int x = 0; x < b.w; ++x) b.at(x, y) = a.at(2 * x, 2 * y);
                run_layouts("downsample", a, nullptr, b, 0, 0, false, r, [&](NXImage* d, NXImage* i, NXImage*) { if (cxx()) { VGImage v(d, false), w(i, false); v.downsampled_from(w); } else nx_image_downsample(d, i); });
                break;
        }
        case 2: {
                Pic b(a.w * 2, a.h * 2, 1, f);
                for (int y = 0; y < b.h; ++y) for (int x = 0; x < b.w; ++x) {
                        int xi = x / 2, yi = y / 2;
                        double s = 0;
                        for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) s += a.rep(xi + (x & 1) * i, yi + (y & 1) * j);
                        b.at(x, y) = s / 4;
                }
                run_layouts("upsample", a, nullptr, b, f ? ft : .76, f ? ft : 0, false, r, [&](NXImage* d, NXImage* i, NXImage*) { nx_image_upsample(d, i); });
                break;
        }
        default: {
                bool xd = choose(2);
                Pic b(xd ? a.w / 2 : a.w, xd ? a.h : a.h / 2, 1, f);
                static const double k[5] = {1, 6, 11, 6, 1};
                for (int y = 0; y < b.h; ++y) for (int x = 0; x < b.w; ++x) {
                        double s = 0;
                        for (int i = -2; i <= 2; ++i) s += k[i + 2] * (xd ? a.at(mirror(2 * x + i, a.w), y) : a.at(x, mirror(2 * y + i, a.h)));
                        b.at(x, y) = s / 25;
                }
                run_layouts(xd ? "downsample_aa_x" : "downsample_aa_y", a, nullptr, b, f ? ft : 1.01, f ? ft : .02, false, r, [&](NXImage* d, NXImage* i, NXImage*) { if (xd) nx_image_downsample_aa_x(d, i); else nx_image_downsample_aa_y(d, i); });
        }
        }
}
// ---------------------------------------------------------------- filters
std::vector<double> gauss(double sigma, int half) {
        std::vector<double> k(half + 1);
        double s = 0;
        for (int i = 0; i <= half; ++i) { k[i] = std::exp(-.5 * i * i / (sigma * sigma)); s += i ? 2 * k[i] : k[i]; }
        for (double& v : k) v /= s;
        return k;
}
int gauss_half(float sigma, float trunc) {
        int n = (int)(2.0 * trunc * sigma + 1.0f);
        if (n % 2 == 0) n++;
        return std::max(n, 3) / 2;
}
void t_filter(Rng& r) {
        bool f = choose(2);
        Pic a = draw_pic(28, 1, f, r);
        double m = std::max(1e-3, a.maxabs());
        switch (choose(4)) {
        case 0: {
                float sx = (float)(.05 + 4 * r.unit() * r.unit()), sy = choose(2) ? sx : (float)(.05 + 4 * r.unit() * r.unit()), tf = (float)(1 + 3 * r.unit());
                int hx = gauss_half(sx, tf), hy = gauss_half(sy, tf);
                std::vector<double> kx = gauss(sx, hx), ky = gauss(sy, hy);
                Pic t = a, b = a;
                for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) { double s = kx[0] * a.at(x, y); for (int i = 1; i <= hx; ++i) s += kx[i] * (a.rep(x - i, y) + a.rep(x + i, y)); t.at(x, y) = s; }
                for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) { double s = ky[0] * t.at(x, y); for (int i = 1; i <= hy; ++i) s += ky[i] * (t.rep(x, y - i) + t.rep(x, y + i)); b.at(x, y) = s; }
                run_clean("kernel_size", [&] {
                        int nx, ny;
                        float* buf = nx_image_filter_buffer_alloc(a.w, a.h, sx, sy, tf, &nx, &ny);
                        for (int q = 0; q < 2; ++q) { int n = q ? ny : nx; double w = 2.0 * tf * (q ? sy : sx); if (n % 2 == 0 || n < 3 || n < w || n > std::max(3.0, w + 3)) V("value@kernel_size", "%d taps for sigma %g and factor %g", n, q ? sy : sx, tf); }
                        junk(buf, (std::max(a.w, a.h) + 2 * (std::max(nx, ny) / 2)) * sizeof(float), r);
                        nx_free(buf);
                });
                run_layouts("smooth", a, nullptr, b, f ? 2e-5 * m : 2.01, f ? 2e-5 * m : .02, true, r, [&](NXImage* d, NXImage* s, NXImage*) {
                        if (choose(3) == 2) {
                                int nx, ny;
                                float* buf = nx_image_filter_buffer_alloc(a.w, a.h, sx, sy, tf, &nx, &ny);
                                junk(buf, (std::max(a.w, a.h) + 2 * (std::max(nx, ny) / 2)) * sizeof(float), r);
                                nx_image_smooth(d, s, sx, sy, tf, buf);
                                nx_free(buf);
                        } else if (cxx()) { VGImage v(d, false), w(s, false); v.smooth(w, sx, sy, tf); }
                        else nx_image_smooth(d, s, sx, sy, tf, nullptr);
                });
                break;
        }
        case 1: {
                int mode = choose(3), rx = 1 + small(12), ry = choose(2) ? rx : 1 + (int)small(12);
                Pic t = a, b = a;
                if (mode != 1) for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) { double s = 0; for (int i = -rx; i <= rx; ++i) s += a.rep(x + i, y); t.at(x, y) = s / (2 * rx + 1); }
                b = t;
                if (mode != 0) for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) { double s = 0; for (int i = -ry; i <= ry; ++i) s += t.rep(x, y + i); b.at(x, y) = s / (2 * ry + 1); }
                static const char* const nm[3] = {"filter_box_x", "filter_box_y", "filter_box"};
                double q = mode == 2 ? 2.01 : 1.01, ft = 1e-5 * m * (1 + (a.w + a.h) / 8.0);
                run_layouts(nm[mode], a, nullptr, b, f ? ft : q, f ? ft : .02, true, r, [&](NXImage* d, NXImage* s, NXImage*) {
                        float* buf = nullptr;
                        if (choose(3) == 2) {
                                int n = std::max(a.w, a.h), rr = std::max(rx, ry);
                                buf = nx_filter_buffer_alloc(n, rr);
                                junk(buf, (n + 2 * rr) * sizeof(float), r);
                        } else if (cxx()) {
                                VGImage v(d, false), w(s, false);
                                if (mode == 0) v.filter_box_x(w, rx); else if (mode == 1) v.filter_box_y(w, ry); else v.filter_box(w, rx, ry);
                                return;
                        }
                        if (mode == 0) nx_image_filter_box_x(d, s, rx, buf); else if (mode == 1) nx_image_filter_box_y(d, s, ry, buf); else nx_image_filter_box(d, s, rx, ry, buf);
                        if (buf) nx_free(buf);
                });
                break;
        }
        default: {
                bool xd = choose(2);
                Pic b(a.w, a.h, 1, true);
                double S = f ? 1 : 255;
                for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) {
                        int n = xd ? a.w : a.h, i = xd ? x : y;
                        int i0 = std::max(0, i - 1), i1 = std::min(n - 1, i + 1);
                        double d = xd ? a.at(i1, y) - a.at(i0, y) : a.at(x, i1) - a.at(x, i0);
                        if (i1 - i0 < 2) d *= 2;
                        b.at(x, y) = d / S;
                }
                double tol = 2e-6 * m / S * 2;
                run_layouts(xd ? "deriv_x" : "deriv_y", a, nullptr, b, tol, tol, false, r, [&](NXImage* d, NXImage* s, NXImage*) {
                        if (cxx()) { VGImage v(d, false), w(s, false); if (xd) v.deriv_x_of(w); else v.deriv_y_of(w); }
                        else if (xd) nx_image_deriv_x(d, s); else nx_image_deriv_y(d, s);
                });
        }
        }
}
void t_filter1d(Rng& r) {
        int n = 1 + small(20), nb = small(25), st = 1 + small(6), mode = choose(3);
        bool f = choose(2);
        run_clean("filter-buffer", [&] {
                size_t dn = (size_t)(n - 1) * st + 1;
                uchar* du = (uchar*)nx_xmalloc(dn);
                float* df = (float*)nx_xmalloc(dn * 4);
                for (size_t i = 0; i < dn; ++i) { du[i] = (uchar)r.next(); df[i] = (float)(r.unit() * 10 - 5); }
                float* buf = nx_filter_buffer_alloc(n, nb);
                junk(buf, (n + 2 * nb) * 4, r);
                if (f) { if (st == 1 && choose(2)) nx_filter_copy_to_buffer1(n, buf, df, nb, (enum NXBorderMode)mode); else nx_filter_copy_to_buffer(n, buf, df, st, nb, (enum NXBorderMode)mode); }
                else { if (st == 1 && choose(2)) nx_filter_copy_to_buffer1_uc(n, buf, du, nb, (enum NXBorderMode)mode); else nx_filter_copy_to_buffer_uc(n, buf, du, st, nb, (enum NXBorderMode)mode); }
                std::vector<double> ref(n + 2 * nb);
                for (int i = -nb; i < n + nb; ++i) {
                        int k = mode == 2 ? mirror(i, n) : std::min(n - 1, std::max(0, i));
                        double e = (mode == 0 && k != i) ? 0 : f ? (double)df[(size_t)k * st] : (double)du[(size_t)k * st];
                        ref[i + nb] = e;
                        if (buf[i + nb] != (float)e) V("value@filter-border", "element %d of %d (border %d, mode %d) is %g instead of %g", i, n, nb, mode, buf[i + nb], e);
                }
                if (nb >= 1) {
                        if (choose(2)) {
                                float sg = (float)(.2 + 3 * r.unit());
                                float* k = (float*)nx_xmalloc((nb + 1) * 4);
                                nx_kernel_sym_gaussian(nb + 1, k, sg);
                                std::vector<double> kr = gauss(sg, nb);
                                for (int i = 0; i <= nb; ++i) if (fabs(k[i] - kr[i]) > 1e-5) V("value@kernel_sym_gaussian", "tap %d is %g instead of %g", i, k[i], kr[i]);
                                nx_convolve_sym(n, buf, nb + 1, k);
                                for (int i = 0; i < n; ++i) {
                                        double s = kr[0] * ref[i + nb];
                                        for (int j = 1; j <= nb; ++j) s += kr[j] * (ref[i + nb - j] + ref[i + nb + j]);
                                        if (fabs(buf[i] - s) > 1e-5 * 300) V("value@convolve_sym", "element %d is %g instead of %g", i, buf[i], s);
                                }
                                nx_free(k);
                        } else {
                                nx_convolve_box(n, buf, nb);
                                for (int i = 0; i < n; ++i) {
                                        double s = 0;
                                        for (int j = -nb; j <= nb; ++j) s += ref[i + nb + j];
                                        s /= 2 * nb + 1;
                                        if (fabs(buf[i] - s) > 1e-5 * 300) V("value@convolve_box", "element %d is %g instead of %g", i, buf[i], s);
                                }
                        }
                }
                nx_free(buf);
                nx_free(du);
                nx_free(df);
        });
        hash_mix(n * 31 + nb);
}
// ---------------------------------------------------------------- warps
void t_warp(Rng& r) {
        bool f = false;
        Pic a = draw_pic(24, 1, f, r);
        int dw = 1 + small(30), dh = 1 + small(30), mode = choose(5);
        float t[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1};
        switch (choose(4)) {
        case 0: break;
        case 1: t[6] = (float)(r.unit() * 20 - 10); t[7] = (float)(r.unit() * 20 - 10); break;
        case 2: { double s = .3 + 2 * r.unit(), an = r.unit() * 7; t[0] = (float)(s * cos(an)); t[1] = (float)(s * sin(an)); t[3] = -t[1]; t[4] = t[0]; t[6] = (float)(r.unit() * 30); t[7] = (float)(r.unit() * 30 - 10); break; }
        default: for (int i : {0, 1, 3, 4}) t[i] = (float)(r.unit() * 4 - 2); t[6] = (float)(r.unit() * 80 - 40); t[7] = (float)(r.unit() * 80 - 40);
        }
        double mx = 0;
        for (int q = 0; q < 4; ++q) { double x = (q & 1) * dw, y = (q >> 1) * dh; mx = std::max({mx, fabs(x * t[0] + y * t[3] + t[6]), fabs(x * t[1] + y * t[4] + t[7])}); }
        double e = 3e-7 * (dw + 4) * (mx + 1);
        std::vector<uint8_t> first;
        for (int k = 0; k < 2; ++k) {
                knobs().junk_seed = r.next();
                std::vector<uint8_t> out;
                int ls = k ? (int)choose(4) : 0;
                op("  warp %dx%d -> %dx%d mode %d layout %d", a.w, a.h, dw, dh, mode, ls);
                run_clean("warp_affine", [&] {
                        Im s = make_im(a, ls, r);
                        int st = dw + (k ? r.below(6) : 0);
                        uchar* d = (uchar*)nx_xmalloc((size_t)st * dh);
                        junk(d, (size_t)st * dh, r);
                        std::vector<uint8_t> before(d, d + (size_t)st * dh);
                        nx_image_warp_affine_bilinear(dw, dh, d, st, a.w, a.h, s.p->data.uc, s.p->row_stride, t, (enum NXImageWarpBackgroundMode)mode);
                        for (int y = 0; y < dh; ++y) for (int x = dw; x < st; ++x) if (d[(size_t)y * st + x] != before[(size_t)y * st + x]) V("padding@warp", "row padding %d,%d was written", x, y);
                        for (int y = 0; y < dh; ++y) for (int x = 0; x < dw; ++x) {
                                double xp = (double)x * t[0] + (double)y * t[3] + t[6], yp = (double)x * t[1] + (double)y * t[4] + t[7];
                                int g = d[(size_t)y * st + x];
                                auto near = [&](double p, double q) { return fabs(p - q) <= e; };
                                if (mode <= 2) {
                                        // inside/outside is undecided within rounding of the borders (and between the last two samples' borders)
                                        if (near(xp, 0) || near(yp, 0) || near(xp, a.w - 1) || near(yp, a.h - 1)) continue;
                                        if (xp < 0 || yp < 0 || xp > a.w - 1 || yp > a.h - 1) {
                                                if (mode < 2 && g != (mode ? 255 : 0)) V("value@warp", "outside pixel (%d,%d) from (%g,%g) of %dx%d is %d", x, y, xp, yp, a.w, a.h, g);
                                                continue;
                                        }
                                }
                                int xi = (int)floor(xp), yi = (int)floor(yp);
                                double u = xp - xi, v = yp - yi, R = 0;
                                for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) {
                                        int xx = mode == 4 ? mirror(xi + i, a.w) : std::min(a.w - 1, std::max(0, xi + i)), yy = mode == 4 ? mirror(yi + j, a.h) : std::min(a.h - 1, std::max(0, yi + j));
                                        R += (i ? u : 1 - u) * (j ? v : 1 - v) * a.at(xx, yy);
                                }
                                double tol = 255 * 4 * e;
                                if (g < R - 1.02 - tol || g > R + .02 + tol) V("value@warp", "pixel (%d,%d) from (%g,%g) of %dx%d mode %d is %d instead of %g", x, y, xp, yp, a.w, a.h, mode, g, R);
                        }
                        if (mode != 2) for (int y = 0; y < dh; ++y) out.insert(out.end(), d + (size_t)y * st, d + (size_t)y * st + dw);
                        same_source("warp", s, a);
                        nx_free(d);
                        free_im(s);
                });
                if (k == 0) first = out;
                else if (first != out) V("layout-dependent@warp", "the warp of a %dx%d image depends on the memory layout", a.w, a.h);
        }
        hash_bytes(first.data(), first.size());
}
void t_rotate45(Rng& r) {
        bool f = choose(2), cw = choose(2);
        Pic a = draw_pic(24, 1, f, r);
        int dw = choose(3) == 0 ? a.w : 1 + (int)small(36), dh = choose(3) == 0 ? a.h : 1 + (int)small(36);
        double m = std::max(1e-3, a.maxabs()), s = std::sqrt(.5), C = cw ? 1 : -1;
        double TX = (a.w - s * (dw + C * dh)) * .5, TY = (a.h + s * (C * dw - dh)) * .5;
        std::vector<float> first;
        for (int k = 0; k < 2; ++k) {
                knobs().junk_seed = r.next();
                int ls = k ? (int)choose(4) : 0, ld = k ? (int)choose(4) : 0;
                op("  rotate45 %dx%d -> %dx%d %s %s layouts %d %d", a.w, a.h, dw, dh, cw ? "cw" : "ccw", f ? "float" : "8-bit", ls, ld);
                std::vector<float> px;
                run_clean("rotate45", [&] {
                        Im i = make_im(a, ls, r), d = shape_im(dw, dh, 1, f, ld, r);
                        nx_image_rotate45(d.p, i.p, cw);
                        same_shape("rotate45", d.p, Pic(dw, dh, 1, f));
                        for (int y = 0; y < dh; ++y) for (int x = 0; x < dw; ++x) {
                                double xp = C * y * s + TX + x * s, yp = y * s + TY - C * x * s, g = get_px(d.p, x, y), e = 3e-4;
                                if (fabs(xp) < e || fabs(yp) < e || fabs(xp - (a.w - 1)) < e || fabs(yp - (a.h - 1)) < e) continue;
                                if (xp < 0 || yp < 0 || xp > a.w - 1 || yp > a.h - 1) { if (g != 0) V("value@rotate45", "outside pixel (%d,%d) is %g", x, y, g); continue; }
                                int xi = (int)floor(xp), yi = (int)floor(yp);
                                double u = xp - xi, v = yp - yi;
                                double R = (1 - v) * ((1 - u) * a.rep(xi, yi) + u * a.rep(xi + 1, yi)) + v * ((1 - u) * a.rep(xi, yi + 1) + u * a.rep(xi + 1, yi + 1));
                                double lo = f ? 1e-3 * m : 1.25, hi = f ? 1e-3 * m : .25;
                                if (g < R - lo || g > R + hi) V("value@rotate45", "pixel (%d,%d) from (%g,%g) is %g instead of %g", x, y, xp, yp, g, R);
                        }
                        same_source("rotate45", i, a);
                        px = pixels_of(d.p);
                        free_im(i);
                        free_im(d);
                });
                if (k == 0) first = px; else same_pixels("rotate45", first, px, "rotation");
        }
        for (float v : first) { uint32_t u; memcpy(&u, &v, 4); hash_mix(u); }
}
void run() {
        draw_knobs();
        Rng r(bits64());
        int n = 1 + choose(3);
        for (int i = 0; i < n; ++i) {
                switch (choose(9)) {
                case 0: t_structure(r); probe("structure"); break;
                case 1: t_convert(r); probe("conversion"); break;
                case 2: t_colormap(r); probe("color map"); break;
                case 3: t_arith(r); probe("arithmetic"); break;
                case 4: t_resample(r); probe("resampling"); break;
                case 5: t_filter(r); probe("filters"); break;
                case 6: t_filter1d(r); probe("1d filters"); break;
                case 7: t_warp(r); probe("affine warp"); break;
                default: t_rotate45(r); probe("rotation"); break;
                }
        }
}
Reg reg({"C19", run,
         "every image operation run in 2-3 memory layouts (tight, padded, wrapped, resized, in place; junk in padding, destinations, buffers and fresh memory) gives bit-identical pixels that match a naive "
         "double-precision reference, leaves its source untouched and stays inside its images", 60000, 400000});
}  // namespace
