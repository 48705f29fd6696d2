#ifndef SIM_PIC_H
#define SIM_PIC_H
// Reference pictures and image objects in every memory layout the API allows.
#include "util.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_mem_block.h"

struct Pic {
        int w = 0, h = 0, ch = 1;
        bool f = false;
        std::vector<double> v;
        Pic() {}
        Pic(int w_, int h_, int ch_, bool f_) : w(w_), h(h_), ch(ch_), f(f_), v((size_t)w_ * h_ * ch_, 0.0) {}
        double& at(int x, int y, int c = 0) { return v[((size_t)y * w + x) * ch + c]; }
        double at(int x, int y, int c = 0) const { return v[((size_t)y * w + x) * ch + c]; }
        double rep(int x, int y) const { return at(std::min(std::max(x, 0), w - 1), std::min(std::max(y, 0), h - 1)); }
        double maxabs() const { double m = 0; for (double a : v) m = std::max(m, std::fabs(a)); return m; }
};
static inline int mirror(int i, int n) {
        if (n == 1) return 0;
        while (i < 0 || i >= n) { if (i < 0) i = -i; if (i >= n) i = 2 * (n - 1) - i; }
        return i;
}
// content flavours: 0 constant, 1 noise, 2 ramp, 3 edges/corners, 4 extremes, 5 soft blobs
static inline void fill_pic(Pic& p, int flavour, Rng& r) {
        double lo = 0, hi = 255;
        if (p.f) switch (r.below(4)) { case 0: lo = 0; hi = 1; break; case 1: lo = -1; hi = 1; break; case 2: lo = -37.5; hi = 112.25; break; default: lo = 0.001; hi = 0.0013; }
        double base = r.unit(), sx = (r.unit() - .5) * 2, sy = (r.unit() - .5) * 2;
        int bs = 2 + r.below(6), ox = r.below(8), oy = r.below(8);
        double c0 = r.unit(), c1 = r.unit();
        for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) for (int c = 0; c < p.ch; ++c) {
                double t;
                switch (flavour) {
                case 0: t = base; break;
                case 1: t = r.unit(); break;
                case 2: t = .5 + .5 * (sx * x / std::max(1, p.w) + sy * y / std::max(1, p.h)); break;
                case 3: t = (((x + ox) / bs + (y + oy) / bs + c) & 1) ? c0 : c1; if (r.below(40) == 0) t = r.unit(); break;
                case 4: t = r.below(2); break;
                default: t = .5 + .25 * std::sin(x * .4 * (1 + base) + c) + .25 * std::cos(y * .3 * (1 + c0)); break;
                }
                double a = lo + (hi - lo) * t;
                p.at(x, y, c) = p.f ? (double)(float)a : (double)(int)std::min(255.0, std::max(0.0, a));
        }
}
static inline Pic draw_pic(int maxdim, int ch, bool f, Rng& r) {
        int w = 1 + small(maxdim - 1), h = 1 + small(maxdim - 1);
        switch (choose(40)) { case 39: w = 1 + small(600); break; case 38: h = 1 + small(600); break; default: break; }
        Pic p(w, h, ch, f);
        fill_pic(p, choose(6), r);
        return p;
}
static inline void junk(void* p, size_t n, Rng& r) { for (size_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = (uint8_t)r.next(); }

struct Im {
        struct NXImage* p = nullptr;
        void* ext = nullptr;
        std::vector<uint8_t> snap;
        int layout = 0;
};
static inline enum NXImageType nxt(int ch) { return ch == 4 ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE; }
static inline enum NXImageDataType nxd(bool f) { return f ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR; }
static inline void put_px(struct NXImage* im, int x, int y, int c, double v) {
        size_t o = (size_t)y * im->row_stride + (size_t)x * im->n_channels + c;
        if (im->dtype == NX_IMAGE_FLOAT32) im->data.f32[o] = (float)v; else im->data.uc[o] = (uchar)v;
}
static inline double get_px(const struct NXImage* im, int x, int y, int c = 0) {
        size_t o = (size_t)y * im->row_stride + (size_t)x * im->n_channels + c;
        return im->dtype == NX_IMAGE_FLOAT32 ? (double)im->data.f32[o] : (double)im->data.uc[o];
}
// An image of the given shape whose memory holds junk: 0 tight, 1 padded rows,
// 2 wrapped caller memory with padded rows, 3 resized from another shape, 4 nothing allocated yet
static inline Im shape_im(int w, int h, int ch, bool f, int layout, Rng& r) {
        Im m;
        m.layout = layout;
        m.p = nx_image_alloc();
        int pad = 1 + r.below(9);
        switch (layout) {
        case 4: return m;
        case 0: nx_image_resize(m.p, w, h, NX_IMAGE_STRIDE_DEFAULT, nxt(ch), nxd(f)); break;
        case 1: nx_image_resize(m.p, w, h, w * ch + pad, nxt(ch), nxd(f)); break;
        case 2: {
                size_t st = (size_t)w * ch + pad, n = st * h * (f ? 4 : 1);
                m.ext = nx_xmalloc(n);
                nx_image_wrap(m.p, m.ext, w, h, (int)st, nxt(ch), nxd(f), NX_FALSE);
                break;
        }
        default:
                nx_image_resize(m.p, 1 + r.below(40), 1 + r.below(40), NX_IMAGE_STRIDE_DEFAULT, nxt(r.below(2) ? 1 : 4), nxd(r.below(2)));
                nx_image_resize(m.p, w, h, r.below(2) ? w * ch + pad : NX_IMAGE_STRIDE_DEFAULT, nxt(ch), nxd(f));
        }
        junk(m.p->mem->ptr, m.p->mem->size, r);
        return m;
}
static inline Im make_im(const Pic& p, int layout, Rng& r) {
        Im m = shape_im(p.w, p.h, p.ch, p.f, layout, r);
        for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) for (int c = 0; c < p.ch; ++c) put_px(m.p, x, y, c, p.at(x, y, c));
        m.snap.assign((uint8_t*)m.p->mem->ptr, (uint8_t*)m.p->mem->ptr + m.p->mem->size);
        return m;
}
static inline void free_im(Im& m) { nx_image_free(m.p); if (m.ext) nx_free(m.ext); m = Im(); }
static inline void same_source(const char* what, const Im& m, const Pic& p) {
        if (m.p->width != p.w || m.p->height != p.h || m.p->n_channels != p.ch || (m.p->dtype == NX_IMAGE_FLOAT32) != p.f || m.p->mem->size != m.snap.size() || m.p->data.v != m.p->mem->ptr)
                V((std::string("source-changed@") + what).c_str(), "%s changed the shape of its source image", what);
        if (memcmp(m.p->mem->ptr, m.snap.data(), m.snap.size()))
                V((std::string("source-changed@") + what).c_str(), "%s modified its %dx%d source image", what, p.w, p.h);
}
static inline void well_formed(const char* what, const struct NXImage* im) {
        size_t need = im->height > 0 ? ((size_t)(im->height - 1) * im->row_stride + (size_t)im->width * im->n_channels) * (im->dtype == NX_IMAGE_FLOAT32 ? 4 : 1) : 0;
        if (im->n_channels != (im->type == NX_IMAGE_RGBA ? 4 : 1) || im->row_stride < im->width * im->n_channels || im->mem->size < need || (need && im->data.v != im->mem->ptr))
                V((std::string("malformed@") + what).c_str(), "%s: %dx%dx%d stride %d in %zu bytes", what, im->width, im->height, im->n_channels, im->row_stride, im->mem->size);
}
static inline void same_shape(const char* what, const struct NXImage* im, const Pic& p) {
        well_formed(what, im);
        if (im->width != p.w || im->height != p.h || im->n_channels != p.ch || (im->dtype == NX_IMAGE_FLOAT32) != p.f)
                V((std::string("shape@") + what).c_str(), "%s gave a %dx%d %d-channel %s image instead of %dx%d %d-channel %s", what, im->width, im->height, im->n_channels,
                  im->dtype == NX_IMAGE_FLOAT32 ? "float" : "8-bit", p.w, p.h, p.ch, p.f ? "float" : "8-bit");
}
static inline std::vector<float> pixels_of(const struct NXImage* im) {
        std::vector<float> o;
        o.reserve((size_t)im->width * im->height * im->n_channels);
        for (int y = 0; y < im->height; ++y) for (int x = 0; x < im->width; ++x) for (int c = 0; c < im->n_channels; ++c) o.push_back((float)get_px(im, x, y, c));
        return o;
}
// got must lie in [ref-lo, ref+hi]; ref is clamped to [0,255] for 8-bit images
static inline void match(const char* what, const struct NXImage* im, const Pic& p, double lo, double hi) {
        same_shape(what, im, p);
        for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) for (int c = 0; c < p.ch; ++c) {
                double g = get_px(im, x, y, c), e = p.at(x, y, c);
                if (!p.f) e = std::min(255.0, std::max(0.0, e));
                if (!(g >= e - lo && g <= e + hi))
                        V((std::string("value@") + what).c_str(), "%s: pixel (%d,%d,%d) of %dx%d is %.9g instead of %.9g (allowed -%.3g/+%.3g)", what, x, y, c, p.w, p.h, g, e, lo, hi);
        }
}
static inline void same_pixels(const char* what, const std::vector<float>& a, const std::vector<float>& b, const char* how) {
        if (a.size() != b.size()) V((std::string("layout-dependent@") + what).c_str(), "%s: %zu values, %zu in another memory layout (%s)", what, a.size(), b.size(), how);
        for (size_t i = 0; i < a.size(); ++i) if (memcmp(&a[i], &b[i], 4) && a[i] != b[i])
                V((std::string("layout-dependent@") + what).c_str(), "%s: value %zu is %.9g in one memory layout and %.9g in another (%s)", what, i, a[i], b[i], how);
}
#endif
