// C20: pyramids, warp processors and corner detectors depend on the image and
// the parameters only - not on what the reused objects processed before, the
// memory layout or the heap - and match their definitions.
#include "pic.h"
#include <array>
#include <functional>
#include <map>
#include "virg/nexus/nx_affine_warp_processor.h"
#include "virg/nexus/nx_checkerboard_detector.h"
#include "virg/nexus/nx_fast_detector.h"
#include "virg/nexus/nx_filter.h"
#include "virg/nexus/nx_uniform_sampler.h"
#include <set>
#include "virg/nexus/nx_harris_detector.h"
#include "virg/nexus/nx_image_pyr.h"
#include "virg/nexus/nx_image_pyr_builder.h"
#include "virg/nexus/vg_harris_detector.hpp"
#include "virg/nexus/vg_image_pyr.hpp"

using virg::nexus::VGImage;
using virg::nexus::VGImagePyr;
using virg::nexus::VGHarrisDetector;
namespace {
Pic corner_pic(int lo, int hi, Rng& r) {
        int w = lo + (int)choose(hi - lo + 1), h = lo + (int)choose(hi - lo + 1);
        switch (choose(24)) { case 23: w += range(30, 260); break; case 22: h += range(30, 260); break; default: break; }
        Pic p(w, h, 1, false);
        static const int fl[6] = {3, 1, 4, 5, 2, 0};
        fill_pic(p, fl[choose(6)], r);
        return p;
}
// ------------------------------------------------------------------ pyramids
Pic blur(const Pic& a, double sg, double tf) {
        if (!(sg > 0)) return a;
        int n = (int)(2.0 * tf * sg + 1.0);
        if (n % 2 == 0) n++;
        int hf = std::max(n, 3) / 2;
        std::vector<double> k(hf + 1);
        double s = 0;
        for (int i = 0; i <= hf; ++i) { k[i] = std::exp(-.5 * i * i / (sg * sg)); s += i ? 2 * k[i] : k[i]; }
        for (double& v : k) v /= s;
        Pic t = a, b = a;
        for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) { double q = k[0] * a.at(x, y); for (int i = 1; i <= hf; ++i) q += k[i] * (a.rep(x - i, y) + a.rep(x + i, y)); t.at(x, y) = q; }
        for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) { double q = k[0] * t.at(x, y); for (int i = 1; i <= hf; ++i) q += k[i] * (t.rep(x, y - i) + t.rep(x, y + i)); b.at(x, y) = q; }
        return b;
}
struct PyrCfg { int type = 0, n = 1, steps = 1; float sf = 2, s0 = 1; };
PyrCfg draw_cfg(Rng& r) {
        PyrCfg c;
        c.type = choose(3);
        c.n = 1 + choose(4);
        c.steps = c.type == 1 ? 1 + (int)choose(3) : 1;
        c.s0 = choose(4) == 0 ? .5f : (float)(.3 + 1.5 * r.unit());
        c.sf = choose(3) == 0 ? 2.0f : (float)(1.1 + 1.2 * r.unit());
        return c;
}
void set_cfg(struct NXImagePyrBuilder* b, const PyrCfg& c) {
        if (c.type == 0) nx_image_pyr_builder_set_fast(b, c.n, c.s0);
        else if (c.type == 1) nx_image_pyr_builder_set_fine(b, c.n, c.steps, c.s0);
        else nx_image_pyr_builder_set_scaled(b, c.n, c.sf, c.s0);
}
struct NXImagePyrBuilder* new_cfg(const PyrCfg& c) {
        if (choose(2)) { struct NXImagePyrBuilder* b = nx_image_pyr_builder_alloc(); set_cfg(b, c); return b; }
        return c.type == 0 ? nx_image_pyr_builder_new_fast(c.n, c.s0) : c.type == 1 ? nx_image_pyr_builder_new_fine(c.n, c.steps, c.s0) : nx_image_pyr_builder_new_scaled(c.n, c.sf, c.s0);
}
VGImagePyr vg_pyr(const VGImage& i, const PyrCfg& c) {
        return c.type == 0 ? VGImagePyr::build_fast_from(i, c.n, c.s0) : c.type == 1 ? VGImagePyr::build_fine_from(i, c.n, c.steps, c.s0) : VGImagePyr::build_scaled_from(i, c.n, c.sf, c.s0);
}
void check_pyr(const struct NXImagePyr* p, const Pic& a, const PyrCfg& c) {
        int nl = c.n * c.steps;
        if (p->n_levels != nl) V("pyramid-levels", "%d levels instead of %d", p->n_levels, nl);
        double s0 = std::max(.5, (double)c.s0);
        Pic cur = blur(a, std::sqrt(std::max(0.0, s0 * s0 - .25)), 4), full = cur;
        double sig = s0;                // blur of `cur` in its own pixels
        for (int i = 0; i < nl; ++i) {
                int oct = i / c.steps;
                double si = std::pow((double)(c.type == 2 ? c.sf : 2.0f), oct), want = s0 * std::pow(2.0, (double)i / c.steps);
                const struct NXImagePyrLevel* l = p->levels + i;
                if (fabs(l->scale - si) > 1e-4 * si) V("pyramid-scale", "level %d has scale %g instead of %g", i, l->scale, si);
                if (fabs(l->sigma - want) > 1e-4 * want) V("pyramid-sigma", "level %d has sigma %g instead of %g", i, l->sigma, want);
                well_formed("pyramid", l->img);
                if (l->img->type != NX_IMAGE_GRAYSCALE || l->img->dtype != NX_IMAGE_UCHAR) V("pyramid-type", "level %d is not an 8-bit gray image", i);
                double ew = a.w / si, eh = a.h / si;
                if (l->img->width < (int)(ew - 1e-3) || l->img->width > (int)(ew + 1e-3) || l->img->height < (int)(eh - 1e-3) || l->img->height > (int)(eh + 1e-3))
                        V("pyramid-size", "level %d is %dx%d instead of %gx%g", i, l->img->width, l->img->height, ew, eh);
                double lo = 2.05;
                if (i > 0) {
                        if (c.type == 0) {
                                Pic q(cur.w / 2, cur.h, 1, false), t(cur.w / 2, cur.h / 2, 1, false);
                                static const double k[5] = {1, 6, 11, 6, 1};
                                for (int y = 0; y < q.h; ++y) for (int x = 0; x < q.w; ++x) { double s = 0; for (int j = -2; j <= 2; ++j) s += k[j + 2] * cur.at(mirror(2 * x + j, cur.w), y); q.at(x, y) = s / 25; }
                                for (int y = 0; y < t.h; ++y) for (int x = 0; x < t.w; ++x) { double s = 0; for (int j = -2; j <= 2; ++j) s += k[j + 2] * q.at(x, mirror(2 * y + j, q.h)); t.at(x, y) = s / 25; }
                                cur = t;
                                lo = 2.05 + 2.05 * i;
                        } else if (c.type == 1) {
                                double d = want / std::pow(2.0, oct);           // wanted blur in pixels of this octave
                                if (i % c.steps == 0) {
                                        double dd = d * 2;
                                        Pic t = blur(cur, std::sqrt(dd * dd - sig * sig), 4);
                                        Pic q(t.w / 2, t.h / 2, 1, false);
                                        for (int y = 0; y < q.h; ++y) for (int x = 0; x < q.w; ++x) q.at(x, y) = t.at(2 * x, 2 * y);
                                        cur = q;
                                } else cur = blur(cur, std::sqrt(d * d - sig * sig), 4);
                                sig = d;
                                lo = 2.05 + 2.05 * i;
                        } else {
                                full = blur(full, std::sqrt(want * want - sig * sig), 4);
                                sig = want;
                                Pic q(l->img->width, l->img->height, 1, false);
                                for (int y = 0; y < q.h; ++y) for (int x = 0; x < q.w; ++x) {
                                        double xp = x * si, yp = y * si;
                                        int xi = (int)floor(xp), yi = (int)floor(yp);
                                        double u = xp - xi, v = yp - yi;
                                        q.at(x, y) = (1 - v) * ((1 - u) * full.rep(xi, yi) + u * full.rep(xi + 1, yi)) + v * ((1 - u) * full.rep(xi, yi + 1) + u * full.rep(xi + 1, yi + 1));
                                }
                                cur = q;
                                lo = 2.05 + 2.05 * i + 1.05;
                        }
                }
                if (cur.w < 1 || cur.h < 1) break;
                match("pyramid", l->img, cur, lo, .1 + .05 * i);
        }
}
void same_pyr(const char* how, const struct NXImagePyr* a, const std::vector<std::vector<float>>& ref) {
        if ((size_t)a->n_levels != ref.size()) V("history-dependent@pyramid", "%s: %d levels instead of %zu", how, a->n_levels, ref.size());
        for (int i = 0; i < a->n_levels; ++i) {
                std::vector<float> p = pixels_of(a->levels[i].img);
                if (p != ref[i]) V("history-dependent@pyramid", "level %d of %d differs (%s)", i, a->n_levels, how);
        }
}
void t_pyramid(Rng& r) {
        Pic a = choose(3) ? corner_pic(8, 50, r) : draw_pic(24, 1, false, r);
        PyrCfg c = draw_cfg(r);
        op("  pyramid type %d levels %d steps %d sf %g s0 %g of %dx%d", c.type, c.n, c.steps, c.sf, c.s0, a.w, a.h);
        std::vector<std::vector<float>> ref;
        run_clean("pyramid", [&] {
                Im s = make_im(a, 0, r);
                struct NXImagePyrBuilder* b = new_cfg(c);
                struct NXImagePyr* p = nx_image_pyr_builder_build0(b, s.p);
                check_pyr(p, a, c);
                for (int i = 0; i < p->n_levels; ++i) ref.push_back(pixels_of(p->levels[i].img));
                same_source("pyramid", s, a);
                nx_image_pyr_free(p);
                nx_image_pyr_builder_free(b);
                free_im(s);
        });
        knobs().junk_seed = r.next();
        run_clean("pyramid-reuse", [&] {
                if (choose(3) == 2) {
                        VGImagePyr p;
                        { Im s0 = make_im(a, choose(4), r); VGImage v(s0.p, false); p = vg_pyr(v, c); same_pyr("VGImagePyr", p.nx_pyr(), ref); same_source("VGImagePyr", s0, a); free_im(s0); }
                        int n = choose(3);
                        for (int i = 0; i < n; ++i) { Pic o = corner_pic(8, 40, r); Im s = make_im(o, choose(4), r); p.rebuild_from(VGImage(s.p, false)); free_im(s); }
                        Im s = make_im(a, choose(4), r);
                        p.rebuild_from(VGImage(s.p, false));
                        same_pyr("VGImagePyr rebuilt", p.nx_pyr(), ref);
                        if (p.n_levels() != c.n * c.steps || (int)p.type() != c.type || p.n_octave_steps() != c.steps) V("pyramid-info", "%d levels type %d", p.n_levels(), (int)p.type());
                        for (int i = 0; i < p.n_levels(); ++i) if (p[i].nx_img() != p.nx_pyr()->levels[i].img || p.level_scale(i) != p.nx_pyr()->levels[i].scale || p.level_sigma(i) != p.nx_pyr()->levels[i].sigma) V("pyramid-info", "level %d", i);
                        same_source("VGImagePyr", s, a);
                        free_im(s);
                        probe("pyramid wrapper");
                } else {
                        struct NXImagePyrBuilder* b = nx_image_pyr_builder_alloc();
                        struct NXImagePyr* p = nx_image_pyr_alloc();
                        int n = choose(4);
                        for (int i = 0; i < n; ++i) {           // a history of other images and settings
                                Pic o = choose(2) ? corner_pic(8, 40, r) : draw_pic(20, 1, false, r);
                                PyrCfg oc = choose(2) ? c : draw_cfg(r);
                                set_cfg(b, oc);
                                Im s = make_im(o, choose(4), r);
                                nx_image_pyr_builder_build(b, p, s.p);
                                free_im(s);
                        }
                        set_cfg(b, c);
                        if (choose(2)) {
                                Im s = make_im(a, choose(4), r);
                                nx_image_pyr_builder_build(b, p, s.p);
                                same_source("pyramid", s, a);
                                free_im(s);
                                same_pyr("reused builder and pyramid", p, ref);
                        } else {                                // fill level 0 in place, then update
                                nx_image_pyr_builder_init_levels(b, p, a.w, a.h);
                                for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) put_px(p->levels[0].img, x, y, 0, a.at(x, y));
                                nx_image_pyr_builder_update(b, p);
                                same_pyr("updated in place", p, ref);
                                probe("pyramid update");
                        }
                        check_pyr(p, a, c);
                        nx_image_pyr_free(p);
                        nx_image_pyr_builder_free(b);
                }
        });
        for (auto& l : ref) for (float v : l) hash_mix((uint64_t)v);
}
// ------------------------------------------------------------------ FAST
const int CX[16] = {0, 1, 2, 3, 3, 3, 2, 1, 0, -1, -2, -3, -3, -3, -2, -1}, CY[16] = {3, 3, 2, 1, 0, -1, -2, -3, -3, -3, -2, -1, 0, 1, 2, 3};
bool fast_corner(const Pic& a, int x, int y, int b) {
        int p = (int)a.at(x, y), q[16];
        for (int i = 0; i < 16; ++i) q[i] = (int)a.at(x + CX[i], y + CY[i]);
        for (int sgn = 0; sgn < 2; ++sgn) {
                int run = 0;
                for (int i = 0; i < 25; ++i) {
                        bool ok = sgn ? q[i & 15] < p - b : q[i & 15] > p + b;
                        run = ok ? run + 1 : 0;
                        if (run >= 9) return true;
                }
        }
        return false;
}
struct Key { int x, y; int score; double ori; };
std::vector<Key> fast_ref(const Pic& a, int thr, size_t cap) {
        std::vector<Key> k;
        for (int y = 3; y < a.h - 3; ++y) for (int x = 3; x < a.w - 3; ++x) if (fast_corner(a, x, y, thr)) {
                if (k.size() == cap) return k;
                int s = thr;
                while (s < 255 && fast_corner(a, x, y, s + 1)) ++s;
                k.push_back({x, y, s, 0});
        }
        return k;
}
std::vector<Key> suppress_ref(const std::vector<Key>& k, size_t cap) {
        std::map<std::pair<int, int>, int> m;
        for (auto& q : k) m[{q.x, q.y}] = q.score;
        std::vector<Key> o;
        for (auto& q : k) {
                bool keep = true;
                for (int dy = -1; dy <= 1 && keep; ++dy) for (int dx = -1; dx <= 1; ++dx) if (dx || dy) {
                        auto it = m.find({q.x + dx, q.y + dy});
                        if (it != m.end() && it->second >= q.score) { keep = false; break; }
                }
                if (keep) { if (o.size() == cap) break; o.push_back(q); }
        }
        return o;
}
void orient_ref(std::vector<Key>& k, const Pic& a, int rad) {
        for (auto& q : k) {
                q.ori = 0;
                if (q.x < rad || q.y < rad || q.x >= a.w - rad || q.y >= a.h - rad) continue;
                long m01 = 0, m10 = 0;
                for (int y = -rad; y < rad; ++y) for (int x = -rad; x < rad; ++x) if (x * x + y * y < rad * rad) { m10 += x * (long)a.at(q.x + x, q.y + y); m01 += y * (long)a.at(q.x + x, q.y + y); }
                q.ori = std::atan2((double)m01, (double)m10);
        }
}
void check_keys(const char* what, const struct NXKeypoint* k, int n, const std::vector<Key>& ref, bool score, int level, double scale, double sigma, bool check_sigma, uint64_t id0) {
        if ((size_t)n != ref.size()) V((std::string("keys@") + what).c_str(), "%s: %d keypoints instead of %zu", what, n, ref.size());
        for (int i = 0; i < n; ++i) {
                const Key& q = ref[i];
                if (k[i].x != q.x || k[i].y != q.y || k[i].xs != (float)q.x || k[i].ys != (float)q.y)
                        V((std::string("keys@") + what).c_str(), "%s: keypoint %d is at (%d,%d)/(%g,%g) instead of (%d,%d)", what, i, k[i].x, k[i].y, k[i].xs, k[i].ys, q.x, q.y);
                if (score && (int)k[i].score != q.score) V((std::string("score@") + what).c_str(), "%s: keypoint (%d,%d) has score %g instead of %d", what, q.x, q.y, k[i].score, q.score);
                if (fabs(k[i].ori - q.ori) > 1e-4 && fabs(fabs(k[i].ori - q.ori) - 2 * M_PI) > 1e-4) V((std::string("ori@") + what).c_str(), "%s: keypoint (%d,%d) has orientation %g instead of %g", what, q.x, q.y, k[i].ori, q.ori);
                if (k[i].level != level || fabs(k[i].scale - scale) > 1e-5 || k[i].id != id0 + i || (check_sigma && fabs(k[i].sigma - sigma) > 1e-5))
                        V((std::string("fields@") + what).c_str(), "%s: keypoint %d has level %d scale %g sigma %g id %llu (wanted %d %g %g %llu)", what, i, k[i].level, k[i].scale, k[i].sigma, (unsigned long long)k[i].id, level, scale, sigma, (unsigned long long)(id0 + i));
        }
}
struct NXKeypoint* key_buf(int n, Rng& r) {
        struct NXKeypoint* k = (struct NXKeypoint*)nx_xmalloc(sizeof(struct NXKeypoint) * std::max(1, n));
        junk(k, sizeof(struct NXKeypoint) * std::max(1, n), r);
        return k;
}
Pic level_pic(const struct NXImage* i) {
        Pic p(i->width, i->height, 1, false);
        for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) p.at(x, y) = get_px(i, x, y);
        return p;
}
void t_fast(Rng& r) {
        Pic a = choose(4) ? corner_pic(7, 40, r) : draw_pic(12, 1, false, r);
        int thr = choose(3) == 0 ? 15 : 1 + (int)choose(120), cap = choose(3) ? 400 : 1 + (int)choose(20);
        int how = choose(3);
        op("  FAST %dx%d threshold %d cap %d mode %d", a.w, a.h, thr, cap, how);
        run_clean("fast", [&] {
                Im s = make_im(a, choose(4), r);
                if (how == 0) {
                        struct NXKeypoint* k = key_buf(cap, r);
                        int n = nx_fast_detect_keypoints(cap, k, s.p, thr);
                        std::vector<Key> ref = fast_ref(a, thr, cap);
                        check_keys("fast_detect", k, n, ref, false, 0, 1, 0, false, 0);
                        nx_fast_score_keypoints(n, k, s.p, thr);
                        check_keys("fast_score", k, n, ref, true, 0, 1, 0, false, 0);
                        int cap2 = choose(3) ? cap : 1 + (int)choose(6);
                        struct NXKeypoint* k2 = key_buf(cap2, r);
                        int n2 = nx_fast_suppress_keypoints(cap2, k2, n, k);
                        check_keys("fast_suppress", k2, n2, suppress_ref(ref, cap2), true, 0, 1, 0, false, 0);
                        if (n) probe("FAST corners");
                        hash_mix(n * 1000 + n2);
                        nx_free(k);
                        nx_free(k2);
                } else {
                        struct NXFastDetector* d = nx_fast_detector_alloc();
                        int hist = choose(4), rad = 0;
                        for (int i = 0; i <= hist; ++i) {
                                const bool last = i == hist;
                                Pic o = last ? a : corner_pic(7, 30, r);
                                Im t = make_im(o, choose(4), r);
                                d->threshold = last ? thr : 5 + (int)r.below(60);
                                int c = last ? cap : 1 + (int)r.below(50);
                                switch (choose(3)) { case 0: rad = 0; nx_fast_detector_set_ori_param(d, NX_FALSE, 5); break; case 1: rad = 1 + (int)(choose(3) ? choose(8) : choose(18)); nx_fast_detector_set_ori_param(d, NX_TRUE, rad); break; default: break; }
                                struct NXKeypoint* k = key_buf(c, r);
                                if (how == 1) {
                                        int n = nx_fast_detector_detect(d, c, k, t.p);
                                        std::vector<Key> ref = suppress_ref(fast_ref(o, d->threshold, (size_t)c * d->work_multiplier), c);
                                        if (rad) orient_ref(ref, o, rad);
                                        check_keys("fast_detector", k, n, ref, true, 0, 1, 0, false, 0);
                                        hash_mix(n);
                                        if (rad && n) probe("FAST orientations");
                                        // threshold adaptation moves the right way and stays in range
                                        if (r.below(3) == 0) d->threshold = r.below(2) ? 5 + (int)r.below(4) : 250 - (int)r.below(4);
                                        int before = d->threshold, ac = r.below(4) ? c : 1 + (int)r.below(1 << 20), nk = (int)r.below(2 * ac + 2);
                                        if (before >= 5 && before <= 250) {
                                                nx_fast_detector_adapt_threshold(d, nk, ac);
                                                if (d->threshold < 5 || d->threshold > 250) V("fast-adapt", "threshold %d adapted to %d", before, d->threshold);
                                                if (nk >= ac && d->threshold < before) V("fast-adapt", "threshold lowered from %d to %d for %d of %d keys", before, d->threshold, nk, ac);
                                                if (nk >= ac && before < 250 && d->threshold <= before) V("fast-adapt", "threshold stays %d for %d of %d keys", before, nk, ac);
                                                if (nk < .89 * ac - 1 && d->threshold > before) V("fast-adapt", "threshold raised from %d to %d for %d of %d keys", before, d->threshold, nk, ac);
                                                if (nk < ac / 2 && before > 5 && d->threshold >= before) V("fast-adapt", "threshold %d becomes %d for %d of %d keys", before, d->threshold, nk, ac);
                                        }
                                } else {
                                        const int kind = (int)choose(4);
                                        struct NXImagePyrBuilder* b = kind == 0 ? nx_image_pyr_builder_new_scaled(1 + choose(9), 1.05f + .1f * choose(4), .8f) : kind == 1 ? nx_image_pyr_builder_new_fine(1 + choose(2), 1 + choose(4), .8f) : nx_image_pyr_builder_new_fast(1 + choose(3), 1.0f);
                                        struct NXImagePyr* p = nx_image_pyr_builder_build0(b, t.p);
                                        int lv = (int)choose(p->n_levels > 3 ? 11 : 5) - 1, used = lv <= 0 || lv > p->n_levels ? p->n_levels : lv;
                                        bool free_fn = !rad && choose(2);
                                        struct NXKeypoint* w = key_buf(c * 10, r);
                                        int n = free_fn ? nx_fast_detect_keypoints_pyr(c, k, c * 10, w, p, d->threshold, lv) : nx_fast_detector_detect_pyr(d, c, k, p, lv);
                                        nx_free(w);
                                        int at = 0;
                                        for (int l = used - 1; l >= 0 && at < c; --l) {
                                                Pic lp = level_pic(p->levels[l].img);
                                                std::vector<Key> ref;
                                                if (lp.w > 6 && lp.h > 6) ref = suppress_ref(fast_ref(lp, d->threshold, (size_t)c * 10), c - at);
                                                if (rad && !free_fn) orient_ref(ref, lp, rad);
                                                if (at + (int)ref.size() > n) V("keys@fast_pyr", "%d keypoints, at least %zu expected", n, at + ref.size());
                                                check_keys("fast_pyr", k + at, (int)ref.size(), ref, true, l, p->levels[l].scale, p->levels[l].sigma, true, at);
                                                at += (int)ref.size();
                                        }
                                        if (at != n) V("keys@fast_pyr", "%d keypoints instead of %d", n, at);
                                        hash_mix(n);
                                        if (n) probe("FAST pyramid");
                                        nx_image_pyr_free(p);
                                        nx_image_pyr_builder_free(b);
                                }
                                same_source("fast", t, o);
                                nx_free(k);
                                free_im(t);
                        }
                        nx_fast_detector_free(d);
                }
                same_source("fast", s, a);
                free_im(s);
        });
}
// ------------------------------------------------------------------ Harris
std::vector<std::pair<int, int>> maxima(const struct NXImage* s, float thr, std::vector<float>* sc) {
        std::vector<std::pair<int, int>> o;
        for (int y = 2; y < s->height - 2; ++y) for (int x = 2; x < s->width - 2; ++x) {
                float v = s->data.f32[(size_t)y * s->row_stride + x];
                bool ok = v > thr;
                for (int dy = -1; dy <= 1 && ok; ++dy) for (int dx = -1; dx <= 1; ++dx) if ((dx || dy) && !(v > s->data.f32[(size_t)(y + dy) * s->row_stride + x + dx])) { ok = false; break; }
                if (ok) { o.push_back({x, y}); if (sc) sc->push_back(v); }
        }
        return o;
}
void ref_harris(const Pic& a, float sw, float k, Pic* d, Pic& s) {
        for (int q = 0; q < 3; ++q) d[q] = Pic(a.w, a.h, 1, true);
        for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) {
                double gx = a.rep(x + 1, y) - a.rep(x - 1, y), gy = a.rep(x, y + 1) - a.rep(x, y - 1);
                if (x == 0 || x == a.w - 1) gx *= 2;
                if (y == 0 || y == a.h - 1) gy *= 2;
                gx /= 255; gy /= 255;
                d[0].at(x, y) = gx * gx; d[1].at(x, y) = gy * gy; d[2].at(x, y) = gx * gy;
        }
        for (int q = 0; q < 3; ++q) d[q] = blur(d[q], sw, 3);
        s = Pic(a.w, a.h, 1, true);
        for (size_t i = 0; i < s.v.size(); ++i) { double tr = d[0].v[i] + d[1].v[i]; s.v[i] = d[0].v[i] * d[1].v[i] - d[2].v[i] * d[2].v[i] - k * tr * tr; }
}
void t_harris(Rng& r) {
        Pic a = choose(4) ? corner_pic(5, 34, r) : draw_pic(12, 1, false, r);
        if (choose(3)) {
                float sw = choose(4) == 0 ? 0 : (float)(.3 + 2 * r.unit()), k = (float)(.02 + .06 * r.unit());
                op("  Harris %dx%d sigma %g", a.w, a.h, sw);
                std::vector<float> first;
                for (int q = 0; q < 2; ++q) {
                        knobs().junk_seed = r.next();
                        run_clean("harris", [&] {
                                Im s = make_im(a, q ? choose(4) : 0, r);
                                struct NXImage* d[3] = {nullptr, nullptr, nullptr};
                                Im pre[3], sc = shape_im(1 + r.below(9), 1 + r.below(9), 1, r.below(2), q ? choose(5) : 4, r);
                                if (q) for (int i = 0; i < 3; ++i) if (choose(2)) { pre[i] = shape_im(1 + r.below(30), 1 + r.below(30), r.below(2) ? 1 : 4, r.below(2), choose(5), r); d[i] = pre[i].p; }
                                nx_harris_deriv_images(d, s.p, sw);
                                nx_harris_score_image(sc.p, d, k);
                                Pic rd[3], rs;
                                ref_harris(a, sw, k, rd, rs);
                                for (int i = 0; i < 3; ++i) match("harris_deriv", d[i], rd[i], 1e-4, 1e-4);
                                match("harris_score", sc.p, rs, 2e-4 * (1 + rs.maxabs()), 2e-4 * (1 + rs.maxabs()));
                                same_source("harris", s, a);
                                std::vector<float> px = pixels_of(sc.p);
                                if (q == 0) first = px; else same_pixels("harris", first, px, "reused images");
                                std::vector<float> val;
                                float thr = (float)(rs.maxabs() * r.unit() * .3);
                                auto mx = maxima(sc.p, thr, &val);
                                int cap = choose(2) ? 500 : (int)choose(8);
                                struct NXKeypoint* ks = key_buf(cap, r);
                                int n = nx_harris_detect_keypoints(cap, ks, sc.p, thr);
                                if (n != (int)std::min<size_t>(cap, mx.size())) V("keys@harris", "%d keypoints instead of %zu (at most %d)", n, mx.size(), cap);
                                for (int i = 0; i < n; ++i) if (ks[i].x != mx[i].first || ks[i].y != mx[i].second || ks[i].xs != (float)mx[i].first || ks[i].ys != (float)mx[i].second || ks[i].score != val[i] || ks[i].id != (uint64_t)i || ks[i].level != 0 || ks[i].scale != 1.0f || ks[i].ori != 0)
                                        V("keys@harris", "keypoint %d is (%d,%d) score %g instead of (%d,%d) score %g", i, ks[i].x, ks[i].y, ks[i].score, mx[i].first, mx[i].second, val[i]);
                                hash_mix(n);
                                if (n) probe("Harris corners");
                                nx_free(ks);
                                for (int i = 0; i < 3; ++i) if (pre[i].p) free_im(pre[i]); else nx_image_free(d[i]);
                                free_im(sc);
                                free_im(s);
                        });
                }
        } else {
                int cap = 1 + (int)choose(60), hist = choose(4);
                op("  VGHarrisDetector %dx%d cap %d history %d", a.w, a.h, cap, hist);
                run_clean("vgharris", [&] {
                        auto score = [&](const struct NXImage* i) {
                                struct NXImage* d[3] = {nullptr, nullptr, nullptr};
                                struct NXImage* s = nx_image_alloc();
                                nx_harris_deriv_images(d, i, 1.2f);
                                nx_harris_score_image(s, d, .06f);
                                for (int q = 0; q < 3; ++q) nx_image_free(d[q]);
                                return s;
                        };
                        VGHarrisDetector det;
                        bool pyr = choose(2);
                        for (int i = 0; i <= hist; ++i) {               // without adaptation every call depends on its image only
                                Pic o = i == hist ? a : corner_pic(5, 30, r);
                                Im s = make_im(o, choose(4), r);
                                std::vector<struct NXKeypoint> ks;
                                if (!pyr) {
                                        int n = det.detect(VGImage(s.p, false), ks, cap, false);
                                        struct NXImage* sc = score(s.p);
                                        auto mx = maxima(sc, 0.000005f, nullptr);
                                        if (n != (int)ks.size() || n != (int)std::min<size_t>(cap, mx.size())) V("keys@vgharris", "%d/%zu keypoints instead of %zu (at most %d)", n, ks.size(), mx.size(), cap);
                                        for (int q = 0; q < n; ++q) if (ks[q].x != mx[q].first || ks[q].y != mx[q].second || ks[q].id != (uint64_t)q) V("keys@vgharris", "keypoint %d is (%d,%d)", q, ks[q].x, ks[q].y);
                                        nx_image_free(sc);
                                        hash_mix(n);
                                } else {
                                        int pt = choose(3);
                                        VGImagePyr p = pt == 0 ? VGImagePyr::build_fast_from(VGImage(s.p, false), 1 + choose(3), 1.0f)
                                                     : pt == 1 ? VGImagePyr::build_fine_from(VGImage(s.p, false), 1 + choose(2), 1 + choose(3), 1.0f)
                                                               : VGImagePyr::build_scaled_from(VGImage(s.p, false), 1 + choose(3), (float)(1.2 + .7 * r.unit()), 1.0f);
                                        int lv = 1 + choose(p.n_levels());
                                        int n = det.detect_pyr(p, ks, lv, cap, false);
                                        std::vector<std::array<int, 3>> want;
                                        int room = 2 * cap;
                                        for (int l = lv - 1; l >= 0 && room > 0; --l) {
                                                if (p[l].width() < 1 || p[l].height() < 1) continue;
                                                struct NXImage* sc = score(p[l].nx_img());
                                                for (auto& q : maxima(sc, 0.000005f, nullptr)) { if (room-- <= 0) break; want.push_back({{q.first, q.second, l}}); }
                                                nx_image_free(sc);
                                        }
                                        if (n != (int)ks.size() || n != (int)std::min<size_t>(cap, want.size())) V("keys@vgharris_pyr", "%d/%zu keypoints instead of %zu (at most %d)", n, ks.size(), want.size(), cap);
                                        for (int q = 0; q < n; ++q) if (ks[q].x != want[q][0] || ks[q].y != want[q][1] || ks[q].level != want[q][2] || ks[q].scale != p.level_scale(want[q][2]) || ks[q].sigma != p.level_sigma(want[q][2]) || ks[q].id != (uint64_t)q)
                                                V("keys@vgharris_pyr", "keypoint %d is (%d,%d) level %d instead of (%d,%d) level %d", q, ks[q].x, ks[q].y, ks[q].level, want[q][0], want[q][1], want[q][2]);
                                        hash_mix(n);
                                        probe("Harris pyramid");
                                }
                                same_source("vgharris", s, o);
                                free_im(s);
                        }
                        // adaptation: the threshold moves in the direction that brings the count closer to the wanted one
                        Im s = make_im(a, choose(4), r);
                        struct NXImage* sc = score(s.p);
                        auto all = maxima(sc, 0.000005f, nullptr);
                        nx_image_free(sc);
                        std::vector<struct NXKeypoint> k0, k1;
                        det.detect(VGImage(s.p, false), k0, cap, true);
                        det.detect(VGImage(s.p, false), k1, 100000, false);
                        size_t n0 = std::min<size_t>(2 * (size_t)cap, all.size());
                        if (n0 > (size_t)cap && k1.size() > all.size()) V("harris-adapt", "threshold lowered although %zu of %d keypoints were found", n0, cap);
                        if (n0 < (size_t)(.9 * cap) && k1.size() < all.size()) V("harris-adapt", "threshold raised although only %zu of %d keypoints were found", n0, cap);
                        free_im(s);
                });
        }
}
// ------------------------------------------------------------------ affine warps
// the documented pipeline (rotate, blur along x for the tilt, squeeze, blur for the scale, rotate and scale, post blur) in
// double precision; ok marks the pixels whose value does not hang on a rounding decision at the border of an image
struct Sim { int w, h; std::vector<double> v; std::vector<char> ok; Sim(int w_, int h_) : w(w_), h(h_), v((size_t)w_ * h_, 0), ok((size_t)w_ * h_, 1) {} };
// source coordinates are stepped in single precision along a row: what rounding can add up to
double coord_err(int ow, int w, int h) { return 1.2e-7 * (ow + 8) * (std::max(w, h) + 8); }
Sim sim_warp(const Sim& in, int ow, int oh, double sx, double sy, double ang) {
        Sim o(ow, oh);
        double c = cos(ang), s = sin(ang);
        const double m = 2e-3 + coord_err(ow, in.w, in.h);
        for (int y = 0; y < oh; ++y) for (int x = 0; x < ow; ++x) {
                double dx = x - ow / 2.0, dy = y - oh / 2.0, X = in.w / 2.0 + (c * dx + s * dy) / sx, Y = in.h / 2.0 + (-(s * dx) + c * dy) / sy;
                size_t k = (size_t)y * ow + x;
                if (X < -1 - m || Y < -1 - m || X > in.w - 1 + m || Y > in.h - 1 + m) continue;
                if (X < m || Y < m || X > in.w - 1 - m || Y > in.h - 1 - m) { o.ok[k] = 0; continue; }
                int xi = (int)X, yi = (int)Y;
                double u = X - xi, v = Y - yi;
                for (int b = 0; b < 2; ++b) for (int a = 0; a < 2; ++a) {
                        size_t q = (size_t)(yi + b) * in.w + xi + a;
                        o.v[k] += (a ? u : 1 - u) * (b ? v : 1 - v) * in.v[q];
                        if (!in.ok[q]) o.ok[k] = 0;
                }
        }
        return o;
}
Sim sim_blur(const Sim& in, double sigma, bool alongx) {
        if (!(sigma > 0)) return in;
        int half = nx_kernel_size_gaussian((float)sigma, 3.0f) / 2;
        std::vector<double> k(half + 1);
        double sum = 0;
        for (int i = 0; i <= half; ++i) { k[i] = exp(-i * i / (2 * sigma * sigma)); sum += i ? 2 * k[i] : k[i]; }
        Sim o(in.w, in.h);
        for (int y = 0; y < in.h; ++y) for (int x = 0; x < in.w; ++x) {
                size_t q = (size_t)y * in.w + x;
                for (int i = -half; i <= half; ++i) {
                        int xx = alongx ? x + i : x, yy = alongx ? y : y + i;
                        if (xx < 0 || yy < 0 || xx >= in.w || yy >= in.h) { o.ok[q] = 0; continue; }
                        o.v[q] += k[abs(i)] / sum * in.v[(size_t)yy * in.w + xx];
                        if (!in.ok[(size_t)yy * in.w + xx]) o.ok[q] = 0;
                }
        }
        return o;
}
// extent of the image under M (column major) plus the border; false when it hangs on rounding
bool sim_size(int w, int h, const double* M, int& ow, int& oh) {
        double lo[2] = {0, 0}, hi[2] = {0, 0};
        for (int c = 1; c < 4; ++c) for (int d = 0; d < 2; ++d) {
                double q = (c & 1 ? w * M[d] : 0) + (c & 2 ? h * M[2 + d] : 0);
                lo[d] = std::min(lo[d], q);
                hi[d] = std::max(hi[d], q);
        }
        double rw = hi[0] - lo[0] + 2, rh = hi[1] - lo[1] + 2;
        ow = (int)(rw + 1e-7); oh = (int)(rh + 1e-7);
        return ow == (int)(rw - 1e-7) && oh == (int)(rh - 1e-7);
}
void t_affine(Rng& r) {
        bool ramp = choose(2);
        Pic a = ramp ? Pic(40 + choose(60), 40 + choose(60), 1, false) : choose(2) ? corner_pic(6, 40, r) : draw_pic(12, 1, false, r);
        double gx = (r.unit() - .5) * 1.6 * 200 / 100, gy = (r.unit() - .5) * 1.6 * 200 / 100;
        auto val = [&](double x, double y) { return 128 + gx * (x - a.w / 2.0) + gy * (y - a.h / 2.0); };
        if (ramp) for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) a.at(x, y) = (int)std::min(255.0, std::max(0.0, val(x, y)));
        struct NXAffineWarpParam p;
        p.scale = choose(4) == 0 ? 1 : .5 + 1.5 * r.unit();
        p.planar_angle = choose(4) == 0 ? 0 : (r.unit() - .5) * 2 * M_PI;
        p.tilt = choose(3) == 0 ? 1 : 1 + 1.5 * r.unit();
        p.tilt_angle = choose(3) == 0 ? 0 : (r.unit() - .5) * 2 * M_PI;
        int bg = choose(3), color = choose(4) ? choose(256) : choose(2) * 255;
        float post = choose(2) ? 0 : (float)(r.unit() * 1.5);
        op("  affine warp %dx%d scale %.3f angle %.3f tilt %.3f at %.3f bg %d post %.3f", a.w, a.h, p.scale, p.planar_angle, p.tilt, p.tilt_angle, bg, post);
        auto setup = [&](struct NXAffineWarpProcessor* w, int mode, int col, float pb) {
                if (mode == 0) nx_affine_warp_processor_set_bg_fixed(w, (uchar)col); else if (mode == 1) nx_affine_warp_processor_set_bg_repeat(w); else nx_affine_warp_processor_set_bg_noise(w);
                nx_affine_warp_processor_set_post_blur_sigma(w, pb);
        };
        std::vector<float> first;
        double f0[6];
        int fw = 0, fh = 0;
        uint64_t noise_seed = r.next();
        for (int q = 0; q < 2; ++q) {
                knobs().junk_seed = r.next();
                run_clean("affine_warp", [&] {
                        struct NXAffineWarpProcessor* w = nx_affine_warp_processor_new();
                        if (q) for (int n = choose(3); n > 0; --n) {            // a history of other warps
                                Pic o = corner_pic(6, 40, r);
                                Im s = make_im(o, choose(4), r);
                                struct NXAffineWarpParam op2 = {.5 + 1.5 * r.unit(), 6 * r.unit(), 1 + r.unit(), 6 * r.unit()};
                                setup(w, choose(3), 77, (float)r.unit());
                                nx_affine_warp_processor_warp(w, s.p, op2);
                                same_source("affine_warp", s, o);
                                free_im(s);
                        }
                        setup(w, bg, color, post);
                        Im s = make_im(a, q ? choose(4) : 0, r);
                        nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), (uint32_t)noise_seed);
                        nx_affine_warp_processor_warp(w, s.p, p);
                        same_source("affine_warp", s, a);
                        const struct NXImage* o = nx_affine_warp_processor_warp_result(w);
                        well_formed("affine_warp", o);
                        const double *F = nx_affine_warp_processor_forward_transform(w), *I = nx_affine_warp_processor_inverse_transform(w);
                        auto ap = [](const double* t, double x, double y, double& ox, double& oy) { ox = x * t[0] + y * t[2] + t[4]; oy = x * t[1] + y * t[3] + t[5]; };
                        // forward = scale * R(planar) * diag(1/tilt, 1) * R(tilt angle), mapping centre to centre
                        double ct = cos(p.tilt_angle), st = sin(p.tilt_angle), cp = cos(p.planar_angle), sp = sin(p.planar_angle);
                        double m[4] = {ct / p.tilt, st, -st / p.tilt, ct};     // column major
                        double A[4] = {p.scale * (cp * m[0] - sp * m[1]), p.scale * (sp * m[0] + cp * m[1]), p.scale * (cp * m[2] - sp * m[3]), p.scale * (sp * m[2] + cp * m[3])};
                        for (int i = 0; i < 4; ++i) if (fabs(A[i] - F[i]) > 1e-6) V("affine-forward", "linear part element %d is %g instead of %g", i, F[i], A[i]);
                        double cx, cy;
                        ap(F, a.w / 2.0, a.h / 2.0, cx, cy);
                        if (fabs(cx - o->width / 2.0) > 1e-6 || fabs(cy - o->height / 2.0) > 1e-6) V("affine-forward", "the image centre maps to (%g,%g) of %dx%d", cx, cy, o->width, o->height);
                        for (int c = 0; c < 4; ++c) {
                                double x = (c & 1) * a.w, y = (c >> 1) * a.h, ox, oy, bx, by;
                                ap(F, x, y, ox, oy);
                                ap(I, ox, oy, bx, by);
                                if (fabs(bx - x) > 1e-6 * (1 + a.w) || fabs(by - y) > 1e-6 * (1 + a.h)) V("affine-inverse", "(%g,%g) comes back as (%g,%g)", x, y, bx, by);
                                if (ox < -1e-6 || oy < -1e-6 || ox > o->width + 1e-6 || oy > o->height + 1e-6) V("affine-size", "corner (%g,%g) maps to (%g,%g) outside of %dx%d", x, y, ox, oy, o->width, o->height);
                        }
                        const double bm = .01 + coord_err(o->width, std::max(a.w, o->width), std::max(a.h, o->height));
                        double R1[4] = {ct, st, -st, ct};
                        int w1, h1, w2, h2, w3, h3;
                        if (q == 0 && sim_size(a.w, a.h, R1, w1, h1) && sim_size(a.w, a.h, m, w2, h2) && sim_size(a.w, a.h, A, w3, h3) && w3 == o->width && h3 == o->height) {
                                Sim im(a.w, a.h);
                                for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) im.v[(size_t)y * a.w + x] = a.at(x, y);
                                const double ce = 255 * (coord_err(w1, a.w, a.h) + coord_err(w2, w1, h1) + coord_err(w3, w2, h2));
                                im = sim_blur(sim_warp(im, w1, h1, 1, 1, p.tilt_angle), .8 * std::sqrt(p.tilt * p.tilt - 1), true);
                                im = sim_warp(im, w2, h2, 1 / p.tilt, 1, 0);
                                if (p.scale > 1) { double sg = .8 * std::sqrt(p.scale * p.scale - 1); im = sim_blur(sim_blur(im, sg, true), sg, false); }
                                im = sim_warp(im, w3, h3, p.scale, p.scale, p.planar_angle);
                                im = sim_blur(sim_blur(im, post, true), post, false);
                                for (int y = 0; y < h3; ++y) for (int x = 0; x < w3; ++x) {
                                        double X, Y, e = im.v[(size_t)y * w3 + x];
                                        ap(I, x, y, X, Y);
                                        if (!im.ok[(size_t)y * w3 + x] || X < 1 + bm || Y < 1 + bm || X > a.w - 2 - bm || Y > a.h - 2 - bm) continue;   // background
                                        int g = o->data.uc[(size_t)y * o->row_stride + x];
                                        if (g < e - 8.5 - ce || g > e + .5 + ce) V("affine-pipeline", "pixel (%d,%d) of %dx%d from (%g,%g) is %d instead of %g", x, y, w3, h3, X, Y, g, e);
                                        probe("affine pipeline pixel");
                                }
                        }
                        double sig = .8 * std::sqrt(p.tilt * p.tilt - 1), sig2 = p.scale > 1 ? .8 * std::sqrt(p.scale * p.scale - 1) : 0;
                        double mg = 5 + 3 * sig + 3 * sig2 * p.tilt + 3 * post * p.tilt / p.scale + 2 * p.tilt / std::min(1.0, p.scale);
                        int n_out = 0;
                        std::set<int> noise;
                        for (int y = 0; y < o->height; ++y) for (int x = 0; x < o->width; ++x) {
                                double X, Y;
                                ap(I, x, y, X, Y);
                                int g = o->data.uc[(size_t)y * o->row_stride + x];
                                if (bg == 0 && (X < -bm || Y < -bm || X > a.w - 1 + bm || Y > a.h - 1 + bm)) { if (g != color) V("affine-bg", "outside pixel (%d,%d) is %d instead of the background %d", x, y, g, color); }
                                if (bg == 2 && (X < -bm || Y < -bm || X > a.w - 1 + bm || Y > a.h - 1 + bm)) { ++n_out; noise.insert(g); }
                                if (bg == 1 && (X < -bm || X > a.w - 1 + bm) && (Y < -bm || Y > a.h - 1 + bm)) {
                                        double e = a.at(X < 0 ? 0 : a.w - 1, Y < 0 ? 0 : a.h - 1);
                                        if (fabs(g - e) > 1.01) V("affine-bg", "corner-side pixel (%d,%d) from (%g,%g) is %d instead of %g", x, y, X, Y, g, e);
                                }
                                if (!ramp || X < mg || Y < mg || X > a.w - 1 - mg || Y > a.h - 1 - mg) continue;
                                double e = val(X, Y);
                                if (e < 8 || e > 247) continue;
                                // stay away from the saturated parts of the ramp
                                double reach = mg * (fabs(gx) + fabs(gy));
                                if (e - reach < 0 || e + reach > 255) continue;
                                if (g < e - 9.5 || g > e + .8) V("affine-value", "pixel (%d,%d) from (%g,%g) is %d instead of %g", x, y, X, Y, g, e);
                                probe("affine interior");
                        }
                        if (n_out > 200 && noise.size() < 40) V("affine-bg", "the noise of %d background pixels has only %zu values", n_out, noise.size());
                        if (q == 0) { fw = o->width; fh = o->height; memcpy(f0, F, sizeof f0); }
                        else if (fw != o->width || fh != o->height || memcmp(f0, F, sizeof f0)) V("history-dependent@affine_warp", "a reused processor gives a %dx%d result instead of %dx%d", o->width, o->height, fw, fh);
                        {
                                std::vector<float> px = pixels_of(o);
                                if (q == 0) { first = px; for (float v : px) hash_mix((uint64_t)v); }
                                else if (px != first) V("history-dependent@affine_warp", "a reused processor gives other pixels for the same warp");
                        }
                        nx_affine_warp_processor_free(w);
                        free_im(s);
                });
        }
}
// ------------------------------------------------------------------ checkerboards
void t_checkers(Rng& r) {
        Pic a = choose(2) ? corner_pic(3, 30, r) : draw_pic(16, 1, false, r);
        int rad = 1 + small(8);
        op("  checkerboard %dx%d radius %d", a.w, a.h, rad);
        std::vector<float> first[5];
        for (int q = 0; q < 2; ++q) {
                knobs().junk_seed = r.next();
                run_clean("checkers", [&] {
                        Im s = make_im(a, q ? choose(4) : 0, r), pre[4], sc = shape_im(1 + r.below(9), 1 + r.below(9), 1, r.below(2), q ? choose(5) : 4, r);
                        struct NXImage* l[4] = {nullptr, nullptr, nullptr, nullptr};
                        if (q) for (int i = 0; i < 4; ++i) if (choose(2)) { pre[i] = shape_im(1 + r.below(30), 1 + r.below(30), r.below(2) ? 1 : 4, r.below(2), choose(5), r); l[i] = pre[i].p; }
                        nx_checkers_local_radon_images(l, s.p, rad);
                        Pic bx = a, by = a;
                        for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) {
                                double u = 0, v = 0;
                                for (int i = -rad; i <= rad; ++i) { u += a.rep(x + i, y); v += a.rep(x, y + i); }
                                bx.at(x, y) = u / (2 * rad + 1);
                                by.at(x, y) = v / (2 * rad + 1);
                        }
                        match("local_radon_x", l[0], bx, 1.01, .02);
                        match("local_radon_y", l[1], by, 1.01, .02);
                        for (int i = 2; i < 4; ++i) same_shape("local_radon_diag", l[i], a);
                        nx_checkers_score_image(sc.p, l);
                        Pic e(a.w, a.h, 1, true);
                        for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) {
                                double lo = 1e9, hi = -1e9;
                                for (int i = 0; i < 4; ++i) { lo = std::min(lo, get_px(l[i], x, y)); hi = std::max(hi, get_px(l[i], x, y)); }
                                e.at(x, y) = (hi - lo) * (hi - lo) / 255 / 255;
                        }
                        match("checkers_score", sc.p, blur(e, 1.3f, 3), 1e-4, 1e-4);
                        // away from the borders a constant image stays constant in all four directions
                        for (int i = 0; i < 5; ++i) {
                                std::vector<float> px = pixels_of(i < 4 ? l[i] : sc.p);
                                if (q == 0) { first[i] = px; for (float v : px) hash_mix((uint64_t)(v * 1000)); }
                                else same_pixels("checkers", first[i], px, "reused images");
                        }
                        same_source("checkers", s, a);
                        for (int i = 0; i < 4; ++i) if (pre[i].p) free_im(pre[i]); else nx_image_free(l[i]);
                        free_im(sc);
                        free_im(s);
                });
        }
}
void run() {
        draw_knobs();
        Rng r(bits64());
        int n = 1 + choose(2);
        for (int i = 0; i < n; ++i) {
                switch (choose(5)) {
                case 0: t_fast(r); probe("FAST"); break;
                case 1: t_pyramid(r); probe("pyramid"); break;
                case 2: t_harris(r); probe("Harris"); break;
                case 3: t_affine(r); probe("affine warp"); break;
                default: t_checkers(r); probe("checkerboard"); break;
                }
        }
}
Reg reg({"C20", run,
         "every pyramid, detector and warp run on fresh objects and on objects with a random history of other images and settings, in different memory layouts and on a junk heap, gives bit-identical results that "
         "match a naive reference and leave the source untouched", 36000, 250000});
}  // namespace
