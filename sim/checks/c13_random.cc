// C13: everything derived from a seed is a function of the seed alone, stays in
// range for every word the generator can produce; timers follow elapsed time.
#include "util.h"
#include <climits>
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/nx_gaussian_sampler.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_image_pyr.h"
#include "virg/nexus/nx_timing.h"
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/vg_brief_extractor.hpp"
#include "virg/nexus/vg_descriptor_map.hpp"

namespace {
// Reference SFMT-19937 (independent, portable formulation).
struct RefSfmt {
        uint32_t w[624];
        int i;
        explicit RefSfmt(uint32_t seed) {
                w[0] = seed;
                for (int k = 1; k < 624; ++k) w[k] = 1812433253u * (w[k - 1] ^ (w[k - 1] >> 30)) + k;
                static const uint32_t par[4] = {1, 0, 0, 0x13c9e684u};
                uint32_t in = 0;
                for (int k = 0; k < 4; ++k) in ^= w[k] & par[k];
                for (int k = 16; k > 0; k >>= 1) in ^= in >> k;
                if (!(in & 1)) w[0] ^= 1;   // lowest set bit of the parity vector
                i = 624;
        }
        void refill() {
                typedef unsigned __int128 U;
                auto get = [&](int k) { U v = 0; for (int b = 3; b >= 0; --b) v = v << 32 | w[4 * k + b]; return v; };
                static const uint32_t msk[4] = {0xdfffffefu, 0xddfecb7fu, 0xbffaffffu, 0xbffffff6u};
                for (int k = 0; k < 156; ++k) {
                        U a = get(k), r1 = get((k + 154) % 156), r2 = get((k + 155) % 156);
                        uint32_t o[4];
                        U x = a << 8, y = r1 >> 8;
                        for (int b = 0; b < 4; ++b) {
                                uint32_t bb = w[4 * ((k + 122) % 156) + b];
                                o[b] = (uint32_t)(a >> (32 * b)) ^ (uint32_t)(x >> (32 * b)) ^ ((bb >> 11) & msk[b]) ^ (uint32_t)(y >> (32 * b)) ^ ((uint32_t)(r2 >> (32 * b)) << 18);
                        }
                        for (int b = 0; b < 4; ++b) w[4 * k + b] = o[b];
                }
                i = 0;
        }
        uint32_t next() { if (i >= 624) refill(); return w[i++]; }
        uint64_t next64() { uint32_t a = next(), b = next(); return (uint64_t)b << 32 | a; }
};
uint32_t draw_seed() {
        static const uint32_t s[] = {0, 1, 0xffffffffu, 1234, NX_BRIEF_EXTRACTOR_GOOD_SEED_N32_R16, NX_BRIEF_EXTRACTOR_GOOD_SEED_N32_R24};
        int k = choose(8);
        return k < 6 ? s[k] : (uint32_t)bits64();
}
void uniform_history() {
        // several samplers used alternately, each must follow its own reference
        int n = 1 + choose(3);
        static struct NXUniformSampler* sm[3];
        std::vector<RefSfmt> ref;
        knobs().wall0 = 1000000000 + choose(1u << 30);
        Plan jump;
        if (chance(1, 3)) jump = Plan::one(K_CLOCK_JUMP, choose(2), choose(9));
        for (int i = 0; i < n; ++i) {
                uint32_t seed = draw_seed();
                int how = choose(4);
                op("sampler %d seed %u how %d", i, seed, how);
                uint32_t t0 = 0;
                run_op("new sampler", jump, [&] {
                        if (how == 0) sm[i] = nx_uniform_sampler_new_with_seed(seed);
                        else if (how == 1) { sm[i] = nx_uniform_sampler_alloc(); nx_uniform_sampler_init_seed(sm[i], seed); }
                        else if (how == 2) { sm[i] = nx_uniform_sampler_new(); nx_uniform_sampler_sample32(sm[i]); nx_uniform_sampler_init_seed(sm[i], seed); }
                        else { sm[i] = nx_uniform_sampler_new_with_seed(~seed); for (int k = 0; k < 3; ++k) nx_uniform_sampler_sample32(sm[i]); nx_uniform_sampler_init_seed(sm[i], seed); }
                });
                (void)t0;
                ref.push_back(RefSfmt(seed));
        }
        std::vector<int> pos(n, 0);
        int steps = 2 + small(40);
        for (int s = 0; s < steps; ++s) {
                int i = choose(n), k = choose(7), cnt = 1 + small(700);
                run_clean("sample", [&] {
                        for (int c = 0; c < cnt; ++c) {
                                switch (k) {
                                case 0: case 1: {
                                        uint32_t a = nx_uniform_sampler_sample32(sm[i]), b = ref[i].next();
                                        if (a != b) V("stream-differs", "draw of sampler %d gave %u instead of %u: the stream is not the one of its seed", i, a, b);
                                        pos[i]++;
                                        break;
                                }
                                case 2: {
                                        if (pos[i] & 1) { nx_uniform_sampler_sample32(sm[i]); ref[i].next(); pos[i]++; }
                                        uint64_t a = nx_uniform_sampler_sample64(sm[i]), b = ref[i].next64();
                                        if (a != b) V("stream-differs", "64-bit draw gave %lx instead of %lx", a, b);
                                        pos[i] += 2;
                                        break;
                                }
                                case 3: {
                                        float a = nx_uniform_sampler_sample_s(sm[i]);
                                        double b = ref[i].next() / 4294967296.0;
                                        if (!(a >= 0.0f && a < 1.0f)) V("out-of-range", "uniform float sample %.9g", a);
                                        if (std::fabs(a - b) > 1.0 / (1 << 23)) V("stream-differs", "uniform float sample %.9g instead of %.9g", a, b);
                                        pos[i]++;
                                        break;
                                }
                                case 4: {
                                        double a = nx_uniform_sampler_sample_d(sm[i]);
                                        uint32_t x = ref[i].next(), y = ref[i].next();
                                        double b = (double)(((uint64_t)y << 32 | x) >> 11) / 9007199254740992.0;
                                        if (!(a >= 0.0 && a < 1.0)) V("out-of-range", "uniform double sample %.17g", a);
                                        if (std::fabs(a - b) > 1e-15) V("stream-differs", "uniform double sample %.17g instead of %.17g", a, b);
                                        pos[i] += 2;
                                        break;
                                }
                                default: {
                                        if (pos[i] % 624) { for (; pos[i] % 624; pos[i]++) { nx_uniform_sampler_sample32(sm[i]); ref[i].next(); } }
                                        int m = 624 + 4 * choose(200);
                                        if (k == 5) {
                                                uint32_t* a = (uint32_t*)nx_xaligned_alloc(16, m * 4);
                                                nx_uniform_sampler_fill32(sm[i], m, a);
                                                for (int q = 0; q < m; ++q) { uint32_t b = ref[i].next(); if (a[q] != b) V("fill-differs", "element %d of a filled array of %d is %u instead of %u", q, m, a[q], b); }
                                                nx_free(a);
                                        } else {
                                                uint64_t* a = (uint64_t*)nx_xaligned_alloc(16, m * 4);
                                                nx_uniform_sampler_fill64(sm[i], m / 2, a);
                                                for (int q = 0; q < m / 2; ++q) { uint64_t b = ref[i].next64(); if (a[q] != b) V("fill-differs", "element %d of a filled 64-bit array is wrong", q); }
                                                nx_free(a);
                                        }
                                        // a filled block ends where it ends: only a fresh seed is defined afterwards
                                        uint32_t ns = choose(1 << 20);
                                        nx_uniform_sampler_init_seed(sm[i], ns);
                                        ref[i] = RefSfmt(ns);
                                        pos[i] = 0;
                                        c = cnt;
                                }
                                }
                        }
                });
                if (cnt > 300) probe("refill");
        }
        run_clean("free", [&] { for (int i = 0; i < n; ++i) nx_uniform_sampler_free(sm[i]); });
}
void extremes() {
        knobs().rand_extremes = 1 + choose(120);
        knobs().rand_seed = choose(1 << 24);
        uint32_t seed = draw_seed();
        int n = 1 + small(900);
        op("extreme words %u, seed %u, n %d", knobs().rand_extremes, seed, n);
        run_clean("uniform range", [&] {
                struct NXUniformSampler* s = nx_uniform_sampler_new_with_seed(seed);
                for (int i = 0; i < 1400; ++i) {
                        float a = nx_uniform_sampler_sample_s(s);
                        if (!(a >= 0.0f && a < 1.0f)) V("out-of-range", "uniform float sample %.9g", a);
                        double b = nx_uniform_sampler_sample_d(s);
                        if (!(b >= 0.0 && b < 1.0)) V("out-of-range", "uniform double sample %.17g", b);
                }
                nx_uniform_sampler_free(s);
        });
        double mean = (int)choose(21) - 10, sigma = choose(5) * 0.75;
        run_clean("gaussian range", [&] {
                struct NXGaussianSampler* g = nx_gaussian_sampler_new_with_seed(seed);
                float* f = NX_NEW_S(n);
                double* d = NX_NEW_D(n);
                for (int k = 0; k < 3; ++k) {
                        nx_gaussian_sampler_sample_s(g, n, f, mean, sigma);
                        nx_gaussian_sampler_sample_d(g, n, d, mean, sigma);
                        for (int i = 0; i < n; ++i) {
                                if (!std::isfinite(f[i]) || !std::isfinite(d[i])) V("not-finite", "Gaussian sample %d of %d is %g / %g", i, n, f[i], d[i]);
                                // the polar method cannot produce more than sqrt(2 ln 2^65) deviations
                                if (std::fabs(f[i] - mean) > 14 * sigma + 1e-3 || std::fabs(d[i] - mean) > 14 * sigma + 1e-3) V("out-of-range", "Gaussian sample %g / %g for mean %g and sigma %g", f[i], d[i], mean, sigma);
                        }
                }
                nx_free(f); nx_free(d);
                nx_gaussian_sampler_free(g);
        });
        int oct = 1 + choose(33), rad = 4 + choose(40);
        run_clean("brief range", [&] {
                struct NXBriefExtractor* be = nx_brief_extractor_new_with_seed(oct, rad, seed);
                for (int i = 0; i < oct * 32; ++i) if (be->offsets[i] < -rad || be->offsets[i] > rad) V("brief-out-of-range", "offset %d outside the radius %d", be->offsets[i], rad);
                nx_brief_extractor_free(be);
        });
}
struct Gauss { std::vector<float> s; std::vector<double> d; };
void gaussian() {
        uint32_t seed = draw_seed();
        int n = 1 + small(300);
        double mean = ((int)choose(2001) - 1000) * 0.25, sigma = choose(40) * 0.5;
        op("gaussian seed %u n %d mean %g sigma %g", seed, n, mean, sigma);
        static Gauss ref, got, sh;
        auto draw = [&](Gauss* o, double m, double sg, int variant) {
                o->s.assign(n, 0); o->d.assign(n, 0);
                run_clean("gaussian", [&] {
                        struct NXGaussianSampler* g;
                        if (variant == 0) g = nx_gaussian_sampler_new_with_seed(seed);
                        else if (variant == 1) g = nx_gaussian_sampler_new(nx_uniform_sampler_new_with_seed(seed));
                        else { g = nx_gaussian_sampler_new(NULL); float junk[3]; nx_gaussian_sampler_sample_s(g, 3, junk, 0, 1); nx_gaussian_sampler_init_seed(g, seed); }
                        nx_gaussian_sampler_sample_s(g, n, o->s.data(), m, sg);
                        nx_gaussian_sampler_sample_d(g, n, o->d.data(), m, sg);
                        nx_gaussian_sampler_free(g);
                });
        };
        draw(&ref, mean, sigma, 0);
        knobs().junk_seed ^= 77;
        knobs().wall0 += 12345;
        draw(&got, mean, sigma, choose(3));
        if (ref.s != got.s || ref.d != got.d) V("not-reproducible", "the same seed gave different Gaussian samples");
        draw(&sh, 0, 1, 0);
        double sum = 0;
        for (int i = 0; i < n; ++i) {
                if (std::fabs(mean + sigma * sh.s[i] - ref.s[i]) > 1e-3 + 1e-4 * std::fabs(mean) || std::fabs(mean + sigma * sh.d[i] - ref.d[i]) > 1e-9 * (1 + std::fabs(mean) + 10 * sigma)) V("wrong-distribution", "sample %d does not scale with mean and sigma", i);
                if (!std::isfinite(ref.s[i]) || !std::isfinite(ref.d[i])) V("not-finite", "Gaussian sample %d is not finite", i);
                sum += sh.d[i];
        }
        // polar method on the reference stream
        RefSfmt r(seed);
        bool unclear = false;   // rounding decides whether the sampler rejects this pair
        auto pair = [&](double* a, double* b) {
                double v1, v2, s;
                do {
                        v1 = 2.0 * (float)(r.next() / 4294967296.0) - 1; v2 = 2.0 * (float)(r.next() / 4294967296.0) - 1; s = v1 * v1 + v2 * v2;
                        if (std::fabs(s - 1) < 1e-6 || s < 1e-6) unclear = true;
                } while (s >= 1 || s == 0);
                double c = std::sqrt(-2 * std::log(s) / s);
                *a = c * v1; *b = c * v2;
        };
        auto follow = [&](auto& got) {
                for (int i = 0; i < n && !unclear; i += 2) {
                        double a, b;
                        pair(&a, &b);
                        if (!unclear && (std::fabs(a - got[i]) > 2e-3 || (i + 1 < n && std::fabs(b - got[i + 1]) > 2e-3))) V("stream-differs", "Gaussian sample %d is not the one of its seed", i);
                }
        };
        follow(sh.s);
        follow(sh.d);
        // unit moments over a long stream of its own
        if (chance(1, 8)) run_clean("moments", [&] {
                struct NXGaussianSampler* g = nx_gaussian_sampler_new_with_seed(seed);
                const int N = 40000;
                double* d = NX_NEW_D(N);
                nx_gaussian_sampler_sample_d(g, N, d, 0, 1);
                double m = 0, v = 0, q = 0;
                for (int i = 0; i < N; ++i) { m += d[i]; v += d[i] * d[i]; q += std::fabs(d[i]) < 1; }
                m /= N; v /= N; q /= N;
                // 7 standard errors: a true Gaussian fails once in 10^11 streams
                if (std::fabs(m) > 0.035 || std::fabs(v - 1) > 0.05 || std::fabs(q - 0.6826895) > 0.0163) V("wrong-distribution", "mean %g variance %g within-one-sigma %g of 40000 samples", m, v, q);
                nx_free(d);
                nx_gaussian_sampler_free(g);
                probe("moments");
        });
        hash_bytes(ref.s.data(), n * sizeof(float));
}
void brief() {
        uint32_t seed = draw_seed();
        int oct = 1 + choose(40), rad = 4 + choose(30);
        op("brief octets %d radius %d seed %u", oct, rad, seed);
        static std::vector<int> ref;
        int lim[4];
        run_clean("brief new", [&] {
                struct NXBriefExtractor* be = nx_brief_extractor_new_with_seed(oct, rad, seed);
                ref.assign(be->offsets, be->offsets + oct * 32);
                memcpy(lim, be->offset_limits, sizeof lim);
                if (be->n_octets != oct || be->radius != rad) V("brief-shape", "%d octets radius %d", be->n_octets, be->radius);
                nx_brief_extractor_free(be);
        });
        // the pattern of the seed, from the reference stream
        {
                RefSfmt r(seed);
                auto u = [&] { float f = (float)(r.next() / 4294967296.0); return f < 1.0f ? f : 0.99999994f; };
                for (int i = 0; i < oct * 8; ++i) {
                        int x0 = 2 * rad * (u() - 0.5f), y0 = 2 * rad * (u() - 0.5f), x1, y1, d2;
                        do { x1 = 2 * rad * (u() - 0.5f); y1 = 2 * rad * (u() - 0.5f); d2 = (x1 - x0) * (x1 - x0) + (y1 - y0) * (y1 - y0); } while (d2 < 9);
                        const int* o = &ref[4 * i];
                        if (o[0] != x0 || o[1] != y0 || o[2] != x1 || o[3] != y1) V("brief-not-of-seed", "test %d is (%d,%d)-(%d,%d), the seed gives (%d,%d)-(%d,%d)", i, o[0], o[1], o[2], o[3], x0, y0, x1, y1);
                }
        }
        int l[4] = {INT_MAX, INT_MIN, INT_MAX, INT_MIN};
        for (int i = 0; i < oct * 16; ++i) { l[0] = std::min(l[0], ref[2 * i]); l[1] = std::max(l[1], ref[2 * i]); l[2] = std::min(l[2], ref[2 * i + 1]); l[3] = std::max(l[3], ref[2 * i + 1]); }
        if (memcmp(l, lim, sizeof l)) V("brief-limits", "limits %d..%d x %d..%d, tests span %d..%d x %d..%d", lim[0], lim[1], lim[2], lim[3], l[0], l[1], l[2], l[3]);
        // an extractor with any history of resizes and seeds, reseeded, is the same
        knobs().junk_seed ^= 5;
        knobs().wall0 += 999;
        static struct NXBriefExtractor* be;
        run_clean("brief reuse", [&] {
                be = nx_brief_extractor_new(1 + choose(40), 4 + choose(30));
                for (int k = choose(4); k > 0; --k) { if (choose(2)) nx_brief_extractor_resize(be, 1 + choose(40), 4 + choose(30)); else nx_brief_extractor_randomize_with_seed(be, choose(100)); }
                nx_brief_extractor_resize(be, oct, rad);
                nx_brief_extractor_randomize_with_seed(be, seed);
                if (memcmp(be->offsets, ref.data(), ref.size() * sizeof(int)) || memcmp(be->offset_limits, lim, sizeof lim)) V("not-reproducible", "a reseeded extractor has another pattern than a fresh one with the same seed");
        });
        // descriptors are the stated intensity comparisons
        int w = 4 + choose(60), h = 4 + choose(60), nl = 1 + choose(5);
        Rng r(choose(1 << 20));
        int flavour = choose(3);
        struct Ex { int x, y, level; bool ok; float theta; };
        run_clean("brief descriptors", [&] {
                struct NXImagePyr* p = nx_image_pyr_alloc();
                nx_image_pyr_alloc_levels(p, nl);
                for (int i = 0; i < nl; ++i) {
                        int lw = std::max(1, w >> i), lh = std::max(1, h >> i);
                        nx_image_pyr_create_level(p, i, lw, lh, (float)(1 << i), 1.0f);
                        struct NXImage* im = p->levels[i].img;
                        for (int y = 0; y < lh; ++y) for (int x = 0; x < lw; ++x) im->data.uc[y * im->row_stride + x] = flavour == 0 ? r.next() : flavour == 1 ? (x * 7 + y * 13) : 9;
                }
                be->pyr_level_offset = choose(3);
                uchar* d = NX_NEW_UC(oct);
                uchar* d2 = NX_NEW_UC(oct);
                for (int k = 0; k < 12; ++k) {
                        int lev = r.below(nl + 1);
                        int kx = (int)r.below(w + 20) - 10, ky = (int)r.below(h + 20) - 10;
                        if (lev >= nl) lev = nl - 1;
                        int sl = lev + be->pyr_level_offset;
                        bool in = sl < nl;
                        NXBool ok = nx_brief_extractor_check_point_pyr(be, p, kx, ky, lev);
                        if (!in) { if (ok) V("brief-check", "a point without a sample level was accepted"); continue; }
                        struct NXImage* im = p->levels[sl].img;
                        float sf = p->levels[lev].scale / p->levels[sl].scale;
                        for (int i = 0; i < oct * 16 && in; ++i) { int sx = (kx + ref[2 * i]) * sf, sy = (ky + ref[2 * i + 1]) * sf; in = sx >= 0 && sx < im->width && sy >= 0 && sy < im->height; }
                        if ((ok != 0) != in) V("brief-check", "point %d,%d level %d: check says %d but the tests %s inside the image", kx, ky, lev, ok, in ? "are" : "are not");
                        if (!ok) continue;
                        probe("descriptor");
                        nx_brief_extractor_compute_pyr(be, p, kx, ky, lev, d);
                        for (int i = 0; i < oct * 8; ++i) {
                                const int* o = &ref[4 * i];
                                int x0 = (kx + o[0]) * sf, y0 = (ky + o[1]) * sf, x1 = (kx + o[2]) * sf, y1 = (ky + o[3]) * sf;
                                int bit = im->data.uc[y0 * im->row_stride + x0] > im->data.uc[y1 * im->row_stride + x1];
                                if (((d[i / 8] >> (7 - i % 8)) & 1) != bit) V("descriptor-wrong", "bit %d of the descriptor at %d,%d is not the comparison of its test", i, kx, ky);
                        }
                        if (!nx_brief_extractor_compute_pyr_at_theta(be, p, kx, ky, lev, 0.0f, d2) || memcmp(d, d2, oct)) V("descriptor-wrong", "the descriptor at angle 0 differs from the upright one");
                        float th = (r.below(628)) * 0.01f;
                        int tx = kx, ty = ky;
                        if (r.below(2)) {       // a test right at the border, all others further in
                                double ct = std::cos((double)th), st = std::sin((double)th), lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
                                for (int i = 0; i < oct * 16; ++i) {
                                        double sx = ct * ref[2 * i] + st * ref[2 * i + 1], sy = -st * ref[2 * i] + ct * ref[2 * i + 1];
                                        lo[0] = std::min(lo[0], sx); hi[0] = std::max(hi[0], sx); lo[1] = std::min(lo[1], sy); hi[1] = std::max(hi[1], sy);
                                }
                                int side = r.below(4);
                                double lim = side & 1 ? -lo[side / 2] : (side < 2 ? im->width : im->height) / sf - hi[side / 2];
                                int at = (int)std::floor(lim) + (int)r.below(3) - 1;
                                tx = (int)((im->width / sf - lo[0] - hi[0]) / 2); ty = (int)((im->height / sf - lo[1] - hi[1]) / 2);
                                (side < 2 ? tx : ty) = at;
                        }
                        if (r.below(4) == 0) th = (int)r.below(9) * 0.78539816f - 3.1415927f;
                        {
                                NXBool rok = nx_brief_extractor_compute_pyr_at_theta(be, p, tx, ty, lev, th, d2);
                                double ct = std::cos((double)th), st = std::sin((double)th);
                                bool sure_out = false, sure_in = true;
                                for (int i = 0; i < oct * 16; ++i) {
                                        double sx = (tx + ct * ref[2 * i] + st * ref[2 * i + 1]) * sf, sy = (ty - st * ref[2 * i] + ct * ref[2 * i + 1]) * sf, e = 1e-3;
                                        if (sx < -1 - e || sy < -1 - e || sx > im->width + e || sy > im->height + e) sure_out = true;
                                        if (!(sx > -1 + e && sy > -1 + e && sx < im->width - e && sy < im->height - e)) sure_in = false;
                                }
                                if (rok ? sure_out : sure_in) V("brief-check", "point %d,%d angle %g: %s although its tests are %s the image", tx, ty, th, rok ? "computed" : "refused", rok ? "outside" : "inside");
                                if (rok) {
                                        probe("rotated-descriptor");
                                        for (int i = 0; i < oct * 8; ++i) {
                                                int v[2];
                                                bool clear = true;
                                                for (int k2 = 0; k2 < 2; ++k2) {
                                                        const int* o = &ref[4 * i + 2 * k2];
                                                        double sx = (tx + ct * o[0] + st * o[1]) * sf, sy = (ty - st * o[0] + ct * o[1]) * sf;
                                                        if (std::fabs(sx - std::round(sx)) < 1e-3 || std::fabs(sy - std::round(sy)) < 1e-3) { clear = false; break; }
                                                        v[k2] = im->data.uc[(int)sy * im->row_stride + (int)sx];
                                                }
                                                if (clear && ((d2[i / 8] >> (7 - i % 8)) & 1) != (v[0] > v[1])) V("descriptor-wrong", "bit %d of the descriptor at %d,%d turned by %g is not the comparison of its test", i, tx, ty, th);
                                        }
                                } else memcpy(d2, d, oct);
                        }
                        int dist = 0;
                        for (int i = 0; i < oct; ++i) dist += __builtin_popcount((unsigned)(d[i] ^ d2[i]));
                        if (nx_brief_extractor_descriptor_distance(oct, d, d2) != dist) V("distance-wrong", "descriptor distance %d instead of %d over %d octets", nx_brief_extractor_descriptor_distance(oct, d, d2), dist, oct);
                        hash_bytes(d, oct);
                }
                nx_free(d); nx_free(d2);
                nx_image_pyr_free(p);
                nx_brief_extractor_free(be);
        });
}
void timer() {
        knobs().wall0 = 1000 + choose(1u << 30);
        uint64_t ns = (uint64_t)choose(1u << 31) * (1 + choose(2000));
        Plan p;
        if (chance(2, 3)) p = Plan::one(K_CLOCK_JUMP, choose(2), choose(9));
        op("timer %lu ns", ns);
        run_op("timer", p, [&] {
                struct NXTimer t;
                nx_timer_start(&t);
                uint64_t a = g_sim_ns;
                g_sim_ns += ns;
                nx_timer_stop(&t);
                double want = (g_sim_ns - a) * 1e-6, got = nx_timer_measure_in_msec(&t);
                if (std::fabs(want - got) > 0.1 + 1e-9 * want) V("timer-wrong", "%.6f ms elapsed but the timer says %.6f", want, got);
        });
}
void global_instances() {
        // the shared samplers are seeded from the clock and live until freed
        knobs().wall0 = 1000000000 + choose(1u << 30);
        uint32_t seed = (uint32_t)knobs().wall0;
        run_clean("global", [&] {
                nx_uniform_sampler_instance_free();
                nx_gaussian_sampler_instance_free();
                struct NXUniformSampler* a = nx_uniform_sampler_instance();
                uint32_t s0 = seed + (uint32_t)(g_sim_ns / 1000000000);
                RefSfmt r(s0);
                for (int i = 0; i < 5; ++i) {
                        if (nx_uniform_sampler_instance() != a) V("instance-changes", "the shared sampler changed identity");
                        uint32_t g = NX_UNIFORM_SAMPLE32, w = r.next();
                        if (g != w) V("stream-differs", "the clock-seeded shared sampler does not follow its seed");
                }
                struct NXGaussianSampler* g = nx_gaussian_sampler_instance();
                if (nx_gaussian_sampler_instance() != g) V("instance-changes", "the shared Gaussian sampler changed identity");
                nx_gaussian_sampler_instance_free();
                nx_gaussian_sampler_instance_free();
                nx_uniform_sampler_instance_free();
                nx_uniform_sampler_instance_free();
        });
}
void run() {
        draw_knobs();
        switch (choose(8)) {
        case 0: case 1: uniform_history(); break;
        case 2: extremes(); break;
        case 3: gaussian(); break;
        case 4: case 5: brief(); break;
        case 6: timer(); break;
        default: global_instances();
        }
}
Reg reg({"C13", run,
         "one run = a history over 1-3 uniform samplers (seed/time initialised, alternating 32/64-bit/real draws and array fills) against an independent SFMT-19937, or Gaussian samplers against the polar method on that "
         "stream, or BRIEF extractors (pattern, limits, descriptors, distance, reseeding after any resize history), or ranges under injected extreme generator words, or timers and clock-seeded instances under wall-clock "
         "jumps; non-trivial = extreme words, a clock jump, short transfer or changed heap content was injected; distinct = different event/outcome sequence",
         60000, 500000});
}
