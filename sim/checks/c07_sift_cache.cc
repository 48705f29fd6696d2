// C07: SIFT results served through the on-disk cache equal the uncached ones,
// across histories, crashes, failing I/O and concurrent processes.
#include "util.h"
#include <climits>
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_sift_detector.h"

namespace {
struct Pic {
        int w = 0, h = 0;
        bool f32 = false;
        std::vector<float> v;   // tight
};
struct Keys {
        std::vector<NXKeypoint> k;
        std::vector<uchar> d;
};
bool fb(float a, float b) { return memcmp(&a, &b, 4) == 0; }
bool same_key(const NXKeypoint& a, const NXKeypoint& b) {
        return a.x == b.x && a.y == b.y && fb(a.xs, b.xs) && fb(a.ys, b.ys) && a.level == b.level && fb(a.scale, b.scale) && fb(a.sigma, b.sigma) && fb(a.score, b.score) && fb(a.ori, b.ori) && a.id == b.id;
}
bool same_match(const NXPointMatch2D& a, const NXPointMatch2D& b) {
        return fb(a.x[0], b.x[0]) && fb(a.x[1], b.x[1]) && fb(a.xp[0], b.xp[0]) && fb(a.xp[1], b.xp[1]) && fb(a.match_cost, b.match_cost) && fb(a.sigma_x, b.sigma_x) && fb(a.sigma_xp, b.sigma_xp) && a.id == b.id && a.idp == b.idp && a.is_inlier == b.is_inlier;
}
struct NXImage* make_pic(const Pic& p, int pad) {
        struct NXImage* img = nx_image_alloc();
        nx_image_resize(img, p.w, p.h, p.w + pad, NX_IMAGE_GRAYSCALE, p.f32 ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR);
        for (int y = 0; y < p.h; ++y)
                for (int x = 0; x < p.w; ++x) {
                        if (p.f32) img->data.f32[y * img->row_stride + x] = p.v[y * p.w + x];
                        else img->data.uc[y * img->row_stride + x] = (uchar)p.v[y * p.w + x];
                }
        return img;
}
NXSIFTDetectorParams draw_params() {
        NXSIFTDetectorParams p = nx_sift_default_parameters();
        p.double_image = chance(1, 4) ? NX_TRUE : NX_FALSE;
        p.n_scales_per_octave = 1 + choose(3);
        static const float s0[] = {1.6f, 0.4f, 1.0f, 2.2f};
        p.sigma0 = s0[choose(4)];
        static const float tr[] = {4.0f, 2.0f, 3.0f};
        p.kernel_truncation_factor = tr[choose(3)];
        static const int bd[] = {5, 1, 2, 3, 9};
        p.border_distance = bd[choose(5)];
        static const float pk[] = {0.04f, 1e-4f, 0.5f, 20.0f};
        p.peak_threshold = pk[choose(4)];
        static const float ed[] = {10.0f, 3.0f, 40.0f};
        p.edge_threshold = ed[choose(3)];
        p.magnification_factor = 1 + choose(4);
        return p;
}
Pic draw_pic() {
        Pic p;
        p.w = range(8, 44);
        p.h = range(8, 44);
        p.f32 = chance(1, 3);
        Rng r(choose(1u << 24));
        int fl = choose(4);
        p.v.resize(p.w * p.h);
        for (int y = 0; y < p.h; ++y)
                for (int x = 0; x < p.w; ++x) {
                        float v;
                        if (fl == 0) v = r.below(256);
                        else if (fl == 1) v = ((x / 5) ^ (y / 4)) % 3 * 110;
                        else if (fl == 2) v = 127 + 120 * sinf(x * 0.35f + r.s % 7) * cosf(y * 0.28f);
                        else v = 77;
                        p.v[y * p.w + x] = p.f32 ? v * 0.73f - 20.0f : std::floor(v);
                }
        if (fl == 2) for (int i = 0; i < 6; ++i) p.v[r.below(p.v.size())] = p.f32 ? 200.5f : 250;
        return p;
}
// a second picture that is easily confused with the first one
Pic variant_of(const Pic& a) {
        Pic b = a;
        switch (choose(5)) {
        case 0: std::swap(b.w, b.h); break;                            // same bytes, other shape
        case 1: b.v[choose(b.v.size())] += b.f32 ? 30.25f : (b.v[0] > 100 ? -1 : 1); for (auto& x : b.v) if (!b.f32) x = std::min(255.0f, std::max(0.0f, x)); break;
        case 2: if (b.w * b.h % 2 == 0 && b.w % 2 == 0 && b.w / 2 >= 8) { b.w /= 2; b.h *= 2; } break;
        case 3: if (b.f32) for (auto& x : b.v) x = -x; else for (auto& x : b.v) x = 255 - x; break;
        default:
                if (a.f32) {   // the same row bytes read as 8-bit pixels
                        b.f32 = false; b.w = a.w * 4; b.v.resize(b.w * b.h);
                        const unsigned char* q = (const unsigned char*)a.v.data();
                        for (size_t i = 0; i < b.v.size(); ++i) b.v[i] = q[i];
                } else { b.f32 = true; }
        }
        return b;
}
// One call as one process: own detector, image and output buffers.
struct Call {
        const Pic* pic;
        NXSIFTDetectorParams par;
        int pad, cap0;
        const char* dir;            // with `cached`
        bool cached;
        Keys out;
        bool inside = true;
};
void do_call(Call* c) {
        struct NXSIFTDetector* det = nx_sift_detector_new(c->par);
        struct NXImage* img = make_pic(*c->pic, c->pad);
        int cap = c->cap0;
        struct NXKeypoint* keys = cap ? NX_NEW(cap, struct NXKeypoint) : nullptr;
        uchar* desc = cap ? NX_NEW_UC(cap * NX_SIFT_DESC_DIM) : nullptr;
        int n = c->cached ? nx_sift_detector_compute_with_cache(det, img, &cap, &keys, &desc, c->dir) : nx_sift_detector_compute(det, img, &cap, &keys, &desc);
        if (n < 0 || n > cap) V("keypoint-count", "%d keypoints in buffers of capacity %d", n, cap);
        c->out.k.assign(keys, keys + n);
        c->out.d.assign(desc, desc + (size_t)n * NX_SIFT_DESC_DIM);
        for (int y = 0; y < c->pic->h; ++y)
                for (int x = 0; x < c->pic->w; ++x) {
                        float v = c->pic->f32 ? img->data.f32[y * img->row_stride + x] : img->data.uc[y * img->row_stride + x];
                        if (v != (c->pic->f32 ? c->pic->v[y * c->pic->w + x] : (float)(uchar)c->pic->v[y * c->pic->w + x])) V("image-changed", "the input image was modified by the detector");
                }
        nx_free(keys);
        nx_free(desc);
        nx_image_free(img);
        nx_sift_detector_free(det);
}
void compare(const Keys& got, const Keys& want, const char* cls, const char* what) {
        if (got.k.size() != want.k.size()) V(cls, "%s: %zu keypoints instead of %zu", what, got.k.size(), want.k.size());
        for (size_t i = 0; i < got.k.size(); ++i) if (!same_key(got.k[i], want.k[i])) V(cls, "%s: keypoint %zu of %zu differs (%g,%g sigma %g) vs (%g,%g sigma %g)", what, i, got.k.size(), got.k[i].xs, got.k[i].ys, got.k[i].sigma, want.k[i].xs, want.k[i].ys, want.k[i].sigma);
        if (got.d != want.d) V(cls, "%s: descriptors differ", what);
}
Call draw_call(const Pic* p, const NXSIFTDetectorParams& par, const char* dir) {
        Call c;
        c.pic = p; c.par = par; c.dir = dir; c.cached = true;
        c.pad = choose(3) ? 0 : choose(9);
        c.cap0 = choose(3) == 0 ? 0 : choose(3) == 0 ? 1 + choose(3) : 1 + choose(400);
        return c;
}
Keys uncached(const Pic* p, const NXSIFTDetectorParams& par) {
        Call c;
        c.pic = p; c.par = par; c.dir = nullptr; c.cached = false;
        c.pad = 0; c.cap0 = 512;
        run_clean("uncached sift", [&] { do_call(&c); });
        // the answer may not depend on heap content, padding, buffer capacity or detector history
        Call d = c;
        d.pad = choose(7); d.cap0 = choose(2) ? choose(5) : choose(600);
        knobs().junk_seed ^= 0x5bd1e995u * (1 + choose(1000));
        run_clean("uncached sift again", [&] { do_call(&d); });
        compare(d.out, c.out, "sift-not-deterministic", "the same image gave a different result with other padding, capacity and heap content");
        for (auto& k : c.out.k) {
                float x = nx_keypoint_xs0(&k), y = nx_keypoint_ys0(&k);
                float tol = 1.5f * k.scale + 0.01f;   // sub-pixel refinement may leave a one pixel border
                if (!(x >= -tol && y >= -tol && x <= p->w + tol && y <= p->h + tol)) V("keypoint-outside", "keypoint at (%g,%g) of a %dx%d image", x, y, p->w, p->h);
        }
        return c.out;
}
const char* draw_dir() {
        switch (choose(4)) {
        case 0: return nullptr;
        case 1: vfs_mkdir("/c"); return "/c";
        case 2: return "/newcache";
        default: vfs_mkdir("/a"); vfs_mkdir("/a/b"); return "/a/b/cc";
        }
}
const std::vector<Kind> CACHE_FAULTS = {K_OPEN_FAIL, K_WRITE_EIO, K_WRITE_ENOSPC, K_CLOSE_FAIL, K_READ_EIO, K_READ_EOF, K_DIR_FAIL, K_CRASH, K_CRASH, K_ALLOC_FAIL};

// Matching: the arrays live outside the simulated heap.
struct MCall {
        const Keys *a, *b;
        float ratio;
        const char* dir;
        bool cached;
        std::vector<NXPointMatch2D> out;
};
void do_match(MCall* c) {
        int n = (int)c->a->k.size(), np = (int)c->b->k.size();
        struct NXPointMatch2D* corr = NX_NEW(n + 1, struct NXPointMatch2D);
        NXPointMatch2D guard;
        memset(&guard, 0x5a, sizeof guard);
        memcpy(&corr[n], &guard, sizeof guard);
        int m = c->cached ? nx_sift_match_brute_force_with_cache(n, c->a->k.data(), c->a->d.data(), np, c->b->k.data(), c->b->d.data(), corr, c->ratio, c->dir)
                          : nx_sift_match_brute_force(n, c->a->k.data(), c->a->d.data(), np, c->b->k.data(), c->b->d.data(), corr, c->ratio);
        if (m < 0 || m > n) V("match-count", "%d matches for %d keypoints", m, n);
        if (memcmp(&corr[n], &guard, sizeof guard)) V("match-overrun", "matching wrote beyond the %d elements it may use", n);
        c->out.assign(corr, corr + m);
        nx_free(corr);
}
void compare_m(const std::vector<NXPointMatch2D>& got, const std::vector<NXPointMatch2D>& want, const char* cls, const char* what) {
        if (got.size() != want.size()) V(cls, "%s: %zu matches instead of %zu", what, got.size(), want.size());
        for (size_t i = 0; i < got.size(); ++i) if (!same_match(got[i], want[i])) V(cls, "%s: match %zu differs", what, i);
}
Keys draw_keys() {
        Keys k;
        int n = 1 + small(24);
        Rng r(choose(1u << 20));
        int fl = choose(4);
        k.k.resize(n); k.d.resize(n * NX_SIFT_DESC_DIM);
        memset(k.k.data(), 0, n * sizeof(NXKeypoint));
        if (fl == 0) return k;   // all zero
        for (int i = 0; i < n; ++i) {
                NXKeypoint& q = k.k[i];
                q.x = r.below(50); q.y = r.below(50); q.xs = q.x + 0.25f; q.ys = q.y - 0.25f; q.level = r.below(3); q.scale = 1 << q.level; q.sigma = 1.6f; q.score = r.unit(); q.ori = r.unit(); q.id = i;
                for (int j = 0; j < NX_SIFT_DESC_DIM; ++j) k.d[i * NX_SIFT_DESC_DIM + j] = fl == 1 ? r.below(256) : fl == 2 ? r.below(3) : (i % 3) * 20 + (r.below(9) == 0);
        }
        return k;
}

// generic driver over "jobs" whose right answer is known
struct Job {
        std::function<void(int slot)> run;          // inside an op; stores its output in slot
        std::function<void(int slot, const char* cls, const char* what)> judge;
};
void drive(const std::vector<Job>& jobs, const char* what) {
        int steps = 2 + choose(6);
        for (int s = 0; s < steps; ++s) {
                int mode = choose(8);
                const Job& j = jobs[choose(jobs.size())];
                if (mode <= 2) {             // plain call, then (maybe) again: must be right, second time without writing
                        run_clean("cached call", [&] { j.run(0); });
                        j.judge(0, "cached-result-differs", "a cached call returned something else than the uncached one");
                        OpResult r = run_clean("repeated cached call", [&] { j.run(0); });
                        j.judge(0, "cached-result-differs", "the repeated call returned something else than the uncached one");
                        if (r.ev[E_WRITE]) V("not-served-from-cache", "a repeated call wrote to the cache again");
                        probe("hit");
                } else if (mode <= 5) {      // under faults / crash
                        OpResult base;
                        Plan plan;
                        bool cold = chance(2, 3);
                        if (cold) {
                                for (auto& f : std::vector<std::string>{"/c", "/newcache", "/a/b/cc", "nx.cache"}) { auto l = vfs_list(f); for (auto& e : l) vfs().erase(vfs_norm(f + "/" + e)); if (chance(1, 2) && f != "/c") vfs().erase(vfs_norm(f)); }
                                auto keep = vfs();
                                base = run_clean("cached call", [&] { j.run(0); });
                                vfs() = keep;
                                for (auto& e : vfs()) if (!e.second->dir) e.second = std::make_shared<Node>(*e.second);
                        } else base = run_clean("cached call", [&] { j.run(0); });
                        plan = draw_plan(CACHE_FAULTS, base.ev, 2);
                        size_t e0 = sim_stderr().size();
                        OpResult r = run_op("cached call under faults", plan, [&] { j.run(0); });
                        if (r.ok()) j.judge(0, "wrong-under-faults", "a cached call under faults returned a wrong result");
                        else if (r.fatal()) { if (!r.hard) V("spurious-failure", "a cached call failed without a fault"); expect_orderly_fatal(r, "cached call", e0); }
                        if (r.how == OpResult::CRASHED) probe("crash");
                        hash_mix(r.how);
                        run_clean("call after the fault", [&] { j.run(0); });
                        j.judge(0, "wrong-after-faults", "after a failed or interrupted call the next one returned a wrong result");
                } else {                     // 2-3 processes at once
                        int np = 2 + choose(2);
                        std::vector<std::function<void()>> ts;
                        std::vector<const Job*> js;
                        bool crashy = chance(1, 3);
                        std::vector<OpResult> rs(np);
                        if (chance(1, 2)) for (auto& f : std::vector<std::string>{"/c", "/newcache", "/a/b/cc", "nx.cache"}) { auto l = vfs_list(f); for (auto& e : l) vfs().erase(vfs_norm(f + "/" + e)); if (chance(1, 2) && f != "/c") vfs().erase(vfs_norm(f)); }
                        std::vector<Plan> plans(np);
                        for (int i = 0; i < np; ++i) {
                                js.push_back(&jobs[chance(3, 4) ? 0 : choose(jobs.size())]);
                                if (crashy && chance(1, 2)) plans[i] = Plan::one(K_CRASH, choose(24), choose(9));
                        }
                        for (int i = 0; i < np; ++i) ts.push_back([&, i] { rs[i] = run_op("concurrent cached call", plans[i], [&, i] { js[i]->run(i); }); });
                        run_tasks(ts, 1 + choose(4));
                        for (int i = 0; i < np; ++i) {
                                hash_mix(rs[i].how);
                                if (rs[i].how == OpResult::CRASHED) continue;
                                if (!rs[i].ok()) V("concurrent-call-fails", "process %d of %d sharing the cache stopped although nothing failed: %.300s", i, np, sim_stderr().c_str());
                                js[i]->judge(i, "concurrent-result-differs", "a process sharing the cache with others got a wrong result");
                        }
                        probe("concurrent");
                        run_clean("call after concurrent ones", [&] { jobs[0].run(0); });
                        jobs[0].judge(0, "wrong-after-concurrency", "after concurrent calls the cache serves a wrong result");
                }
        }
        (void)what;
}
void key_scenario() {
        std::vector<Pic> pics(2);
        std::vector<NXSIFTDetectorParams> pars(2);
        pics[0] = draw_pic();
        pics[1] = variant_of(pics[0]);
        pars[0] = draw_params();
        pars[1] = pars[0];
        switch (choose(9)) { case 0: break; case 1: pars[1].magnification_factor++; break; case 2: pars[1].peak_threshold *= 1.5f; break; case 3: pars[1].double_image = !pars[1].double_image; break; case 4: pars[1].sigma0 *= 1.1f; break; case 5: pars[1].edge_threshold *= .5f; break; case 6: pars[1].kernel_truncation_factor *= .8f; break; case 7: pars[1].n_scales_per_octave += pars[1].n_scales_per_octave > 2 ? -1 : 1; break; default: pars[1].border_distance++; }
        const char* dir = draw_dir();
        struct S { int p, q; Keys want; };
        std::vector<S> s = {{0, 0, {}}, {1, 0, {}}, {0, 1, {}}};
        for (auto& x : s) x.want = uncached(&pics[x.p], pars[x.q]);
        op("sift %dx%d f32=%d, variant %dx%d f32=%d: %zu/%zu/%zu keys", pics[0].w, pics[0].h, pics[0].f32, pics[1].w, pics[1].h, pics[1].f32, s[0].want.k.size(), s[1].want.k.size(), s[2].want.k.size());
        if (!s[0].want.k.empty()) probe("keys>0");
        static Call out[4];
        std::vector<Job> jobs;
        for (auto& x : s) {
                Call c = draw_call(&pics[x.p], pars[x.q], dir);
                S* sp = &x;
                jobs.push_back({[c](int slot) { out[slot] = c; out[slot].out = Keys(); do_call(&out[slot]); },
                                [sp](int slot, const char* cls, const char* what) { compare(out[slot].out, sp->want, cls, what); }});
        }
        drive(jobs, "sift");
        // one detector used for a sequence of images gives the same as fresh ones
        if (chance(1, 3)) run_clean("reused detector", [&] {
                struct NXSIFTDetector* det = nx_sift_detector_new(pars[0]);
                int cap = 0;
                struct NXKeypoint* keys = nullptr;
                uchar* desc = nullptr;
                for (int i = 0; i < 3; ++i) {
                        struct NXImage* img = make_pic(pics[i % 2], i);
                        Keys g;
                        int n = nx_sift_detector_compute(det, img, &cap, &keys, &desc);
                        g.k.assign(keys, keys + n); g.d.assign(desc, desc + n * NX_SIFT_DESC_DIM);
                        compare(g, s[i % 2].want, "detector-reuse-differs", "a reused detector gave a different result");
                        nx_image_free(img);
                }
                nx_free(keys);
                nx_free(desc);
                nx_sift_detector_free(det);
        });
}
void match_scenario() {
        Keys a = draw_keys(), b = draw_keys();
        const char* dir = draw_dir();
        static const float rt[] = {0.8f, 0.0f, 0.5f, 1.0f, -1.0f};
        float r0 = rt[choose(5)], r1 = rt[choose(5)];
        struct S { const Keys *a, *b; float r; std::vector<NXPointMatch2D> want; };
        // the same but for one keypoint field or descriptor byte
        Keys a2 = a, b2 = b;
        Keys& e = choose(2) && !a2.k.empty() ? a2 : b2;
        if (!e.k.empty()) {
                size_t at = choose(3) ? choose(2) ? e.k.size() - 1 : 0 : choose((uint32_t)e.k.size());
                switch (choose(5)) {
                case 0: e.k[at].xs += 1.5f; break;
                case 1: e.k[at].ys -= 1.5f; break;
                case 2: e.k[at].id += 100000; break;
                case 3: e.k[at].scale *= 2; break;
                default: e.d[at * NX_SIFT_DESC_DIM + (choose(2) ? NX_SIFT_DESC_DIM - 1 : choose(NX_SIFT_DESC_DIM))] ^= 64; break;
                }
        }
        std::vector<S> s = {{&a, &b, r0, {}}, {&b, &a, r0, {}}, {&a, &b, r1, {}}, {&a2, &b2, r0, {}}};
        for (auto& x : s) {
                MCall c{x.a, x.b, x.r, nullptr, false, {}};
                run_clean("uncached match", [&] { do_match(&c); });
                x.want = c.out;
                // nearest-neighbour oracle
                size_t m = 0;
                for (size_t i = 0; i < x.a->k.size(); ++i) {
                        long d0 = INT_MAX, d1 = INT_MAX;
                        size_t bj = 0;
                        for (size_t j = 0; j < x.b->k.size(); ++j) {
                                long d = 0;
                                for (int t = 0; t < NX_SIFT_DESC_DIM; ++t) { long e = (long)x.a->d[i * NX_SIFT_DESC_DIM + t] - x.b->d[j * NX_SIFT_DESC_DIM + t]; d += e * e; }
                                if (d < d0) { d1 = d0; d0 = d; bj = j; } else if (d < d1) d1 = d;
                        }
                        bool ratio = x.r > 0 && x.r < 1;
                        double thr = (double)x.r * x.r * d1;
                        bool mine = m < x.want.size() && x.want[m].id == x.a->k[i].id;
                        if (ratio && std::fabs(d0 - thr) <= 1e-5 * thr + 1e-9 && !mine) continue;   // rounding decides
                        if (ratio && d0 > thr * (1 + 1e-5) + 1e-9) continue;
                        if (m >= x.want.size() || x.want[m].id != x.a->k[i].id || x.want[m].match_cost != (float)d0 || x.want[m].idp != x.b->k[bj].id) V("match-differs", "keypoint %zu is not matched to its nearest neighbour %zu (distance %ld)", i, bj, d0);
                        ++m;
                }
                if (m != x.want.size()) V("match-differs", "%zu matches instead of %zu", x.want.size(), m);
        }
        op("match %zu to %zu keys, ratio %g/%g", a.k.size(), b.k.size(), r0, r1);
        static MCall out[4];
        std::vector<Job> jobs;
        for (auto& x : s) {
                S* sp = &x;
                jobs.push_back({[sp, dir](int slot) { out[slot] = MCall{sp->a, sp->b, sp->r, dir, true, {}}; do_match(&out[slot]); },
                                [sp](int slot, const char* cls, const char* what) { compare_m(out[slot].out, sp->want, cls, what); }});
        }
        drive(jobs, "match");
}
void run() {
        draw_knobs();
        if (choose(2)) match_scenario(); else key_scenario();
}
Reg reg({"C07", run,
         "one run = one cache directory (existing, missing, nested or default), three related jobs (image and look-alike image, two parameter sets; or three matchings of drawn descriptor sets) whose uncached answer is "
         "known, and 2-7 steps: plain and repeated calls, calls with open/write/disk-full/close/read/directory/allocation faults or a crash at a drawn step followed by a fault-free call, or 2-3 processes interleaved at "
         "every I/O step (some crashing); non-trivial = a fault, crash, preemption or short transfer happened; distinct = different seam event/fault/outcome sequence",
         12000, 120000});
}
