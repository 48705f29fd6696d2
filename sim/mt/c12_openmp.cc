// C12: affine warps under an OpenMP runtime whose team size, schedule and
// preemption points the simulator controls.
#include "../checks/util.h"
#include "../checks/pic.h"
#include "rt.h"
extern "C" {
#include "virg/nexus/nx_affine_warp_processor.h"
}
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/nx_image.h"

namespace {
struct Out { int w = 0, h = 0; std::vector<float> px; double f[6], i[6]; };
struct Job {
        Pic a{1, 1, 1, false};
        struct NXAffineWarpParam p;
        int bg, color;
        float post;
};
Job draw_job(Rng& r) {
        Job j;
        int w = 1 + small(40), h = 1 + small(40);
        j.a = Pic(w, h, 1, false);
        fill_pic(j.a, choose(4), r);
        j.p.scale = choose(3) == 0 ? 1 : .5 + 1.5 * r.unit();
        j.p.planar_angle = choose(4) == 0 ? 0 : (r.unit() - .5) * 2 * M_PI;
        j.p.tilt = choose(3) == 0 ? 1 : 1 + 1.5 * r.unit();
        j.p.tilt_angle = choose(3) == 0 ? 0 : (r.unit() - .5) * 2 * M_PI;
        j.bg = choose(3);
        j.color = choose(256);
        j.post = choose(2) ? 0 : (float)(r.unit() * 1.5);
        return j;
}
void warp(struct NXAffineWarpProcessor* w, const Job& j, struct NXImage* s, uint32_t seed, Out& o) {
        if (j.bg == 0) nx_affine_warp_processor_set_bg_fixed(w, (uchar)j.color);
        else if (j.bg == 1) nx_affine_warp_processor_set_bg_repeat(w);
        else nx_affine_warp_processor_set_bg_noise(w);
        nx_affine_warp_processor_set_post_blur_sigma(w, j.post);
        nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), seed);
        nx_affine_warp_processor_warp(w, s, j.p);
        const struct NXImage* q = nx_affine_warp_processor_warp_result(w);
        o.w = q->width; o.h = q->height;
        o.px = pixels_of(q);
        memcpy(o.f, nx_affine_warp_processor_forward_transform(w), sizeof o.f);
        memcpy(o.i, nx_affine_warp_processor_inverse_transform(w), sizeof o.i);
}
void run() {
        draw_knobs();
        mt::reset();
        Rng r(bits64());
        int n = 1 + choose(2);
        std::vector<Job> js;
        for (int i = 0; i < n; ++i) js.push_back(draw_job(r));
        uint32_t seed = (uint32_t)r.next();
        std::vector<Out> ref(n);
        run_clean("warp-serial", [&] {
                nx_uniform_sampler_instance();
                for (int i = 0; i < n; ++i) {
                        struct NXAffineWarpProcessor* w = nx_affine_warp_processor_new();
                        Im s = make_im(js[i].a, 0, r);
                        warp(w, js[i], s.p, seed + i, ref[i]);
                        free_im(s);
                        nx_affine_warp_processor_free(w);
                }
        });
        static const uint32_t means[] = {5, 20, 80, 400, 2000, 20000};
        mt::omp_max = 1 + range(1, 3);
        mt::omp_granted = choose(4) ? mt::omp_max : 1 + (int)choose(mt::omp_max);
        mt::omp_acc_mean = means[choose(6)];
        op("OpenMP: %d threads announced, %d granted, preemption every %u accesses", mt::omp_max, mt::omp_granted, mt::omp_acc_mean);
        if (mt::omp_granted < mt::omp_max) probe("fewer threads granted");
        knobs().junk_seed = r.next();
        struct NXAffineWarpProcessor* w = nullptr;
        auto body = [&] {
                w = nx_affine_warp_processor_new();
                for (int i = 0; i < n; ++i) {
                        Im s = make_im(js[i].a, choose(4), r);
                        Out o;
                        warp(w, js[i], s.p, seed + i, o);
                        const Out& e = ref[i];
                        if (o.w != e.w || o.h != e.h || memcmp(o.f, e.f, sizeof o.f) || memcmp(o.i, e.i, sizeof o.i))
                                V("result@warp-parallel", "with %d threads the result is %dx%d instead of %dx%d or its transforms differ", mt::omp_granted, o.w, o.h, e.w, e.h);
                        for (size_t k = 0; k < o.px.size(); ++k)
                                if (o.px[k] != e.px[k]) V("result@warp-parallel", "with %d threads pixel (%d,%d) of %dx%d is %g instead of %g", mt::omp_granted, (int)(k % o.w), (int)(k / o.w), o.w, o.h, o.px[k], e.px[k]);
                        for (float v : o.px) hash_mix((uint64_t)v);
                        same_source("warp-parallel", s, js[i].a);
                        free_im(s);
                }
                nx_affine_warp_processor_free(w);
        };
        OpResult c = run_clean("warp-parallel", body);
        if (c.leaked_allocs) V("leak@warp-parallel", "%zu blocks are left", c.leaked_allocs);
        if (mt::n_chunks) probe("iterations handed to threads");
        if (chance(1, 3)) {             // memory runs out somewhere in a parallel warp
                Plan p = draw_plan({K_ALLOC_FAIL, K_ALLOC_STICKY}, c.ev, 1);
                sim_stderr().clear();
                OpResult f = run_op("warp-parallel", p, body);
                if (f.fatal()) {
                        if (f.code != -99) V("exit-status@warp-parallel", "out of memory ends with status %d", f.code);
                        if (sim_stderr().find("[F]") == std::string::npos) V("undiagnosed@warp-parallel", "no diagnostic when memory runs out");
                        probe("memory ran out in a parallel warp");
                } else if (f.hard) V("unreported@warp-parallel", "an allocation failed but the warp went on");
        }
}
Reg reg({"C12", run,
         "every affine warp (geometry, filters, backgrounds, reuse) executed by 2-4 simulated OpenMP threads with seeded chunk assignment, team sizes and preemption at single memory accesses gives exactly the result of one thread, "
         "without unordered conflicting accesses, leaks or unreported allocation failures", 36000, 800000});
}  // namespace
