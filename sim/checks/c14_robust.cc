// C14: robust estimators (USAC core, RANSAC homographies and fundamental
// matrices) under every random stream, clock seed and heap content.
#include "util.h"
#include "virg/nexus/nx_epipolar.h"
#include "virg/nexus/nx_homography.h"
#include "virg/nexus/nx_point_match_2d.h"
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/nx_usac.h"
#include "virg/nexus/nx_usac_homography.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/vg_fundamental_matrix.hpp"
#include "virg/nexus/vg_homography.hpp"
#include "virg/nexus/vg_point_correspondence_2d.hpp"

using namespace virg::nexus;
typedef struct NXPointMatch2D PM;

namespace {
// ------------------------------------------------------------ USAC core
struct Script {
        uint64_t seed;
        int iters, m, ns;
        int iter;                       // termination calls that said "go on"
        int next_id;
        int it_fit;
        uint32_t pn[6];                 // per-decision odds (of 8)
        std::vector<double> score_of;   // unused for hashing
        double exp_score;
        std::vector<double> exp_model;
        const char* err;
        char errbuf[200];
        int last_sample;
        bool fit_pending;
};
Script* S;
uint64_t hh(uint64_t a, uint64_t b, uint64_t salt) { Rng r(a * 1000003 + b * 31 + salt); r.next(); return r.next(); }
double score_of(double id) {
        uint64_t h = hh(S->seed, (uint64_t)id, 1);
        switch (S->pn[5]) {
        case 0: return (double)(h % 5);                 // many ties
        case 1: return -1.0 - (double)(h % 1000);       // negative only
        case 2: return (double)(h % 100000) / 7.0;
        default: return (double)id;                     // every model better than the one before
        }
}
bool coin(double id, int k) { return hh(S->seed, (uint64_t)id, 10 + k) % 8 >= S->pn[k]; }
void fill_model(double* mo, double id) { for (int i = 0; i < S->m; ++i) mo[i] = i == 0 ? id : (double)(hh(S->seed, (uint64_t)id, 50 + i) % 1000); }
void fail(const char* f, double a, double b) { if (!S->err) { snprintf(S->errbuf, sizeof S->errbuf, f, a, b); S->err = S->errbuf; } }
void verify_model(const double* mo, const char* who) {
        if (mo[0] == 0) { for (int i = 0; i < S->m; ++i) if (mo[i] != 0) { fail("partly written model handed to a callback (%g %g)", mo[0], mo[i]); } return; }
        for (int i = 1; i < S->m; ++i) if (mo[i] != (double)(hh(S->seed, (uint64_t)mo[0], 50 + i) % 1000)) { fail("model %g handed to a callback has a wrong element %g", mo[0], i); return; }
        (void)who;
}
// ids: base model i of iteration t -> t*64+i+1 ; refined: id + 1e6 ; global refinement of id: id + 2e6
enum { REF = 1000000, GLOB = 2000000 };
int n_models_of(int t) { uint64_t h = hh(S->seed, t, 3); return (int)(h % 4 + (h / 4 % 6 ? 0 : h / 24 % 9)); }
NXBool t_term(const double* bm, double bs, void* d) {
        verify_model(bm, "termination");
        if (S->exp_model[0] != bm[0] || S->exp_score != bs) fail("termination test was shown model %g instead of the best so far, %g", bm[0], S->exp_model[0]);
        if (S->iter >= S->iters) return NX_TRUE;
        S->iter++;
        return NX_FALSE;
        (void)d;
}
void advance_reference(int t) {
        if (!coin(t, 0)) return;
        for (int i = 0; i < n_models_of(t); ++i) {
                double id = t * 64 + i + 1;
                if (!coin(id, 1)) continue;
                double sc = score_of(id);
                if (!(sc > S->exp_score)) continue;
                if (!coin(id, 2)) continue;
                double bid = id, bsc = sc;
                if (coin(id, 3)) { double s2 = score_of(id + REF); if (s2 > sc) { bid = id + REF; bsc = s2; } }
                S->exp_score = bsc;
                fill_model(S->exp_model.data(), bid);
        }
}
void t_sample(int* ids, void* d) {
        for (int i = 0; i < S->ns; ++i) ids[i] = S->iter * 100 + i;
        S->last_sample = S->iter;
        // the reference moves on as soon as the iteration is determined
        (void)d;
}
NXBool t_scheck(const int* ids, void* d) {
        if (ids[0] != S->iter * 100) fail("sample check got sample %g instead of %g", ids[0], S->iter * 100.0);
        bool ok = coin(S->iter, 0);
        if (!ok) probe("sample_rejected");
        return ok;
        (void)d;
}
int t_fit(int* maxm, double** models, const int* ids, void* d) {
        if (!coin(S->iter, 0)) fail("a rejected sample (%g) was fitted %g", S->iter, 0);
        for (int i = 0; i < S->ns; ++i) if (ids[i] != S->iter * 100 + i) fail("fit got sample id %g at %g", ids[i], i);
        int n = n_models_of(S->iter);
        if (n > *maxm) {
                double* nm = NX_NEW_D(n * S->m);
                nx_free(*models);
                *models = nm;
                *maxm = n;
                probe("models_grow");
        }
        for (int i = 0; i < n; ++i) fill_model(*models + i * S->m, S->iter * 64 + i + 1);
        advance_reference(S->iter);
        return n;
        (void)d;
}
NXBool t_mcheck(double* mo, const int*, void*) { verify_model(mo, "check"); return coin(mo[0], 1); }
double t_score(double* mo, const int*, void*) {
        verify_model(mo, "score");
        double id = mo[0];
        if (id > 0 && id < REF && !coin(id, 1)) fail("rejected model %g was scored %g", id, 0);
        return score_of(id);
}
NXBool t_degen(double* mo, const int*, void*) { verify_model(mo, "degeneracy"); return coin(mo[0], 2); }
NXBool t_local(double* nm, const double* mo, const int*, void*) {
        verify_model(mo, "local");
        if (!coin(mo[0], 3)) { if (hh(S->seed, mo[0], 9) & 1) fill_model(nm, mo[0] + REF + 7); return NX_FALSE; }
        fill_model(nm, mo[0] + REF);
        probe("local_refinement");
        return NX_TRUE;
}
void t_global(double* nm, const double* mo, void*) {
        verify_model(mo, "global");
        if (mo[0] != S->exp_model[0]) fail("global refinement started from model %g, not from the best one %g", mo[0], S->exp_model[0]);
        fill_model(nm, mo[0] + GLOB);
}
void usac_core() {
        static Script sc;
        sc = Script();
        S = &sc;
        sc.seed = choose(1 << 24);
        sc.iters = small(60);
        sc.m = 1 + choose(12);
        sc.ns = 1 + choose(8);
        for (int i = 0; i < 5; ++i) sc.pn[i] = choose(8);
        sc.pn[5] = choose(4);
        sc.exp_score = -1.7976931348623157e308;
        sc.exp_model.assign(sc.m, 0.0);
        op("usac core iters %d m %d samples %d", sc.iters, sc.m, sc.ns);
        static std::vector<double> best;
        best.assign(sc.m, 123.0);
        double ret = 0;
        Plan p;
        if (chance(1, 6)) { p = Plan::one(K_ALLOC_FAIL, choose(4)); }
        size_t e0 = sim_stderr().size();
        OpResult r = run_op("usac", p, [&] {
                struct NXUSACConfig c;
                memset(&c, 0, sizeof c);
                c.sampling_fn = t_sample; c.sample_check_fn = t_scheck; c.model_fit_fn = t_fit; c.model_check_fn = t_mcheck;
                c.model_score_fn = t_score; c.degeneracy_check_fn = t_degen; c.local_refinement_fn = t_local; c.global_refinement_fn = t_global; c.termination_fn = t_term;
                ret = nx_usac(sc.m, best.data(), sc.ns, &c, NULL);
        });
        if (sc.err) V("usac-protocol", "%s", sc.err);
        if (r.fatal()) { if (!r.hard) V("usac-fatal", "stopped without a fault"); expect_orderly_fatal(r, "usac", e0); return; }
        double bs = sc.exp_score;
        std::vector<double> bm = sc.exp_model;
        double gid = bm[0] + GLOB, gs = score_of(gid);
        if (gs > bs) { bs = gs; fill_model(bm.data(), gid); probe("global_better"); }
        if (sc.iter != sc.iters) V("usac-termination", "stopped after %d of %d iterations", sc.iter, sc.iters);
        if (ret != bs) V("usac-score", "returned score %g, the best model scored %g", ret, bs);
        for (int i = 0; i < sc.m; ++i) if (best[i] != bm[i]) V("usac-model", "returned model %g instead of the best one %g (element %d)", best[0], bm[0], i);
        if (r.leaked_allocs) V("usac-leak", "%zu allocations leaked", r.leaked_allocs);
        hash_mix((uint64_t)bm[0]);
}

// --------------------------------------------------------------- estimators
enum Est { H_RANSAC, H_NORM, H_USAC, H_VG, F_RANSAC, F_NORM, F_VG, NEST };
const char* est_name[] = {"homography ransac", "homography norm ransac", "usac homography", "VGHomography", "fundamental ransac", "fundamental norm ransac", "VGFundamentalMatrix"};
bool is_f(int e) { return e >= F_RANSAC; }
bool is_norm(int e) { return e == H_NORM || e == F_NORM; }
struct Out { int ret; double h[9]; std::vector<PM> l; };
void call(int e, Out* o, int n, double tol, int iters) {
        PM* l = o->l.data();
        switch (e) {
        case H_RANSAC: o->ret = nx_homography_estimate_ransac(o->h, n, l, tol, iters); break;
        case H_NORM: o->ret = nx_homography_estimate_norm_ransac(o->h, n, l, tol, iters); break;
        case H_USAC: o->ret = nx_usac_estimate_homography(o->h, n, l, tol, iters); break;
        case F_RANSAC: o->ret = nx_fundamental_estimate_ransac(o->h, n, l, tol, iters); break;
        case F_NORM: o->ret = nx_fundamental_estimate_norm_ransac(o->h, n, l, tol, iters); break;
        default: {
                VGPointCorrespondence2D c;
                for (int i = 0; i < n; ++i) c.add_match(l[i].id, l[i].x[0], l[i].x[1], l[i].sigma_x, l[i].idp, l[i].xp[0], l[i].xp[1], l[i].sigma_xp, l[i].match_cost, l[i].is_inlier);
                if (e == H_VG) {
                        VGHomography H;
                        H.set(o->h);
                        o->ret = H.estimate_ransac(c, tol, iters);
                        memcpy(o->h, H.data(), sizeof o->h);
                } else {
                        VGFundamentalMatrix F;
                        F.set(o->h);
                        o->ret = F.estimate_ransac(c, tol, iters);
                        memcpy(o->h, F.data(), sizeof o->h);
                }
                for (int i = 0; i < n; ++i) l[i] = c[i];
        }
        }
}
void proj(const double* h, const double* x, double* xp) {
        double s = h[2] * x[0] + h[5] * x[1] + h[8];
        xp[0] = (h[0] * x[0] + h[3] * x[1] + h[6]) / s;
        xp[1] = (h[1] * x[0] + h[4] * x[1] + h[7]) / s;
}
double dist_of(int e, const double* h, const PM& p) {
        if (is_f(e)) {
                double l0 = h[0] * p.x[0] + h[3] * p.x[1] + h[6], l1 = h[1] * p.x[0] + h[4] * p.x[1] + h[7], l2 = h[2] * p.x[0] + h[5] * p.x[1] + h[8];
                return std::fabs(l0 * p.xp[0] + l1 * p.xp[1] + l2) / std::sqrt(l0 * l0 + l1 * l1);
        }
        double x[2] = {p.x[0], p.x[1]}, q[2];
        proj(h, x, q);
        return std::hypot(q[0] - p.xp[0], q[1] - p.xp[1]);
}
// 1 = clearly not mirrored and little skewed, -1 = clearly mirrored/folded or very skewed, 0 = unclear
int judge_h(const double* h) {
        double c[4][2], sc[4];
        static const int q[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
        for (int i = 0; i < 4; ++i) {
                double x[2] = {(double)q[i][0], (double)q[i][1]};
                sc[i] = h[2] * x[0] + h[5] * x[1] + h[8];
                proj(h, x, c[i]);
                if (!std::isfinite(c[i][0]) || !std::isfinite(c[i][1])) return 0;
        }
        for (int i = 1; i < 4; ++i) if (sc[i] * sc[0] <= 0) return 0;
        double ac[2] = {c[2][0] - c[0][0], c[2][1] - c[0][1]}, bd[2] = {c[3][0] - c[1][0], c[3][1] - c[1][1]};
        double la = std::hypot(ac[0], ac[1]), lb = std::hypot(bd[0], bd[1]);
        if (la < 1e-9 || lb < 1e-9) return 0;
        double sn = (ac[0] * bd[1] - ac[1] * bd[0]) / (la * lb), cs = std::fabs((ac[0] * bd[0] + ac[1] * bd[1]) / (la * lb));
        // the convex square keeps its orientation when its diagonals cross positively
        double sb = ((c[1][0] - c[0][0]) * ac[1] - (c[1][1] - c[0][1]) * ac[0]) / la, sd = ((c[3][0] - c[0][0]) * ac[1] - (c[3][1] - c[0][1]) * ac[0]) / la;
        if (sb > 0.02 * lb && sd < -0.02 * lb && cs < 0.93 && sn > 0) return 1;
        if (sn < -0.1 && sb < -0.02 * lb && sd > 0.02 * lb) return -1;
        if (cs > 0.9985) return -1;
        return 0;
}
struct Data { std::vector<PM> l; double h[9]; int n_true; double tol; };
void make_h(Rng& r, double* h, bool flip) {
        double s = std::exp((r.unit() - 0.5) * 2.2), th = (r.unit() - 0.5) * 6.28, an = 0.7 + 0.6 * r.unit(), sk = (r.unit() - 0.5) * 0.4;
        double a = s * std::cos(th), b = s * std::sin(th);
        // columns of a rotation-scale, anisotropic and slightly skewed
        h[0] = a; h[1] = b; h[2] = (r.unit() - 0.5) * 4e-4;
        h[3] = -b * an + sk * a; h[4] = a * an + sk * b; h[5] = (r.unit() - 0.5) * 4e-4;
        if (flip) { h[3] = -h[3]; h[4] = -h[4]; }
        h[6] = (r.unit() - 0.5) * 400; h[7] = (r.unit() - 0.5) * 400; h[8] = 1;
}
void finish_match(Rng& r, PM* p, int i, int cost_mode, bool inl) {
        p->sigma_x = 1 + r.unit(); p->sigma_xp = 1 + r.unit();
        p->id = ((uint64_t)r.next() << 20) + i; p->idp = r.next();
        p->is_inlier = r.below(2);
        switch (cost_mode) {
        case 0: p->match_cost = r.unit(); break;
        case 1: p->match_cost = r.below(3); break;                      // ties
        case 2: p->match_cost = inl ? 5 + r.unit() : r.unit(); break;   // outliers look best
        default: p->match_cost = inl ? r.unit() : 5 + r.unit();
        }
}
void make_data(int e, Rng& r, int n, double ratio, int cost_mode, bool flip, Data* d) {
        d->l.clear();
        d->n_true = 0;
        double R[9], t[3], f = 500, cx = 320, cy = 240;
        bool pix = e == F_NORM;
        if (is_f(e)) {
                double ax = (r.unit() - 0.5) * 0.5, ay = (r.unit() - 0.5) * 0.5, az = (r.unit() - 0.5) * 0.8;
                double ca = cos(ax), sa = sin(ax), cb = cos(ay), sb = sin(ay), cc = cos(az), sc = sin(az);
                double M[9] = {cc * cb, cc * sb * sa - sc * ca, cc * sb * ca + sc * sa, sc * cb, sc * sb * sa + cc * ca, sc * sb * ca - cc * sa, -sb, cb * sa, cb * ca};
                memcpy(R, M, sizeof R);
                t[0] = (r.below(2) ? 1 : -1) * (0.6 + r.unit()); t[1] = (r.unit() - 0.5) * 1.5; t[2] = (r.unit() - 0.5) * 0.5;
                d->tol = pix ? 1.0 : 0.004;
        } else {
                make_h(r, d->h, flip);
                d->tol = 1.0 + 2 * r.unit();
        }
        for (int i = 0; i < n; ++i) {
                bool inl = i < (int)std::ceil(ratio * n);
                PM p;
                memset(&p, 0, sizeof p);
                for (int tries = 0;; ++tries) {
                        if (is_f(e)) {
                                double X[3] = {(r.unit() - 0.5) * 5, (r.unit() - 0.5) * 5, 3 + 5 * r.unit()};
                                double Y[3];
                                for (int k = 0; k < 3; ++k) Y[k] = R[3 * k] * X[0] + R[3 * k + 1] * X[1] + R[3 * k + 2] * X[2] + t[k];
                                if (Y[2] < 1) continue;
                                double x[2] = {X[0] / X[2], X[1] / X[2]}, y[2] = {Y[0] / Y[2], Y[1] / Y[2]};
                                if (!inl) {
                                        // move the second point well off its epipolar line
                                        double E0[3] = {R[0] * x[0] + R[1] * x[1] + R[2], R[3] * x[0] + R[4] * x[1] + R[5], R[6] * x[0] + R[7] * x[1] + R[8]};
                                        double l[3] = {t[1] * E0[2] - t[2] * E0[1], t[2] * E0[0] - t[0] * E0[2], t[0] * E0[1] - t[1] * E0[0]};
                                        y[0] = (r.unit() - 0.5) * 3; y[1] = (r.unit() - 0.5) * 3;
                                        double dd = std::fabs(l[0] * y[0] + l[1] * y[1] + l[2]) / std::hypot(l[0], l[1]);
                                        if (dd < 0.08) continue;
                                }
                                double s = pix ? f : 1;
                                p.x[0] = s * x[0] + (pix ? cx : 0); p.x[1] = s * x[1] + (pix ? cy : 0);
                                p.xp[0] = s * y[0] + (pix ? cx : 0); p.xp[1] = s * y[1] + (pix ? cy : 0);
                        } else {
                                double x[2] = {(float)(r.unit() * 640), (float)(r.unit() * 480)}, q[2];
                                proj(d->h, x, q);
                                p.x[0] = x[0]; p.x[1] = x[1];
                                if (!inl) {
                                        double a = r.unit() * 6.28, rad = 12 * d->tol + r.unit() * 300;
                                        q[0] += rad * cos(a); q[1] += rad * sin(a);
                                }
                                p.xp[0] = q[0]; p.xp[1] = q[1];
                        }
                        break;
                }
                finish_match(r, &p, i, cost_mode, inl);
                if (inl) d->n_true++;
                d->l.push_back(p);
        }
        // stored order is independent of quality
        for (int i = n - 1; i > 0; --i) std::swap(d->l[i], d->l[r.below(i + 1)]);
}
bool same_list(const std::vector<PM>& a, const std::vector<PM>& b, int n) {
        for (int i = 0; i < n; ++i)
                if (memcmp(a[i].x, b[i].x, 8) || memcmp(a[i].xp, b[i].xp, 8) || a[i].match_cost != b[i].match_cost || a[i].id != b[i].id || a[i].idp != b[i].idp || (a[i].is_inlier != 0) != (b[i].is_inlier != 0)) return false;
        return true;
}
// up to the rounding of a linear algebra library that looks at alignments
bool same_model(const double* a, const double* b) {
        double m = 0, d = 0;
        for (int i = 0; i < 9; ++i) { m = std::max(m, std::fabs(a[i])); d = std::max(d, std::fabs(a[i] - b[i])); }
        return d <= 1e-6 * m;
}
const PM* find_id(const std::vector<PM>& l, uint64_t id) { for (auto& p : l) if (p.id == id) return &p; return NULL; }
void judge(int e, const Data& d, const Out& o, int n, double tol, bool degen) {
        const char* nm = est_name[e];
        int need = is_f(e) ? 8 : 4;
        // the matches are still the caller's matches
        std::vector<char> seen(n, 0);
        for (int i = 0; i < n; ++i) {
                const PM& p = o.l[i];
                int k = -1;
                for (int j = 0; j < n; ++j) if (d.l[j].id == p.id) k = j;
                if (k < 0 || seen[k]) V((std::string("matches-lost@") + nm).c_str(), "match %d of %d is %s after the call", i, n, k < 0 ? "not one of the caller's" : "duplicated");
                seen[k] = 1;
                const PM& q = d.l[k];
                bool same;
                if (is_norm(e)) {
                        double mag = 1;
                        for (auto& z : d.l) for (int c = 0; c < 2; ++c) mag = std::max(mag, (double)std::max(std::fabs(z.x[c]), std::fabs(z.xp[c])));
                        double eps = 1e-5 * mag;
                        same = std::fabs(p.x[0] - q.x[0]) <= eps && std::fabs(p.x[1] - q.x[1]) <= eps && std::fabs(p.xp[0] - q.xp[0]) <= eps && std::fabs(p.xp[1] - q.xp[1]) <= eps &&
                               std::fabs(p.sigma_x - q.sigma_x) < 1e-5 * q.sigma_x && std::fabs(p.sigma_xp - q.sigma_xp) < 1e-5 * q.sigma_xp;
                } else same = !memcmp(p.x, q.x, sizeof p.x) && !memcmp(p.xp, q.xp, sizeof p.xp) && p.sigma_x == q.sigma_x && p.sigma_xp == q.sigma_xp;
                if (!same || p.idp != q.idp || p.match_cost != q.match_cost) V((std::string("match-altered@") + nm).c_str(), "match %d: (%.9g,%.9g)-(%.9g,%.9g) became (%.9g,%.9g)-(%.9g,%.9g)", i, q.x[0], q.x[1], q.xp[0], q.xp[1], p.x[0], p.x[1], p.xp[0], p.xp[1]);
                if (n >= need && i && o.l[i - 1].match_cost > p.match_cost) V((std::string("not-sorted@") + nm).c_str(), "matches %d and %d are not in order of match cost", i - 1, i);
        }
        if (n < need) { if (o.ret != 0) V((std::string("too-few@") + nm).c_str(), "%d matches gave %d inliers", n, o.ret); probe("too_few"); return; }
        int fl = 0;
        for (auto& p : o.l) fl += p.is_inlier != 0;
        if (o.ret != fl && !(o.ret == 0 && !is_f(e))) V((std::string("count-wrong@") + nm).c_str(), "returned %d inliers but %d matches are flagged", o.ret, fl);
        bool fin = true;
        for (int i = 0; i < 9; ++i) fin = fin && std::isfinite(o.h[i]);
        if (fin) {
                double nrm = 0;
                for (int i = 0; i < 9; ++i) nrm += o.h[i] * o.h[i];
                nrm = std::sqrt(nrm);
                // (distances to a nearly vanishing line or to the image of a vanishing denominator are rounding noise)
                if (nrm > 0 && !degen && (o.ret > 0 || !is_norm(e))) for (auto& p : o.l) {
                        double dd = dist_of(e, o.h, p);
                        if (!std::isfinite(dd)) continue;
                        double band = is_norm(e) ? 0.02 * tol + 2e-3 * (is_f(e) && e != F_NORM ? 0.01 : 1) : 1e-3 * tol + 2e-3 * (is_f(e) ? 0.001 : 1);
                        if (p.is_inlier && dd > tol + band) V((std::string("false-inlier@") + nm).c_str(), "a match at distance %.9g from the returned model is flagged as inlier (tolerance %.9g)", dd, tol);
                        if (!p.is_inlier && dd < tol - band) V((std::string("false-outlier@") + nm).c_str(), "a match at distance %.9g from the returned model is not flagged as inlier (tolerance %.9g)", dd, tol);
                }
                if (is_f(e) && !is_norm(e) && o.ret > 0) {
                        const double* f = o.h;
                        double det = f[0] * (f[4] * f[8] - f[5] * f[7]) - f[3] * (f[1] * f[8] - f[2] * f[7]) + f[6] * (f[1] * f[5] - f[2] * f[4]);
                        if (std::fabs(det) > 1e-9 * nrm * nrm * nrm) V((std::string("rank@") + nm).c_str(), "the fundamental matrix has determinant %g", det);
                }
                if (!is_f(e) && e != H_NORM && nrm > 0) {
                        int j = judge_h(o.h);
                        if (j > 0 && o.ret != fl) V((std::string("good-model-denied@") + nm).c_str(), "a well-shaped homography with %d inliers was reported as a failure", fl);
                        if (j < 0 && o.ret != 0) V((std::string("bad-model-accepted@") + nm).c_str(), "a mirrored or collapsed homography was reported with %d inliers", o.ret);
                }
        } else if (o.ret > 0) V((std::string("not-finite@") + nm).c_str(), "%d inliers reported for a non-finite model", o.ret);
}
void estimators() {
        int e = choose(NEST);
        Rng r(choose(1 << 24));
        int mode = choose(9);
        int cost = choose(4);
        int need = is_f(e) ? 8 : 4;
        Data d;
        int n, iters;
        bool expect_all = false, flip = false;
        double ratio = 1;
        switch (mode) {
        case 0: n = choose(need); iters = choose(20); break;                                        // too few
        case 1: n = need; iters = e == H_USAC ? 2 : 1; expect_all = true; break;                     // a minimal sample must be used whole
        case 2: n = need + 1 + choose(60); iters = 30 + choose(100); expect_all = true; break;       // exact data
        case 3: n = 20 + choose(80); ratio = is_f(e) ? 0.8 : 0.6; iters = 400; expect_all = true; break;
        case 4: n = need + choose(40); ratio = (double)choose(10) / 10; iters = choose(60); break;   // anything
        case 5: n = 12 + choose(20); iters = 60; flip = !is_f(e); break;                             // mirrored: must be refused
        case 6: n = need + choose(300); iters = 40 + choose(40); ratio = 0.95; break;                // early stop on many inliers
        case 8: n = 30 + choose(90); ratio = is_f(e) ? 0.8 : 0.6; iters = 500; expect_all = true; break;   // a second, smaller consensus
        default: n = need + choose(30); iters = choose(40); break;                                   // degenerate geometry
        }
        make_data(e, r, n, ratio, cost, flip, &d);
        if (mode == 8 && !is_f(e)) {
                double h2[9];
                make_h(r, h2, false);
                for (auto& p : d.l) {
                        double x[2] = {p.x[0], p.x[1]}, y[2], z[2];
                        proj(d.h, x, y);
                        if (std::hypot(y[0] - p.xp[0], y[1] - p.xp[1]) < 0.01) continue;
                        proj(h2, x, z);
                        if (std::hypot(y[0] - z[0], y[1] - z[1]) < 12 * d.tol) continue;
                        p.xp[0] = z[0]; p.xp[1] = z[1];
                }
                probe("second_consensus");
        }
        if ((mode == 4 || mode == 6) && chance(1, 2)) {         // matches around the tolerance
                for (auto& p : d.l) for (int c = 0; c < 2; ++c) p.xp[c] += (float)((r.unit() - 0.5) * 3 * d.tol);
                probe("noisy_data");
        }
        if (mode == 7 && n > 0) {
                int k = choose(4);
                for (int i = 0; i < n; ++i) {
                        PM& p = d.l[i];
                        if (k == 0) { p.x[0] = p.x[1] = 5; p.xp[0] = 7; p.xp[1] = 9; }                  // coincident
                        else if (k == 1) { p.x[1] = 2 * p.x[0] + 1; p.xp[1] = -p.xp[0]; }               // collinear
                        else if (k == 2) { p.x[0] = i % 2; p.x[1] = 0; p.xp[0] = i % 3; p.xp[1] = 1; }  // few places
                        else { p.x[0] = p.x[1] = 5; }
                }
                probe("degenerate_data");
        }
        if (chance(1, 4)) { knobs().rand_extremes = 1 + choose(40); knobs().rand_seed = choose(1 << 24); }
        knobs().wall0 = 1000000000 + choose(1u << 30);
        double tol = d.tol;
        op("%s mode %d n %d ratio %.2f iters %d cost %d", est_name[e], mode, n, ratio, iters, cost);
        // the number of iterations needed assumes fair words
        if (knobs().rand_extremes && (mode == 3 || mode == 8)) expect_all = false;
        static Out o, o2;
        uint64_t rs = knobs().rand_seed;
        auto go = [&](Out* out, double fill, const Plan& p) {
                out->l = d.l;
                out->l.reserve(n + 1);
                out->ret = -1;
                for (int i = 0; i < 9; ++i) out->h[i] = fill;
                g_sim_ns = 0;
                knobs().rand_seed = rs;
                nx_uniform_sampler_instance_free();
                return run_op(est_name[e], p, [&] { call(e, out, n, tol, iters); });
        };
        size_t e0 = sim_stderr().size();
        OpResult q = go(&o, 0.25, Plan::none());
        if (!q.ok()) V((std::string("unexpected-exit@") + est_name[e]).c_str(), "the estimator stopped the process");
        judge(e, d, o, n, tol, mode == 7);
        if (expect_all) {
                bool ok = true;
                if (is_f(e) && mode == 1) {
                        // only well-conditioned minimal sets determine the matrix within the tolerance
                        run_clean("precheck", [&] {
                                for (int k = 0; k < 4 && ok; ++k) {
                                        std::vector<PM> l = d.l;
                                        for (int i = n - 1; i > 0; --i) std::swap(l[i], l[r.below(i + 1)]);
                                        double F[9];
                                        for (auto& p : l) for (int c = 0; c < 2; ++c) { p.x[c] *= 1 + (r.unit() - 0.5) * 2e-6; p.xp[c] *= 1 + (r.unit() - 0.5) * 2e-6; }
                                        double s = e == F_NORM ? 1.0 / 500 : 1;
                                        for (auto& p : l) for (int c = 0; c < 2; ++c) { p.x[c] *= s; p.xp[c] *= s; }
                                        nx_fundamental_estimate(F, n, l.data());
                                        for (auto& p : l) if (!(dist_of(e, F, p) < tol * s / 50)) ok = false;
                                }
                        });
                        if (ok) probe("minimal_fundamental");
                }
                if (!is_f(e) && mode == 1) {
                        // general position: no three of the four points nearly collinear, in both images
                        for (int im = 0; im < 2; ++im) for (int a = 0; a < 4; ++a) {
                                const float* P[3];
                                for (int k = 0, j = 0; k < 4; ++k) if (k != a) P[j++] = im ? d.l[k].xp : d.l[k].x;
                                double ar = std::fabs((P[1][0] - P[0][0]) * (P[2][1] - P[0][1]) - (P[1][1] - P[0][1]) * (P[2][0] - P[0][0]));
                                if (ar < 2000) ok = false;
                        }
                        if (ok) probe("minimal_homography");
                }
                // (an algebraic fit of a fundamental matrix to contaminated matches may lose a few at the tolerance)
                int want = !is_f(e) || mode == 1 ? d.n_true : (int)(0.75 * d.n_true);
                if (ok && o.ret < want) V((std::string("inliers-missed@") + est_name[e]).c_str(), "%d of %d exact inliers found (n %d, %d iterations)", o.ret, d.n_true, n, iters);
                int true_flagged = 0;
                for (auto& p : o.l) { const PM* t = find_id(d.l, p.id); double x[2] = {t->x[0], t->x[1]}, y[2]; if (!is_f(e)) { proj(d.h, x, y); true_flagged += p.is_inlier && std::hypot(y[0] - t->xp[0], y[1] - t->xp[1]) < 0.01; } }
                if (ok && mode != 1 && e != H_USAC && o.ret == d.n_true && true_flagged == d.n_true && o.ret > 8) for (auto& p : o.l) {
                        // exact inliers are fitted closely, not just within the tolerance
                        PM q2 = *find_id(d.l, p.id);
                        double x[2] = {q2.x[0], q2.x[1]}, y[2];
                        if (is_f(e)) continue;
                        proj(d.h, x, y);
                        bool truein = std::hypot(y[0] - q2.xp[0], y[1] - q2.xp[1]) < 0.01;
                        if (truein && o.ret == d.n_true && dist_of(e, o.h, q2) > 0.5 * tol) V((std::string("poor-fit@") + est_name[e]).c_str(), "an exact inlier is %.4g away from the model fitted to exactly the true inliers", dist_of(e, o.h, q2));
                }
        }
        if (mode == 5 && flip && o.ret != 0 && e != H_NORM) V((std::string("mirrored-accepted@") + est_name[e]).c_str(), "a mirroring homography was accepted with %d inliers", o.ret);
        hash_mix(o.ret);
        // the outcome depends on matches, parameters and random stream only
        knobs().junk_seed ^= 99;
        OpResult q2 = go(&o2, -1e30, Plan::none());
        if (!q2.ok()) V((std::string("unexpected-exit@") + est_name[e]).c_str(), "the estimator stopped the process");
        bool has = n >= need;
        if (o.ret != o2.ret || !same_list(o.l, o2.l, n) || (has && o.ret && !same_model(o.h, o2.h)))
                V((std::string("not-a-function@") + est_name[e]).c_str(), "same matches and random stream but another previous model content or heap: %d inliers, then %d", o.ret, o2.ret);
        if (q.leaked_allocs > q2.leaked_allocs && n < need) V((std::string("leak@") + est_name[e]).c_str(), "leak");
        if (chance(1, 5)) {
                Plan p = draw_plan({K_ALLOC_FAIL, K_ALLOC_STICKY}, q.ev);
                e0 = sim_stderr().size();
                OpResult q3 = go(&o2, 0.25, p);
                if (q3.fatal()) { if (!q3.hard) V("unexpected-exit", "stopped without a fault"); expect_orderly_fatal(q3, est_name[e], e0); }
                else if (o.ret != o2.ret || !same_list(o.l, o2.l, n)) V((std::string("fault-hidden@") + est_name[e]).c_str(), "returned another result under allocation failure");
        }
        nx_uniform_sampler_instance_free();
}
void wrappers() {
        // normalise / denormalise round trips, estimation from flagged inliers
        Rng r(choose(1 << 24));
        Data d;
        bool f = choose(2);
        int e = f ? F_NORM : H_RANSAC;
        int n = (f ? 8 : 4) + choose(40), good = std::min(n, (f ? 10 : 6) + (int)choose(30));
        make_data(e, r, n, (double)good / n, choose(4), false, &d);
        op("correspondences n %d good %d %s", n, d.n_true, f ? "F" : "H");
        double tol = d.tol;
        run_clean("correspondences", [&] {
                VGPointCorrespondence2D c;
                if (choose(2)) c.reserve(n);
                for (int i = 0; i < n; ++i) {
                        int sz = c.add_match(d.l[i].id, d.l[i].x[0], d.l[i].x[1], d.l[i].sigma_x, d.l[i].idp, d.l[i].xp[0], d.l[i].xp[1], d.l[i].sigma_xp, d.l[i].match_cost, d.l[i].is_inlier);
                        if (sz != i + 1 || c.size() != i + 1) V("correspondence-size", "size %d after %d matches", sz, i + 1);
                }
                for (int i = 0; i < n; ++i) if (c.is_inlier(i) != (d.l[i].is_inlier != 0)) V("inlier-flag", "match %d", i);
                VGPointCorrespondence2D k = c.clone();
                k.normalize();
                double m[4] = {0, 0, 0, 0}, dd[2] = {0, 0};
                for (int i = 0; i < n; ++i) { m[0] += k[i].x[0]; m[1] += k[i].x[1]; m[2] += k[i].xp[0]; m[3] += k[i].xp[1]; dd[0] += std::hypot(k[i].x[0], k[i].x[1]); dd[1] += std::hypot(k[i].xp[0], k[i].xp[1]); }
                for (int q = 0; q < 4; ++q) if (std::fabs(m[q] / n) > 1e-3) V("normalize", "normalised matches have mean %g", m[q] / n);
                for (int q = 0; q < 2; ++q) if (std::fabs(dd[q] / n - 1) > 1e-3) V("normalize", "normalised matches have mean distance %g", dd[q] / n);
                for (int i = 0; i < n; ++i) if (memcmp(c[i].x, d.l[i].x, 8) || memcmp(c[i].xp, d.l[i].xp, 8) || c[i].match_cost != d.l[i].match_cost || c[i].sigma_x != d.l[i].sigma_x || c[i].sigma_xp != d.l[i].sigma_xp || c[i].id != d.l[i].id || c[i].idp != d.l[i].idp) V("clone-aliases", "normalising a clone changed match %d of the original", i);
                // a model fitted to normalised matches, denormalised, fits the original ones
                for (int i = 0; i < n; ++i) k.set_inlier(i, false);
                int flagged = 0;
                for (int i = 0; i < n; ++i) {
                        // exact ones are recognised by their cost-independent construction order: recompute
                        bool good_i = false;
                        if (!f) { double x[2] = {d.l[i].x[0], d.l[i].x[1]}, y[2]; proj(d.h, x, y); good_i = std::hypot(y[0] - d.l[i].xp[0], y[1] - d.l[i].xp[1]) < 0.01; }
                        else good_i = d.n_true == n;
                        k.set_inlier(i, good_i);
                        flagged += good_i;
                }
                int need = f ? 8 : 4;
                if (flagged >= need + 2) {
                        double g[9];
                        int got;
                        if (f) { VGFundamentalMatrix F; got = F.estimate_from_inliers(k, tol / k.stats()->dp); memcpy(g, F.data(), sizeof g); k.denormalize_fundamental(g); }
                        else { VGHomography H; got = H.estimate_from_inliers(k, tol / k.stats()->dp); memcpy(g, H.data(), sizeof g); k.denormalize_homography(g); }
                        if (got < flagged) V("fit-misses-inliers", "%d of %d exact matches are inliers of the model fitted to them", got, flagged);
                        k.denormalize();
                        for (int i = 0; i < n; ++i) {
                                for (int q = 0; q < 2; ++q) if (std::fabs(k[i].x[q] - c[i].x[q]) > 0.02 || std::fabs(k[i].xp[q] - c[i].xp[q]) > 0.02) V("denormalize", "match %d not restored", i);
                                double ds = dist_of(e, g, c[i]);
                                if (std::fabs(ds - tol) > 0.1 * tol && (ds < tol) != k.is_inlier(i)) V("denormalized-model", "the denormalised model has match %d at distance %g but it is %sflagged (tolerance %g)", i, ds, k.is_inlier(i) ? "" : "not ", tol);
                        }
                        probe("denormalized_fit");
                }
                c.sort_by_match_cost();
                for (int i = 1; i < n; ++i) if (c[i - 1].match_cost > c[i].match_cost) V("sort", "not sorted by match cost");
                c.clear();
                if (c.size() != 0) V("clear", "matches left");
        });
}
void run() {
        draw_knobs();
        switch (choose(6)) {
        case 0: usac_core(); break;
        case 1: wrappers(); break;
        default: estimators();
        }
}
Reg reg({"C14", run,
         "one run = the USAC loop with scripted callbacks (sample/model checks, ties, degenerate models, several models per sample, refinements) against a reference of the callback history, or one robust estimator (homography / "
         "fundamental RANSAC, normalised, USAC, C++ wrappers) on drawn exact, contaminated, mirrored, degenerate or minimal matches, called twice under the same random stream with other heap and model content; "
         "non-trivial = extreme generator words, an allocation failure or a short transfer was injected; distinct = different event/outcome sequence",
         27000, 400000});
}
