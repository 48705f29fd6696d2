// C21: the command-line tools as simulated processes: a tool that exits with
// success has delivered its complete and correct output, whatever failed.
#include "img.h"
#include "ops.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_harris_detector.h"
#include "virg/nexus/nx_homography.h"
#include "virg/nexus/nx_json_bundle.h"
#include "virg/nexus/nx_json_tree.h"
#include "virg/nexus/nx_sift_detector.h"
#include "virg/nexus/nx_vgg_affine_dataset.h"
extern "C" {
int sim_tool_nx_harris_detector(int, char**);
int sim_tool_nx_sift_detector(int, char**);
int sim_tool_nx_sift_benchmark(int, char**);
int sim_tool_nx_stitch(int, char**);
int sim_tool_nx_fit_homography(int, char**);
extern char __start_tool_data[], __stop_tool_data[];
}
int sim_tool_vg_stereo_matcher(int, char**);

namespace {
enum Tool { T_HARRIS, T_SIFT, T_BENCH, T_STITCH, T_FIT, T_STEREO, NTOOLS };
struct { const char* name; int (*main)(int, char**); } TOOL[NTOOLS] = {
        {"nx-harris-detector", sim_tool_nx_harris_detector}, {"nx-sift-detector", sim_tool_nx_sift_detector}, {"nx-sift-benchmark", sim_tool_nx_sift_benchmark},
        {"nx-stitch", sim_tool_nx_stitch}, {"nx-fit-homography", sim_tool_nx_fit_homography}, {"vg-stereo-matcher", sim_tool_vg_stereo_matcher}};

// ------------------------------------------------------------------ processes
std::vector<char> pristine;
__attribute__((no_sanitize("address"))) void fresh_data(bool save) {
        size_t n = (size_t)(__stop_tool_data - __start_tool_data);
        if (save) pristine.resize(n);
        volatile char *a = __start_tool_data, *b = pristine.data();
        for (size_t i = 0; i < n; ++i) if (save) b[i] = a[i]; else a[i] = b[i];
}
struct Ended {
        OpResult r;
        int status = 0;                 // exit status as the shell sees it
        std::string out, err;
        std::map<std::string, std::string> files;   // everything below /tmp and /o
};
typedef std::vector<std::string> Args;
char* argp[64];
Ended run_tool(Tool t, const Args& args, const Plan& plan) {
        if (pristine.empty()) fresh_data(true);
        fresh_data(false);
        run_clean("process start", [] { reset_library_globals(); nx_log_verbosity(NX_LOG_DEFAULT); });
        static std::vector<std::string> keep;
        keep = args;
        keep.insert(keep.begin(), TOOL[t].name);
        size_t k = 0;
        for (auto& s : keep) argp[k++] = &s[0];
        argp[k] = nullptr;
        std::string line;
        for (auto& s : keep) line += s + " ";
        op("$ %s", line.c_str());
        size_t e0 = sim_stderr().size();
        FILE* old = stdout;
        vfs_put("/stdout", "");
        FILE* out = fopen("/stdout", "w");
        stdout = out;
        static int code;
        code = 0;
        Ended e;
        int argc = (int)k;
        e.r = run_op(TOOL[t].name, plan, [&] {
                code = TOOL[t].main(argc, argp);
                fflush(stdout);         // what exit() does
        });
        stdout = old;
        if (e.r.ok()) e.status = code & 0xff;
        else e.status = e.r.fatal() ? e.r.code & 0xff : 137;
        if (e.r.how != OpResult::CRASHED) run_clean("exit", [&] { fclose(out); });      // what is left in the buffer
        e.out = vfs_get("/stdout");
        e.err = sim_stderr().substr(std::min(e0, sim_stderr().size()));
        for (auto& n : vfs()) if (!n.second->dir && (n.first.compare(0, 5, "/tmp/") == 0 || n.first.compare(0, 3, "/o/") == 0)) e.files[n.first] = n.second->data;
        return e;
}
// ------------------------------------------------------------------ pictures
std::vector<unsigned char> texture(int w, int h, uint64_t seed) {
        Rng r(seed);
        std::vector<float> a((size_t)w * h), b(a.size());
        for (auto& x : a) x = (float)r.unit() - 0.5f;
        for (int pass = 0; pass < 3; ++pass) {
                for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { float s = 0; for (int k = -1; k <= 1; ++k) s += a[(size_t)y * w + std::min(w - 1, std::max(0, x + k))]; b[(size_t)y * w + x] = s; }
                for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { float s = 0; for (int k = -1; k <= 1; ++k) s += b[(size_t)std::min(h - 1, std::max(0, y + k)) * w + x]; a[(size_t)y * w + x] = s / 9; }
        }
        float m = 0;
        for (float x : a) m = std::max(m, std::fabs(x));
        std::vector<unsigned char> o(a.size());
        for (size_t i = 0; i < a.size(); ++i) o[i] = (unsigned char)(127.5f + 127.0f * a[i] / m);
        return o;
}
Ref crop(const std::vector<unsigned char>& t, int tw, int x0, int y0, int w, int h) {
        Ref r; r.w = w; r.h = h; r.ch = 1; r.px.resize((size_t)w * h);
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) r.px[(size_t)y * w + x] = t[(size_t)(y + y0) * tw + x + x0];
        return r;
}
Ref as_rgba(const Ref& g) {
        Ref r; r.w = g.w; r.h = g.h; r.ch = 4; r.px.resize(g.px.size() * 4);
        for (size_t i = 0; i < g.px.size(); ++i) { r.px[4 * i] = r.px[4 * i + 1] = r.px[4 * i + 2] = g.px[i]; r.px[4 * i + 3] = 255; }
        return r;
}
Ref turned(const Ref& g, int k) {        // by k quarter turns
        if (k == 0) return g;
        Ref a = turned(g, k - 1), r; r.w = a.h; r.h = a.w; r.ch = 1; r.px.resize(a.px.size());
        for (int y = 0; y < r.h; ++y) for (int x = 0; x < r.w; ++x) r.px[(size_t)y * r.w + x] = a.px[(size_t)(a.h - 1 - x) * a.w + y];
        return r;
}
// stores the picture in a lossless format
std::string put_image(const std::string& stem, const Ref& g, int fmt) {
        std::string fn = stem + (fmt == 0 ? ".pgm" : ".png");
        vfs_put(fn, fmt == 0 ? encode_pnm(g, 0) : encode_png(as_rgba(g), 0, 8, false, false));
        return fn;
}
std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }

// ------------------------------------------------------------------ scenarios
struct Scene {
        Tool tool;
        Args args;
        uint64_t seed;
        int fmt;
        std::vector<Ref> pics;
        std::vector<std::string> names;
        struct NXSIFTDetectorParams sp;
        bool verbose = false, random = false;   // random: result depends on random samples
        bool related = true;
        int dx[4] = {0, 0, 0, 0}, dy[4] = {0, 0, 0, 0}, turn[4] = {0, 0, 0, 0}, vw = 0, vh = 0, tw = 0, th = 0;
        std::vector<unsigned char> tex;
        bool persp = false; double G[4][9];     // view pixel -> texture, row by row
        std::string image_opt;
        double sigma = 1.2, k = 0.06, thr = 0.00005; int maxk = 2000;
        int steps = 0; bool has_gt = false; bool inv = false; int n_vpts = 0;
        double snn = -1;
        void put() const {
                vfs_clear();
                vfs_mkdir("/o"); vfs_mkdir("/in"); vfs_mkdir("/tmp");
                if (tool == T_BENCH) vfs_mkdir("/in/vgg");
                for (size_t i = 0; i < pics.size(); ++i) vfs_put(names[i], fmt == 0 ? encode_pnm(pics[i], 0) : encode_png(as_rgba(pics[i]), 0, 8, false, false));
                for (auto& f : extra) { vfs_mkdir(f.first.substr(0, f.first.rfind('/'))); vfs_put(f.first, f.second); }
        }
        std::map<std::string, std::string> extra;
};
void sift_opts(Scene& s) {
        run_clean("defaults", [&] { s.sp = nx_sift_default_parameters(); });
        s.sp.double_image = NX_FALSE;
        if (chance(1, 3)) { s.args.push_back("--sift-double-image"); s.sp.double_image = NX_TRUE; }
        if (chance(1, 3)) { s.sp.n_scales_per_octave = 2 + choose(3); s.args.push_back("--sift-n-scales-per-octave"); s.args.push_back(std::to_string(s.sp.n_scales_per_octave)); }
        if (chance(1, 3)) { double p = 0.002 + 0.001 * choose(8); s.sp.peak_threshold = (float)p; s.args.push_back("--sift-peak-threshold"); s.args.push_back(num(p)); }
        else if (chance(1, 8)) {          // everything is a keypoint
                s.sp.peak_threshold = 0.0001f; s.sp.edge_threshold = 1000.0f;
                for (const char* a : {"--sift-peak-threshold", "0.0001", "--sift-edge-threshold", "1000"}) s.args.push_back(a);
                return;
        }
        if (chance(1, 4)) { double p = 5.0 + choose(10); s.sp.edge_threshold = (float)p; s.args.push_back("--sift-edge-threshold"); s.args.push_back(num(p)); }
        if (chance(1, 4)) { double p = 1.2 + 0.1 * choose(6); s.sp.sigma0 = (float)p; s.args.push_back("--sift-sigma0"); s.args.push_back(num(p)); }
        if (chance(1, 4)) { s.sp.border_distance = 3 + choose(6); s.args.push_back("--sift-border-distance"); s.args.push_back(std::to_string(s.sp.border_distance)); }
}
// crops of one texture at even offsets, or of different textures
void views(Scene& s, int n, int w, int h, bool chain = false) {
        int far = 2 * ((w * 33 / 64) / 2);
        s.tw = w + (chain ? far * (n - 1) + 8 : 60); s.th = h + 40;
        s.vw = w; s.vh = h;
        s.tex = texture(s.tw, s.th, s.seed);
        for (int i = 0; i < n; ++i) {
                s.dx[i] = i ? 2 * choose(14) : 0; s.dy[i] = i ? 2 * choose(8) : 0;
                if (chain) s.dx[i] = i * far;           // each view shows little of the one before the last
                bool other = !s.related && i == n - 1;
                if (other && chance(1, 2)) {             // nothing to see
                        Ref g; g.w = w; g.h = h; g.ch = 1; g.px.assign((size_t)w * h, (unsigned char)choose(256));
                        s.pics.push_back(g);
                } else
                s.pics.push_back(crop(other ? texture(s.tw, s.th, s.seed ^ 0x77777) : s.tex, s.tw, s.dx[i], s.dy[i], w, h));
                if (s.tool == T_STITCH && chance(1, 3)) { s.turn[i] = choose(4); s.pics.back() = turned(s.pics.back(), s.turn[i]); }
                s.names.push_back("/in/p" + std::to_string(i) + (s.fmt == 0 ? ".pgm" : ".png"));
        }
}
void apply(const double* g, double x, double y, double* u, double* v) {
        double w = g[6] * x + g[7] * y + g[8];
        *u = (g[0] * x + g[1] * y + g[2]) / w; *v = (g[3] * x + g[4] * y + g[5]) / w;
}
bool texel(const Scene& s, double u, double v, double* out) {
        int a = (int)floor(u), b = (int)floor(v);
        if (a < 0 || b < 0 || a + 1 >= s.tw || b + 1 >= s.th) return false;
        double p = u - a, q = v - b;
        const unsigned char* t = &s.tex[(size_t)b * s.tw + a];
        *out = (1 - q) * ((1 - p) * t[0] + p * t[1]) + q * ((1 - p) * t[s.tw] + p * t[s.tw + 1]);
        return true;
}
// pictures of one plane taken from different directions
void tilted_views(Scene& s) {
        int n = 2 + choose(2), w = 110 + 2 * choose(16), h = 90 + 2 * choose(10);
        s.persp = true;
        s.vw = w; s.vh = h; s.tw = w + 160; s.th = h + 120;
        s.tex = texture(s.tw, s.th, s.seed);
        for (int i = 0; i < n; ++i) {
                double p = i ? ((int)choose(9) - 4) * 5e-4 : 0, q = i ? ((int)choose(9) - 4) * 5e-4 : 0;
                double cx = w / 2., cy = h / 2., tx = 80 + (i ? (int)choose(81) - 40 : 0) + cx, ty = 60 + (i ? (int)choose(41) - 20 : 0) + cy;
                // T(tx,ty) * P(p,q) * T(-cx,-cy)
                double c = 1 - p * cx - q * cy;
                double g[9] = {1 + tx * p, tx * q, -cx + tx * c, ty * p, 1 + ty * q, -cy + ty * c, p, q, c};
                std::copy(g, g + 9, s.G[i]);
                Ref v; v.w = w; v.h = h; v.ch = 1; v.px.resize((size_t)w * h);
                for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
                        double a, b, t = 0;
                        apply(g, x, y, &a, &b);
                        texel(s, a, b, &t);
                        v.px[(size_t)y * w + x] = (unsigned char)(t + .5);
                }
                s.pics.push_back(v);
                s.names.push_back("/in/p" + std::to_string(i) + (s.fmt == 0 ? ".pgm" : ".png"));
        }
}
void inverse(const double* m, double* o) {
        double a[9] = {m[4] * m[8] - m[5] * m[7], m[2] * m[7] - m[1] * m[8], m[1] * m[5] - m[2] * m[4], m[5] * m[6] - m[3] * m[8], m[0] * m[8] - m[2] * m[6], m[2] * m[3] - m[0] * m[5], m[3] * m[7] - m[4] * m[6], m[1] * m[6] - m[0] * m[7], m[0] * m[4] - m[1] * m[3]};
        for (int i = 0; i < 9; ++i) o[i] = a[i];
}
// the panorama shows the plane as one of the pictures does
void check_tilted(const Scene& s, const Ref& r, const char* cls) {
        double best = 1e9;
        bool size_ok = false;
        for (size_t i = 0; i < s.pics.size(); ++i) {
                double inv[9], x0 = 1e9, y0 = 1e9, x1 = -1e9, y1 = -1e9;
                inverse(s.G[i], inv);
                for (size_t j = 0; j < s.pics.size(); ++j) for (int k = 0; k < 4; ++k) {
                        double u, v, x, y;
                        apply(s.G[j], k & 1 ? s.vw : 0, k & 2 ? s.vh : 0, &u, &v);
                        apply(inv, u, v, &x, &y);
                        x0 = std::min(x0, x); y0 = std::min(y0, y); x1 = std::max(x1, x); y1 = std::max(y1, y);
                }
                double ew = (int)x1 - (int)x0, eh = (int)y1 - (int)y0;
                if (std::fabs(r.w - ew) > 6 + ew / 12 || std::fabs(r.h - eh) > 6 + eh / 12) continue;
                size_ok = true;
                const int B = 12;
                double total = 0; int blocks = 0;
                std::vector<float> w((size_t)(r.w + 8) * (r.h + 8), -1);
                for (int y = -4; y < r.h + 4; ++y) for (int x = -4; x < r.w + 4; ++x) {
                        double u, v, t;
                        apply(s.G[i], x + (int)x0, y + (int)y0, &u, &v);
                        bool in = false;
                        for (size_t j = 0; j < s.pics.size() && !in; ++j) { double gi[9], a, b; inverse(s.G[j], gi); apply(gi, u, v, &a, &b); in = a >= 3 && b >= 3 && a < s.vw - 3 && b < s.vh - 3; }
                        if (in && texel(s, u, v, &t)) w[(size_t)(y + 4) * (r.w + 8) + x + 4] = (float)t;
                }
                for (int by = 4; by + B <= r.h - 4; by += B) for (int bx = 4; bx + B <= r.w - 4; bx += B) {
                        double m1 = 1e9;
                        for (int ox = -2; ox <= 2; ++ox) for (int oy = -2; oy <= 2; ++oy) {
                                double sum = 0; bool in = true;
                                for (int y = by; y < by + B && in; ++y) for (int x = bx; x < bx + B; ++x) {
                                        float t = w[(size_t)(y + oy + 4) * (r.w + 8) + x + ox + 4];
                                        if (t < 0) { in = false; break; }
                                        sum += std::fabs(t - r.px[(size_t)y * r.w + x]);
                                }
                                if (in) m1 = std::min(m1, sum / (B * B));
                        }
                        if (m1 < 1e9) { total += m1; ++blocks; }
                }
                if (blocks) best = std::min(best, total / blocks);
        }
        if (!size_ok) V(cls, "panorama of %dx%d pixels does not fit the frame of any view", r.w, r.h);
        hash_mix((uint64_t)(best * 10));
        probe("stitch: tilted views verified");
        if (best > 13) V(cls, "the panorama does not show the views (mean difference %.1f grey levels)", best);
}
Scene draw_scene() {
        Scene s;
        { uint32_t t = choose(NTOOLS + 2); s.tool = t < NTOOLS ? (Tool)t : t == NTOOLS ? T_FIT : T_STITCH; }
        if (const char* f = getenv("SIM_C21_TOOL")) s.tool = (Tool)atoi(f);
        s.seed = choose(1u << 16);
        s.fmt = choose(2);
        s.verbose = chance(1, 2);
        switch (s.tool) {
        case T_HARRIS: {
                int w = 12 + choose(60), h = 12 + choose(50);
                s.pics.push_back(crop(texture(w, h, s.seed), w, 0, 0, w, h));
                s.names.push_back(std::string("/in/h") + (s.fmt == 0 ? ".pgm" : ".png"));
                s.args = {"-i", s.names[0]};
                if (chance(1, 2)) { s.sigma = 0.8 + 0.1 * choose(10); s.args.push_back("--sigma-int"); s.args.push_back(num(s.sigma)); }
                if (chance(1, 3)) { s.k = 0.03 + 0.01 * choose(6); s.args.push_back("-k"); s.args.push_back(num(s.k)); }
                if (chance(1, 3)) { s.maxk = choose(4) ? 1 + (int)choose(20) : 5000; s.args.push_back("-N"); s.args.push_back(std::to_string(s.maxk)); }
                if (chance(1, 3)) { s.thr = 0.0001 * choose(50); s.args.push_back("-t"); s.args.push_back(num(s.thr)); }
                if (chance(1, 3)) { s.image_opt = choose(2) ? "/o/keys.png" : "/o/keys.ppm"; s.args.push_back("--key-image"); s.args.push_back(s.image_opt); }
                if (chance(1, 4)) s.args.push_back("--debug");
                break;
        }
        case T_SIFT: {
                int w = 24 + choose(70), h = 24 + choose(60);
                s.pics.push_back(crop(texture(w, h, s.seed), w, 0, 0, w, h));
                s.names.push_back(std::string("/in/s") + (s.fmt == 0 ? ".pgm" : ".png"));
                s.args = {"-i", s.names[0]};
                s.image_opt = "sift.bin";
                if (chance(3, 4)) { s.image_opt = "/o/keys.sift"; s.args.push_back("-o"); s.args.push_back(s.image_opt); }
                sift_opts(s);
                break;
        }
        case T_BENCH: {
                static const char* seq[] = {"bark", "bikes", "boat", "graf", "leuven", "trees", "ubc", "wall"};
                s.args = {"--vgg-base", "/in/vgg"};
                run_clean("defaults", [&] { s.sp = nx_sift_default_parameters(); });
                s.sp.double_image = NX_FALSE;
                int w = 26 + choose(20), h = 26 + choose(14), lim = 2 + choose(3);
                auto t = texture(w + 40, h + 40, s.seed);
                Rng r(s.seed);
                for (int q = 0; q < 8; ++q) for (int i = 1; i <= 6; ++i) {
                        std::string d = std::string("/in/vgg/") + seq[q] + "/";
                        int x = i > 1 ? 2 * r.below(8) : 0, y = i > 1 ? 2 * r.below(8) : 0, ox = r.below(10), oy = r.below(10);
                        if (i > lim) { x = y = 0; ox = oy = 0; }
                        if (i == 1) ox = oy = 0;
                        Ref c = crop(t, w + 40, x, y, w, h);
                        s.extra[d + "img" + std::to_string(i) + ".ppm"] = encode_pnm(as_rgba(c), 0);
                        char b[80]; snprintf(b, sizeof b, "1 0 %d\n0 1 %d\n0 0 1\n", -x, -y);
                        if (i > 1) s.extra[d + "H1to" + std::to_string(i) + "p"] = b;
                }
                if (chance(1, 3)) { s.snn = 0.5 + 0.1 * choose(5); s.args.push_back("--dist-ratio-thr"); s.args.push_back(num(s.snn)); } else s.snn = 0.6;
                break;
        }
        case T_STITCH: {
                s.related = chance(3, 4);
                sift_opts(s);
                bool tilt = s.related && chance(1, 4), chain = !tilt && chance(1, 2);
                if (tilt) tilted_views(s);
                else if (chain) views(s, 3 + choose(2), 110 + 2 * choose(16), 84 + 2 * choose(10), true);
                else views(s, 2 + choose(2), 70 + 2 * choose(16), 60 + 2 * choose(10));
                for (auto& n : s.names) s.args.push_back(n);
                s.random = true;
                s.verbose = false;
                break;
        }
        case T_FIT: {
                s.related = chance(3, 4);
                if (chance(1, 3)) views(s, 2, 24 + 2 * choose(12), 24 + 2 * choose(12));
                else views(s, 2, 50 + 2 * choose(16), 50 + 2 * choose(10));
                s.args = {"-l", s.names[0], "-r", s.names[1]};
                sift_opts(s);
                if (chance(1, 2)) { s.snn = 0.4 + 0.1 * choose(5); s.args.push_back("--snn-threshold"); s.args.push_back(num(s.snn)); }
                s.args.push_back("--ransac-max-n-iterations"); s.args.push_back(std::to_string(5 + choose(200)));
                char b[120];
                double X = s.dx[1], Y = s.dy[1];
                if (chance(1, 2)) {
                        s.has_gt = true; s.inv = choose(2);
                        double q = s.inv ? 1 : -1;
                        snprintf(b, sizeof b, "1 0 %g\n0 1 %g\n0 0 1\n", q * X, q * Y);
                        s.extra["/in/gt.txt"] = b;
                        s.args.push_back(s.inv ? "--ground-truth-r2l" : "--ground-truth-l2r"); s.args.push_back("/in/gt.txt");
                }
                if (chance(1, 2)) {
                        s.n_vpts = 1 + choose(8);
                        std::string rows[6];
                        for (int i = 0; i < s.n_vpts; ++i) { double v[6] = {20.0 + 3 * i, 22.0 + 2 * (i % 3), 1, 20.0 + 3 * i - X, 22.0 + 2 * (i % 3) - Y, 1}; for (int q = 0; q < 6; ++q) rows[q] += (i ? " " : "") + num(v[q]); }
                        std::string all; for (auto& q : rows) all += q + "\n";
                        s.extra["/in/val.txt"] = all;
                        s.args.push_back("--validation-points"); s.args.push_back("/in/val.txt");
                }
                if (chance(1, 2)) { s.steps = 1 + choose(6); s.args.push_back("--benchmark-ransac"); s.args.push_back("--benchmark-steps"); s.args.push_back(std::to_string(s.steps)); }
                s.random = true;
                break;
        }
        default:
                s.related = chance(3, 4);
                views(s, 2, 60 + 2 * choose(16), 56 + 2 * choose(10));
                s.args = {"-l", s.names[0], "-r", s.names[1]};
                s.random = true;
        }
        if (s.verbose) s.args.push_back(choose(2) ? "-v" : "--verbose");
        return s;
}
// ------------------------------------------------------------------ what the tool has to say
struct NXImage* to_image(const Ref& r) {
        struct NXImage* i = nx_image_new_gray_uc(r.w, r.h);
        for (int y = 0; y < r.h; ++y) memcpy(i->data.uc + (size_t)y * i->row_stride, r.at(0, y), r.w);
        return i;
}
struct Keys { int n = 0, cap = 0; struct NXKeypoint* k = nullptr; uchar* d = nullptr; };
Keys sift(struct NXSIFTDetector* det, const Ref& r) {
        Keys k;
        k.cap = 2000;           // larger than needed: no growth in the model
        k.k = NX_NEW(k.cap, struct NXKeypoint);
        k.d = NX_NEW_UC(k.cap * NX_SIFT_DESC_DIM);
        struct NXImage* i = to_image(r);
        k.n = nx_sift_detector_compute(det, i, &k.cap, &k.k, &k.d);
        nx_image_free(i);
        return k;
}
void drop(Keys& k) { nx_free(k.k); nx_free(k.d); }
std::vector<std::string> lines(const std::string& s) {
        std::vector<std::string> v; size_t p = 0;
        while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); v.push_back(s.substr(p, e - p)); p = e + 1; }
        return v;
}
std::vector<double> fields(const std::string& l) {
        std::vector<double> v; size_t p = 0;
        while (p <= l.size()) { size_t e = l.find(',', p); if (e == std::string::npos) e = l.size(); v.push_back(strtod(l.substr(p, e - p).c_str(), nullptr)); p = e + 1; }
        return v;
}
void ordered(const char* cls, const std::vector<double>& f, size_t at, const char* what) {   // mean, stdev, min, lwq, med, upq, max
        if (f.size() < at + 7) V(cls, "the %s columns are missing", what);
        const double* s = &f[at];
        for (int i = 2; i < 6; ++i) if (!(s[i] <= s[i + 1] + 0.06)) V(cls, "%s: min/quartiles/max are not in order: %g %g %g %g %g", what, s[2], s[3], s[4], s[5], s[6]);
        if (!(s[0] >= s[2] - 0.06 && s[0] <= s[6] + 0.06 && s[1] >= 0)) V(cls, "%s: mean %g outside [%g,%g] or negative deviation", what, s[0], s[2], s[6]);
}
int gt_inliers(const Scene& s, int n, const struct NXPointMatch2D* m, double X, double Y, double tol, bool strict) {
        int c = 0;
        for (int i = 0; i < n; ++i) { double a = m[i].x[0] - X - m[i].xp[0], b = m[i].x[1] - Y - m[i].xp[1]; double e = std::sqrt(a * a + b * b); c += strict ? e < tol - 1e-3 : e < tol + 1e-3; }
        return c;
}
void check_output(const Scene& s, const Ended& e) {
        std::string at = std::string("@") + TOOL[s.tool].name, cls = "wrong-output" + at;
        switch (s.tool) {
        case T_HARRIS: {
                std::string want;
                int nkeys = 0;
                run_clean("model", [&] {
                        struct NXImage *i = to_image(s.pics[0]), *d[3] = {0, 0, 0}, *sc = nx_image_alloc();
                        nx_harris_deriv_images(d, i, (float)s.sigma);
                        nx_harris_score_image(sc, d, (float)s.k);
                        struct NXKeypoint* k = NX_NEW(s.maxk, struct NXKeypoint);
                        int n = nx_harris_detect_keypoints(s.maxk, k, sc, s.thr);
                        nkeys = n;
                        probe(n ? "harris: keypoints" : "harris: none");
                        struct NXJSONNode *o = nx_json_node_new_object(), *j = nx_json_node_new_object();
                        nx_json_object_add(o, "image", nx_json_bundle_string(s.names[0].c_str()));
                        nx_json_object_add(o, "integration-scale", nx_json_bundle_float((float)s.sigma));
                        nx_json_object_add(o, "k", nx_json_bundle_double((float)s.k));
                        nx_json_object_add(o, "threshold", nx_json_bundle_double(s.thr));
                        nx_json_object_add(o, "max-n-keys", nx_json_bundle_int(s.maxk));
                        nx_json_object_add(j, "options", o);
                        nx_json_object_add(j, "keypoints", nx_json_bundle_keypoint_array(n, k));
                        FILE* f = fopen("/model", "w");
                        nx_json_tree_fprint(f, j, 2);
                        fclose(f);
                        nx_json_tree_free(j);
                        nx_free(k);
                        for (auto* q : d) nx_image_free(q);
                        nx_image_free(sc); nx_image_free(i);
                });
                want = vfs_get("/model");
                auto strip = [](std::string t) { while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back(); return t; };
                if (strip(e.out) != strip(want)) V(cls.c_str(), "printed JSON differs from the keypoints of the image: got %zu bytes '%.200s', want %zu bytes '%.200s'", e.out.size(), e.out.c_str(), want.size(), want.c_str());
                if (!s.image_opt.empty()) {
                        auto it = e.files.find(s.image_opt);
                        if (it == e.files.end()) V(("missing-output" + at).c_str(), "success reported, but %s was not written", s.image_opt.c_str());
                        Ref r; std::string why;
                        bool ok = s.image_opt.find(".png") != std::string::npos ? decode_png(it->second, r, &why) : decode_pnm(it->second, r, &why);
                        if (!ok || r.w != s.pics[0].w || r.h != s.pics[0].h) V(cls.c_str(), "the keypoint image is not a picture of the input's size (%s)", why.c_str());
                        bool green = false;
                        for (size_t i = 0; r.ch >= 3 && i < r.px.size(); i += r.ch) green |= r.px[i + 1] > r.px[i] + 30;
                        if (nkeys && !green) V(cls.c_str(), "no keypoint is drawn in the keypoint image, there are %d", nkeys);
                }
                break;
        }
        case T_SIFT: {
                std::string want;
                run_clean("model", [&] {
                        struct NXSIFTDetector* det = nx_sift_detector_new(s.sp);
                        Keys k = sift(det, s.pics[0]);
                        if (k.n > 100) probe("sift: more than 100 keys");
                        if (k.n > 500) probe("sift: more than 500 keys");
                        char b[256];
                        snprintf(b, sizeof b, "%10s,%7s,%7s,%5s,%7s,%7s\n", "score", "x", "y", "scale", "ori", "sigma");
                        want = b;
                        for (int i = 0; i < k.n; ++i) { snprintf(b, sizeof b, "%10.6f,%7.2f,%7.2f,%5.2f,%7.4f,%7.4f\n", k.k[i].score, k.k[i].xs, k.k[i].ys, k.k[i].scale, k.k[i].ori, k.k[i].sigma); want += b; }
                        Keys q;
                        std::string fn = s.image_opt;
                        q.n = nx_sift_xload(fn.c_str(), &q.cap, &q.k, &q.d);
                        bool same = q.n == k.n;
                        for (int i = 0; same && i < k.n; ++i) same = q.k[i].xs == k.k[i].xs && q.k[i].ys == k.k[i].ys && q.k[i].scale == k.k[i].scale && q.k[i].ori == k.k[i].ori && q.k[i].score == k.k[i].score && q.k[i].sigma == k.k[i].sigma;
                        if (same) same = memcmp(q.d, k.d, (size_t)k.n * NX_SIFT_DESC_DIM) == 0;
                        if (!same) V(cls.c_str(), "the stored file has %d keypoints that are not the %d of the image", q.n, k.n);
                        drop(q); drop(k);
                        nx_sift_detector_free(det);
                });
                if (e.out != want) V(cls.c_str(), "printed table differs from the keypoints of the image (%zu lines, want %zu)", lines(e.out).size(), lines(want).size());
                break;
        }
        case T_BENCH: {
                auto l = lines(e.out);
                if (l.size() != 1 + 8 * 5) V(cls.c_str(), "%zu lines instead of a header and 8 x 5 pairs", l.size());
                static const char* seq[] = {"bark", "bikes", "boat", "graf", "leuven", "trees", "ubc", "wall"};
                run_clean("model", [&] {
                        struct NXSIFTDetector* det = nx_sift_detector_new(s.sp);
                        int q = (int)(s.seed % 8);           // one sequence in full
                        struct NXVGGAffineSequence* v = nx_vgg_affine_sequence_new("/in/vgg", seq[q]);
                        struct NXImage* im = nx_image_alloc();
                        Keys k0;
                        for (int i = 0; i < 6; ++i) {
                                nx_vgg_affine_sequence_xload_frame(v, i, im, NX_IMAGE_LOAD_GRAYSCALE);
                                Ref r; r.w = im->width; r.h = im->height; r.ch = 1; r.px.resize((size_t)r.w * r.h);
                                for (int y = 0; y < r.h; ++y) memcpy(&r.px[(size_t)y * r.w], im->data.uc + (size_t)y * im->row_stride, r.w);
                                Keys k = sift(det, r);
                                if (i == 0) { k0 = k; continue; }
                                const std::string& line = l[1 + q * 5 + i - 1];
                                auto f = fields(line);
                                std::string name = line.substr(0, line.find(','));
                                name.erase(0, name.find_first_not_of(' '));
                                struct NXPointMatch2D* m = NX_NEW(k0.n + 1, struct NXPointMatch2D);
                                int nm = nx_sift_match_brute_force(k0.n, k0.k, k0.d, k.n, k.k, k.d, m, (float)s.snn);
                                double X = -v->h[i][6], Y = -v->h[i][7];
                                if (name != seq[q] || f.size() != 10 || f[1] != i || f[2] != k0.n || f[3] != k.n || f[6] != nm) V(cls.c_str(), "line '%s': want %s,%d,%d,%d keypoints and %d matches", line.c_str(), seq[q], i, k0.n, k.n, nm);
                                static const double tol[] = {3, 2, 1};
                                for (int t = 0; t < 3; ++t) if (f[7 + t] < gt_inliers(s, nm, m, X, Y, tol[t], true) || f[7 + t] > gt_inliers(s, nm, m, X, Y, tol[t], false)) V(cls.c_str(), "line '%s': inliers within %g pixels should be %d", line.c_str(), tol[t], gt_inliers(s, nm, m, X, Y, tol[t], true));
                                if (f[4] < 0 || f[5] < 0) V(cls.c_str(), "line '%s': negative time", line.c_str());
                                if (nm) probe("benchmark: matches");
                                nx_free(m);
                                drop(k);
                        }
                        drop(k0);
                        nx_image_free(im);
                        nx_vgg_affine_sequence_free(v);
                        nx_sift_detector_free(det);
                });
                break;
        }
        case T_FIT: {
                int nm = 0, lo = 0, hi = 0;
                run_clean("model", [&] {
                        struct NXSIFTDetector* det = nx_sift_detector_new(s.sp);
                        Keys a = sift(det, s.pics[0]), b = sift(det, s.pics[1]);
                        struct NXPointMatch2D* m = NX_NEW(a.n + 1, struct NXPointMatch2D);
                        nm = nx_sift_match_brute_force(a.n, a.k, a.d, b.n, b.k, b.d, m, (float)s.snn);
                        lo = gt_inliers(s, nm, m, s.dx[1], s.dy[1], 3.0, true); hi = gt_inliers(s, nm, m, s.dx[1], s.dy[1], 3.0, false);
                        nx_free(m); drop(a); drop(b);
                        nx_sift_detector_free(det);
                });
                if (s.verbose) {
                        size_t p = e.err.find("# of putative matches is ");
                        if (p == std::string::npos || atoi(e.err.c_str() + p + 25) != nm) V(cls.c_str(), "verbose log does not report the %d putative matches", nm);
                }
                if (!s.steps && s.verbose) {
                        size_t p = e.err.find("# of inliers is ");
                        int ni = p == std::string::npos ? -1 : atoi(e.err.c_str() + p + 16);
                        if (ni < 0 || ni > nm) V(cls.c_str(), "%d inliers of %d putative matches reported", ni, nm);
                        if (nm >= 20 && hi <= nm - 8 && ni >= nm) V(cls.c_str(), "all %d correspondences called inliers, at most %d can be", nm, hi);
                        if (s.related && lo >= 12 && lo == nm && s.n_vpts) {
                                size_t q = e.err.find("Forward Transfer Error: ");
                                probe("fit: transfer error");
                                if (q == std::string::npos || !(atof(e.err.c_str() + q + 24) < 20.0)) V(cls.c_str(), "all %d correspondences agree, but the validation points are off: %.80s", nm, q == std::string::npos ? "" : e.err.c_str() + q);
                        }
                }
                if (!s.steps) { if (!e.out.empty()) V(cls.c_str(), "unexpected text on stdout: '%.100s'", e.out.c_str()); break; }
                auto l = lines(e.out);
                if (l.size() != 1) V(cls.c_str(), "%zu lines instead of one", l.size());
                auto f = fields(l[0]);
                size_t want = 1 + (s.has_gt ? 2 : 0) + 1 + 14 + (s.n_vpts ? 7 : 0), p = 1;
                if (f.size() != want) V(cls.c_str(), "%zu columns instead of %zu: '%s'", f.size(), want, l[0].c_str());
                if (f[0] != nm) V(cls.c_str(), "reports %g correspondences, there are %d", f[0], nm);
                if (s.has_gt) {
                        if (f[1] < lo || f[1] > hi) V(cls.c_str(), "reports %g ground truth inliers, there are %d", f[1], lo);
                        if (nm && std::fabs(f[2] - 100.0 * f[1] / nm) > 0.06) V(cls.c_str(), "inlier ratio %g is not %g of %d", f[2], f[1], nm);
                        p = 3;
                }
                if (f[p] != s.steps) V(cls.c_str(), "reports %g steps, asked for %d", f[p], s.steps);
                ordered(cls.c_str(), f, p + 1, "inlier");
                if (f[p + 7] > nm) V(cls.c_str(), "more inliers (%g) than correspondences (%d)", f[p + 7], nm);
                ordered(cls.c_str(), f, p + 8, "time");
                if (nm >= 20 && hi <= nm - 8) {
                        probe("fit: contaminated correspondences");
                        if (f[p + 7] >= nm) V(cls.c_str(), "all %d correspondences called inliers, at most %d can be", nm, hi);
                }
                if (s.related && lo >= 12 && lo == nm) {
                        probe("fit: clean correspondences");
                        if (s.n_vpts && !(f[p + 15 + 2] < 3.0)) V(cls.c_str(), "all %d correspondences agree, but the validation points are off by %g or more", nm, f[p + 15 + 2]);
                        if (f[p + 7] < 0.9 * nm) V(cls.c_str(), "all %d correspondences agree, but at most %g were found in %d runs", nm, f[p + 7], s.steps);
                }
                break;
        }
        case T_STITCH: {
                auto it = e.files.find("/tmp/panorama.jpeg");
                if (it == e.files.end()) V(("missing-output" + at).c_str(), "success reported without a panorama");
                Ref r; std::string why;
                if (!decode_jpeg(it->second, r, 1, &why)) V(cls.c_str(), "the panorama is not a complete JPEG picture: %s", why.c_str());
                if (!s.related) V(("unrelated-accepted" + at).c_str(), "success reported although one of the pictures shows something else");
                if (s.persp) { check_tilted(s, r, cls.c_str()); break; }
                int x0 = 1 << 20, y0 = 1 << 20, x1 = 0, y1 = 0;
                for (size_t i = 0; i < s.pics.size(); ++i) { x0 = std::min(x0, s.dx[i]); y0 = std::min(y0, s.dy[i]); x1 = std::max(x1, s.dx[i] + s.vw); y1 = std::max(y1, s.dy[i] + s.vh); }
                Ref whole = crop(s.tex, s.tw, x0, y0, x1 - x0, y1 - y0), seen = whole;
                for (int y = y0; y < y1; ++y) for (int x = x0; x < x1; ++x) {
                        bool in = false;
                        for (size_t i = 0; i < s.pics.size() && !in; ++i) { int a = x - s.dx[i], b = y - s.dy[i]; in = a >= 3 && b >= 3 && a < s.vw - 3 && b < s.vh - 3; }
                        seen.px[(size_t)(y - y0) * seen.w + x - x0] = in;
                }
                double best = 1e9;
                bool size_ok = false;
                for (size_t i = 0; i < s.pics.size(); ++i) {          // in the frame of one of the views
                        Ref w = turned(whole, s.turn[i]), m = turned(seen, s.turn[i]);
                        if (std::abs(r.w - w.w) > 6 + w.w / 16 || std::abs(r.h - w.h) > 6 + w.h / 16) continue;
                        size_ok = true;
                        const int B = 12;               // block by block, each within a few pixels of its place
                        double total = 0; int blocks = 0;
                        for (int by = 4; by + B <= r.h - 4; by += B) for (int bx = 4; bx + B <= r.w - 4; bx += B) {
                                double m1 = 1e9;
                                for (int ox = -4; ox <= 4; ++ox) for (int oy = -4; oy <= 4; ++oy) {
                                        int sum = 0; bool in = true;
                                        for (int y = by; y < by + B && in; ++y) for (int x = bx; x < bx + B; ++x) {
                                                int tx = x + ox, ty = y + oy;
                                                if (tx < 0 || ty < 0 || tx >= w.w || ty >= w.h || !m.px[(size_t)ty * w.w + tx]) { in = false; break; }
                                                sum += std::abs((int)r.px[(size_t)y * r.w + x] - (int)w.px[(size_t)ty * w.w + tx]);
                                        }
                                        if (in) m1 = std::min(m1, sum / (double)(B * B));
                                }
                                if (m1 < 1e9) { total += m1; ++blocks; }
                        }
                        if (blocks) best = std::min(best, total / blocks);
                }
                if (!size_ok) V(cls.c_str(), "panorama is %dx%d, the views cover %dx%d", r.w, r.h, x1 - x0, y1 - y0);
                if (s.turn[0] != s.turn[1] || (s.pics.size() > 2 && s.turn[2] != s.turn[1])) probe("stitch: turned views");
                hash_mix((uint64_t)(best * 10));
                probe("stitch: panorama verified");
                if (best > 11) V(cls.c_str(), "the panorama does not show the views (mean difference %.1f grey levels)", best);
                break;
        }
        default: break;
        }
}
bool same_output(const Scene& s, const Ended& a, const Ended& b, std::string* why) {
        auto mask = [&](const std::string& t) {      // measured times are not part of the result
                if (s.tool != T_BENCH && !(s.tool == T_FIT && s.steps)) return t;
                std::string o;
                for (auto& l : lines(t)) {
                        size_t i = 0, p = 0;
                        size_t lo = s.tool == T_BENCH ? 4 : 1 + (s.has_gt ? 2 : 0) + 8, hi = s.tool == T_BENCH ? 5 : lo + 6;
                        while (p <= l.size()) { size_t e = l.find(',', p); if (e == std::string::npos) e = l.size(); o += (i >= lo && i <= hi) ? std::string("t") : l.substr(p, e - p); o += ','; p = e + 1; ++i; }
                        o += '\n';
                }
                return o;
        };
        if (mask(a.out) != mask(b.out)) { *why = "standard output differs (" + std::to_string(b.out.size()) + " bytes instead of " + std::to_string(a.out.size()) + "): '" + b.out.substr(0, 300) + "' instead of '" + a.out.substr(0, 300) + "'"; return false; }
        for (auto& f : a.files) {
                auto it = b.files.find(f.first);
                if (it == b.files.end()) { *why = f.first + " is missing"; return false; }
                if (it->second != f.second) { *why = f.first + " differs (" + std::to_string(it->second.size()) + " bytes instead of " + std::to_string(f.second.size()) + ")"; return false; }
        }
        return true;
}
void orderly(const Scene& s, const Ended& e, const char* when) {
        std::string at = std::string("@") + TOOL[s.tool].name;
        if (e.status != 0 && e.err.empty()) V(("silent-failure" + at).c_str(), "exit status %d without a word on stderr (%s)", e.status, when);
}
const std::vector<Kind> FAULTS = {K_OPEN_FAIL, K_READ_EIO, K_WRITE_EIO, K_WRITE_ENOSPC, K_CLOSE_FAIL, K_ALLOC_FAIL, K_ALLOC_STICKY, K_CRASH};
Scene S;
Ended base, got;
void run_c21() {
        draw_knobs();
        knobs().rand_extremes = 0;
        knobs().same_second = true;             // the seed of the random samples is the clock's
        S = draw_scene();
        std::string at = std::string("@") + TOOL[S.tool].name, why;
        S.put();
        base = run_tool(S.tool, S.args, Plan::none());
        orderly(S, base, "no fault injected");
        bool expect_ok = S.tool == T_HARRIS || S.tool == T_SIFT || S.tool == T_BENCH || S.tool == T_FIT;
        if (base.status != 0) {
                if (expect_ok) V(("spurious-failure" + at).c_str(), "exit status %d although nothing failed: %.300s", base.status, base.err.c_str());
                probe(S.related ? "related views refused" : "unrelated views refused");
        } else { check_output(S, base); probe(TOOL[S.tool].name); }
        hash_bytes(base.out.data(), S.tool == T_BENCH || S.tool == T_FIT ? 0 : base.out.size());
        int m = 1 + choose(3);
        while (m-- > 0) {
                Plan p = draw_plan(FAULTS, base.r.ev, 2);
                if (p.empty()) break;
                bool keep = chance(1, 2);
                if (!keep) S.put();             // else: over the files of the earlier invocations
                got = run_tool(S.tool, S.args, p);
                hash_mix(got.status);
                if (got.r.how == OpResult::CRASHED) { probe("killed half way"); continue; }
                orderly(S, got, p.str().c_str());
                if (got.status != 0) {
                        if (!got.r.hard && base.status == 0) V(("spurious-failure" + at).c_str(), "exit status %d although no fault was injected", got.status);
                        probe("failure reported");
                        continue;
                }
                if (base.status != 0) { if (!S.random) V(("failure-lost" + at).c_str(), "succeeds under %s, fails without", p.str().c_str()); continue; }
                probe(got.r.hard ? "success under fault" : "success");
                if (!same_output(S, base, got, &why)) V(("incomplete-output" + at).c_str(), "exit status 0 under %s, but %s", p.str().c_str(), why.c_str());
        }
        // the next invocation works whatever the earlier ones left behind
        got = run_tool(S.tool, S.args, Plan::none());
        if (got.status != base.status) V(("not-repeatable" + at).c_str(), "exit status %d, first run %d", got.status, base.status);
        if (base.status == 0 && !same_output(S, base, got, &why)) V(("not-repeatable" + at).c_str(), "a later run with the same input gives a different result: %s", why.c_str());
        // damaged input and wrong usage: no crash, no success
        if (chance(1, 3)) {
                S.put();
                std::string f = S.tool == T_BENCH ? "/in/vgg/bark/img1.ppm" : S.names[choose((uint32_t)S.names.size())];
                std::string d = vfs_get(f);
                int how = choose(3);
                if (how == 0) vfs().erase(f);
                else if (how == 1) vfs_put(f, d.substr(0, choose((uint32_t)(d.size() - d.size() / 8))));
                else vfs_put(f, "no picture at all\n");
                note_kind(K_TRUNC);
                got = run_tool(S.tool, S.args, Plan::none());
                orderly(S, got, "damaged input");
                if (got.status == 0) V(("damage-accepted" + at).c_str(), "exit status 0 although an input picture %s", how == 0 ? "is missing" : how == 1 ? "is cut short" : "is no picture");
                probe("damaged input refused");
        }
        if (S.tool == T_FIT && !S.extra.empty() && chance(1, 2)) {
                S.put();
                auto it = S.extra.begin();
                if (S.extra.size() > 1 && choose(2)) ++it;
                std::string d = it->second;
                int how = choose(3);
                if (how == 0) vfs().erase(it->first);
                else if (how == 1) vfs_put(it->first, d.substr(0, d.rfind('\n', d.size() - 2) + 1));           // last row gone
                else vfs_put(it->first, d + d.substr(0, d.find('\n') + 1));                                     // one row too many
                note_kind(K_TRUNC);
                got = run_tool(S.tool, S.args, Plan::none());
                orderly(S, got, "damaged matrix");
                if (got.status == 0) V(("damage-accepted" + at).c_str(), "exit status 0 although %s %s", it->first.c_str(), how == 0 ? "is missing" : "has a wrong number of rows");
                probe("damaged matrix refused");
        }
        if (chance(1, 4)) {
                S.put();
                Args a = S.args;
                bool help = choose(2);
                if (help) a.insert(a.begin(), choose(2) ? "--help" : "-h");
                else if (S.tool != T_BENCH && S.tool != T_STITCH) { a.erase(a.begin(), a.begin() + 2); }
                else a = {"--dist-ratio-thr"};
                got = run_tool(S.tool, a, Plan::none());
                orderly(S, got, "wrong usage");
                if (!help && got.status == 0) V(("usage-error-accepted" + at).c_str(), "exit status 0 although a required argument is missing");
                if (help && (got.out + got.err).find("--help") == std::string::npos) V(("no-help" + at).c_str(), "--help does not print the usage");
        }
}
Reg r21({"C21", run_c21,
         "one run = one command line of one of the six tools on pictures made for it (lossless PNM or PNG, crops of one texture at known offsets, an 8-sequence VGG tree, ground truth and validation files), run to completion and compared with a model of its output, "
         "then 1-3 times under up to two drawn faults (open, read, write, disk full, close, allocation, kill) over fresh or left-over files, once more without faults, and sometimes with damaged pictures or wrong usage; "
         "non-trivial = a fault was injected; distinct = different sequence of seam events, faults and outcomes",
         3000, 40000});
}  // namespace
