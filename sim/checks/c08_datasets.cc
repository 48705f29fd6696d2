// C08: dataset readers (KITTI SLAM, VGG affine, Temple Color 128) give exactly what the files say or stop.
#include "img.h"
#include "virg/nexus/nx_kitti_slam.h"
#include "virg/nexus/nx_temple_color_128.h"
#include "virg/nexus/nx_vgg_affine_dataset.h"

namespace {
std::string num(Rng& r, double* v, bool f32 = false) {
        static const char* fmts[] = {"%.17g", "%.6e", "%.3f", "%g"};
        char b[64];
        double d = r.below(12) == 0 ? 0.0 : r.below(6) == 0 ? (double)(int)r.below(2000) - 1000 : (r.unit() - 0.5) * std::pow(10.0, (int)r.below(9) - 3);
        snprintf(b, sizeof b, fmts[r.below(4)], d);
        *v = f32 ? (double)strtof(b, nullptr) : strtod(b, nullptr);
        return b;
}
bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
const std::vector<Kind> DS_FAULTS = {K_OPEN_FAIL, K_READ_EIO, K_READ_EIO, K_DIR_FAIL, K_ALLOC_FAIL, K_ALLOC_STICKY};

enum NXImageLoadMode draw_mode() { static const enum NXImageLoadMode m[] = {NX_IMAGE_LOAD_AS_IS, NX_IMAGE_LOAD_GRAYSCALE, NX_IMAGE_LOAD_RGBA}; return m[choose(3)]; }
struct Frame { std::string path, bytes; Ref want; };
Frame draw_frame(const std::string& path, Fmt f, enum NXImageLoadMode m = NX_IMAGE_LOAD_AS_IS) {
        Frame fr;
        fr.path = path;
        Ref ref = draw_ref(20, f == F_JPEG);
        if (f == F_PNG) { fill_ref(ref, false, 0, choose(1 << 16)); fr.bytes = encode_png(ref.ch == 4 ? ref : ref, ref.ch == 4 ? 3 : 0, 8, false, false); fr.want = ref; if (ref.ch == 1) { Ref q = ref; q.ch = 4; q.px.clear(); for (unsigned char c : ref.px) { q.px.push_back(c); q.px.push_back(c); q.px.push_back(c); q.px.push_back(255); } fr.bytes = encode_png(q, 0, 8, false, false); } }
        else if (f == F_PNM) { fr.bytes = encode_pnm(ref, 0); fr.want = ref; if (ref.ch == 4) for (size_t i = 3; i < fr.want.px.size(); i += 4) fr.want.px[i] = 255;
                int ch = m == NX_IMAGE_LOAD_GRAYSCALE ? 1 : m == NX_IMAGE_LOAD_RGBA ? 4 : ref.ch;
                if (ch != ref.ch) {
                        Ref q = fr.want;
                        q.ch = ch;
                        q.px.clear();
                        for (int k = 0; k < ref.w * ref.h; ++k) {
                                const unsigned char* p = &fr.want.px[(size_t)k * ref.ch];
                                if (ch == 1) push_luma(q, p[0], p[1], p[2]); else { q.px.push_back(p[0]); q.px.push_back(p[0]); q.px.push_back(p[0]); q.px.push_back(255); }
                        }
                        fr.want = q;
                }
        }
        else { std::string why; fr.bytes = encode_jpeg(ref, false, 80); decode_jpeg(fr.bytes, fr.want, m == NX_IMAGE_LOAD_GRAYSCALE ? 1 : m == NX_IMAGE_LOAD_RGBA ? 4 : 0, &why); }
        vfs_put(path, fr.bytes);
        return fr;
}
// load of one frame: fault-free exact, then under faults exact or fatal
void frame_cases(const Frame& fr, const char* who, const std::function<void(struct NXImage*)>& load) {
        struct NXImage* img = nullptr;
        std::string why;
        run_clean("alloc", [&] { img = nx_image_alloc(); });
        OpResult base = run_clean("load frame", [&] { load(img); });
        if (!image_equals(img, fr.want, &why)) V("frame-differs", "%s: frame %s came back different: %s", who, fr.path.c_str(), why.c_str());
        if (chance(1, 2)) {
                Plan plan = draw_plan({K_OPEN_FAIL, K_READ_EIO, K_READ_EOF, K_ALLOC_FAIL}, base.ev, 2);
                size_t e0 = sim_stderr().size();
                OpResult r = run_op("load frame under faults", plan, [&] { load(img); });
                if (r.ok()) { if (!image_equals(img, fr.want, &why)) V("frame-differs", "%s: frame %s loaded under %s is wrong: %s", who, fr.path.c_str(), plan.str().c_str(), why.c_str()); }
                else { if (!r.hard) V("spurious-failure", "%s: frame load failed without a fault", who); expect_orderly_fatal(r, "load frame", e0); img = nullptr; }
                hash_mix(r.how);
        }
        if (chance(1, 3)) {
                std::string keep = vfs_get(fr.path);
                if (chance(1, 2)) vfs().erase(vfs_norm(fr.path)); else vfs_put(fr.path, keep.substr(0, choose(keep.size())));
                note_kind(K_TRUNC);
                if (!img) run_clean("alloc", [&] { img = nx_image_alloc(); });
                size_t e0 = sim_stderr().size();
                OpResult r = run_op("load missing or torn frame", Plan::none(), [&] { load(img); });
                if (r.ok()) { if (!image_equals(img, fr.want, &why)) V("torn-frame-accepted", "%s: a missing or torn frame was accepted: %s", who, why.c_str()); }
                else { expect_orderly_fatal(r, "load frame", e0); img = nullptr; }
                vfs_put(fr.path, keep);
        }
        if (img) run_clean("free", [&] { nx_image_free(img); });
}
std::string join(const std::vector<std::string>& l, bool final_nl = true) { std::string s; for (auto& x : l) s += x + "\n"; if (!final_nl && !s.empty()) s.pop_back(); return s; }

void kitti() {
        Rng r(choose(1u << 24));
        int len = choose(8) == 0 ? (chance(1, 3) ? range(1295, 1305) : range(295, 305)) : small(20);
        int sid = choose(NX_KITTI_SLAM_MAX_SEQ_ID);
        bool gt = !chance(1, 4), lidar = chance(1, 2);
        char b[64];
        std::string base = "/k", seq;
        snprintf(b, sizeof b, "%02d", sid);
        seq = base + "/sequences/" + b;
        vfs_mkdir(base); vfs_mkdir(base + "/sequences"); vfs_mkdir(seq); vfs_mkdir(base + "/poses");
        bool other[NX_KITTI_SLAM_MAX_SEQ_ID] = {false};
        other[sid] = true;
        for (int i = 0; i < 3; ++i) { int k = choose(NX_KITTI_SLAM_MAX_SEQ_ID); snprintf(b, sizeof b, "/sequences/%02d", k); vfs_mkdir(base + b); other[k] = true; }
        snprintf(b, sizeof b, "/poses/%02d.txt", sid);
        std::string posef = base + b, timesf = seq + "/times.txt", calibf = seq + "/calib.txt";
        std::vector<std::vector<double>> P(len, std::vector<double>(12));
        std::vector<double> T(len);
        double C[4][12];
        std::vector<std::string> pl, tl, cl;
        for (int i = 0; i < len; ++i) {
                std::string l;
                for (int k = 0; k < 12; ++k) { double v; l += (k ? " " : "") + num(r, &v); P[i][(k % 4) * 3 + k / 4] = v; }
                pl.push_back(l);
                double v;
                tl.push_back(num(r, &v));
                T[i] = v;
        }
        for (int c = 0; c < 4; ++c) {
                std::string l = "P" + std::to_string(c) + ":";
                for (int k = 0; k < 12; ++k) { double v; l += " " + num(r, &v); C[c][(k % 4) * 3 + k / 4] = v; }
                cl.push_back(l);
        }
        if (gt) vfs_put(posef, join(pl, chance(3, 4)));
        vfs_put(timesf, join(tl, chance(3, 4)));
        vfs_put(calibf, join(cl) + (chance(1, 3) ? "Tr: 1 2 3 4 5 6 7 8 9 10 11 12\n" : ""));
        bool cam[4];
        for (int c = 0; c < 4; ++c) { cam[c] = chance(2, 3); if (cam[c]) vfs_mkdir(seq + "/image_" + std::to_string(c)); }
        if (lidar) vfs_mkdir(seq + "/velodyne");
        op("kitti sequence %d, %d frames, gt=%d", sid, len, gt);
        struct NXKittiSLAM* ds = nullptr;
        struct NXKittiSLAMSequence* sq = nullptr;
        auto load = [&] { ds = nx_kitti_slam_new(base.c_str()); sq = nx_kitti_slam_sequence_new(ds, sid); };
        auto unload = [&] { nx_kitti_slam_sequence_free(sq); nx_kitti_slam_free(ds); };
        auto judge = [&](const OpResult& r, const char* why) {
                bool dirf = r.fired[K_DIR_FAIL] || r.fired[K_ALLOC_FAIL] || r.fired[K_ALLOC_STICKY], openf = r.fired[K_OPEN_FAIL] || r.fired[K_ALLOC_FAIL] || r.fired[K_ALLOC_STICKY];
                for (int i = 0; i < NX_KITTI_SLAM_MAX_SEQ_ID; ++i) if (!!ds->is_seq_available[i] != other[i] && !(dirf && !ds->is_seq_available[i])) V("kitti-differs", "availability of sequence %d is wrong %s", i, why);
                if (sq->seq_id != sid || sq->length != len) V("kitti-differs", "sequence has length %d, files say %d %s", sq->length, len, why);
                if (!!sq->is_gt_available != gt && !(openf && !sq->is_gt_available)) V("kitti-differs", "ground truth availability is wrong %s", why);
                for (int i = 0; i < len; ++i) {
                        if (!same(sq->times[i], T[i])) V("kitti-differs", "time %d differs %s", i, why);
                        if (sq->is_gt_available) for (int k = 0; k < 12; ++k) if (!same(sq->poses[i][k], P[i][k])) V("kitti-differs", "pose %d element %d is %.17g, file says %.17g %s", i, k, sq->poses[i][k], P[i][k], why);
                }
                if (!sq->is_gt_available && sq->poses) V("kitti-differs", "poses without ground truth %s", why);
                for (int c = 0; c < 4; ++c) {
                        for (int k = 0; k < 12; ++k) if (!same(sq->calib[c][k], C[c][k])) V("kitti-differs", "calibration %d element %d differs %s", c, k, why);
                        if (!!sq->is_cam_available[c] != cam[c] && !(dirf && !sq->is_cam_available[c])) V("kitti-differs", "availability of camera %d is wrong %s", c, why);
                }
                if (!!sq->is_lidar_available != lidar && !(dirf && !sq->is_lidar_available)) V("kitti-differs", "lidar availability is wrong %s", why);
        };
        OpResult base_r = run_clean("kitti sequence", load);
        judge(base_r, "on a healthy dataset");
        for (int c = 0; c < 4; ++c) if (cam[c] && len > 0) {
                int id = choose(len);
                snprintf(b, sizeof b, "/image_%d/%06d.png", c, id);
                Frame fr = draw_frame(seq + b, F_PNG);
                frame_cases(fr, "kitti", [&](struct NXImage* im) { nx_kitti_slam_sequence_xload_frame(sq, c, id, im); });
                break;
        }
        run_clean("free", unload);
        int nf = choose(3);
        for (int i = 0; i < nf; ++i) {
                size_t e0 = sim_stderr().size();
                if (chance(1, 2)) {
                        Plan plan = draw_plan(DS_FAULTS, base_r.ev, 2);
                        OpResult r2 = run_op("kitti sequence under faults", plan, load);
                        if (r2.ok()) { judge(r2, ("under " + plan.str()).c_str()); run_clean("free", unload); }
                        else { if (!r2.hard) V("spurious-failure", "kitti reader failed without a fault"); expect_orderly_fatal(r2, "kitti sequence", e0); }
                        hash_mix(r2.how);
                } else {
                        // lines missing from one of the files
                        int w = choose(4);
                        std::string keep[3] = {gt ? vfs_get(posef) : "", vfs_get(timesf), vfs_get(calibf)};
                        bool must = true;
                        auto torn_line = [&](const std::string& l) { // 1..11 of the 12 numbers of a line
                                std::string s = l.substr(0, l[0] == 'P' ? l.find(' ') + 1 : 0), t = l.substr(s.size());
                                size_t p = 0;
                                for (int k = 1 + choose(11); k > 0; --k) p = t.find(' ', p) + 1;
                                return s + t.substr(0, p - choose(2));
                        };
                        if (chance(1, 3) && w != 3 && w != 1) {
                                if (w == 0) { if (!gt || len == 0) must = false; else { std::vector<std::string> q = pl; q.back() = torn_line(q.back()); vfs_put(posef, join(q, chance(1, 2))); } }
                                else { std::vector<std::string> q = cl; q.back() = torn_line(q.back()); vfs_put(calibf, join(q, chance(1, 2))); }
                        }
                        else if (w == 0) { if (!gt || len == 0) { must = false; } else { std::vector<std::string> q(pl.begin(), pl.begin() + choose(len)); vfs_put(posef, join(q)); } }
                        else if (w == 1) { if (len == 0 || !gt) must = false; else { std::vector<std::string> q(tl.begin(), tl.begin() + choose(len)); vfs_put(timesf, join(q)); } }
                        else if (w == 2) { std::vector<std::string> q(cl.begin(), cl.begin() + choose(4)); vfs_put(calibf, join(q)); }
                        else vfs().erase(vfs_norm(chance(1, 2) ? timesf : calibf));
                        note_kind(K_TRUNC);
                        OpResult r2 = run_op("kitti sequence with missing lines", Plan::none(), load);
                        if (r2.ok()) { if (must) V("incomplete-dataset-accepted", "a KITTI sequence with %s was accepted", w == 0 ? "missing poses" : w == 1 ? "missing times" : w == 2 ? "missing calibration lines" : "a missing file"); run_clean("free", unload); }
                        else expect_orderly_fatal(r2, "kitti sequence", e0);
                        if (gt) vfs_put(posef, keep[0]);
                        vfs_put(timesf, keep[1]);
                        vfs_put(calibf, keep[2]);
                }
        }
}
void vgg() {
        Rng r(choose(1u << 24));
        std::string name = NX_VGG_AFFINE_SEQ_NAMES[choose(NX_VGG_AFFINE_N_SEQ)], dir = "/v/" + name;
        vfs_mkdir("/v"); vfs_mkdir(dir);
        double H[6][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}};
        std::vector<std::string> files(6), text(6);
        for (int i = 1; i < 6; ++i) {
                std::string t;
                for (int k = 0; k < 9; ++k) { double v; t += num(r, &v); t += k % 3 == 2 ? "\n" : r.below(2) ? " " : "   "; H[i][(k % 3) * 3 + k / 3] = v; }
                if (r.below(3) == 0) t += "\n";
                files[i] = dir + "/H1to" + std::to_string(i + 1) + "p";
                text[i] = t;
                vfs_put(files[i], t);
        }
        op("vgg sequence %s", name.c_str());
        struct NXVGGAffineSequence* sq = nullptr;
        auto load = [&] { sq = nx_vgg_affine_sequence_new("/v", name.c_str()); };
        auto unload = [&] { nx_vgg_affine_sequence_free(sq); };
        auto judge = [&](const char* why) {
                if (sq->length != 6 || name != sq->name || strcmp(sq->base_dir, "/v")) V("vgg-differs", "sequence header is wrong %s", why);
                for (int i = 0; i < 6; ++i) for (int k = 0; k < 9; ++k) if (!same(sq->h[i][k], H[i][k])) V("vgg-differs", "homography %d element %d is %.17g, file says %.17g %s", i, k, sq->h[i][k], H[i][k], why);
        };
        OpResult base = run_clean("vgg sequence", load);
        judge("on a healthy dataset");
        int id = choose(6);
        enum NXImageLoadMode mode = draw_mode();
        Frame fr = draw_frame(dir + "/img" + std::to_string(id + 1) + (chance(1, 2) ? ".ppm" : ".pgm"), F_PNM, mode);
        frame_cases(fr, "vgg", [&](struct NXImage* im) { nx_vgg_affine_sequence_xload_frame(sq, id, im, mode); });
        run_clean("free", unload);
        int nf = choose(3);
        for (int i = 0; i < nf; ++i) {
                size_t e0 = sim_stderr().size();
                if (chance(1, 2)) {
                        Plan plan = draw_plan(DS_FAULTS, base.ev, 2);
                        OpResult r2 = run_op("vgg sequence under faults", plan, load);
                        if (r2.ok()) { judge(("under " + plan.str()).c_str()); run_clean("free", unload); }
                        else { if (!r2.hard) V("spurious-failure", "vgg reader failed without a fault"); expect_orderly_fatal(r2, "vgg sequence", e0); }
                        hash_mix(r2.how);
                } else {
                        int w = 1 + choose(5);
                        note_kind(K_TRUNC);
                        bool gone = chance(1, 3);
                        if (gone) vfs().erase(vfs_norm(files[w]));
                        else if (chance(1, 2)) { // the file ends after 1..8 of the 9 numbers
                                size_t p = 0;
                                for (int k = 1 + choose(8); k > 0; --k) { p = text[w].find_first_not_of(" \n", p); p = text[w].find_first_of(" \n", p); }
                                vfs_put(files[w], text[w].substr(0, p) + (chance(1, 2) ? "\n" : ""));
                        }
                        else { size_t l = text[w].find('\n'); if (chance(1, 2)) l = text[w].find('\n', l + 1); vfs_put(files[w], text[w].substr(0, l + 1)); }
                        OpResult r2 = run_op("vgg sequence with missing lines", Plan::none(), load);
                        if (r2.ok()) V("incomplete-dataset-accepted", "a VGG sequence with %s was accepted", gone ? "a missing file" : "missing rows");
                        expect_orderly_fatal(r2, "vgg sequence", e0);
                        vfs_put(files[w], text[w]);
                }
        }
}
void temple() {
        Rng r(choose(1u << 24));
        static const char* names[] = {"Bolt", "Yo-yos_ce3", "Airport_ce", "David3", "Torus"};
        static const char* attr[] = {"VI", "SV", "OCC", "DEF", "MB", "FM", "IPR", "OPR", "OV", "BC", "LR"};
        std::string name = names[choose(5)], dir = "/t/" + name;
        vfs_mkdir("/t"); vfs_mkdir(dir); vfs_mkdir(dir + "/img");
        int start = choose(3) == 0 ? range(2, 300) : 1, len = 1 + small(40);
        unsigned mask = 0;
        std::string at, gtx;
        std::vector<std::string> gl;
        for (int i = 0; i < 11; ++i) { int k = r.below(11); if (r.below(2) && !(mask & (1u << k))) { mask |= 1u << k; at += std::string(attr[k]) + (r.below(4) ? "\n" : "\r\n"); } }
        if (!at.empty() && r.below(3) == 0) at.pop_back();
        std::vector<std::vector<float>> G;
        for (int i = 0; i < len; ++i) {
                std::string l;
                std::vector<float> g;
                for (int k = 0; k < 4; ++k) { double v; l += (k ? "," : "") + num(r, &v, true); g.push_back((float)v); }
                gl.push_back(l);
                G.push_back(g);
        }
        std::string ff = dir + "/" + name + "_frames.txt", af = dir + "/" + name + "_att.txt", gf = dir + "/" + name + "_gt.txt";
        auto fno = [&](int v) { std::string s = std::to_string(v); int k = r.below(4); return k == 0 ? std::string(4 - std::min<size_t>(4, s.size()), '0') + s : k == 1 ? " " + s : s; };
        vfs_put(ff, fno(start) + "," + fno(start + len - 1) + (r.below(2) ? "\n" : ""));
        vfs_put(af, at);
        vfs_put(gf, join(gl, r.below(3) != 0));
        op("temple color sequence %s frames %d..%d", name.c_str(), start, start + len - 1);
        struct NXTempleColor128Sequence* sq = nullptr;
        auto load = [&] { sq = nx_temple_color_128_sequence_new("/t", name.c_str()); };
        auto unload = [&] { nx_temple_color_128_sequence_free(sq); };
        auto judge = [&](const char* why) {
                if (name != sq->name || sq->start_frame != start || sq->end_frame != start + len - 1 || sq->length != len) V("temple-differs", "frame range %d..%d (%d) instead of %d..%d %s", sq->start_frame, sq->end_frame, sq->length, start, start + len - 1, why);
                if (sq->attributes != mask) V("temple-differs", "attributes 0x%x, file says 0x%x %s", sq->attributes, mask, why);
                for (int i = 0; i < len; ++i) for (int k = 0; k < 4; ++k) if (memcmp(&sq->ground_truth[i][k], &G[i][k], 4)) V("temple-differs", "ground truth %d element %d differs %s", i, k, why);
        };
        OpResult base = run_clean("temple sequence", load);
        judge("on a healthy dataset");
        int id = start + choose(len);
        char b[32];
        snprintf(b, sizeof b, "/img/%04d.jpg", id);
        enum NXImageLoadMode mode = draw_mode();
        Frame fr = draw_frame(dir + b, F_JPEG, mode);
        frame_cases(fr, "temple color", [&](struct NXImage* im) { nx_temple_color_128_sequence_xload_frame(sq, id, im, mode); });
        run_clean("free", unload);
        int nf = choose(3);
        for (int i = 0; i < nf; ++i) {
                size_t e0 = sim_stderr().size();
                if (chance(1, 2)) {
                        Plan plan = draw_plan(DS_FAULTS, base.ev, 2);
                        OpResult r2 = run_op("temple sequence under faults", plan, load);
                        if (r2.ok()) { judge(("under " + plan.str()).c_str()); run_clean("free", unload); }
                        else { if (!r2.hard) V("spurious-failure", "temple color reader failed without a fault"); expect_orderly_fatal(r2, "temple sequence", e0); }
                        hash_mix(r2.how);
                } else {
                        std::string keep[3] = {vfs_get(ff), vfs_get(af), vfs_get(gf)};
                        int w = choose(4);
                        note_kind(K_TRUNC);
                        if (w == 3) { // the file ends inside the last ground truth line
                                std::string last = gl.back();
                                int c = choose(4);
                                size_t p = 0;
                                for (int k = 0; k < c; ++k) p = last.find(',', p) + 1;
                                if (c && chance(1, 2)) --p;
                                std::vector<std::string> q = gl;
                                q.back() = last.substr(0, p);
                                vfs_put(gf, join(q, chance(1, 2)));
                        } else if (w == 0) { std::vector<std::string> q(gl.begin(), gl.begin() + choose(len)); vfs_put(gf, join(q)); }
                        else if (w == 1) vfs_put(ff, chance(1, 2) ? "" : std::to_string(start));
                        else vfs().erase(vfs_norm(chance(1, 2) ? ff : chance(1, 2) ? af : gf));
                        OpResult r2 = run_op("temple sequence with missing lines", Plan::none(), load);
                        if (r2.ok()) V("incomplete-dataset-accepted", "a Temple Color sequence with %s was accepted", w == 0 || w == 3 ? "missing ground truth" : w == 1 ? "a torn frame range" : "a missing file");
                        expect_orderly_fatal(r2, "temple sequence", e0);
                        vfs_put(ff, keep[0]); vfs_put(af, keep[1]); vfs_put(gf, keep[2]);
                }
        }
}
void run() {
        draw_knobs();
        switch (choose(3)) { case 0: kitti(); break; case 1: vgg(); break; default: temple(); }
}
Reg reg({"C08", run,
         "one run = one synthetic KITTI, VGG affine or Temple Color 128 dataset (lengths across the reader's growth steps, number formats, optional parts, missing final newline) read fault-free, one frame "
         "image loaded, then read up to twice with open/read/directory/allocation faults or with lines or files missing; non-trivial = a fault, short read or missing part was injected; "
         "distinct = different seam event/fault/outcome sequence",
         36000, 250000});
}
