// C02: a load that reports success returned exactly the stored image.
#include "img.h"
#include "virg/nexus/vg_image.hpp"

namespace {
using virg::nexus::VGImage;
int do_load(struct NXImage* img, const char* path, int api, Fmt f, enum NXImageLoadMode m) {
        switch (api) {
        case 0: return nx_image_load(img, path, m) == NX_OK;
        case 1: nx_image_xload(img, path, m); return 1;
        case 2: return (f == F_PNM ? nx_image_load_pnm(img, path, m) : f == F_PNG ? nx_image_load_png(img, path, m) : nx_image_load_jpeg(img, path, m)) == NX_OK;
        case 3:
                if (f == F_PNM) nx_image_xload_pnm(img, path, m);
                else if (f == F_PNG) nx_image_xload_png(img, path, m);
                else nx_image_xload_jpeg(img, path, m);
                return 1;
        default: {
                VGImage v(img, false);
                VGImage::LoadMode vm = m == NX_IMAGE_LOAD_AS_IS ? VGImage::LOAD_AS_IS : m == NX_IMAGE_LOAD_RGBA ? VGImage::LOAD_RGBA : VGImage::LOAD_GRAYSCALE;
                if (api == 4) return v.load(path, vm);
                v.xload(path, vm);
                return 1;
        }
        }
}
const char* api_name[] = {"load", "xload", "load_fmt", "xload_fmt", "VGImage.load", "VGImage.xload"};

struct Expect { Ref ref; int tol; };   // tol applies to PNG colour->gray only

Expect expected(const Ref& rgba, Fmt f, const std::string& bytes, int color, int depth, bool trns, enum NXImageLoadMode m) {
        Expect e;
        e.tol = 0;
        if (f == F_JPEG) {
                std::string why;
                decode_jpeg(bytes, e.ref, m == NX_IMAGE_LOAD_GRAYSCALE ? 1 : m == NX_IMAGE_LOAD_RGBA ? 4 : 0, &why);
                return e;
        }
        bool file_gray = f == F_PNM ? rgba.ch == 1 : (color == 0 || color == 1);
        bool out_gray = m == NX_IMAGE_LOAD_GRAYSCALE || (m == NX_IMAGE_LOAD_AS_IS && file_gray);
        e.ref.w = rgba.w; e.ref.h = rgba.h; e.ref.ch = out_gray ? 1 : 4;
        for (int y = 0; y < rgba.h; ++y)
                for (int x = 0; x < rgba.w; ++x) {
                        const unsigned char* p = rgba.at(x, y);
                        int R, G, B, A = 255;
                        if (f == F_PNM) {
                                R = p[0]; G = rgba.ch == 1 ? p[0] : p[1]; B = rgba.ch == 1 ? p[0] : p[2];
                        } else if (color == 4) {
                                int i = p[0] >> (8 - depth);
                                R = i; G = 255 - i; B = (i * 7) & 255;
                                static const int T[4] = {0, 128, 255, 7};
                                if (trns && i < std::min(4, 1 << depth)) A = T[i];
                        } else {
                                int v = p[0];
                                if (color <= 1 && depth < 8) { int q = v >> (8 - depth); v = q * 255 / ((1 << depth) - 1); }
                                R = v; G = color <= 1 ? v : p[1]; B = color <= 1 ? v : p[2];
                                if (color == 3) A = p[3];
                                if (trns && color == 2 && R == 0 && G == 0 && B == 0) A = 0;
                                if (trns && color == 0 && v == 0) A = 0;
                                if (color == 1) A = 255;      // the library drops the alpha of gray+alpha files
                        }
                        if (out_gray) {
                                int g;
                                if (!file_gray && f == F_PNM) { push_luma(e.ref, R, G, B); continue; }
                                if (file_gray) g = R;
                                else { g = (int)(0.30 * R + 0.59 * G + 0.11 * B + 0.5); e.tol = 2; if (R == G && G == B) g = R; }
                                e.ref.px.push_back((unsigned char)g);
                        } else {
                                e.ref.px.push_back(R); e.ref.px.push_back(G); e.ref.px.push_back(B); e.ref.px.push_back(A);
                        }
                }
        return e;
}
bool matches(const struct NXImage* img, const Expect& e, std::string* why) {
        if (e.tol == 0) return image_equals(img, e.ref, why);
        Ref r = e.ref;
        for (int y = 0; y < r.h && y < img->height; ++y)
                for (int x = 0; x < r.w && x < img->width; ++x) {
                        if (img->n_channels != 1 || img->row_stride < r.w) break;
                        int a = img->data.uc[(size_t)y * img->row_stride + x], b = r.px[(size_t)y * r.w + x];
                        if (std::abs(a - b) <= e.tol) r.px[(size_t)y * r.w + x] = a;
                }
        return image_equals(img, r, why);
}
struct NXImage* make_target(int state, const Ref& like) {
        struct NXImage* img = nx_image_alloc();
        switch (state) {
        case 1: nx_image_resize(img, 3, 5, NX_IMAGE_STRIDE_DEFAULT, NX_IMAGE_RGBA, NX_IMAGE_UCHAR); break;
        case 2: nx_image_resize(img, like.w, like.h, like.w * 4 + 5, NX_IMAGE_RGBA, NX_IMAGE_UCHAR); break;
        case 3: nx_image_resize(img, like.w, like.h, like.w + 3, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR); break;
        case 4: nx_image_resize(img, 90, 80, NX_IMAGE_STRIDE_DEFAULT, NX_IMAGE_RGBA, NX_IMAGE_UCHAR); break;
        default: break;
        }
        if (state) nx_image_set_zero(img);
        return img;
}

void run() {
        draw_knobs();
        int n = 1 + choose(3);
        for (int k = 0; k < n; ++k) {
                Fmt f = (Fmt)choose(3);
                int api = choose(6), state = choose(5);
                enum NXImageLoadMode m = (enum NXImageLoadMode)((int)choose(3) - 1);
                Ref ref = draw_ref(chance(1, 15) ? 200 : 32, false);
                int color = 0, depth = 8;
                bool trns = false, inter = false;
                std::string bytes;
                if (f == F_PNM) bytes = encode_pnm(ref, choose(5));
                else if (f == F_PNG) {
                        ref.ch = 4;
                        fill_ref(ref, false, choose(3), choose(1 << 16));
                        color = choose(5);
                        static const int dg[] = {8, 1, 2, 4, 16}, dc[] = {8, 16}, dp[] = {8, 1, 2, 4};
                        depth = color == 0 ? dg[choose(5)] : color == 4 ? dp[choose(4)] : dc[choose(2)];
                        inter = chance(1, 4);
                        trns = chance(1, 5);
                        bytes = encode_png(ref, color, depth, inter, trns);
                } else bytes = encode_jpeg(ref, chance(1, 4), 40 + choose(61));
                if (bytes.empty()) continue;
                static const char* names[] = {"/d/f.pgm", "/d/f.png", "/d/f.jpg", "/d/noext"};
                std::string path = names[choose(4)];
                vfs_put(path, bytes);
                Expect want = expected(ref, f, bytes, color, depth, trns, m);
                char tag[80];
                snprintf(tag, sizeof tag, "%s/%s mode=%d", api_name[api], f == F_PNM ? "pnm" : f == F_PNG ? "png" : "jpeg", (int)m);
                op("file %s %dx%d color=%d depth=%d inter=%d trns=%d (%zu bytes), %s, target state %d", path.c_str(), ref.w, ref.h, color, depth, inter, trns, bytes.size(), tag, state);
                struct NXImage* img = nullptr;
                int ok = 0;
                run_clean("make target", [&] { img = make_target(state, ref); });
                OpResult base = run_clean("load", [&] { ok = do_load(img, path.c_str(), api, f, m); });
                std::string why;
                if (!ok) V("healthy-load-fails", "%s of a well-formed file failed although nothing went wrong; stderr: %.300s", tag, sim_stderr().c_str());
                if (!matches(img, want, &why)) V("load-wrong-image", "%s of an intact file: %s", tag, why.c_str());
                run_clean("free", [&] { nx_image_free(img); });
                if (f == F_PNM && chance(1, 6)) {
                        // the same picture with two bytes per sample: either it is read as such or the load fails
                        std::string wide = encode_pnm16(ref);
                        vfs_put(path, wide);
                        run_clean("make target", [&] { img = make_target(state, ref); });
                        int acked = 0;
                        size_t e0 = sim_stderr().size();
                        OpResult r = run_op("load 16-bit PNM", Plan(), [&] { acked = do_load(img, path.c_str(), api, f, m); });
                        if (r.ok() && acked) {
                                if (!matches(img, want, &why)) V("deep-pnm-misread", "%s of a PNM with 16 bits per sample reported success but: %s", tag, why.c_str());
                        } else expect_orderly_fatal(r, tag, e0);
                        probe("deep-pnm");
                        hash_mix(r.how * 2 + acked);
                        if (r.ok()) run_clean("free", [&] { nx_image_free(img); });
                }
                int nf = 1 + choose(3);
                for (int i = 0; i < nf; ++i) {
                        Plan plan;
                        std::string cut = bytes;
                        bool damaged = false;
                        int how = choose(4);
                        if (how == 0 || how == 3) plan = draw_plan({K_OPEN_FAIL, K_READ_EIO, K_READ_EIO, K_READ_EOF}, base.ev, 2);
                        if (how == 1) {
                                size_t len = choose(bytes.size());
                                if (chance(1, 3)) len = bytes.size() - 1 - std::min<size_t>(bytes.size() - 1, choose(40));
                                cut.resize(len);
                                damaged = true;
                                note_kind(K_TRUNC);
                        }
                        if (how == 2) plan = draw_plan({K_ALLOC_FAIL, K_ALLOC_STICKY}, base.ev, 1);
                        vfs_put(path, cut);
                        run_clean("make target", [&] { img = make_target(state, ref); });
                        int acked = 0;
                        size_t e0 = sim_stderr().size();
                        OpResult r = run_op(damaged ? "load torn file" : "load under faults", plan, [&] { acked = do_load(img, path.c_str(), api, f, m); });
                        if (r.ok() && acked) {
                                if (!matches(img, want, &why))
                                        V("acknowledged-load-wrong-image", "%s reported success under %s%s but: %s", tag, plan.str().c_str(),
                                          damaged ? (" on a file cut to " + std::to_string(cut.size()) + " of " + std::to_string(bytes.size()) + " bytes").c_str() : "", why.c_str());
                                probe(damaged ? "ok-on-torn-file" : "ok-under-fault");
                        } else {
                                if (!r.hard && !damaged) V("spurious-load-failure", "%s failed although no fault was injected", tag);
                                expect_orderly_fatal(r, tag, e0);
                                probe("failure-reported");
                        }
                        hash_mix(r.how * 2 + acked);
                        if (r.ok()) {
                                // the target stays usable after a failure
                                vfs_put(path, bytes);
                                int again = 0;
                                run_clean("reload", [&] { again = do_load(img, path.c_str(), api, f, m); });
                                if (!again || !matches(img, want, &why)) V("no-recovery-after-failed-load", "%s into the same image after a failed load: %s", tag, why.c_str());
                                run_clean("free", [&] { nx_image_free(img); });
                        }
                }
        }
}
Reg reg({"C02", run,
         "one run = 1-3 image files (PNM header styles, PNG colour types/depths/interlacing, JPEG baseline/progressive) made by harness-side encoders, some PNM files also with 16 bits per sample, loaded in a drawn mode through a drawn entry "
         "point, first fault-free and then 1-3 times under read errors, premature EOF, open failure, allocation failure or with the file torn at a drawn byte; non-trivial = a fault, short read "
         "or tear happened; distinct = different seam event/fault/outcome sequence",
         40000, 400000});
}
