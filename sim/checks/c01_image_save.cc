// C01: an image save that reports success has stored the complete image.
#include "img.h"
#include "virg/nexus/vg_image.hpp"

namespace {
const char* EXTS[] = {"a.pgm", "a.ppm", "b.png", "c.jpg", "x.y.PNG", "n.jpeg", "q.PGM", "q.PPM", "z.JPG", "z.JPEG", "noext", "t.dat", "png"};
Fmt fmt_of(const std::string& n) {
        size_t d = n.rfind('.');
        if (d == std::string::npos) return F_PNM;
        std::string e = n.substr(d);
        for (auto& c : e) c = (char)tolower(c);
        if (e == ".png") return F_PNG;
        if (e == ".jpg" || e == ".jpeg") return F_JPEG;
        return F_PNM;
}
// api: 0 save, 1 xsave, 2 save_<fmt>, 3 xsave_<fmt>, 4 VGImage::save, 5 VGImage::xsave
int do_save(const struct NXImage* img, const char* path, int api, Fmt f) {
        switch (api) {
        case 0: return nx_image_save(img, path) == NX_OK;
        case 1: nx_image_xsave(img, path); return 1;
        case 2: return (f == F_PNM ? nx_image_save_pnm(img, path) : f == F_PNG ? nx_image_save_png(img, path) : nx_image_save_jpeg(img, path)) == NX_OK;
        case 3:
                if (f == F_PNM) nx_image_xsave_pnm(img, path);
                else if (f == F_PNG) nx_image_xsave_png(img, path);
                else nx_image_xsave_jpeg(img, path);
                return 1;
        case 4: { virg::nexus::VGImage v((struct NXImage*)img, false); return v.save(path); }
        default: { virg::nexus::VGImage v((struct NXImage*)img, false); v.xsave(path); return 1; }
        }
}
const char* api_name[] = {"save", "xsave", "save_fmt", "xsave_fmt", "VGImage.save", "VGImage.xsave"};

void check_content(const Ref& ref, Fmt f, const std::string& bytes, const char* who) {
        Ref got;
        std::string why;
        bool ok = f == F_PNM ? decode_pnm(bytes, got, &why) : f == F_PNG ? decode_png(bytes, got, &why) : decode_jpeg(bytes, got, 0, &why);
        if (!ok) V("acknowledged-save-not-decodable", "%s reported success but the %zu-byte file is not a complete image: %s", who, bytes.size(), why.c_str());
        if (got.w != ref.w || got.h != ref.h || got.ch != ref.ch)
                V("acknowledged-save-wrong-shape", "%s stored %dx%d ch=%d, image is %dx%d ch=%d", who, got.w, got.h, got.ch, ref.w, ref.h, ref.ch);
        for (int y = 0; y < ref.h; ++y)
                for (int x = 0; x < ref.w; ++x)
                        for (int c = 0; c < ref.ch; ++c) {
                                if (f == F_PNM && c == 3) continue;      // PNM has no alpha
                                if (f == F_JPEG && c == 3) continue;
                                int a = ref.at(x, y)[c], b = got.at(x, y)[c];
                                int tol = f == F_JPEG ? 24 : 0;
                                if (std::abs(a - b) > tol) V("acknowledged-save-wrong-pixel", "%s: stored pixel (%d,%d) channel %d is %d, image has %d", who, x, y, c, b, a);
                        }
}

void run() {
        draw_knobs();
        int nsaves = 1 + choose(3);
        for (int k = 0; k < nsaves; ++k) {
                const char* name = EXTS[choose(sizeof EXTS / sizeof *EXTS)];
                int api = choose(6);
                Fmt f = fmt_of(name);
                if (api == 2 || api == 3) f = (Fmt)choose(3);
                bool big = chance(1, 12);
                Ref ref = draw_ref(big ? 300 : 40, f == F_JPEG);
                int pad = choose(3) ? 0 : (int)choose(9);
                std::string path = std::string("/d/") + name;
                if (chance(1, 3)) vfs_put(path, std::string(choose(60000), 'Z'));   // stale, longer content
                struct NXImage* img = nullptr;
                run_clean("make image", [&] { img = make_image(ref, pad); });
                // fault-free reference save
                int ok = 0;
                std::string tag = std::string(api_name[api]) + (f == F_PNM ? "/pnm" : f == F_PNG ? "/png" : "/jpeg");
                op("image %dx%d ch=%d pad=%d -> %s via %s", ref.w, ref.h, ref.ch, pad, path.c_str(), tag.c_str());
                OpResult base = run_clean("save", [&] { ok = do_save(img, path.c_str(), api, f); });
                if (!ok) V("healthy-save-fails", "%s to %s failed although nothing went wrong", tag.c_str(), path.c_str());
                std::string good = vfs_get(path);
                check_content(ref, f, good, tag.c_str());
                std::string why;
                if (!image_equals(img, ref, &why)) V("save-modified-image", "%s changed the image: %s", tag.c_str(), why.c_str());
                // faulted saves of the same image
                int nf = 1 + choose(3);
                for (int i = 0; i < nf; ++i) {
                        std::vector<Kind> kinds = WRITE_FAULTS;
                        if (chance(1, 6)) { kinds.push_back(K_ALLOC_FAIL); kinds.push_back(K_ALLOC_STICKY); }
                        Plan plan = draw_plan(kinds, base.ev, 2);
                        if (chance(1, 2)) vfs().erase(vfs_norm(path)); else vfs_put(path, std::string(choose(60000), 'Y'));
                        size_t e0 = sim_stderr().size();
                        int acked = 0;
                        OpResult r = run_op("save under faults", plan, [&] { acked = do_save(img, path.c_str(), api, f); });
                        if (r.ok() && acked) {
                                if (vfs_get(path) != good)
                                        V("acknowledged-save-lost-data", "%s returned success under %s, but the file has %zu bytes that differ from the %zu of a complete save",
                                          tag.c_str(), plan.str().c_str(), vfs_get(path).size(), good.size());
                                if (r.hard) probe("acked-despite-fault");
                        } else {
                                if (!r.hard) V("spurious-save-failure", "%s failed although no fault was injected", tag.c_str());
                                expect_orderly_fatal(r, tag.c_str(), e0);
                                probe("failure-reported");
                                if (r.fatal()) {
                                        // the process is gone; a new one starts with its own copy of the image
                                        run_clean("make image", [&] { img = make_image(ref, pad); });
                                }
                        }
                        hash_mix(r.how * 2 + acked);
                        hash_mix(fnv(vfs_get(path).data(), vfs_get(path).size()));
                        if (r.ok() && !image_equals(img, ref, &why)) V("save-modified-image", "%s changed the image: %s", tag.c_str(), why.c_str());
                        if (r.ok() && r.leaked_files) V("save-leaks-stream", "%s left %zu streams open", tag.c_str(), r.leaked_files);
                }
                // once faults stop, the same save works again
                int again = 0;
                run_clean("save after faults", [&] { again = do_save(img, path.c_str(), api, f); });
                if (!again || vfs_get(path) != good) V("no-recovery-after-fault", "%s does not work again after faults stopped", tag.c_str());
                run_clean("free image", [&] { nx_image_free(img); });
        }
}
Reg reg({"C01", run,
         "one run = 1-3 images (gray/RGBA, 1x1..300x300, padded rows, hostile byte values) saved through one of the save entry points to one of 13 file names, once without "
         "faults (decoded by an independent codec) and 1-3 times under a drawn fault plan positioned inside the event counts measured on the fault-free save; non-trivial = at "
         "least one fault or short transfer was actually injected; distinct = different sequence of seam events, faults and outcomes",
         40000, 400000});
}
