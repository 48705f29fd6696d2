#include "ops.h"
#include "img.h"
#include <sys/stat.h>
extern "C" {
#include "virg/nexus/nx_affine_warp_processor.h"
#include "virg/nexus/nx_checkerboard_detector.h"
}
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_epipolar.h"
#include "virg/nexus/nx_fast_detector.h"
#include "virg/nexus/nx_filesystem.h"
#include "virg/nexus/nx_filter.h"
#include "virg/nexus/nx_gaussian_sampler.h"
#include "virg/nexus/nx_gc.h"
#include "virg/nexus/nx_gnuplot.h"
#include "virg/nexus/nx_graph.h"
#include "virg/nexus/nx_harris_detector.h"
#include "virg/nexus/nx_hash_sha256.h"
#include "virg/nexus/nx_homography.h"
#include "virg/nexus/nx_image_pyr_builder.h"
#include "virg/nexus/nx_image_warp.h"
#include "virg/nexus/nx_io.h"
#include "virg/nexus/nx_json_bundle.h"
#include "virg/nexus/nx_json_log.h"
#include "virg/nexus/nx_json_tree.h"
#include "virg/nexus/nx_keypoint_vector.h"
#include "virg/nexus/nx_kitti_slam.h"
#include "virg/nexus/nx_linear_solvers.h"
#include "virg/nexus/nx_mat.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_options.h"
#include "virg/nexus/nx_sift_detector.h"
#include "virg/nexus/nx_statistics.h"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/nx_svd.h"
#include "virg/nexus/nx_temple_color_128.h"
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/nx_usac_homography.h"
#include "virg/nexus/nx_vgg_affine_dataset.h"
#include "virg/nexus/vg_brief_extractor.hpp"
#include "virg/nexus/vg_descriptor_map.hpp"
#include "virg/nexus/vg_harris_detector.hpp"
#include "virg/nexus/vg_image.hpp"
#include "virg/nexus/vg_image_pyr.hpp"
#include "virg/nexus/vg_options.hpp"
#include "virg/nexus/nx_point_match_2d_stats.h"
#include "virg/nexus/vg_homography.hpp"
#include "virg/nexus/vg_image_annotator.hpp"
#include "virg/nexus/vg_point_correspondence_2d.hpp"

void reset_library_globals() {
        nx_uniform_sampler_instance_free();
        nx_gaussian_sampler_instance_free();
#ifdef NX_ENABLE_JLOG
        nx_json_log_free();
#endif
}
namespace {
// ------------------------------------------------------------------ pictures
struct NXImage* gray(Rng& r, int w, int h, int style = -1) {
        struct NXImage* i = nx_image_alloc();
        nx_image_resize(i, w, h, r.below(2) ? NX_IMAGE_STRIDE_DEFAULT : w + (int)r.below(9), NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
        if (style < 0) style = r.below(3);
        int cx = r.below(w), cy = r.below(h);
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
                int v = style == 0 ? (int)r.below(256) : style == 1 ? (((x / 5) ^ (y / 5)) & 1 ? 230 : 20) : (int)(128 + 100 * std::sin((x - cx) * 0.5) * std::cos((y - cy) * 0.35));
                i->data.uc[(size_t)y * i->row_stride + x] = (uchar)v;
        }
        return i;
}
struct NXImage* gray_f(Rng& r, int w, int h) {
        struct NXImage* i = nx_image_new_gray_f32(w, h);
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) i->data.f32[(size_t)y * i->row_stride + x] = (float)r.unit();
        return i;
}
struct NXImage* rgba(Rng& r, int w, int h) {
        struct NXImage* i = nx_image_alloc();
        nx_image_resize(i, w, h, r.below(2) ? NX_IMAGE_STRIDE_DEFAULT : 4 * w + (int)r.below(9), NX_IMAGE_RGBA, NX_IMAGE_UCHAR);
        for (int y = 0; y < h; ++y) for (int x = 0; x < 4 * w; ++x) i->data.uc[(size_t)y * i->row_stride + x] = (x & 3) == 3 ? 255 : (uchar)r.next();
        return i;
}
void dimg(Dig& d, const struct NXImage* i) {
        d.num(i->width); d.num(i->height); d.num(i->type); d.num(i->dtype); d.num(i->n_channels);
        uint64_t h = 7;
        for (int y = 0; y < i->height; ++y) {
                if (i->dtype == NX_IMAGE_UCHAR) h = fnv(i->data.uc + (size_t)y * i->row_stride, (size_t)i->width * i->n_channels, h);
                else h = fnv(i->data.f32 + (size_t)y * i->row_stride, (size_t)i->width * i->n_channels * 4, h);
        }
        d.num(h);
}
void dkeys(Dig& d, int n, const struct NXKeypoint* k) {
        d.num(n);
        for (int i = 0; i < n; ++i) { d.num(k[i].x); d.num(k[i].y); d.f(k[i].xs); d.f(k[i].ys); d.num(k[i].level); d.f(k[i].scale); d.f(k[i].sigma); d.f(k[i].score); d.f(k[i].ori); d.num(k[i].id); }
}
void dmatches(Dig& d, int n, const struct NXPointMatch2D* m) {
        d.num(n);
        for (int i = 0; i < n; ++i) { d.f(m[i].x[0]); d.f(m[i].xp[1]); d.f(m[i].match_cost); d.num(m[i].id); d.num(m[i].idp); d.num(m[i].is_inlier); }
}
// ------------------------------------------------------------------ image files
const char* IFN[] = {"/d/i.pgm", "/d/i.png", "/d/i.jpg", "/d/i.ppm"};
void o_image_io(Rng& r, Dig& d) {
        const char* fn = IFN[r.below(4)];
        struct NXImage* i = r.below(2) ? gray(r, 3 + r.below(20), 3 + r.below(20)) : rgba(r, 2 + r.below(20), 3 + r.below(20));
        bool x = r.below(3) == 0;
        if (x) nx_image_xsave(i, fn);
        else if (nx_image_save(i, fn) != NX_OK) { d.fail(); nx_image_free(i); return; }
        struct NXImage* l = r.below(2) ? nx_image_alloc() : nx_image_new_gray_uc(4, 4);
        NXImageLoadMode m = (NXImageLoadMode)((int)r.below(3) - 1);
        if (x) nx_image_xload(l, fn, m);
        else if (nx_image_load(l, fn, m) != NX_OK) d.fail();
        if (!d.failed) dimg(d, l);
        nx_image_free(i);
        nx_image_free(l);
}
void p_image_bad(Rng& r) {
        Ref ref; ref.w = 4 + r.below(20); ref.h = 4 + r.below(20); ref.ch = r.below(2) ? 4 : 1;
        int f = r.below(3);
        if (f == 1) ref.ch = 4;
        fill_ref(ref, f == 2, 0, r.next() & 0xffff);
        std::string s = f == 0 ? encode_pnm(ref, (int)r.below(5)) : f == 1 ? encode_png(ref, (int)r.below(4), 8, r.below(2), false) : encode_jpeg(ref, r.below(2), 80);
        switch (r.below(5)) {
        case 4: s = s.substr(0, r.below((uint32_t)std::min<size_t>(s.size(), 40))); break;
        case 0: s = s.substr(0, r.below((uint32_t)s.size())); break;
        case 1: for (int k = 1 + r.below(4); k > 0; --k) s[r.below((uint32_t)s.size())] ^= (char)(1 + r.below(255)); break;
        case 2: s = s.substr(0, s.size() - 1 - r.below((uint32_t)(s.size() / 2))); break;
        default: break;
        }
        vfs_put("/d/bad", s);
}
void o_image_bad(Rng& r, Dig& d) {
        struct NXImage* l = r.below(2) ? nx_image_alloc() : nx_image_new_rgba_uc(4, 4);
        NXImageLoadMode m = (NXImageLoadMode)((int)r.below(3) - 1);
        if (nx_image_load(l, "/d/bad", m) == NX_OK) dimg(d, l); else d.fail();
        nx_image_free(l);
}
void o_vgimage(Rng& r, Dig& d) {
        using namespace virg::nexus;
        VGImage a, b, c;
        a.create_gray(5 + r.below(16), 5 + r.below(16), VGImage::UCHAR);
        for (int y = 0; y < a.height(); ++y) for (int x = 0; x < a.width(); ++x) a.data<uchar>(y)[x] = (uchar)r.next();
        b = a.clone();
        b.convert_type_to(VGImage::RGBA);
        if (!b.save("/d/v.png")) { d.fail(); return; }
        if (!c.load("/d/v.png", VGImage::LOAD_AS_IS)) { d.fail(); return; }
        dimg(d, c.nx_img());
        c.smooth(a, 1.0f, 1.5f, 3.0f);
        dimg(d, c.nx_img());
        c.swap_with(b);
        c.release();
        b.filter_box(a, 2, 1);
        dimg(d, b.nx_img());
        float* own = NX_NEW_S(12);
        for (int i = 0; i < 12; ++i) own[i] = (float)i;
        c.wrap(own, 4, 3, 4, VGImage::GRAYSCALE, VGImage::FLOAT32, true);
        c.axpy(2.0f, 1.0f);
        dimg(d, c.nx_img());
}
// ------------------------------------------------------------------ tables
void dframe(Dig& d, struct NXDataFrame* f) {
        int nc = nx_data_frame_n_columns(f), nr = nx_data_frame_n_rows(f);
        d.num(nc); d.num(nr);
        for (int c = 0; c < nc; ++c) {
                const struct NXDataColumn* dc = nx_data_frame_column(f, c);
                NXDataColumnType t = nx_data_column_type(dc);
                d.num(t); d.str(nx_data_column_label(dc));
                if (t == NX_DCT_FACTOR) for (int k = 0; k < nx_data_column_n_factor_levels(dc); ++k) d.str(nx_data_column_factor_level(dc, k));
                for (int i = 0; i < nr; ++i) {
                        if (nx_data_frame_is_na(f, i, c)) { d.num(77); continue; }
                        switch (t) {
                        case NX_DCT_STRING: d.str(nx_data_frame_get_string(f, i, c)); break;
                        case NX_DCT_INT: d.num(nx_data_frame_get_int(f, i, c)); break;
                        case NX_DCT_DOUBLE: d.f(nx_data_frame_get_double(f, i, c)); break;
                        case NX_DCT_BOOL: d.num(nx_data_frame_get_bool(f, i, c)); break;
                        default: d.str(nx_data_frame_get_factor(f, i, c)); break;
                        }
                }
        }
}
void o_table(Rng& r, Dig& d) {
        struct NXDataFrame* f = nx_data_frame_alloc();
        static const char* labels[] = {"name", "count", "value", "flag"};
        static const NXDataColumnType types[] = {NX_DCT_STRING, NX_DCT_INT, NX_DCT_DOUBLE, NX_DCT_BOOL};
        if (r.below(2)) nx_data_frame_add_columns(f, 4, types, labels);
        else for (int c = 0; c < 4; ++c) nx_data_frame_add_column(f, types[c], labels[c]);
        int n = r.below(30);
        for (int i = 0; i < n; ++i) {
                std::string s = rand_text(r, 1 + r.below(r.below(12) ? 12 : 900), 0);
                if (r.below(2)) nx_data_frame_append_row(f, s.c_str(), (int)r.below(1000), r.unit() + 0.5, (NXBool)r.below(2));
                else { int k = nx_data_frame_add_row(f); nx_data_frame_set_string(f, k, 0, s.c_str()); nx_data_frame_set_double(f, k, 2, 0.25); if (r.below(2)) nx_data_frame_set_na(f, k, 2); }
        }
        if (r.below(2) && n) { nx_data_frame_make_factor(f, 0); nx_data_frame_set_factor(f, 0, 0, "level"); }
        dframe(d, f);
        bool x = r.below(3) == 0;
        if (x) nx_data_frame_xsave_csv(f, "/d/t.csv");
        else if (!nx_data_frame_save_csv(f, "/d/t.csv")) d.fail();
        nx_data_frame_free(f);
        if (d.failed) return;
        f = x ? nx_data_frame_xload_csv("/d/t.csv", r.below(2)) : nx_data_frame_load_csv("/d/t.csv", r.below(2));
        if (!f) { d.fail(); return; }
        dframe(d, f);
        nx_data_frame_free(f);
}
void p_table_bad(Rng& r) {
        static const char* t[] = {"a,b\n1,2\n3\n", "a,b\n1,2,3\n", "\"a,b\n1,2\n", "a,b\n\"x\ny\",2\n", "a,b\r\n1,x\r\n", "", ",,\n", "a,b\n1,2\n\"q\"\"r\",4\n", "a\n\"unterminated\n", "a,b\n\"x\"y,2\n", "x,y\n1.5,TRUE\n,FALSE\n"};
        vfs_put("/d/bad.csv", t[r.below(11)]);
}
void o_table_bad(Rng& r, Dig& d) {
        struct NXDataFrame* f = nx_data_frame_load_csv("/d/bad.csv", r.below(2));
        if (!f) { d.fail(); return; }
        dframe(d, f);
        FILE* o = nx_fopen("/d/t.txt", "w");
        if (o) { if (!nx_data_frame_fprintf(f, o, ";")) d.fail(); if (nx_fclose(o, "t.txt") != NX_OK) d.fail(); } else d.fail();
        nx_data_frame_free(f);
}
// ------------------------------------------------------------------ JSON
void djson(Dig& d, struct NXJSONNode* n, int depth = 0) {
        d.num(nx_json_node_type(n));
        if (nx_json_node_is_a(n, NX_JNT_COMPOSITE)) {
                int k = nx_json_node_n_children(n);
                d.num(k);
                if (nx_json_node_is(n, NX_JNT_ARRAY) && depth < 20)
                        for (int i = 0; i < k; ++i) for (int t = 1; t <= 128; t *= 2) { struct NXJSONNode* c = nx_json_array_get(n, i, t); if (c) { djson(d, c, depth + 1); break; } }
        } else if (nx_json_node_is_a(n, NX_JNT_VALUE)) d.str(nx_json_node_text(n));
}
const char* JT[] = {"{\"a\":[1,2.5,\"x\\n\\u00e9\",true,false,null,{}],\"b\":{\"c\":[]}}", "[[1,[2,[3,\"deep\"]]],{\"k\":-1e10}]", "[1,2,3", "{\"a\":}", "[\"\\q\"]", "{\"a\" 1}", "", "[1,]", "nul", "[{\"a\":\"b\"},{\"c\":[1,2,{\"d\":null}]},"};
void o_json(Rng& r, Dig& d) {
        const char* t = JT[r.below(r.below(2) ? 2 : 10)];
        struct NXJSONNode* n;
        int how = r.below(3);
        if (how == 0) { char* s = nx_strdup(t); n = nx_json_tree_from_string(s); nx_free(s); }
        else {
                vfs_put("/d/j.json", t);
                if (how == 1) n = nx_json_tree_from_file("/d/j.json");
                else { FILE* f = nx_fopen("/d/j.json", "r"); if (!f) { d.fail(); return; } n = nx_json_tree_from_stream(f); fclose(f); }
        }
        if (!n) { d.fail(); return; }
        djson(d, n);
        FILE* o = nx_fopen("/d/o.json", "w");
        if (o) { nx_json_tree_fprint(o, n, r.below(3)); if (nx_fclose(o, "o.json") != NX_OK) d.fail(); } else d.fail();
        nx_json_tree_free(n);
        if (!d.failed) { std::string s = vfs_get("/d/o.json"); d.add(s.data(), s.size()); }
}
void o_bundle(Rng& r, Dig& d) {
        int n = 1 + r.below(12);
        int iv[12]; double dv[12]; float fv[12]; char* sv[12];
        struct NXKeypoint kv[12];
        memset(kv, 0, sizeof kv);
        for (int i = 0; i < n; ++i) { iv[i] = (int)r.next(); dv[i] = r.unit(); fv[i] = (float)r.unit(); sv[i] = nx_strdup(rand_text(r, r.below(10), 0).c_str()); kv[i].x = i; kv[i].xs = fv[i]; kv[i].id = r.next(); }
        struct NXJSONNode* o = nx_json_node_new_object();
        nx_json_object_add(o, "i", nx_json_bundle_int_array(n, iv));
        nx_json_object_add(o, "d", nx_json_bundle_double_array(n, dv));
        nx_json_object_add(o, "f", nx_json_bundle_float_array(n, fv));
        nx_json_object_add(o, "s", nx_json_bundle_string_array(n, sv));
        nx_json_object_add(o, "k", nx_json_bundle_keypoint_array(n, kv));
        nx_json_object_add(o, "b", nx_json_bundle_bool(NX_TRUE));
        nx_json_object_add(o, "z", nx_json_bundle_size_t((size_t)r.next()));
        for (int i = 0; i < n; ++i) nx_free(sv[i]);
        int m;
        int* ip = nx_json_unbundle_int_array(nx_json_object_get(o, "i", NX_JNT_ARRAY), &m);
        d.add(ip, sizeof(int) * m);
        double* dp = nx_json_unbundle_double_array(nx_json_object_get(o, "d", NX_JNT_ARRAY), &m);
        d.add(dp, sizeof(double) * m);
        float* fp = nx_json_unbundle_float_array(nx_json_object_get(o, "f", NX_JNT_ARRAY), &m);
        d.add(fp, sizeof(float) * m);
        char** sp = nx_json_unbundle_string_array(nx_json_object_get(o, "s", NX_JNT_ARRAY), &m);
        for (int i = 0; i < m; ++i) { d.str(sp[i]); nx_free(sp[i]); }
        struct NXStringArray* sa = nx_json_unbundle_as_string_array(nx_json_object_get(o, "s", NX_JNT_ARRAY));
        d.num(nx_string_array_size(sa));
        struct NXKeypoint* kp = nx_json_unbundle_keypoint_array(nx_json_object_get(o, "k", NX_JNT_ARRAY), &m);
        dkeys(d, m, kp);
        d.num(nx_json_unbundle_size_t(nx_json_object_get(o, "z", NX_JNT_INTEGER)));
        nx_free(ip); nx_free(dp); nx_free(fp); nx_free(sp); nx_free(kp);
        nx_string_array_free(sa);
        nx_json_tree_free(o);
}
#ifdef NX_ENABLE_JLOG
void o_jlog(Rng& r, Dig& d) {
        NX_JLOG_I(1, "i", (int)r.next());
        NX_JLOG_S(1, "s", "text");
        for (int i = r.below(6); i > 0; --i) NX_JLOG_ADDD(2, "arr", r.unit());
        double x[3] = {1, 2, 3};
        NX_JLOG_DA(3, "da", 3, x);
        NX_JLOG_XWRITE(1, "/d/log1.json");
        NX_JLOG_XWRITE(2, "/d/log2.json");
        NX_JLOG_CLEAR(3);
        d.str(vfs_get("/d/log1.json").c_str());
        d.str(vfs_get("/d/log2.json").c_str());
        NX_JLOG_CLEAR_ALL();
}
#endif
// ------------------------------------------------------------------ strings, vectors
void o_strings(Rng& r, Dig& d) {
        std::string t = rand_text(r, r.below(40), 2);
        char* a = nx_strdup(t.c_str());
        char* b = nx_fstr("%s|%d|%g", t.c_str(), (int)r.below(99), r.unit());
        d.str(a); d.str(b);
        nx_strredup(&a, b);
        nx_strredup(&b, "short");
        d.str(a); d.str(b);
        uint8_t h[32];
        nx_sha256(h, (const uint8_t*)a, strlen(a));
        char* hs = nx_hash_to_str(32, h);
        d.str(hs);
        FILE* f = nx_fopen("/d/s.bin", "wb");
        if (!f) { d.fail(); goto out; }
        nx_fputs_double_quoted(a, f);
        if (nx_strwrite(a, f) != 0 || nx_strwrite("second", f) != 0) d.fail();
        if (nx_fclose(f, "s.bin") != NX_OK) d.fail();
        if (d.failed) goto out;
        f = nx_fopen("/d/s.bin", "rb");
        if (!f) { d.fail(); goto out; }
        for (std::string q = vfs_get("/d/s.bin"); ;) { size_t e = 1; while (q[e] != '"' || q[e - 1] == '\\') ++e; for (size_t i = 0; i <= e; ++i) fgetc(f); char* back = nx_xstr_from_double_quoted(e + 1, q.c_str()); if (back) d.str(back); nx_free(back); break; }
        {
                char* s = nx_strread0(f);
                if (!s) d.fail(); else d.str(s);
                nx_free(s);
        }
        fclose(f);
out:
        nx_free(a); nx_free(b); nx_free(hs);
}
void p_lines(Rng& r) {
        std::string s;
        for (int k = r.below(6); k > 0; --k) s += rand_text(r, r.below(200), 0) + (k == 1 && r.below(2) ? "" : "\n");
        vfs_put("/d/l.txt", s);
}
void o_lines(Rng&, Dig& d) {
        FILE* f = nx_fopen("/d/l.txt", "r");
        if (!f) { d.fail(); return; }
        char* line = NULL;
        size_t n = 0;
        while (nx_getline(&line, &n, f) >= 0) d.str(line);
        if (ferror(f)) d.fail();
        nx_free(line);
        fclose(f);
}
void o_string_array(Rng& r, Dig& d) {
        struct NXStringArray* sa = r.below(2) ? nx_string_array_alloc() : nx_string_array_new(1 + r.below(4));
        for (int k = r.below(30); k > 0; --k) {
                std::string s = rand_text(r, r.below(20), 0);
                switch (r.below(5)) {
                case 0: nx_string_array_append(sa, s.c_str()); break;
                case 1: nx_string_array_appendf(sa, "%s-%d", s.c_str(), k); break;
                case 2: if (nx_string_array_size(sa)) nx_string_array_set(sa, r.below(nx_string_array_size(sa)), s.c_str()); break;
                case 3: if (nx_string_array_size(sa)) nx_string_array_setf(sa, r.below(nx_string_array_size(sa)), "%s+", s.c_str()); break;
                default: if (r.below(4) == 0) { int n0 = nx_string_array_size(sa); nx_string_array_resize(sa, r.below(12)); for (int i = n0; i < nx_string_array_size(sa); ++i) nx_string_array_set(sa, i, "new"); }
                }
        }
        for (int i = 0; i < nx_string_array_size(sa); ++i) if (!nx_string_array_get(sa, i)) nx_string_array_set(sa, i, "gap");
        for (int i = 0; i < nx_string_array_size(sa); ++i) d.str(nx_string_array_get(sa, i));
        FILE* f = nx_fopen("/d/sa.bin", "wb");
        if (!f) { d.fail(); nx_string_array_free(sa); return; }
        if (nx_string_array_write(sa, f) != 0) d.fail();
        if (nx_fclose(f, "sa.bin") != NX_OK) d.fail();
        if (!d.failed && (f = nx_fopen("/d/sa.bin", "rb")) != NULL) {
                struct NXStringArray* b = nx_string_array_read0(f);
                if (!b) d.fail(); else d.num(nx_string_array_size(b));
                nx_string_array_free(b);
                fclose(f);
        } else d.fail();
        nx_string_array_free(sa);
}
void o_memblock(Rng& r, Dig& d) {
        struct NXMemBlock* m = nx_mem_block_new(r.below(50));
        nx_mem_block_set_zero(m);
        nx_mem_block_resize(m, 10 + r.below(300));
        memset(m->ptr, 7, m->size);
        nx_mem_block_reserve(m, 500);
        struct NXMemBlock* c = nx_mem_block_copy0(m);
        d.add(c->ptr, c->size);
        void* huge = nx_calloc(SIZE_MAX / 2 + 2, 2 + r.below(6));   // more than can be addressed
        if (huge) violate("short-block", "nx_calloc returned a block for more bytes than can be addressed");
        void* q = nx_xcalloc(5, 9);
        nx_mem_block_wrap(c, q, 45, 45, NX_TRUE);
        nx_mem_block_swap(m, c);
        nx_mem_block_resize(m, 46);
        d.add(m->ptr, 45);
        nx_mem_block_release(c);
        static char fixed[16] = "fixed";
        nx_mem_block_wrap(c, fixed, 16, 16, NX_FALSE);
        nx_mem_block_resize(c, 40);
        d.add(c->ptr, 16);
        nx_mem_block_free(m);
        nx_mem_block_free(c);
}
void o_keyvec(Rng& r, Dig& d) {
        struct NXKeypointVector* v = r.below(2) ? nx_keypoint_vector_alloc() : nx_keypoint_vector_new(3);
        int n = r.below(60);
        for (int i = 0; i < n; ++i) { struct NXKeypoint* k = nx_keypoint_vector_push_back(v); memset(k, 0, sizeof *k); k->x = i; k->id = r.next(); }
        struct NXKeypointVector* c = nx_keypoint_vector_copy0(v);
        dkeys(d, (int)c->size, c->data);
        nx_keypoint_vector_resize(c, n / 2);
        nx_keypoint_vector_reserve(v, 200);
        nx_keypoint_vector_copy(v, c);
        dkeys(d, (int)v->size, v->data);
        nx_keypoint_vector_clear(v);
        nx_keypoint_vector_release(c);
        nx_keypoint_vector_free(v);
        nx_keypoint_vector_free(c);
}
// ------------------------------------------------------------------ SIFT
struct NXSIFTDetectorParams sparams(Rng& r) {
        struct NXSIFTDetectorParams p = nx_sift_default_parameters();
        p.double_image = r.below(2);
        p.peak_threshold = 0.01f;
        return p;
}
void o_sift(Rng& r, Dig& d) {
        struct NXImage* i = r.below(3) ? gray(r, 20 + r.below(14), 20 + r.below(14), 2 * r.below(2)) : gray_f(r, 20 + r.below(12), 22);
        struct NXSIFTDetector* s = nx_sift_detector_new(sparams(r));
        int cap = r.below(2) ? 0 : 4;
        struct NXKeypoint* k = cap ? NX_NEW(cap, struct NXKeypoint) : NULL;
        uchar* ds = cap ? NX_NEW_UC(cap * NX_SIFT_DESC_DIM) : NULL;
        bool cache = r.below(2);
        int n = cache ? nx_sift_detector_compute_with_cache(s, i, &cap, &k, &ds, "/d/cache") : nx_sift_detector_compute(s, i, &cap, &k, &ds);
        dkeys(d, n, k);
        d.add(ds, (size_t)n * NX_SIFT_DESC_DIM);
        if (cache) { n = nx_sift_detector_compute_with_cache(s, i, &cap, &k, &ds, "/d/cache"); dkeys(d, n, k); }
        struct NXPointMatch2D* m = NX_NEW(n + 1, struct NXPointMatch2D);
        if (n > 1) {
                int nm = cache ? nx_sift_match_brute_force_with_cache(n, k, ds, n, k, ds, m, 0.9f, "/d/cache") : nx_sift_match_brute_force(n, k, ds, n, k, ds, m, 0.9f);
                dmatches(d, nm, m);
                if (cache) { nm = nx_sift_match_brute_force_with_cache(n, k, ds, n, k, ds, m, 0.9f, "/d/cache"); dmatches(d, nm, m); }
        }
        nx_sift_xsave("/d/k.sift", n, k, ds);
        n = nx_sift_xload("/d/k.sift", &cap, &k, &ds);
        dkeys(d, n, k);
        nx_free(m); nx_free(k); nx_free(ds);
        nx_sift_detector_free(s);
        nx_image_free(i);
}
// ------------------------------------------------------------------ datasets
std::string nums(Rng& r, int n) { std::string s; char b[32]; for (int i = 0; i < n; ++i) { snprintf(b, sizeof b, "%s%.6g", i ? " " : "", r.below(6) ? (r.unit() - 0.3) * 10 : 0.0); s += b; } return s; }
void p_kitti(Rng& r) {
        int n = 1 + r.below(4);
        std::string poses, times, calib;
        for (int i = 0; i < n; ++i) { poses += nums(r, 12) + "\n"; times += nums(r, 1) + "\n"; }
        for (int i = 0; i < 4; ++i) calib += "P" + std::to_string(i) + ": " + nums(r, 12) + "\n";
        vfs_mkdir("/k"); vfs_mkdir("/k/poses"); vfs_mkdir("/k/sequences"); vfs_mkdir("/k/sequences/03"); vfs_mkdir("/k/sequences/03/image_0");
        if (r.below(3)) vfs_put("/k/poses/03.txt", poses);
        vfs_put("/k/sequences/03/times.txt", times);
        vfs_put("/k/sequences/03/calib.txt", calib);
        Ref ref; ref.w = 6; ref.h = 5; ref.ch = 4; fill_ref(ref, false, 0, r.next() & 0xffff);
        std::string s = encode_png(ref, 0, 8, false, false);
        if (r.below(5) == 0) s = s.substr(0, s.size() / 2);
        vfs_put("/k/sequences/03/image_0/000000.png", s);
}
void o_kitti(Rng&, Dig& d) {
        struct NXKittiSLAM* k = nx_kitti_slam_new("/k");
        for (int i = 0; i < NX_KITTI_SLAM_MAX_SEQ_ID; ++i) d.num(k->is_seq_available[i]);
        if (k->is_seq_available[3]) {
                struct NXKittiSLAMSequence* s = nx_kitti_slam_sequence_new(k, 3);
                d.num(s->length); d.num(s->is_gt_available); d.num(s->is_cam_available[0]); d.num(s->is_cam_available[1]); d.num(s->is_lidar_available);
                d.add(s->times, sizeof(double) * s->length);
                if (s->is_gt_available) for (int i = 0; i < s->length; ++i) d.add(s->poses[i], sizeof(double) * 12);
                d.add(s->calib, sizeof s->calib);
                if (s->is_cam_available[0]) {
                        struct NXImage* img = nx_image_alloc();
                        nx_kitti_slam_sequence_xload_frame(s, 0, 0, img);
                        dimg(d, img);
                        nx_image_free(img);
                }
                nx_kitti_slam_sequence_free(s);
        }
        nx_kitti_slam_free(k);
}
void p_vgg(Rng& r) {
        vfs_mkdir("/g"); vfs_mkdir("/g/bark");
        Ref ref; ref.w = 6; ref.h = 5; ref.ch = 4; fill_ref(ref, false, 0, r.next() & 0xffff);
        for (int i = 1; i <= 6; ++i) vfs_put("/g/bark/img" + std::to_string(i) + ".ppm", encode_pnm(ref, 0));
        for (int i = 2; i <= 6; ++i) vfs_put("/g/bark/H1to" + std::to_string(i) + "p", nums(r, 3) + "\n" + nums(r, 3) + "\n" + nums(r, 3) + "\n");
}
void o_vgg(Rng& r, Dig& d) {
        struct NXVGGAffineSequence* s = nx_vgg_affine_sequence_new("/g", "bark");
        d.num(s->length);
        for (int i = 0; i < s->length; ++i) d.add(s->h[i], sizeof(double) * 9);
        struct NXImage* img = nx_image_alloc();
        nx_vgg_affine_sequence_xload_frame(s, r.below(s->length), img, NX_IMAGE_LOAD_GRAYSCALE);
        dimg(d, img);
        nx_image_free(img);
        nx_vgg_affine_sequence_free(s);
}
void p_temple(Rng& r) {
        vfs_mkdir("/t"); vfs_mkdir("/t/Bolt"); vfs_mkdir("/t/Bolt/img");
        int n = 1 + r.below(4);
        std::string gt;
        for (int i = 0; i < n; ++i) { char b[80]; snprintf(b, sizeof b, "%d,%d,%d,%d\n", (int)r.below(50), (int)r.below(50), 1 + (int)r.below(9), 1 + (int)r.below(9)); gt += b; }
        vfs_put("/t/Bolt/Bolt_gt.txt", gt);
        char fr[40]; snprintf(fr, sizeof fr, "1,%d", n);
        vfs_put("/t/Bolt/Bolt_frames.txt", fr);
        vfs_put("/t/Bolt/Bolt_att.txt", "1,0,0,1,0,0,0,0,1,0,0");
        Ref ref; ref.w = 8; ref.h = 8; ref.ch = 4; fill_ref(ref, true, 0, r.next() & 0xffff);
        for (int i = 1; i <= n; ++i) { char b[64]; snprintf(b, sizeof b, "/t/Bolt/img/%04d.jpg", i); vfs_put(b, encode_jpeg(ref, false, 90)); }
}
void o_temple(Rng&, Dig& d) {
        struct NXTempleColor128Sequence* s = nx_temple_color_128_sequence_new("/t", "Bolt");
        if (!s) { d.fail(); return; }
        d.num(s->length); d.num(s->start_frame); d.num(s->end_frame); d.num(s->attributes);
        for (int i = 0; i < s->length; ++i) d.add(s->ground_truth[i], sizeof(float) * 4);
        struct NXImage* img = nx_image_alloc();
        nx_temple_color_128_sequence_xload_frame(s, 0, img, NX_IMAGE_LOAD_AS_IS);
        dimg(d, img);
        nx_image_free(img);
        nx_temple_color_128_sequence_free(s);
}
// ------------------------------------------------------------------ image processing
void o_pyr(Rng& r, Dig& d) {
        struct NXImage* i = gray(r, 24 + r.below(20), 24 + r.below(20));
        struct NXImagePyrBuilder* b = NULL;
        switch (r.below(3)) {
        case 0: b = nx_image_pyr_builder_new_fast(1 + r.below(3), 1.2f); break;
        case 1: b = nx_image_pyr_builder_new_fine(1 + r.below(2), 1 + r.below(3), 1.0f); break;
        default: b = nx_image_pyr_builder_new_scaled(1 + r.below(3), 1.3f, 0.8f);
        }
        struct NXImagePyr* p = nx_image_pyr_builder_build0(b, i);
        for (int l = 0; l < p->n_levels; ++l) { dimg(d, p->levels[l].img); d.f(p->levels[l].scale); d.f(p->levels[l].sigma); }
        nx_image_pyr_builder_set_fast(b, 2, 1.0f);
        nx_image_pyr_builder_build(b, p, i);
        for (int l = 0; l < p->n_levels; ++l) dimg(d, p->levels[l].img);
        nx_image_pyr_free(p);
        nx_image_pyr_builder_free(b);
        nx_image_free(i);
}
void o_imgops(Rng& r, Dig& d) {
        struct NXImage *i = gray(r, 8 + r.below(24), 8 + r.below(24)), *o = nx_image_alloc();
        switch (r.below(8)) {
        case 0: nx_image_scale(o, i, 0.5f + (float)r.unit()); break;
        case 1: nx_image_downsample(o, i); break;
        case 2: nx_image_upsample(o, i); break;
        case 3: nx_image_smooth(o, i, 1.0f + r.below(2), 0.8f, 3.0f, NULL); break;
        case 4: nx_image_filter_box(o, i, 1 + r.below(3), 1 + r.below(3), NULL); break;
        case 5: nx_image_deriv_x(o, i); break;
        case 6: nx_image_deriv_y(o, i); break;
        default: nx_image_free(o); o = nx_image_new_gray_f32(i->width, i->height); nx_image_convert_dtype(o, i); nx_image_normalize_to_zero_one(o, r.below(2)); nx_image_axpy(o, 0.5f, 0.1f);
        }
        dimg(d, o);
        struct NXImage* c = nx_image_copy0(i);
        nx_image_convert_type(c, NX_IMAGE_RGBA);
        dimg(d, c);
        nx_image_convert_type(c, NX_IMAGE_GRAYSCALE);
        nx_image_swap(c, o);
        dimg(d, o);
        struct NXImage* col = nx_image_alloc();
        nx_image_apply_colormap(col, i, (NXColorMap)r.below(5));
        dimg(d, col);
        nx_image_free(col); nx_image_free(c); nx_image_free(o); nx_image_free(i);
}
void o_warp(Rng& r, Dig& d) {
        struct NXImage* i = gray(r, 20 + r.below(16), 20 + r.below(16));
        struct NXAffineWarpProcessor* wp = nx_affine_warp_processor_new();
        if (r.below(2)) nx_affine_warp_processor_set_bg_fixed(wp, (uchar)r.next()); else nx_affine_warp_processor_set_bg_repeat(wp);
        nx_affine_warp_processor_set_post_blur_sigma(wp, r.below(2) ? 0.7f : 0.0f);
        for (int k = 0; k < 2; ++k) {
                struct NXAffineWarpParam p = {0.6 + 0.6 * r.unit(), r.unit() * 6, 1.0 + r.unit(), r.unit() * 3};
                nx_affine_warp_processor_warp(wp, i, p);
                dimg(d, nx_affine_warp_processor_warp_result(wp));
                d.add(nx_affine_warp_processor_forward_transform(wp), 48);
        }
        nx_affine_warp_processor_free(wp);
        struct NXImage* t = nx_image_new_gray_uc(40, 40);
        nx_image_set_zero(t);
        nx_image_rotate45(t, i, r.below(2));
        dimg(d, t);
        nx_image_free(t);
        nx_image_free(i);
}
void o_detect(Rng& r, Dig& d) {
        struct NXImage* i = gray(r, 40 + r.below(24), 40 + r.below(24), 1);
        int cap = 60;
        struct NXKeypoint* k = NX_NEW(cap, struct NXKeypoint);
        struct NXFastDetector* fd = nx_fast_detector_alloc();
        if (r.below(2)) nx_fast_detector_set_ori_param(fd, NX_TRUE, 5);
        int n = nx_fast_detector_detect(fd, cap, k, i);
        dkeys(d, n, k);
        struct NXImagePyrBuilder* b = nx_image_pyr_builder_new_fast(4, 0.8f);
        struct NXImagePyr* p = nx_image_pyr_builder_build0(b, i);
        n = nx_fast_detector_detect_pyr(fd, cap, k, p, 2);
        dkeys(d, n, k);
        struct NXBriefExtractor* be = nx_brief_extractor_new_with_seed(8, 8, 42);
        uchar desc[8];
        for (int q = 0; q < n && q < 10; ++q)
                if (nx_brief_extractor_check_point_pyr(be, p, k[q].x, k[q].y, k[q].level)) { nx_brief_extractor_compute_pyr(be, p, k[q].x, k[q].y, k[q].level, desc); d.add(desc, 8); }
        if (nx_brief_extractor_compute_pyr_at_theta(be, p, 20, 20, 0, 0.6f, desc)) d.add(desc, 8);
        FILE* f = nx_fopen("/d/b.bin", "wb");
        if (f) {
                if (nx_brief_extractor_write(be, f) != NX_OK) d.fail();
                if (nx_fclose(f, "b.bin") != NX_OK) d.fail();
                if (!d.failed && (f = nx_fopen("/d/b.bin", "rb"))) {
                        struct NXBriefExtractor* q = nx_brief_extractor_alloc();
                        if (nx_brief_extractor_read(q, f) != NX_OK) d.fail(); else { d.num(q->radius); d.num(q->n_octets); }
                        nx_brief_extractor_free(q);
                        fclose(f);
                } else d.fail();
        } else d.fail();
        nx_brief_extractor_free(be);
        nx_image_pyr_free(p);
        nx_image_pyr_builder_free(b);
        nx_fast_detector_free(fd);
        nx_free(k);
        nx_image_free(i);
}
void o_corners(Rng& r, Dig& d) {
        struct NXImage* i = gray(r, 30 + r.below(10), 30 + r.below(10), 1);
        struct NXImage *dm[3] = {0, 0, 0}, *s = nx_image_alloc();
        nx_harris_deriv_images(dm, i, 1.5f);
        nx_harris_score_image(s, dm, 0.04f);
        struct NXKeypoint* k = NX_NEW(50, struct NXKeypoint);
        dkeys(d, nx_harris_detect_keypoints(50, k, s, 0.0f), k);
        struct NXImage* lr[4] = {0, 0, 0, 0};
        nx_checkers_local_radon_images(lr, i, 3);
        nx_checkers_score_image(s, lr);
        dimg(d, s);
        for (auto* q : dm) nx_image_free(q);
        for (auto* q : lr) nx_image_free(q);
        nx_free(k); nx_image_free(s); nx_image_free(i);
}
void o_vgdetect(Rng& r, Dig& d) {
        using namespace virg::nexus;
        VGImage a;
        a.create_gray(40, 36, VGImage::UCHAR);
        for (int y = 0; y < 36; ++y) for (int x = 0; x < 40; ++x) a.data<uchar>(y)[x] = ((x / 6) ^ (y / 6)) & 1 ? 200 + r.below(20) : r.below(20);
        VGImagePyr p = VGImagePyr::build_fast_from(a, 2, 0.8f);
        p.rebuild_from(a);
        p.rebuild();
        VGHarrisDetector hd;
        std::vector<struct NXKeypoint> keys;
        int n = hd.detect_pyr(p, keys, 2, 40, r.below(2));
        dkeys(d, n, keys.data());
        VGBriefExtractor be(16, 6);
        be.randomize_with_seed(7);
        VGDescriptorMap map(16);
        be.compute_pyr(p, n, keys.data(), map);
        d.num(map.size());
        if (map.size()) { auto s = map.search_nn(map.get_descriptor(0)); d.num(s.id); d.f(s.match_cost); }
}
// ------------------------------------------------------------------ options
void o_options(Rng& r, Dig& d) {
        struct NXOptions* o = nx_options_new("bids", "-b|--bool", "a flag", NX_FALSE, "-i|--int", "a number", 4, "--dbl", "a real", 2.5, "-s", "a text", "def");
        nx_options_add(o, "r", "files");
        nx_options_add_help(o);
        nx_options_set_usage_header(o, "header\n");
        nx_options_set_usage_footer(o, "footer\n");
        for (int k = 0; k < 2; ++k) {
                char a0[] = "prog", a1[] = "-i", a2[] = "12", a3[] = "--bool", a4[] = "-s", a5[] = "txt", a6[] = "rest1", a7[] = "rest2";
                char* all[] = {a0, a1, a2, a3, a4, a5, a6, a7};
                nx_options_set_from_args(o, r.below(2) ? 8 : r.below(2) ? 4 : 1, all);
                d.num(nx_options_get_bool(o, "-b")); d.num(nx_options_get_int(o, "--int")); d.f(nx_options_get_double(o, "--dbl")); d.str(nx_options_get_string(o, "-s"));
                char** rest = nx_options_get_rest(o);
                for (int i = 0; rest && rest[i]; ++i) d.str(rest[i]);
        }
        FILE* f = nx_xfopen("/d/opt.txt", "w");
        nx_options_print_values(o, f);
        nx_options_print_usage(o, f);
        nx_xfclose(f, "opt.txt");
        d.str(vfs_get("/d/opt.txt").c_str());
        nx_options_free(o);
}
void o_vgoptions(Rng& r, Dig& d) {
        using namespace virg::nexus;
        VGOptions o;
        o.add_int("-n|--num", "n", VGOptions::NOT_REQUIRED, 3);
        o.add_string("--name", "s", VGOptions::NOT_REQUIRED, "dflt");
        o.add_rest("more", VGOptions::NOT_REQUIRED);
        char a0[] = "p", a1[] = "-n", a2[] = "77", a3[] = "x";
        char* av[] = {a0, a1, a2, a3};
        o.set_from_args(1 + (r.below(2) ? 3 : 0), av);
        d.num(o.get_int("-n")); d.str(o.get_string("--name").c_str()); d.num(o.get_rest().size());
}
// ------------------------------------------------------------------ numerics that allocate
void o_numeric(Rng& r, Dig& d) {
        int m = 2 + r.below(5), n = 2 + r.below(5), q = std::min(m, n);
        double A[49], S[7], U[49], Vt[49];
        for (int i = 0; i < m * n; ++i) A[i] = r.unit() - 0.5;
        double B[49];
        memcpy(B, A, sizeof B);
        nx_dsvd_only_s(S, m, n, A, m);
        for (int i = 0; i < q; ++i) d.f(S[i]);
        memcpy(A, B, sizeof A);
        nx_dsvd_usvt(U, m, S, Vt, n, m, n, A, m);
        for (int i = 0; i < q; ++i) d.f(S[i]);
        memcpy(A, B, sizeof A);
        nx_dmat_transpose(m, n, A);
        d.add(A, sizeof(double) * m * n);
        double C[16] = {4, 1, 0, 0, 1, 5, 1, 0, 0, 1, 6, 1, 0, 0, 1, 7}, x[4] = {1, 2, 3, 4};
        int ip[4];
        if (nx_dsym_solver(NX_SYMMETRIC_UPPER, 4, 1, C, 4, x, 4, ip)) d.add(x, sizeof x); else d.num(5);
        double y[20]; int yi[20];
        for (int i = 0; i < 20; ++i) { y[i] = r.unit(); yi[i] = r.below(100); }
        struct NXStatistics1D st;
        nx_dstatistics_1d(&st, 20, y);
        d.f(st.median); d.f(st.mean); d.f(st.upper_quartile);
        nx_istatistics_1d(&st, 20, yi);
        d.f(st.median); d.f(st.stdev);
        FILE* f = nx_xfopen("/d/m.bin", "wb");
        nx_dmat_xwrite(f, m, n, B);
        nx_xfclose(f, "m.bin");
        f = nx_xfopen("/d/m.bin", "rb");
        int mm, nn;
        double* R = nx_dmat_xread(f, &mm, &nn);
        nx_xfclose(f, "m.bin");
        d.num(mm); d.num(nn);
        d.add(R, sizeof(double) * mm * nn);
        nx_free(R);
}
void o_robust(Rng& r, Dig& d) {
        struct NXUniformSampler* us = nx_uniform_sampler_instance();
        nx_uniform_sampler_init_seed(us, (uint32_t)r.next());
        int n = 12 + r.below(20);
        struct NXPointMatch2D* m = NX_NEW(n, struct NXPointMatch2D);
        for (int i = 0; i < n; ++i) {
                memset(&m[i], 0, sizeof m[i]);
                m[i].x[0] = 300 * r.unit(); m[i].x[1] = 200 * r.unit();
                m[i].xp[0] = 1.1f * m[i].x[0] + 5 + (r.below(5) == 0 ? 40 * (float)r.unit() : 0); m[i].xp[1] = 0.9f * m[i].x[1] - 3;
                m[i].id = m[i].idp = i;
        }
        double h[9];
        memset(h, 0, sizeof h);
        int k;
        switch (r.below(5)) {
        case 0: k = nx_homography_estimate_ransac(h, n, m, 2.0, 20); break;
        case 1: k = nx_homography_estimate_norm_ransac(h, n, m, 2.0, 20); break;
        case 2: k = nx_usac_estimate_homography(h, n, m, 2.0, 20); break;
        case 3: k = nx_fundamental_estimate_ransac(h, n, m, 2.0, 10); break;
        default: k = nx_fundamental_estimate_norm_ransac(h, n, m, 2.0, 10);
        }
        d.num(k);
        for (int i = 0; i < n; ++i) d.num(m[i].is_inlier);
        if (r.below(2)) d.f(nx_homography_estimate_dlt(h, n, m)); else d.f(nx_fundamental_estimate(h, n, m));
        nx_free(m);
        nx_uniform_sampler_instance_free();
}
void o_samplers(Rng& r, Dig& d) {
        struct NXUniformSampler* u = nx_uniform_sampler_new_with_seed((uint32_t)r.next());
        d.num(nx_uniform_sampler_sample64(u)); d.f(nx_uniform_sampler_sample_d(u));
        struct NXGaussianSampler* g = nx_gaussian_sampler_new_with_seed((uint32_t)r.next());
        double x[7];
        nx_gaussian_sampler_sample_d(g, 7, x, 1.0, 2.0);
        d.add(x, sizeof x);
        nx_gaussian_sampler_free(g);
        nx_uniform_sampler_free(u);
}
void o_graph(Rng& r, Dig& d) {
        int n = 2 + r.below(8);
        struct NXGraphAdjMat* m = nx_graph_new_adj_mat("mat", n);
        struct NXGraphAdjLst* l = nx_graph_new_adj_lst(r.below(2) ? "lst" : "other", n);
        for (int k = r.below(20); k > 0; --k) { int v = r.below(n), w = r.below(n); double x = r.unit(); nx_graph_insert_adj_mat(m, v, w, x); nx_graph_insert_adj_lst(l, v, w, x); }
        d.num(m->n_e); d.num(l->n_e); d.str(m->name); d.str(l->name);
        d.add(m->weights, sizeof(double) * n * n);
        for (int v = 0; v < n; ++v) for (struct NXGraphEdge* e = l->edges[v]; e; e = e->next) { d.num(e->v); d.f(e->weight); }
        nx_graph_free_adj_mat(m);
        nx_graph_free_adj_lst(l);
}
// ------------------------------------------------------------------ peers and directories
void o_gnuplot(Rng& r, Dig& d) {
        FILE* own = nx_xfopen("/d/g.gp", "w");
        struct NXGNUPlot* g = nx_gnuplot_new(own, NX_TRUE);
        if (!g) { d.fail(); fclose(own); return; }
        nx_gnuplot_set_terminal(g, (NXTerminalType)r.below(5), 10, 8, "name", 1);
        nx_gnuplot_set_title_and_labels(g, "t", "x", "y");
        struct NXDataFrame* f = nx_data_frame_alloc();
        nx_data_frame_add_column(f, NX_DCT_INT, "n");
        for (int i = 0; i < 5; ++i) nx_data_frame_append_row(f, i);
        nx_gnuplot_send_data_frame(g, f, "$D");
        nx_gnuplot_send_command(g, "plot %s", "$D");
        nx_gnuplot_flush(g);
        nx_data_frame_free(f);
        nx_gnuplot_free(g);
        fclose(own);
        d.num(1);
}
void o_gnuplot_pipe(Rng& r, Dig& d) {
        struct NXGNUPlot* g = nx_gnuplot_new(NULL, r.below(2));
        if (!g) { d.fail(); return; }
        nx_gnuplot_set_title(g, "t");
        nx_gnuplot_flush(g);
        nx_gnuplot_free(g);
        d.num(2);
}
void o_dirs(Rng& r, Dig& d) {
        nx_ensure_dir("/d/new");
        vfs_put("/d/new/a", "1"); vfs_put("/d/new/b", "2");
        struct NXStringArray* s = nx_scan_dir(r.below(4) ? "/d/new" : "/d/none");
        if (!s) { d.fail(); return; }
        d.num(nx_string_array_size(s));
        for (int i = 0; i < nx_string_array_size(s); ++i) d.str(nx_string_array_get(s, i));
        nx_string_array_free(s);
        d.num(nx_check_dir("/d/new")); d.num(nx_check_file("/d/new/a"));
}
void o_gc(Rng& r, Dig& d) {
        struct NXImage* i = nx_image_new_rgba_uc(16, 16);
        nx_image_set_zero(i);
        struct NXGC* g = nx_gc_new(i);
        nx_gc_set_color(g, 1, 0, 0.5, 1);
        nx_gc_circle(g, 8, 8, 2 + r.below(5));
        nx_gc_fill(g);
        nx_gc_line(g, 1, 1, 14, 9);
        nx_gc_stroke(g);
        nx_gc_flush(g);
        dimg(d, i);
        nx_gc_free(g);
        nx_image_free(i);
}

// ------------------------------------------------------------------ the rest of the public interface
void o_f32(Rng& r, Dig& d) {
        struct NXImage *i = gray_f(r, 10 + r.below(24), 10 + r.below(24)), *o = nx_image_alloc(), *u = nx_image_alloc();
        nx_image_scale(o, i, 0.5f + (float)r.unit());
        dimg(d, o);
        nx_image_downsample_aa_x(o, i);
        nx_image_downsample_aa_y(u, o);
        dimg(d, u);
        struct NXImage* uc = nx_image_new_gray(i->width, i->height, NX_IMAGE_UCHAR);
        nx_image_convert_dtype(uc, i);
        nx_image_axpy(uc, 0.5f, 3.0f);
        dimg(d, uc);
        struct NXImage* t = nx_image_new_gray_f32(60, 60);
        nx_image_set_zero(t);
        nx_image_rotate45(t, i, r.below(2));
        dimg(d, t);
        float a[9] = {0.9f, 0.1f, 0, -0.1f, 1.1f, 0, (float)r.below(4), (float)r.below(4), 1};
        static const NXImageWarpBackgroundMode bg[] = {NX_IMAGE_WARP_BLACK, NX_IMAGE_WARP_WHITE, NX_IMAGE_WARP_MIRROR};   // NOISE draws from the process-wide sampler
        nx_image_resize(o, 20, 16, NX_IMAGE_STRIDE_DEFAULT, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
        nx_image_set_zero(o);
        nx_image_warp_affine_bilinear(20, 16, o->data.uc, o->row_stride, uc->width, uc->height, uc->data.uc, uc->row_stride, a, bg[r.below(3)]);
        dimg(d, o);
        nx_image_subtract(u, i, i);
        dimg(d, u);
        struct NXImage* l = nx_image_new_like(u);
        nx_image_copy(l, u);
        nx_image_convert_type(l, NX_IMAGE_RGBA);
        nx_image_convert_type(l, NX_IMAGE_GRAYSCALE);
        dimg(d, l);
        nx_image_free(l); nx_image_free(t); nx_image_free(uc); nx_image_free(u); nx_image_free(o); nx_image_free(i);
}
void o_formats(Rng& r, Dig& d) {
        struct NXImage* i = r.below(2) ? gray(r, 3 + r.below(20), 3 + r.below(20)) : rgba(r, 2 + r.below(20), 3 + r.below(20));
        struct NXImage* l = nx_image_alloc();
        NXImageLoadMode m = (NXImageLoadMode)((int)r.below(3) - 1);
        switch (r.below(3)) {
        case 0: nx_image_xsave_pnm(i, "/d/f.pnm"); nx_image_xload_pnm(l, "/d/f.pnm", m); break;
        case 1: nx_image_xsave_png(i, "/d/f.png"); nx_image_xload_png(l, "/d/f.png", m); break;
        default: nx_image_xsave_jpeg(i, "/d/f.jpg"); nx_image_xload_jpeg(l, "/d/f.jpg", m);
        }
        dimg(d, l);
        nx_image_free(l); nx_image_free(i);
}
void o_xrecords(Rng& r, Dig& d) {
        char w0[] = "alpha", w1[] = "", w2[] = "gamma ray";
        char* list[] = {w0, w1, w2, NULL};
        struct NXStringArray* a = nx_string_array_new_from_null_terminated_list(list);
        nx_string_array_appendf(a, "%d", (int)r.below(100));
        struct NXBriefExtractor* be = nx_brief_extractor_new_with_seed(4 + r.below(4), 6, 9);
        FILE* f = r.below(2) ? nx_xfopen("/d/x.bin", "w+b") : nx_xtmpfile();
        nx_string_array_xwrite(a, f);
        nx_brief_extractor_xwrite(be, f);
        if (nx_strwrite("tail", f) != 0) d.fail();
        nx_string_array_xwrite(a, f);
        rewind(f);
        struct NXStringArray* b = nx_string_array_new(2);
        nx_string_array_xread(b, f);
        d.num(nx_string_array_size(b));
        for (int i = 0; i < nx_string_array_size(b); ++i) d.str(nx_string_array_ptr(b)[i]);
        d.num(nx_string_array_find(b, "gamma ray"));
        struct NXBriefExtractor* q = nx_brief_extractor_alloc();
        nx_brief_extractor_xread(q, f);
        d.num(q->n_octets); d.num(q->radius);
        char* t = nx_strread0(f);
        if (!t) d.fail(); else d.str(t);
        struct NXStringArray* c = nx_string_array_xread0(f);
        d.num(nx_string_array_size(c));
        nx_xfclose(f, "x.bin");
        uchar d0[8], d1[8];
        for (int i = 0; i < 8; ++i) { d0[i] = (uchar)r.next(); d1[i] = (uchar)r.next(); }
        d.num(nx_brief_extractor_descriptor_distance(8, d0, d1));
        nx_brief_extractor_resize(q, 6, 7);
        nx_brief_extractor_randomize_with_seed(q, 11);
        d.num(q->n_octets);
        nx_free(t);
        nx_string_array_free(a); nx_string_array_free(b); nx_string_array_free(c);
        nx_brief_extractor_free(be); nx_brief_extractor_free(q);
}
void o_bundle2(Rng& r, Dig& d) {
        struct NXJSONNode* o = nx_json_node_new_object();
        bool t = r.below(2);
        nx_json_object_add(o, "b", nx_json_bundle_bool(t));
        nx_json_object_add(o, "c", nx_json_bundle_char((char)('a' + r.below(26))));
        nx_json_object_add(o, "u", nx_json_bundle_uchar((uchar)r.next()));
        nx_json_object_add(o, "f", nx_json_bundle_float((float)r.unit()));
        nx_json_object_add(o, "d", nx_json_bundle_double(r.unit()));
        nx_json_object_add(o, "s", nx_json_bundle_string("some \"text\"\n"));
        struct NXKeypoint k;
        memset(&k, 0, sizeof k);
        k.x = (int)r.below(100); k.ys = 2.5f; k.id = r.next();
        nx_json_object_add(o, "k", nx_json_bundle_keypoint(&k));
        d.num(nx_json_unbundle_bool(nx_json_object_get(o, "b", t ? NX_JNT_TRUE : NX_JNT_FALSE)));
        d.num(nx_json_unbundle_char(nx_json_object_get(o, "c", NX_JNT_STRING)));
        d.num(nx_json_unbundle_uchar(nx_json_object_get(o, "u", NX_JNT_INTEGER)));
        char* s = nx_json_unbundle_string(nx_json_object_get(o, "s", NX_JNT_STRING));
        d.str(s);
        nx_free(s);
        struct NXKeypoint q = nx_json_unbundle_keypoint(nx_json_object_get(o, "k", NX_JNT_OBJECT));
        dkeys(d, 1, &q);
        nx_json_tree_free(o);
}
void o_factors(Rng& r, Dig& d) {
        struct NXDataFrame* f = nx_data_frame_alloc();
        static const char* labels[] = {"name", "count", "value", "flag"};
        static const NXDataColumnType types[] = {NX_DCT_STRING, NX_DCT_INT, NX_DCT_DOUBLE, NX_DCT_BOOL};
        nx_data_frame_add_columns(f, 4, types, labels);
        int n = r.below(20);
        for (int i = 0; i < n; ++i) {
                nx_data_frame_append_row(f, i % 3 ? "odd" : "even", (int)r.below(5) - 2, (double)r.below(4) / 4, (NXBool)r.below(2));
                if (r.below(8) == 0) nx_data_frame_set_na(f, i, r.below(4));
        }
        for (int c = 0; c < 4; ++c) if (r.below(2)) nx_data_frame_make_factor(f, c);
        dframe(d, f);
        FILE* o = nx_fopen("/d/fac.txt", "w");
        if (!o) d.fail();
        else {
                if (!nx_data_frame_fprintf(f, o, " ")) d.fail();
                if (nx_fclose(o, "fac.txt") != NX_OK) d.fail();
                if (!d.failed) d.str(vfs_get("/d/fac.txt").c_str());
        }
        nx_data_frame_free(f);
}
void o_fastpyr(Rng& r, Dig& d) {
        struct NXImage* i = gray(r, 48 + r.below(24), 48 + r.below(24), 1);
        struct NXImagePyrBuilder* b = nx_image_pyr_builder_new_fast(4, 0.8f);
        struct NXImagePyr* p = nx_image_pyr_builder_build0(b, i);
        struct NXKeypoint *k = NX_NEW(80, struct NXKeypoint), *w = NX_NEW(300, struct NXKeypoint);
        dkeys(d, nx_fast_detect_keypoints_pyr(80, k, 300, w, p, 20, 2), k);
        int n = nx_fast_detect_keypoints(300, w, i, 20);
        nx_fast_score_keypoints(n, w, i, 20);
        dkeys(d, nx_fast_suppress_keypoints(80, k, n, w), k);
        struct NXFastDetector* fd = nx_fast_detector_alloc();
        for (int q = 0; q < 3; ++q) { n = nx_fast_detector_detect(fd, 20, k, i); nx_fast_detector_adapt_threshold(fd, n, 20); d.num(fd->threshold); }
        nx_fast_detector_free(fd);
        nx_free(k); nx_free(w);
        nx_image_pyr_free(p); nx_image_pyr_builder_free(b); nx_image_free(i);
}
void o_vgimage2(Rng& r, Dig& d) {
        using namespace virg::nexus;
        VGImage a, b, c, e;
        a.create_gray(12 + r.below(16), 12 + r.below(16), VGImage::UCHAR);
        for (int y = 0; y < a.height(); ++y) for (int x = 0; x < a.width(); ++x) a.data<uchar>(y)[x] = (uchar)r.next();
        a.xsave("/d/vg.pgm");
        b.xload("/d/vg.pgm", VGImage::LOAD_RGBA);
        dimg(d, b.nx_img());
        c.create_like(a); c.set_zero(); dimg(d, c.nx_img());
        c.filter_box_x(a, 2); dimg(d, c.nx_img());
        c.filter_box_y(a, 2); dimg(d, c.nx_img());
        c.scaled_of(a, 0.7f); dimg(d, c.nx_img());
        c.downsampled_from(a); dimg(d, c.nx_img());
        c.deriv_x_of(a); dimg(d, c.nx_img());
        c.deriv_y_of(a); dimg(d, c.nx_img());
        c.normalize_to_zero_one(r.below(2)); dimg(d, c.nx_img());
        e.apply_colormap(b, a, (VGColorMap::Type)r.below(5));
        dimg(d, b.nx_img());
        b.copy_of(a); dimg(d, b.nx_img());
        e.create_rgba(5, 4, VGImage::UCHAR); e.set_zero(); dimg(d, e.nx_img());
        VGImagePyr p = r.below(2) ? VGImagePyr::build_fine_from(a, 1, 2, 1.0f) : VGImagePyr::build_scaled_from(a, 2, 1.2f, 1.0f);
        d.num(p.n_levels()); d.f(p.sigma0());
        for (int l = 0; l < p.n_levels(); ++l) { VGImage q = p[l]; dimg(d, q.nx_img()); d.f(p.level_scale(l)); d.f(p.level_sigma(l)); }
        VGHarrisDetector hd;
        std::vector<struct NXKeypoint> keys;
        int n = hd.detect(a, keys, 30, r.below(2));
        dkeys(d, n, keys.data());
}
void o_vgcorr(Rng& r, Dig& d) {
        using namespace virg::nexus;
        VGPointCorrespondence2D c;
        int n = 8 + r.below(20);
        c.reserve(4);
        for (int i = 0; i < n; ++i) { float x = 300 * (float)r.unit(), y = 200 * (float)r.unit(); c.add_match(i, x, y, 1.0f, i + 100, 1.1f * x + 4, 0.9f * y - 2, 1.0f, (float)r.unit(), r.below(5) != 0); }
        VGPointCorrespondence2D k = c.clone();
        c.sort_by_match_cost();
        c.normalize();
        dmatches(d, c.size(), c.matches());
        c.denormalize();
        dmatches(d, c.size(), c.matches());
        VGHomography H;
        d.num(H.estimate_from_inliers(k, 2.0));
        for (int i = 0; i < n; ++i) d.num(k.is_inlier(i));
        VGDescriptorMap m(8);
        uchar q[8];
        for (int i = 0; i < 10; ++i) { for (auto& b : q) b = (uchar)r.next(); m.add(1000 + i, q); }
        d.num(m.size());
        auto s = m.search_nn(q);
        d.num(s.id); d.f(s.match_cost);
        c.clear();
        d.num(c.size());
        const uchar* f = m.search_by_id(1004);
        d.add(f, 8);
}
void o_vgoptions2(Rng& r, Dig& d) {
        using namespace virg::nexus;
        VGOptions o;
        o.add_bool("-v|--verbose", "talk", VGOptions::NOT_REQUIRED, false);
        o.add_double("-x", "a real", VGOptions::NOT_REQUIRED, 1.5);
        o.add_int("-n", "n", VGOptions::NOT_REQUIRED, -3);
        o.add_string("-s", "text", VGOptions::NOT_REQUIRED, "none");
        o.add_help();
        o.set_usage_header("H\n"); o.set_usage_footer("F\n");
        char a0[] = "p", a1[] = "-x", a2[] = "-2.5e3", a3[] = "--verbose", a4[] = "-n", a5[] = "-8";
        char* av[] = {a0, a1, a2, a3, a4, a5};
        static const int cnt[] = {1, 3, 4, 6};
        o.set_from_args(cnt[r.below(4)], av);
        d.num(o.get_bool("-v")); d.f(o.get_double("-x")); d.num(o.get_int("-n")); d.str(o.get_string("-s").c_str()); d.num(o.is_set("-x"));
        FILE* f = nx_xfopen("/d/vo.txt", "w");
        o.print_values(f);
        o.print_usage(f);
        nx_xfclose(f, "vo.txt");
        d.str(vfs_get("/d/vo.txt").c_str());
}
void o_geometry(Rng& r, Dig& d) {
        int n = 8 + r.below(16);
        struct NXPointMatch2D* m = NX_NEW(n, struct NXPointMatch2D);
        for (int i = 0; i < n; ++i) {
                memset(&m[i], 0, sizeof m[i]);
                m[i].x[0] = 300 * r.unit(); m[i].x[1] = 200 * r.unit();
                m[i].xp[0] = 1.1f * m[i].x[0] + 5; m[i].xp[1] = 0.9f * m[i].x[1] - 3 + (r.below(4) == 0 ? 30 : 0);
                m[i].is_inlier = r.below(4) != 0;
        }
        double h[9] = {1.1, 0, 0, 0, 0.9, 0, 5, -3, 1}, hi[9] = {1 / 1.1, 0, 0, 0, 1 / 0.9, 0, -5 / 1.1, 3 / 0.9, 1};
        d.num(nx_homography_mark_inliers_inv(hi, n, m, 3.0));
        d.num(nx_homography_mark_inliers(h, n, m, 3.0));
        d.num(nx_homography_transfer_error_fwd(h, n, m) >= 0); d.num(nx_homography_transfer_error_bwd(h, n, m) >= 0); d.num(nx_homography_transfer_error_sym(h, n, m) >= 0);
        int ids[4] = {0, 1, 2, 3};
        nx_homography_estimate_4pt(h, ids, m);
        nx_homography_estimate_dlt_inliers(h, n, m);
        double F[9];
        nx_fundamental_estimate_inliers(F, n, m);
        d.num(nx_homography_check(hi, 0.9));
        float A[20], S[5], U[25], Vt[25], B[20];
        for (auto& x : A) x = (float)r.unit();
        memcpy(B, A, sizeof B);
        nx_ssvd_usvt(U, 5, S, Vt, 4, 5, 4, A, 5);
        for (int i = 0; i < 4; ++i) d.num(S[i] >= 0);
        memcpy(A, B, sizeof B); nx_ssvd_only_s(S, 5, 4, A, 5);
        memcpy(A, B, sizeof B); nx_ssvd_us(U, 5, S, 5, 4, A, 5);
        memcpy(A, B, sizeof B); nx_ssvd_svt(S, Vt, 4, 5, 4, A, 5);
        double R[9] = {0, 1, 0, -1, 0, 0, 0, 0, 1}, t[3] = {0.6, 0, 0.8}, E[9];
        nx_essential_from_Rt(E, R, t);
        double Rs[4][9], ts[4][3];
        double *Rp[4], *tp[4];
        for (int i = 0; i < 4; ++i) { Rp[i] = Rs[i]; tp[i] = ts[i]; }
        nx_essential_decompose_to_Rt(E, Rp, tp);
        int zs[4];
        int best = nx_epipolar_pick_best_Rt(Rp, tp, n, m, zs);
        d.num(best >= 0 && best < 4);
        struct NXPointMatch2DStats* st = nx_point_match_2d_stats_new();
        nx_point_match_2d_stats_normalize_matches(st, n, m);
        nx_point_match_2d_stats_denormalize_matches(st, n, m);
        nx_point_match_2d_stats_free(st);
        nx_free(m);
}
void o_draw(Rng& r, Dig& d) {
        struct NXImage* i = nx_image_new_rgba_uc(24, 24);
        nx_image_set_zero(i);
        struct NXGC* g = nx_gc_new(i);
        nx_gc_clear(g);
        nx_gc_set_color(g, 0.25, 1, 0.5, 1);
        nx_gc_set_line_width(g, 1 + r.below(3));
        double dash[2] = {2, 1};
        nx_gc_set_line_dash(g, 2, dash, 0);
        nx_gc_new_path(g);
        nx_gc_move_to(g, 2, 3); nx_gc_line_to(g, 20, 9); nx_gc_rel_line_to(g, -4, 5); nx_gc_rel_move_to(g, 1, 1);
        nx_gc_curve_to(g, 9, 9, 3, 20, 15, 4); nx_gc_rel_curve_to(g, 4, 4, 1, 2, 3, 1);
        nx_gc_stroke(g);
        nx_gc_rectangle(g, 3, 3, 6, 5); nx_gc_fill(g);
        nx_gc_arc(g, 12, 12, 5, 0, 2); nx_gc_stroke(g);
        nx_gc_curve(g, 1, 1, 20, 20, 5, 15, 15, 5); nx_gc_stroke(g);
        nx_gc_flush(g);
        dimg(d, i);
        nx_gc_free(g);
        nx_image_free(i);
        using namespace virg::nexus;
        VGImage a;
        a.create_gray(30, 20, VGImage::UCHAR); a.set_zero();
        VGImageAnnotator an(a);
        an.draw_mark((VGImageAnnotator::MarkType)((int)r.below(6) - 1), 9, 9, 4, VGColor(1, 0, 0, 1));
        an.draw_edge(2, 2, 22, 14, 1.5, VGColor(0, 1, 0, 1), VGImageAnnotator::MARK_CROSS, 3);
        an.draw_roi(4, 4, 10, 8, 1, VGColor(0, 0, 1, 1));
        struct NXKeypoint k;
        memset(&k, 0, sizeof k); k.x = 15; k.y = 10; k.xs = 15; k.ys = 10; k.scale = 1; k.sigma = 2;
        an.draw_keypoints(1, &k, r.below(2));
        dimg(d, an.get_canvas().nx_img());
        VGPointCorrespondence2D c;
        c.add_match(0, 5, 5, 1, 0, 7, 8, 1, 0.5f, true);
        VGImageAnnotator mi = VGImageAnnotator::create_match_image(a, a, c, r.below(2));
        dimg(d, mi.get_canvas().nx_img());
}
}  // namespace
const std::vector<ApiOp>& api_ops() {
        static const std::vector<ApiOp> v = {
                {"image save+load", nullptr, o_image_io}, {"damaged image", p_image_bad, o_image_bad}, {"VGImage", nullptr, o_vgimage},
                {"data frame", nullptr, o_table}, {"odd CSV", p_table_bad, o_table_bad},
                {"JSON", nullptr, o_json}, {"JSON bundle", nullptr, o_bundle},
#ifdef NX_ENABLE_JLOG
                {"JSON log", nullptr, o_jlog},
#endif
                {"strings", nullptr, o_strings}, {"lines", p_lines, o_lines}, {"string array", nullptr, o_string_array},
                {"memory block", nullptr, o_memblock}, {"keypoint vector", nullptr, o_keyvec}, {"SIFT", nullptr, o_sift},
                {"KITTI", p_kitti, o_kitti}, {"VGG affine", p_vgg, o_vgg}, {"Temple Color", p_temple, o_temple},
                {"pyramid", nullptr, o_pyr}, {"image operations", nullptr, o_imgops}, {"warp", nullptr, o_warp},
                {"FAST+BRIEF", nullptr, o_detect}, {"corner detectors", nullptr, o_corners}, {"VG detectors", nullptr, o_vgdetect},
                {"options", nullptr, o_options}, {"VGOptions", nullptr, o_vgoptions}, {"numerics", nullptr, o_numeric},
                {"robust estimation", nullptr, o_robust}, {"samplers", nullptr, o_samplers}, {"graph", nullptr, o_graph},
                {"gnuplot stream", nullptr, o_gnuplot}, {"gnuplot pipe", nullptr, o_gnuplot_pipe}, {"directories", nullptr, o_dirs},
                {"graphics", nullptr, o_gc},
                {"float images", nullptr, o_f32}, {"image formats", nullptr, o_formats}, {"records", nullptr, o_xrecords}, {"JSON values", nullptr, o_bundle2},
                {"factors", nullptr, o_factors}, {"FAST", nullptr, o_fastpyr}, {"VGImage operations", nullptr, o_vgimage2}, {"VG correspondences", nullptr, o_vgcorr},
                {"VGOptions printing", nullptr, o_vgoptions2}, {"geometry", nullptr, o_geometry}, {"drawing", nullptr, o_draw},
        };
        return v;
}
