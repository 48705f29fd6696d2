// C06: no stored bytes, however damaged, make a reader corrupt memory, hang or
// die disorderly; what it accepts is usable.
#include "img.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_io.h"
#include "virg/nexus/nx_json_bundle.h"
#include "virg/nexus/nx_json_tree.h"
#include "virg/nexus/nx_keypoint.h"
#include "virg/nexus/nx_kitti_slam.h"
#include "virg/nexus/nx_mat.h"
#include "virg/nexus/nx_sift_detector.h"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/nx_temple_color_128.h"
#include "virg/nexus/nx_vgg_affine_dataset.h"
#include "virg/nexus/vg_image.hpp"

namespace {
// ------------------------------------------------------------------ damage
const char* nasty_num[] = {"0", "-1", "1", "2147483647", "-2147483648", "4294967295", "4294967296", "65536", "46341", "99999999999999999999", "1e308", "nan", "inf", "-0", "", " ", "x", "1000000", "20000"};
std::string damage(std::string s, bool text, std::string* how) {
        Rng r(choose(1u << 28));
        int n = 1 + small(6);
        char b[96];
        for (int i = 0; i < n; ++i) {
                int k = r.below(text ? 12 : 9);
                size_t p = s.empty() ? 0 : r.below(s.size());
                if (r.below(3) == 0) p = std::min<size_t>(p, r.below(48));
                switch (k) {
                case 0: s.resize(p); snprintf(b, sizeof b, "cut@%zu ", p); break;
                case 1: if (!s.empty()) s[p] ^= 1 << r.below(8); snprintf(b, sizeof b, "flip@%zu ", p); break;
                case 2: if (!s.empty()) s[p] = (char)r.next(); snprintf(b, sizeof b, "byte@%zu ", p); break;
                case 3: {
                        static const int64_t v[] = {0, -1, INT32_MAX, INT32_MIN, 1, 0xffff, 0x10000, 0x7fffffffffffffffll, 64, 1 << 20, 200000000, INT64_MIN, 0x100000001ll, 0x7fffff00, 0x0fffffff, 0x20000000, 0x30000001};
                        int64_t x = v[r.below(17)] + (int)r.below(3) - 1;
                        if (r.below(3) == 0) x = __builtin_bswap32((uint32_t)x);
                        size_t w = 1u << r.below(4);
                        p = r.below(3) ? p / w * w : p;
                        for (size_t j = 0; j < w && p + j < s.size(); ++j) s[p + j] = ((char*)&x)[j];
                        snprintf(b, sizeof b, "int%zu=%lld@%zu ", w * 8, (long long)x, p);
                        break;
                }
                case 4: { size_t l = r.below(40); std::string q; for (size_t j = 0; j < l; ++j) q += (char)r.next(); s.insert(p, q); snprintf(b, sizeof b, "insert %zu@%zu ", l, p); break; }
                case 5: { size_t l = r.below(60); s.erase(p, l); snprintf(b, sizeof b, "erase %zu@%zu ", l, p); break; }
                case 6: { size_t l = r.below(200); std::string q = s.substr(p, l); size_t at = s.empty() ? 0 : r.below(s.size()); s.insert(at, q); snprintf(b, sizeof b, "copy %zu@%zu->%zu ", l, p, at); break; }
                case 7: { size_t l = r.below(s.size() + 1); for (size_t j = p; j < s.size() && j < p + l; ++j) s[j] = 0; snprintf(b, sizeof b, "zero@%zu ", p); break; }
                case 8: { size_t l = r.below(3000); s.append(l, (char)r.next()); snprintf(b, sizeof b, "append %zu ", l); break; }
                case 9: case 10: {   // replace a number
                        std::vector<std::pair<size_t, size_t>> nums;
                        for (size_t a = 0; a < s.size();) { if (isdigit((unsigned char)s[a])) { size_t e = a; while (e < s.size() && (isdigit((unsigned char)s[e]) || s[e] == '.')) ++e; nums.push_back({a, e - a}); a = e; if (nums.size() > 400) break; } else ++a; }
                        if (nums.empty()) { b[0] = 0; break; }
                        auto q = nums[r.below(r.below(2) ? std::min<size_t>(nums.size(), 4) : nums.size())];
                        const char* v = nasty_num[r.below(sizeof nasty_num / sizeof *nasty_num)];
                        s.replace(q.first, q.second, v);
                        snprintf(b, sizeof b, "num=%s@%zu ", v, q.first);
                        break;
                }
                default: {
                        static const char* t[] = {"\"", "\\", "\\u", "\\u12", "[", "{", "]", "}", ",", ":", "\n", "\r", "#", "\"\"", "\\ud800", "\0", "-", ".", "e", "null", "\xff", "\t"};
                        const char* v = t[r.below(22)];
                        s.insert(p, *v ? std::string(v) : std::string(1, '\0'));
                        snprintf(b, sizeof b, "token@%zu ", p);
                }
                }
                if (how->size() < 300) *how += b;
                if (s.size() > 200000) s.resize(200000);
        }
        return s;
}
std::string soup(bool text) {
        Rng r(choose(1u << 28));
        return rand_text(r, r.below(400), text ? 1 + r.below(3) : 3);
}
OpResult hostile(const char* name, const std::function<void()>& f) {
        size_t e0 = sim_stderr().size();
        note_kind(K_TRUNC);
        OpResult r = run_op(name, Plan::none(), f);
        expect_orderly_fatal(r, name, e0);
        hash_mix(r.how);
        return r;
}
// ------------------------------------------------------------------ images
void image_case() {
        std::string s, how;
        int f = choose(4);
        if (f == 0) { Ref ref = draw_ref(24, false); fill_ref(ref, false, 0, choose(1 << 16)); s = encode_pnm(ref, choose(4)); }
        else if (f == 1) { Ref ref = draw_ref(24, false); ref.ch = 4; fill_ref(ref, false, 0, choose(1 << 16)); static const int dep[] = {8, 16, 8, 8, 8}; int c = choose(5); s = encode_png(ref, c, c == 4 ? 8 : dep[choose(2)], chance(1, 3), chance(1, 3)); }
        else if (f == 2) { Ref ref = draw_ref(24, true); int odd = chance(1, 4) ? 1 + choose(5) : 0; s = encode_jpeg(ref, chance(1, 3), 30 + choose(70), odd); if (odd) { how = "odd-colours "; probe("jpeg-odd-colours"); } }
        else { static const char* m[] = {"P5\n", "P6 ", "P5 #", "\xff\xd8\xff\xe0", "\x89PNG\r\n\x1a\n", "P2\n", "P"}; s = m[choose(7)] + soup(chance(1, 2)); how = "soup "; }
        bool text = f == 0;
        if ((f != 3 && !(f == 2 && chance(1, 4))) || chance(1, 2)) s = damage(s, text, &how);
        // keep PNG chunk checksums valid sometimes so that damage reaches the decoder
        if (f == 1 && chance(2, 3)) {
                for (size_t p = 8; p + 12 <= s.size();) {
                        uint32_t l = ((uint8_t)s[p] << 24) | ((uint8_t)s[p + 1] << 16) | ((uint8_t)s[p + 2] << 8) | (uint8_t)s[p + 3];
                        if (l > s.size() || p + 12 + l > s.size()) break;
                        uint32_t c = 0xffffffffu;
                        for (size_t i = p + 4; i < p + 8 + l; ++i) { c ^= (uint8_t)s[i]; for (int k = 0; k < 8; ++k) c = c & 1 ? (c >> 1) ^ 0xedb88320u : c >> 1; }
                        c = ~c;
                        for (int k = 0; k < 4; ++k) s[p + 8 + l + k] = (char)(c >> (24 - 8 * k));
                        p += 12 + l;
                }
                how += "crc-fixed";
        }
        op("image format %d, %zu bytes, damage %s", f, s.size(), how.c_str());
        vfs_put("/d/i", s);
        static const NXImageLoadMode modes[] = {NX_IMAGE_LOAD_AS_IS, NX_IMAGE_LOAD_GRAYSCALE, NX_IMAGE_LOAD_RGBA};
        NXImageLoadMode mode = modes[choose(3)];
        int entry = choose(6), prior = choose(3);
        struct NXImage* img = nullptr;
        NXResult res = NX_FAIL;
        run_clean("alloc", [&] { img = prior == 0 ? nx_image_alloc() : prior == 1 ? nx_image_new_gray_uc(7, 5) : nx_image_new_rgba_uc(64, 40); });
        OpResult r = hostile("load image", [&] {
                switch (entry) {
                case 0: case 1: res = nx_image_load(img, "/d/i", mode); break;
                case 2: nx_image_xload(img, "/d/i", mode); res = NX_OK; break;
                case 3: res = f == 1 ? nx_image_load_png(img, "/d/i", mode) : f == 2 ? nx_image_load_jpeg(img, "/d/i", mode) : nx_image_load_pnm(img, "/d/i", mode); break;
                case 4: if (f == 1) nx_image_xload_png(img, "/d/i", mode); else if (f == 2) nx_image_xload_jpeg(img, "/d/i", mode); else nx_image_xload_pnm(img, "/d/i", mode); res = NX_OK; break;
                default: { virg::nexus::VGImage v; v.xload("/d/i", (virg::nexus::VGImage::LoadMode)mode); hash_mix(v.width()); }
                }
        });
        if (!r.ok()) return;
        probe(res == NX_OK ? "image-accepted" : "image-rejected");
        run_clean("use image", [&] {
                if (res == NX_OK) {
                        if (img->width <= 0 || img->height <= 0 || img->row_stride < img->width * img->n_channels || (img->type == NX_IMAGE_GRAYSCALE ? 1 : 4) != img->n_channels) V("accepted-unusable", "a load reported success with a %dx%d image, stride %d, %d channels", img->width, img->height, img->row_stride, img->n_channels);
                        uint64_t h = 0;
                        for (int y = 0; y < img->height; ++y) for (int x = 0; x < img->width * img->n_channels; ++x) h = h * 31 + img->data.uc[(size_t)y * img->row_stride + x];
                        hash_mix(h);
                        if (img->width < 200 && img->height < 200 && nx_image_save(img, "/d/o.png") != NX_OK) V("accepted-unusable", "an accepted image could not be saved");
                }
                // after a failed load the object is reusable
                Ref g; g.w = 3; g.h = 2; g.ch = 1; g.px = {1, 2, 3, 4, 5, 6};
                vfs_put("/d/g", encode_pnm(g, 0));
                std::string why;
                if (nx_image_load(img, "/d/g", NX_IMAGE_LOAD_AS_IS) != NX_OK || !image_equals(img, g, &why)) V("object-unusable-after-failure", "after reading damaged bytes the image object cannot load an intact file: %s", why.c_str());
                nx_image_free(img);
        });
}
// -------------------------------------------------------------------- text
std::string csv_text() {
        Rng r(choose(1u << 24));
        std::string s;
        int nc = 1 + r.below(5), nr = r.below(8);
        for (int i = -1; i < nr; ++i) {
                for (int c = 0; c < nc; ++c) {
                        if (c) s += ",";
                        switch (r.below(i < 0 ? 2 : 6)) { case 0: s += "\"" + rand_text(r, r.below(8), 0) + "\""; break; case 1: s += "c" + std::to_string(c); break; case 2: s += std::to_string((int)r.next()); break; case 3: s += std::to_string(r.unit() * 100); break; case 4: s += r.below(2) ? "true" : "false"; break; default: break; }
                }
                s += "\n";
        }
        return s;
}
std::string json_text(Rng& r, int depth) {
        switch (depth <= 0 ? 2 + r.below(6) : r.below(8)) {
        case 0: { std::string s = "["; int n = r.below(5); for (int i = 0; i < n; ++i) s += (i ? "," : "") + json_text(r, depth - 1); return s + "]"; }
        case 1: { std::string s = "{"; int n = r.below(4); for (int i = 0; i < n; ++i) s += std::string(i ? ", " : "") + "\"k" + std::to_string(i) + "\": " + json_text(r, depth - 1); return s + "}"; }
        case 2: return std::to_string((int)r.next());
        case 3: return std::to_string(r.unit() * 1000);
        case 4: return "\"" + rand_text(r, r.below(12), 0) + "\\n\\u00e9\"";
        case 5: return "true";
        case 6: return "false";
        default: return "null";
        }
}
void walk(struct NXJSONNode* n, int depth) {
        if (depth > 5000) return;
        if (nx_json_node_is(n, NX_JNT_ARRAY)) for (int i = 0; i < nx_json_node_n_children(n); ++i) { struct NXJSONNode* c = nx_json_array_get(n, i, 0xff); if (c) walk(c, depth + 1); }
        else if (nx_json_node_is(n, NX_JNT_OBJECT)) { nx_json_node_n_children(n); struct NXJSONNode* c = nx_json_object_get(n, "k0", 0xff); if (c) walk(c, depth + 1); }
        else { char* t = nx_json_node_text(n); if (t) hash_mix(strlen(t)); }
}
void text_case() {
        std::string s, how;
        bool csv = chance(1, 2);
        if (chance(1, 8)) { s = soup(true); how = "soup"; }
        else if (csv) s = csv_text();
        else { Rng r(choose(1u << 24)); std::string q = json_text(r, 4); s = q[0] == '[' || q[0] == '{' ? q : "[" + q + "]"; }
        if (how.empty() || chance(1, 2)) s = damage(s, true, &how);
        if (!csv && chance(1, 40)) {   // a bomb of opening brackets, as no honest writer emits
                int n = 1 << (4 + choose(17));
                const char* u = chance(1, 2) ? "[" : "{\"k0\":";
                std::string q;
                q.reserve(n * strlen(u));
                for (int i = 0; i < n; ++i) q += u;
                s = q + (chance(1, 2) ? s : std::string(n, *u == '[' ? ']' : '}'));
                how = "nesting bomb";
        }
        int entry = choose(3);
        bool fac = chance(1, 2);
        op("%s text, %zu bytes, damage %s", csv ? "csv" : "json", s.size(), how.c_str());
        vfs_put("/d/t", s);
        if (csv) {
                struct NXDataFrame* df = nullptr;
                OpResult r = hostile("load csv", [&] {
                        if (entry == 0) df = nx_data_frame_load_csv("/d/t", fac);
                        else if (entry == 1) df = nx_data_frame_xload_csv("/d/t", fac);
                        else { FILE* f = nx_xfopen("/d/t", "r"); df = nx_data_frame_load_csv_stream(f, fac); nx_xfclose(f, "t"); }
                });
                if (!r.ok() || !df) return;
                probe("csv-accepted");
                run_clean("use frame", [&] {
                        int nr = nx_data_frame_n_rows(df), nc = nx_data_frame_n_columns(df);
                        for (int c = 0; c < nc; ++c) {
                                const struct NXDataColumn* dc = nx_data_frame_column(df, c);
                                hash_mix(strlen(nx_data_column_label(dc)) * 8 + nx_data_column_type(dc));
                                for (int i = 0; i < nr; ++i) {
                                        if (nx_data_frame_is_na(df, i, c)) continue;
                                        switch (nx_data_column_type(dc)) {
                                        case NX_DCT_STRING: hash_mix(strlen(nx_data_frame_get_string(df, i, c))); break;
                                        case NX_DCT_FACTOR: hash_mix(strlen(nx_data_frame_get_factor(df, i, c))); break;
                                        case NX_DCT_INT: hash_mix(nx_data_frame_get_int(df, i, c)); break;
                                        case NX_DCT_DOUBLE: nx_data_frame_get_double(df, i, c); break;
                                        case NX_DCT_BOOL: nx_data_frame_get_bool(df, i, c); break;
                                        }
                                }
                        }
                        if (!nx_data_frame_save_csv(df, "/d/t2")) V("accepted-unusable", "an accepted data frame could not be saved");
                        nx_data_frame_free(df);
                });
        } else {
                struct NXJSONNode* n = nullptr;
                OpResult r = hostile("load json", [&] {
                        if (entry == 0) n = nx_json_tree_from_file("/d/t");
                        else if (entry == 1) { char* q = NX_NEW_C(s.size() + 1); memcpy(q, s.data(), s.size()); q[s.size()] = 0; n = nx_json_tree_from_string(q); nx_free(q); }
                        else { FILE* f = nx_xfopen("/d/t", "r"); n = nx_json_tree_from_stream(f); nx_xfclose(f, "t"); }
                });
                if (!r.ok() || !n) return;
                probe("json-accepted");
                OpResult u = hostile("unbundle", [&] {
                        int m;
                        switch (choose(5)) {
                        case 0: nx_free(nx_json_unbundle_int_array(n, &m)); break;
                        case 1: nx_free(nx_json_unbundle_double_array(n, &m)); break;
                        case 2: nx_string_array_free(nx_json_unbundle_as_string_array(n)); break;
                        case 3: nx_free(nx_json_unbundle_keypoint_array(n, &m)); break;
                        default: nx_json_unbundle_keypoint(n);
                        }
                });
                run_clean("use tree", [&] {
                        walk(n, 0);
                        FILE* f = nx_xfopen("/d/t2", "w");
                        nx_json_tree_fprint(f, n, 0);
                        nx_xfclose(f, "t2");
                        nx_json_tree_free(n);
                });
        }
}
// ----------------------------------------------------------------- records
void record_case() {
        std::string how;
        int k = choose(6);
        run_clean("make records", [&] {
                FILE* f = nx_xfopen("/d/r", "wb");
                Rng r(choose(1u << 20));
                switch (k) {
                case 0: nx_strwrite(std::string(r.below(60), 'a').c_str(), f); break;
                case 1: { struct NXStringArray* sa = nx_string_array_new(r.below(6)); for (int i = 0; i < nx_string_array_size(sa); ++i) nx_string_array_set(sa, i, std::string(r.below(20), 'b').c_str()); nx_string_array_write(sa, f); nx_string_array_free(sa); break; }
                case 2: { struct NXBriefExtractor* be = nx_brief_extractor_new_with_seed(1 + r.below(8), 4 + r.below(12), 5); nx_brief_extractor_write(be, f); nx_brief_extractor_free(be); break; }
                case 3: break;
                case 4: { int nr = 1 + r.below(4), nc = 1 + r.below(4); std::vector<double> m(nr * nc, 1.5); nx_dmat_xwrite(f, nr, nc, m.data()); break; }
                default: { std::vector<NXKeypoint> ks(3); memset(ks.data(), 0, 3 * sizeof(NXKeypoint)); nx_keypoint_write(ks.data(), 3, f); }
                }
                nx_xfclose(f, "r");
                if (k == 3) { int n = r.below(6); std::vector<NXKeypoint> ks(n + 1); memset(ks.data(), 0, ks.size() * sizeof(NXKeypoint)); std::vector<uchar> d(128 * n + 1, 7); nx_sift_xsave("/d/r", n, ks.data(), d.data()); }
        });
        std::string s = chance(1, 10) ? soup(k == 4) : damage(vfs_get("/d/r"), k == 4, &how);
        vfs_put("/d/r", s);
        static const char* nm[] = {"string", "string array", "brief", "sift file", "matrix", "keypoints"};
        op("%s record, %zu bytes, damage %s", nm[k], s.size(), how.c_str());
        int style = choose(3);
        hostile("read record", [&] {
                if (k == 3) {
                        int cap = style; struct NXKeypoint* ks = cap ? NX_NEW(cap, struct NXKeypoint) : nullptr; uchar* d = cap ? NX_NEW_UC(cap * 128) : nullptr;
                        int n = nx_sift_xload("/d/r", &cap, &ks, &d);
                        if (n < 0 || n > cap) V("accepted-unusable", "%d keypoints with capacity %d", n, cap);
                        uint64_t h = 0;
                        for (int i = 0; i < n * 128; ++i) h = h * 31 + d[i];
                        for (int i = 0; i < n; ++i) h += ks[i].x;
                        hash_mix(h);
                        nx_free(ks); nx_free(d);
                        return;
                }
                FILE* f = nx_xfopen("/d/r", "rb");
                switch (k) {
                case 0:
                        if (style == 0) { char* q = nx_strread0(f); if (q) hash_mix(strlen(q)); nx_free(q); }
                        else { size_t z = style == 1 ? 1 : 30; char* q = NX_NEW_C(z); if (nx_strread(&q, z, f) == 0) hash_mix(strlen(q)); nx_free(q); }
                        break;
                case 1: {
                        struct NXStringArray* sa = style == 0 ? nx_string_array_read0(f) : nx_string_array_alloc();
                        bool ok = sa != nullptr;
                        if (style == 1) { nx_string_array_append(sa, "x"); ok = nx_string_array_read(sa, f) == 0; }
                        if (style == 2) nx_string_array_xread(sa, f);
                        if (ok) for (int i = 0; i < nx_string_array_size(sa); ++i) { const char* q = nx_string_array_get(sa, i); if (q) hash_mix(strlen(q)); }
                        nx_string_array_free(sa);
                        break;
                }
                case 2: {
                        struct NXBriefExtractor* be = nx_brief_extractor_alloc();
                        bool ok = true;
                        if (style == 0) nx_brief_extractor_xread(be, f); else ok = nx_brief_extractor_read(be, f) == NX_OK;
                        if (ok) { uint64_t h = 0; for (int i = 0; i < be->n_octets * 32; ++i) h = h * 31 + be->offsets[i]; hash_mix(h); }
                        nx_brief_extractor_free(be);
                        break;
                }
                case 4: {
                        int nr = 0, nc = 0;
                        double* m = nx_dmat_xread(f, &nr, &nc);
                        double t = 0;
                        if (m) for (int i = 0; i < nr * nc; ++i) t += m[i];
                        nx_free(m);
                        break;
                }
                default: { NXKeypoint* ks = NX_NEW(3, struct NXKeypoint); int n = nx_keypoint_read(ks, 3, f); if (n < 0 || n > 3) V("accepted-unusable", "keypoint read returned %d of 3", n); nx_free(ks); }
                }
                nx_fclose(f, "r");
        });
}
// ------------------------------------------------------------- cache files
void cache_case() {
        Rng r(choose(1u << 24));
        bool match = chance(1, 2);
        std::string how;
        NXSIFTDetectorParams par = nx_sift_default_parameters();
        par.double_image = NX_FALSE; par.border_distance = 2; par.peak_threshold = 1e-3f;
        int n = 1 + r.below(12), np = 1 + r.below(12);
        std::vector<NXKeypoint> ka(n), kb(np);
        memset(ka.data(), 0, n * sizeof(NXKeypoint)); memset(kb.data(), 0, np * sizeof(NXKeypoint));
        std::vector<uchar> da(n * 128), db(np * 128);
        for (auto& b : da) b = r.next();
        for (auto& b : db) b = r.next();
        uint32_t iseed = r.next();
        auto call = [&] {
                if (match) {
                        struct NXPointMatch2D* c = NX_NEW(n, struct NXPointMatch2D);
                        int m = nx_sift_match_brute_force_with_cache(n, ka.data(), da.data(), np, kb.data(), db.data(), c, 0.9f, "/c");
                        if (m < 0 || m > n) V("accepted-unusable", "%d matches for %d keypoints", m, n);
                        nx_free(c);
                        return;
                }
                struct NXImage* img = nx_image_new_gray_uc(20, 20);
                Rng q(iseed);
                for (int y = 0; y < 20; ++y) for (int x = 0; x < 20; ++x) img->data.uc[y * img->row_stride + x] = q.next();
                struct NXSIFTDetector* det = nx_sift_detector_new(par);
                int cap = 1;
                struct NXKeypoint* ks = NX_NEW(1, struct NXKeypoint);
                uchar* d = NX_NEW_UC(128);
                int m = nx_sift_detector_compute_with_cache(det, img, &cap, &ks, &d, "/c");
                if (m < 0 || m > cap) V("accepted-unusable", "%d keypoints with capacity %d", m, cap);
                uint64_t h = 0;
                for (int i = 0; i < m * 128; ++i) h = h * 31 + d[i];
                hash_mix(h);
                nx_free(ks); nx_free(d); nx_image_free(img); nx_sift_detector_free(det);
        };
        vfs_mkdir("/c");
        run_clean("fill cache", call);
        auto l = vfs_list("/c");
        if (l.empty()) return;
        std::string f = "/c/" + l[0];
        vfs_put(f, damage(vfs_get(f), false, &how));
        op("%s cache file, damage %s", match ? "match" : "key", how.c_str());
        hostile("cached call on damaged file", call);
}
// ---------------------------------------------------------------- datasets
void dataset_case() {
        std::string how;
        int k = choose(3);
        Rng r(choose(1u << 24));
        auto nums = [&](int n, const char* sep) { std::string s; char b[32]; for (int i = 0; i < n; ++i) { snprintf(b, sizeof b, "%s%g", i ? sep : "", r.unit() * 10); s += b; } return s + "\n"; };
        std::vector<std::string> fs;
        if (k == 0) {
                vfs_mkdir("/k"); vfs_mkdir("/k/sequences"); vfs_mkdir("/k/sequences/03"); vfs_mkdir("/k/poses");
                int n = r.below(5);
                std::string p, t, c;
                for (int i = 0; i < n; ++i) { p += nums(12, " "); t += nums(1, " "); }
                for (int i = 0; i < 4; ++i) c += "P" + std::to_string(i) + ": " + nums(12, " ");
                vfs_put("/k/poses/03.txt", p); vfs_put("/k/sequences/03/times.txt", t); vfs_put("/k/sequences/03/calib.txt", c);
                fs = {"/k/poses/03.txt", "/k/sequences/03/times.txt", "/k/sequences/03/calib.txt"};
        } else if (k == 1) {
                vfs_mkdir("/v"); vfs_mkdir("/v/graf");
                for (int i = 2; i < 7; ++i) { std::string f = "/v/graf/H1to" + std::to_string(i) + "p"; vfs_put(f, nums(3, " ") + nums(3, " ") + nums(3, " ")); fs.push_back(f); }
        } else {
                vfs_mkdir("/t"); vfs_mkdir("/t/Bolt");
                int n = 1 + r.below(5);
                std::string g;
                for (int i = 0; i < n; ++i) g += nums(4, ",");
                vfs_put("/t/Bolt/Bolt_frames.txt", "1," + std::to_string(n) + "\n"); vfs_put("/t/Bolt/Bolt_att.txt", "VI\nSV\nOCC\n"); vfs_put("/t/Bolt/Bolt_gt.txt", g);
                fs = {"/t/Bolt/Bolt_frames.txt", "/t/Bolt/Bolt_att.txt", "/t/Bolt/Bolt_gt.txt"};
        }
        const std::string& f = fs[choose(fs.size())];
        std::string s = chance(1, 8) ? soup(true) : damage(vfs_get(f), true, &how);
        vfs_put(f, s);
        op("dataset %d, file %s, damage %s", k, f.c_str(), how.c_str());
        hostile("read dataset", [&] {
                double t = 0;
                if (k == 0) {
                        struct NXKittiSLAM* ds = nx_kitti_slam_new("/k");
                        struct NXKittiSLAMSequence* q = nx_kitti_slam_sequence_new(ds, 3);
                        for (int i = 0; i < q->length; ++i) { t += q->times[i]; if (q->is_gt_available) t += q->poses[i][11]; }
                        nx_kitti_slam_sequence_free(q); nx_kitti_slam_free(ds);
                } else if (k == 1) {
                        struct NXVGGAffineSequence* q = nx_vgg_affine_sequence_new("/v", "graf");
                        for (int i = 0; i < q->length; ++i) t += q->h[i][8];
                        nx_vgg_affine_sequence_free(q);
                } else {
                        struct NXTempleColor128Sequence* q = nx_temple_color_128_sequence_new("/t", "Bolt");
                        if (q->length < 0) V("accepted-unusable", "a sequence of length %d was accepted", q->length);
                        for (int i = 0; i < q->length; ++i) t += q->ground_truth[i][3];
                        nx_temple_color_128_sequence_free(q);
                }
        });
}
void run() {
        draw_knobs();
        knobs().alloc_cap = (size_t)24 << 20;
        vfs_mkdir("/d");
        switch (choose(10)) {
        case 0: case 1: case 2: case 3: image_case(); break;
        case 4: case 5: case 6: text_case(); break;
        case 7: record_case(); break;
        case 8: if (chance(1, 2)) cache_case(); else record_case(); break;
        default: dataset_case();
        }
}
Reg reg({"C06", run,
         "one run = one stored object (PNM/PNG/JPEG image, CSV, JSON, binary or text record, SIFT cache file, KITTI/VGG/Temple Color dataset) damaged by 1-7 drawn operations (cuts, bit flips, hostile integers, number "
         "and token substitutions, inserted/erased/copied/zeroed ranges; PNG checksums repaired in most cases) or replaced by random bytes, read through a drawn entry point; non-trivial = always (every run damages its "
         "input); distinct = different seam event/outcome/accepted-content sequence",
         80000, 1500000});
}
