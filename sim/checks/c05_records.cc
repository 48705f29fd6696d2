// C05: records written to streams are read back exactly, torn or failing streams are reported.
#include "util.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/nx_io.h"
#include "virg/nexus/nx_keypoint.h"
#include "virg/nexus/nx_mat.h"
#include "virg/nexus/nx_sift_detector.h"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_string_array.h"

namespace {
enum RK { R_STR, R_SARR, R_KEYS, R_BRIEF, R_RAW, NRK };
const char* rk_name[] = {"string", "string array", "keypoints", "BRIEF extractor", "raw block"};
struct Rec {
        int k = 0;
        bool x = false;                 // checked variant
        std::vector<std::string> s;     // strings
        std::vector<NXKeypoint> keys;
        std::string raw;
        int n_oct = 0, radius = 0, lvl = 0;
        uint32_t seed = 0;
        struct NXBriefExtractor* be = nullptr;
        struct NXStringArray* sa = nullptr;
};
float rf(Rng& r) {
        if (r.below(3) == 0) { uint32_t u = (uint32_t)r.next(); float f; memcpy(&f, &u, 4); return f; }
        return (float)((r.unit() - 0.5) * 1e4);
}
std::string draw_str(Rng& r) {
        size_t n = r.below(6) == 0 ? 0 : r.below(r.below(8) ? 20 : r.below(20) ? 3000 : 140000);
        return rand_text(r, n, r.below(4));
}
std::vector<NXKeypoint> draw_keys(Rng& r, int n) {
        std::vector<NXKeypoint> k(n);
        for (auto& q : k) {
                memset(&q, 0, sizeof q);
                q.x = (int)r.next(); q.y = (int)r.next(); q.xs = rf(r); q.ys = rf(r); q.level = (int)r.next(); q.scale = rf(r); q.sigma = rf(r); q.score = rf(r); q.ori = rf(r); q.id = r.next();
        }
        return k;
}
bool same_f(float a, float b) { return memcmp(&a, &b, 4) == 0; }
bool same_key(const NXKeypoint& a, const NXKeypoint& b) {
        return a.x == b.x && a.y == b.y && same_f(a.xs, b.xs) && same_f(a.ys, b.ys) && a.level == b.level && same_f(a.scale, b.scale) && same_f(a.sigma, b.sigma) && same_f(a.score, b.score) && same_f(a.ori, b.ori) && a.id == b.id;
}
Rec draw_rec() {
        Rec c;
        c.k = choose(NRK);
        c.x = chance(1, 2);
        Rng r(choose(1u << 24));
        switch (c.k) {
        case R_STR: c.s.push_back(draw_str(r)); c.x = false; break;
        case R_SARR: { int n = r.below(r.below(5) ? 6 : r.below(8) ? 60 : 700); for (int i = 0; i < n; ++i) c.s.push_back(draw_str(r)); break; }
        case R_KEYS: c.keys = draw_keys(r, r.below(r.below(5) ? 5 : 200)); break;
        case R_BRIEF: c.n_oct = 1 + r.below(r.below(4) ? 8 : 64); c.radius = 4 + r.below(30); c.lvl = r.below(5); c.seed = (uint32_t)r.next(); break;
        default: c.raw = rand_text(r, r.below(r.below(4) ? 64 : r.below(12) ? 9000 : 300000), 3); c.x = true; break;
        }
        return c;
}
void make(Rec& c) {
        if (c.k == R_BRIEF) { c.be = nx_brief_extractor_new_with_seed(c.n_oct, c.radius, c.seed); c.be->pyr_level_offset = c.lvl; }
        if (c.k == R_SARR) {
                c.sa = nx_string_array_new((int)c.s.size());
                for (size_t i = 0; i < c.s.size(); ++i) nx_string_array_set(c.sa, (int)i, c.s[i].c_str());
        }
}
void unmake(Rec& c) { nx_brief_extractor_free(c.be); nx_string_array_free(c.sa); c.be = nullptr; c.sa = nullptr; }
bool write_rec(const Rec& c, FILE* f) {
        switch (c.k) {
        case R_STR: return nx_strwrite(c.s[0].c_str(), f) == 0;
        case R_SARR: if (c.x) { nx_string_array_xwrite(c.sa, f); return true; } return nx_string_array_write(c.sa, f) == 0;
        case R_KEYS: if (c.x) { nx_keypoint_xwrite(c.keys.data(), (int)c.keys.size(), f); return true; } return nx_keypoint_write(c.keys.data(), (int)c.keys.size(), f) == (int)c.keys.size();
        case R_BRIEF: if (c.x) { nx_brief_extractor_xwrite(c.be, f); return true; } return nx_brief_extractor_write(c.be, f) == NX_OK;
        default: nx_xfwrite(c.raw.data(), 1, c.raw.size(), f); return true;
        }
}
// Reads the next record; false = the library reported failure. A record
// reported as read but not equal to what was written is a violation.
bool read_rec(const Rec& c, FILE* f, int style, const char* why) {
        switch (c.k) {
        case R_STR: {
                if (style == 0) {
                        char* s = nx_strread0(f);
                        if (!s) return false;
                        bool ok = c.s[0] == s;
                        nx_free(s);
                        if (!ok) V("string-differs", "a string record came back different %s", why);
                        return true;
                }
                size_t sz = style == 1 ? 1 : style == 2 ? c.s[0].size() : c.s[0].size() + 1 + style;
                char* s = sz ? NX_NEW_C(sz) : nullptr;
                int rc = nx_strread(&s, sz, f);
                bool ok = rc != 0 || c.s[0] == s;
                nx_free(s);
                if (!ok) V("string-differs", "a string record came back different %s", why);
                return rc == 0;
        }
        case R_SARR: {
                struct NXStringArray* sa = nullptr;
                bool done = true;
                if (style == 0) { sa = c.x ? nx_string_array_xread0(f) : nx_string_array_read0(f); done = sa != nullptr; }
                else {
                        sa = nx_string_array_alloc();
                        for (int i = 1; i < style * 3; ++i) nx_string_array_append(sa, "previous content of the array, longer than most");
                        if (c.x) nx_string_array_xread(sa, f); else done = nx_string_array_read(sa, f) == 0;
                }
                if (done) {
                        if (nx_string_array_size(sa) != (int)c.s.size()) V("string-array-differs", "an array of %zu strings came back with %d %s", c.s.size(), nx_string_array_size(sa), why);
                        for (size_t i = 0; i < c.s.size(); ++i) if (!nx_string_array_get(sa, (int)i) || c.s[i] != nx_string_array_get(sa, (int)i)) V("string-array-differs", "element %zu came back different %s", i, why);
                }
                nx_string_array_free(sa);
                return done;
        }
        case R_KEYS: {
                std::vector<NXKeypoint> k(c.keys.size());
                int n = (int)c.keys.size();
                if (c.x) nx_keypoint_xread(k.data(), n, f); else n = nx_keypoint_read(k.data(), n, f);
                if (n < 0 || n > (int)k.size()) V("keypoint-count", "keypoint read returned %d of %zu %s", n, k.size(), why);
                for (int i = 0; i < n; ++i) if (!same_key(k[i], c.keys[i])) V("keypoints-differ", "keypoint %d of the %d reported as read came back different %s", i, n, why);
                return n == (int)c.keys.size();
        }
        case R_BRIEF: {
                struct NXBriefExtractor* be = style == 0 ? nx_brief_extractor_alloc() : nx_brief_extractor_new_with_seed(1 + style * 5, 6, 77);
                bool done = true;
                if (c.x) nx_brief_extractor_xread(be, f); else done = nx_brief_extractor_read(be, f) == NX_OK;
                if (done) {
                        if (be->n_octets != c.be->n_octets || be->radius != c.be->radius) V("brief-differs", "a %d-octet extractor of radius %d came back as %d octets radius %d %s", c.be->n_octets, c.be->radius, be->n_octets, be->radius, why);
                        if (memcmp(be->offsets, c.be->offsets, sizeof(int) * 32 * be->n_octets)) V("brief-differs", "the tests of an extractor came back different %s", why);
                        if (memcmp(be->offset_limits, c.be->offset_limits, sizeof be->offset_limits)) V("brief-differs", "the limits of an extractor came back different %s", why);
                        if (be->pyr_level_offset != c.be->pyr_level_offset) V("brief-differs", "the level offset of an extractor came back different %s", why);
                }
                nx_brief_extractor_free(be);
                return done;
        }
        default: {
                std::string b(c.raw.size(), 'q');
                nx_xfread(&b[0], 1, b.size(), f);
                if (b != c.raw) V("raw-differs", "a raw block came back different %s", why);
                return true;
        }
        }
}
// Whole write or read of the stream; returns the number of records done, -1
// when closing reported an error.
struct Outcome { int n = 0; bool closed = false, opened = false; };
void write_all(const std::vector<Rec>& rs, const char* path, bool xclose, Outcome* o) {
        FILE* f = nx_fopen(path, "wb");
        if (!f) return;
        o->opened = true;
        for (auto& c : rs) {
                if (!write_rec(c, f)) break;
                if (ferror(f)) V("failed-write-acknowledged", "writing a %s record reported success although the stream reported an error", rk_name[c.k]);
                o->n++;
        }
        if (xclose) { nx_xfclose(f, path); o->closed = true; } else o->closed = nx_fclose(f, path) == NX_OK;
}
void read_all(const std::vector<Rec>& rs, const char* path, const std::vector<int>& style, const char* why, Outcome* o) {
        FILE* f = nx_fopen(path, "rb");
        if (!f) return;
        o->opened = true;
        for (size_t i = 0; i < rs.size(); ++i) { if (!read_rec(rs[i], f, style[i], why)) break; o->n++; }
        o->closed = nx_fclose(f, path) == NX_OK;
}
void stream_scenario() {
        int n = 1 + small(8);
        std::vector<Rec> rs;
        std::vector<int> style;
        for (int i = 0; i < n; ++i) { rs.push_back(draw_rec()); style.push_back(choose(4)); op("record %s, checked=%d, read style %d", rk_name[rs[i].k], rs[i].x, style[i]); }
        const char* path = "/d/s.bin";
        bool xclose = chance(1, 2);
        run_clean("make records", [&] { for (auto& c : rs) make(c); });
        Outcome o;
        OpResult base = run_clean("write stream", [&] { write_all(rs, path, xclose, &o); });
        if (!o.opened || o.n != n || !o.closed) V("healthy-write-fails", "record %d (%s) was not written although nothing went wrong", o.n, rk_name[rs[std::min(o.n, n - 1)].k]);
        std::string good = vfs_get(path);
        o = Outcome();
        OpResult rbase = run_clean("read stream", [&] { read_all(rs, path, style, "on a healthy stream", &o); });
        if (!o.opened || o.n != n || !o.closed) V("healthy-read-fails", "record %d (%s) could not be read back", o.n, rk_name[rs[std::min(o.n, n - 1)].k]);
        int nf = choose(4);
        for (int i = 0; i < nf; ++i) {
                size_t e0 = sim_stderr().size();
                Outcome q;
                int mode = choose(3);
                if (mode == 0) {
                        Plan plan = draw_plan(WRITE_FAULTS, base.ev, 2);
                        if (chance(1, 2)) vfs_put(path, std::string(choose(20000), 'Y'));
                        OpResult r = run_op("write stream under faults", plan, [&] { write_all(rs, path, xclose, &q); });
                        bool acked = r.ok() && q.opened && q.n == n && q.closed;
                        if (acked) { if (vfs_get(path) != good) V("acknowledged-save-lost-data", "the stream was written and closed without error under %s but its file is incomplete", plan.str().c_str()); }
                        else { if (!r.hard) V("spurious-write-failure", "writing the stream failed without a fault"); expect_orderly_fatal(r, "write stream", e0); probe("write-failure-reported"); }
                        hash_mix(r.how * 64 + q.n);
                } else {
                        std::string cut = good;
                        Plan plan;
                        if (mode == 1) { cut.resize(choose(good.size() + 1)); note_kind(K_TRUNC); }
                        else plan = draw_plan({K_OPEN_FAIL, K_READ_EIO, K_READ_EIO, K_READ_EOF, K_ALLOC_FAIL, K_ALLOC_STICKY}, rbase.ev, 2);
                        vfs_put(path, cut);
                        OpResult r = run_op(mode == 1 ? "read torn stream" : "read stream under faults", plan, [&] { read_all(rs, path, style, mode == 1 ? "from a torn stream" : "under read faults", &q); });
                        bool all = r.ok() && q.opened && q.n == n;
                        if (mode == 1 && all && cut.size() < good.size()) V("torn-stream-accepted", "all %d records were reported as read from a stream cut at byte %zu of %zu", n, cut.size(), good.size());
                        if (!all && !r.hard && cut.size() == good.size()) V("spurious-read-failure", "reading the stream failed without a fault");
                        if (!all) probe("read-failure-reported");
                        expect_orderly_fatal(r, "read stream", e0);
                        hash_mix(r.how * 64 + q.n);
                }
        }
        run_clean("free records", [&] { for (auto& c : rs) unmake(c); });
}
void sift_scenario() {
        Rng r(choose(1u << 24));
        int n = choose(4) ? small(12) : range(20, 300);
        std::vector<NXKeypoint> keys = draw_keys(r, n);
        std::vector<uchar> desc(n * NX_SIFT_DESC_DIM + 1);
        for (auto& b : desc) b = (uchar)r.next();
        const char* path = "/d/k.sift";
        op("sift file with %d keys", n);
        auto save = [&] { nx_sift_xsave(path, n, keys.data(), desc.data()); };
        int cap0 = choose(3) == 0 ? 0 : (int)choose(2 * n + 2);
        struct Got { int n = -1, cap = 0; NXKeypoint* k = nullptr; uchar* d = nullptr; };
        auto load = [&](Got* g) {
                g->cap = cap0;
                g->k = cap0 ? NX_NEW(cap0, struct NXKeypoint) : nullptr;
                g->d = cap0 ? NX_NEW_UC(cap0 * NX_SIFT_DESC_DIM) : nullptr;
                g->n = nx_sift_xload(path, &g->cap, &g->k, &g->d);
        };
        auto judge = [&](Got& g, const char* why) {
                run_clean("compare", [&] {
                        if (g.n != n || g.cap < n) V("sift-file-differs", "%d stored keys came back as %d with capacity %d %s", n, g.n, g.cap, why);
                        for (int i = 0; i < n; ++i) if (!same_key(g.k[i], keys[i])) V("sift-file-differs", "key %d came back different %s", i, why);
                        if (n && memcmp(g.d, desc.data(), n * NX_SIFT_DESC_DIM)) V("sift-file-differs", "descriptors came back different %s", why);
                        nx_free(g.k);
                        nx_free(g.d);
                });
        };
        OpResult base = run_clean("sift save", save);
        std::string good = vfs_get(path);
        Got g;
        OpResult lbase = run_clean("sift load", [&] { load(&g); });
        judge(g, "on a healthy file");
        int nf = choose(4);
        for (int i = 0; i < nf; ++i) {
                size_t e0 = sim_stderr().size();
                int mode = choose(3);
                if (mode == 0) {
                        Plan plan = draw_plan(WRITE_FAULTS, base.ev, 2);
                        if (chance(1, 2)) vfs_put(path, std::string(choose(20000), 'Y'));
                        OpResult q = run_op("sift save under faults", plan, save);
                        if (q.ok()) { if (vfs_get(path) != good) V("acknowledged-save-lost-data", "nx_sift_xsave returned under %s but the file is incomplete", plan.str().c_str()); }
                        else { if (!q.hard) V("spurious-write-failure", "nx_sift_xsave failed without a fault"); expect_orderly_fatal(q, "sift save", e0); }
                        hash_mix(q.how);
                } else {
                        std::string cut = good;
                        Plan plan;
                        if (mode == 1) { cut.resize(choose(good.size())); note_kind(K_TRUNC); }
                        else plan = draw_plan({K_OPEN_FAIL, K_READ_EIO, K_READ_EOF, K_ALLOC_FAIL}, lbase.ev, 2);
                        vfs_put(path, cut);
                        Got h;
                        OpResult q = run_op("sift load of a torn or failing file", plan, [&] { load(&h); });
                        if (q.ok()) { if (mode == 1) V("torn-stream-accepted", "nx_sift_xload accepted a file cut at byte %zu of %zu", cut.size(), good.size()); judge(h, "under read faults"); }
                        else { if (!q.hard && mode != 1) V("spurious-read-failure", "nx_sift_xload failed without a fault"); expect_orderly_fatal(q, "sift load", e0); }
                        hash_mix(q.how);
                }
        }
}
double draw_double(Rng& r) {
        switch (r.below(6)) {
        case 0: return 0.0;
        case 1: return -0.0;
        case 2: return (double)(int)r.below(2000) - 1000;
        case 3: { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); return std::isnan(d) ? 2.5 : d; }
        case 4: return r.below(2) ? INFINITY : -INFINITY;
        default: return (r.unit() - 0.5) * 1e6;
        }
}
void matrix_scenario() {
        Rng r(choose(1u << 24));
        int m = 1 + small(12), n = 1 + small(12);
        if (chance(1, 12)) m = 1 + choose(60);
        std::vector<double> A(m * n);
        for (auto& d : A) d = draw_double(r);
        const char* path = "/d/m.txt";
        op("matrix %dx%d", m, n);
        auto save = [&] { FILE* f = nx_xfopen(path, "w"); nx_dmat_xwrite(f, m, n, A.data()); nx_xfclose(f, path); };
        OpResult base = run_clean("matrix write", save);
        std::string good = vfs_get(path);
        // independent reading: m lines of n numbers
        {
                size_t p = 0;
                for (int i = 0; i < m; ++i) {
                        size_t e = good.find('\n', p);
                        if (e == std::string::npos) V("matrix-text", "line %d of %d is missing", i, m);
                        std::string line = good.substr(p, e - p);
                        const char* q = line.c_str();
                        for (int j = 0; j < n; ++j) {
                                char* t;
                                double d = strtod(q, &t);
                                if (t == q || memcmp(&d, &A[j * m + i], 8)) V("matrix-text", "element (%d,%d) is stored as %s", i, j, line.c_str());
                                q = t;
                        }
                        if (*q) V("matrix-text", "line %d has more than %d elements", i, n);
                        p = e + 1;
                }
                if (p != good.size()) V("matrix-text", "text after the last row");
        }
        struct Got { double* A = nullptr; int m = -1, n = -1; bool closed = false; };
        auto load = [&](Got* g) { FILE* f = nx_xfopen(path, "r"); g->A = nx_dmat_xread(f, &g->m, &g->n); g->closed = nx_fclose(f, path) == NX_OK; };
        auto judge = [&](Got& g, const char* why) {
                run_clean("compare", [&] {
                        if (!g.A || g.m != m || g.n != n) V("matrix-differs", "a %dx%d matrix came back as %dx%d %s", m, n, g.m, g.n, why);
                        if (memcmp(g.A, A.data(), sizeof(double) * m * n)) V("matrix-differs", "elements came back different %s", why);
                        nx_free(g.A);
                });
        };
        if (chance(1, 3)) { std::string t; for (char c : good) { if (c == ' ') t += (r.below(2) ? "  " : "\t"); else t += c; } if (r.below(2)) t.pop_back(); good = t; vfs_put(path, good); }
        Got g;
        OpResult lbase = run_clean("matrix read", [&] { load(&g); });
        judge(g, "on a healthy stream");
        int nf = choose(3);
        for (int i = 0; i < nf; ++i) {
                size_t e0 = sim_stderr().size();
                if (chance(1, 2)) {
                        Plan plan = draw_plan(WRITE_FAULTS, base.ev, 2);
                        OpResult q = run_op("matrix write under faults", plan, save);
                        std::string now = vfs_get(path);
                        if (q.ok()) { Got h; run_clean("matrix read", [&] { load(&h); }); judge(h, "after a write that reported no error"); }
                        else { if (!q.hard) V("spurious-write-failure", "matrix write failed without a fault"); expect_orderly_fatal(q, "matrix write", e0); }
                        hash_mix(q.how);
                } else {
                        Plan plan = draw_plan({K_OPEN_FAIL, K_READ_EIO, K_READ_EIO, K_ALLOC_FAIL, K_ALLOC_STICKY}, lbase.ev, 2);
                        vfs_put(path, good);
                        Got h;
                        OpResult q = run_op("matrix read under faults", plan, [&] { load(&h); });
                        if (q.ok()) { judge(h, "under read faults"); }
                        else { if (!q.hard) V("spurious-read-failure", "matrix read failed without a fault"); expect_orderly_fatal(q, "matrix read", e0); }
                        hash_mix(q.how);
                }
        }
}
void line_scenario() {
        Rng r(choose(1u << 24));
        int nl = small(chance(1, 20) ? 300 : 10);
        std::string text;
        std::vector<std::string> want;
        for (int i = 0; i < nl; ++i) {
                std::string l = rand_text(r, r.below(3) ? r.below(12) : r.below(r.below(12) ? 700 : 20000), r.below(2));
                if (r.below(4) == 0) l.clear();
                if (r.below(5) == 0) l += "\xff\x80";
                if (r.below(9) == 0) l += std::string("\0z", 2);
                if (i + 1 < nl || r.below(2)) l += '\n';
                if (l.empty()) break;
                want.push_back(l);
                text += l;
        }
        vfs_put("/d/l.txt", text);
        op("%zu lines, %zu bytes", want.size(), text.size());
        int init = choose(3);
        bool spurious_end = false;
        run_clean("getline", [&] {
                size_t n = init == 0 ? 0 : init == 1 ? 1 : 64;
                char* line = n ? NX_NEW_C(n) : nullptr;
                FILE* f = nx_xfopen("/d/l.txt", "r");
                for (size_t i = 0; i < want.size(); ++i) {
                        ssize_t k = nx_getline(&line, &n, f);
                        if (k != (ssize_t)want[i].size() || memcmp(line, want[i].data(), k) || line[k] != 0 || n < (size_t)k + 1) V("line-differs", "line %zu of %zu bytes came back as %zd bytes (buffer %zu)", i, want[i].size(), k, n);
                }
                for (int i = 0; i < 2; ++i) { ssize_t k = nx_getline(&line, &n, f); if (k > 0) V("line-differs", "%zd bytes after the last line", k); if (k != -1) spurious_end = true; }
                nx_xfclose(f, "l");
                nx_free(line);
        });
        if (spurious_end) V("getline-end", "the end of the stream is not reported with -1");
        // quoting helpers: text written with them reads back
        std::string s = draw_str(r), a, b;
        OpResult qbase = run_clean("quoting", [&] {
                FILE* f = nx_xtmpfile();
                nx_fputs_readable(s.c_str(), f);
                fputc('\n', f);
                long p = ftell(f);
                nx_fputs_double_quoted(s.c_str(), f);
                long e = ftell(f);
                rewind(f);
                a.resize(p - 1); b.resize(e - p);
                nx_xfread(&a[0], 1, a.size(), f);
                fgetc(f);
                nx_xfread(&b[0], 1, b.size(), f);
                nx_xfclose(f, "tmp");
        });
        {
                Plan plan = draw_plan({K_OPEN_FAIL, K_WRITE_EIO, K_ALLOC_FAIL}, qbase.ev, 1);
                size_t e0 = sim_stderr().size();
                bool got = true;
                OpResult q = run_op("temporary stream under faults", plan, [&] {
                        FILE* f = nx_xtmpfile();
                        got = f != nullptr;
                        if (got) { fputs("text", f); fclose(f); }
                });
                if (q.ok() && !got) V("no-stream", "nx_xtmpfile returned without a stream");
                if (!q.ok()) { if (!q.hard) V("spurious-write-failure", "nx_xtmpfile failed without a fault"); expect_orderly_fatal(q, "temporary stream", e0); }
        }
        if (a.size() < 2 || a[0] != '"' || a.back() != '"' || b.size() < 2 || b[0] != '"' || b.back() != '"') V("quoting-differs", "quoted text is not enclosed in quotes");
        for (size_t i = 1; i + 1 < a.size(); ++i) if (a[i] == '\n' || a[i] == '\r' || a[i] == '\t') V("quoting-differs", "readable text contains a raw control character");
        run_clean("unquoting", [&] {
                char* u = nx_xstr_from_readable(a.size() - 2, a.data() + 1);
                char* v = nx_xstr_from_double_quoted(b.size() - 2, b.data() + 1);
                if (s != u) V("quoting-differs", "readable text does not convert back to the string");
                if (s != v) V("quoting-differs", "double quoted text does not convert back to the string");
                nx_free(u);
                nx_free(v);
        });
}
void run() {
        draw_knobs();
        switch (choose(8)) {
        case 0: case 1: case 2: case 3: stream_scenario(); break;
        case 4: case 5: sift_scenario(); break;
        case 6: matrix_scenario(); break;
        default: line_scenario();
        }
}
Reg reg({"C05", run,
         "one run = a stream of 1-9 drawn records (strings, string arrays, keypoints, BRIEF extractors, raw blocks), a SIFT key file, a text matrix, or text lines and quoted strings, written and read back "
         "fault-free through drawn entry points and prior target states, then up to 3 times with write/open/close/read/premature-end/allocation faults or a tear at a drawn byte; "
         "non-trivial = a fault, tear or short transfer was injected; distinct = different seam event/fault/outcome sequence",
         60000, 400000});
}
