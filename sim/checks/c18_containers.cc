// C18: containers, tables, graphs, descriptor maps and option sets refine their
// abstract value over every history of calls, on a hostile heap.
#include "util.h"
#include <map>
#include <set>
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_graph.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_io.h"
#include "virg/nexus/nx_keypoint_vector.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_options.h"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/vg_brief_extractor.hpp"
#include "virg/nexus/vg_descriptor_map.hpp"
#include "virg/nexus/vg_options.hpp"

namespace {
void no_leak(const char* what, const OpResult& r) {
        if (r.leaked_allocs) V((std::string("leak@") + what).c_str(), "%s: %zu blocks (%zu bytes) are left after the objects of a history were freed", what, r.leaked_allocs, r.leaked_bytes);
}
std::string word(Rng& r) {
        switch (r.below(6)) {
        case 0: return "";
        case 1: return rand_text(r, 1 + r.below(3), 0);
        case 2: return rand_text(r, 1 + r.below(12), 3);
        case 3: return rand_text(r, 60 + r.below(10), 0);      // around the formatter's first buffer
        case 4: return rand_text(r, 100 + r.below(300), 1);
        default: return rand_text(r, 1 + r.below(12), 1);
        }
}
// ------------------------------------------------------------------ string arrays
struct OStr { bool set = false; std::string s; };
void check_sa(struct NXStringArray* a, const std::vector<OStr>& m) {
        if (nx_string_array_size(a) != (int)m.size()) V("string-array-size", "%d elements instead of %zu", nx_string_array_size(a), m.size());
        char** p = nx_string_array_ptr(a);
        for (size_t i = 0; i < m.size(); ++i) {
                char* g = nx_string_array_get(a, (int)i);
                if (g != p[i]) V("string-array-ptr", "element %zu differs between get and ptr", i);
                if (!m[i].set ? g != nullptr : (!g || m[i].s != g)) V("string-array-content", "element %zu is %s\"%s\" instead of \"%s\"", i, g ? "" : "unset ", g ? g : "", m[i].s.c_str());
        }
}
void h_string_array(Rng& r) {
        std::vector<OStr> m;
        struct NXStringArray* a;
        switch (choose(3)) {
        case 0: a = nx_string_array_alloc(); break;
        case 1: { int n = small(20); a = nx_string_array_new(n); m.resize(n); break; }
        default: {
                int n = small(12);
                std::vector<std::string> w;
                for (int i = 0; i < n; ++i) w.push_back(word(r));
                std::vector<char*> l;
                for (auto& s : w) { l.push_back((char*)s.c_str()); m.push_back({true, s}); }
                l.push_back(nullptr);
                a = nx_string_array_new_from_null_terminated_list(l.data());
        }
        }
        check_sa(a, m);
        int n = 1 + small(50);
        for (int k = 0; k < n; ++k) {
                std::string w = word(r);
                int o = choose(9), i = m.empty() ? 0 : (int)choose((uint32_t)m.size());
                op("  string array op %d at %d of %zu", o, i, m.size());
                if (o == 0 && chance(1, 40)) {  // many elements at once
                        int c = range(60, 700);
                        for (int q = 0; q < c; ++q) {
                                std::string x = r.below(3) ? std::to_string(q) : word(r);
                                int at = nx_string_array_append(a, x.c_str());
                                if (at != (int)m.size()) V("string-array-append", "append returned %d instead of %zu", at, m.size());
                                m.push_back({true, x});
                        }
                        probe("bulk");
                } else if (o <= 2) {
                        int at = o == 1 ? nx_string_array_appendf(a, "%s|%d", w.c_str(), k) : nx_string_array_append(a, w.c_str());
                        if (at != (int)m.size()) V("string-array-append", "append returned %d instead of %zu", at, m.size());
                        m.push_back({true, o == 1 ? w + "|" + std::to_string(k) : w});
                } else if (o == 3) {
                        int ns = (int)small(chance(1, 30) ? 3000 : 60);
                        nx_string_array_resize(a, ns);
                        m.resize(ns);
                } else if (m.empty()) continue;
                else if (o == 4) { nx_string_array_set(a, i, w.c_str()); m[i] = {true, w}; }
                else if (o == 5) { nx_string_array_setf(a, i, "%d:%s", k, w.c_str()); m[i] = {true, std::to_string(k) + ":" + w}; }
                else if (o == 6) {              // text taken from the array itself
                        int j = chance(1, 2) ? i : (int)choose((uint32_t)m.size());
                        if (!m[j].set) continue;
                        OStr v = m[j];
                        if (choose(2)) nx_string_array_set(a, i, nx_string_array_get(a, j));
                        else { nx_string_array_setf(a, i, "<%s>", nx_string_array_get(a, j)); v.s = "<" + v.s + ">"; }
                        m[i] = v;
                        probe("own text");
                } else if (o == 7) {
                        std::string f = choose(2) && m[i].set ? m[i].s : w;
                        int want = -1;
                        for (size_t q = 0; q < m.size() && want < 0; ++q) if (m[q].set && m[q].s == f) want = (int)q;
                        int got = nx_string_array_find(a, f.c_str());
                        if (got != want) V("string-array-find", "\"%s\" found at %d instead of %d", f.c_str(), got, want);
                } else if (chance(1, 4)) { nx_string_array_set(a, i, nullptr); m[i] = OStr(); }
                check_sa(a, m);
        }
        hash_mix(m.size());
        for (auto& s : m) hash_bytes(s.s.data(), s.s.size());
        nx_string_array_free(a);
}
// ------------------------------------------------------------------ memory blocks
struct Blk { std::vector<uint8_t> v; std::vector<bool> known; size_t cap = 0; bool own = false; int ext = -1; };
struct Ext { uint8_t* p; size_t n; std::vector<uint8_t> mirror; };
void check_mb(const struct NXMemBlock* b, const Blk& m, const char* what) {
        if (b->size != m.v.size()) V("block-size", "%s: %zu bytes instead of %zu", what, b->size, m.v.size());
        if (b->capacity < b->size) V("block-capacity", "%s: capacity %zu below size %zu", what, b->capacity, b->size);
        if (b->size && !b->ptr) V("block-null", "%s: %zu bytes at NULL", what, b->size);
        const uint8_t* p = (const uint8_t*)b->ptr;
        for (size_t i = 0; i < m.v.size(); ++i) if (m.known[i] && p[i] != m.v[i]) V("block-content", "%s: byte %zu of %zu is %02x instead of %02x", what, i, m.v.size(), p[i], m.v[i]);
}
void write_mb(struct NXMemBlock* b, Blk& m, std::vector<Ext>& ext, Rng& r) {
        if (m.v.empty()) return;
        size_t a = r.below((uint32_t)m.v.size()), n = 1 + r.below((uint32_t)(m.v.size() - a));
        for (size_t i = a; i < a + n; ++i) {
                ((uint8_t*)b->ptr)[i] = m.v[i] = (uint8_t)r.next();
                m.known[i] = true;
                if (m.ext >= 0) ext[m.ext].mirror[i] = m.v[i];
        }
}
void fit(Blk& m, size_t n) { m.v.resize(n); m.known.resize(n, false); }
void h_mem_block(Rng& r) {
        struct NXMemBlock* b[3];
        Blk m[3];
        std::vector<Ext> ext;
        for (int i = 0; i < 3; ++i) {
                size_t n = choose(2) ? small(100) : 0;
                b[i] = choose(2) ? nx_mem_block_new(n) : nx_mem_block_alloc();
                fit(m[i], b[i]->size);
                if (b[i]->size && b[i]->size != n) V("block-size", "new block of %zu bytes has %zu", n, b[i]->size);
        }
        int n = 1 + small(40);
        for (int k = 0; k < n; ++k) {
                int i = choose(3), j = choose(3), o = choose(9);
                size_t s = choose(4) == 0 ? 0 : small(choose(3) ? 64 : choose(12) ? 5000 : 200000);
                op("  block %d op %d arg %zu", i, o, s);
                auto grown = [&](size_t before) { if (b[i]->capacity > before) m[i].ext = -1; };
                size_t cap0 = b[i]->capacity;
                switch (o) {
                case 0: nx_mem_block_resize(b[i], s); fit(m[i], s); grown(cap0); break;
                case 1: nx_mem_block_reserve(b[i], s); grown(cap0); if (b[i]->capacity < s) V("block-capacity", "reserve(%zu) left capacity %zu", s, b[i]->capacity); break;
                case 2: nx_mem_block_set_zero(b[i]); for (size_t q = 0; q < m[i].v.size(); ++q) { m[i].v[q] = 0; m[i].known[q] = true; if (m[i].ext >= 0) ext[m[i].ext].mirror[q] = 0; } break;
                case 3: if (i != j) { nx_mem_block_swap(b[i], b[j]); std::swap(m[i], m[j]); } break;
                case 4: if (i != j) { nx_mem_block_copy(b[i], b[j]); bool g = b[i]->capacity > cap0; int e = g ? -1 : m[i].ext; m[i].v = m[j].v; m[i].known = m[j].known; m[i].ext = e; if (e >= 0) for (size_t q = 0; q < m[i].v.size(); ++q) ext[e].mirror[q] = ext[e].p[q]; } break;
                case 5: nx_mem_block_release(b[i]); m[i] = Blk(); if (b[i]->size || b[i]->capacity || b[i]->ptr) V("block-release", "released block keeps %zu bytes", b[i]->size); break;
                case 6: {                       // foreign memory
                        if (!s) break;
                        size_t cap = s + small(50);
                        uint8_t* p = (uint8_t*)nx_xmalloc(cap);
                        for (size_t q = 0; q < cap; ++q) p[q] = (uint8_t)r.next();
                        bool own = choose(2);
                        nx_mem_block_wrap(b[i], p, s, cap, own ? NX_TRUE : NX_FALSE);
                        m[i] = Blk();
                        m[i].v.assign(p, p + s); m[i].known.assign(s, true);
                        if (!own) { ext.push_back({p, cap, std::vector<uint8_t>(p, p + cap)}); m[i].ext = (int)ext.size() - 1; }
                        probe(own ? "owned wrap" : "foreign wrap");
                        break;
                }
                case 7: {
                        struct NXMemBlock* c = nx_mem_block_copy0(b[i]);
                        check_mb(c, m[i], "copy");
                        if (c->ptr && c->ptr == b[i]->ptr) V("block-aliased", "a copy shares its memory");
                        nx_mem_block_free(c);
                        break;
                }
                default: write_mb(b[i], m[i], ext, r);
                }
                for (int q = 0; q < 3; ++q) check_mb(b[q], m[q], "block");
                for (auto& e : ext) if (memcmp(e.p, e.mirror.data(), e.n)) V("foreign-memory", "memory that is not owned by a block was changed or freed");
        }
        for (int i = 0; i < 3; ++i) { hash_mix(m[i].v.size()); nx_mem_block_free(b[i]); }
        for (auto& e : ext) { if (memcmp(e.p, e.mirror.data(), e.n)) V("foreign-memory", "foreign memory was changed by freeing a block"); nx_free(e.p); }
}
// ------------------------------------------------------------------ keypoint vectors
void check_kv(const struct NXKeypointVector* v, const std::vector<struct NXKeypoint>& m) {
        if (v->size != m.size()) V("vector-size", "%zu items instead of %zu", v->size, m.size());
        if (v->capacity < v->size) V("vector-capacity", "capacity %zu below size %zu", v->capacity, v->size);
        for (size_t i = 0; i < m.size(); ++i) {
                const struct NXKeypoint &a = v->data[i], &b = m[i];
                if (a.x != b.x || a.y != b.y || a.xs != b.xs || a.id != b.id || a.ori != b.ori || a.level != b.level || a.score != b.score) V("vector-content", "item %zu of %zu differs", i, m.size());
        }
}
struct NXKeypoint key(Rng& r) {
        struct NXKeypoint k;
        memset(&k, 0, sizeof k);
        k.x = r.below(1000); k.y = r.below(1000); k.xs = (float)r.unit(); k.ys = (float)r.unit(); k.level = r.below(8); k.scale = 1; k.sigma = 2; k.score = (float)r.unit(); k.ori = (float)r.unit(); k.id = r.next();
        return k;
}
void h_keypoint_vector(Rng& r) {
        struct NXKeypointVector* v[2];
        std::vector<struct NXKeypoint> m[2];
        v[0] = choose(2) ? nx_keypoint_vector_new(small(20)) : nx_keypoint_vector_alloc();
        v[1] = nx_keypoint_vector_alloc();
        int n = 1 + small(60);
        struct NXKeypoint* foreign = nullptr;
        size_t nf = 0;
        for (int k = 0; k < n; ++k) {
                int i = choose(2), o = choose(8);
                op("  vector %d op %d", i, o);
                switch (o) {
                case 0: case 1: case 2: { int c = 1 + (int)small(chance(1, 40) ? 2000 : 12); while (c-- > 0) { struct NXKeypoint q = key(r); *nx_keypoint_vector_push_back(v[i]) = q; m[i].push_back(q); } break; }
                case 3: {
                        size_t s = small(chance(1, 40) ? 1500 : 50), old = m[i].size();
                        nx_keypoint_vector_resize(v[i], s);
                        m[i].resize(s);
                        for (size_t q = old; q < s; ++q) v[i]->data[q] = m[i][q] = key(r);
                        break;
                }
                case 4: { size_t s = small(80); nx_keypoint_vector_reserve(v[i], s); if (v[i]->capacity < s) V("vector-capacity", "reserve(%zu) left %zu", s, v[i]->capacity); break; }
                case 5: if (choose(2)) nx_keypoint_vector_clear(v[i]); else nx_keypoint_vector_release(v[i]); m[i].clear(); break;
                case 6: if (choose(2)) { nx_keypoint_vector_copy(v[i], v[1 - i]); m[i] = m[1 - i]; }
                        else { struct NXKeypointVector* c = nx_keypoint_vector_copy0(v[i]); check_kv(c, m[i]); if (c->data && c->data == v[i]->data) V("vector-aliased", "a copy shares its items"); nx_keypoint_vector_free(c); }
                        break;
                default: {
                        if (foreign) break;
                        size_t c = 1 + small(10), s = choose((uint32_t)c + 1);
                        struct NXKeypoint* p = (struct NXKeypoint*)nx_xmalloc(c * sizeof *p);
                        for (size_t q = 0; q < c; ++q) p[q] = key(r);
                        bool own = choose(2);
                        nx_keypoint_vector_wrap(v[i], p, s, c, own ? NX_TRUE : NX_FALSE);
                        m[i].assign(p, p + s);
                        if (!own) { foreign = p; nf = c; }
                }
                }
                check_kv(v[0], m[0]);
                check_kv(v[1], m[1]);
        }
        hash_mix(m[0].size() * 1000 + m[1].size());
        nx_keypoint_vector_free(v[0]);
        nx_keypoint_vector_free(v[1]);
        if (foreign) { uint64_t s = 0; for (size_t i = 0; i < nf; ++i) s += foreign[i].id; hash_mix(s); nx_free(foreign); }
}
// ------------------------------------------------------------------ data frames
struct Cell { bool na = true; std::string s; int i = 0; double d = 0; bool b = false; };
struct Col { int type; std::string label; std::vector<Cell> cells; std::vector<std::string> levels; };
void check_df(struct NXDataFrame* f, const std::vector<Col>& m, int rows) {
        if (nx_data_frame_n_columns(f) != (int)m.size() || nx_data_frame_n_rows(f) != rows) V("frame-shape", "%dx%d instead of %dx%zu", nx_data_frame_n_rows(f), nx_data_frame_n_columns(f), rows, m.size());
        for (int c = 0; c < (int)m.size(); ++c) {
                const struct NXDataColumn* dc = nx_data_frame_column(f, c);
                if (nx_data_column_type(dc) != m[c].type) V("frame-type", "column %d has type %d instead of %d", c, nx_data_column_type(dc), m[c].type);
                if (m[c].label != nx_data_column_label(dc)) V("frame-label", "column %d is labelled \"%s\" instead of \"%s\"", c, nx_data_column_label(dc), m[c].label.c_str());
                if (nx_data_column_n_factor_levels(dc) != (int)m[c].levels.size()) V("frame-levels", "column %d has %d levels instead of %zu", c, nx_data_column_n_factor_levels(dc), m[c].levels.size());
                for (size_t l = 0; l < m[c].levels.size(); ++l) if (m[c].levels[l] != nx_data_column_factor_level(dc, (int)l)) V("frame-levels", "level %zu is \"%s\" instead of \"%s\"", l, nx_data_column_factor_level(dc, (int)l), m[c].levels[l].c_str());
                for (int i = 0; i < rows; ++i) {
                        const Cell& e = m[c].cells[i];
                        if ((bool)nx_data_frame_is_na(f, i, c) != e.na) V("frame-na", "cell %d,%d is %smissing", i, c, e.na ? "not " : "");
                        if (e.na) continue;
                        bool ok = true;
                        switch (m[c].type) {
                        case NX_DCT_STRING: ok = e.s == nx_data_frame_get_string(f, i, c); break;
                        case NX_DCT_FACTOR: ok = e.s == nx_data_frame_get_factor(f, i, c); break;
                        case NX_DCT_INT: ok = e.i == nx_data_frame_get_int(f, i, c); break;
                        case NX_DCT_DOUBLE: { double d = nx_data_frame_get_double(f, i, c); ok = !memcmp(&d, &e.d, 8); break; }
                        default: ok = e.b == (bool)nx_data_frame_get_bool(f, i, c);
                        }
                        if (!ok) V("frame-cell", "cell %d,%d (type %d) differs from what was stored", i, c, m[c].type);
                }
        }
}
void h_data_frame(Rng& r) {
        struct NXDataFrame* f = nx_data_frame_alloc();
        std::vector<Col> m;
        int rows = 0;
        auto add = [&](int t, const std::string& l) { Col c; c.type = t; c.label = l; c.cells.resize(rows); m.push_back(c); };
        auto level = [&](Col& c, const std::string& s) { for (auto& l : c.levels) if (l == s) return; c.levels.push_back(s); };
        auto pick = [&](Col& c, Cell& e) {
                e.na = false;
                switch (c.type) {
                case NX_DCT_STRING: e.s = word(r); break;
                case NX_DCT_FACTOR: e.s = r.below(3) ? std::string(1, (char)('a' + r.below(5))) : word(r); level(c, e.s); break;
                case NX_DCT_INT: e.i = r.below(3) ? (int)r.below(100) : (int)r.next(); break;
                case NX_DCT_DOUBLE: e.d = r.below(3) ? r.unit() : (double)(int64_t)r.next(); break;
                default: e.b = r.below(2);
                }
        };
        int n = 1 + small(60);
        bool wide = chance(1, 6);
        for (int k = 0; k < n; ++k) {
                int o = choose(10);
                op("  frame op %d (%d rows, %zu columns)", o, rows, m.size());
                if (o == 0 && (m.size() < 8 || wide)) {
                        if (choose(2)) { int t = choose(5); std::string l = word(r); nx_data_frame_add_column(f, (NXDataColumnType)t, l.c_str()); add(t, l); }
                        else {
                                int c = 1 + small(wide ? 20 : 3);
                                std::vector<NXDataColumnType> t;
                                std::vector<std::string> l;
                                std::vector<const char*> p;
                                for (int i = 0; i < c; ++i) { t.push_back((NXDataColumnType)choose(5)); l.push_back(word(r)); }
                                for (auto& s : l) p.push_back(s.c_str());
                                nx_data_frame_add_columns(f, c, t.data(), p.data());
                                for (int i = 0; i < c; ++i) add(t[i], l[i]);
                        }
                } else if (o <= 2) {
                        bool bulk = chance(1, 40);
                        int c = bulk ? range(60, 600) : 1 + (chance(1, 5) ? (int)small(60) : 0);
                        while (c-- > 0) {
                                int id = nx_data_frame_add_row(f);
                                if (id != rows) V("frame-row-id", "new row has id %d instead of %d", id, rows);
                                ++rows;
                                for (auto& q : m) q.cells.resize(rows);
                        }
                        if (bulk && !m.empty()) {       // fill a column; factors and strings of many different texts
                                int cc = choose((uint32_t)m.size());
                                for (int i = 0; i < rows; ++i) {
                                        Cell& e = m[cc].cells[i];
                                        if (m[cc].type != NX_DCT_FACTOR) pick(m[cc], e);
                                        switch (m[cc].type) {
                                        case NX_DCT_STRING: nx_data_frame_set_string(f, i, cc, e.s.c_str()); break;
                                        case NX_DCT_FACTOR: e.s = "L" + std::to_string(i * 7919 % 1009); e.na = false; level(m[cc], e.s); nx_data_frame_set_factor(f, i, cc, e.s.c_str()); break;
                                        case NX_DCT_INT: nx_data_frame_set_int(f, i, cc, e.i); break;
                                        case NX_DCT_DOUBLE: nx_data_frame_set_double(f, i, cc, e.d); break;
                                        default: nx_data_frame_set_bool(f, i, cc, e.b ? NX_TRUE : NX_FALSE);
                                        }
                                }
                                probe("bulk");
                        }
                } else if (o == 3 && m.size() == 3) {
                        // whole row at once; arguments of up to three columns
                        Cell e[3];
                        ++rows;
                        for (int c = 0; c < 3; ++c) { m[c].cells.resize(rows); pick(m[c], e[c]); m[c].cells[rows - 1] = e[c]; }
                        bool dbl[3];
                        int code = 0;
                        for (int c = 0; c < 3; ++c) { dbl[c] = m[c].type == NX_DCT_DOUBLE; code = code * 3 + (dbl[c] ? 2 : m[c].type == NX_DCT_INT || m[c].type == NX_DCT_BOOL ? 1 : 0); }
                        auto I = [&](int c) { return m[c].type == NX_DCT_INT ? e[c].i : (int)e[c].b; };
                        int id;
                        bool set = choose(2);
                        if (set) id = nx_data_frame_add_row(f); else id = rows - 1;
#define ROW(A, B, C) do { if (set) nx_data_frame_set(f, id, A, B, C); else id = nx_data_frame_append_row(f, A, B, C); } while (0)
#define S(c) e[c].s.c_str()
#define D(c) e[c].d
                        switch (code) {
                        case 0: ROW(S(0), S(1), S(2)); break;   case 1: ROW(S(0), S(1), I(2)); break;   case 2: ROW(S(0), S(1), D(2)); break;
                        case 3: ROW(S(0), I(1), S(2)); break;   case 4: ROW(S(0), I(1), I(2)); break;   case 5: ROW(S(0), I(1), D(2)); break;
                        case 6: ROW(S(0), D(1), S(2)); break;   case 7: ROW(S(0), D(1), I(2)); break;   case 8: ROW(S(0), D(1), D(2)); break;
                        case 9: ROW(I(0), S(1), S(2)); break;   case 10: ROW(I(0), S(1), I(2)); break;  case 11: ROW(I(0), S(1), D(2)); break;
                        case 12: ROW(I(0), I(1), S(2)); break;  case 13: ROW(I(0), I(1), I(2)); break;  case 14: ROW(I(0), I(1), D(2)); break;
                        case 15: ROW(I(0), D(1), S(2)); break;  case 16: ROW(I(0), D(1), I(2)); break;  case 17: ROW(I(0), D(1), D(2)); break;
                        case 18: ROW(D(0), S(1), S(2)); break;  case 19: ROW(D(0), S(1), I(2)); break;  case 20: ROW(D(0), S(1), D(2)); break;
                        case 21: ROW(D(0), I(1), S(2)); break;  case 22: ROW(D(0), I(1), I(2)); break;  case 23: ROW(D(0), I(1), D(2)); break;
                        case 24: ROW(D(0), D(1), S(2)); break;  case 25: ROW(D(0), D(1), I(2)); break;  default: ROW(D(0), D(1), D(2)); break;
                        }
#undef ROW
#undef S
#undef D
                        if (id != rows - 1) V("frame-row-id", "appended row has id %d instead of %d", id, rows - 1);
                        probe("row at once");
                } else if (rows && !m.empty()) {
                        int i = choose(rows), c = choose((uint32_t)m.size());
                        Cell& e = m[c].cells[i];
                        if (o == 4) { nx_data_frame_set_na(f, i, c); e = Cell(); }
                        else if (o == 5 && chance(1, 3)) {
                                Col old = m[c];
                                if (old.type != NX_DCT_FACTOR) {
                                        m[c].type = NX_DCT_FACTOR;
                                        m[c].levels.clear();
                                        for (auto& q : m[c].cells) {
                                                if (q.na) continue;
                                                char b[64];
                                                if (old.type == NX_DCT_INT) { snprintf(b, sizeof b, "%d", q.i); q.s = b; }
                                                else if (old.type == NX_DCT_DOUBLE) { snprintf(b, sizeof b, "%.17g", q.d); q.s = b; }
                                                else if (old.type == NX_DCT_BOOL) q.s = q.b ? "true" : "false";
                                                level(m[c], q.s);
                                        }
                                }
                                nx_data_frame_make_factor(f, c);
                                probe("make factor");
                        } else if (o == 6 && !e.na && m[c].type == NX_DCT_STRING) {
                                nx_data_frame_set_string(f, i, c, nx_data_frame_get_string(f, i, c));
                                probe("own text");
                        } else {
                                pick(m[c], e);
                                switch (m[c].type) {
                                case NX_DCT_STRING: nx_data_frame_set_string(f, i, c, e.s.c_str()); break;
                                case NX_DCT_FACTOR: nx_data_frame_set_factor(f, i, c, e.s.c_str()); break;
                                case NX_DCT_INT: nx_data_frame_set_int(f, i, c, e.i); break;
                                case NX_DCT_DOUBLE: nx_data_frame_set_double(f, i, c, e.d); break;
                                default: nx_data_frame_set_bool(f, i, c, e.b ? NX_TRUE : NX_FALSE);
                                }
                        }
                }
                if (chance(1, 3)) check_df(f, m, rows);
        }
        check_df(f, m, rows);
        hash_mix(rows * 100 + m.size());
        nx_data_frame_free(f);
}
// a cell read as something it is not stops the process
void misuse_data_frame(Rng& r) {
        int t = choose(5), how = choose(2);
        size_t e0 = sim_stderr().size();
        OpResult q = run_op("frame misuse", Plan::none(), [&] {
                struct NXDataFrame* f = nx_data_frame_alloc();
                nx_data_frame_add_column(f, (NXDataColumnType)t, "c");
                nx_data_frame_add_row(f);
                int g = how ? (t + 1 + (int)r.below(4)) % 5 : t;        // wrong type, or the right type but missing
                switch (g) {
                case NX_DCT_STRING: nx_data_frame_get_string(f, 0, 0); break;
                case NX_DCT_FACTOR: nx_data_frame_get_factor(f, 0, 0); break;
                case NX_DCT_INT: nx_data_frame_get_int(f, 0, 0); break;
                case NX_DCT_DOUBLE: nx_data_frame_get_double(f, 0, 0); break;
                default: nx_data_frame_get_bool(f, 0, 0);
                }
                nx_data_frame_free(f);
        });
        if (!q.fatal()) V("frame-misuse-accepted", "a %s cell of a column of type %d was returned as a value", how ? "differently typed" : "missing", t);
        expect_orderly_fatal(q, "frame misuse", e0);
}
// ------------------------------------------------------------------ graphs
void h_graph(Rng& r) {
        bool bulk = chance(1, 30);
        int n = bulk ? range(13, 300) : small(12);
        std::string name = word(r);
        bool named = choose(3);
        struct NXGraphAdjMat* a = nx_graph_new_adj_mat(named ? name.c_str() : nullptr, n);
        struct NXGraphAdjLst* l = nx_graph_new_adj_lst(named ? name.c_str() : nullptr, n);
        std::map<std::pair<int, int>, double> m;
        int k = bulk ? range(200, 600) : n ? (int)small(60) : 0;
        for (int q = 0; q <= k; ++q) {
                if (bulk) probe("bulk");
                if (!bulk || q == k || chance(1, 200)) {
                if (a->n_v != n || l->n_v != n || (named ? name : "G") != a->name || (named ? name : "G") != l->name) V("graph-header", "vertex count or name changed");
                if (a->n_e != (int)m.size()) V("graph-edges", "matrix form reports %d edges instead of %zu", a->n_e, m.size());
                if (l->n_e != (int)m.size()) V("graph-edges", "list form reports %d edges instead of %zu", l->n_e, m.size());
                for (int v = 0; v < n; ++v) {
                        std::set<int> seen;
                        for (struct NXGraphEdge* e = l->edges[v]; e; e = e->next) {
                                auto it = m.find({std::min(v, e->v), std::max(v, e->v)});
                                if (it == m.end() || !seen.insert(e->v).second) V("graph-list", "edge %d-%d is listed although absent or twice", v, e->v);
                                if (it->second != e->weight) V("graph-list", "edge %d-%d weighs %g instead of %g", v, e->v, e->weight, it->second);
                                if (nx_graph_edge_list_seach(l->edges[v], e->v) != e) V("graph-search", "edge %d-%d is not found", v, e->v);
                        }
                        for (int w = 0; w < n; ++w) {
                                auto it = m.find({std::min(v, w), std::max(v, w)});
                                double want = it == m.end() ? NX_ABSENT_EDGE_WEIGHT : it->second;
                                if (a->weights[v * n + w] != want) V("graph-matrix", "weight %d-%d is %g instead of %g", v, w, a->weights[v * n + w], want);
                                if (it != m.end() && !seen.count(w)) V("graph-list", "edge %d-%d is missing", v, w);
                                if (it == m.end() && nx_graph_edge_list_seach(l->edges[v], w)) V("graph-search", "absent edge %d-%d is found", v, w);
                        }
                }
                }
                if (q == k) break;
                int v = choose(n), w = bulk && r.below(2) ? (int)r.below(3) : choose(n);
                double x = r.below(4) ? r.unit() : r.below(2) ? 0.0 : -5.0;
                op("  edge %d-%d", v, w);
                nx_graph_insert_adj_mat(a, v, w, x);
                nx_graph_insert_adj_lst(l, v, w, x);
                if (v != w) m[{std::min(v, w), std::max(v, w)}] = x;
        }
        hash_mix(m.size());
        nx_graph_free_adj_mat(a);
        nx_graph_free_adj_lst(l);
}
// ------------------------------------------------------------------ descriptor maps
int ham(const std::vector<uchar>& a, const std::vector<uchar>& b) { int d = 0; for (size_t i = 0; i < a.size(); ++i) d += __builtin_popcount(a[i] ^ b[i]); return d; }
void h_descriptor_map(Rng& r) {
        using namespace virg::nexus;
        int no = 1 + (int)small(chance(1, 10) ? 300 : 40);
        VGDescriptorMap map(no);
        std::vector<std::pair<uint64_t, std::vector<uchar>>> m;
        auto desc = [&] { std::vector<uchar> d(no); int s = r.below(3); for (auto& c : d) c = s == 0 ? (uchar)r.next() : s == 1 ? (uchar)(r.below(6) ? 0 : 1 << r.below(8)) : 255; return d; };
        int n = 1 + small(60);
        for (int k = 0; k < n; ++k) {
                int o = choose(8);
                op("  descriptor map op %d", o);
                if (o == 0 && chance(1, 3)) { map.clear(); m.clear(); }
                else if (o == 1 && chance(1, 3)) { no = 1 + (int)small(40); map.set_n_octets(no); m.clear(); }
                else if (o == 2) map.reserve((int)small(100));
                else if (o == 3 && chance(1, 40)) {
                        int c = range(60, 500);
                        while (c-- > 0) { auto d = desc(); uint64_t id = r.next(); map.add(id, d.data()); m.push_back({id, d}); }
                        probe("bulk");
                } else if (o <= 5) {
                        auto d = desc();
                        uint64_t id = r.below(4) ? r.next() : r.below(6);
                        const uchar* from = d.data();
                        if (!m.empty() && r.below(5) == 0) {  // a descriptor of the map itself
                                size_t own = r.below((uint32_t)m.size());
                                d = m[own].second;
                                from = map.get_descriptor((int)own);
                                probe("own descriptor added");
                        }
                        int q = map.add(id, from);
                        m.push_back({id, d});
                        if (q != (int)m.size()) V("map-add", "add returned %d instead of %zu", q, m.size());
                } else if (!m.empty()) {
                        auto d = r.below(2) ? m[r.below((uint32_t)m.size())].second : desc();
                        if (r.below(2)) d[r.below(no)] ^= 1;
                        size_t best = 0;
                        for (size_t i = 1; i < m.size(); ++i) if (ham(m[i].second, d) < ham(m[best].second, d)) best = i;
                        auto s = map.search_nn(d.data());
                        int bd = ham(m[best].second, d);
                        if (s.match_cost != (float)bd) V("map-nn", "nearest neighbour at distance %g instead of %d (%d octets)", s.match_cost, bd, no);
                        bool ok = false;
                        for (auto& e : m) if (e.first == s.id && ham(e.second, d) == bd) ok = true;
                        if (!ok) V("map-nn", "no descriptor with the returned id is at the returned distance");
                        uint64_t id = r.below(3) ? m[r.below((uint32_t)m.size())].first : r.below(10);
                        const uchar* p = map.search_by_id(id);
                        size_t f = 0;
                        while (f < m.size() && m[f].first != id) ++f;
                        if (f == m.size() ? p != nullptr : (!p || memcmp(p, m[f].second.data(), no))) V("map-by-id", "search by id %llu %s", (unsigned long long)id, f == m.size() ? "finds an absent descriptor" : "does not find the descriptor");
                }
                if (map.size() != (int)m.size() || map.n_octets() != no) V("map-size", "%d descriptors instead of %zu", map.size(), m.size());
                for (size_t i = 0; i < m.size(); ++i) if (map.get_id((int)i) != m[i].first || memcmp(map.get_descriptor((int)i), m[i].second.data(), no)) V("map-content", "descriptor %zu differs", i);
        }
        hash_mix(m.size());
}
// ------------------------------------------------------------------ option sets
struct Opt { char type; std::string sn, ln, help; bool req; int b, i; double d; std::string s; };
struct OptVal { bool set = false; int b = 0, i = 0; double d = 0; std::string s; };
void h_options() {
        using namespace virg::nexus;
        Rng r(choose(1 << 24));
        std::vector<Opt> os;
        std::set<std::string> used = {"-h", "--help", "--"};
        int no = (int)small(choose(4) ? 8 : choose(8) ? 40 : 200);
        for (int k = 0; k < no; ++k) {
                Opt o;
                o.type = "bids"[choose(4)];
                int form = choose(3);
                if (form != 1) o.sn = std::string("-") + "abcdefgijklmnopqrstuvwxyzABCDEFG0123456789"[r.below(42)];
                if (form != 0) { o.ln = "--" + rand_text(r, 1 + r.below(6), 0); if (r.below(4) == 0) o.ln += "-" + rand_text(r, 5 + r.below(40), 0); }
                if ((!o.sn.empty() && used.count(o.sn)) || (!o.ln.empty() && used.count(o.ln))) continue;
                used.insert(o.sn); used.insert(o.ln);
                o.help = rand_text(r, r.below(20), 0);
                o.req = chance(1, 8);
                o.b = r.below(2); o.i = (int)r.next(); o.d = r.unit() * 100; o.s = rand_text(r, r.below(r.below(5) ? 12 : 80), 1);
                os.push_back(o);
        }
        bool rest = choose(2), rest_req = chance(1, 6), help = choose(2), cpp = choose(2);
        static struct NXOptions* co;
        static VGOptions* vo;
        co = nullptr; vo = nullptr;
        auto names = [](const Opt& o) { return o.sn.empty() ? o.ln : o.ln.empty() ? o.sn : o.sn + "|" + o.ln; };
        auto names2 = [&](const Opt& o) { return o.sn.empty() || o.ln.empty() || !(o.i & 1) ? names(o) : o.ln + "|" + o.sn; };
        std::vector<std::string> nm;
        for (auto& o : os) nm.push_back(names2(o));
        std::string hdr, ftr;
        if (choose(3) == 0) { hdr = rand_text(r, 1 + r.below(80), 0) + "\n"; ftr = rand_text(r, 1 + r.below(80), 0) + "\n"; }
        run_clean("options setup", [&] {
                if (cpp) vo = new VGOptions; else co = nx_options_alloc();
                for (size_t k = 0; k < os.size(); ++k) {
                        const Opt& o = os[k];
                        char f[2] = {o.req ? (char)toupper(o.type) : o.type, 0};
                        VGOptions::RequirementState q = o.req ? VGOptions::REQUIRED : VGOptions::NOT_REQUIRED;
                        switch (o.type) {
                        case 'b': if (cpp) vo->add_bool(nm[k], o.help, q, o.b); else nx_options_add(co, f, nm[k].c_str(), o.help.c_str(), (NXBool)o.b); break;
                        case 'i': if (cpp) vo->add_int(nm[k], o.help, q, o.i); else nx_options_add(co, f, nm[k].c_str(), o.help.c_str(), o.i); break;
                        case 'd': if (cpp) vo->add_double(nm[k], o.help, q, o.d); else nx_options_add(co, f, nm[k].c_str(), o.help.c_str(), o.d); break;
                        default: if (cpp) vo->add_string(nm[k], o.help, q, o.s); else nx_options_add(co, f, nm[k].c_str(), o.help.c_str(), o.s.c_str());
                        }
                }
                if (rest) { if (cpp) vo->add_rest("files", rest_req ? VGOptions::REQUIRED : VGOptions::NOT_REQUIRED); else nx_options_add(co, rest_req ? "R" : "r", "files"); }
                if (help) { if (cpp) vo->add_help(); else nx_options_add_help(co); }
                if (hdr.size()) for (int k = 0; k < 2; ++k) {
                        std::string h = k ? hdr : "old header", f = k ? ftr : "old footer";
                        if (cpp) { vo->set_usage_header(h); vo->set_usage_footer(f); } else { nx_options_set_usage_header(co, h.c_str()); nx_options_set_usage_footer(co, f.c_str()); }
                }
        });
        if (!os.empty() && chance(1, 10)) {      // misuse: names that exist, are malformed or unknown, and values of another type
                const Opt& o = os[choose((uint32_t)os.size())];
                const std::string n = o.sn.empty() ? o.ln : o.sn;
                int how = choose(4);
                size_t e0 = sim_stderr().size();
                OpResult q = run_op("misuse options", Plan::none(), [&] {
                        if (how == 0) { if (cpp) vo->add_int("--q-fresh|" + (o.sn.empty() ? std::string("-h") : o.sn), "x", VGOptions::NOT_REQUIRED, 1); else nx_options_add(co, "i", n.c_str(), "x", 1); }
                        else if (how == 1) { static const char* bad[] = {"x", "-", "", "-long", "long", "-a|b", "-a|-long"}; const char* b = bad[r.below(7)]; if (cpp) vo->add_bool(b, "x", VGOptions::NOT_REQUIRED, false); else nx_options_add(co, "b", b, "x", NX_FALSE); }
                        else if (how == 2) { if (cpp) vo->get_int("--q-unknown"); else nx_options_is_set(co, "--q-unknown"); }
                        else if (o.type == 'i') { if (cpp) vo->get_double(n); else nx_options_get_string(co, n.c_str()); }
                        else if (o.type == 'd') { if (cpp) vo->get_string(n); else nx_options_get_bool(co, n.c_str()); }
                        else if (o.type == 's') { if (cpp) vo->get_bool(n); else nx_options_get_int(co, n.c_str()); }
                        else { if (cpp) vo->get_int(n); else nx_options_get_double(co, n.c_str()); }
                });
                bool dup = how != 0 || !cpp || !o.sn.empty() || help;
                if (dup && !q.fatal()) V("options-misuse-accepted", "%s was accepted", how == 0 ? "a second option of the same name" : how == 1 ? "a malformed option name" : how == 2 ? "an unknown option name" : "a value of another type");
                if (dup) { expect_orderly_fatal(q, "misuse options", e0); probe("misuse"); return; }
                return;
        }
        int parses = 1 + choose(4);
        bool died = false;
        for (int t = 0; t < parses && !died; ++t) {
                // command line
                std::vector<std::string> args = {"prog" + std::to_string(t)};
                int na = (int)small(chance(1, 30) ? 400 : 14);
                for (int k = 0; k < na; ++k) {
                        int kind = choose(8);
                        if (kind < 6 && !os.empty()) {
                                const Opt& o = os[choose((uint32_t)os.size())];
                                args.push_back(o.sn.empty() || (!o.ln.empty() && choose(2)) ? o.ln : o.sn);
                                if (o.type != 'b') {
                                        char b[64];
                                        if (o.type == 'i') { static const char* fm[] = {"%d", "%d", "%d", "%03d", "%+d", " %d"}; snprintf(b, sizeof b, fm[r.below(6)], r.below(2) ? (int)r.next() : (int)r.below(100)); args.push_back(b); }
                                        else if (o.type == 'd') { static const char* fm[] = {"%.17g", "%.17g", "%.3e", "%.0f", "%+.4f"}; snprintf(b, sizeof b, fm[r.below(5)], (r.unit() - 0.5) * 1e6); args.push_back(b); }
                                        else args.push_back(r.below(4) == 0 && os.size() > 1 ? (os[0].sn.empty() ? os[0].ln : os[0].sn) : rand_text(r, r.below(30), 1));     // a value may look like a switch
                                        if (chance(1, 25)) args.pop_back();
                                }
                        } else if (kind == 6 && chance(1, 6) && help) args.push_back(choose(2) ? "-h" : "--help");
                        else args.push_back(r.below(4) ? rand_text(r, 1 + r.below(10), 0) : "-" + rand_text(r, 3, 0));
                }
                if (chance(1, 2)) for (auto& o : os) if (o.req) { args.push_back(o.sn.empty() ? o.ln : o.sn); if (o.type != 'b') args.push_back("7"); }
                // model
                std::vector<OptVal> v(os.size());
                std::vector<std::string> rs;
                bool want_fatal = false, want_help = false;
                for (size_t i = 1; i < args.size() && !want_fatal && !want_help; ++i) {
                        size_t k = 0;
                        while (k < os.size() && args[i] != os[k].sn && args[i] != os[k].ln) ++k;
                        if (help && (args[i] == "-h" || args[i] == "--help")) { want_help = true; break; }
                        if (k == os.size() || args[i].empty()) { rs.push_back(args[i]); continue; }
                        if (os[k].type == 'b') { v[k].b = 1; v[k].set = true; continue; }
                        if (i + 1 == args.size()) { want_fatal = true; break; }
                        const std::string& a = args[++i];
                        v[k].set = true;
                        if (os[k].type == 'i') v[k].i = (int)atol(a.c_str()); else if (os[k].type == 'd') v[k].d = atof(a.c_str()); else v[k].s = a;
                }
                if (!want_fatal && !want_help) {
                        for (size_t k = 0; k < os.size(); ++k) if (!v[k].set) { if (os[k].req) want_fatal = true; v[k].b = os[k].b; v[k].i = os[k].i; v[k].d = os[k].d; v[k].s = os[k].s; }
                        if (rest && rest_req && rs.empty()) want_fatal = true;
                }
                std::string line;
                for (auto& a : args) line += " '" + a + "'";
                op("parse%s", line.c_str());
                std::vector<std::vector<char>> hold;
                for (auto& a : args) hold.emplace_back(a.c_str(), a.c_str() + a.size() + 1);
                std::vector<char*> av;
                for (auto& h : hold) av.push_back(h.data());
                size_t e0 = sim_stderr().size();
                OpResult q = run_op("parse options", Plan::none(), [&] { if (cpp) vo->set_from_args((int)av.size(), av.data()); else nx_options_set_from_args(co, (int)av.size(), av.data()); });
                if (want_help) {
                        if (q.how != OpResult::EXITED || q.code != EXIT_FAILURE) V("options-help", "the help switch did not end the process with status %d", EXIT_FAILURE);
                        if (sim_stderr().find("USAGE", e0) == std::string::npos) V("options-help", "no usage text");
                        probe("help"); died = true; break;
                }
                if (want_fatal) {
                        if (!q.fatal()) V("options-accepted", "a command line without a required option or value was accepted");
                        expect_orderly_fatal(q, "parse options", e0);
                        probe("refused"); died = true; break;
                }
                if (!q.ok()) V("options-refused", "a valid command line stopped the process:%s", line.c_str());
                for (size_t i = 0; i < args.size(); ++i) if (args[i] != hold[i].data()) V("options-argv", "argument %zu was modified", i);
                vfs_mkdir("/d");
                bool printed = false;
                run_clean("read options", [&] {
                        for (size_t k = 0; k < os.size(); ++k) {
                                const std::string& n = os[k].sn.empty() || (!os[k].ln.empty() && (k & 1)) ? os[k].ln : os[k].sn;
                                bool set = cpp ? vo->is_set(n) : nx_options_is_set(co, n.c_str());
                                if (set != v[k].set) V("options-is-set", "option %s is reported as %sset after parse %d", n.c_str(), set ? "" : "not ", t);
                                bool ok;
                                switch (os[k].type) {
                                case 'b': ok = (cpp ? (int)vo->get_bool(n) : (int)nx_options_get_bool(co, n.c_str())) == v[k].b; break;
                                case 'i': ok = (cpp ? vo->get_int(n) : nx_options_get_int(co, n.c_str())) == v[k].i; break;
                                case 'd': ok = (cpp ? vo->get_double(n) : nx_options_get_double(co, n.c_str())) == v[k].d; break;
                                default: ok = (cpp ? vo->get_string(n) : std::string(nx_options_get_string(co, n.c_str()))) == v[k].s;
                                }
                                if (!ok) V("options-value", "option %s (%c) has a wrong value after parse %d", n.c_str(), os[k].type, t);
                        }
                        std::vector<std::string> g;
                        if (cpp) g = vo->get_rest(); else if (char** p = nx_options_get_rest(co)) for (; *p; ++p) g.push_back(*p);
                        if (rest ? g != rs : !g.empty()) V("options-rest", "%zu further arguments instead of %zu", g.size(), rest ? rs.size() : 0);
                        if (t == 0 || choose(3) == 0) {
                                FILE* f = nx_xfopen("/d/o.txt", "w");
                                if (cpp) vo->print_values(f); else nx_options_print_values(co, f);
                                nx_xfclose(f, "o.txt");
                                f = nx_xfopen("/d/u.txt", "w");
                                if (cpp) vo->print_usage(f); else nx_options_print_usage(co, f);
                                nx_xfclose(f, "u.txt");
                                printed = true;
                        }
                });
                if (printed) {
                        std::string vals = vfs_get("/d/o.txt"), use = vfs_get("/d/u.txt");
                        for (size_t k = 0; k < os.size(); ++k) {
                                const Opt& o = os[k];
                                std::string j = o.ln.empty() ? o.sn : o.sn.empty() ? o.ln : o.ln + ", " + o.sn;
                                auto show = [&](int b, int i, double d, const std::string& s) { char t[400]; if (o.type == 'i') snprintf(t, sizeof t, "%d", i); else if (o.type == 'd') snprintf(t, sizeof t, "%f", d); else if (o.type == 'b') snprintf(t, sizeof t, "%s", b ? "true" : "false"); else return "'" + s + "'"; return std::string(t); };
                                std::string w = j + ": " + show(v[k].b, v[k].i, v[k].d, v[k].s) + "\n";
                                if (vals.find(w) == std::string::npos) V("options-print", "the printed values do not contain \"%s\"", w.c_str());
                                w = j + " : " + o.help + " " + (o.req ? "(REQUIRED)" : "[" + show(o.b, o.i, o.d, o.s) + "]") + "\n";
                                if (use.find(w) == std::string::npos) V("options-usage", "the usage does not contain \"%s\"", w.c_str());
                        }
                        if (hdr.size() && (use.compare(0, hdr.size(), hdr) || use.size() < ftr.size() || use.compare(use.size() - ftr.size(), ftr.size(), ftr))) V("options-usage", "the usage does not begin and end with the header and footer set for it");
                        if (use.find("USAGE: " + args[0]) == std::string::npos) V("options-usage", "the usage does not name the program");
                        if (rest) for (auto& a : rs) if (vals.find("'" + a + "'") == std::string::npos) V("options-print", "the printed values do not contain the argument '%s'", a.c_str());
                }
                probe(t ? "parsed again" : "parsed");
                hash_mix(rs.size() * 100 + v.size());
        }
        if (died) return;
        size_t live0 = live_allocs();
        (void)live0;
        run_clean("free options", [&] { if (cpp) delete vo; else nx_options_free(co); });
        if (live_allocs()) V("leak@options", "%zu blocks (%zu bytes) are left after the option set was freed", live_allocs(), live_alloc_bytes());
}
void run() {
        draw_knobs();
        int k = choose(8);
        if (k == 7) { op("options"); h_options(); return; }
        if (k == 6) { Rng r(choose(1 << 24)); op("frame misuse"); misuse_data_frame(r); }
        static const char* name[] = {"string array", "memory block", "keypoint vector", "data frame", "graph", "descriptor map", "data frame"};
        static void (*const fn[])(Rng&) = {h_string_array, h_mem_block, h_keypoint_vector, h_data_frame, h_graph, h_descriptor_map, h_data_frame};
        size_t before = live_allocs();
        uint32_t seed = choose(1 << 24);
        OpResult q = run_clean(name[k], [&] { Rng r(seed); fn[k](r); });
        (void)before;
        no_leak(name[k], q);
        probe(name[k]);
}
Reg reg({"C18", run,
         "one run = a history of up to 60 calls on string arrays, memory blocks, keypoint vectors, data frames, graphs, descriptor maps, or up to four parses of one option set, "
         "compared with a model after every call on a heap where fresh memory is junk, realloc moves and every block ends in guard bytes; non-trivial = a block was moved; distinct = different event/outcome sequence",
         60000, 600000});
}  // namespace
