// C03: data frames survive CSV files: saves are complete or reported, loads exact or reported.
#include "util.h"
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_csv_parser.h"
#include "virg/nexus/nx_csv_lexer.h"
#include "virg/nexus/nx_io.h"

namespace {
struct Cell { bool na = true; std::string s; int i = 0; double d = 0; bool b = false; };
struct Col { NXDataColumnType t; std::string label; std::vector<Cell> c; };
struct Frame { std::vector<Col> cols; int rows = 0; };

double draw_double(Rng& r) {
        switch (r.below(10)) {
        case 0: return 0.0;
        case 1: return -0.0;
        case 2: return (double)(int)r.below(2000) - 1000;
        case 3: return INFINITY;
        case 4: return -INFINITY;
        case 5: return NAN;
        case 6: { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); return std::isnan(d) ? 1.5 : d; }
        case 7: return std::ldexp(1.0 + r.unit(), -1022 - (int)r.below(50));   // subnormal
        case 8: return (r.unit() - 0.5) * 1e-3;
        default: return (double)(int64_t)(r.next() >> 20);
        }
}
int draw_int(Rng& r) {
        switch (r.below(5)) { case 0: return 2147483647; case 1: return -2147483647 - 1; case 2: return (int)r.below(20) - 10; case 3: return 0; default: return (int)r.next(); }
}
// strings that look like other types, quotes, newlines, separators, high bytes
std::string draw_str(Rng& r) {
        static const char* tricky[] = {"", "true", "false", "12", "-3", "1.5", "nan", "NA", "\"", "\"\"", "a,b", "a\nb", "\r\n", ",", "\n", " ", "0x10", "\\n", "\\\"", "a\tb", "null", "inf", "\xff", "x\xffy", "\xc3\xa9"};
        if (r.below(2)) return tricky[r.below(sizeof tricky / sizeof *tricky)];
        return rand_text(r, r.below(r.below(8) ? 12 : r.below(60) ? 90 : 9000), r.below(4));
}
Frame draw_frame() {
        Frame f;
        Rng r(choose(1u << 24));
        int nc = 1 + (chance(1, 25) ? range(7, 90) : small(6));
        f.rows = nc > 7 ? small(20) : chance(1, 10) ? range(100, 400) : small(14);
        bool many = chance(1, 4);       // more than a few factor levels
        int na = choose(4);
        for (int c = 0; c < nc; ++c) {
                Col col;
                col.t = (NXDataColumnType)choose(5);
                col.label = r.below(3) ? "c." + std::to_string(c) : draw_str(r);
                std::vector<std::string> pool;
                if (col.t == NX_DCT_FACTOR) for (int k = 0; k < 4; ++k) pool.push_back(draw_str(r));
                int dflav = r.below(3);
                for (int i = 0; i < f.rows; ++i) {
                        Cell x;
                        x.na = na == 1 ? r.below(4) == 0 : na == 2 ? r.below(2) : na == 3 ? r.below(8) != 0 : false;
                        if (!x.na) switch (col.t) {
                        case NX_DCT_STRING: x.s = draw_str(r); break;
                        case NX_DCT_FACTOR: x.s = many && r.below(2) ? "lv" + std::to_string(r.below(500)) : pool[r.below(4)]; break;
                        case NX_DCT_INT: x.i = draw_int(r); break;
                        case NX_DCT_DOUBLE: x.d = dflav == 0 ? (double)((int)r.below(100) - 50) : draw_double(r); break;
                        case NX_DCT_BOOL: x.b = r.below(2); break;
                        }
                        col.c.push_back(x);
                }
                f.cols.push_back(col);
        }
        return f;
}
struct NXDataFrame* build(const Frame& f, int style) {
        struct NXDataFrame* df = nx_data_frame_alloc();
        if (style == 1) for (int i = 0; i < f.rows; ++i) nx_data_frame_add_row(df);
        if (style == 2) {
                std::vector<NXDataColumnType> ts;
                std::vector<const char*> ls;
                for (auto& c : f.cols) { ts.push_back(c.t); ls.push_back(c.label.c_str()); }
                nx_data_frame_add_columns(df, (int)ts.size(), ts.data(), ls.data());
        } else for (auto& c : f.cols) nx_data_frame_add_column(df, c.t, c.label.c_str());
        if (style != 1) for (int i = 0; i < f.rows; ++i) nx_data_frame_add_row(df);
        for (int i = 0; i < f.rows; ++i)
                for (int c = 0; c < (int)f.cols.size(); ++c) {
                        const Cell& x = f.cols[c].c[i];
                        switch (f.cols[c].t) {
                        case NX_DCT_STRING: if (x.na) { if (i & 1) { nx_data_frame_set_string(df, i, c, "tmp"); nx_data_frame_set_na(df, i, c); } } else nx_data_frame_set_string(df, i, c, x.s.c_str()); break;
                        case NX_DCT_FACTOR: if (!x.na) nx_data_frame_set_factor(df, i, c, x.s.c_str()); break;
                        case NX_DCT_INT: if (x.na) { if (i & 1) { nx_data_frame_set_int(df, i, c, 5); nx_data_frame_set_na(df, i, c); } } else { if (i & 2) nx_data_frame_set_int(df, i, c, 1); nx_data_frame_set_int(df, i, c, x.i); } break;
                        case NX_DCT_DOUBLE: if (!x.na) nx_data_frame_set_double(df, i, c, x.d); break;
                        case NX_DCT_BOOL: if (!x.na) nx_data_frame_set_bool(df, i, c, x.b); break;
                        }
                }
        return df;
}
// ---- independent reader of separated text with double-quote quoting
struct Field { bool quoted = false; std::string s; };
bool read_csv(const std::string& t, const std::string& sep, std::vector<std::vector<Field>>& out, std::string* why) {
        size_t i = 0;
        std::vector<Field> rec;
        bool at_rec_start = true;
        while (i < t.size() || !at_rec_start) {
                Field f;
                if (i < t.size() && t[i] == '"') {
                        f.quoted = true;
                        ++i;
                        for (;;) {
                                if (i >= t.size()) { *why = "unterminated quoted field"; return false; }
                                if (t[i] == '"') {
                                        if (i + 1 < t.size() && t[i + 1] == '"') { f.s += '"'; i += 2; continue; }
                                        ++i;
                                        break;
                                }
                                f.s += t[i++];
                        }
                } else while (i < t.size() && t[i] != '\n' && t.compare(i, sep.size(), sep) != 0) f.s += t[i++];
                rec.push_back(f);
                at_rec_start = false;
                if (i >= t.size()) { out.push_back(rec); return true; }
                if (t[i] == '\n') { ++i; out.push_back(rec); rec.clear(); at_rec_start = true; }
                else if (t.compare(i, sep.size(), sep) == 0) i += sep.size();
                else { *why = "garbage after a quoted field"; return false; }
        }
        return true;
}
bool same_double(double a, double b) { return (std::isnan(a) && std::isnan(b)) || (memcmp(&a, &b, 8) == 0); }

void check_text(const Frame& f, const std::string& t, const std::string& sep, const char* who) {
        std::vector<std::vector<Field>> rec;
        std::string why;
        if (!read_csv(t, sep, rec, &why)) V("saved-text-malformed", "%s: %s", who, why.c_str());
        if ((int)rec.size() != f.rows + 1) V("saved-text-wrong-rows", "%s wrote %zu records for %d rows plus labels", who, rec.size(), f.rows);
        for (size_t r = 0; r < rec.size(); ++r) if (rec[r].size() != f.cols.size()) V("saved-text-wrong-columns", "%s: record %zu has %zu fields, frame has %zu columns", who, r, rec[r].size(), f.cols.size());
        for (size_t c = 0; c < f.cols.size(); ++c) {
                if (rec[0][c].s != f.cols[c].label) V("saved-label-differs", "%s: label %zu saved as '%s', is '%s'", who, c, rec[0][c].s.c_str(), f.cols[c].label.c_str());
                for (int r = 0; r < f.rows; ++r) {
                        const Cell& x = f.cols[c].c[r];
                        const Field& g = rec[r + 1][c];
                        bool ok = true;
                        if (x.na) ok = !g.quoted && g.s.empty();
                        else switch (f.cols[c].t) {
                        case NX_DCT_STRING: case NX_DCT_FACTOR: ok = g.s == x.s && (g.quoted || !g.s.empty()); break;
                        case NX_DCT_INT: ok = !g.s.empty() && g.s == std::to_string(x.i); break;
                        case NX_DCT_DOUBLE: { char* e; double d = strtod(g.s.c_str(), &e); ok = !g.s.empty() && !*e && same_double(d, x.d); break; }
                        case NX_DCT_BOOL: ok = g.s == (x.b ? "true" : "false"); break;
                        }
                        if (!ok) V("saved-cell-differs", "%s: cell (%d,%zu) of type %d saved as %s'%s'", who, r, c, f.cols[c].t, g.quoted ? "quoted " : "", g.s.c_str());
                }
        }
}
// Types a loader may give the column, judged by its non-missing values.
NXDataColumnType load_type(const Col& c, bool* int_ok) {
        bool any = false, whole = true;
        for (auto& x : c.c) if (!x.na) { any = true; if (c.t == NX_DCT_DOUBLE && !(std::fabs(x.d) <= 2147483647.0 && x.d == std::floor(x.d))) { if (x.d != -2147483648.0) whole = false; } }
        *int_ok = false;
        if (!any) return NX_DCT_STRING;
        if (c.t == NX_DCT_FACTOR) return NX_DCT_STRING;
        if (c.t == NX_DCT_DOUBLE) *int_ok = whole;
        return c.t;
}
void check_loaded(const Frame& f, struct NXDataFrame* df, bool saf, const char* who) {
        if (nx_data_frame_n_rows(df) != f.rows || nx_data_frame_n_columns(df) != (int)f.cols.size())
                V("loaded-wrong-shape", "%s gave %dx%d, stored %dx%zu", who, nx_data_frame_n_rows(df), nx_data_frame_n_columns(df), f.rows, f.cols.size());
        for (int c = 0; c < (int)f.cols.size(); ++c) {
                const Col& col = f.cols[c];
                const struct NXDataColumn* dc = nx_data_frame_column(df, c);
                if (col.label != nx_data_column_label(dc)) V("loaded-label-differs", "%s: column %d is labelled '%s', stored '%s'", who, c, nx_data_column_label(dc), col.label.c_str());
                bool int_ok;
                NXDataColumnType want = load_type(col, &int_ok), got = nx_data_column_type(dc);
                if (want == NX_DCT_STRING && saf) want = NX_DCT_FACTOR;
                if (got != want && !(int_ok && got == NX_DCT_INT)) V("loaded-wrong-type", "%s: column %d loaded as type %d, expected %d", who, c, got, want);
                std::vector<std::string> lev;
                for (int r = 0; r < f.rows; ++r) {
                        const Cell& x = col.c[r];
                        bool na = nx_data_frame_is_na(df, r, c);
                        if (na != x.na) V("loaded-na-differs", "%s: cell (%d,%d) %s", who, r, c, na ? "became missing" : "was missing");
                        if (na) continue;
                        bool ok = true;
                        switch (got) {
                        case NX_DCT_STRING: ok = x.s == nx_data_frame_get_string(df, r, c); break;
                        case NX_DCT_FACTOR: ok = x.s == nx_data_frame_get_factor(df, r, c); if (std::find(lev.begin(), lev.end(), x.s) == lev.end()) lev.push_back(x.s); break;
                        case NX_DCT_INT: ok = col.t == NX_DCT_INT ? nx_data_frame_get_int(df, r, c) == x.i : (double)nx_data_frame_get_int(df, r, c) == x.d; break;
                        case NX_DCT_DOUBLE: ok = same_double(nx_data_frame_get_double(df, r, c), x.d); break;
                        case NX_DCT_BOOL: ok = !!nx_data_frame_get_bool(df, r, c) == x.b; break;
                        }
                        if (!ok) V("loaded-cell-differs", "%s: cell (%d,%d) of type %d differs from the stored value", who, r, c, got);
                }
                if (got == NX_DCT_FACTOR) {
                        if (nx_data_column_n_factor_levels(dc) != (int)lev.size()) V("loaded-levels-differ", "%s: column %d has %d levels, %zu distinct values", who, c, nx_data_column_n_factor_levels(dc), lev.size());
                        for (size_t k = 0; k < lev.size(); ++k) if (lev[k] != nx_data_column_factor_level(dc, (int)k)) V("loaded-levels-differ", "%s: level %zu differs", who, k);
                }
        }
}
// api: 0 file, 1 x-file, 2 stream
int do_save(const struct NXDataFrame* df, const char* path, int api) {
        if (api == 0) return nx_data_frame_save_csv(df, path);
        if (api == 1) { nx_data_frame_xsave_csv(df, path); return 1; }
        FILE* f = nx_fopen(path, "w");
        if (!f) return 0;
        int ok = nx_data_frame_save_csv_stream(df, f);
        return (nx_fclose(f, path) == NX_OK) && ok;
}
struct NXDataFrame* do_load(const char* path, int api, bool saf) {
        if (api == 0) return nx_data_frame_load_csv(path, saf);
        if (api == 1) return nx_data_frame_xload_csv(path, saf);
        FILE* f = nx_fopen(path, "r");
        if (!f) return nullptr;
        struct NXDataFrame* df = nx_data_frame_load_csv_stream(f, saf);
        if (nx_fclose(f, path) != NX_OK) { nx_data_frame_free(df); return nullptr; }
        return df;
}
// ---- CSV written by someone else: unquoted text, optional final newline, mixed columns
struct Foreign { std::string text; Frame f; };
Foreign draw_foreign() {
        Foreign o;
        Rng r(choose(1u << 24));
        int nc = 1 + small(4), nr = small(10);
        o.f.rows = nr;
        std::vector<std::vector<std::string>> txt(nc);
        for (int c = 0; c < nc; ++c) {
                Col col;
                col.label = "L" + std::to_string(c);
                bool has_s = false, has_b = false, has_d = false, has_i = false;
                int mix = r.below(6);
                for (int i = 0; i < nr; ++i) {
                        Cell x;
                        std::string t;
                        int k = mix == 0 ? 0 : mix == 1 ? 1 : mix == 2 ? (int)(r.below(2) ? 1 : 2) : mix == 3 ? 3 : mix == 4 ? 4 : (int)r.below(6);
                        x.na = false;
                        switch (k) {
                        case 0: { static const char* w[] = {"abc", "x y", " lead", "it's", "1a", "--", "TRUE", "1e", "0x", "12 ", "1.2.3", "tab\there", "a;b", "trail ", "\xc3\xa9", "a\\b", "t\t", "#c", "x=1", "a\rb"}; t = w[r.below(20)]; has_s = true; x.s = t; break; }
                        case 1: { static const char* w[] = {"7", "-12", "007", "2147483647", "-2147483648", "+5", "010"}; t = w[r.below(7)]; has_i = true; x.s = t; break; }
                        case 2: { static const char* w[] = {"1.5", "-2e3", ".5", "34.", "2147483648", "1e300", "4.9406564584124654e-324", "12345678901234567890"}; t = w[r.below(8)]; has_d = true; x.s = t; break; }
                        case 3: t = r.below(2) ? "true" : "false"; has_b = true; x.s = t; break;
                        case 4: { std::string raw = r.below(2) ? "12" : "q\"q,\n"; x.s = raw; t = "\""; for (char ch : raw) { if (ch == '"') t += '"'; t += ch; } t += '"'; has_s = true; break; }
                        default: x.na = true; break;
                        }
                        col.c.push_back(x);
                        txt[c].push_back(t);
                }
                int n = has_b + (has_i || has_d);
                col.t = has_s || n > 1 ? NX_DCT_STRING : has_b ? NX_DCT_BOOL : has_d ? NX_DCT_DOUBLE : has_i ? NX_DCT_INT : NX_DCT_STRING;
                for (auto& x : col.c) if (!x.na) {
                        if (col.t == NX_DCT_INT) x.i = (int)strtol(x.s.c_str(), nullptr, 10);
                        if (col.t == NX_DCT_DOUBLE) x.d = strtod(x.s.c_str(), nullptr);
                        if (col.t == NX_DCT_BOOL) x.b = x.s == "true";
                }
                o.f.cols.push_back(col);
        }
        for (int c = 0; c < nc; ++c) { o.text += (c ? "," : ""); o.text += o.f.cols[c].label; }
        for (int i = 0; i < nr; ++i) { o.text += "\n"; for (int c = 0; c < nc; ++c) { o.text += (c ? "," : ""); o.text += txt[c][i]; } }
        bool last_empty = nr && nc == 1 && txt[0][nr - 1].empty();
        if (last_empty || r.below(2)) o.text += "\n";
        return o;
}
// in a foreign file a column of whole doubles stays what its text says
void check_foreign(const Foreign& o, struct NXDataFrame* df, bool saf) {
        for (int c = 0; c < (int)o.f.cols.size() && c < nx_data_frame_n_columns(df); ++c) {
                NXDataColumnType want = o.f.cols[c].t == NX_DCT_STRING && saf ? NX_DCT_FACTOR : o.f.cols[c].t;
                NXDataColumnType got = nx_data_column_type(nx_data_frame_column(df, c));
                if (want != got) V("loaded-wrong-type", "column %d of a hand-written file loaded as type %d, expected %d", c, got, want);
        }
        check_loaded(o.f, df, saf, "load of a hand-written file");
}

void run() {
        draw_knobs();
        if (chance(1, 4)) {
                Foreign o = draw_foreign();
                bool saf = chance(1, 3);
                int api = choose(4);
                op("hand-written csv of %zu bytes, api %d saf=%d", o.text.size(), api, saf);
                vfs_put("/d/h.csv", o.text);
                struct NXDataFrame* df = nullptr;
                run_clean("load hand-written csv", [&] {
                        if (api < 3) { df = do_load("/d/h.csv", api, saf); return; }
                        char* t = strdup(o.text.c_str());
                        struct NXCSVLexer* lx = nx_csv_lexer_new(t);
                        struct NXCSVParser* p = nx_csv_parser_new(lx);
                        df = nx_csv_parser_parse(p);
                        nx_csv_parser_free(p);
                        nx_csv_lexer_free(lx);
                        free(t);
                });
                if (!df) V("healthy-load-fails", "loading an intact hand-written CSV failed");
                if (api == 3) saf = false;
                run_clean("inspect", [&] { check_foreign(o, df, saf); nx_data_frame_free(df); });
        }
        int n = 1 + choose(2);
        for (int k = 0; k < n; ++k) {
                Frame f = draw_frame();
                int style = choose(3), sapi = choose(3), lapi = choose(3);
                bool saf = chance(1, 3);
                struct NXDataFrame* df = nullptr;
                op("frame %d rows %zu cols, save api %d, load api %d, factors %d", f.rows, f.cols.size(), sapi, lapi, saf);
                run_clean("build frame", [&] { df = build(f, style); });
                const char* path = "/d/t.csv";
                if (chance(1, 3)) vfs_put(path, std::string(choose(20000), 'Z'));
                int ok = 0;
                OpResult base = run_clean("save csv", [&] { ok = do_save(df, path, sapi); });
                if (!ok) V("healthy-save-fails", "CSV save failed although nothing went wrong");
                std::string good = vfs_get(path);
                check_text(f, good, ",", "CSV save");
                if (chance(1, 3)) {
                        static const char* seps[] = {"\t", " ", ";", " | ", ","};
                        const char* sep = seps[choose(5)];
                        run_clean("print frame", [&] { FILE* o = nx_xfopen("/d/p.txt", "w"); ok = nx_data_frame_fprintf(df, o, sep); nx_xfclose(o, "p"); });
                        if (!ok) V("healthy-save-fails", "printing a frame failed although nothing went wrong");
                        check_text(f, vfs_get("/d/p.txt"), sep, "frame print");
                }
                struct NXDataFrame* back = nullptr;
                OpResult lbase = run_clean("load csv", [&] { back = do_load(path, lapi, saf); });
                if (!back) V("healthy-load-fails", "loading the CSV just saved failed");
                run_clean("compare", [&] { check_loaded(f, back, saf, "CSV round trip"); nx_data_frame_free(back); });
                int nf = 1 + choose(3);
                for (int i = 0; i < nf; ++i) {
                        bool save = chance(1, 2);
                        size_t e0 = sim_stderr().size();
                        if (save) {
                                if (!df) run_clean("build frame", [&] { df = build(f, style); });
                                Plan plan = draw_plan(chance(1, 6) ? std::vector<Kind>{K_ALLOC_FAIL, K_ALLOC_STICKY} : WRITE_FAULTS, base.ev, 2);
                                if (chance(1, 2)) vfs().erase(vfs_norm(path)); else vfs_put(path, std::string(choose(20000), 'Y'));
                                int acked = 0;
                                OpResult r = run_op("save csv under faults", plan, [&] { acked = do_save(df, path, sapi); });
                                if (r.ok() && acked) {
                                        if (vfs_get(path) != good) V("acknowledged-save-lost-data", "CSV save reported success under %s but the file is not the complete frame", plan.str().c_str());
                                } else {
                                        if (!r.hard) V("spurious-save-failure", "CSV save failed without a fault");
                                        expect_orderly_fatal(r, "save csv", e0);
                                        probe("save-failure-reported");
                                }
                                hash_mix(r.how * 2 + acked);
                                if (r.fatal()) df = nullptr;
                                if (r.ok() && r.leaked_files) V("save-leaks-stream", "CSV save left a stream open");
                        } else {
                                vfs_put(path, good);
                                Plan plan = draw_plan(chance(1, 4) ? std::vector<Kind>{K_ALLOC_FAIL, K_ALLOC_STICKY} : READ_FAULTS, lbase.ev, 2);
                                struct NXDataFrame* got = nullptr;
                                OpResult r = run_op("load csv under faults", plan, [&] { got = do_load(path, lapi, saf); });
                                if (r.ok() && got) {
                                        run_clean("compare", [&] { check_loaded(f, got, saf, "CSV load under faults"); nx_data_frame_free(got); });
                                } else {
                                        if (!r.hard) V("spurious-load-failure", "CSV load failed without a fault");
                                        expect_orderly_fatal(r, "load csv", e0);
                                        probe("load-failure-reported");
                                }
                                hash_mix(r.how);
                                if (r.ok() && r.leaked_files) V("load-leaks-stream", "CSV load left a stream open");
                        }
                }
                if (df) run_clean("free frame", [&] { nx_data_frame_free(df); });
        }
}
Reg reg({"C03", run,
         "one run = 1-2 frames (all column types, missing cells, labels and strings with quotes, separators, newlines, high bytes, look-alike numbers; extreme ints and doubles) saved and reloaded through "
         "drawn entry points, text judged by an independent reader, then 1-3 saves/loads under drawn write/read/open/close/allocation faults; a quarter of the runs also load a hand-written CSV; "
         "non-trivial = a fault or short transfer was injected; distinct = different seam event/fault/outcome sequence",
         36000, 400000});
}
