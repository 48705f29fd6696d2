// C04: JSON trees, bundles and JSON logs survive printing, files and faults.
#define NX_ENABLE_JLOG 1
#include "util.h"
#include "virg/nexus/nx_json_tree.h"
#include "virg/nexus/nx_json_bundle.h"
#include "virg/nexus/nx_json_log.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_string_array.h"

namespace {
struct J {
        int t = NX_JNT_NULL;
        std::string s;                                  // string value or number text
        std::vector<J> a;                               // array elements
        std::vector<std::pair<std::string, J>> o;       // members
};
std::string draw_str(Rng& r) {
        static const char* tricky[] = {"", "\"", "\\", "\\\"", "a/b", "\n", "\r\n", "\t", "\b", "\f", "null", "true", "{", "}", "[1]", ",", ":", "\xff", "\xc3\xa9", "\\n", "\\\\", "/", "\x01", "\x7f", "end\\"};
        if (r.below(2)) return tricky[r.below(sizeof tricky / sizeof *tricky)];
        return rand_text(r, r.below(r.below(8) ? 12 : r.below(40) ? 200 : 12000), r.below(4));
}
std::string draw_int(Rng& r) {
        switch (r.below(5)) { case 0: return "0"; case 1: return "-1"; case 2: return "2147483647"; case 3: return "-2147483648"; default: return std::to_string((int)r.next()); }
}
std::string draw_fp(Rng& r) {
        static const char* f[] = {"0.5", "-1.25", "1e10", "1E-5", "3.0e+7", "-0.0", "0e0", "123456.789e-12"};
        if (r.below(2)) return f[r.below(8)];
        if (r.below(6) == 0) { // more digits than a double needs
                std::string s = r.below(2) ? "-" : "";
                int n = 1 + r.below(r.below(3) ? 40 : 300), m = 1 + r.below(r.below(3) ? 40 : 300);
                s += (char)('1' + r.below(9));
                for (int i = 1; i < n; ++i) s += (char)('0' + r.below(10));
                s += '.';
                for (int i = 0; i < m; ++i) s += (char)('0' + r.below(10));
                if (r.below(2)) { s += r.below(2) ? "e-" : "E-"; s += std::to_string(r.below(300)); }
                return s;
        }
        char b[40];
        snprintf(b, sizeof b, "%.16e", (r.unit() - 0.5) * std::pow(10.0, (int)r.below(40) - 20));
        return b;
}
J draw_node(Rng& r, int depth, bool root, int& budget) {
        J j;
        --budget;
        int k = root ? 6 + r.below(2) : (depth <= 0 || budget <= 0) ? r.below(6) : r.below(9);
        switch (k) {
        case 0: j.t = NX_JNT_NULL; break;
        case 1: j.t = NX_JNT_TRUE; break;
        case 2: j.t = NX_JNT_FALSE; break;
        case 3: j.t = NX_JNT_STRING; j.s = draw_str(r); break;
        case 4: j.t = NX_JNT_INTEGER; j.s = draw_int(r); break;
        case 5: j.t = NX_JNT_FPNUMBER; j.s = draw_fp(r); break;
        case 6: {
                j.t = NX_JNT_ARRAY;
                int n = r.below(r.below(30) ? 6 : 600);
                for (int i = 0; i < n && (i < 6 || budget > 0); ++i) j.a.push_back(draw_node(r, depth - 1, false, budget));
                break;
        }
        default: {
                j.t = NX_JNT_OBJECT;
                int n = r.below(r.below(30) ? 6 : 300);
                for (int i = 0; i < n; ++i) {
                        std::string key = r.below(2) ? "k" + std::to_string(i) : draw_str(r);
                        bool dup = false;
                        for (auto& m : j.o) if (m.first == key) dup = true;
                        if (dup) continue;
                        j.o.emplace_back(key, draw_node(r, depth - 1, false, budget));
                }
        }
        }
        return j;
}
struct NXJSONNode* build(const J& j) {
        switch (j.t) {
        case NX_JNT_NULL: return nx_json_node_new_null();
        case NX_JNT_TRUE: return nx_json_node_new_true();
        case NX_JNT_FALSE: return nx_json_node_new_false();
        case NX_JNT_STRING: return nx_json_node_new_string(j.s.c_str());
        case NX_JNT_INTEGER: return nx_json_node_new_integer(j.s.c_str());
        case NX_JNT_FPNUMBER: return nx_json_node_new_fpnumber(j.s.c_str());
        case NX_JNT_ARRAY: {
                struct NXJSONNode* n = nx_json_node_new_array();
                for (auto& e : j.a) nx_json_array_add(n, build(e));
                return n;
        }
        default: {
                struct NXJSONNode* n = nx_json_node_new_object();
                for (auto& m : j.o) nx_json_object_add(n, m.first.c_str(), build(m.second));
                return n;
        }
        }
}
// ---- independent JSON reader
struct Reader {
        const std::string& t;
        size_t i = 0;
        std::string why;
        explicit Reader(const std::string& s) : t(s) {}
        bool fail(const char* m) { if (why.empty()) why = std::string(m) + " at byte " + std::to_string(i); return false; }
        void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\r' || t[i] == '\t')) ++i; }
        bool str(std::string& s) {
                if (i >= t.size() || t[i] != '"') return fail("expected string");
                ++i;
                while (i < t.size() && t[i] != '"') {
                        if (t[i] == '\\') {
                                if (++i >= t.size()) return fail("cut escape");
                                switch (t[i]) {
                                case 'n': s += '\n'; break; case 'r': s += '\r'; break; case 't': s += '\t'; break; case 'b': s += '\b'; break; case 'f': s += '\f'; break;
                                case '"': s += '"'; break; case '\\': s += '\\'; break; case '/': s += '/'; break;
                                default: return fail("bad escape");
                                }
                                ++i;
                        } else if (strchr("\n\r\t\b\f", t[i]) && t[i]) return fail("raw control character in a string");
                        else s += t[i++];
                }
                if (i >= t.size()) return fail("unterminated string");
                ++i;
                return true;
        }
        bool value(J& j) {
                ws();
                if (i >= t.size()) return fail("unexpected end");
                char c = t[i];
                if (c == '"') { j.t = NX_JNT_STRING; return str(j.s); }
                if (t.compare(i, 4, "null") == 0) { j.t = NX_JNT_NULL; i += 4; return true; }
                if (t.compare(i, 4, "true") == 0) { j.t = NX_JNT_TRUE; i += 4; return true; }
                if (t.compare(i, 5, "false") == 0) { j.t = NX_JNT_FALSE; i += 5; return true; }
                if (c == '[') {
                        j.t = NX_JNT_ARRAY; ++i; ws();
                        if (i < t.size() && t[i] == ']') { ++i; return true; }
                        for (;;) {
                                j.a.emplace_back();
                                if (!value(j.a.back())) return false;
                                ws();
                                if (i < t.size() && t[i] == ',') { ++i; continue; }
                                if (i < t.size() && t[i] == ']') { ++i; return true; }
                                return fail("expected , or ]");
                        }
                }
                if (c == '{') {
                        j.t = NX_JNT_OBJECT; ++i; ws();
                        if (i < t.size() && t[i] == '}') { ++i; return true; }
                        for (;;) {
                                ws();
                                j.o.emplace_back();
                                if (!str(j.o.back().first)) return false;
                                ws();
                                if (i >= t.size() || t[i] != ':') return fail("expected :");
                                ++i;
                                if (!value(j.o.back().second)) return false;
                                ws();
                                if (i < t.size() && t[i] == ',') { ++i; continue; }
                                if (i < t.size() && t[i] == '}') { ++i; return true; }
                                return fail("expected , or }");
                        }
                }
                size_t b = i;
                bool fp = false;
                if (t[i] == '-') ++i;
                if (i >= t.size() || !isdigit((unsigned char)t[i])) return fail("bad token");
                while (i < t.size() && (isdigit((unsigned char)t[i]) || strchr(".eE+-", t[i]))) { if (!isdigit((unsigned char)t[i])) fp = true; ++i; }
                j.s = t.substr(b, i - b);
                j.t = fp ? NX_JNT_FPNUMBER : NX_JNT_INTEGER;
                return true;
        }
        bool doc(J& j) { if (!value(j)) return false; ws(); return i == t.size() ? true : fail("trailing bytes"); }
};
bool same_num(const std::string& a, const std::string& b) { return a == b || strtod(a.c_str(), nullptr) == strtod(b.c_str(), nullptr); }
bool same(const J& a, const J& b, std::string* why, const std::string& at = "$") {
        if (a.t != b.t) { *why = at + ": type " + std::to_string(b.t) + " instead of " + std::to_string(a.t); return false; }
        switch (a.t) {
        case NX_JNT_STRING: if (a.s != b.s) { *why = at + ": string differs"; return false; } return true;
        case NX_JNT_INTEGER: case NX_JNT_FPNUMBER: if (!same_num(a.s, b.s)) { *why = at + ": number " + b.s + " instead of " + a.s; return false; } return true;
        case NX_JNT_ARRAY:
                if (a.a.size() != b.a.size()) { *why = at + ": " + std::to_string(b.a.size()) + " elements instead of " + std::to_string(a.a.size()); return false; }
                for (size_t i = 0; i < a.a.size(); ++i) if (!same(a.a[i], b.a[i], why, at + "[" + std::to_string(i) + "]")) return false;
                return true;
        case NX_JNT_OBJECT:
                if (a.o.size() != b.o.size()) { *why = at + ": member count differs"; return false; }
                for (size_t i = 0; i < a.o.size(); ++i) {
                        if (a.o[i].first != b.o[i].first) { *why = at + ": key " + std::to_string(i) + " differs"; return false; }
                        if (!same(a.o[i].second, b.o[i].second, why, at + "." + std::to_string(i))) return false;
                }
        }
        return true;
}
// library tree against model, through the public accessors
bool tree_is(struct NXJSONNode* n, const J& j, std::string* why, const std::string& at = "$") {
        if (!n) { *why = at + ": missing"; return false; }
        if (nx_json_node_type(n) != j.t || !nx_json_node_is(n, j.t) || !nx_json_node_is_a(n, j.t)) { *why = at + ": type " + std::to_string(nx_json_node_type(n)) + " instead of " + std::to_string(j.t); return false; }
        for (int m : {NX_JNT_NUMBER, NX_JNT_BOOL, NX_JNT_COMPOSITE, NX_JNT_INTEGRAL, NX_JNT_VALUE, 255})
                if (!!nx_json_node_is_a(n, m) != !!(j.t & m)) { *why = at + ": a node of type " + std::to_string(j.t) + " is taken for one of types " + std::to_string(m) + " or is not"; return false; }
        switch (j.t) {
        case NX_JNT_STRING: if (j.s != nx_json_node_text(n)) { *why = at + ": string differs"; return false; } return true;
        case NX_JNT_INTEGER: case NX_JNT_FPNUMBER: if (!same_num(j.s, nx_json_node_text(n))) { *why = at + ": number differs"; return false; } return true;
        case NX_JNT_ARRAY:
                if (nx_json_node_n_children(n) != (int)j.a.size()) { *why = at + ": wrong number of elements"; return false; }
                for (size_t i = 0; i < j.a.size(); ++i) if (!tree_is(nx_json_array_get(n, (int)i, j.a[i].t), j.a[i], why, at + "[" + std::to_string(i) + "]")) return false;
                if (nx_json_array_get(n, (int)j.a.size(), 255)) { *why = at + ": element past the end"; return false; }
                return true;
        case NX_JNT_OBJECT:
                if (nx_json_node_n_children(n) != 2 * (int)j.o.size()) { *why = at + ": wrong number of members"; return false; }
                for (size_t i = 0; i < j.o.size(); ++i) {
                        if (!tree_is(nx_json_object_get(n, j.o[i].first.c_str(), j.o[i].second.t), j.o[i].second, why, at + ".'" + j.o[i].first + "'")) return false;
                        for (int m : {NX_JNT_NUMBER, NX_JNT_BOOL, NX_JNT_COMPOSITE, NX_JNT_INTEGRAL, NX_JNT_VALUE})
                                if (!!nx_json_object_get(n, j.o[i].first.c_str(), m) != !!(j.o[i].second.t & m)) { *why = at + ": wrong answer for a member of one of types " + std::to_string(m); return false; }
                        if (nx_json_object_get(n, j.o[i].first.c_str(), 255 & ~j.o[i].second.t)) { *why = at + ": member found under a wrong type"; return false; }
                }
                if (nx_json_object_get(n, "no such key \x02", 255)) { *why = at + ": found a key that does not exist"; return false; }
        }
        return true;
}
// JSON text by a foreign writer
void fmt(const J& j, Rng& r, std::string& o) {
        auto sp = [&] { int k = r.below(4); if (k == 1) o += ' '; if (k == 2) o += "\n\t"; if (k == 3) o += "\r\n  "; };
        auto st = [&](const std::string& s) {
                o += '"';
                for (char c : s) switch (c) {
                case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break;
                case '\t': o += "\\t"; break; case '\b': o += "\\b"; break; case '\f': o += "\\f"; break;
                case '/': o += r.below(2) ? "\\/" : "/"; break;
                default: o += c;
                }
                o += '"';
        };
        sp();
        switch (j.t) {
        case NX_JNT_NULL: o += "null"; break; case NX_JNT_TRUE: o += "true"; break; case NX_JNT_FALSE: o += "false"; break;
        case NX_JNT_STRING: st(j.s); break;
        case NX_JNT_INTEGER: case NX_JNT_FPNUMBER: o += j.s; break;
        case NX_JNT_ARRAY: o += '['; for (size_t i = 0; i < j.a.size(); ++i) { if (i) o += ','; fmt(j.a[i], r, o); } sp(); o += ']'; break;
        default: o += '{'; for (size_t i = 0; i < j.o.size(); ++i) { if (i) o += ','; sp(); st(j.o[i].first); sp(); o += ':'; fmt(j.o[i].second, r, o); } sp(); o += '}';
        }
        sp();
}
struct NXJSONNode* do_load(const std::string& path, int api) {
        if (api == 0) return nx_json_tree_from_file(path.c_str());
        FILE* f = nx_xfopen(path.c_str(), "r");
        struct NXJSONNode* n = nx_json_tree_from_stream(f);
        nx_xfclose(f, path.c_str());
        return n;
}
void check_text(const J& want, const std::string& text, const char* who) {
        J got;
        Reader rd(text);
        std::string why;
        if (!rd.doc(got)) V("printed-json-malformed", "%s wrote text that is not JSON: %s", who, rd.why.c_str());
        if (!same(want, got, &why)) V("printed-json-differs", "%s: %s", who, why.c_str());
}
void load_cases(const J& j, const std::string& text, const char* who) {
        const std::string path = "/d/j.json";
        int api = choose(3);
        vfs_put(path, text);
        struct NXJSONNode* n = nullptr;
        std::string why;
        OpResult base = run_clean("parse json", [&] {
                if (api == 2) { char* t = strdup(text.c_str()); n = nx_json_tree_from_string(t); free(t); }
                else n = do_load(path, api);
        });
        bool ok = false;
        run_clean("compare", [&] { ok = tree_is(n, j, &why); nx_json_tree_free(n); });
        if (!ok) V("parsed-json-differs", "%s: %s", who, why.c_str());
        if (api == 2) return;
        size_t last = text.find_last_of("]}");
        int nf = choose(3);
        for (int i = 0; i < nf; ++i) {
                Plan plan;
                std::string cut = text;
                bool damaged = chance(1, 2);
                if (damaged) { cut.resize(choose(text.size())); note_kind(K_TRUNC); }
                else plan = draw_plan({K_OPEN_FAIL, K_READ_EIO, K_READ_EIO, K_READ_EOF, K_ALLOC_FAIL, K_ALLOC_STICKY}, base.ev, 2);
                vfs_put(path, cut);
                size_t e0 = sim_stderr().size();
                n = nullptr;
                OpResult r = run_op(damaged ? "parse torn json" : "parse json under faults", plan, [&] { n = do_load(path, api); });
                if (r.ok()) {
                        run_clean("compare", [&] { ok = tree_is(n, j, &why); nx_json_tree_free(n); });
                        if (!ok) V("torn-json-accepted", "%s: a JSON file with %s was loaded as if complete: %s", who, damaged ? "missing bytes" : plan.str().c_str(), why.c_str());
                        if (damaged && cut.size() <= last) V("torn-json-accepted", "%s: a JSON file cut before its closing bracket was accepted", who);
                } else {
                        if (!damaged && !r.hard) V("spurious-load-failure", "JSON load failed without a fault");
                        expect_orderly_fatal(r, "json load", e0);
                        probe("load-failure-reported");
                }
                hash_mix(r.how);
        }
}
void tree_scenario() {
        Rng r(choose(1u << 24));
        int budget = chance(1, 8) ? chance(1, 4) ? 2000 : 300 : 30;
        J j = draw_node(r, 5, true, budget);
        if (chance(1, 400)) {           // a long list
                j = J();
                j.t = NX_JNT_ARRAY;
                J e;
                e.t = NX_JNT_INTEGER;
                e.s = "7";
                struct NXJSONNode* n = nullptr;
                int len = range(150000, 400000);
                op("array of %d integers", len);
                run_clean("build long array", [&] { n = nx_json_node_new_array(); for (int i = 0; i < len; ++i) nx_json_array_add(n, nx_json_node_new_integer("7")); });
                run_clean("free long array", [&] { nx_json_tree_free(n); });
                return;
        }
        int level = choose(6) - 1, api = choose(3);
        struct NXJSONNode* n = nullptr;
        std::string why;
        bool ok = false;
        run_clean("build tree", [&] { n = build(j); });
        run_clean("inspect tree", [&] { ok = tree_is(n, j, &why); });
        if (!ok) V("built-tree-differs", "%s", why.c_str());
        std::string text;
        const char* path = "/d/t.json";
        if (api == 2) {
                size_t b = sim_stdout().size();
                run_clean("print tree to stdout", [&] { nx_json_tree_print(n, level); fflush(stdout); });
                text = sim_stdout().substr(b);
                check_text(j, text, "json print");
        } else {
                if (chance(1, 3)) vfs_put(path, std::string(choose(5000), 'Z'));
                auto save = [&] { FILE* f = nx_xfopen(path, "w"); nx_json_tree_fprint(f, n, level); nx_xfclose(f, path); };
                OpResult base = run_clean("write tree", save);
                text = vfs_get(path);
                check_text(j, text, "json write");
                int nf = choose(3);
                for (int i = 0; i < nf && n; ++i) {
                        Plan plan = draw_plan(WRITE_FAULTS, base.ev, 2);
                        if (chance(1, 2)) vfs().erase(path);
                        size_t e0 = sim_stderr().size();
                        OpResult r = run_op("write tree under faults", plan, save);
                        if (r.ok()) { if (vfs_get(path) != text) V("acknowledged-save-lost-data", "JSON write reported success under %s but the file is incomplete", plan.str().c_str()); }
                        else { if (!r.hard) V("spurious-save-failure", "JSON write failed without a fault"); expect_orderly_fatal(r, "json write", e0); n = nullptr; probe("save-failure-reported"); }
                        hash_mix(r.how);
                }
        }
        if (n) run_clean("free tree", [&] { nx_json_tree_free(n); });
        load_cases(j, text, "round trip");
        std::string foreign;
        fmt(j, r, foreign);
        load_cases(j, foreign, "foreign JSON text");
}
float rf(Rng& r) { switch (r.below(5)) { case 0: return 0.f; case 1: return -1.5f; case 2: return 3.4028234e38f; case 3: return 1.17549435e-38f; default: return (float)((r.unit() - 0.5) * 1e4); } }
double rd(Rng& r) { return r.below(4) == 0 ? rf(r) : (r.unit() - 0.5) * std::pow(10.0, (int)r.below(60) - 30); }

struct NXJSONNode* through_file(struct NXJSONNode* n, bool wrap) {
        if (!wrap) return n;
        FILE* f = nx_xfopen("/d/b.json", "w");
        nx_json_tree_fprint(f, n, 2);
        nx_xfclose(f, "b");
        nx_json_tree_free(n);
        return nx_json_tree_from_file("/d/b.json");
}
void bundle_scenario() {
        Rng r(choose(1u << 24));
        bool file = chance(2, 3);
        int kind = choose(12);
        op("bundle kind %d file=%d", kind, file);
        run_clean("bundle", [&] {
                struct NXJSONNode* box = nx_json_node_new_array();
                int n = r.below(r.below(12) ? 20 : 700), m = -1;
                switch (kind) {
                case 0: { bool b = r.below(2); nx_json_array_add(box, nx_json_bundle_bool(b)); box = through_file(box, file); if (!!nx_json_unbundle_bool(nx_json_array_fget(box, 0, NX_JNT_BOOL)) != b) V("bundle-bool", "bool %d came back different", b); break; }
                case 1: { char c = (char)(1 + r.below(255)); nx_json_array_add(box, nx_json_bundle_char(c)); box = through_file(box, file); if (nx_json_unbundle_char(nx_json_array_fget(box, 0, NX_JNT_STRING)) != c) V("bundle-char", "char %d came back different", c); break; }
                case 2: { uchar c = (uchar)r.below(256); nx_json_array_add(box, nx_json_bundle_uchar(c)); box = through_file(box, file); if (nx_json_unbundle_uchar(nx_json_array_fget(box, 0, NX_JNT_INTEGER)) != c) V("bundle-uchar", "uchar %d came back different", c); break; }
                case 3: { int v = atoi(draw_int(r).c_str()); nx_json_array_add(box, nx_json_bundle_int(v)); box = through_file(box, file); if (nx_json_unbundle_int(nx_json_array_fget(box, 0, NX_JNT_INTEGER)) != v) V("bundle-int", "int %d came back different", v); break; }
                case 4: { size_t v = r.next() >> (r.below(2) + 1); nx_json_array_add(box, nx_json_bundle_size_t(v)); box = through_file(box, file); if (nx_json_unbundle_size_t(nx_json_array_fget(box, 0, NX_JNT_INTEGER)) != v) V("bundle-size_t", "size_t %zu came back different", v); break; }
                case 5: { float v = rf(r); nx_json_array_add(box, nx_json_bundle_float(v)); box = through_file(box, file); float g = nx_json_unbundle_float(nx_json_array_fget(box, 0, NX_JNT_NUMBER)); if (g != v) V("bundle-float", "float %.9g came back as %.9g", v, g); break; }
                case 6: { double v = rd(r); nx_json_array_add(box, nx_json_bundle_double(v)); box = through_file(box, file); double g = nx_json_unbundle_double(nx_json_array_fget(box, 0, NX_JNT_NUMBER)); if (g != v) V("bundle-double", "double %.17g came back as %.17g", v, g); break; }
                case 7: {
                        std::vector<int> v;
                        for (int i = 0; i < n; ++i) v.push_back(atoi(draw_int(r).c_str()));
                        nx_json_array_add(box, nx_json_bundle_int_array(n, v.data()));
                        box = through_file(box, file);
                        int* g = nx_json_unbundle_int_array(nx_json_array_fget(box, 0, NX_JNT_ARRAY), &m);
                        if (m != n || (n && memcmp(g, v.data(), sizeof(int) * n))) V("bundle-int-array", "int array of %d came back different (%d)", n, m);
                        nx_free(g);
                        break;
                }
                case 8: {
                        std::vector<float> v;
                        std::vector<double> w;
                        for (int i = 0; i < n; ++i) { v.push_back(rf(r)); w.push_back(rd(r)); }
                        nx_json_array_add(box, nx_json_bundle_float_array(n, v.data()));
                        nx_json_array_add(box, nx_json_bundle_double_array(n, w.data()));
                        box = through_file(box, file);
                        float* g = nx_json_unbundle_float_array(nx_json_array_fget(box, 0, NX_JNT_ARRAY), &m);
                        if (m != n) V("bundle-float-array", "float array of %d came back with %d", n, m);
                        for (int i = 0; i < n; ++i) if (g[i] != v[i]) V("bundle-float-array", "element %d differs", i);
                        nx_free(g);
                        double* h = nx_json_unbundle_double_array(nx_json_array_fget(box, 1, NX_JNT_ARRAY), &m);
                        if (m != n) V("bundle-double-array", "double array of %d came back with %d", n, m);
                        for (int i = 0; i < n; ++i) if (h[i] != w[i]) V("bundle-double-array", "element %d: %.17g came back as %.17g", i, w[i], h[i]);
                        nx_free(h);
                        break;
                }
                case 9: {
                        std::vector<std::string> v;
                        std::vector<char*> p;
                        for (int i = 0; i < n; ++i) v.push_back(draw_str(r));
                        for (auto& s : v) p.push_back((char*)s.c_str());
                        nx_json_array_add(box, nx_json_bundle_string_array(n, p.data()));
                        std::string one = draw_str(r);
                        nx_json_array_add(box, nx_json_bundle_string(one.c_str()));
                        box = through_file(box, file);
                        struct NXJSONNode* ja = nx_json_array_fget(box, 0, NX_JNT_ARRAY);
                        char** g = nx_json_unbundle_string_array(ja, &m);
                        if (m != n) V("bundle-string-array", "string array of %d came back with %d", n, m);
                        for (int i = 0; i < n; ++i) { if (v[i] != g[i]) V("bundle-string-array", "element %d differs", i); nx_free(g[i]); }
                        nx_free(g);
                        struct NXStringArray* sa = nx_json_unbundle_as_string_array(ja);
                        if (nx_string_array_size(sa) != n) V("bundle-string-array", "wrong string array size");
                        for (int i = 0; i < n; ++i) if (v[i] != nx_string_array_get(sa, i)) V("bundle-string-array", "string array element %d differs", i);
                        nx_string_array_free(sa);
                        char* s = nx_json_unbundle_string(nx_json_array_fget(box, 1, NX_JNT_STRING));
                        if (one != s) V("bundle-string", "string came back different");
                        nx_free(s);
                        break;
                }
                default: {
                        std::vector<NXKeypoint> k(n + 1);
                        for (auto& q : k) {
                                memset(&q, 0, sizeof q);
                                q.x = (int)r.below(5000) - 100; q.y = (int)r.next(); q.xs = rf(r); q.ys = rf(r); q.level = r.below(10); q.scale = rf(r); q.sigma = rf(r); q.score = rf(r); q.ori = rf(r);
                                q.id = r.below(3) ? r.below(1000) : r.next();
                        }
                        if (kind == 10) nx_json_array_add(box, nx_json_bundle_keypoint(&k[0]));
                        else nx_json_array_add(box, nx_json_bundle_keypoint_array((int)k.size(), k.data()));
                        box = through_file(box, file);
                        NXKeypoint* g = nullptr;
                        NXKeypoint one;
                        int cnt = 1;
                        if (kind == 10) { one = nx_json_unbundle_keypoint(nx_json_array_fget(box, 0, NX_JNT_OBJECT)); g = &one; }
                        else { g = nx_json_unbundle_keypoint_array(nx_json_array_fget(box, 0, NX_JNT_ARRAY), &cnt); if (cnt != (int)k.size()) V("bundle-keypoints", "%zu keypoints came back as %d", k.size(), cnt); }
                        for (int i = 0; i < cnt; ++i) {
                                const NXKeypoint &a = k[i], &b = g[i];
                                if (a.x != b.x || a.y != b.y || a.xs != b.xs || a.ys != b.ys || a.level != b.level || a.scale != b.scale || a.sigma != b.sigma || a.score != b.score || a.ori != b.ori)
                                        V("bundle-keypoints", "keypoint %d came back different", i);
                                if (a.id != b.id) V("bundle-keypoint-id", "keypoint id %llu came back as %llu", (unsigned long long)a.id, (unsigned long long)b.id);
                        }
                        if (kind != 10) nx_free(g);
                }
                }
                nx_json_tree_free(box);
        });
}
void log_scenario() {
        Rng r(choose(1u << 24));
        std::vector<J> st(32);
        for (auto& s : st) s.t = NX_JNT_OBJECT;
        auto put = [&](J& o, const std::string& k, const J& v) { o.o.emplace_back(k, v); };
        auto num = [](int t, const std::string& s) { J j; j.t = t; j.s = s; return j; };
        int nops = 1 + small(25);
        run_clean("json log reset", [&] { NX_JLOG_CLEAR_ALL(); });
        static const int ids[] = {0, 31, 7};
        for (int i = 0; i < nops; ++i) {
                int id = ids[choose(3)], k = choose(11);
                if (chance(1, 20)) {
                        op("jlog free");
                        run_clean("json log free", [&] { NX_JLOG_CLEAR_ALL(); if (r.below(2)) NX_JLOG_CLEAR(id); });
                        for (auto& s : st) s.o.clear();
                }
                std::string key = k < 8 ? "key" + std::to_string(i) : "list" + std::to_string((int)choose(2) * 100 + k);
                int iv = (int)r.next();
                double dv = rd(r);
                float fv = rf(r);
                std::string sv = draw_str(r);
                char b[64];
                op("jlog op %d on stream %d", k, id);
                run_clean("json log op", [&] {
                        const char* kk = key.c_str();
                        switch (k) {
                        case 0: NX_JLOG_I(id, kk, iv); break;
                        case 1: NX_JLOG_D(id, kk, dv); break;
                        case 2: NX_JLOG_S(id, kk, sv.c_str()); break;
                        case 3: NX_JLOG_F(id, kk, fv); break;
                        case 4: { int v[3] = {iv, 0, -1}; NX_JLOG_IA(id, kk, 3, v); break; }
                        case 5: { double v[2] = {dv, 0.25}; NX_JLOG_DA(id, kk, 2, v); break; }
                        case 6: { char* v[2] = {(char*)sv.c_str(), (char*)"z"}; NX_JLOG_SA(id, kk, 2, v); break; }
                        case 7: NX_JLOG_CLEAR(id); break;
                        case 8: NX_JLOG_ADDI(id, kk, iv); break;
                        case 9: NX_JLOG_ADDD(id, kk, dv); break;
                        default: NX_JLOG_ADDS(id, kk, sv.c_str()); break;
                        }
                });
                J v;
                snprintf(b, sizeof b, "%.17g", k == 3 ? (double)fv : dv);
                switch (k) {
                case 0: put(st[id], key, num(NX_JNT_INTEGER, std::to_string(iv))); break;
                case 1: case 3: put(st[id], key, num(NX_JNT_FPNUMBER, b)); break;
                case 2: put(st[id], key, num(NX_JNT_STRING, sv)); break;
                case 4: v.t = NX_JNT_ARRAY; v.a = {num(NX_JNT_INTEGER, std::to_string(iv)), num(NX_JNT_INTEGER, "0"), num(NX_JNT_INTEGER, "-1")}; put(st[id], key, v); break;
                case 5: v.t = NX_JNT_ARRAY; v.a = {num(NX_JNT_FPNUMBER, b), num(NX_JNT_FPNUMBER, "0.25")}; put(st[id], key, v); break;
                case 6: v.t = NX_JNT_ARRAY; v.a = {num(NX_JNT_STRING, sv), num(NX_JNT_STRING, "z")}; put(st[id], key, v); break;
                case 7: st[id].o.clear(); break;
                default: {
                        J* arr = nullptr;
                        for (auto& m : st[id].o) if (m.first == key && m.second.t == NX_JNT_ARRAY) { arr = &m.second; break; }
                        if (!arr) { v.t = NX_JNT_ARRAY; put(st[id], key, v); arr = &st[id].o.back().second; }
                        arr->a.push_back(k == 8 ? num(NX_JNT_INTEGER, std::to_string(iv)) : k == 9 ? num(NX_JNT_FPNUMBER, b) : num(NX_JNT_STRING, sv));
                }
                }
        }
        const char* path = "/d/log.json";
        std::string good[3];
        OpResult base;
        for (int q = 0; q < 3; ++q) {
                int id = ids[q];
                base = run_clean("write json log", [&] { NX_JLOG_XWRITE(id, path); });
                good[q] = vfs_get(path);
                check_text(st[id], good[q], "json log");
                std::string why;
                bool ok = false;
                run_clean("inspect json log", [&] { struct NXJSONNode* n = nx_json_tree_from_file(path); ok = tree_is(n, st[id], &why); nx_json_tree_free(n); });
                if (!ok) V("json-log-differs", "stream %d: %s", id, why.c_str());
        }
        int q = choose(3), id = ids[q];
        Plan plan = draw_plan(WRITE_FAULTS, base.ev, 2);
        size_t e0 = sim_stderr().size();
        OpResult r2 = run_op("write json log under faults", plan, [&] { NX_JLOG_XWRITE(id, path); });
        if (r2.ok()) { if (vfs_get(path) != good[q]) V("acknowledged-save-lost-data", "JSON log write reported success under %s but the file is incomplete", plan.str().c_str()); }
        else { if (!r2.hard) V("spurious-save-failure", "JSON log write failed without a fault"); expect_orderly_fatal(r2, "json log write", e0); }
        run_clean("json log free", [&] { NX_JLOG_CLEAR_ALL(); });
}
void run() {
        draw_knobs();
        switch (choose(4)) {
        case 0: case 1: tree_scenario(); break;
        case 2: bundle_scenario(); bundle_scenario(); break;
        default: log_scenario();
        }
}
Reg reg({"C04", run,
         "one run = one scenario: a random JSON tree built by the API, printed, judged by an independent reader, re-parsed, written and re-parsed under write/read/open/close/allocation faults and with the file "
         "torn at a drawn byte, plus the same tree as foreign JSON text; or values bundled, stored and unbundled; or a multi-stream JSON log history against a model and a faulted log write; "
         "non-trivial = a fault, tear or short transfer was injected; distinct = different seam event/fault/outcome sequence",
         40000, 400000});
}
