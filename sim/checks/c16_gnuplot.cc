// C16: what a plotting peer receives.
#include "util.h"
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_gnuplot.h"

namespace {
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string fmt(const char* f, ...) {
        va_list a;
        va_start(a, f);
        char* b = nullptr;
        int n = vasprintf(&b, f, a);
        va_end(a);
        std::string s(b, n);
        ::free(b);
        return s;
}
std::string quoted(Rng& r, int max) {
        // text inside a gnuplot string: anything the caller may pass, also printf directives
        static const char* odd[] = {"%", "%d%s", "100%", "%n", "\\", "'", "é", "a b", "#", "$x", ";", "%%"};
        if (r.below(20) == 0) max = 5000;
        std::string s;
        for (int k = r.below(max); k > 0; --k) { if (r.below(3) == 0) s += odd[r.below(12)]; else s += (char)('a' + r.below(26)); }
        return s;
}
struct NXDataFrame* make_frame(Rng& r) {
        struct NXDataFrame* f = nx_data_frame_alloc();
        int nc = 1 + r.below(4), nr = r.below(40);
        for (int c = 0; c < nc; ++c) {
                char lb[32];
                snprintf(lb, sizeof lb, "c%d", c);
                nx_data_frame_add_column(f, r.below(2) ? NX_DCT_INT : NX_DCT_DOUBLE, lb);
        }
        for (int i = 0; i < nr; ++i) {
                nx_data_frame_add_row(f);
                for (int c = 0; c < nc; ++c) {
                        if (r.below(9) == 0) continue;
                        if (nx_data_column_type(nx_data_frame_column(f, c)) == NX_DCT_INT) nx_data_frame_set_int(f, i, c, (int)r.next());
                        else nx_data_frame_set_double(f, i, c, (r.unit() - 0.5) * 1e6);
                }
        }
        return f;
}
std::string frame_text(const struct NXDataFrame* f) {
        // what the frame prints with a blank separator to a file of its own
        FILE* o = fopen("/tmp/frame.txt", "w");
        nx_data_frame_fprintf(f, o, " ");
        fclose(o);
        return vfs_get("/tmp/frame.txt");
}
enum { MAXSTEP = 24 };
void run() {
        draw_knobs();
        bool pipe = choose(2), persist = choose(2);
        Rng r(choose(1 << 24));
        static std::string want, flushed;
        static struct NXGNUPlot* gp;
        static FILE* own;
        static struct NXDataFrame* frame;
        want.clear();
        flushed.clear();
        gp = nullptr; own = nullptr; frame = nullptr;
        int nsteps = small(MAXSTEP);
        std::vector<int> ks;
        for (int i = 0; i < nsteps; ++i) ks.push_back(choose(16));
        op("gnuplot %s persist %d steps %d", pipe ? "pipe" : "stream", persist, nsteps);
        auto received = [&]() -> std::string { return pipe ? (pipes().empty() ? "" : pipes().back()->data) : vfs_get("/d/plot.gp"); };
        auto session = [&](bool faulty) {
                Rng q = r;
                want.clear();
                flushed.clear();
                want += "set border 3 lw 3;\nset xtics out nomirror;\nset ytics out nomirror;\n";
                if (!pipe) own = fopen("/d/plot.gp", "w");
                if (!pipe && !own) return;
                gp = nx_gnuplot_new(pipe ? NULL : own, persist);
                for (int k : ks) {
                        std::string a = quoted(q, 20), b = quoted(q, 20), c = quoted(q, 20);
                        int w = 1 + q.below(2000), h = 1 + q.below(2000), id = q.below(9);
                        double dw = 1 + q.unit() * 30, dh = 1 + q.unit() * 30;
                        switch (k) {
                        case 0: nx_gnuplot_send_command(gp, "plot '-' using %d:%d title \"%s\"\n", w, h, a.c_str()); want += fmt("plot '-' using %d:%d title \"%s\"\n", w, h, a.c_str()); break;
                        case 1: nx_gnuplot_set_title(gp, a.c_str()); want += "set title \"" + a + "\";\n"; break;
                        case 2: nx_gnuplot_set_xlabel(gp, a.c_str()); want += "set xlabel \"" + a + "\";\n"; break;
                        case 3: nx_gnuplot_set_ylabel(gp, a.c_str()); want += "set ylabel \"" + a + "\";\n"; break;
                        case 4: nx_gnuplot_set_title_and_labels(gp, a.c_str(), b.c_str(), c.c_str()); want += "set title \"" + a + "\";\nset xlabel \"" + b + "\";\nset ylabel \"" + c + "\";\n"; break;
                        case 5: nx_gnuplot_set_terminal_window(gp, w, h, a.c_str(), id); want += fmt("set terminal qt %d size %d,%d enhanced title \"%s\";\nunset output;\n", id, w, h, a.c_str()); break;
                        case 6: nx_gnuplot_set_terminal_svg(gp, w, h, a.c_str(), b.c_str()); want += fmt("set terminal svg size %d,%d enhanced name \"%s\";\nset output \"%s\";\n", w, h, a.c_str(), b.c_str()); break;
                        case 7: nx_gnuplot_set_terminal_pdf(gp, dw, dh, b.c_str()); want += fmt("set terminal pdfcairo enhanced color size %fcm,%fcm\nset output \"%s\"\n", dw, dh, b.c_str()); break;
                        case 8: nx_gnuplot_set_terminal_eps(gp, dw, dh, b.c_str()); want += fmt("set terminal epscairo enhanced color size %fcm,%fcm;\nset output \"%s\"\n", dw, dh, b.c_str()); break;
                        case 9: nx_gnuplot_set_terminal_ascii(gp, w, h, id & 1); want += fmt("set terminal dumb size %d,%d enhanced %sfeed;\n", w, h, id & 1 ? "" : "no"); break;
                        case 10: {
                                int ty = q.below(5);
                                static const enum NXTerminalType T[] = {NX_TERMINAL_WINDOW, NX_TERMINAL_SVG, NX_TERMINAL_PDF, NX_TERMINAL_EPS, NX_TERMINAL_ASCII};
                                nx_gnuplot_set_terminal(gp, T[ty], w, h, a.c_str(), id);
                                if (ty == 0) want += fmt("set terminal qt %d size %d,%d enhanced title \"%s\";\nunset output;\n", id, w, h, a.c_str());
                                else if (ty == 1) want += fmt("set terminal svg size %d,%d enhanced name \"VIRG\";\nset output \"%s\";\n", w, h, a.c_str());
                                else if (ty == 2) want += fmt("set terminal pdfcairo enhanced color size %fcm,%fcm\nset output \"%s\"\n", (double)w, (double)h, a.c_str());
                                else if (ty == 3) want += fmt("set terminal epscairo enhanced color size %fcm,%fcm;\nset output \"%s\"\n", (double)w, (double)h, a.c_str());
                                else want += fmt("set terminal dumb size %d,%d enhanced feed;\n", w, h);
                                break;
                        }
                        case 11: case 12: case 13: {
                                frame = make_frame(q);
                                std::string body = faulty ? "" : frame_text(frame);
                                std::string lab = fmt("data%d", id);
                                bool named = q.below(2);
                                nx_gnuplot_send_data_frame(gp, frame, named ? lab.c_str() : NULL);
                                want += named ? "$" + lab + " << EOD\n" + body + "EOD\n" : body + "e\n";
                                nx_data_frame_free(frame);
                                frame = nullptr;
                                probe("data_frame");
                                break;
                        }
                        default:
                                nx_gnuplot_flush(gp);
                                if (!faulty && received() != want) V("flush-incomplete", "after a flush the peer has %zu of %zu bytes", received().size(), want.size());
                                flushed = want;
                                probe("flush");
                        }
                }
                nx_gnuplot_free(gp);
                gp = nullptr;
                if (!pipe) {
                        // the stream still belongs to the caller
                        if (fputs("# more\n", own) < 0 && !faulty) V("stream-closed", "the caller's stream is no longer usable");
                        want += "# more\n";
                        int rc = fclose(own);
                        if (rc && !faulty) V("stream-closed", "closing the caller's stream failed");
                        own = nullptr;
                }
        };
        OpResult q = run_op("gnuplot session", Plan::none(), [&] { session(false); });
        if (!q.ok()) V("unexpected-exit", "a plotting session stopped the process");
        if (received() != want) {
                std::string g = received();
                size_t at = 0;
                while (at < g.size() && at < want.size() && g[at] == want[at]) ++at;
                V("commands-altered", "the peer received other text than was sent from byte %zu on: \"%s\" instead of \"%s\"", at, g.substr(at, 60).c_str(), want.substr(at, 60).c_str());
        }
        if (pipe) {
                if (pipes().size() != 1) V("pipes", "%zu pipes opened", pipes().size());
                if (!pipes()[0]->reaped) V("pipe-not-reaped", "the plotting process is not waited for with pclose");
                if (pipes()[0]->cmd != (persist ? "gnuplot -persist" : "gnuplot")) V("pipe-command", "\"%s\" was run", pipes()[0]->cmd.c_str());
        } else if (!pipes().empty()) V("pipes", "a pipe was opened although a stream was given");
        if (q.leaked_allocs || q.leaked_files) V("leak", "%zu allocations and %zu streams left open", q.leaked_allocs, q.leaked_files);
        if (q.ev[E_PIPE] == 0 && pipe) V("pipe-unused", "nothing was sent");
        hash_bytes(want.data(), want.size());
        // a peer that goes away, a pipe that cannot be opened, lack of memory
        std::string full = want;
        for (int k = choose(3); k > 0; --k) {
                std::vector<Kind> kinds = pipe ? std::vector<Kind>{K_PIPE_FAIL, K_ALLOC_FAIL} : std::vector<Kind>{K_WRITE_EIO, K_WRITE_ENOSPC, K_ALLOC_FAIL, K_ALLOC_STICKY};
                Plan p = draw_plan(kinds, q.ev, 1);
                vfs().erase("/d/plot.gp");
                size_t before = pipes().size(), e0 = sim_stderr().size();
                OpResult s = run_op("gnuplot session under faults", p, [&] { session(true); });
                std::string g = pipe ? (pipes().size() > before ? pipes().back()->data : "") : vfs_get("/d/plot.gp");
                if (s.fatal()) {
                        if (!s.hard) V("unexpected-exit", "stopped without a fault");
                        expect_orderly_fatal(s, "gnuplot", e0);
                        if (s.fired[K_PIPE_FAIL] && pipes().size() > before) V("peer-loss-fatal", "a peer that went away stopped the process");
                }
                else if (s.how == OpResult::RETURNED) {
                        if (pipe && pipes().size() == before) V("popen-failure-hidden", "the session went on without a pipe");
                        if (pipe && !pipes().back()->reaped) V("pipe-not-reaped", "the plotting process is not waited for with pclose");
                        if (!s.hard && g != full) V("commands-altered", "the peer received other text on the second session");
                }
                // whatever was cut off, the peer never receives commands in part of another order
                if (!s.fired[K_WRITE_EIO] && full.compare(0, g.size(), g)) V("not-a-prefix", "under faults the peer received text that was not sent");
                probe("faulty_session");
        }
}
Reg reg({"C16", run,
         "one run = one plotting session (0-24 drawn commands, terminals, titles and labels with arbitrary text, data frames, flushes) into a pipe or a caller's stream fault-free, then up to two sessions under drawn faults "
         "(pipe cannot be opened, peer gone, write error, disk full, allocation failure); non-trivial = a fault or short transfer was injected; distinct = different event/outcome sequence",
         45000, 400000});
}
