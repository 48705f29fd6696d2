// C17: log messages and the fatal stop.
#include "util.h"

namespace {
struct Fatal { int calls; char fn[64], tag[64], msg[600]; int line; } g_fatal;
__NX_NO_RETURN void my_fatal(const char* fn, int line, const char* tag, const char* msg, va_list prm) {
        g_fatal.calls++;
        snprintf(g_fatal.fn, sizeof g_fatal.fn, "%s", fn);
        snprintf(g_fatal.tag, sizeof g_fatal.tag, "%s", tag);
        g_fatal.line = line;
        vsnprintf(g_fatal.msg, sizeof g_fatal.msg, msg, prm);
        exit(42);
}
std::string text(Rng& r, int max) {
        std::string s;
        for (int k = r.below(max); k > 0; --k) s += r.below(8) == 0 ? '%' : r.below(30) == 0 ? '\n' : (char)(32 + r.below(95));
        return s;
}
void run() {
        draw_knobs();
        knobs().tty = choose(2);
        Rng r(choose(1 << 24));
        int verb = NX_LOG_DEFAULT;
        bool custom = false;
        break_stderr(false);
        run_clean("reset", [&] { nx_log_verbosity(NX_LOG_DEFAULT); nx_log_fatal_func(NULL); });
        static const char* color[] = {"\x1b[34;1m", "\x1b[36m", "\x1b[33m", "\x1b[31;1m"};
        static const char letter[] = "ILWE";
        int n = 1 + small(24);
        for (int i = 0; i < n; ++i) {
                int k = choose(10);
                if (k == 0) { verb = choose(4); op("verbosity %d", verb); run_clean("verbosity", [&] { nx_log_verbosity((enum NXLogVerbosity)verb); }); continue; }
                if (k == 1) { custom = choose(2); op("fatal function %s", custom ? "custom" : "default"); run_clean("fatal func", [&] { nx_log_fatal_func(custom ? my_fatal : NULL); }); continue; }
                if (k == 2) { knobs().tty = choose(2); op("tty %d", knobs().tty); continue; }
                std::string tag = text(r, 12), msg = text(r, r.below(10) == 0 ? 3000 : 60), fn = rand_text(r, 1 + r.below(20), 0);
                int line = r.below(100000), a1 = (int)r.next();
                double a2 = (r.unit() - 0.5) * 1e3;
                bool broken = chance(1, 8);
                Plan p;
                if (chance(1, 3)) p = Plan::one(choose(2) ? K_ALLOC_STICKY : K_ALLOC_FAIL, choose(3));
                bool fatal = k == 3;
                int lev = r.below(4);
                char exp_args[700];
                snprintf(exp_args, sizeof exp_args, "%d %.3f %.200s", a1, a2, msg.substr(0, 200).c_str());
                break_stderr(broken);
                size_t e0 = sim_stderr().size();
                std::string want_msg = fatal ? exp_args : r.below(2) ? std::string(exp_args) : msg;
                bool plain = want_msg == msg;
                op("%s level %d %s%s", fatal ? "fatal" : "log", lev, broken ? "stderr broken " : "", p.str().c_str());
                g_fatal.calls = 0;
                uint32_t opens = (uint32_t)open_files();
                OpResult q = run_op(fatal ? "fatal" : "log", p, [&] {
                        if (fatal) nx_log_fatal(fn.c_str(), line, tag.c_str(), "%d %.3f %.200s", a1, a2, msg.substr(0, 200).c_str());
                        else if (plain) nx_log_formatted((enum NXLogLevel)lev, fn.c_str(), line, tag.c_str(), "%s", msg.c_str());
                        else nx_log_formatted((enum NXLogLevel)lev, fn.c_str(), line, tag.c_str(), "%d %.3f %.200s", a1, a2, msg.substr(0, 200).c_str());
                });
                break_stderr(false);
                std::string got = sim_stderr().substr(std::min(e0, sim_stderr().size()));
                char head[400];
                snprintf(head, sizeof head, "[%c][%s][%s:%d] ", fatal ? 'F' : letter[lev], tag.c_str(), fn.c_str(), line);
                bool tty = knobs().tty;
                if (!fatal) {
                        if (!q.ok()) V("log-stops", "a log message of level %d stopped the process", lev);
                        std::string want = tty ? std::string(color[lev]) + head + want_msg + "\x1b[0m\n" : head + want_msg + "\n";
                        if (verb > lev || broken) want.clear();
                        if (got != want) V("log-text", "level %d at verbosity %d%s%s gave \"%s\" instead of \"%s\"", lev, verb, tty ? " on a terminal" : "", broken ? " with stderr broken" : "", got.substr(0, 200).c_str(), want.substr(0, 200).c_str());
                        probe(verb > lev ? "suppressed" : "printed");
                        continue;
                }
                probe(custom ? "custom_fatal" : "default_fatal");
                if (q.how != OpResult::EXITED) V("fatal-returns", "a fatal error did not end the process");
                if (custom) {
                        if (g_fatal.calls != 1 || q.code != 42) V("fatal-handler", "the installed handler ran %d times, exit status %d", g_fatal.calls, q.code);
                        if (fn != g_fatal.fn || tag != g_fatal.tag || line != g_fatal.line || want_msg != g_fatal.msg) V("fatal-handler-arguments", "the handler got [%s][%s:%d] \"%s\"", g_fatal.tag, g_fatal.fn, g_fatal.line, g_fatal.msg);
                        if (!got.empty()) V("fatal-handler", "output besides the installed handler: \"%s\"", got.substr(0, 100).c_str());
                } else {
                        if (g_fatal.calls) V("fatal-handler", "a replaced handler ran");
                        if (q.code != FATAL_CODE) V("fatal-exit-code", "exit status %d instead of %d", q.code, FATAL_CODE);
                        std::string want = tty ? std::string("\x1b[35;1m") + head + want_msg + "\x1b[0m\n" : head + want_msg + "\n";
                        if (broken) want.clear();
                        if (got.compare(0, want.size(), want)) V("fatal-text", "\"%s\" instead of \"%s\"", got.substr(0, 200).c_str(), want.substr(0, 200).c_str());
                }
                if (open_files() != opens) V("fatal-leak", "streams");
        }
        run_clean("reset", [&] { nx_log_verbosity(NX_LOG_DEFAULT); nx_log_fatal_func(NULL); });
        hash_bytes(sim_stderr().data(), sim_stderr().size());
}
Reg reg({"C17", run,
         "one run = a history of 1-24 log messages of all levels, fatal errors, verbosity, handler and terminal changes, with stderr refusing output or allocation failing at drawn points, judged byte for byte; "
         "non-trivial = a fault was injected; distinct = different event/outcome sequence",
         50000, 400000});
}
