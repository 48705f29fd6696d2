#ifndef SIM_UTIL_H
#define SIM_UTIL_H
#include "core.h"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <string>
#include <vector>
#include "virg/nexus/nx_types.h"
#include "virg/nexus/nx_log.h"

using namespace sim;

enum { FATAL_CODE = NX_EXIT_FATAL };
static const std::vector<Kind> WRITE_FAULTS = {K_OPEN_FAIL, K_WRITE_EIO, K_WRITE_ENOSPC, K_CLOSE_FAIL};
static const std::vector<Kind> READ_FAULTS = {K_OPEN_FAIL, K_READ_EIO};

// A fatal stop is the documented failure mode of the x-functions: exit status
// -99 after a diagnostic on stderr. Anything else is not an orderly failure.
static inline void expect_orderly_fatal(const OpResult& r, const char* what, size_t stderr_before) {
        if (r.how != OpResult::EXITED) return;
        if (r.code != FATAL_CODE) V((std::string("wrong-exit-code@") + what).c_str(), "%s exited with %d, not %d", what, r.code, FATAL_CODE);
        if (sim_stderr().size() <= stderr_before) V((std::string("silent-fatal@") + what).c_str(), "%s stopped the process without a diagnostic", what);
}
static inline std::string hexdump(const void* p, size_t n, size_t max = 48) {
        std::string s;
        char b[4];
        for (size_t i = 0; i < n && i < max; ++i) { snprintf(b, sizeof b, "%02x", ((const unsigned char*)p)[i]); s += b; }
        if (n > max) s += "..";
        return s;
}
static inline std::string rand_text(Rng& r, size_t n, int flavour) {
        std::string s;
        for (size_t i = 0; i < n; ++i) {
                switch (flavour) {
                case 0: s += (char)('a' + r.below(26)); break;
                case 1: s += " \t,\"'\\/:;#-+.0129eEnNuUabcXYZ"[r.below(29)]; break;
                case 2: { static const char m[] = "\n\r\t\b\f\"\\ ab"; s += m[r.below(sizeof m - 1)]; break; }
                default: s += (char)(1 + r.below(255)); break;
                }
        }
        return s;
}
#endif
