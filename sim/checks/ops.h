#ifndef SIM_OPS_H
#define SIM_OPS_H
// Registry of whole-API operations: each creates, uses and frees everything it
// needs through the public interface and records what it observed.
#include "util.h"

struct Dig {
        std::vector<uint64_t> seq;      // observations, in order
        bool failed = false;            // the library reported a failure to the caller
        void add(const void* p, size_t n) { seq.push_back(fnv(p, n)); }
        void num(uint64_t v) { seq.push_back(v * 0x9E3779B97F4A7C15ull + 1); }
        void f(double v) { uint64_t u; memcpy(&u, &v, 8); num(u); }
        void str(const char* s) { if (s) add(s, strlen(s)); else num(0xdead); }
        void fail() { failed = true; }
        void clear() { seq.clear(); failed = false; }
};
struct ApiOp {
        const char* name;
        void (*prep)(Rng& r);           // harness side: files the op reads (may be null)
        void (*fn)(Rng& r, Dig& d);     // library side
};
const std::vector<ApiOp>& api_ops();
void reset_library_globals();           // inside an op
#endif
