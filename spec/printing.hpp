// stream insertion: recorded by the verifier, compared as text in a native replay
#pragma once
#include "xspec.hpp"
#ifdef XS_NATIVE
#include <sstream>
static std::ostringstream g_oss;
static std::ostream* print_stream() { return &g_oss; }
static bool printed(std::ostream& r, const void* p) {
    std::ostringstream e; e << p;
    bool ok = &r == &g_oss && g_oss.str() == e.str();
    g_oss.str(""); return ok;
}
#else
static int g_out; static const void* g_out_p; static void* g_out_s;
extern "C" void* xs_model_ostream(void* os, const void* p) { xs_ghost g; g_out++; g_out_p = p; g_out_s = os; return os; }
extern "C" void* xs_model_ostream_other(void* os) { xs_ghost g; g_out += 100; return os; }
static std::ostream* print_stream() { return (std::ostream*)xs_region(64, 16, "stream"); }
static bool printed(std::ostream& r, const void* p) {
    bool ok = (g_out == 1) & (g_out_p == p) & (g_out_s == &r);
    g_out = 0; return ok;
}
#endif
