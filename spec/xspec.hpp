// Contract language of xvc.  A contract is an ordinary C++ function
//     CONTRACT(name, "C01 C02") { requires; frame; call of the real code; ensures }
// compiled together with /repo's headers on every run.  The xs_* functions are intrinsics of the
// verifier (xvc/engine.py); with -DXS_NATIVE the same file is an executable that replays one
// counterexample against the real code under address and undefined-behaviour sanitizers.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <utility>
#include <atomic>
#include <new>
#include <ostream>
#include <type_traits>
#include <functional>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <algorithm>

extern "C" {
// ---- inputs: one fresh value / one finite choice per call, all of them explored
uint64_t xs_nondet(int bits, const char* name);
void* xs_nondet_ptr(const char* name);
int xs_choose(int n, const char* name);
// ---- logic
void xs_assume(bool c);
void xs_check(bool c, const char* label);      // obligation; a failed one is reported, the path goes on
void xs_require(bool c, const char* label);    // obligation; a failed one ends the path
void xs_stop();                                // ends the path (after a failed obligation)
void xs_no_path();                             // this combination of inputs is not a legal pre-state
void xs_cover(const char* label);
bool xs_decide(bool c);                        // case split
uint64_t xs_ite(bool c, uint64_t a, uint64_t b);
// ---- memory objects with identity and lifetime
void* xs_region(uint64_t size, uint64_t align, const char* name);
void xs_kill(const void* p);
bool xs_alive(const void* p);
bool xs_is_object(const void* p, uint64_t size);
bool xs_same_object(const void* p, const void* q);
uint64_t xs_obj_size(const void* p);
uint64_t xs_obj_align(const void* p);
bool xs_aligned(const void* p, uint64_t al);
bool xs_same_bytes(const void* p, const void* q, uint64_t n);
bool xs_filled(const void* p, int byte);
bool xs_uninit(const void* p, uint64_t n);
void xs_heap_set(void* p, int form);
int xs_heap_form(const void* p);
// ---- modes
int xs_mode(int lib);                          // 1: code under contract runs, 0: ghost code, 2: code under contract, loops run as they are
void xs_loop_value(const uint64_t* v);         // loops may be bounded by this value (a hint: invariants over it are tried, and used only when proved)
void xs_through(int on);                       // progress: a path does not end with the arbitrary iteration of a loop but goes on from there
int xs_headed();                               // loops whose arbitrary iteration this path has begun
void xs_frame_begin();                         // from here on only allowed memory may be written
void xs_frame_allow(const void* p, uint64_t n);
int xs_frame_on(int on);
void xs_frame_end();
void xs_share(const void* p, uint64_t n, uint64_t tag);   // accessed by other threads
void xs_unshare();
void xs_trace(const char* s, ...);

// ---- hooks a contract file may define
void xs_atomic_pre(void* p, uint64_t size, uint64_t tag);                      // rely: other threads act
void xs_atomic_post(void* p, int kind, uint64_t old, uint64_t now, int order, uint64_t tag);
void xs_plain_access(void* p, uint64_t size, int write, uint64_t tag);
void xs_fence(int order);
void* xs_model_new(uint64_t size, uint64_t align, int form);
void xs_model_delete(void* p, uint64_t align, int form);
void* xs_model_dynamic_cast(void* p, void* dst_type);
void* xs_model_ostream(void* os, const void* p);
void* xs_model_ostream_other(void* os);
}
// atomic event kinds: 0 load, 1 store, 2 successful exchange, 3 failed exchange, 4 read-modify-write
// orders (LLVM): 2 relaxed, 4 acquire, 5 release, 6 acq_rel, 7 seq_cst
inline bool xs_acq(int o) { return o == 4 || o == 6 || o == 7; }
inline bool xs_rel(int o) { return o == 5 || o == 6 || o == 7; }

struct xs_lib { int o; xs_lib() noexcept : o(xs_mode(1)) {} ~xs_lib() { xs_mode(o); } };
struct xs_ghost { int o; xs_ghost() noexcept : o(xs_mode(0)) {} ~xs_ghost() { xs_mode(o); } };
struct xs_noframe { int o; xs_noframe() noexcept : o(xs_frame_on(0)) {} ~xs_noframe() { xs_frame_on(o); } };

#define XS_CAT2(a, b) a##b
#define XS_CAT(a, b) XS_CAT2(a, b)
// props: the properties the contract serves; text: what it states (for reports)
#ifdef XS_NATIVE
#define XS_C_1(name, props, text) extern "C" void xc_##name()
#else
#define XS_C_1(name, props, text) \
    extern "C" { __attribute__((used)) extern const char xm_##name[] = props "|" text; } \
    extern "C" __attribute__((used)) void xc_##name()
#endif
#ifdef XS_ONLY
// -DXS_ONLY -DXS_SEL_<name>=~,1: only the contracts selected (used when the file does not compile)
#define XS_2ND(a, b, ...) b
#define XS_IS_(...) XS_2ND(__VA_ARGS__, 0, 0)
#define XS_IS(...) XS_IS_(__VA_ARGS__)
#define XS_C_0(name, props, text) template <int> void xd_##name()
#define CONTRACT(name, props, text) XS_CAT(XS_C_, XS_IS(XS_SEL_##name))(name, props, text)
#else
#define CONTRACT(name, props, text) XS_C_1(name, props, text)
#endif

#ifdef XS_NATIVE
#include "xsnative.hpp"
// the cells are other threads' now: touching them ends the replay
inline void xs_theirs(const void* p, uint64_t n, bool on) { if (on) ASAN_POISON_MEMORY_REGION(p, n); else ASAN_UNPOISON_MEMORY_REGION(p, n); }
#else
inline void xs_theirs(const void*, uint64_t, bool) {}
#endif
