// Native runtime of the contract language: replays one recorded counterexample against the real code.
// usage: <binary> <contract> <tape file>; tape lines: kind<TAB>name<TAB>value
// exit: 0 nothing failed, 1 an obligation failed (or the sanitizer stopped the program), 3 the run
// does not follow the tape
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <dlfcn.h>
#include <sanitizer/asan_interface.h>
#include <iostream>

namespace xsn {
struct reg { char* p; uint64_t size, align; int alive, heap, form; const char* name; uint64_t mark; };
inline const int MAXREG = 4096;
inline reg g_reg[MAXREG]; inline int g_nreg;
struct ent { char kind; char name[120]; uint64_t v; };
inline ent* g_tape; inline int g_ntape, g_pos;
inline int g_failed, g_lib, g_armed;
struct share { const char* p; uint64_t n, tag; };
inline share g_share[16]; inline int g_nshare;
struct allow { const char* p; uint64_t n; };
inline allow g_allow[64]; inline int g_nallow;
inline int g_frame, g_frame_mark;
inline unsigned char* g_snap[MAXREG];

[[noreturn]] inline void quit(int c) { fflush(stdout); _Exit(c); }
[[noreturn]] inline void diverged(const char* why) {
    printf("DIVERGED %s\n", why);
    quit(g_failed ? 1 : 3);
}
inline uint64_t next(char kind, const char* name) {
    if (g_pos >= g_ntape) diverged("end of tape");
    ent& e = g_tape[g_pos++];
    if (e.kind != kind || strncmp(e.name, name, sizeof(e.name) - 1)) { printf("tape: %c %s, program: %c %s\n", e.kind, e.name, kind, name); diverged("different input"); }
    return e.v;
}
inline reg* find(const void* q) {
    auto p = (const char*)q;
    for (int i = g_nreg - 1; i >= 0; --i) if (g_reg[i].p <= p && p < g_reg[i].p + (g_reg[i].size ? g_reg[i].size : 1)) return &g_reg[i];
    return nullptr;
}
inline void fail(const char* l) { printf("FAILED %s\n", l); fflush(stdout); g_failed = 1; }
__attribute__((no_sanitize("address"))) inline void snap() {
    if (!g_frame) return;
    for (int i = 0; i < g_frame_mark; ++i) {
        if (!g_reg[i].alive || g_reg[i].size > 65536) continue;
        if (!g_snap[i]) g_snap[i] = (unsigned char*)malloc(g_reg[i].size + 1);
        for (uint64_t k = 0; k < g_reg[i].size; ++k) g_snap[i][k] = (unsigned char)g_reg[i].p[k];
    }
}
__attribute__((no_sanitize("address"))) inline void compare() {
    if (!g_frame) return;
    for (int i = 0; i < g_frame_mark; ++i) {
        if (!g_reg[i].alive || !g_snap[i] || g_reg[i].size > 65536) continue;
        for (uint64_t k = 0; k < g_reg[i].size; ++k) {
            if (g_snap[i][k] == (unsigned char)g_reg[i].p[k]) continue;
            const char* a = g_reg[i].p + k; bool ok = false;
            for (int j = 0; j < g_nallow; ++j) if (g_allow[j].p <= a && a < g_allow[j].p + g_allow[j].n) ok = true;
            if (!ok) { printf("writes %s\n", g_reg[i].name); fail("safety:frame"); return; }
        }
    }
}
inline bool shared(const void* p, uint64_t& tag) {
    if (!g_lib) return false;
    for (int i = 0; i < g_nshare; ++i) if (g_share[i].p <= (const char*)p && (const char*)p < g_share[i].p + g_share[i].n) { tag = g_share[i].tag; return true; }
    return false;
}
inline int order(std::memory_order o) {
    switch (o) { case std::memory_order_relaxed: return 2; case std::memory_order_consume: case std::memory_order_acquire: return 4;
        case std::memory_order_release: return 5; case std::memory_order_acq_rel: return 6; default: return 7; }
}
}

extern "C" {
__attribute__((weak)) void xs_atomic_pre(void* p, uint64_t size, uint64_t tag);
__attribute__((weak)) void xs_atomic_post(void* p, int kind, uint64_t old, uint64_t now, int order, uint64_t tag);
__attribute__((weak)) void xs_fence(int order);
__attribute__((weak)) void* xs_model_new(uint64_t size, uint64_t align, int form);
__attribute__((weak)) void xs_model_delete(void* p, uint64_t align, int form);
__attribute__((weak)) void* xs_model_dynamic_cast(void* p, void* dst_type);
__attribute__((weak)) void* xs_model_ostream(void* os, const void* p);

uint64_t xs_nondet(int, const char* n) { return xsn::next('n', n); }
void* xs_nondet_ptr(const char* n) { return (void*)xsn::next('p', n); }
int xs_choose(int, const char* n) { return int(xsn::next('c', n)); }
void xs_assume(bool c) { if (!c) xsn::diverged("assumption"); }
void xs_check(bool c, const char* l) { if (!c) xsn::fail(l); }
void xs_require(bool c, const char* l) { if (!c) { xsn::fail(l); xsn::quit(1); } }
void xs_stop() { xsn::quit(xsn::g_failed ? 1 : 3); }
void xs_no_path() { xsn::diverged("not a legal pre-state"); }
void xs_cover(const char*) {}
bool xs_decide(bool c) { return c; }
uint64_t xs_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
int xs_mode(int lib) {
    int o = xsn::g_lib;
    if (o && !lib) xsn::compare();
    xsn::g_lib = lib;
    if (!o && lib) xsn::snap();
    return o;
}
void* xs_region(uint64_t size, uint64_t align, const char* name) {
    if (size > (1u << 28)) xsn::diverged("object too large");
    if (align < 16) align = 16;
    int a = xsn::g_armed; xsn::g_armed = 0;
    void* p = nullptr;
    if (posix_memalign(&p, align, size ? size : 1)) xsn::diverged("memory");
    xsn::g_armed = a;
    memset(p, 0xCD, size);
    if (xsn::g_nreg >= xsn::MAXREG) xsn::diverged("too many objects");
    xsn::reg& r = xsn::g_reg[xsn::g_nreg++];
    r.p = (char*)p; r.size = size; r.align = align; r.alive = 1; r.heap = 0; r.form = 0; r.name = name;
    return p;
}
void xs_kill(const void* p) {
    xsn::reg* r = xsn::find(p);
    if (!r) return;
    r->alive = 0;
    ASAN_POISON_MEMORY_REGION(r->p, r->size);
}
bool xs_alive(const void* p) { xsn::reg* r = xsn::find(p); return r && r->alive; }
bool xs_is_object(const void* p, uint64_t n) {
    xsn::reg* r = xsn::find(p);
    if (r) return r->alive && (const char*)p + n <= r->p + r->size;
    return (uint64_t)p > 65536 && !__asan_address_is_poisoned((const char*)p);
}
bool xs_same_object(const void* p, const void* q) { xsn::reg* r = xsn::find(p); return r ? r == xsn::find(q) : p == q; }
uint64_t xs_obj_size(const void* p) { xsn::reg* r = xsn::find(p); return r ? r->size : 0; }
uint64_t xs_obj_align(const void* p) { xsn::reg* r = xsn::find(p); return r ? r->align : 0; }
bool xs_aligned(const void* p, uint64_t al) { return ((uint64_t)p & (al - 1)) == 0; }
bool xs_same_bytes(const void* p, const void* q, uint64_t n) { return memcmp(p, q, n) == 0; }
bool xs_filled(const void* p, int b) {
    xsn::reg* r = xsn::find(p);
    if (!r) return false;
    for (uint64_t i = 0; i < r->size; ++i) if ((unsigned char)r->p[i] != b) return false;
    return true;
}
bool xs_uninit(const void* p, uint64_t n) { for (uint64_t i = 0; i < n; ++i) if (((const unsigned char*)p)[i] != 0xCD) return false; return true; }
void xs_heap_set(void* p, int form) { if (auto r = xsn::find(p)) { r->heap = 1; r->form = form; } }
int xs_heap_form(const void* p) { auto r = xsn::find(p); return r && r->heap && r->alive && r->p == p ? r->form : 0xFFFF; }
void xs_frame_begin() { xsn::g_frame = 1; xsn::g_frame_mark = xsn::g_nreg; xsn::g_nallow = 0; }
void xs_frame_allow(const void* p, uint64_t n) { xsn::g_allow[xsn::g_nallow].p = (const char*)p; xsn::g_allow[xsn::g_nallow++].n = n; }
void xs_loop_value(const uint64_t*) {}
void xs_through(int) {}
int xs_headed() { return 0; }
int xs_frame_on(int on) { int o = xsn::g_frame; xsn::g_frame = on; return o; }
void xs_frame_end() { xsn::g_frame = 0; xsn::g_nallow = 0; }
void xs_share(const void* p, uint64_t n, uint64_t tag) { auto& s = xsn::g_share[xsn::g_nshare++]; s.p = (const char*)p; s.n = n; s.tag = tag; }
void xs_unshare() { xsn::g_nshare = 0; }
void xs_trace(const char*, ...) {}

// calls the verifier models
void* __dynamic_cast(const void* p, const void*, const void* dst, long) {
    if (!xs_model_dynamic_cast) xsn::diverged("dynamic_cast");
    return xs_model_dynamic_cast((void*)p, (void*)dst);
}
}

// ---- instrumented atomics
namespace std {
template <typename T> struct xs_atomic {
    T v;
    using value_type = T;
    constexpr xs_atomic() noexcept : v() {}
    constexpr xs_atomic(T x) noexcept : v(x) {}
    xs_atomic(const xs_atomic&) = delete;
    xs_atomic& operator=(const xs_atomic&) = delete;
    static uint64_t w(T x) { uint64_t r = 0; memcpy(&r, &x, sizeof(T)); return r; }
    void pre(bool& s, uint64_t& t) const { s = xsn::shared(&v, t); if (s) { int o = xs_mode(0); if (xs_atomic_pre) xs_atomic_pre((void*)&v, sizeof(T), t); xs_mode(o); } }
    void post(bool s, uint64_t t, int k, T a, T b, memory_order m) const { if (s && xs_atomic_post) { int o = xs_mode(0); xs_atomic_post((void*)&v, k, w(a), w(b), xsn::order(m), t); xs_mode(o); } }
    T load(memory_order m = memory_order_seq_cst) const noexcept { bool s; uint64_t t = 0; pre(s, t); T x = v; post(s, t, 0, x, x, m); return x; }
    operator T() const noexcept { return load(); }
    void store(T x, memory_order m = memory_order_seq_cst) noexcept { bool s; uint64_t t = 0; pre(s, t); T o = v; v = x; post(s, t, 1, o, x, m); }
    T operator=(T x) noexcept { store(x); return x; }
    template <typename F> T rmw(F f, memory_order m) noexcept { bool s; uint64_t t = 0; pre(s, t); T o = v; v = f(o); T n = v; post(s, t, 4, o, n, m); return o; }
    T exchange(T x, memory_order m = memory_order_seq_cst) noexcept { return rmw([=](T) { return x; }, m); }
    T fetch_add(T x, memory_order m = memory_order_seq_cst) noexcept { return rmw([=](T o) { return T(o + x); }, m); }
    T fetch_sub(T x, memory_order m = memory_order_seq_cst) noexcept { return rmw([=](T o) { return T(o - x); }, m); }
    T fetch_and(T x, memory_order m = memory_order_seq_cst) noexcept { return rmw([=](T o) { return T(o & x); }, m); }
    T fetch_or(T x, memory_order m = memory_order_seq_cst) noexcept { return rmw([=](T o) { return T(o | x); }, m); }
    T fetch_xor(T x, memory_order m = memory_order_seq_cst) noexcept { return rmw([=](T o) { return T(o ^ x); }, m); }
    T operator++() noexcept { return T(fetch_add(1) + 1); }
    T operator--() noexcept { return T(fetch_sub(1) - 1); }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--(int) noexcept { return fetch_sub(1); }
    T operator+=(T x) noexcept { return T(fetch_add(x) + x); }
    T operator-=(T x) noexcept { return T(fetch_sub(x) - x); }
    static memory_order fo(memory_order m) { return m == memory_order_acq_rel ? memory_order_acquire : m == memory_order_release ? memory_order_relaxed : m; }
    bool cas(T& e, T x, memory_order m, memory_order f, bool weak) noexcept {
        bool s; uint64_t t = 0; pre(s, t);
        T o = v; bool ok = memcmp(&o, &e, sizeof(T)) == 0;
        if (ok && weak && s && xsn::g_lib != 2) ok = xsn::next('c', "spurious") == 0;
        if (ok) v = x; else e = o;
        post(s, t, ok ? 2 : 3, o, ok ? x : o, ok ? m : f);
        return ok;
    }
    bool compare_exchange_weak(T& e, T x, memory_order m, memory_order f) noexcept { return cas(e, x, m, f, true); }
    bool compare_exchange_strong(T& e, T x, memory_order m, memory_order f) noexcept { return cas(e, x, m, f, false); }
    bool compare_exchange_weak(T& e, T x, memory_order m = memory_order_seq_cst) noexcept { return cas(e, x, m, fo(m), true); }
    bool compare_exchange_strong(T& e, T x, memory_order m = memory_order_seq_cst) noexcept { return cas(e, x, m, fo(m), false); }
    static constexpr bool is_always_lock_free = true;
    bool is_lock_free() const noexcept { return true; }
};
#if __cplusplus >= 202000L && defined(__cpp_lib_atomic_shared_ptr)
// the library's own; other threads act between its operations
template <typename T> struct xs_atomic<shared_ptr<T>> {
    using P = shared_ptr<T>; using value_type = P;
    atomic<P> a;
    constexpr xs_atomic() noexcept = default;
    xs_atomic(P x) noexcept : a(std::move(x)) {}
    xs_atomic(const xs_atomic&) = delete;
    xs_atomic& operator=(const xs_atomic&) = delete;
    void* w() const { return (char*)this + sizeof(void*); }
    struct step {
        const xs_atomic& x; bool s; uint64_t t = 0; int o;
        step(const xs_atomic& x) : x(x), s(xsn::shared(&x, t)) {
            o = xs_mode(0);
            if (s && xs_atomic_pre) { xs_atomic_pre(x.w(), 8, t); if (xs_atomic_post) xs_atomic_post(x.w(), 2, 0, 1, 7, t); }
        }
        ~step() { if (s && xs_atomic_post) xs_atomic_post(x.w(), 4, 1, 0, 7, t); xs_mode(o); }
    };
    P load(memory_order m = memory_order_seq_cst) const noexcept { step _s(*this); return a.load(m); }
    operator P() const noexcept { return load(); }
    void store(P x, memory_order m = memory_order_seq_cst) noexcept { exchange(std::move(x), m); }
    void operator=(P x) noexcept { store(std::move(x)); }
    P exchange(P x, memory_order m = memory_order_seq_cst) noexcept { step _s(*this); return a.exchange(std::move(x), m); }
    bool compare_exchange_strong(P& e, P x, memory_order m, memory_order f) noexcept { P old = e; bool r; { step _s(*this); r = a.compare_exchange_strong(e, x, m, f); } return r; }
    bool compare_exchange_strong(P& e, P x, memory_order m = memory_order_seq_cst) noexcept { return compare_exchange_strong(e, std::move(x), m, fo(m)); }
    bool compare_exchange_weak(P& e, P x, memory_order m, memory_order f) noexcept { return compare_exchange_strong(e, std::move(x), m, f); }
    bool compare_exchange_weak(P& e, P x, memory_order m = memory_order_seq_cst) noexcept { return compare_exchange_strong(e, std::move(x), m, fo(m)); }
    static memory_order fo(memory_order m) { return m == memory_order_acq_rel ? memory_order_acquire : m == memory_order_release ? memory_order_relaxed : m; }
    static constexpr bool is_always_lock_free = false;
    bool is_lock_free() const noexcept { return false; }
};
#endif
struct xs_atomic_flag {
    xs_atomic<bool> v;
    constexpr xs_atomic_flag() noexcept : v(false) {}
    bool test_and_set(memory_order m = memory_order_seq_cst) noexcept { return v.exchange(true, m); }
    void clear(memory_order m = memory_order_seq_cst) noexcept { v.store(false, m); }
    bool test(memory_order m = memory_order_seq_cst) const noexcept { return v.load(m); }
};
using xs_atomic_u32 = xs_atomic<uint32_t>;
using xs_atomic_u64 = xs_atomic<uint64_t>;
using xs_atomic_i32 = xs_atomic<int>;
using xs_atomic_bool = xs_atomic<bool>;
inline void xs_atomic_fence(memory_order m) noexcept { if (xsn::g_lib && xs_fence) { int o = xs_mode(0); xs_fence(xsn::order(m)); xs_mode(o); } }
}

// ---- global allocation functions
namespace xsn {
inline void* nw(uint64_t n, uint64_t al, int form) {
    if (g_armed && xs_model_new) return xs_model_new(n, al, form);
    void* p = nullptr;
    if (posix_memalign(&p, al < 16 ? 16 : al, n ? n : 1)) abort();
    return p;
}
inline void dl(void* p, uint64_t al, int form) {
    if (g_armed && xs_model_delete) { xs_model_delete(p, al, form); return; }
    if (p && !find(p)) free(p);
}
}
void* operator new(size_t n) { return xsn::nw(n, 16, 0); }
void* operator new[](size_t n) { return xsn::nw(n, 16, 2); }
void* operator new(size_t n, std::align_val_t a) { return xsn::nw(n, uint64_t(a), 1); }
void* operator new[](size_t n, std::align_val_t a) { return xsn::nw(n, uint64_t(a), 3); }
void operator delete(void* p) noexcept { xsn::dl(p, 16, 0); }
void operator delete[](void* p) noexcept { xsn::dl(p, 16, 2); }
void operator delete(void* p, size_t) noexcept { xsn::dl(p, 16, 0); }
void operator delete[](void* p, size_t) noexcept { xsn::dl(p, 16, 2); }
void operator delete(void* p, std::align_val_t a) noexcept { xsn::dl(p, uint64_t(a), 1); }
void operator delete[](void* p, std::align_val_t a) noexcept { xsn::dl(p, uint64_t(a), 3); }
void operator delete(void* p, size_t, std::align_val_t a) noexcept { xsn::dl(p, uint64_t(a), 1); }
void operator delete[](void* p, size_t, std::align_val_t a) noexcept { xsn::dl(p, uint64_t(a), 3); }

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    char fn[200]; snprintf(fn, sizeof fn, "xc_%s", argv[1]);
    auto f = (void (*)())dlsym(nullptr, fn);
    if (!f) { printf("no contract %s\n", argv[1]); return 2; }
    FILE* in = fopen(argv[2], "r");
    if (!in) return 2;
    xsn::g_tape = (xsn::ent*)calloc(65536, sizeof(xsn::ent));
    char line[400];
    while (fgets(line, sizeof line, in) && xsn::g_ntape < 65536) {
        char* a = strchr(line, '\t'); if (!a) continue;
        char* b = strrchr(line, '\t'); if (b == a) continue;
        *a = *b = 0;
        auto& e = xsn::g_tape[xsn::g_ntape++];
        e.kind = line[0]; snprintf(e.name, sizeof e.name, "%s", a + 1); e.v = strtoull(b + 1, nullptr, 10);
    }
    fclose(in);
    std::set_terminate([] { printf("FAILED safety:terminate\n"); xsn::quit(1); });
    xsn::g_armed = 1;
    try { f(); }
    catch (...) { xsn::g_armed = 0; xsn::fail("C11: no exception leaves the contract"); }
    xsn::g_armed = 0;
    printf(xsn::g_failed ? "REPRODUCED\n" : "NOT REPRODUCED\n");
    xsn::quit(xsn::g_failed ? 1 : 0);
}
