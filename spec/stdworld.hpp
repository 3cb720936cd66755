// Ghost state for contracts on the std smart pointers (l7_std.cpp, l8_std20.cpp): two control blocks with arbitrary numbers of
// other owners, handles with expected values, the obligations on counts and releases.
#pragma once
#include "ledger.hpp"
#include "xmem_begin.hpp"
#include <xmem/std_helpers.hpp>
#include "xmem_end.hpp"

struct Obj { long v; };
struct Oth { long v; long w; };
// what libstdc++'s pointers and control blocks look like (validated by std_layout)
struct raw { void* p; void* pi; };
static uint32_t& use_of(void* pi) { return *(uint32_t*)((char*)pi + 8); }
static uint32_t& weak_of(void* pi) { return *(uint32_t*)((char*)pi + 12); }

static void* g_pi[2]; static void* g_ob[2]; static uint64_t g_so[2], g_wo[2]; static int g_dels[2]; static int g_expired[2];
static int g_lock_held;
struct Del {
    int k;
    void operator()(void* p) const {
        xs_ghost g; xs_noframe nf;
        xs_check(g_lock_held == 0, "C20|C18: no user code runs while the lock is held");
        xs_check(p == g_ob[k] && g_dels[k] == 0, "C20|C02: the object is released once");
        g_dels[k] = g_dels[k] + 1;
    }
};
struct handle { raw* p; int strong; int live; int known; void* xp; void* xo; };
static const int MAXH = 6;
static handle g_h[MAXH]; static int g_nh;

static void world(int may_expire) {
    g_nh = 0; g_lock_held = 0; ledger_start();
    for (int k = 0; k < 2; ++k) {
        g_ob[k] = xs_region(sizeof(Obj), 8, k ? "object of B" : "object of A");
        std::shared_ptr<Obj> s((Obj*)g_ob[k], Del{k});
        g_pi[k] = ((raw*)&s)->pi;
        xs_require(((raw*)&s)->p == g_ob[k] && use_of(g_pi[k]) == 1 && weak_of(g_pi[k]) == 1, "C20: layout of the standard library's pointers");
        ((raw*)&s)->p = nullptr; ((raw*)&s)->pi = nullptr;
        g_so[k] = xs_nondet(30, k ? "other owners of B" : "other owners of A");
        g_wo[k] = xs_nondet(30, k ? "other weak pointers of B" : "other weak pointers of A");
        g_dels[k] = 0;
        g_expired[k] = may_expire ? xs_choose(2, k ? "B expired" : "A expired") : 0;
    }
}
static int owner_choice(const char* n) { return xs_choose(3, n) - 1; }
template <typename P> P* make(int k, void* p, int strong, const char* n) {
    if (k >= 0 && strong && g_expired[k]) xs_no_path();
    raw* r = (raw*)xs_region(sizeof(P), 8, n);
    r->p = p; r->pi = k < 0 ? nullptr : g_pi[k];
    g_h[g_nh].p = r; g_h[g_nh].strong = strong; g_h[g_nh].live = 1; g_h[g_nh].known = 1; g_h[g_nh].xp = p; g_h[g_nh].xo = r->pi;
    g_nh++;
    return (P*)r;
}
template <typename P> P* room(const char* n) { return (P*)xs_region(sizeof(P), 8, n); }
static int track(void* p, int strong) {
    g_h[g_nh].p = (raw*)p; g_h[g_nh].strong = strong; g_h[g_nh].live = 1; g_h[g_nh].known = 0;
    return g_nh++;
}
static uint64_t mine(int k, int strong) {
    uint64_t n = 0;
    for (int i = 0; i < g_nh; ++i) if (g_h[i].live && g_h[i].strong == strong && g_h[i].p->pi == g_pi[k]) n++;
    return n;
}
static void ready() {
    for (int k = 0; k < 2; ++k) {
        uint64_t s = mine(k, 1), w = mine(k, 0);
        if (g_expired[k]) {
            g_so[k] = 0; g_dels[k] = 1;
            if (w == 0) xs_assume(g_wo[k] != 0);
        }
        else if (s == 0) xs_assume(g_so[k] != 0);
        use_of(g_pi[k]) = uint32_t(g_so[k] + s);
        weak_of(g_pi[k]) = uint32_t(g_wo[k] + w + (g_expired[k] ? 0 : 1));
    }
    xs_frame_begin();
}
static void* blk(int k) { return k < 0 ? nullptr : g_pi[k]; }
static void is(int i, void* xp, int k) { g_h[i].known = 1; g_h[i].xp = xp; g_h[i].xo = blk(k); }
static void settled() {
    xs_frame_end();
    for (int i = 0; i < g_nh; ++i)
        if (g_h[i].live && g_h[i].known) xs_check((g_h[i].p->p == g_h[i].xp) & (g_h[i].p->pi == g_h[i].xo), "C20: pointer and owner of every operand and result");
    for (int k = 0; k < 2; ++k) {
        uint64_t s = g_so[k] + mine(k, 1), w = g_wo[k] + mine(k, 0);
        if (!xs_alive(g_pi[k])) {
            xs_check((s == 0) & (w == 0) & (g_dels[k] == 1), "C20|C03: the control block is freed with the last handle");
            continue;
        }
        xs_check(use_of(g_pi[k]) == s, "C20|C01: the number of owners changes by those gained or lost");
        xs_check(bool(weak_of(g_pi[k]) == w + 1) | (bool(weak_of(g_pi[k]) == w) & (s == 0)), "C20|C03: the number of weak pointers changes by those gained or lost");
        xs_check((g_dels[k] == 1) == (s == 0), "C20|C02: the object is released exactly with its last owner");
    }
}
template <typename X> X* any_ptr(const char* n) { return (X*)xs_nondet_ptr(n); }

