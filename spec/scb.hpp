// The control block contract as an executable ghost model, and the universe of handles.
// Handle contracts are verified against this block (any block that keeps the contract);
// l1_control_block.cpp verifies that xmem's own block keeps it.
#pragma once
#include "xspec.hpp"
#include "xmem_begin.hpp"
#include <xmem/common_control_block.hpp>
#include <xmem/basic_shared_ptr.hpp>
#include <xmem/basic_weak_ptr.hpp>
#include <xmem/basic_shared_from.hpp>
#include "xmem_end.hpp"

static const int MAXR = 10;     // addresses registered with one block at a time (checked)
static int g_setup;             // ghost code builds a pre-state: hooks record, nothing is checked
static int g_interf;            // other threads change the number of other owners between hooks
static int g_added;             // references added by hooks of the operation
static int g_quiet;             // no reports (ghost inspection)

struct registry {
    const void* a[MAXR]; int n;
    int find(const void* p) const { for (int i = 0; i < n; ++i) if (a[i] == p) return i; return -1; }
    void add(const void* p) {
        if (n >= MAXR) { xs_check(false, "C07: registered addresses are withdrawn again"); xs_stop(); }
        a[n] = p; n = n + 1;
    }
    void del(int i) { n = n - 1; a[i] = a[n]; a[n] = nullptr; }
};

struct scb;
static void user_code(scb* cb);

struct scb {
    int id;
    int fresh;          // its one owner has not been announced yet
    int expired;        // no strong owner any more, object destroyed
    int implicit;       // the strong owners' common weak reference
    int freed;
    int s_mine, w_mine; // owners / weak handles of this thread
    uint64_t s_others, w_others;
    int n_dres, n_dself;
    int s_hooks, w_hooks;     // hook calls received during the operation
    long last_count; int n_counts;
    registry s, w;

    scb() noexcept {
        xs_ghost g;
        id = 0; fresh = 1; expired = 0; implicit = 1; freed = 0; s_mine = 1; w_mine = 0;
        s_others = 0; w_others = 0; n_dres = n_dself = 0; s_hooks = w_hooks = 0; last_count = 0; n_counts = 0;
        s.n = w.n = 0;
    }
    void interfere() noexcept {
        if (!g_interf || g_setup) return;
        w_others = xs_nondet(31, "other weak handles now");
        if (expired) return;
        s_others = xs_nondet(31, "other strong owners now");
        if (s_mine == 0 && xs_decide(s_others == 0)) { expired = 1; implicit = 0; }
    }
    uint64_t strong() const noexcept { return s_others + uint64_t(s_mine); }
    bool no_strong() noexcept { return s_mine == 0 && xs_decide(s_others == 0); }

    void init_strong(const void* p) noexcept {
        xs_ghost g;
        if (g_setup) { if (fresh) fresh = 0; else s_mine++; s.add(p); return; }
        s_hooks++;
        xs_check(fresh == 1, "C07: init_strong is called once, for the first owner");
        fresh = 0;
        s.add(p);
    }
    void inc_strong_ref(const void* p) noexcept {
        xs_ghost g;
        if (g_setup) { s_mine++; s.add(p); return; }
        interfere();
        s_hooks++; g_added++;
        xs_check(!fresh, "C07: the first owner is announced before others");
        xs_check(!expired && !no_strong(), "C01|C02|C04: an owner is added only while there is one");
        xs_check(s.find(p) < 0, "C07: an owner is announced once");
        s_mine++;
        s.add(p);
    }
    bool inc_strong_ref_nz(const void* p) noexcept {
        xs_ghost g;
        if (g_setup) { s_mine++; s.add(p); return true; }
        interfere();
        s_hooks++;
        if (expired || no_strong()) { last_count = 0; n_counts++; return false; }
        last_count = 1; n_counts++;
        xs_check(s.find(p) < 0, "C07: an owner is announced once");
        s_mine++;
        s.add(p);
        return true;
    }
    void dec_strong_ref(const void* p) noexcept {
        xs_ghost g;
        int i = s.find(p);
        if (g_setup) { s_mine--; if (i >= 0) s.del(i); return; }
        interfere();
        s_hooks++;
        xs_check(i >= 0, "C07: only an announced owner is withdrawn, under its own address");
        if (i >= 0) s.del(i);
        xs_require(s_mine > 0 && !expired, "C01|C02: only an owner gives up ownership");
        s_mine--;
        if (no_strong()) {
            expired = 1;
            n_dres++;
            destroy_resource();
            implicit = 0;
            maybe_free();
        }
    }
    long strong_ref_count() const noexcept {
        xs_ghost g;
        auto self = const_cast<scb*>(this);
        self->interfere();
        self->last_count = expired ? 0 : long(strong()); self->n_counts++;
        return last_count;
    }
    void transfer_strong(const void* to, const void* from) noexcept {
        xs_ghost g;
        int i = s.find(from);
        if (!g_setup) {
            s_hooks++;
            xs_check(i >= 0, "C07: ownership is transferred from an announced owner");
            xs_check(s.find(to) < 0, "C07: ownership is transferred to an address that is not an owner yet");
        }
        if (i >= 0) s.a[i] = to; else s.add(to);
    }
    void inc_weak_ref(const void* p) noexcept {
        xs_ghost g;
        if (g_setup) { w_mine++; w.add(p); return; }
        interfere();
        w_hooks++; g_added++;
        xs_check(w.find(p) < 0, "C07: a weak handle is announced once");
        w_mine++;
        w.add(p);
    }
    void dec_weak_ref(const void* p) noexcept {
        xs_ghost g;
        int i = w.find(p);
        if (g_setup) { w_mine--; if (i >= 0) w.del(i); return; }
        interfere();
        w_hooks++;
        xs_check(i >= 0, "C07: only an announced weak handle is withdrawn, under its own address");
        if (i >= 0) w.del(i);
        xs_require(w_mine > 0, "C03: only a weak handle gives up a weak reference");
        w_mine--;
        maybe_free();
    }
    void transfer_weak(const void* to, const void* from) noexcept {
        xs_ghost g;
        int i = w.find(from);
        if (!g_setup) {
            w_hooks++;
            xs_check(i >= 0, "C07: a weak reference is transferred from an announced handle");
            xs_check(w.find(to) < 0, "C07: a weak reference is transferred to an address that is not a handle yet");
        }
        if (i >= 0) w.a[i] = to; else w.add(to);
    }
    void maybe_free() noexcept {
        if (implicit || w_mine > 0) return;
        if (!xs_decide(w_others == 0)) return;
        freed = 1; n_dself++;
        destroy_self();
    }
    virtual void destroy_resource() noexcept { user_code(this); }
    virtual void destroy_self() noexcept { xs_kill(this); }
};

using CBF = xmem::control_block_factory<scb>;
template <typename T> using SP = xmem::basic_shared_ptr<CBF, T>;
template <typename T> using WP = xmem::basic_weak_ptr<CBF, T>;
template <typename T> using pair_of = typename SP<T>::cb_ptr_pair_type;

// ---------------------------------------------------------------- handles
struct handle {
    void* p; int strong; int live; int home; int* ctr;
    const void* (*owner)(const void*);
    void (*destroy)(void*);
    const void* xo; const void* xp; int known;   // expected owner and pointer after the operation
    const void* (*get)(const void*);
    bool (*same)(const void*, const void*, const void*);
};
static const int MAXH = 6;
static handle g_h[MAXH]; static int g_nh;
static scb* g_cb[2];               // blocks A and B
static void* g_obj[2];             // storage of the objects they manage: operands may live there
static int g_obj_used[2];
static void (*g_action)();         // what the destroyed object's destructor does with the operands
static int g_acted;
static int g_user;                 // number of times user code ran
static int g_lock_held;

template <typename H> const void* owner_of(const void* p) { return static_cast<const H*>(p)->owner(); }
template <typename H> void destroy_h(void* p) { static_cast<H*>(p)->~H(); }
template <typename T> const void* get_s(const void* p) { return (const void*)static_cast<const SP<T>*>(p)->get(); }
template <typename T> bool same_s(const void* p, const void* o, const void* q) {
    return static_cast<const SP<T>*>(p)->owner() == o && (const void*)static_cast<const SP<T>*>(p)->get() == q;
}
// weak pointers show their pointer only through lock: compare with a freshly built one
template <typename T> bool same_w(const void* p, const void* o, const void* q) {
    auto w = static_cast<const WP<T>*>(p);
    if (w->owner() != o) return false;
    if (!o) return true;
    int s = g_setup; g_setup = 1;
    bool r;
    {
        WP<T> ref(pair_of<T>(const_cast<scb*>(static_cast<const scb*>(o)), (std::remove_extent_t<T>*)const_cast<void*>(q)));
        r = xs_same_bytes(&ref, p, sizeof(ref));
    }
    g_setup = s;
    return r;
}

static void check_registered(const char* l_own, const char* l_cnt) {
    (void)l_cnt;
    for (int k = 0; k < 2; ++k) {
        scb* c = g_cb[k];
        if (!c) continue;
        bool alive = xs_alive(c);
        for (int i = 0; i < g_nh; ++i) {
            if (!g_h[i].live) continue;
            bool owns = g_h[i].owner(g_h[i].p) == c;
            if (!alive) { xs_check(!owns, "C03: no handle refers to a freed control block"); continue; }
            bool reg = (g_h[i].strong ? c->s : c->w).find(g_h[i].p) >= 0;
            xs_check(reg == owns, l_own);
        }
        if (!alive) continue;
        for (int i = 0; i < c->s.n; ++i) xs_check(xs_is_object(c->s.a[i], sizeof(void*)), "C07|C09: a registered owner is a live object");
    }
}
// the visible state whenever control leaves the library
static void visible_state() {
    check_registered("C07|C09: when user code runs, a handle owns a block exactly if it is registered with it", "");
    xs_check(g_lock_held == 0, "C18: no user code runs while the lock is held");
}
static void user_code(scb* cb) {
    xs_noframe nf;
    g_user++;
    visible_state();
    if (g_action && !g_acted) { g_acted = 1; g_action(); }
    // the object goes away, and with it the handles inside
    int k = cb == g_cb[0] ? 0 : cb == g_cb[1] ? 1 : -1;
    if (k < 0 || !g_obj[k]) return;
    for (int i = 0; i < g_nh; ++i) {
        if (g_h[i].live && g_h[i].home == k) {
            g_h[i].live = 0;
            xs_lib l;
            g_h[i].destroy(g_h[i].p);
        }
    }
    xs_kill(g_obj[k]);
    g_obj[k] = nullptr;
}

static void world() {
    g_setup = 1; g_interf = 0; g_nh = 0; g_action = nullptr; g_acted = 0; g_user = 0; g_lock_held = 0;
    for (int k = 0; k < 2; ++k) {
        g_cb[k] = new (xs_region(sizeof(scb), alignof(scb), k ? "control block B" : "control block A")) scb();
        g_cb[k]->id = k; g_cb[k]->fresh = 0; g_cb[k]->s_mine = 0;
        g_cb[k]->s_others = xs_nondet(31, k ? "other strong owners of B" : "other strong owners of A");
        g_cb[k]->w_others = xs_nondet(31, k ? "other weak handles of B" : "other weak handles of A");
        g_obj[k] = xs_region(256, 16, k ? "object of B" : "object of A");
        g_obj_used[k] = 0;
    }
}
// where: 0 outside, 1 inside A's object, 2 inside B's object
static void* place(uint64_t size, int home, const char* name) {
    if (home < 0) return xs_region(size, 8, name);
    void* p = (char*)g_obj[home] + g_obj_used[home];
    g_obj_used[home] += 32;
    return p;
}
template <typename T> struct sref { SP<T>* p; int i; scb* cb; std::remove_extent_t<T>* ptr; SP<T>* operator->() { return p; } SP<T>& operator*() { return *p; } };
template <typename T> struct wref { WP<T>* p; int i; scb* cb; std::remove_extent_t<T>* ptr; WP<T>* operator->() { return p; } WP<T>& operator*() { return *p; } };

static scb* owner_choice(const char* name) {
    int o = xs_choose(3, name);
    return o == 0 ? nullptr : g_cb[o - 1];
}
static int home_choice(const char* name) { return xs_choose(3, name) - 1; }

template <typename T> int track_s(SP<T>* p, int home) {
    handle& h = g_h[g_nh];
    h.p = p; h.strong = 1; h.live = 1; h.home = home; h.owner = owner_of<SP<T>>; h.destroy = destroy_h<SP<T>>;
    h.get = get_s<T>; h.same = same_s<T>; h.known = 0;
    return g_nh++;
}
template <typename T> int track_w(WP<T>* p, int home) {
    handle& h = g_h[g_nh];
    h.p = p; h.strong = 0; h.live = 1; h.home = home; h.owner = owner_of<WP<T>>; h.destroy = destroy_h<WP<T>>;
    h.get = nullptr; h.same = same_w<T>; h.known = 0;
    return g_nh++;
}
template <typename T> sref<T> make_s(scb* cb, std::remove_extent_t<T>* ptr, int home, const char* name) {
    sref<T> r; r.cb = cb; r.ptr = ptr;
    r.p = new (place(sizeof(SP<T>), home, name)) SP<T>(pair_of<T>(cb, ptr));
    r.i = track_s<T>(r.p, home);
    return r;
}
template <typename T> wref<T> make_w(scb* cb, std::remove_extent_t<T>* ptr, int home, const char* name) {
    wref<T> r; r.cb = cb; r.ptr = ptr;
    r.p = new (place(sizeof(WP<T>), home, name)) WP<T>(pair_of<T>(cb, ptr));
    r.i = track_w<T>(r.p, home);
    return r;
}
template <typename T> std::remove_extent_t<T>* any_ptr(const char* n) { return (std::remove_extent_t<T>*)xs_nondet_ptr(n); }

static void expect(int i, const void* owner, const void* ptr) { g_h[i].known = 1; g_h[i].xo = owner; g_h[i].xp = ptr; }

static void transferred() { xs_check(g_added == 0, "C07: ownership that moves from one handle to another is transferred, no reference is added"); }

// the pre-state is complete: which blocks are expired, and is it a legal state?
static void ready(bool interference = false) {
    g_setup = 0; g_added = 0;
    for (int k = 0; k < 2; ++k) {
        scb* c = g_cb[k];
        bool home = false, any = false;
        for (int i = 0; i < g_nh; ++i) {
            if (g_h[i].home == k) home = true;
            if (g_h[i].owner(g_h[i].p) == c) any = true;
        }
        if (c->s_mine == 0 && (any || home) && xs_decide(c->s_others == 0)) {
            if (home) xs_no_path();          // the object an operand lives in exists
            c->expired = 1; c->implicit = 0;
        }
        if (!any && !home) { c->s_others = c->s_others | 1; }
        if (home && interference) xs_no_path();
    }
    g_interf = interference;
    for (int i = 0; i < g_nh; ++i) {
        // unless the contract says otherwise an operand keeps its value
    }
    xs_frame_begin();
}
static void frame(const void* p, uint64_t n) { xs_frame_allow(p, n); }

// strong / weak bookkeeping after the operation, for every block
static void settled() {
    xs_frame_end();
    g_interf = 0;
    check_registered("C07: after the operation a handle owns a block exactly if it is registered with it", "");
    for (int k = 0; k < 2; ++k) {
        scb* c = g_cb[k];
        if (!c || !xs_alive(c)) continue;
        int ks = 0, kw = 0;
        for (int i = 0; i < g_nh; ++i)
            if (g_h[i].live && g_h[i].owner(g_h[i].p) == c) { if (g_h[i].strong) ks++; else kw++; }
        xs_check(c->s_mine == ks, "C01|C02: the strong count changes by exactly the number of owners gained or lost");
        xs_check(c->w_mine == kw, "C03: the weak count changes by exactly the number of weak handles gained or lost");
        xs_check(c->s.n == ks, "C07: no strong registration is left behind or missing");
        xs_check(c->w.n == kw, "C07: no weak registration is left behind or missing");
    }
}
static void values(const char* l) {
    for (int i = 0; i < g_nh; ++i)
        if (g_h[i].live && g_h[i].known) xs_check(g_h[i].same(g_h[i].p, g_h[i].xo, g_h[i].xp), l);
}
// use_count of a live shared pointer
template <typename H> void count_is(H& h, scb* cb, const char* l) {
    long c; { xs_lib x; c = h.use_count(); }
    xs_check(c == (cb ? (cb->expired ? 0L : long(cb->strong())) : 0L), l);
}
