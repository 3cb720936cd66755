// basic_atomic_shared_ptr_storage and its spinlock (C17 C18): every operation against a sequential
// specification, with other threads taking and releasing the lock and replacing the stored pointer
// whenever this thread does not hold it.
#include "scb.hpp"
#include "xmem_begin.hpp"
#include <xmem/basic_atomic_shared_ptr_storage.hpp>
#include "xmem_end.hpp"

struct Obj { long v; };
using T = Obj;
using ST = xmem::basic_atomic_shared_ptr_storage<CBF, T>;

static char* g_mem;                 // the storage
static SP<T>* g_in;                 // the pointer inside (found by observation)
static char* g_lock;                // the lock word (found by observation)
static uint64_t g_lsz, g_free, g_busy;
static int g_probe;
static int g_hi;                    // g_h index of the pointer inside
static const int MAXS = 3;
static int g_ns;                    // critical sections so far
static scb* pre_o[MAXS]; static T* pre_p[MAXS];
static const void* post_o[MAXS]; static T* post_p[MAXS];

static uint64_t rdl() { return g_lsz == 1 ? *(uint8_t*)g_lock : g_lsz == 4 ? *(uint32_t*)g_lock : *(uint64_t*)g_lock; }
static void wrl(uint64_t v) { if (g_lsz == 1) *(uint8_t*)g_lock = uint8_t(v); else if (g_lsz == 4) *(uint32_t*)g_lock = uint32_t(v); else *(uint64_t*)g_lock = v; }

// the lock was taken: what it protects is whatever the other threads left there
static void acquired() {
    xs_noframe nf;
    xs_theirs(g_in, sizeof(*g_in), false);
    if (g_ns >= MAXS) { xs_check(false, "C17: an operation is one critical section"); xs_stop(); }
    int o = xs_choose(3, "owner of the stored pointer");
    scb* cb = o == 0 ? nullptr : g_cb[o - 1];
    if (cb) {
        if (!xs_alive(cb) || cb->expired || !xs_decide(cb->s_others != 0)) xs_no_path();
        cb->s_others = cb->s_others - 1;
    }
    T* p = any_ptr<T>("stored pointer");
    int s = g_setup; g_setup = 1;
    new (g_in) SP<T>(pair_of<T>(cb, p));
    g_setup = s;
    pre_o[g_ns] = cb; pre_p[g_ns] = p;
    g_h[g_hi].live = 1;
    g_lock_held = 1;
}
// the lock is released: the stored pointer belongs to everyone again
static void released() {
    xs_noframe nf;
    g_lock_held = 0;
    auto o = g_in->owner();
    post_o[g_ns] = o; post_p[g_ns] = g_in->get();
    g_ns++;
    scb* cb = const_cast<scb*>(static_cast<const scb*>(o));
    g_h[g_hi].live = 0;
    if (cb) {
        int i = cb->s.find(g_in);
        xs_check(i >= 0, "C07|C17: the stored pointer is registered with its control block");
        if (i >= 0) cb->s.del(i);
        cb->s_mine--; cb->s_others = cb->s_others + 1;
    }
    xs_theirs(g_in, sizeof(*g_in), true);
}
// progress: how often the lock is still found taken (-1: any number of times, -2: until a loop is at an arbitrary iteration), and
// how often it was looked at while free
static int g_turns = -1, g_free_seen;
static bool in_lock(const void* p) { return p == g_lock; }

extern "C" void xs_atomic_pre(void* p, uint64_t size, uint64_t) {
    if (g_probe) g_probe = int(size);
    if (g_probe || !in_lock(p) || g_lock_held) return;
    xs_noframe nf;
    if (g_turns >= 0 || (g_turns == -2 && xs_headed())) {
        bool taken = g_turns > 0 && xs_choose(2, "the lock is taken by another thread");
        if (taken) g_turns--;
        else if (++g_free_seen > 16) { xs_check(false, "C18|C17: an operation waits only while another thread holds the lock"); xs_stop(); }
        wrl(taken ? g_busy : g_free);
        return;
    }
    wrl(xs_choose(2, "the lock is taken by another thread") ? g_busy : g_free);
}
extern "C" void xs_atomic_post(void* p, int kind, uint64_t old, uint64_t now, int order, uint64_t) {
    if (g_probe) {
        if (!g_lock && (kind == 2 || kind == 4)) {
            g_lock = (char*)p; g_free = old; g_busy = now;
            g_lsz = g_probe;
        }
        return;
    }
    if (!in_lock(p)) { xs_check(g_lock_held == 1, "C18: the storage is accessed only while its lock is held"); return; }
    if (kind == 0 || kind == 3) return;
    if (kind == 1) {
        if (now == g_free) {
            xs_check(g_lock_held == 1, "C18: the lock is released only by its holder");
            xs_check(xs_rel(order), "C18: releasing the lock publishes the changes made under it");
            if (g_lock_held) released();
        }
        else { xs_check(g_lock_held == 1, "C18: the lock is taken by an atomic exchange"); }
        return;
    }
    if (now == g_free) {
        if (old != g_free) {
            xs_check(g_lock_held == 1, "C18: the lock is released only by its holder");
            xs_check(xs_rel(order), "C18: releasing the lock publishes the changes made under it");
            if (g_lock_held) released();
        }
        return;
    }
    if (old == g_free) {
        xs_check(xs_acq(order), "C18: taking the lock acquires the changes made under it");
        acquired();
    }
    else if (g_lock_held) { xs_check(false, "C18: the holder does not wait for its own lock"); xs_stop(); }
}
extern "C" void xs_plain_access(void*, uint64_t, int, uint64_t) {
    if (g_probe) return;
    xs_require(g_lock_held == 1, "C18|C17: the stored pointer is accessed only while the lock is held");
}

static ST* storage() {
    g_lock = nullptr; g_ns = 0; g_lsz = 1; g_in = nullptr; g_lock_held = 0;
    g_mem = (char*)xs_region(sizeof(ST), alignof(ST), "storage");
    scb* a = g_cb[0];
    ST* st;
    int n0 = a->s.n;
    { SP<T> init(pair_of<T>(a, nullptr)); st = new (g_mem) ST(init); }
    for (int i = 0; i < a->s.n; ++i)
        if (xs_same_object(a->s.a[i], g_mem)) g_in = (SP<T>*)a->s.a[i];
    xs_require(g_in != nullptr && a->s.n == n0 + 1, "C07|C17: the storage owns the pointer it is built from");
    // find the lock by watching one operation
    xs_share(g_mem, sizeof(ST), 1);
    for (int k = 0; k < 2 && !g_lock; ++k) {
        g_probe = 1;
        { SP<T> r; { xs_lib l; xs_mode(2); if (k) st->store(SP<T>(pair_of<T>(a, nullptr))); else r = st->load(); } }
        g_probe = 0;
    }
    xs_unshare();
    xs_require(g_lock != nullptr, "C18|C17: an operation takes a lock");
    xs_check(rdl() == g_free, "C18: every operation leaves the lock released");
    g_in->~SP<T>();
    return st;
}
static void begin(bool interference) {
    g_hi = track_s<T>(g_in, -1);
    g_h[g_hi].live = 0;
    ready(interference);
    xs_share(g_mem, sizeof(ST), 1);
    xs_frame_allow(g_mem, sizeof(ST));
    xs_theirs(g_in, sizeof(*g_in), true);
}
static void end() {
    xs_theirs(g_in, sizeof(*g_in), false);
    xs_check(g_lock_held == 0, "C18: every operation leaves the lock released");
    if (g_lock_held) xs_stop();
    xs_require(g_ns >= 1, "C17: every operation takes effect under the lock");
    xs_unshare();
    settled();
    values("C17: operands and results");
    for (int k = 0; k < 2; ++k)
        if (g_cb[k] && xs_alive(g_cb[k])) xs_check(g_cb[k]->s.find(g_in) < 0, "C07|C17: the stored pointer is registered once");
}
static bool kept(int k) { return (post_o[k] == pre_o[k]) & (post_p[k] == pre_p[k]); }
// all sections but k left the stored pointer alone
static bool only(int k) {
    bool r = true;
    for (int i = 0; i < g_ns; ++i) if (i != k) r = r & kept(i);
    return r;
}

CONTRACT(a_load, "C17 C18 C01 C07", "load, any stored pointer, any interference") {
    world();
    ST* st = storage();
    void* m = xs_region(sizeof(SP<T>), 8, "result");
    begin(xs_choose(2, "interference")); frame(m, sizeof(SP<T>));
    xs_check(noexcept(st->load()), "C11: load is noexcept");
    SP<T>* r;
    { xs_lib l; r = new (m) SP<T>(std::as_const(*st).load()); }
    track_s<T>(r, -1);
    end();
    bool ok = false;
    for (int k = 0; k < g_ns; ++k) ok = ok | ((r->owner() == pre_o[k]) & (r->get() == pre_p[k]));
    xs_check(ok, "C17: load returns the stored value");
    for (int k = 0; k < g_ns; ++k) xs_check(kept(k), "C17: load does not change the stored value");
    xs_cover("end");
}
CONTRACT(a_store, "C17 C18 C01 C02 C07", "store, any stored and new pointer, any interference") {
    world();
    ST* st = storage();
    scb* cb = owner_choice("owner of the new pointer");
    auto s = make_s<T>(cb, any_ptr<T>("new pointer"), home_choice("new pointer lives in"), "new");
    bool in = xs_choose(2, "interference");
    int mv = xs_choose(2, "moved");
    begin(in); frame(s.p, sizeof(SP<T>));
    xs_check(noexcept(st->store(std::move(*s.p))), "C11: store is noexcept");
    { xs_lib l; if (mv) st->store(std::move(*s.p)); else st->store(std::as_const(*s.p)); }
    if (mv) expect(s.i, nullptr, nullptr); else expect(s.i, cb, s.ptr);
    end();
    bool ok = false;
    for (int k = 0; k < g_ns; ++k) ok = ok | (bool(only(k)) & (post_o[k] == cb) & (post_p[k] == s.ptr));
    xs_check(ok, "C17: store replaces the stored value by the new one, in one step");
    xs_cover("end");
}
CONTRACT(a_exchange, "C17 C18 C01 C02 C07", "exchange, any stored and new pointer, any interference") {
    world();
    ST* st = storage();
    scb* cb = owner_choice("owner of the new pointer");
    auto s = make_s<T>(cb, any_ptr<T>("new pointer"), home_choice("new pointer lives in"), "new");
    bool in = xs_choose(2, "interference");
    int mv = xs_choose(2, "moved");
    void* m = xs_region(sizeof(SP<T>), 8, "result");
    begin(in); frame(s.p, sizeof(SP<T>)); frame(m, sizeof(SP<T>));
    xs_check(noexcept(st->exchange(std::move(*s.p))), "C11: exchange is noexcept");
    SP<T>* r;
    { xs_lib l; if (mv) r = new (m) SP<T>(st->exchange(std::move(*s.p))); else r = new (m) SP<T>(st->exchange(std::as_const(*s.p))); }
    track_s<T>(r, -1);
    if (mv) expect(s.i, nullptr, nullptr); else expect(s.i, cb, s.ptr);
    end();
    bool ok = false;
    for (int k = 0; k < g_ns; ++k) ok = ok | (bool(only(k)) & (post_o[k] == cb) & (post_p[k] == s.ptr) & (r->owner() == pre_o[k]) & (r->get() == pre_p[k]));
    xs_check(ok, "C17: exchange replaces the stored value and returns the old one, in one step");
    xs_cover("end");
}
static void cas(int inter) {
    world();
    ST* st = storage();
    scb* ce = owner_choice("owner of expected");
    auto e = make_s<T>(ce, any_ptr<T>("expected"), inter ? -1 : home_choice("expected lives in"), "expected");
    scb* cb = owner_choice("owner of the new pointer");
    auto s = make_s<T>(cb, any_ptr<T>("new pointer"), -1, "new");
    int mv = xs_choose(2, "moved");
    begin(inter == 1); frame(s.p, sizeof(SP<T>)); frame(e.p, sizeof(SP<T>));
    xs_check(noexcept(st->compare_exchange(*e.p, std::move(*s.p))), "C11: compare_exchange is noexcept");
    bool r;
    { xs_lib l; if (mv) r = st->compare_exchange(*e.p, std::move(*s.p)); else r = st->compare_exchange(*e.p, std::as_const(*s.p)); }
    if (mv) expect(s.i, nullptr, nullptr); else expect(s.i, cb, s.ptr);
    end();
    bool ok = false;
    if (xs_decide(r)) {
        xs_cover("exchanged");
        for (int k = 0; k < g_ns; ++k) ok = ok | (bool(only(k)) & (pre_p[k] == e.ptr) & (post_o[k] == cb) & (post_p[k] == s.ptr));
        xs_check(ok, "C17: compare_exchange succeeds only if the stored pointer equals the expected one, and then replaces it in one step");
        if (g_h[e.i].live) xs_check(same_s<T>(e.p, ce, e.ptr), "C17: a successful compare_exchange does not change the expectation");
    }
    else {
        xs_cover("not exchanged");
        // the expectation may be gone: it may live in the object its old value kept alive
        bool el = g_h[e.i].live;
        for (int k = 0; k < g_ns; ++k)
            ok = ok | (bool(only(-1)) & (pre_p[k] != e.ptr) & (bool(!el) || ((e.p->owner() == pre_o[k]) & (e.p->get() == pre_p[k]))));
        xs_check(ok, "C17: compare_exchange fails only if the stored pointer differs, and then copies it to the expectation in one step");
    }
    xs_cover("end");
}
CONTRACT(a_cas, "C17 C18 C01 C02 C07 C09", "compare_exchange, any stored, expected and new pointer, expectation anywhere") { cas(0); }
CONTRACT(a_cas_interference, "C17 C18 C01 C02 C07", "compare_exchange while other threads change the number of owners") { cas(1); }

CONTRACT(a_ctor_dtor, "C17 C02 C01 C07 C18", "construction stores the pointer given; destruction releases it once; the storage is neither copied nor moved") {
    world();
    xs_check(!std::is_copy_constructible_v<ST> && !std::is_move_constructible_v<ST> && !std::is_copy_assignable_v<ST> && !std::is_move_assignable_v<ST>, "C17: an atomic storage is not copied");
    xs_check(std::is_nothrow_default_constructible_v<ST> && std::is_nothrow_constructible_v<ST, SP<T>>, "C11: construction is noexcept");
    int kind = xs_choose(3, "default, copied or moved");
    scb* cb = kind ? owner_choice("owner") : nullptr;
    auto s = make_s<T>(cb, any_ptr<T>("pointer"), kind == 2 ? -1 : home_choice("pointer lives in"), "source");
    void* m = xs_region(sizeof(ST), alignof(ST), "storage");
    void* m2 = xs_region(sizeof(SP<T>), 8, "result");
    ready(); frame(m, sizeof(ST)); frame(m2, sizeof(SP<T>)); frame(s.p, sizeof(SP<T>));
    ST* st; SP<T>* r;
    { xs_lib l; st = kind == 0 ? new (m) ST() : kind == 1 ? new (m) ST(std::as_const(*s.p)) : new (m) ST(std::move(*s.p)); }
    if (kind == 2) expect(s.i, nullptr, nullptr); else expect(s.i, cb, s.ptr);
    uint64_t n = cb ? cb->strong() : 0;
    { xs_lib l; r = new (m2) SP<T>(st->load()); }
    if (kind == 0) { xs_check(same_s<T>(r, nullptr, nullptr), "C17: a default storage is empty"); }
    else xs_check(same_s<T>(r, cb, s.ptr), "C17: the storage holds the pointer it is built from");
    if (cb) xs_check(cb->strong() == n + 1, "C01|C17: load adds one owner");
    int i = track_s<T>(r, -1);
    { xs_lib l; st->~ST(); }
    (void)i;
    settled(); values("C17: operands and results"); xs_cover("end");
}
// progress. First from an arbitrary iteration of every loop on: while the lock is found taken it re-establishes the invariant
// (kind 0), once it is free the operation ends (kind 1).  Then, to have inputs to replay, with the loops as they are and the lock
// found taken at most three times, whenever that is.
static void progress(int kind) {
    world();
    ST* st = storage();
    int op = xs_choose(4, "operation");
    auto s = make_s<T>(nullptr, any_ptr<T>("new pointer"), -1, "new");
    auto e = make_s<T>(nullptr, any_ptr<T>("expected"), -1, "expected");
    void* m = xs_region(sizeof(SP<T>), 8, "result");
    begin(false); frame(s.p, sizeof(SP<T>)); frame(e.p, sizeof(SP<T>)); frame(m, sizeof(SP<T>));
    g_turns = kind == 2 ? 3 : kind ? -2 : -1; g_free_seen = 0;
    if (kind == 1) xs_through(1);
    { xs_lib l; if (kind == 2) xs_mode(2);
      if (op == 0) st->store(std::as_const(*s.p)); else if (op == 1) new (m) SP<T>(st->load()); else if (op == 2) new (m) SP<T>(st->exchange(std::as_const(*s.p))); else (void)st->compare_exchange(*e.p, std::as_const(*s.p)); }
    g_turns = -1; xs_through(0);
    if (xs_headed()) xs_cover("from an arbitrary iteration");
    xs_theirs(g_in, sizeof(*g_in), false);
    xs_check(g_lock_held == 0, "C18: every operation leaves the lock released");
    xs_check(g_ns >= 1, "C17: every operation takes effect under the lock");
    xs_unshare(); xs_frame_end(); xs_cover("end");
}
CONTRACT(a_progress, "C17 C18", "every operation waits only while another thread holds the lock, however long that was") { progress(xs_choose(2, "kind")); }
CONTRACT(a_progress_few, "C17 C18", "BOUNDED to finding the lock taken three times, for replay: every operation waits only while another thread holds the lock") { progress(2); }
