// The xstd helpers for std pointers (C20): the real libstdc++ pointers and control blocks, with
// arbitrary numbers of other owners, arbitrary pointers, allocation that fails, constructors that throw.
#include "stdworld.hpp"

// ---------------------------------------------------------------- make_shared_ptr, make_unique_ptr
template <int kind> void from_value() {
    ledger_start();
    Cop* s = (Cop*)xs_region(sizeof(Cop), 8, "source");
    uint64_t v = xs_nondet(64, "value");
    new (s) Cop(v);
    int how = xs_choose(3, "lvalue, constant, rvalue"), mv = how == 2;
    g_can_fail = 1; g_ctor_can_throw = 1;
    using SP = std::shared_ptr<Cop>; using CSP = std::shared_ptr<const Cop>;
    using UP = std::unique_ptr<Cop>; using CUP = std::unique_ptr<const Cop>;
    static_assert(sizeof(SP) == sizeof(CSP) && sizeof(UP) == sizeof(CUP), "");
    void* m = xs_region(sizeof(SP), 8, "result");
    int threw = 0;
    xs_frame_begin(); xs_frame_allow(m, sizeof(SP)); if (mv) xs_frame_allow(s, sizeof(Cop));
    try {
        xs_lib l;
        if constexpr (kind == 0) {
            if (how == 0) new (m) SP(xstd::make_shared_ptr(*s));
            else if (how == 1) new (m) CSP(xstd::make_shared_ptr(std::as_const(*s)));
            else new (m) SP(xstd::make_shared_ptr(std::move(*s)));
        }
        else {
            if (how == 0) new (m) UP(xstd::make_unique_ptr(*s));
            else if (how == 1) new (m) CUP(xstd::make_unique_ptr(std::as_const(*s)));
            else new (m) UP(xstd::make_unique_ptr(std::move(*s)));
        }
    }
    catch (const std::bad_alloc&) { threw = 1; }
    catch (int) { threw = 2; }
    xs_frame_end();
    g_can_fail = g_ctor_can_throw = 0;
    xs_check(threw == (g_failed ? 1 : g_ctor_threw ? 2 : 0), "C20|C11: an exception reaches the caller, and only if something threw");
    if (threw) {
        xs_check(g_nobjs == 1 && obj_find(s) >= 0, "C20|C11: no object is left behind");
        xs_check(g_allocs == 0, "C20|C11: every allocated block is returned");
        xs_cover("thrown");
        return;
    }
    Cop* q; long c = 1;
    { xs_lib l;
        if constexpr (kind == 0) { q = ((SP*)m)->get(); c = ((SP*)m)->use_count(); }
        else q = ((UP*)m)->get();
    }
    xs_check(g_made == 2 && g_nobjs == 2 && obj_find(q) >= 0 && q != s, "C20: exactly one object is constructed");
    xs_check(g_from == s && g_moved == mv && g_copied == !mv, "C20: the object is moved from an rvalue and copied from an lvalue, once");
    xs_check(q->v == v && s->v == (mv ? 0 : v), "C20: the object has the source's value");
    xs_check(c == 1, "C20: the result is the only owner");
    { xs_lib l; if constexpr (kind == 0) ((SP*)m)->~SP(); else ((UP*)m)->~UP(); }
    xs_check(g_nobjs == 1 && obj_find(s) >= 0, "C20: the object is destroyed once, with its last owner");
    xs_check(g_allocs == 0, "C20: the memory is returned");
    xs_cover("end");
}
CONTRACT(x_make_shared_ptr, "C20", "xstd::make_shared_ptr copies or moves into one shared object") { from_value<0>(); }
CONTRACT(x_make_unique_ptr, "C20", "xstd::make_unique_ptr copies or moves into one object") { from_value<1>(); }

// ---------------------------------------------------------------- make_aliased
CONTRACT(x_make_aliased, "C20", "xstd::make_aliased: owner and pointer, empty for an ownerless source") {
    world(0);
    int k = owner_choice("owner");
    Oth* p = any_ptr<Oth>("pointer"); Obj* q = any_ptr<Obj>("owner's pointer");
    auto o = make<std::shared_ptr<Obj>>(k, q, 1, "source");
    auto m = room<std::shared_ptr<Oth>>("result");
    ready(); xs_frame_allow(m, sizeof(*m)); for (int i = 0; i < 2; ++i) xs_frame_allow(g_pi[i], 16);
    { xs_lib l; new (m) std::shared_ptr<Oth>(xstd::make_aliased(std::as_const(*o), p)); }
    int i = track(m, 1);
    is(i, k < 0 ? nullptr : p, k);
    settled(); xs_cover("end");
}

// ---------------------------------------------------------------- same_owner, no_owner
CONTRACT(x_same_owner, "C20", "xstd::same_owner and no_owner of shared and weak pointers, expired or not") {
    world(1);
    int ka = owner_choice("owner of the first"), kb = owner_choice("owner of the second"), wa = xs_choose(2, "first is weak"), wb = xs_choose(2, "second is weak");
    raw* a = (raw*)make<std::shared_ptr<Obj>>(ka, any_ptr<Obj>("first pointer"), !wa, "first");
    raw* b = (raw*)make<std::shared_ptr<Oth>>(kb, any_ptr<Oth>("second pointer"), !wb, "second");
    ready(); for (int i = 0; i < 2; ++i) xs_frame_allow(g_pi[i], 16);
    using S1 = std::shared_ptr<Obj>; using S2 = std::shared_ptr<Oth>; using W1 = std::weak_ptr<Obj>; using W2 = std::weak_ptr<Oth>;
    bool r, n;
    { xs_lib l;
        r = wa ? wb ? xstd::same_owner(*(const W1*)a, *(const W2*)b) : xstd::same_owner(*(const W1*)a, *(const S2*)b)
               : wb ? xstd::same_owner(*(const S1*)a, *(const W2*)b) : xstd::same_owner(*(const S1*)a, *(const S2*)b);
        n = wa ? xstd::no_owner(*(const W1*)a) : xstd::no_owner(*(const S1*)a);
    }
    xs_check(r == (ka == kb), "C20: same_owner tells whether two pointers have the same owner");
    xs_check(n == (ka < 0), "C20: no_owner tells whether a pointer has no owner");
    settled(); xs_cover("end");
}

// ---------------------------------------------------------------- enable_shared_from
struct Pad { long x; };
struct E : Pad, xstd::enable_shared_from {
    long v;
    using xstd::enable_shared_from::shared_from_this;
    using xstd::enable_shared_from::weak_from_this;
    using xstd::enable_shared_from::shared_from;
    using xstd::enable_shared_from::weak_from;
};
CONTRACT(x_enable_shared_from, "C20", "xstd::enable_shared_from: shared_from_this, weak_from_this, shared_from, weak_from; owned, expired and never owned") {
    constexpr bool same_type = std::is_same_v<decltype(std::declval<E&>().shared_from(std::declval<long*>())), std::shared_ptr<long>>;
    xs_check(same_type, "C20: shared_from gives a std::shared_ptr of the pointer's type");
    world(0);
    int st = xs_choose(3, "owned, expired, never owned");
    E* e = (E*)xs_region(sizeof(E), 8, "object");
    new (e) E();
    raw* wp = nullptr;
    if (st != 2) {
        // bind the object to block A, as a std::shared_ptr of it would
        std::shared_ptr<E> own(e, [](E*) {});
        for (uint64_t i = 0; i + 16 <= sizeof(E); i += 8)
            if (!xs_uninit((char*)e + i, 8) && !xs_uninit((char*)e + i + 8, 8) && ((raw*)((char*)e + i))->pi == ((raw*)&own)->pi) wp = (raw*)((char*)e + i);
        xs_require(wp != nullptr, "C20: a std::shared_ptr of the object binds it");
        xs_kill(((raw*)&own)->pi); g_allocs--;
        ((raw*)&own)->pi = nullptr; ((raw*)&own)->p = nullptr;
        wp->pi = g_pi[0];
        g_h[g_nh].p = wp; g_h[g_nh].strong = 0; g_h[g_nh].live = 1; g_h[g_nh].known = 1; g_h[g_nh].xp = wp->p; g_h[g_nh].xo = g_pi[0]; g_nh++;
        g_expired[0] = st == 1;
    }
    int op = xs_choose(5, "operation"), cst = xs_choose(2, "constant");
    long* p = any_ptr<long>("pointer");
    void* m = xs_region(16, 8, "result");
    ready(); xs_frame_allow(m, 16); xs_frame_allow(g_pi[0], 16);
    bool threw = false;
    const E* c = e;
    void* base = static_cast<xstd::enable_shared_from*>(e);
    try {
        xs_lib l;
        using VS = std::shared_ptr<void>; using CVS = std::shared_ptr<const void>; using VW = std::weak_ptr<void>; using CVW = std::weak_ptr<const void>;
        if (op == 0) { if (cst) new (m) CVS(c->shared_from_this()); else new (m) VS(e->shared_from_this()); }
        else if (op == 1) { if (cst) new (m) CVW(c->weak_from_this()); else new (m) VW(e->weak_from_this()); }
        else if (op == 2) { if (cst) new (m) std::shared_ptr<long>(c->shared_from(p)); else new (m) std::shared_ptr<long>(e->shared_from(p)); }
        else if (op == 3) { if (cst) new (m) std::weak_ptr<long>(c->weak_from(p)); else new (m) std::weak_ptr<long>(e->weak_from(p)); }
        else { if (cst) new (m) std::shared_ptr<const long>(c->shared_from((const long*)p)); else new (m) std::shared_ptr<const long>(e->shared_from((const long*)p)); }
    }
    catch (const std::bad_weak_ptr&) { threw = true; }
    bool weak = op == 1 || op == 3;
    if (op != 1) xs_check(threw == (st != 0), "C20: an object without owner yields no pointer");
    else xs_check(!threw, "C20: weak_from_this does not throw");
    if (!threw && st == 0) {
        int i = track(m, !weak);
        is(i, op < 2 ? base : (void*)p, 0);
    }
    if (!threw && st != 0) {
        // an expired weak pointer, or an empty one
        int i = track(m, 0); (void)i;
        bool exp; { xs_lib l; exp = ((std::weak_ptr<void>*)m)->expired(); }
        xs_check(exp, "C20: the weak pointer of an object without owner is expired");
    }
    settled(); xs_cover("end");
}

// ---------------------------------------------------------------- atomic_shared_ptr_storage
using SP = std::shared_ptr<Obj>;
using ST = xstd::atomic_shared_ptr_storage<Obj>;
static char* g_mem; static raw* g_in; static char* g_lock; static uint64_t g_free, g_busy; static int g_probe; static int g_hi;
static const int MAXS = 3;
static int g_ns; static raw g_pre[MAXS], g_post[MAXS];

static void acquired() {
    xs_noframe nf;
    xs_theirs(g_in, sizeof(*g_in), false);
    if (g_ns >= MAXS) { xs_check(false, "C20|C17: an operation is one critical section"); xs_stop(); }
    int k = owner_choice("owner of the stored pointer");
    if (k >= 0) {
        if (!xs_alive(g_pi[k]) || g_dels[k] || !xs_decide(g_so[k] != 0)) xs_no_path();
        g_so[k] = g_so[k] - 1;
    }
    g_in->p = any_ptr<Obj>("stored pointer"); g_in->pi = blk(k);
    g_pre[g_ns].p = g_in->p; g_pre[g_ns].pi = g_in->pi;
    g_h[g_hi].live = 1;
    g_lock_held = 1;
}
static void released() {
    xs_noframe nf;
    g_lock_held = 0;
    g_post[g_ns].p = g_in->p; g_post[g_ns].pi = g_in->pi;
    g_ns++;
    g_h[g_hi].live = 0;
    for (int k = 0; k < 2; ++k) if (g_in->pi == g_pi[k]) g_so[k] = g_so[k] + 1;
    xs_theirs(g_in, sizeof(*g_in), true);
}
static uint64_t g_lsz;
static uint64_t rdl() { return g_lsz == 1 ? *(uint8_t*)g_lock : g_lsz == 4 ? *(uint32_t*)g_lock : *(uint64_t*)g_lock; }
static void wrl(uint64_t v) { if (g_lsz == 1) *(uint8_t*)g_lock = uint8_t(v); else if (g_lsz == 4) *(uint32_t*)g_lock = uint32_t(v); else *(uint64_t*)g_lock = v; }
// progress: how often the lock is still found taken (-1: any number of times, -2: until a loop is at an arbitrary iteration), and
// how often it was looked at while free
static int g_turns = -1, g_free_seen;
extern "C" void xs_atomic_pre(void* p, uint64_t size, uint64_t) {
    if (g_probe) g_probe = int(size);
    if (g_probe || p != g_lock || g_lock_held) return;
    xs_noframe nf;
    if (g_turns >= 0 || (g_turns == -2 && xs_headed())) {
        bool taken = g_turns > 0 && xs_choose(2, "the lock is taken by another thread");
        if (taken) g_turns--;
        else if (++g_free_seen > 16) { xs_check(false, "C20|C18|C17: an operation waits only while another thread holds the lock"); xs_stop(); }
        wrl(taken ? g_busy : g_free);
        return;
    }
    wrl(xs_choose(2, "the lock is taken by another thread") ? g_busy : g_free);
}
extern "C" void xs_atomic_post(void* p, int kind, uint64_t old, uint64_t now, int order, uint64_t) {
    if (g_probe) {
        if (!g_lock && (kind == 2 || kind == 4)) { g_lock = (char*)p; g_free = old; g_busy = now; g_lsz = g_probe; }
        return;
    }
    if (p != g_lock) { xs_check(g_lock_held == 1, "C20|C18: the storage is accessed only while its lock is held"); return; }
    if (kind == 0 || kind == 3) return;
    if (now == g_free) {
        if (kind == 1 || old != g_free) {
            xs_check(g_lock_held == 1, "C20|C18: the lock is released only by its holder");
            xs_check(xs_rel(order), "C20|C18: releasing the lock publishes the changes made under it");
            if (g_lock_held) released();
        }
        return;
    }
    if (kind == 1) { xs_check(g_lock_held == 1, "C20|C18: the lock is taken by an atomic exchange"); return; }
    if (old == g_free) {
        xs_check(xs_acq(order), "C20|C18: taking the lock acquires the changes made under it");
        acquired();
    }
    else if (g_lock_held) { xs_check(false, "C20|C18: the holder does not wait for its own lock"); xs_stop(); }
}
extern "C" void xs_plain_access(void*, uint64_t, int, uint64_t) {
    if (g_probe) return;
    xs_require(g_lock_held == 1, "C20|C18: the stored pointer is accessed only while the lock is held");
}
static ST* storage() {
    g_lock = nullptr; g_ns = 0; g_in = nullptr; g_lock_held = 0;
    g_mem = (char*)xs_region(sizeof(ST), alignof(ST), "storage");
    std::memset(g_mem, 0, sizeof(ST));
    raw init; init.p = g_mem; init.pi = g_pi[0];
    use_of(g_pi[0]) = 5;
    ST* st = new (g_mem) ST(*(SP*)&init);
    for (uint64_t i = 0; i + 16 <= sizeof(ST); i += 8)
        if (((raw*)(g_mem + i))->p == init.p && ((raw*)(g_mem + i))->pi == init.pi) g_in = (raw*)(g_mem + i);
    xs_require(g_in != nullptr, "C20|C17: the storage holds the pointer it is built from");
    xs_check(use_of(g_pi[0]) == 6, "C20|C17: the storage owns the pointer it is built from");
    xs_share(g_mem, sizeof(ST), 1);
    for (int k = 0; k < 2 && !g_lock; ++k) {
        g_probe = 1;
        { SP r; { xs_lib l; xs_mode(2); if (k) st->store(*(SP*)&init); else r = st->load(); } }
        g_probe = 0;
    }
    xs_unshare();
    xs_require(g_lock != nullptr, "C20|C18: an operation takes a lock");
    xs_check(rdl() == g_free, "C20|C18: every operation leaves the lock released");
    return st;
}
static void begin() {
    g_in->p = nullptr; g_in->pi = nullptr;
    g_hi = track(g_in, 1);
    g_h[g_hi].live = 0;
    ready();
    xs_share(g_mem, sizeof(ST), 1);
    xs_frame_allow(g_mem, sizeof(ST));
    for (int i = 0; i < 2; ++i) xs_frame_allow(g_pi[i], 16);
    xs_theirs(g_in, sizeof(*g_in), true);
}
static void end() {
    xs_theirs(g_in, sizeof(*g_in), false);
    xs_check(g_lock_held == 0, "C20|C18: every operation leaves the lock released");
    if (g_lock_held) xs_stop();
    xs_require(g_ns >= 1, "C20|C17: every operation takes effect under the lock");
    xs_unshare();
    settled();
}
static bool eq(const raw& a, const raw& b) { return (a.p == b.p) & (a.pi == b.pi); }
static bool only(int k) {
    bool r = true;
    for (int i = 0; i < g_ns; ++i) if (i != k) r = r & eq(g_pre[i], g_post[i]);
    return r;
}
CONTRACT(x_storage_load, "C20 C17 C18", "xstd::atomic_shared_ptr_storage::load, any stored pointer, any interference") {
    world(0);
    ST* st = storage();
    auto m = room<SP>("result");
    begin(); xs_frame_allow(m, sizeof(SP));
    { xs_lib l; new (m) SP(std::as_const(*st).load()); }
    track(m, 1);
    end();
    bool ok = false;
    for (int k = 0; k < g_ns; ++k) ok = ok | eq(*(raw*)m, g_pre[k]);
    xs_check(ok, "C20|C17: load returns the stored value");
    for (int k = 0; k < g_ns; ++k) xs_check(eq(g_pre[k], g_post[k]), "C20|C17: load does not change the stored value");
    xs_cover("end");
}
CONTRACT(x_storage_store, "C20 C17 C18", "xstd::atomic_shared_ptr_storage::store, any stored and new pointer, any interference") {
    world(0);
    ST* st = storage();
    int k = owner_choice("owner of the new pointer");
    raw nv; nv.p = any_ptr<Obj>("new pointer"); nv.pi = blk(k);
    auto s = make<SP>(k, nv.p, 1, "new");
    begin(); xs_frame_allow(s, sizeof(SP));
    int mv = xs_choose(2, "moved");
    if (mv) is(0, nullptr, -1);
    { xs_lib l; if (mv) st->store(std::move(*s)); else st->store(std::as_const(*s)); }
    end();
    bool ok = false;
    for (int i = 0; i < g_ns; ++i) ok = ok | (bool(only(i)) & eq(g_post[i], nv));
    xs_check(ok, "C20|C17: store replaces the stored value by the new one, in one step");
    xs_cover("end");
}
CONTRACT(x_storage_exchange, "C20 C17 C18", "xstd::atomic_shared_ptr_storage::exchange, any stored and new pointer, any interference") {
    world(0);
    ST* st = storage();
    int k = owner_choice("owner of the new pointer");
    raw nv; nv.p = any_ptr<Obj>("new pointer"); nv.pi = blk(k);
    auto s = make<SP>(k, nv.p, 1, "new");
    auto m = room<SP>("result");
    begin(); xs_frame_allow(s, sizeof(SP)); xs_frame_allow(m, sizeof(SP));
    int mv = xs_choose(2, "moved");
    if (mv) is(0, nullptr, -1);
    { xs_lib l; if (mv) new (m) SP(st->exchange(std::move(*s))); else new (m) SP(st->exchange(std::as_const(*s))); }
    track(m, 1);
    end();
    bool ok = false;
    for (int i = 0; i < g_ns; ++i) ok = ok | (bool(only(i)) & eq(g_post[i], nv) & eq(*(raw*)m, g_pre[i]));
    xs_check(ok, "C20|C17: exchange replaces the stored value and returns the old one, in one step");
    xs_cover("end");
}
CONTRACT(x_storage_cas, "C20 C17 C18", "xstd::atomic_shared_ptr_storage::compare_exchange, any stored, expected and new pointer, any interference") {
    world(0);
    ST* st = storage();
    int k = owner_choice("owner of the new pointer"), ke = owner_choice("owner of expected");
    raw nv; nv.p = any_ptr<Obj>("new pointer"); nv.pi = blk(k);
    raw ev; ev.p = any_ptr<Obj>("expected"); ev.pi = blk(ke);
    auto s = make<SP>(k, nv.p, 1, "new");
    auto e = make<SP>(ke, ev.p, 1, "expected");
    begin(); xs_frame_allow(s, sizeof(SP)); xs_frame_allow(e, sizeof(SP));
    int mv = xs_choose(2, "moved");
    if (mv) is(0, nullptr, -1);
    g_h[1].known = 0;
    bool r;
    { xs_lib l; if (mv) r = st->compare_exchange(*e, std::move(*s)); else r = st->compare_exchange(*e, std::as_const(*s)); }
    end();
    bool ok = false;
    if (xs_decide(r)) {
        xs_cover("exchanged");
        for (int i = 0; i < g_ns; ++i) ok = ok | (bool(only(i)) & (g_pre[i].p == ev.p) & eq(g_post[i], nv));
        xs_check(ok, "C20|C17: compare_exchange succeeds only if the stored pointer equals the expected one, and then replaces it in one step");
        xs_check(eq(*(raw*)e, ev), "C20|C17: a successful compare_exchange does not change the expectation");
    }
    else {
        xs_cover("not exchanged");
        for (int i = 0; i < g_ns; ++i) ok = ok | (bool(only(-1)) & (g_pre[i].p != ev.p) & eq(*(raw*)e, g_pre[i]));
        xs_check(ok, "C20|C17: compare_exchange fails only if the stored pointer differs, and then copies it to the expectation in one step");
    }
    xs_cover("end");
}
// progress. First from an arbitrary iteration of every loop on: while the lock is found taken it re-establishes the invariant
// (kind 0), once it is free the operation ends (kind 1).  Then, to have inputs to replay, with the loops as they are and the lock
// found taken at most three times, whenever that is.
static void progress(int kind) {
    world(0);
    ST* st = storage();
    int op = xs_choose(4, "operation");
    auto s = make<SP>(-1, any_ptr<Obj>("new pointer"), 1, "new");
    auto e = make<SP>(-1, any_ptr<Obj>("expected"), 1, "expected");
    auto m = room<SP>("result");
    begin(); xs_frame_allow(s, sizeof(SP)); xs_frame_allow(e, sizeof(SP)); xs_frame_allow(m, sizeof(SP));
    g_turns = kind == 2 ? 3 : kind ? -2 : -1; g_free_seen = 0;
    if (kind == 1) xs_through(1);
    { xs_lib l; if (kind == 2) xs_mode(2);
      if (op == 0) st->store(std::as_const(*s)); else if (op == 1) new (m) SP(st->load()); else if (op == 2) new (m) SP(st->exchange(std::as_const(*s))); else (void)st->compare_exchange(*e, std::as_const(*s)); }
    g_turns = -1; xs_through(0);
    if (xs_headed()) xs_cover("from an arbitrary iteration");
    xs_theirs(g_in, sizeof(*g_in), false);
    xs_check(g_lock_held == 0, "C20|C18: every operation leaves the lock released");
    xs_check(g_ns >= 1, "C20|C17: every operation takes effect under the lock");
    xs_unshare(); xs_frame_end(); xs_cover("end");
}
CONTRACT(x_storage_progress, "C20 C17 C18", "every operation of xstd::atomic_shared_ptr_storage waits only while another thread holds the lock, however long that was") { progress(xs_choose(2, "kind")); }
CONTRACT(x_storage_progress_few, "C20 C17 C18", "BOUNDED to finding the lock taken three times, for replay: every operation of xstd::atomic_shared_ptr_storage waits only while another thread holds the lock") { progress(2); }
CONTRACT(x_storage_ctor, "C20 C17 C18", "xstd::atomic_shared_ptr_storage holds the pointer it is built from and releases it once") {
    world(0);
    xs_check(!std::is_copy_constructible_v<ST> && !std::is_move_constructible_v<ST> && !std::is_copy_assignable_v<ST> && !std::is_move_assignable_v<ST>, "C20|C17: an atomic storage is not copied");
    xs_check(std::is_nothrow_default_constructible_v<ST> && std::is_nothrow_constructible_v<ST, SP> && noexcept(std::declval<const ST&>().load()) && noexcept(std::declval<ST&>().store(std::declval<SP>())) &&
        noexcept(std::declval<ST&>().exchange(std::declval<SP>())) && noexcept(std::declval<ST&>().compare_exchange(std::declval<SP&>(), std::declval<SP>())), "C20: storage operations are noexcept");
    int kind = xs_choose(3, "default, copied or moved");
    int k = kind ? owner_choice("owner") : -1;
    Obj* p = any_ptr<Obj>("pointer");
    auto s = make<SP>(k, p, 1, "source");
    if (kind == 2) is(0, nullptr, -1);
    auto st = (ST*)xs_region(sizeof(ST), alignof(ST), "storage");
    auto m = room<SP>("result");
    ready(); xs_frame_allow(s, sizeof(SP)); xs_frame_allow(st, sizeof(ST)); xs_frame_allow(m, sizeof(SP));
    for (int i = 0; i < 2; ++i) xs_frame_allow(g_pi[i], 16);
    { xs_lib l; if (kind == 0) new (st) ST(); else if (kind == 1) new (st) ST(std::as_const(*s)); else new (st) ST(std::move(*s)); }
    { xs_lib l; new (m) SP(st->load()); }
    int i = track(m, 1);
    if (kind) is(i, p, k); else is(i, nullptr, -1);
    if (k >= 0) xs_check(use_of(g_pi[k]) == g_so[k] + (kind == 2 ? 2 : 3), "C20|C17: the storage is one owner");
    { xs_lib l; st->~ST(); }
    settled(); xs_cover("end");
}
