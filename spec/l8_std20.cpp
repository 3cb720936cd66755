// The xstd storage as it is in C++20 (C20 C17): a wrapper of libstdc++'s std::atomic<std::shared_ptr>, which runs here as it is.
// Compiled as C++20.
#include "stdworld.hpp"

using SP = std::shared_ptr<Obj>;
using ST = xstd::atomic_shared_ptr_storage<Obj>;
static raw g_stored;             // what the storage holds
static int g_si;                 // its index in g_h
static ST* storage(int k, void* p, int how) {
    auto st = (ST*)xs_region(sizeof(ST), alignof(ST), "storage");
    auto s = make<SP>(k, p, 1, "initial pointer");
    g_stored.p = nullptr; g_stored.pi = nullptr;
    g_si = track(&g_stored, 1);
    ready();
    xs_frame_allow(st, sizeof(ST)); xs_frame_allow(s, sizeof(SP));
    for (int i = 0; i < 2; ++i) xs_frame_allow(g_pi[i], 16);
    if (how == 2) is(g_si - 1, nullptr, -1);
    { xs_lib l; if (how == 0) new (st) ST(); else if (how == 1) new (st) ST(std::as_const(*s)); else new (st) ST(std::move(*s)); }
    if (how) { g_stored.p = p; g_stored.pi = blk(k); }
    return st;
}
static void holds(void* p, int k) { g_stored.p = p; g_stored.pi = blk(k); }
// what the storage holds, as load tells, and that it lets go of it when destroyed
static void finish(ST* st) {
    auto m = room<SP>("loaded");
    xs_frame_allow(m, sizeof(SP));
    { xs_lib l; new (m) SP(std::as_const(*st).load()); }
    xs_check(((raw*)m)->p == g_stored.p && ((raw*)m)->pi == g_stored.pi, "C20|C17: load returns the stored value");
    int i = track(m, 1); (void)i;
    settled(); xs_frame_begin();
    for (int k = 0; k < 2; ++k) xs_frame_allow(g_pi[k], 16);
    xs_frame_allow(st, sizeof(ST));
    { xs_lib l; st->~ST(); }
    g_h[g_si].live = 0;
    settled(); xs_cover("end");
}
CONTRACT(x20_storage_ctor, "C20 C17", "C++20: the storage holds the pointer it is built from and releases it once") {
    world(0);
    xs_check(!std::is_copy_constructible_v<ST> && !std::is_move_constructible_v<ST> && !std::is_copy_assignable_v<ST> && !std::is_move_assignable_v<ST>, "C20|C17: an atomic storage is not copied");
    int k = owner_choice("owner");
    finish(storage(k, any_ptr<Obj>("pointer"), xs_choose(3, "default, copied or moved")));
}
CONTRACT(x20_storage_store, "C20 C17", "C++20: store and exchange replace the stored pointer") {
    world(0);
    int k0 = owner_choice("owner of the stored pointer"), k = owner_choice("owner of the new pointer");
    Obj* p0 = any_ptr<Obj>("stored pointer"); Obj* p = any_ptr<Obj>("new pointer");
    auto s = make<SP>(k, p, 1, "new");
    int ex = xs_choose(2, "exchange"), mv = xs_choose(2, "moved");
    auto st = storage(k0, p0, 2);
    auto m = room<SP>("result");
    xs_frame_allow(s, sizeof(SP)); xs_frame_allow(m, sizeof(SP));
    if (mv) is(0, nullptr, -1);
    { xs_lib l;
      if (ex) { if (mv) new (m) SP(st->exchange(std::move(*s))); else new (m) SP(st->exchange(std::as_const(*s))); }
      else { if (mv) st->store(std::move(*s)); else st->store(std::as_const(*s)); } }
    holds(p, k);
    if (ex) is(track(m, 1), p0, k0);
    finish(st);
}
CONTRACT(x20_storage_cas, "C20 C17", "C++20: compare_exchange replaces an equal pointer, or copies the stored one to the expectation") {
    world(0);
    int k0 = owner_choice("owner of the stored pointer"), k = owner_choice("owner of the new pointer"), ke = owner_choice("owner of expected");
    Obj* p0 = any_ptr<Obj>("stored pointer"); Obj* p = any_ptr<Obj>("new pointer"); Obj* pe = any_ptr<Obj>("expected");
    auto s = make<SP>(k, p, 1, "new");
    auto e = make<SP>(ke, pe, 1, "expected");
    int mv = xs_choose(2, "moved");
    auto st = storage(k0, p0, 2);
    xs_frame_allow(s, sizeof(SP)); xs_frame_allow(e, sizeof(SP));
    bool r;
    { xs_lib l; if (mv) r = st->compare_exchange(*e, std::move(*s)); else r = st->compare_exchange(*e, std::as_const(*s)); }
    if (mv) is(0, nullptr, -1);
    if (xs_decide(r)) {
        xs_check(p0 == pe, "C20|C17: compare_exchange succeeds only if the stored pointer equals the expected one");
        holds(p, k); xs_cover("exchanged");
    }
    else {
        xs_check((p0 != pe) | (k0 != ke), "C20|C17: compare_exchange fails only if the stored value differs from the expected one");
        is(1, p0, k0); xs_cover("not exchanged");
    }
    finish(st);
}
// ---- other threads act between the operations of std::atomic (not inside: it is the library's promise that each is one step).
// A step begins with the first look at the cells of the storage and ends when the lock bit in the owner is cleared.
static raw* g_in; static int g_on, g_open, g_held, g_ns;
static const int MAXS = 3;
static raw g_pre[MAXS], g_post[MAXS];
static uint64_t owner_bits() { return *(uint64_t*)&g_in->pi; }
extern "C" void xs_atomic_pre(void* p, uint64_t, uint64_t) {
    if (!g_on || g_open) return;
    (void)p;
    xs_noframe nf;
    if (g_ns >= MAXS) { xs_check(false, "C20|C17: an operation is one step"); xs_stop(); }
    g_open = 1;
    int k = owner_choice("owner of the stored pointer");
    if (k >= 0) {
        if (!xs_alive(g_pi[k]) || g_dels[k] || !xs_decide(g_so[k] != 0)) xs_no_path();
        g_so[k] = g_so[k] - 1;
    }
    g_in->p = any_ptr<Obj>("stored pointer"); g_in->pi = blk(k);
    g_pre[g_ns].p = g_in->p; g_pre[g_ns].pi = g_in->pi;
}
extern "C" void xs_atomic_post(void* p, int kind, uint64_t old, uint64_t now, int, uint64_t) {
    if (!g_on || p != (void*)&g_in->pi || kind == 0 || kind == 3) return;
    if ((now & 1) == 1) { if ((old & 1) == 0) g_held = 1; return; }
    if (!g_held) return;
    xs_noframe nf;
    g_held = 0; g_open = 0;
    g_post[g_ns].p = g_in->p; g_post[g_ns].pi = g_in->pi;
    g_ns++;
    for (int k = 0; k < 2; ++k) if (g_in->pi == g_pi[k]) g_so[k] = g_so[k] + 1;
}
extern "C" void xs_plain_access(void*, uint64_t, int, uint64_t) {}
static bool eq(const raw& a, const raw& b) { return (a.p == b.p) & (a.pi == b.pi); }
static bool only(int k) {
    bool r = true;
    for (int i = 0; i < g_ns; ++i) if (i != k) r = r & eq(g_pre[i], g_post[i]);
    return r;
}
CONTRACT(x20_storage_steps, "C20 C17", "C++20: whatever other threads do between the operations of std::atomic, each operation of the storage takes effect in one step") {
    world(0);
    int op = xs_choose(4, "operation");
    int k = owner_choice("owner of the new pointer"), ke = op == 3 ? owner_choice("owner of expected") : -1;
    raw nv, ev; nv.p = any_ptr<Obj>("new pointer"); nv.pi = blk(k); ev.p = any_ptr<Obj>("expected"); ev.pi = blk(ke);
    auto s = make<SP>(k, nv.p, 1, "new");
    auto e = make<SP>(ke, ev.p, 1, "expected");
    auto m = room<SP>("result");
    auto st = (ST*)xs_region(sizeof(ST), alignof(ST), "storage");
    // where the storage keeps its pointer
    raw init; init.p = st; init.pi = g_pi[0]; use_of(g_pi[0]) = 5;
    std::memset((void*)st, 0, sizeof(ST));
    new (st) ST(*(SP*)&init);
    g_in = nullptr;
    for (uint64_t i = 0; i + 16 <= sizeof(ST); i += 8) {
        raw* r = (raw*)((char*)st + i);
        if (r->p == init.p && r->pi == init.pi) g_in = r;
    }
    xs_require(g_in != nullptr, "C20|C17: the storage holds the pointer it is built from");
    g_in->p = nullptr; g_in->pi = nullptr;
    ready();
    xs_frame_allow(st, sizeof(ST)); xs_frame_allow(s, sizeof(SP)); xs_frame_allow(e, sizeof(SP)); xs_frame_allow(m, sizeof(SP));
    for (int i = 0; i < 2; ++i) xs_frame_allow(g_pi[i], 16);
    g_ns = 0; g_open = 0; g_held = 0; g_on = 1;
    xs_share(g_in, sizeof(raw), 1);
    bool r = false;
    { xs_lib l; xs_mode(2);
      if (op == 0) st->store(std::as_const(*s)); else if (op == 1) new (m) SP(std::as_const(*st).load()); else if (op == 2) new (m) SP(st->exchange(std::as_const(*s)));
      else r = st->compare_exchange(*e, std::as_const(*s)); }
    g_on = 0;
    xs_unshare();
    xs_check(g_open == 0, "C20|C17: every operation leaves the storage unlocked");
    if (g_open) xs_stop();
    xs_require(g_ns >= 1, "C20|C17: every operation takes effect on the storage");
    if (op == 1 || op == 2) track(m, 1);
    g_h[1].known = 0;
    settled();
    bool ok = false;
    for (int i = 0; i < g_ns; ++i) {
        if (op == 0) ok = ok | (bool(only(i)) & eq(g_post[i], nv));
        else if (op == 1) ok = ok | (bool(only(-1)) & eq(*(raw*)m, g_pre[i]));
        else if (op == 2) ok = ok | (bool(only(i)) & eq(g_post[i], nv) & eq(*(raw*)m, g_pre[i]));
        else if (xs_decide(r)) ok = ok | (bool(only(i)) & (g_pre[i].p == ev.p) & eq(g_post[i], nv) & eq(*(raw*)e, ev));
        else ok = ok | (bool(only(-1)) & !eq(g_pre[i], ev) & eq(*(raw*)e, g_pre[i]));
    }
    if (op == 0) xs_check(ok, "C20|C17: store replaces the stored value by the new one, in one step");
    else if (op == 1) xs_check(ok, "C20|C17: load returns the stored value and does not change it");
    else if (op == 2) xs_check(ok, "C20|C17: exchange replaces the stored value and returns the old one, in one step");
    else if (xs_decide(r)) xs_check(ok, "C20|C17: compare_exchange succeeds only if the stored pointer equals the expected one, and then replaces it in one step");
    else xs_check(ok, "C20|C17: compare_exchange fails only if the stored value differs, and then copies it to the expectation in one step");
    xs_cover("end");
}
