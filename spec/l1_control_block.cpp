// control_block_base<RC> against the control block contract (C02 C03 C04 C05 C06):
// counts, destruction of the object and of the block, for every count value; sequentially for both
// count types and, for the atomic one, under interference by other threads before every step.
#include "xspec.hpp"
#include "xmem_begin.hpp"
#include <xmem/atomic_ref_count.hpp>
#include <xmem/local_ref_count.hpp>
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include "xmem_end.hpp"

static char* g_mem;           // the block
static uint64_t g_so, g_wo;   // where its counters are (found by observation), and their size
static uint64_t g_sz;
static int g_conc;
static int mine_s, mine_w;    // references this thread holds
static int ds, dw;            // net modifications of the counters by the code under contract
static int s_zero, w_zero, w_excl;    // this thread's decrement produced zero
static int n_dres, n_dself;
static int acq_s, acq_w, relfence;
static uint64_t last_s; static int seen_s;
static int freed;
static const uint64_t CAP = 0xfffffff0ull;

static uint64_t rdp(const void* p) { return g_sz == 4 ? *(const uint32_t*)p : *(const uint64_t*)p; }
static void wrp(void* p, uint64_t v) { if (g_sz == 4) *(uint32_t*)p = uint32_t(v); else *(uint64_t*)p = v; }
static uint64_t S() { return rdp(g_mem + g_so); }
static uint64_t W() { return rdp(g_mem + g_wo); }

static void (*g_on_resource)();

template <typename RC>
struct tcb final : public xmem::control_block_base<RC> {
    void destroy_resource() noexcept override {
        xs_ghost g;
        n_dres++;
        xs_check(n_dres == 1, "C02: the object is destroyed at most once");
        xs_check(n_dself == 0, "C03: the block is not freed before the object is destroyed");
        xs_check(S() == 0, "C02: the object is destroyed only when no strong owner is left");
        if (g_conc) {
            xs_check(s_zero == 1, "C02: only the thread whose release produced zero destroys the object");
            xs_check(acq_s == 1, "C06: the releases of all other owners are acquired before the object is destroyed");
        }
        xs_check(dw == 0, "C03: the owners' common weak reference is still held while the object is destroyed");
        if (g_on_resource) g_on_resource();
    }
    void destroy_self() noexcept override {
        xs_ghost g;
        n_dself++;
        xs_check(n_dself == 1, "C03: the block is freed at most once");
        xs_check(W() <= 1, "C03: the block is freed only when no other handle is left");
        xs_check(S() == 0, "C03: the block is freed only when no strong owner is left");
        if (g_conc) {
            xs_check(w_zero == 1 || w_excl == 1, "C03: only the thread that gives up the last handle frees the block");
            xs_check(acq_w == 1, "C06: the releases of all other handles are acquired before the block is freed");
        }
        freed = 1;
        xs_kill(g_mem);
    }
};
static bool is_s(const void* p) { return p == g_mem + g_so; }
static bool is_w(const void* p) { return p == g_mem + g_wo; }

// rely: what other threads may have done before this step
extern "C" void xs_atomic_pre(void* p, uint64_t, uint64_t) {
    if (is_s(p)) {
        if (xs_decide(S() == 0)) return;             // zero is final
        uint64_t v = xs_nondet(32, "strong count left by other threads");
        xs_assume((v >= uint64_t(mine_s)) & (v <= CAP));
        wrp(p, v);
    }
    else if (is_w(p)) {
        if (mine_s == 0 && mine_w == 1 && w_excl) return;   // seen to be the only handle: nobody else can add one
        // others' weak handles come and go; ours and the owners' common one stay
        uint64_t lo = uint64_t(mine_w) + (mine_s > 0 ? 1 : 0);
        uint64_t v = xs_nondet(32, "weak count left by other threads");
        xs_assume((v >= lo) & (v <= CAP));
        wrp(p, v);
        // strong owners together hold one weak reference: without it there are none
        if (mine_s == 0 && xs_decide(v == uint64_t(mine_w))) wrp(g_mem + g_so, 0);
    }
}
extern "C" void xs_atomic_post(void* p, int kind, uint64_t old, uint64_t now, int order, uint64_t) {
    bool s = is_s(p);
    if (kind == 0 || kind == 3) {
        if (s) { seen_s = 1; last_s = old; if (xs_acq(order) && s_zero) acq_s = 1; }
        else {
            if (mine_s == 0 && mine_w == 1 && xs_decide(S() == 0) && xs_decide(old == 1)) w_excl = 1;
            if (xs_acq(order) && (w_zero || w_excl)) acq_w = 1;
        }
        return;
    }
    if (kind == 1) { xs_check(false, "C05: a count is overwritten by a plain store, which loses concurrent updates"); return; }
    if (s) { seen_s = 1; last_s = now; }
    int d;
    if (xs_decide(now == old - 1)) d = -1;
    else if (xs_decide(now == old + 1)) d = 1;
    else if (xs_decide(now == old)) d = 0;
    else { xs_check(false, "C05: a count changes by more than one"); xs_stop(); return; }
    if (d > 0) {
        if (s) { ds++; xs_check(old != 0, "C04|C02: a zero strong count is never incremented"); mine_s++; }
        else { dw++; xs_check(old != 0, "C03: a zero weak count is never incremented"); mine_w++; }
    }
    else if (d < 0) {
        xs_check(xs_rel(order) | (relfence == 1), "C06: giving up a reference publishes the writes made through it");
        if (s) {
            ds--;
            xs_require(mine_s > 0, "C01|C02: a strong reference is given up only by its holder");
            mine_s--;
            if (xs_decide(now == 0)) { s_zero = 1; mine_w++; acq_s = xs_acq(order); } // the owners' common weak reference is ours now
        }
        else {
            dw--;
            xs_require(mine_w > 0, "C03: a weak reference is given up only by its holder");
            mine_w--;
            if (xs_decide(now == 0)) { w_zero = 1; acq_w = xs_acq(order); }
        }
        if (mine_s == 0 && mine_w == 0 && !w_zero) {
            // nothing keeps the block alive for this thread any more
            if (xs_choose(2, "other threads free the block now")) { freed = 1; xs_kill(g_mem); }
        }
    }
}
extern "C" void xs_plain_access(void*, uint64_t, int, uint64_t) {
    xs_check(false, "C05|C01: a shared count is accessed non-atomically");
}
extern "C" void xs_fence(int order) {
    if (xs_acq(order)) { if (s_zero) acq_s = 1; if (w_zero || w_excl) acq_w = 1; }
    if (xs_rel(order)) relfence = 1;
}

template <typename RC>
struct setup {
    tcb<RC>* cb; uint64_t s0, w0; int h;
    setup(bool conc, int ms, int mw, bool dead) {
        g_conc = 0; mine_s = 1; mine_w = 1; relfence = 0; freed = 0; g_on_resource = nullptr;
        n_dres = n_dself = 0;
        g_mem = (char*)xs_region(sizeof(tcb<RC>), alignof(tcb<RC>), "control block");
        { xs_lib l; cb = new (g_mem) tcb<RC>(); }
        { xs_lib l; xs_require(cb->strong_ref_count() == 1, "C01: a fresh block has one strong owner"); }
        // find the counters: the words that change when a reference is added
        g_sz = sizeof(RC);
        g_so = find(0); g_wo = find(1);
        xs_require(g_so != g_wo, "C03: strong and weak count are separate");
        xs_require(W() == 2 && S() == 2, "C03: a fresh block has one strong and one weak reference");
        mine_s = ms; mine_w = mw;
        s0 = dead ? 0 : xs_nondet(32, "strong count");
        w0 = xs_nondet(32, "weak count");
        xs_assume((s0 >= uint64_t(ms)) & (s0 <= CAP));
        xs_assume((w0 >= uint64_t(mw) + (ms > 0 ? 1 : 0)) & (w0 <= CAP));
        // whoever made the strong count positive holds the common weak reference
        xs_assume((w0 >= uint64_t(mw) + 1) | (s0 == 0));
        wrp(g_mem + g_so, s0); wrp(g_mem + g_wo, w0);
        long c; { xs_lib l; c = cb->strong_ref_count(); }
        xs_require(c == long(s0), "C01: strong_ref_count is the strong count");
        ds = dw = w_excl = s_zero = w_zero = n_dres = n_dself = acq_s = acq_w = relfence = seen_s = 0;
        g_conc = conc;
        if (conc) { xs_share(g_mem + g_so, g_sz, 1); xs_share(g_mem + g_wo, g_sz, 2); }
        h = 0;
        xs_frame_begin();
        xs_frame_allow(g_mem, sizeof(tcb<RC>));
    }
    uint64_t find(int weak) {
        char snap[sizeof(tcb<RC>)];
        for (uint64_t i = 0; i < sizeof(tcb<RC>); i += 4) *(uint32_t*)(snap + i) = i < 8 ? 0 : *(uint32_t*)(g_mem + i);
        { xs_lib l; if (weak) cb->inc_weak_ref(&h); else cb->inc_strong_ref(&h); }
        for (uint64_t i = 8; i + g_sz <= sizeof(tcb<RC>); i += g_sz)
            if (memdiff(snap + i, g_mem + i)) return i;
        xs_require(false, weak ? "C03: inc_weak_ref counts" : "C01: inc_strong_ref counts");
        return 0;
    }
    bool memdiff(const char* a, const char* b) {
        for (uint64_t i = 0; i < g_sz; i += 4) if (*(const uint32_t*)(a + i) != *(const uint32_t*)(b + i)) return true;
        return false;
    }
    void done() { xs_frame_end(); xs_unshare(); xs_cover("end"); }
};

// ---------------------------------------------------------------- sequential
static uint64_t e_w;     // expected weak count
static void (*g_real_inc_weak)(), (*g_real_dec_weak)();
template <typename RC> void real_inc_weak() { xs_lib l; static_cast<xmem::control_block_base<RC>*>(reinterpret_cast<tcb<RC>*>(g_mem))->inc_weak_ref(&e_w); }
template <typename RC> void real_dec_weak() { xs_lib l; static_cast<xmem::control_block_base<RC>*>(reinterpret_cast<tcb<RC>*>(g_mem))->dec_weak_ref(&e_w); }
static void user_destructor() {
    // the object's destructor may itself create and drop weak handles of the same block
    int k = xs_choose(4, "weak handles changed by the object's destructor");
    if (k == 0) return;
    if (k == 1) { g_real_inc_weak(); g_real_dec_weak(); }
    else if (k == 3) { e_w = e_w + 1; g_real_inc_weak(); }     // one that stays
    else {
        if (!xs_decide(e_w >= 2)) xs_no_path();
        e_w = e_w - 1;
        g_real_dec_weak();
    }
    xs_check(n_dself == 0, "C03: the block is not freed while the object is being destroyed");
}
template <typename RC> void seq() {
    static const int ops = 9;
    int op = xs_choose(ops, "operation");
    bool need_s = op == 0 || op == 1;
    bool dead = false;
    int mw = op == 3 ? 1 : 0;
    if (op == 2 || op == 3 || op == 4) dead = xs_choose(2, "strong count zero") == 1;
    if (op == 2 && dead) mw = 1;
    setup<RC> s(false, need_s ? 1 : 0, mw, dead);
    if (!need_s && !dead) xs_assume(s.s0 >= 1);
    if (dead) xs_assume(s.w0 >= 1);
    tcb<RC>* cb = s.cb; const void* who = &s.h;
    g_real_inc_weak = real_inc_weak<RC>; g_real_dec_weak = real_dec_weak<RC>;
    e_w = s.w0;
    if (op == 0) {
        { xs_lib l; cb->inc_strong_ref(who); }
        xs_check(S() == s.s0 + 1, "C01: inc_strong_ref adds one strong owner");
        xs_check(W() == s.w0, "C03: inc_strong_ref leaves the weak side alone");
        xs_check(n_dres + n_dself == 0, "C02|C03: inc_strong_ref destroys nothing");
    }
    else if (op == 1) {
        g_on_resource = user_destructor;
        { xs_lib l; cb->dec_strong_ref(who); }
        if (xs_decide(s.s0 == 1)) {
            xs_check(n_dres == 1, "C02: the last strong owner's release destroys the object");
            if (xs_decide(e_w == 1)) xs_check(n_dself == 1, "C03: the last release frees the block");
            else {
                xs_require(n_dself == 0 && !freed, "C03: the block stays while weak handles exist");
                xs_check(W() == e_w - 1, "C03: the owners' common weak reference is dropped once");
                xs_check(S() == 0, "C01: dec_strong_ref removes one strong owner");
            }
        }
        else {
            xs_require(n_dself == 0 && !freed, "C03: the block stays while strong owners exist");
            xs_check(n_dres == 0, "C02: the object stays while strong owners exist");
            xs_check(S() == s.s0 - 1, "C01: dec_strong_ref removes one strong owner");
            xs_check(W() == s.w0, "C03: dec_strong_ref of a remaining owner leaves the weak side alone");
        }
    }
    else if (op == 2) {
        { xs_lib l; cb->inc_weak_ref(who); }
        xs_check(W() == s.w0 + 1, "C03: inc_weak_ref adds one weak handle");
        xs_check(S() == s.s0, "C01|C03: inc_weak_ref leaves the strong count alone");
        xs_check(n_dres + n_dself == 0, "C02|C03: inc_weak_ref destroys nothing");
    }
    else if (op == 3) {
        { xs_lib l; cb->dec_weak_ref(who); }
        xs_check(n_dres == 0, "C02: weak handles do not destroy the object");
        if (xs_decide(s.w0 == 1)) xs_check(n_dself == 1, "C03: the last handle's release frees the block");
        else {
            xs_require(n_dself == 0 && !freed, "C03: the block stays while handles exist");
            xs_check(W() == s.w0 - 1, "C03: dec_weak_ref removes one weak handle");
            xs_check(S() == s.s0, "C01|C03: dec_weak_ref leaves the strong count alone");
        }
    }
    else if (op == 4) {
        bool r; { xs_lib l; r = cb->inc_strong_ref_nz(who); }
        xs_check(r == !dead, "C04: inc_strong_ref_nz succeeds exactly if there is a strong owner");
        xs_check(S() == (dead ? 0 : s.s0 + 1), "C01|C04: inc_strong_ref_nz adds one owner on success and nothing on failure");
        xs_check(W() == s.w0, "C03|C04: inc_strong_ref_nz leaves the weak side alone");
        xs_check(n_dres + n_dself == 0, "C02|C03|C04: inc_strong_ref_nz destroys nothing");
    }
    else {
        long r = 0;
        { xs_lib l;
            if (op == 5) cb->init_strong(who);
            else if (op == 6) cb->transfer_strong(who, &r);
            else if (op == 7) cb->transfer_weak(who, &r);
            else r = cb->strong_ref_count();
        }
        if (op == 8) xs_check(r == long(s.s0), "C01|C04: strong_ref_count is the number of strong owners");
        xs_check(S() == s.s0, "C01: init, transfer and count do not change the strong count");
        xs_check(W() == s.w0, "C03: init, transfer and count do not change the weak count");
        xs_check(n_dres + n_dself == 0, "C02|C03: init, transfer and count destroy nothing");
    }
    s.done();
}
CONTRACT(cb_local_seq, "C01 C02 C03 C04", "control_block_base<local_ref_count>: all hooks, every count") { seq<xmem::local_ref_count>(); }
CONTRACT(cb_atomic_seq, "C01 C02 C03 C04", "control_block_base<atomic_ref_count>: all hooks, every count") { seq<xmem::atomic_ref_count>(); }

// ---------------------------------------------------------------- under interference
using ARC = xmem::atomic_ref_count;
static void conc_end() {
    xs_check(!s_zero || n_dres == 1, "C02: the thread whose release produced zero destroys the object");
    xs_check(s_zero || n_dres == 0, "C02: nobody else destroys the object");
    xs_check(!w_zero || n_dself == 1, "C03: the thread whose release produced zero frees the block");
    xs_check(w_zero || w_excl || n_dself == 0, "C03: nobody else frees the block");
}
CONTRACT(cb_conc_inc_strong, "C01 C02 C05", "inc_strong_ref by an owner, any interference") {
    setup<ARC> s(true, 1, 0, false);
    { xs_lib l; s.cb->inc_strong_ref(&s.h); }
    xs_check(ds == 1, "C01: inc_strong_ref adds exactly one strong owner");
    xs_check(dw == 0, "C03: inc_strong_ref leaves the weak side alone");
    conc_end(); s.done();
}
CONTRACT(cb_conc_dec_strong, "C01 C02 C03 C05 C06", "dec_strong_ref by an owner, any interference, any other owners") {
    setup<ARC> s(true, 1, 0, false);
    int keep = xs_choose(2, "the object's destructor leaves a weak handle");
    if (keep) g_on_resource = real_inc_weak<ARC>;
    { xs_lib l; s.cb->dec_strong_ref(&s.h); }
    xs_check(ds == -1, "C01: dec_strong_ref removes exactly one strong owner");
    if (s_zero) {
        xs_cover("last owner");
        if (keep) xs_check(dw == 0 && n_dself == 0 && !freed, "C03: the block stays while weak handles exist");
        else xs_check(dw == -1 || (dw == 0 && w_excl && n_dself == 1), "C03: the last owner drops the common weak reference once");
    }
    else { xs_cover("other owners left"); xs_check(dw == 0, "C03: other owners leave the weak side alone"); }
    conc_end(); s.done();
}
CONTRACT(cb_conc_inc_weak, "C03 C05", "inc_weak_ref by an owner or weak handle, any interference") {
    int by = xs_choose(2, "called by a weak handle");
    setup<ARC> s(true, by ? 0 : 1, by ? 1 : 0, false);
    { xs_lib l; s.cb->inc_weak_ref(&s.h); }
    xs_check(dw == 1, "C03: inc_weak_ref adds exactly one weak handle");
    xs_check(ds == 0, "C01|C03: inc_weak_ref leaves the strong side alone");
    conc_end(); s.done();
}
CONTRACT(cb_conc_dec_weak, "C02 C03 C05 C06", "dec_weak_ref by a weak handle, any interference") {
    setup<ARC> s(true, 0, 1, false);
    { xs_lib l; s.cb->dec_weak_ref(&s.h); }
    // a block whose last handle goes has no strong owner left
    xs_check(dw == -1 || (dw == 0 && w_excl && n_dself == 1), "C03: dec_weak_ref removes exactly one weak handle");
    xs_check(ds == 0, "C01|C03: dec_weak_ref leaves the strong side alone");
    conc_end(); s.done();
}
CONTRACT(cb_conc_lock, "C01 C02 C04 C05", "inc_strong_ref_nz by a weak handle, any interference") {
    setup<ARC> s(true, 0, 1, false);
    bool r; { xs_lib l; r = s.cb->inc_strong_ref_nz(&s.h); }
    if (r) { xs_cover("locked"); xs_check(ds == 1, "C01|C04: a successful lock adds exactly one owner"); }
    else {
        xs_cover("expired");
        xs_check(ds == 0, "C01|C04: a failed lock changes nothing");
        xs_check((seen_s == 1) & (last_s == 0), "C04: lock fails only when there is no strong owner");
    }
    xs_check(dw == 0, "C03|C04: lock leaves the weak side alone");
    conc_end(); s.done();
}
CONTRACT(cb_conc_count, "C01 C04 C05", "strong_ref_count, any interference") {
    setup<ARC> s(true, 0, 1, false);
    long r; { xs_lib l; r = s.cb->strong_ref_count(); }
    xs_check(seen_s == 1 && uint64_t(r) == last_s, "C01|C04: strong_ref_count returns a value the count had");
    xs_check(ds == 0 && dw == 0, "C01|C03: strong_ref_count changes nothing");
    conc_end(); s.done();
}
CONTRACT(cb_conc_other, "C01 C03 C05", "init_strong and the transfer hooks of the standard block") {
    setup<ARC> s(true, 1, 0, false);
    int k = xs_choose(3, "hook");
    { xs_lib l;
        if (k == 0) s.cb->init_strong(&s.h);
        else if (k == 1) s.cb->transfer_strong(&s.h, &k);
        else s.cb->transfer_weak(&s.h, &k);
    }
    xs_check(ds == 0 && dw == 0, "C01|C03: init and transfer change no count");
    conc_end(); s.done();
}
CONTRACT(cb_kinds, "C05 C01", "which block the handles use") {
    constexpr bool a = std::is_same_v<xmem::shared_ptr<int>::control_block_type, xmem::control_block_base<ARC>> && std::is_same_v<xmem::weak_ptr<int>::control_block_type, xmem::control_block_base<ARC>>;
    constexpr bool l = std::is_same_v<xmem::local_shared_ptr<int>::control_block_type, xmem::control_block_base<xmem::local_ref_count>> && std::is_same_v<xmem::local_weak_ptr<int>::control_block_type, xmem::control_block_base<xmem::local_ref_count>>;
    xs_check(a, "C05: shared_ptr and weak_ptr use the block with atomic counts, the one these contracts are about");
    xs_check(l, "C01: the local handles use the block with plain counts, the one these contracts are about");
    xs_cover("end");
}
