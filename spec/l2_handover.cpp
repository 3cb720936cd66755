// shared pointers taking over raw and unique pointers, with every kind of deleter
// (C14 C11 C12 C13 C15, C01 C02 C09 C16): the real control blocks, allocation that may fail
#include "ledger.hpp"
#include "xmem_begin.hpp"
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/unique_ptr.hpp>
#include "xmem_end.hpp"

struct Shared {
    template <typename T> using ptr = xmem::shared_ptr<T>;
    template <typename T> using est = xmem::enable_shared_from_this<T>;
    using esf = xmem::enable_shared_from;
};
struct Local {
    template <typename T> using ptr = xmem::local_shared_ptr<T>;
    template <typename T> using est = xmem::enable_local_shared_from_this<T>;
    using esf = xmem::enable_local_shared_from;
};
struct B1 { long x; };
struct B2 { long y; };
struct D2 : B1, B2 { long z; };

// ---- disposals
static int g_nd; static uint64_t g_d_id[6]; static const void* g_d_p[6];
static void (*g_on_dispose)();
static void dispose(uint64_t id, const void* p) {
    if (g_nd >= 6) { xs_check(false, "C12|C02: a pointer is disposed of once"); xs_stop(); }
    g_d_id[g_nd] = id; g_d_p[g_nd] = p; g_nd++;
    if (g_on_dispose && xs_decide(id == 99)) { auto f = g_on_dispose; g_on_dispose = nullptr; f(); }
}
static int disposed(uint64_t id, const void* p) {
    int n = 0;
    for (int i = 0; i < g_nd; ++i) if (xs_decide((g_d_id[i] == id) & (g_d_p[i] == p))) n++;
    return n;
}
// a stateful deleter; moved-from ones are recognisable, copies are counted
static int g_copies;
template <typename U> struct Del {
    uint64_t id;
    explicit Del(uint64_t i) noexcept : id(i) {}
    Del(const Del& o) noexcept : id(o.id) { xs_ghost g; g_copies++; }
    Del(Del&& o) noexcept : id(o.id) { o.id = 0; }
    Del& operator=(const Del& o) noexcept { { xs_ghost g; g_copies++; } id = o.id; return *this; }
    Del& operator=(Del&& o) noexcept { uint64_t i = o.id; o.id = 0; id = i; return *this; }
    void operator()(U* p) const noexcept { xs_ghost g; xs_check(p != nullptr, "C12: null is never passed to a deleter"); dispose(id, p); }
};
template <typename U> void fdel(U* p) { xs_ghost g; xs_check(p != nullptr, "C12: null is never passed to a deleter"); dispose(77, p); }

enum { RAW_DEL, RAW_FN, NULL_DEL, UPTR_DEL, UPTR_REF, UPTR_FN, KINDS };

// one that is large and over-aligned
template <typename U> struct alignas(64) DelBig : Del<U> { char room[200]; using Del<U>::Del; };
template <typename F, typename T, typename U, typename DL = Del<U>> struct hand {
    using P = typename F::template ptr<T>;
    using UD = xmem::unique_ptr<U, DL>;
    using UR = xmem::unique_ptr<U, DL&>;
    using UF = xmem::unique_ptr<U, void(*)(U*)>;
    int kind; uint64_t id; U* p; T* e; DL* ref; UD* ud; UR* ur; UF* uf;
    hand(int k, void* place) : kind(k) {
        id = xs_nondet(32, "deleter"); xs_assume((id != 0) & (id != 77) & (id != 99));
        p = k == NULL_DEL ? nullptr : (U*)xs_nondet_ptr("pointer");
        e = p;
        ref = new (xs_region(sizeof(DL), alignof(DL), "deleter")) DL(id);
        if (!place) place = xs_region(sizeof(UD) + 32, alignof(UD), "unique pointer");
        ud = (UD*)place; ur = (UR*)place; uf = (UF*)place;
        if (k == UPTR_DEL) new (ud) UD(p, DL(id));
        if (k == UPTR_REF) new (ur) UR(p, *ref);
        if (k == UPTR_FN) new (uf) UF(p, fdel<U>);
        if (k == RAW_FN || k == UPTR_FN) id = 77;
    }
    void construct(P* t) { g_copies = 0; construct_(t); moved(); }
    void assign(P* t, bool reset) { g_copies = 0; assign_(t, reset); moved(); }
    void moved() { xs_check(g_copies == 0, "C13|C14: a deleter handed over is moved, never copied"); }
    void construct_(P* t) {
        xs_lib l;
        switch (kind) {
        case RAW_DEL: new (t) P(p, DL(id)); break;
        case RAW_FN: new (t) P(p, fdel<U>); break;
        case NULL_DEL: new (t) P(nullptr, Del<T>(id)); break;
        case UPTR_DEL: new (t) P(std::move(*ud)); break;
        case UPTR_REF: new (t) P(std::move(*ur)); break;
        default: new (t) P(std::move(*uf)); break;
        }
    }
    void assign_(P* t, bool reset) {
        xs_lib l;
        switch (kind) {
        case RAW_DEL: t->reset(p, DL(id)); break;
        case RAW_FN: t->reset(p, fdel<U>); break;
        case NULL_DEL: *t = P(nullptr, Del<T>(id)); break;
        case UPTR_DEL: *t = std::move(*ud); break;
        case UPTR_REF: *t = std::move(*ur); break;
        default: *t = std::move(*uf); break;
        }
    }
    bool from_unique() const { return kind >= UPTR_DEL; }
    U* left() { return kind == UPTR_DEL ? ud->get() : kind == UPTR_REF ? ur->get() : uf->get(); }
    bool keeps_deleter() { return kind == UPTR_DEL ? ud->get_deleter().id == id : kind == UPTR_REF ? &ur->get_deleter() == ref : uf->get_deleter() == fdel<U>; }
    void drop_unique() { xs_lib l; if (kind == UPTR_DEL) ud->~UD(); else if (kind == UPTR_REF) ur->~UR(); else uf->~UF(); }
    // nothing was taken over
    void failed() {
        int want = xs_decide(p == nullptr) ? 0 : 1;
        if (from_unique()) {
            xs_check(left() == p, "C11: after an exception the unique pointer still owns");
            xs_check(keeps_deleter(), "C11|C13: after an exception the unique pointer still has its deleter");
            xs_check(disposed(id, p) == 0, "C11|C12: an object left with its owner is not disposed of");
            drop_unique();
        }
        xs_check(disposed(id, p) == want, "C11|C12|C13: after an exception the pointer is disposed of once, by its deleter");
    }
};

template <typename F, typename T, typename U, typename DL = Del<U>> void ctor_contract() {
    ledger_start(); g_nd = 0; g_on_dispose = nullptr;
    using P = typename F::template ptr<T>;
    hand<F, T, U, DL> h(xs_choose(KINDS, "what is handed over"), nullptr);
    P* t = (P*)xs_region(sizeof(P), 8, "result");
    g_can_fail = 1;
    int threw = 0;
    try { h.construct(t); } catch (const std::bad_alloc&) { threw = 1; }
    g_can_fail = 0;
    xs_check(threw == g_failed, "C11: an exception reaches the caller, and only if something threw");
    if (threw) {
        h.failed();
        xs_check(g_allocs == 0, T_LEAK);
        xs_cover("thrown");
        return;
    }
    T* g; long c;
    { xs_lib l; g = t->get(); c = t->use_count(); }
    xs_check(g == h.e, "C14: the result points to the object given");
    xs_check(c == 1, "C14|C01: the result is the only owner");
    xs_check(g_nd == 0, "C02|C12: the object is not disposed of while it is owned");
    if (h.from_unique()) { xs_check(h.left() == nullptr, "C13|C12: the unique pointer gives up what it handed over"); h.drop_unique(); xs_check(g_nd == 0, "C12: an empty unique pointer disposes of nothing"); }
    int want = xs_decide(h.p == nullptr) ? 0 : 1;
    P* t2 = (P*)xs_region(sizeof(P), 8, "second owner");
    int share = xs_choose(2, "shared once more");
    if (share) {
        { xs_lib l; new (t2) P(*t); t->~P(); }
        xs_check(g_nd == 0, "C02: the object lives as long as an owner");
        t = t2;
    }
    { xs_lib l; t->~P(); }
    xs_check(g_nd == want && disposed(h.id, h.p) == want, "C02|C12|C13|C14: the object is disposed of once, by its own deleter");
    xs_check(g_allocs == 0, "C03|C14|C15: all memory is returned with the last owner");
    xs_cover("end");
}
CONTRACT(h_ctor, "C14 C11 C12 C13 C15 C01 C02 C03", "construction from raw and unique pointers, atomic") { ctor_contract<Shared, D2, D2>(); }
CONTRACT(h_ctor_local, "C14 C11 C12 C13 C15 C01 C02 C03", "construction from raw and unique pointers, local") { ctor_contract<Local, D2, D2>(); }
CONTRACT(h_ctor_big, "C14 C11 C12 C13 C15 C01 C02 C03", "construction from raw and unique pointers with a large, over-aligned deleter") { ctor_contract<Shared, D2, D2, DelBig<D2>>(); }
// construction with conversion: only from pointers to the derived class
CONTRACT(h_ctor_base, "C14 C11 C12 C13 C15 C01 C02 C03", "construction from raw and unique pointers to a derived class") { ctor_contract<Shared, B2, D2>(); }

template <typename F> struct assign_ctx {
    using P = typename F::template ptr<D2>;
    static P* t; static D2* want; static D2* old; static void* home; static int seen_other;
    static void on_dispose() {
        D2* g; { xs_lib l; g = t->get(); }
        const void* o; long c; { xs_lib l; o = t->owner(); c = t->use_count(); }
        xs_check(g == want && c == 1 && o, "C09: when the old object is released the target has its new value");
        if (home) { xs_kill(home); home = nullptr; }
    }
};
template <typename F> typename assign_ctx<F>::P* assign_ctx<F>::t;
template <typename F> D2* assign_ctx<F>::want;
template <typename F> D2* assign_ctx<F>::old;
template <typename F> void* assign_ctx<F>::home;

template <typename F> void assign_contract() {
    ledger_start(); g_nd = 0; g_on_dispose = nullptr;
    using P = typename F::template ptr<D2>;
    using C = assign_ctx<F>;
    D2* op = (D2*)xs_nondet_ptr("old pointer"); xs_assume(op != nullptr);
    P* t = (P*)xs_region(sizeof(P), 8, "target");
    int had = xs_choose(2, "target owns");
    if (had) new (t) P(op, Del<D2>(99)); else new (t) P();
    P* keep = (P*)xs_region(sizeof(P), 8, "other owner");
    int shared = had ? xs_choose(2, "old object has another owner") : 0;
    if (shared) new (keep) P(*t);
    // the unique pointer may live inside the object that is released
    void* home = had && !shared && xs_choose(2, "the source lives in the old object") ? xs_region(32, 8, "old object") : nullptr;
    hand<F, D2, D2> h(xs_choose(KINDS, "what is handed over"), home);
    if (home && !h.from_unique()) xs_no_path();
    int before = g_allocs;
    const void* oo = t->owner();
    C::t = t; C::want = h.e; C::home = home;
    g_on_dispose = C::on_dispose;
    g_can_fail = 1;
    int threw = 0;
    int reset = 0;
    try { h.assign(t, reset); } catch (const std::bad_alloc&) { threw = 1; }
    g_can_fail = 0; g_on_dispose = nullptr;
    xs_check(threw == g_failed, "C11: an exception reaches the caller, and only if something threw");
    D2* g; long c; const void* o;
    { xs_lib l; g = t->get(); c = t->use_count(); o = t->owner(); }
    if (threw) {
        xs_check(o == oo && g == (had ? op : nullptr), "C11: after an exception the target keeps its value");
        xs_check(c == (had ? 1 + shared : 0), "C11|C01: after an exception the target is still an owner");
        xs_check(disposed(99, op) == 0, "C11|C02: after an exception the old object is still owned");
        h.failed();
        xs_check(g_allocs == before, T_LEAK);
        { xs_lib l; t->~P(); }
        if (shared) { xs_lib l; keep->~P(); }
        xs_check(disposed(99, op) == had, "C02|C12: the old object is disposed of once, by its own deleter");
        xs_check(g_allocs == 0, T_LEAK);
        xs_cover("thrown");
        return;
    }
    xs_check(g == h.e && o != nullptr, "C14: the target points to the object given");
    xs_check(c == 1, "C14|C01: the target is the only owner of the new object");
    xs_check(disposed(99, op) == (had && !shared), "C02: the old object is released exactly if this was its last owner");
    xs_check(disposed(h.id, h.p) == 0, "C02|C12: the new object is not disposed of while it is owned");
    if (h.from_unique() && !home) { xs_check(h.left() == nullptr, "C13|C12: the unique pointer gives up what it handed over"); h.drop_unique(); }
    int want = xs_decide(h.p == nullptr) ? 0 : 1;
    { xs_lib l; t->~P(); }
    xs_check(disposed(h.id, h.p) == want, "C02|C12|C13|C14: the new object is disposed of once, by its own deleter");
    if (shared) { xs_lib l; keep->~P(); }
    xs_check(disposed(99, op) == had && g_nd == had + want, "C02|C12: the old object is disposed of once, by its own deleter");
    xs_check(g_allocs == 0, "C03|C14|C15: all memory is returned with the last owner");
    xs_cover("end");
}
CONTRACT(h_assign, "C14 C11 C12 C13 C15 C01 C02 C03 C09", "assignment and reset from raw and unique pointers, atomic") { assign_contract<Shared>(); }
CONTRACT(h_assign_local, "C14 C11 C12 C13 C15 C01 C02 C03 C09", "assignment and reset from raw and unique pointers, local") { assign_contract<Local>(); }

// ---- default deletion
template <typename F> void default_contract() {
    using T = Rec<8>; using P = typename F::template ptr<T>; using U = xmem::unique_ptr<T>;
    ledger_start();
    int null = xs_choose(2, "null");
    T* p = null ? nullptr : new T();
    int how = xs_choose(4, "raw, unique, reset, assign");
    P* t = (P*)xs_region(sizeof(P), 8, "target");
    U* u = new (xs_region(sizeof(U), 8, "unique pointer")) U(how == 1 || how == 3 ? p : nullptr);
    T* old = nullptr;
    if (how >= 2) { if (xs_choose(2, "the target owns something")) old = new T(); xs_lib l; if (old) new (t) P(old); else new (t) P(); }
    const void* oo = nullptr; if (old) { xs_lib l; oo = t->owner(); }
    g_can_fail = 1;
    int threw = 0;
    try {
        xs_lib l;
        if (how == 0) new (t) P(p);
        else if (how == 1) new (t) P(std::move(*u));
        else if (how == 2) t->reset(p);
        else *t = std::move(*u);
    } catch (const std::bad_alloc&) { threw = 1; }
    g_can_fail = 0;
    xs_check(threw == g_failed, "C11: an exception reaches the caller, and only if something threw");
    if (threw) {
        if (how == 1 || how == 3) xs_check(u->get() == p && g_nobjs == !null + (old != nullptr), "C11: after an exception the unique pointer still owns");
        { xs_lib l; u->~U(); }
        xs_check(g_nobjs == (old != nullptr), "C11|C12: after an exception the object is destroyed once");
        if (how >= 2) { const void *o, *q; { xs_lib l; o = t->owner(); q = t->get(); } xs_check(o == oo && q == old, "C11: after an exception the target keeps its value"); { xs_lib l; t->~P(); } }
        xs_check(g_nobjs == 0, "C11: after an exception the target's object is destroyed once, with the target");
        xs_check(g_allocs == 0, T_LEAK);
        xs_cover("thrown");
        return;
    }
    T* g; long c;
    { xs_lib l; g = t->get(); c = t->use_count(); }
    xs_check(g == p && c == 1, "C14|C01: the target is the only owner of the object given");
    xs_check(u->get() == nullptr, "C13|C12: the unique pointer gives up what it handed over");
    { xs_lib l; u->~U(); }
    xs_check(g_nobjs == !null, "C02|C12: the object is not destroyed while it is owned, the one owned before is");
    { xs_lib l; t->~P(); }
    xs_check(g_nobjs == 0 && g_gone == !null + (old != nullptr), "C02|C12|C14: the object is destroyed once");
    xs_check(g_allocs == 0, "C03|C14|C15: all memory is returned with the last owner");
    xs_cover("end");
}
CONTRACT(h_default, "C14 C11 C12 C13 C15 C01 C02 C03", "raw and unique pointers with the default deleter, atomic") { default_contract<Shared>(); }
CONTRACT(h_default_local, "C14 C11 C12 C13 C15 C01 C02 C03", "raw and unique pointers with the default deleter, local") { default_contract<Local>(); }

// ---- arrays, with the default deleter: an array is deleted as one
template <typename F, typename T> void array_default_contract() {
    using E = Rec<8>; using P = typename F::template ptr<T>; using U = xmem::unique_ptr<E[]>;
    ledger_start();
    int n = xs_choose(4, "length");
    int null = n == 3;
    E* p = null ? nullptr : new E[n];
    int owned = null ? 0 : n;
    int how = xs_choose(6, "raw, unique, reset, assign, null with a deleter, raw with a deleter");
    if (how == 4 && !null) xs_no_path();
    P* t = (P*)xs_region(sizeof(P), 8, "target");
    U* u = new (xs_region(sizeof(U), 8, "unique pointer")) U(how == 1 || how == 3 ? p : nullptr);
    int had = 0; E* old = nullptr; const void* oo = nullptr;
    if (how == 2 || how == 3) {
        had = xs_choose(2, "the target owns an array") ? 2 : 0;
        if (had) { old = new E[had]; xs_lib l; new (t) P(old, xmem::default_delete<E[]>{}); oo = t->owner(); }
        else { xs_lib l; new (t) P(); }
    }
    g_can_fail = 1;
    int threw = 0;
    try {
        xs_lib l;
        if (how == 0) new (t) P(p);
        else if (how == 1) new (t) P(std::move(*u));
        else if (how == 2) t->reset(p);
        else if (how == 3) *t = std::move(*u);
        else if (how == 4) new (t) P(nullptr, xmem::default_delete<T>{});
        else new (t) P(p, xmem::default_delete<E[]>{});
    } catch (const std::bad_alloc&) { threw = 1; }
    g_can_fail = 0;
    xs_check(threw == g_failed, "C11: an exception reaches the caller, and only if something threw");
    if (threw) {
        if (how == 1 || how == 3) xs_check(u->get() == p && g_nobjs == owned + had, "C11: after an exception the unique pointer still owns");
        { xs_lib l; u->~U(); }
        xs_check(g_nobjs == had, "C11|C12: after an exception each element is destroyed once");
        if (how == 2 || how == 3) { const void *o, *q; { xs_lib l; o = t->owner(); q = t->get(); } xs_check(o == oo && q == old, "C11: after an exception the target keeps its value"); { xs_lib l; t->~P(); } }
        xs_check(g_nobjs == 0, "C11: after an exception the target's elements are destroyed once, with the target");
        xs_check(g_allocs == 0, T_LEAK);
        xs_cover("thrown");
        return;
    }
    const E* g; long c;
    { xs_lib l; g = t->get(); c = t->use_count(); }
    xs_check(g == p && c == 1, "C14|C01: the target is the only owner of the array given");
    if (n == 2) { const E* a; { xs_lib l; a = &(*t)[1]; } xs_check(a == p + 1, "C14: an index gives that element"); }
    xs_check(u->get() == nullptr, "C13|C12: the unique pointer gives up what it handed over");
    { xs_lib l; u->~U(); }
    xs_check(g_nobjs == owned, "C02|C12: no element is destroyed while the array is owned, those owned before are");
    P* t2 = (P*)xs_region(sizeof(P), 8, "second owner");
    if (xs_choose(2, "handed on through a weak pointer")) {
        using W = typename P::weak_type; W* w = (W*)xs_region(sizeof(W), 8, "weak pointer");
        { xs_lib l; new (w) W(*t); new (t2) P(w->lock()); t->~P(); w->~W(); }
        { xs_lib l; g = t2->get(); }
        xs_check(g == p && g_nobjs == owned, "C02|C04: the array lives as long as an owner");
        t = t2;
    }
    { xs_lib l; t->~P(); }
    xs_check(g_nobjs == 0 && g_gone == owned + had, "C02|C12|C14: each element is destroyed once");
    xs_check(g_allocs == 0, "C03|C14|C15: all memory is returned with the last owner");
    xs_cover("end");
}
CONTRACT(h_array, "C14 C11 C12 C13 C15 C01 C02 C03 C04", "shared pointers to arrays of unknown bound, with the default deleter, atomic") { array_default_contract<Shared, Rec<8>[]>(); }
CONTRACT(h_array_const, "C14 C11 C12 C13 C15 C01 C02 C03 C04", "shared pointers to arrays of const elements, with the default deleter, atomic") { array_default_contract<Shared, const Rec<8>[]>(); }
CONTRACT(h_array_local, "C14 C11 C12 C13 C15 C01 C02 C03 C04", "shared pointers to arrays of unknown bound, with the default deleter, local") { array_default_contract<Local, Rec<8>[]>(); }

// ---- objects that know their owner
template <typename F> struct Self : F::template est<Self<F>> {
    uint64_t v;
    Self() : v(1) { xs_ghost g; obj_born(this); }
    ~Self() {
        if (xs_choose(2, "the destructor asks for its owner")) {
            xs_lib l;
            auto p = this->shared_from_this();
            xs_ghost g;
            xs_check(p.owner() == nullptr && p.get() == nullptr, "C16|C02: shared_from_this of a dying object is empty");
        }
        xs_ghost g; obj_dies(this);
    }
};
template <typename F, typename M> void self_contract(M make) {
    using T = Self<F>; using P = typename F::template ptr<T>;
    ledger_start();
    int how = xs_choose(5, "unique, raw, make, null unique, null raw");
    T* p = how == 0 || how == 1 ? new T() : nullptr;
    using U = xmem::unique_ptr<T>;
    P* t = (P*)xs_region(sizeof(P), 8, "target");
    U* u = new (xs_region(sizeof(U), 8, "unique pointer")) U(how == 0 ? p : nullptr);
    if (p) {
        P* q = (P*)xs_region(sizeof(P), 8, "before");
        { xs_lib l; new (q) P(p->shared_from_this()); }
        xs_check(q->owner() == nullptr && q->get() == nullptr, "C16: an object without an owner has none to share");
    }
    {
        xs_lib l;
        if (how == 0 || how == 3) new (t) P(std::move(*u));
        else if (how == 2) make(t);
        else new (t) P(p);
    }
    T* g; { xs_lib l; g = t->get(); }
    if (how >= 3) xs_check(g == nullptr, "C16: creating the owner works for null pointers");
    else {
        if (how < 2) xs_check(g == p, "C14: the target points to the object given");
        P* q = (P*)xs_region(sizeof(P), 8, "shared");
        { xs_lib l; new (q) P(g->shared_from_this()); }
        xs_check(q->get() == g && q->owner() == t->owner(), "C16: shared_from_this shares the owner and points to the object");
        long c; { xs_lib l; c = t->use_count(); }
        xs_check(c == 2, "C16|C01: shared_from_this is one more owner");
        { xs_lib l; q->~P(); }
        typename P::weak_type* w = (typename P::weak_type*)xs_region(sizeof(*w), 8, "weak");
        { xs_lib l; new (w) typename P::weak_type(g->weak_from_this()); }
        xs_check(w->owner() == t->owner(), "C16: weak_from_this shares the owner");
        { xs_lib l; c = t->use_count(); new (q) P(w->lock()); }
        xs_check(c == 1, "C16|C01: weak_from_this is no owner");
        xs_check(q->get() == g && q->owner() == t->owner(), "C16|C04: weak_from_this points to the object");
        { xs_lib l; q->~P(); }
        if (xs_choose(2, "the weak pointer goes first")) { { xs_lib l; w->~basic_weak_ptr(); } { xs_lib l; t->~P(); } xs_check(g_nobjs == 0, "C02: the object is destroyed with its last owner"); }
        else { { xs_lib l; t->~P(); } xs_check(g_nobjs == 0, "C02: the object is destroyed with its last owner"); { xs_lib l; w->~basic_weak_ptr(); } }
        xs_check(g_gone == 1, "C02: the object is destroyed once");
        xs_check(g_allocs == 0, "C03|C15: all memory is returned with the last handle");
        xs_cover("end");
        return;
    }
    { xs_lib l; t->~P(); }
    xs_check(g_allocs == 0, "C03|C15: all memory is returned with the last handle");
    xs_cover("null");
}
CONTRACT(h_self, "C16 C14 C01 C02 C03 C04 C15", "owners of enable_shared_from_this objects, atomic") {
    using P = xmem::shared_ptr<Self<Shared>>;
    self_contract<Shared>([](P* t) { new (t) P(xmem::make_shared<Self<Shared>>()); });
}
CONTRACT(h_self_local, "C16 C14 C01 C02 C03 C04 C15", "owners of enable_shared_from_this objects, local") {
    using P = xmem::local_shared_ptr<Self<Local>>;
    self_contract<Local>([](P* t) { new (t) P(xmem::make_local_shared<Self<Local>>()); });
}

// ---- which classes are found to know their owner: abstract, derived ones, at an offset, every way to make the owner
template <typename F> struct Abs : F::template est<Abs<F>> {
    uint64_t v;
    Abs() : v(1) { xs_ghost g; obj_born(this); }
    virtual ~Abs() { xs_ghost g; obj_dies(this); }
    virtual void pure() = 0;
};
template <typename F> struct Der final : B1, Abs<F> { long z = 3; void pure() override {} };
template <typename F> struct Vrt : B1, virtual F::esf {
    uint64_t v;
    Vrt() : v(1) { xs_ghost g; obj_born(this); }
    ~Vrt() { xs_ghost g; obj_dies(this); }
    auto shared_from_this() { return this->shared_from(this); }
    auto shared_from_this() const { return this->shared_from(this); }
    auto weak_from_this() { return this->weak_from(this); }
    auto weak_from_this() const { return this->weak_from(this); }
};
template <typename F, typename T, typename V> void self_check(typename F::template ptr<T>* t, V* v);
template <typename F, typename T, typename U, typename V> void self_kind(int how, U* given) {
    // T: what is pointed to; U: what is given; V: the class that knows its owner
    using P = typename F::template ptr<T>; 
    P* t = (P*)xs_region(sizeof(P), 8, "target");
    using UP = xmem::unique_ptr<U>;
    UP* u = new (xs_region(sizeof(UP), 8, "unique pointer")) UP(how == 0 || how == 1 ? given : nullptr);
    {
        xs_lib l;
        if (how == 0) new (t) P(std::move(*u));
        else if (how == 1) { new (t) P(); *t = std::move(*u); }
        else if (how == 2) new (t) P(given);
        else if (how == 3) { new (t) P(); t->reset(given); }
        else new (t) P(given, [](U* p) { delete p; });
    }
    V* v = const_cast<std::remove_const_t<U>*>(given);
    self_check<F, T, V>(t, v);
}
template <typename F, typename T, typename V> void self_check(typename F::template ptr<T>* t, V* v) {
    using P = typename F::template ptr<T>; using PV = typename F::template ptr<V>; using PC = typename F::template ptr<const V>;
    using WV = typename PV::weak_type; using WC = typename PC::weak_type;
    T* g; { xs_lib l; g = t->get(); }
    xs_check(g == v, "C14: the target points to the object given");
    void* m = xs_region(sizeof(PV), 8, "shared");
    int con = xs_choose(2, "from a const object");
    const void *o, *q, *to; long c;
    if (con) { PC* s = (PC*)m; xs_lib l; new (s) PC(std::as_const(*v).shared_from_this()); o = s->owner(); q = s->get(); c = t->use_count(); to = t->owner(); s->~PC(); }
    else { PV* s = (PV*)m; xs_lib l; new (s) PV(v->shared_from_this()); o = s->owner(); q = s->get(); c = t->use_count(); to = t->owner(); s->~PV(); }
    xs_check(o == to && q == v, "C16: shared_from_this shares the owner and points to the object");
    xs_check(c == 2, "C16|C01: shared_from_this is one more owner");
    if (con) { WC* s = (WC*)m; xs_lib l; new (s) WC(std::as_const(*v).weak_from_this()); PC k(s->lock()); o = k.owner(); q = k.get(); s->~WC(); }
    else { WV* s = (WV*)m; xs_lib l; new (s) WV(v->weak_from_this()); PV k(s->lock()); o = k.owner(); q = k.get(); s->~WV(); }
    xs_check(o == to && q == v, "C16|C04: weak_from_this shares the owner and points to the object");
    { xs_lib l; c = t->use_count(); }
    xs_check(c == 1, "C16|C01: no owner is left behind");
    { xs_lib l; t->~P(); }
    xs_check(g_nobjs == 0 && g_gone == 1, "C02: the object is destroyed once, with its last owner");
    xs_check(g_allocs == 0, "C03|C15: all memory is returned with the last handle");
    xs_cover("end");
}
template <typename F, typename T, typename V, typename M> void self_made(M make, bool ow) {
    using P = typename F::template ptr<T>;
    P* t = (P*)xs_region(sizeof(P), 8, "target");
    make(t, ow);
    T* d; { xs_lib l; d = t->get(); }
    self_check<F, T, V>(t, const_cast<std::remove_const_t<T>*>(d));
}
template <typename F, typename M> void self_kinds(M make) {
    ledger_start();
    int how = xs_choose(7, "unique, unique assigned, raw, reset, with a deleter, make, make for overwrite");
    using D = Der<F>; using A = Abs<F>; using V = Vrt<F>;
    int k = xs_choose(how >= 5 ? 2 : 5, "class");
    if (how >= 5) { if (k == 0) self_made<F, D, A>(make, how == 6); else self_made<F, V, V>(make, how == 6); }
    else if (k == 0) self_kind<F, D, D, A>(how, new D());
    else if (k == 1) self_kind<F, A, A, A>(how, new D());         // an abstract class
    else if (k == 2) self_kind<F, A, D, A>(how, new D());         // converted
    else if (k == 3) self_kind<F, V, V, V>(how, new V());         // a virtual base
    else self_kind<F, const V, V, V>(how, new V());
}
// const when it is made
template <typename F, typename M> void self_const(M make) {
    ledger_start();
    int how = xs_choose(6, "unique, unique assigned, raw, reset, with a deleter, make");
    using D = Der<F>; using A = Abs<F>; using V = Vrt<F>;
    int k = xs_choose(2, "class");
    if (how == 5) { if (k == 0) self_made<F, const D, A>(make, false); else self_made<F, const V, V>(make, false); }
    else if (k == 0) self_kind<F, const A, const D, A>(how, new const D());
    else self_kind<F, const V, const V, V>(how, new const V());
}
#define MAKE(M) [](auto* t, bool ow) { using P = std::remove_pointer_t<decltype(t)>; using T = typename P::element_type; xs_lib l; if constexpr (!std::is_const_v<T>) if (ow) { new (t) P(xmem::M##_for_overwrite<T>()); return; } new (t) P(xmem::M<T>()); }
CONTRACT(h_self_kinds, "C16 C14 C01 C02 C03 C04 C15", "which classes know their owner: abstract, derived, virtual base, const; every way to make one, atomic") { self_kinds<Shared>(MAKE(make_shared)); }
CONTRACT(h_self_kinds_local, "C16 C14 C01 C02 C03 C04 C15", "which classes know their owner: abstract, derived, virtual base, const; every way to make one, local") { self_kinds<Local>(MAKE(make_local_shared)); }
CONTRACT(h_self_const, "C16 C14", "objects that are const when they are made know their owner, too, atomic") { self_const<Shared>(MAKE(make_shared)); }
CONTRACT(h_self_const_local, "C16 C14", "objects that are const when they are made know their owner, too, local") { self_const<Local>(MAKE(make_local_shared)); }

// ---- deleters that leave the object alone
template <typename F> struct Plain : F::template est<Plain<F>> { uint64_t v = 1; auto shared_any() { return this->shared_from(this); } auto weak_any() { return this->weak_from(this); } };
template <typename T> struct Leave { void operator()(T*) const noexcept {} };
template <typename P, typename T> void asks(T* o, const void* owner) {
    P* q = (P*)xs_region(sizeof(P), 8, "shared"); using W = typename P::weak_type; W* w = (W*)xs_region(sizeof(W), 8, "weak");
    int how = xs_choose(4, "shared_from_this, shared_from, weak_from_this, weak_from");
    const void* r; const void* g; long c;
    if (how < 2) { { xs_lib l; if (how) new (q) P(o->shared_any()); else new (q) P(o->shared_from_this()); r = q->owner(); g = q->get(); } }
    else { { xs_lib l; if (how == 3) new (w) W(o->weak_any()); else new (w) W(o->weak_from_this()); r = w->owner(); c = w->use_count(); new (q) P(w->lock()); g = q->get(); } }
    if (owner) xs_check(r == owner && g == o, "C16: an object with an owner shares it");
    else xs_check((how < 2 ? r == nullptr : c == 0) && g == nullptr, "C16: an object without an owner has none to share");
    { xs_lib l; q->~P(); if (how >= 2) w->~W(); }
}
CONTRACT(h_self_outlives, "C16", "an object that outlives its only owner (the deleter leaves it alone)") {
    using T = Plain<Shared>; using P = xmem::shared_ptr<T>;
    ledger_start();
    T* o = new (xs_region(sizeof(T), alignof(T), "object")) T();
    P* t = (P*)xs_region(sizeof(P), 8, "owner");
    { xs_lib l; new (t) P(o, Leave<T>()); t->~P(); }
    asks<P>(o, nullptr);
    xs_check(g_allocs == 0, "C03|C15: all memory is returned with the last handle");
    xs_cover("end");
}
CONTRACT(h_self_second, "C16", "an object with a second owner that goes first (its deleter leaves the object alone)") {
    using T = Plain<Shared>; using P = xmem::shared_ptr<T>;
    ledger_start();
    P* t = (P*)xs_region(sizeof(P), 8, "owner"); P* s = (P*)xs_region(sizeof(P), 8, "second owner");
    T* o; const void* own;
    { xs_lib l; new (t) P(new T()); o = t->get(); own = t->owner(); new (s) P(o, Leave<T>()); s->~P(); }
    asks<P>(o, own);
    { xs_lib l; t->~P(); }
    xs_check(g_allocs == 0, "C03|C15: all memory is returned with the last handle");
    xs_cover("end");
}
