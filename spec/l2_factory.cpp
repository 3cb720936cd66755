// factories and construction from raw and unique pointers (C14, C11, C15, C01 C02 C03 C16):
// the real control blocks, allocation that may fail, constructors that may throw
#include "ledger.hpp"
#include "xmem_begin.hpp"
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/unique_ptr.hpp>
#include "xmem_end.hpp"

struct Shared {
    template <typename T> using ptr = xmem::shared_ptr<T>;
    template <typename T> using weak = xmem::weak_ptr<T>;
    using factory = xmem::atomic_control_block_factory;
    template <typename T> using est = xmem::enable_shared_from_this<T>;
    template <typename T, typename... A> static ptr<T> make(A&&... a) { return xmem::make_shared<T>(std::forward<A>(a)...); }
    template <typename T> static auto make_ptr(T&& t) { return xmem::make_shared_ptr(std::forward<T>(t)); }
    template <typename T> static ptr<T> make_ow() { return xmem::make_shared_for_overwrite<T>(); }
    template <typename T> static auto owner_of(const ptr<T>& p) { return p.owner(); }
};
struct Local {
    template <typename T> using ptr = xmem::local_shared_ptr<T>;
    template <typename T> using weak = xmem::local_weak_ptr<T>;
    using factory = xmem::local_control_block_factory;
    template <typename T> using est = xmem::enable_local_shared_from_this<T>;
    template <typename T, typename... A> static ptr<T> make(A&&... a) { return xmem::make_local_shared<T>(std::forward<A>(a)...); }
    template <typename T> static auto make_ptr(T&& t) { return xmem::make_local_shared_ptr(std::forward<T>(t)); }
    template <typename T> static ptr<T> make_ow() { return xmem::make_local_shared_for_overwrite<T>(); }
};

// ---------------------------------------------------------------- checks shared by all factories
template <typename P> void sole_owner(P& p, const void* obj) {
    long c; const void* o; const void* g;
    { xs_lib l; c = p.use_count(); o = p.owner(); g = p.get(); }
    xs_check(c == 1, "C14|C01: the result is the only owner");
    xs_check(o != nullptr, "C14: the result owns");
    xs_check(g == obj, "C14: the result points to the object");
}
// give up the result; a weak pointer may outlive it
template <typename P, typename F> void give_up(P* p, F gone) {
    using W = typename P::weak_type;
    int weak = xs_choose(2, "a weak pointer outlives it");
    W* w = (W*)xs_region(sizeof(W), 8, "weak pointer");
    if (weak) { xs_lib l; new (w) W(*p); }
    { xs_lib l; p->~P(); }
    gone();
    if (weak) {
        xs_check(g_allocs > 0, "C03: the control block stays while a weak pointer refers to it");
        P* q = (P*)xs_region(sizeof(P), 8, "locked");
        bool e;
        { xs_lib l; e = w->expired(); new (q) P(w->lock()); }
        xs_check(e && q->owner() == nullptr, "C04: nothing can be locked any more");
        { xs_lib l; q->~P(); w->~W(); }
    }
    xs_check(g_allocs == 0, "C03|C14|C15: all memory is returned with the last handle");
}

template <typename F, typename T, typename G> void make_contract(G call, int n_args, const void* const* ap, const int* ak) {
    using P = typename F::template ptr<T>;
    P* p = (P*)xs_region(sizeof(P), 8, "result");
    g_can_fail = 1; g_ctor_can_throw = 1;
    int threw = 0;
    xs_frame_begin(); xs_frame_allow(p, sizeof(P));
    try { xs_lib l; call(p); } catch (const std::bad_alloc&) { threw = 1; } catch (int) { threw = 2; }
    xs_frame_end();
    xs_check(threw == (g_failed ? 1 : g_ctor_threw ? 2 : 0), "C11: an exception reaches the caller, and only if something threw");
    if (threw) {
        xs_check(g_nobjs == 0 && g_made == g_gone, T_ALIVE);
        xs_check(g_allocs == 0, T_LEAK);
        xs_cover("thrown");
        return;
    }
    g_can_fail = 0; g_ctor_can_throw = 0;
    xs_check(g_made == 1 && g_nobjs == 1, "C14: exactly one object is constructed");
    xs_check(g_nargs == n_args, "C14: the constructor gets exactly the arguments");
    for (int i = 0; i < n_args; ++i) {
        xs_check(g_arg_p[i] == ap[i], "C14: the constructor gets exactly the arguments");
        xs_check(g_arg_k[i] == ak[i], "C14: arguments keep their value category");
    }
    xs_check(xs_aligned(g_objs[0], alignof(T)), "C15|C14: the object is aligned");
    xs_check(xs_is_object(g_objs[0], sizeof(T)), "C15|C14: the object has enough storage");
    sole_owner(*p, g_objs[0]);
    give_up(p, [] { xs_check(g_nobjs == 0 && g_gone == 1, "C02|C14: the object is destroyed once, with its last owner"); });
    xs_cover("end");
}
template <typename F, typename T> void make_args() {
    ledger_start();
    Arg* a = (Arg*)xs_region(sizeof(Arg), 8, "first argument");
    Arg* b = (Arg*)xs_region(sizeof(Arg), 8, "second argument");
    const Arg* c = (Arg*)xs_region(sizeof(Arg), 8, "third argument");
    const Arg* d = (Arg*)xs_region(sizeof(Arg), 8, "fourth argument");
    const void* ap[4] = {a, b, c, d}; const int ak[4] = {LV, RV, CLV, CRV};
    make_contract<F, T>([=](typename F::template ptr<T>* p) { new (p) typename F::template ptr<T>(F::template make<T>(*a, std::move(*b), *c, std::move(*d))); }, 4, ap, ak);
}
template <typename F, typename T> void make_none() {
    ledger_start();
    int ow = xs_choose(2, "for overwrite");
    make_contract<F, T>([=](typename F::template ptr<T>* p) {
        if (ow) new (p) typename F::template ptr<T>(F::template make_ow<T>());
        else new (p) typename F::template ptr<T>(F::template make<T>());
    }, 0, nullptr, nullptr);
}
CONTRACT(m_shared, "C14 C11 C15 C01 C02 C03 C04", "make_shared with arguments") { make_args<Shared, Rec<8>>(); }
CONTRACT(m_shared_over, "C14 C11 C15 C01 C02 C03 C04", "make_shared of an over-aligned class") { make_args<Shared, Rec<64>>(); }
CONTRACT(m_local, "C14 C11 C15 C01 C02 C03 C04", "make_local_shared with arguments") { make_args<Local, Rec<8>>(); }
CONTRACT(m_local_over, "C14 C11 C15 C01 C02 C03 C04", "make_local_shared of an over-aligned class") { make_args<Local, Rec<32>>(); }
// the arguments of a template are an input, too
template <typename F> void make_many() {
    switch (xs_choose(9, "class")) {
    case 0: make_args<F, Rec<16>>(); break;
    case 1: make_args<F, Rec<32>>(); break;
    case 2: make_args<F, Rec<128>>(); break;
    case 3: make_args<F, Rec<256>>(); break;
    case 4: make_args<F, Rec<4096>>(); break;
    case 5: make_args<F, Large<40>>(); break;
    case 6: make_args<F, Large<232>>(); break;
    case 7: make_args<F, Large<1000>>(); break;
    default: make_args<F, Large<5000>>(); break;
    }
}
CONTRACT(m_shared_many, "C14 C11 C15 C01 C02 C03", "make_shared of classes of many sizes and alignments") { make_many<Shared>(); }
CONTRACT(m_local_many, "C14 C11 C15 C01 C02 C03", "make_local_shared of classes of many sizes and alignments") { make_many<Local>(); }
CONTRACT(m_shared_amp, "C14 C11 C15 C01 C02 C03 C04", "make_shared of a class with an operator& of its own") { make_args<Shared, Amp>(); }
CONTRACT(m_shared_large, "C14 C11 C15 C01 C02 C03 C04", "make_shared of a large class") { make_args<Shared, Large<8192>>(); }
// a class with memory functions of its own: they are not asked for the storage that a control block is
static int g_cls_new, g_cls_del;
struct Own : Rec<8> {
    using Rec<8>::Rec;
    static void* operator new(std::size_t n) { void* p = ::operator new(n); xs_ghost g; g_cls_new++; return p; }
    static void operator delete(void* p) { { xs_ghost g; g_cls_del++; } ::operator delete(p); }
};
template <typename F> void make_own() {
    g_cls_new = g_cls_del = 0;
    if (xs_choose(2, "arguments")) make_args<F, Own>(); else make_none<F, Own>();
    xs_check(g_cls_new == 0 && g_cls_del == 0, "C14|C15: the memory of a control block comes from the allocator");
}
CONTRACT(m_shared_own, "C14 C11 C15", "make_shared and make_shared_for_overwrite of a class with memory functions of its own") { make_own<Shared>(); }
CONTRACT(m_local_own, "C14 C11 C15", "make_local_shared and make_local_shared_for_overwrite of a class with memory functions of its own") { make_own<Local>(); }
CONTRACT(m_shared_const, "C14 C11 C15 C01 C02 C03", "make_shared and make_shared_for_overwrite of a const class") { if (xs_choose(2, "arguments")) make_args<Shared, const Rec<8>>(); else make_none<Shared, const Rec<8>>(); }
CONTRACT(m_local_const, "C14 C11 C15 C01 C02 C03", "make_local_shared and make_local_shared_for_overwrite of a const class") { if (xs_choose(2, "arguments")) make_args<Local, const Rec<8>>(); else make_none<Local, const Rec<8>>(); }
CONTRACT(m_shared_none, "C14 C11 C15 C01 C02 C03 C04", "make_shared and make_shared_for_overwrite of a class, without arguments") { make_none<Shared, Rec<16>>(); }
CONTRACT(m_local_none, "C14 C11 C15 C01 C02 C03 C04", "make_local_shared and make_local_shared_for_overwrite of a class, without arguments") { make_none<Local, Rec<16>>(); }

template <typename F> void make_pod() {
    ledger_start();
    using P = typename F::template ptr<Pod>;
    P* p = (P*)xs_region(sizeof(P), 8, "result");
    int how = xs_choose(3, "no arguments, for overwrite, empty class");
    g_can_fail = 1;
    int threw = 0;
    if (how == 2) {
        using N = typename F::template ptr<Nothing>;
        N* n = (N*)xs_region(sizeof(N), 8, "result");
        try { xs_lib l; new (n) N(F::template make<Nothing>()); } catch (const std::bad_alloc&) { threw = 1; }
        xs_check(threw == g_failed, "C11: an exception reaches the caller, and only if something threw");
        if (threw) { xs_check(g_allocs == 0, T_LEAK); return; }
        Nothing* q; { xs_lib l; q = n->get(); }
        xs_check(xs_is_object(q, 1), "C14|C15: the object has storage");
        sole_owner(*n, q);
        g_can_fail = 0;
        give_up(n, [] {});
        xs_cover("end");
        return;
    }
    try { xs_lib l; if (how == 0) new (p) P(F::template make<Pod>()); else new (p) P(F::template make_ow<Pod>()); } catch (const std::bad_alloc&) { threw = 1; }
    xs_check(threw == g_failed, "C11: an exception reaches the caller, and only if something threw");
    if (threw) { xs_check(g_allocs == 0, T_LEAK); xs_cover("thrown"); return; }
    Pod* q; { xs_lib l; q = p->get(); }
    xs_check(xs_is_object(q, sizeof(Pod)) && xs_aligned(q, alignof(Pod)), "C14|C15: the object has aligned storage of its own");
    if (how == 0) xs_check(!xs_uninit(q, sizeof(Pod)) && q->a == 0 && q->b == 0, "C14: without arguments the object is value-initialised");
    else xs_check(xs_uninit(q, 8) && xs_uninit(&q->b, 8), "C14: for overwrite the object is default-initialised");
    // the object's storage is its own: writing it changes nothing else
    q->a = 5; q->b = 6;
    g_can_fail = 0;
    sole_owner(*p, q);
    xs_check(q->a == 5 && q->b == 6, "C14: the object keeps its value");
    give_up(p, [] {});
    xs_cover("end");
}
CONTRACT(m_shared_pod, "C14 C11 C15 C01 C03 C04", "make_shared and make_shared_for_overwrite of trivial and empty classes") { make_pod<Shared>(); }
CONTRACT(m_local_pod, "C14 C11 C15 C01 C03 C04", "make_local_shared and make_local_shared_for_overwrite of trivial and empty classes") { make_pod<Local>(); }

template <typename F, bool Con = false> void make_from() {
    ledger_start();
    using P = typename F::template ptr<Cop>;
    uint64_t v = xs_nondet(32, "value"); xs_assume(v != 0);
    Cop* s = new (xs_region(sizeof(Cop), 8, "source")) Cop(v);
    using PC = typename F::template ptr<const Cop>;
    int mv = Con ? 0 : xs_choose(2, "move");
    P* p = (P*)xs_region(sizeof(P), 8, "result");
    g_can_fail = 1; g_ctor_can_throw = 1;
    int threw = 0;
    try {
        xs_lib l;
        if constexpr (Con) { static_assert(std::is_same_v<decltype(F::make_ptr(std::as_const(*s))), PC>); new (p) PC(F::make_ptr(std::as_const(*s))); }
        else if (mv) new (p) P(F::make_ptr(std::move(*s)));
        else new (p) P(F::make_ptr(*s));
    } catch (const std::bad_alloc&) { threw = 1; } catch (int) { threw = 2; }
    g_can_fail = 0; g_ctor_can_throw = 0;
    xs_check(threw == (g_failed ? 1 : g_ctor_threw ? 2 : 0), "C11: an exception reaches the caller, and only if something threw");
    if (threw) {
        xs_check(g_nobjs == 1 && obj_find(s) >= 0, T_ALIVE);
        xs_check(g_allocs == 0, T_LEAK);
        xs_cover("thrown");
        return;
    }
    const Cop* q; { xs_lib l; if (Con) q = ((PC*)p)->get(); else q = p->get(); }
    xs_check(g_made == 2 && g_nobjs == 2 && obj_find(q) >= 0, "C14: exactly one object is constructed");
    xs_check(g_from == s && g_moved == mv && g_copied == !mv, "C14: the object is moved from an rvalue and copied from an lvalue, once");
    xs_check(q->v == v && s->v == (mv ? 0 : v), "C14: the object has the source's value");
    auto gone = [=] { xs_check(g_nobjs == 1 && obj_find(s) >= 0, "C02|C14: the object is destroyed once, with its last owner"); };
    if (Con) { sole_owner(*(PC*)p, q); give_up((PC*)p, gone); }
    else { sole_owner(*p, q); give_up(p, gone); }
    xs_cover("end");
}
// which constructor runs: the one T(args...) names
static int g_sel;
struct Sel {
    uint64_t a, b;
    Sel() : a(0), b(0) { g_sel = 1; }
    explicit Sel(uint64_t x) : a(x), b(0) { g_sel = 2; }
    Sel(uint64_t x, uint64_t y) : a(x), b(y) { g_sel = 3; }
    Sel(std::initializer_list<uint64_t> l) : a(l.size()), b(7) { g_sel = 4; }
};
template <typename P, typename G> void which_ctor(G make) {
    ledger_start();
    uint64_t x = xs_nondet(64, "first argument"), y = xs_nondet(64, "second argument");
    int n = xs_choose(3, "number of arguments");
    g_sel = 0;
    P* p = (P*)xs_region(sizeof(P), 8, "result");
    { xs_lib l; make(p, n, x, y); }
    const Sel* q; { xs_lib l; q = p->get(); }
    xs_check(g_sel == n + 1, "C14: the constructor is the one T(arguments) selects");
    xs_check(q->a == (n > 0 ? x : 0) && q->b == (n > 1 ? y : 0), "C14: the object is the one T(arguments) makes");
    { xs_lib l; p->~P(); }
    xs_check(g_allocs == 0, T_LEAK);
    xs_cover("end");
}
template <typename F> void which_shared() {
    using P = typename F::template ptr<Sel>;
    which_ctor<P>([](P* p, int n, uint64_t x, uint64_t y) {
        if (n == 0) new (p) P(F::template make<Sel>()); else if (n == 1) new (p) P(F::template make<Sel>(x)); else new (p) P(F::template make<Sel>(x, y));
    });
}
CONTRACT(m_shared_ctor, "C14", "make_shared: overload of the constructor") { which_shared<Shared>(); }
CONTRACT(m_local_ctor, "C14", "make_local_shared: overload of the constructor") { which_shared<Local>(); }
CONTRACT(m_unique_ctor, "C14", "make_unique: overload of the constructor") {
    using P = xmem::unique_ptr<Sel>;
    which_ctor<P>([](P* p, int n, uint64_t x, uint64_t y) {
        if (n == 0) new (p) P(xmem::make_unique<Sel>()); else if (n == 1) new (p) P(xmem::make_unique<Sel>(x)); else new (p) P(xmem::make_unique<Sel>(x, y));
    });
}
CONTRACT(m_shared_from_value, "C14 C11 C15 C01 C02 C03 C04", "make_shared_ptr") { make_from<Shared>(); }
CONTRACT(m_shared_from_const, "C14 C11 C15 C01 C02 C03", "make_shared_ptr of a const object") { make_from<Shared, true>(); }
CONTRACT(m_local_from_const, "C14 C11 C15 C01 C02 C03", "make_local_shared_ptr of a const object") { make_from<Local, true>(); }
CONTRACT(m_local_from_value, "C14 C11 C15 C01 C02 C03 C04", "make_local_shared_ptr") { make_from<Local>(); }

// ---------------------------------------------------------------- unique factories
template <typename U, typename T> void unique_result(U* u, T* q) {
    T* g; { xs_lib l; g = u->get(); }
    xs_check(g == q, "C14: the result points to the object");
    { xs_lib l; u->~U(); }
    xs_check(g_allocs == 0, "C12|C14|C15: the memory is returned");
}
CONTRACT(m_unique, "C14 C11 C12 C15", "make_unique and make_unique_for_overwrite of a class") {
    ledger_start();
    using T = Rec<8>; using U = xmem::unique_ptr<T>;
    Arg* a = (Arg*)xs_region(sizeof(Arg), 8, "first argument");
    Arg* b = (Arg*)xs_region(sizeof(Arg), 8, "second argument");
    const Arg* c = (Arg*)xs_region(sizeof(Arg), 8, "third argument");
    U* u = (U*)xs_region(sizeof(U), 8, "result");
    int how = xs_choose(4, "arguments, none, for overwrite, over-aligned");
    g_can_fail = 1; g_ctor_can_throw = 1;
    int threw = 0;
    using O = Rec<64>; using UO = xmem::unique_ptr<O>;
    UO* o = (UO*)xs_region(sizeof(UO), 8, "result");
    try {
        xs_lib l;
        if (how == 0) new (u) U(xmem::make_unique<T>(*a, std::move(*b), *c));
        else if (how == 1) new (u) U(xmem::make_unique<T>());
        else if (how == 2) new (u) U(xmem::make_unique_for_overwrite<T>());
        else new (o) UO(xmem::make_unique<O>(*a, std::move(*b), *c));
    } catch (const std::bad_alloc&) { threw = 1; } catch (int) { threw = 2; }
    g_can_fail = 0; g_ctor_can_throw = 0;
    xs_check(threw == (g_failed ? 1 : g_ctor_threw ? 2 : 0), "C11: an exception reaches the caller, and only if something threw");
    if (threw) { xs_check(g_nobjs == 0, T_ALIVE); xs_check(g_allocs == 0, T_LEAK); xs_cover("thrown"); return; }
    xs_check(g_made == 1 && g_nobjs == 1, "C14: exactly one object is constructed");
    int n = how == 0 || how == 3 ? 3 : 0;
    const void* ap[3] = {a, b, c}; const int ak[3] = {LV, RV, CLV};
    xs_check(g_nargs == n, "C14: the constructor gets exactly the arguments");
    for (int i = 0; i < n; ++i) {
        xs_check(g_arg_p[i] == ap[i], "C14: the constructor gets exactly the arguments");
        xs_check(g_arg_k[i] == ak[i], "C14: arguments keep their value category");
    }
    xs_check(xs_aligned(g_objs[0], how == 3 ? 64 : 8), "C14|C15: the object is aligned");
    if (how == 3) unique_result(o, (O*)g_objs[0]); else unique_result(u, (T*)g_objs[0]);
    xs_check(g_nobjs == 0 && g_gone == 1, "C12|C14: the object is destroyed once");
    xs_cover("end");
}
CONTRACT(m_unique_pod, "C14 C11 C12 C15", "make_unique and make_unique_for_overwrite of a trivial class") {
    ledger_start();
    using U = xmem::unique_ptr<Pod>;
    U* u = (U*)xs_region(sizeof(U), 8, "result");
    int ow = xs_choose(2, "for overwrite");
    g_can_fail = 1;
    int threw = 0;
    try { xs_lib l; if (ow) new (u) U(xmem::make_unique_for_overwrite<Pod>()); else new (u) U(xmem::make_unique<Pod>()); } catch (const std::bad_alloc&) { threw = 1; }
    xs_check(threw == g_failed, "C11: an exception reaches the caller, and only if something threw");
    if (threw) { xs_check(g_allocs == 0, T_LEAK); xs_cover("thrown"); return; }
    Pod* q; { xs_lib l; q = u->get(); }
    xs_check(xs_is_object(q, sizeof(Pod)), "C14: the object has storage");
    if (!ow) xs_check(!xs_uninit(q, sizeof(Pod)) && q->a == 0 && q->b == 0, "C14: without arguments the object is value-initialised");
    else xs_check(xs_uninit(q, 8) && xs_uninit(&q->b, 8), "C14: for overwrite the object is default-initialised");
    unique_result(u, q);
    xs_cover("end");
}
CONTRACT(m_unique_from_value, "C14 C11 C12 C15", "make_unique_ptr") {
    ledger_start();
    using U = xmem::unique_ptr<Cop>;
    uint64_t v = xs_nondet(32, "value"); xs_assume(v != 0);
    Cop* s = new (xs_region(sizeof(Cop), 8, "source")) Cop(v);
    int mv = xs_choose(2, "move");
    U* u = (U*)xs_region(sizeof(U), 8, "result");
    g_can_fail = 1; g_ctor_can_throw = 1;
    int threw = 0;
    try { xs_lib l; if (mv) new (u) U(xmem::make_unique_ptr(std::move(*s))); else new (u) U(xmem::make_unique_ptr(*s)); } catch (const std::bad_alloc&) { threw = 1; } catch (int) { threw = 2; }
    xs_check(threw == (g_failed ? 1 : g_ctor_threw ? 2 : 0), "C11: an exception reaches the caller, and only if something threw");
    if (threw) { xs_check(g_nobjs == 1 && obj_find(s) >= 0, T_ALIVE); xs_check(g_allocs == 0, T_LEAK); xs_cover("thrown"); return; }
    Cop* q; { xs_lib l; q = u->get(); }
    xs_check(g_made == 2 && g_nobjs == 2 && obj_find(q) >= 0, "C14: exactly one object is constructed");
    xs_check(g_from == s && g_moved == mv && g_copied == !mv, "C14: the object is moved from an rvalue and copied from an lvalue, once");
    xs_check(q->v == v && s->v == (mv ? 0 : v), "C14: the object has the source's value");
    unique_result(u, q);
    xs_check(g_nobjs == 1, "C12|C14: the object is destroyed once");
    xs_cover("end");
}
CONTRACT(m_unique_from_const, "C14 C12 C15", "make_unique_ptr of a const object") {
    ledger_start();
    using U = xmem::unique_ptr<const Cop>;
    uint64_t v = xs_nondet(32, "value"); xs_assume(v != 0);
    const Cop* s = new (xs_region(sizeof(Cop), 8, "source")) Cop(v);
    constexpr bool same = std::is_same_v<decltype(xmem::make_unique_ptr(*s)), U>;
    xs_require(same, "C14: the result's element type is the argument's, const included");
    U* u = (U*)xs_region(sizeof(U), 8, "result");
    { xs_lib l; if constexpr (same) new (u) U(xmem::make_unique_ptr(*s)); }
    const Cop* q; { xs_lib l; q = u->get(); }
    xs_check(g_made == 2 && g_nobjs == 2 && obj_find(q) >= 0, "C14: exactly one object is constructed");
    xs_check(g_from == s && g_moved == 0 && g_copied == 1, "C14: the object is copied from a const source, once");
    xs_check(q->v == v && s->v == v, "C14: the object has the source's value");
    { xs_lib l; u->~U(); }
    xs_check(g_nobjs == 1 && g_allocs == 0, "C12|C14: the object is destroyed once");
    xs_cover("end");
}
CONTRACT(m_unique_array, "C14 C11 C12 C15", "make_unique and make_unique_for_overwrite of arrays of a trivial type, any length") {
    ledger_start();
    using U = xmem::unique_ptr<long[]>;
    U* u = (U*)xs_region(sizeof(U), 8, "result");
    int ow = xs_choose(2, "for overwrite");
    uint64_t n = xs_nondet(64, "length");
    g_can_fail = 1;
    int threw = 0;
    try { xs_lib l; if (ow) new (u) U(xmem::make_unique_for_overwrite<long[]>(n)); else new (u) U(xmem::make_unique<long[]>(n)); } catch (const std::bad_alloc&) { threw = 1; }
    xs_check(threw == g_failed, "C11: an exception reaches the caller, and only if something threw");
    if (threw) { xs_check(g_allocs == 0, T_LEAK); xs_cover("thrown"); return; }
    long* q; { xs_lib l; q = u->get(); }
    xs_check(xs_obj_size(q) == n * 8 && g_allocs == 1 && n < (uint64_t(1) << 60), "C14: the array has exactly the length asked for");
    if (!ow) xs_check(xs_filled(q, 0), "C14: all elements are value-initialised");
    uint64_t i = xs_nondet(60, "index");
    if (xs_decide(i < n)) {
        long* e; { xs_lib l; e = &(*u)[i]; }
        xs_check((uint64_t)e == (uint64_t)q + 8 * i, "C13|C14: [] gives the indexed element");
    }
    unique_result(u, q);
    xs_cover("end");
}
// arrays of a class, any length: the elements constructed are always the first g_in of the array
static uint64_t g_len, g_in, g_out, g_elem_size, g_array_size; static char* g_block; static int g_order;
static uint64_t elem(uint64_t i) { return (uint64_t)g_block + ((g_array_size ? g_array_size : g_last_size) - g_len * g_elem_size) + i * g_elem_size; }
template <int N, int Al> struct alignas(Al) Elem {
    uint64_t w[N];
    Elem() {
        may_throw();
        xs_ghost g;
        xs_require(g_in < g_len, "C14: no more objects are constructed than asked for");
        xs_check((uint64_t)this == elem(g_in), "C14: an element is constructed in its place");
        g_in = g_in + 1;
    }
    Elem(const Elem&) = delete;
    ~Elem() {
        xs_ghost g;
        xs_require(g_out < g_in, "C02|C11|C12|C14: only a constructed object is destroyed, and only once");
        g_out = g_out + 1;
        xs_check((uint64_t)this == elem(g_in - g_out), "C02|C11|C12|C14: every constructed element is destroyed, once");
    }
};
template <int N, int Al, bool ow> void array_of_class() {
    ledger_start();
    using T = Elem<N, Al>; using U = xmem::unique_ptr<T[]>;
    U* u = (U*)xs_region(sizeof(U), 8, "result");
    g_len = xs_nondet(64, "length"); g_in = g_out = 0; g_elem_size = sizeof(T); g_block = nullptr;
    xs_loop_value(&g_len); xs_loop_value(&g_in);
    g_can_fail = 1; g_ctor_can_throw = 1; g_keep_block = &g_block;
    int threw = 0;
    try { xs_lib l; if (ow) new (u) U(xmem::make_unique_for_overwrite<T[]>(g_len)); else new (u) U(xmem::make_unique<T[]>(g_len)); } catch (const std::bad_alloc&) { threw = 1; } catch (int) { threw = 2; }
    xs_check(threw == (g_failed ? 1 : g_ctor_threw ? 2 : 0), "C11: an exception reaches the caller, and only if something threw");
    if (threw) { xs_check(g_out == g_in, T_ALIVE); xs_check(g_allocs == 0, T_LEAK); xs_cover("thrown"); return; }
    T* q; { xs_lib l; q = u->get(); }
    xs_check(g_in == g_len && g_out == 0 && g_allocs == 1, "C14: exactly the number of elements asked for is constructed");
    xs_check((uint64_t)q == elem(0), "C14: the pointer is to the first element");
    { xs_lib l; u->~U(); }
    xs_check(g_in == g_len && g_out == g_len, "C12|C14: every element is destroyed once");
    xs_check(g_allocs == 0, "C12|C14|C15: the memory is returned");
    xs_cover("end");
}
// shared pointers that take over an array of a class, any length, the default deleter
template <typename P, typename T> void shared_array_of_class() {
    ledger_start();
    using U = xmem::unique_ptr<T[]>;
    P* t = (P*)xs_region(sizeof(P), 8, "target"); U* u = (U*)xs_region(sizeof(U), 8, "unique pointer");
    g_len = xs_nondet(64, "length"); g_in = g_out = 0; g_elem_size = sizeof(T); g_block = nullptr; g_array_size = 0;
    xs_loop_value(&g_len); xs_loop_value(&g_in);
    g_can_fail = 1; g_ctor_can_throw = 0; g_keep_block = &g_block;
    T* p;
    try { xs_lib l; p = new T[g_len]; } catch (const std::bad_alloc&) { xs_no_path(); }
    g_keep_block = nullptr; g_array_size = g_last_size; g_failed = 0;
    int how = xs_choose(4, "raw, unique, reset, assigned");
    { xs_lib l; new (u) U(how & 1 ? p : nullptr); if (how >= 2) new (t) P(); }
    int threw = 0;
    try {
        xs_lib l;
        if (how == 0) new (t) P(p);
        else if (how == 1) new (t) P(std::move(*u));
        else if (how == 2) t->reset(p);
        else *t = std::move(*u);
    } catch (const std::bad_alloc&) { threw = 1; }
    g_can_fail = 0;
    xs_check(threw == g_failed, "C11: an exception reaches the caller, and only if something threw");
    if (threw) {
        if (how & 1) { T* q; { xs_lib l; q = u->get(); } xs_check(q == p && g_out == 0, "C11: after an exception the unique pointer still owns"); xs_lib l; u->~U(); }
        xs_check(g_out == g_len, "C11|C12: after an exception every element is destroyed once");
        if (how >= 2) { xs_lib l; t->~P(); }
        xs_check(g_allocs == 0, T_LEAK);
        xs_cover("thrown");
        return;
    }
    const T* q; long c; { xs_lib l; q = t->get(); c = t->use_count(); }
    xs_check(q == p && c == 1, "C14|C01: the result is the only owner of the array");
    uint64_t i = xs_nondet(56, "index");
    if (xs_decide(i < g_len)) {
        const T* e; { xs_lib l; e = &(*t)[i]; }
        xs_check((uint64_t)e == elem(i), "C14: [] gives the indexed element");
    }
    if (how & 1) { xs_lib l; u->~U(); }
    xs_check(g_out == 0, "C02|C12|C14: no element is destroyed while the array is owned");
    { xs_lib l; t->~P(); }
    xs_check(g_in == g_len && g_out == g_len, "C02|C12|C14: every element is destroyed once");
    xs_check(g_allocs == 0, "C12|C14|C15: the memory is returned");
    xs_cover("end");
}
CONTRACT(m_shared_array_class, "C14 C11 C12 C15 C02 C01", "shared pointers to arrays of a class, any length, atomic") { shared_array_of_class<xmem::shared_ptr<Elem<2, 8>[]>, Elem<2, 8>>(); }
CONTRACT(m_shared_array_class_local, "C14 C11 C12 C15 C02 C01", "shared pointers to arrays of a class, any length, local") { shared_array_of_class<xmem::local_shared_ptr<Elem<3, 8>[]>, Elem<3, 8>>(); }
CONTRACT(m_shared_array_class_over, "C14 C11 C12 C15 C02 C01", "shared pointers to arrays of const elements of an over-aligned class, any length") { shared_array_of_class<xmem::shared_ptr<const Elem<4, 32>[]>, Elem<4, 32>>(); }
CONTRACT(m_unique_array_class, "C14 C11 C12 C15", "make_unique of arrays of a class, any length") { array_of_class<2, 8, false>(); }
CONTRACT(m_unique_array_class_ow, "C14 C11 C12 C15", "make_unique_for_overwrite of arrays of a class, any length") { array_of_class<3, 8, true>(); }
CONTRACT(m_unique_array_class_over, "C14 C11 C12 C15", "make_unique of arrays of an over-aligned class, any length") { array_of_class<4, 32, false>(); }
