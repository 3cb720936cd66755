// basic_shared_ptr: every operation against the control block contract
// (C01 C02 C03 C07 C08 C09 C11), every combination of owners, pointer values and other owners.
#include "scb.hpp"

struct Obj { long v; };
struct B1 { long x; };
struct B2 { long y; };
struct D2 : B1, B2 { long z; };
struct VB { long q; virtual ~VB() = default; };
struct DV : virtual VB { long r; };

#define V "C08: pointer and owner of every operand"

// ---------------------------------------------------------------- construction
template <typename T> void ctor_empty() {
    world();
    int k = xs_choose(2, "from nullptr");
    void* m = xs_region(sizeof(SP<T>), 8, "target");
    ready(); frame(m, sizeof(SP<T>));
    SP<T>* t;
    { xs_lib l; t = k ? new (m) SP<T>(nullptr) : new (m) SP<T>(); }
    expect(track_s<T>(t, -1), nullptr, nullptr);
    settled(); values(V); xs_cover("end");
}
CONTRACT(s_ctor_empty, "C01 C07 C08", "default and nullptr construction give an empty pointer") { ctor_empty<Obj>(); }

CONTRACT(s_ctor_pair, "C01 C07 C08 C14", "construction from a fresh control block announces the first owner") {
    world();
    scb* n = new (xs_region(sizeof(scb), alignof(scb), "fresh block")) scb();
    g_cb[1] = n;
    int own = xs_choose(2, "has a block");
    Obj* p = any_ptr<Obj>("pointer");
    void* m = xs_region(sizeof(SP<Obj>), 8, "target");
    ready();
    g_cb[1] = n; n->s_others = 0;
    frame(m, sizeof(SP<Obj>));
    SP<Obj>* t;
    { xs_lib l; t = new (m) SP<Obj>(pair_of<Obj>(own ? n : nullptr, p)); }
    if (!own) n->s_mine = 0;
    expect(track_s<Obj>(t, -1), own ? n : nullptr, p);
    xs_check(n->s_hooks == own, "C07: the first owner is announced exactly once");
    settled(); values(V); xs_cover("end");
}

template <typename T, typename U> void ctor_copy() {
    world();
    scb* cb = owner_choice("owner of source");
    auto s = make_s<U>(cb, any_ptr<U>("pointer of source"), -1, "source");
    void* m = xs_region(sizeof(SP<T>), 8, "target");
    ready(xs_choose(2, "interference")); frame(m, sizeof(SP<T>));
    SP<T>* t;
    xs_check(std::is_nothrow_constructible_v<SP<T>, const SP<U>&>, "C11: copy construction is noexcept");
    { xs_lib l; t = new (m) SP<T>(std::as_const(*s)); }
    T* e = s.ptr;
    expect(s.i, cb, s.ptr); expect(track_s<T>(t, -1), cb, e);
    settled(); values(V);
    count_is(*t, cb, "C01: use_count is the number of owners");
    xs_cover("end");
}
template <typename T, typename U> void ctor_move() {
    world();
    scb* cb = owner_choice("owner of source");
    auto s = make_s<U>(cb, any_ptr<U>("pointer of source"), -1, "source");
    void* m = xs_region(sizeof(SP<T>), 8, "target");
    ready(xs_choose(2, "interference")); frame(m, sizeof(SP<T>)); frame(s.p, sizeof(SP<U>));
    SP<T>* t;
    xs_check(std::is_nothrow_constructible_v<SP<T>, SP<U>&&>, "C11: move construction is noexcept");
    { xs_lib l; t = new (m) SP<T>(std::move(*s)); }
    transferred();
    T* e = s.ptr;
    expect(s.i, nullptr, nullptr); expect(track_s<T>(t, -1), cb, e);
    settled(); values(V);
    count_is(*t, cb, "C01: use_count is the number of owners");
    xs_check(g_user == 0, "C02: a move destroys nothing");
    xs_cover("end");
}
template <typename T, typename U> void ctor_alias() {
    world();
    scb* cb = owner_choice("owner of source");
    auto s = make_s<U>(cb, any_ptr<U>("pointer of source"), -1, "source");
    T* a = any_ptr<T>("alias");
    void* m = xs_region(sizeof(SP<T>), 8, "target");
    ready(xs_choose(2, "interference")); frame(m, sizeof(SP<T>));
    SP<T>* t;
    { xs_lib l; t = new (m) SP<T>(std::as_const(*s), a); }
    expect(s.i, cb, s.ptr); expect(track_s<T>(t, -1), cb, a);
    settled(); values(V);
    xs_cover("end");
}
CONTRACT(s_copy, "C01 C02 C07 C08 C11", "copy construction") { ctor_copy<Obj, Obj>(); }
CONTRACT(s_copy_const, "C01 C02 C07 C08 C11", "converting copy construction, to const") { ctor_copy<const Obj, Obj>(); }
CONTRACT(s_copy_base, "C01 C02 C07 C08 C11", "converting copy construction, to the second base") { ctor_copy<B2, D2>(); }
CONTRACT(s_copy_void, "C01 C02 C07 C08 C11", "converting copy construction, to void") { ctor_copy<void, D2>(); }
CONTRACT(s_move, "C01 C02 C07 C08 C11", "move construction") { ctor_move<Obj, Obj>(); }
CONTRACT(s_move_const, "C01 C02 C07 C08 C11", "converting move construction, to const") { ctor_move<const Obj, Obj>(); }
CONTRACT(s_move_base, "C01 C02 C07 C08 C11", "converting move construction, to the second base") { ctor_move<B2, D2>(); }
CONTRACT(s_alias, "C01 C02 C07 C08 C11", "aliasing construction") { ctor_alias<B1, Obj>(); }

CONTRACT(s_convert_virtual, "C01 C07 C08", "conversion to a virtual base") {
    world();
    DV* o = new (xs_region(sizeof(DV), alignof(DV), "object")) DV();
    int null = xs_choose(2, "null");
    scb* cb = owner_choice("owner of source");
    auto s = make_s<DV>(cb, null ? nullptr : o, -1, "source");
    int mv = xs_choose(2, "move");
    void* m = xs_region(sizeof(SP<VB>), 8, "target");
    ready(); frame(m, sizeof(SP<VB>)); if (mv) frame(s.p, sizeof(SP<DV>));
    SP<VB>* t;
    { xs_lib l; t = mv ? new (m) SP<VB>(std::move(*s)) : new (m) SP<VB>(*s); }
    VB* e = null ? nullptr : static_cast<VB*>(o);
    if (mv) expect(s.i, nullptr, nullptr); else expect(s.i, cb, s.ptr);
    expect(track_s<VB>(t, -1), cb, e);
    settled(); values(V); xs_cover("end");
}

// ---------------------------------------------------------------- destruction, reset, swap
CONTRACT(s_dtor, "C01 C02 C03 C07 C11", "destruction gives up exactly this owner") {
    world();
    scb* cb = owner_choice("owner");
    auto s = make_s<Obj>(cb, any_ptr<Obj>("pointer"), -1, "pointer");
    auto o = make_s<Obj>(owner_choice("owner of another pointer"), any_ptr<Obj>("other pointer"), home_choice("where the other pointer is"), "other");
    expect(o.i, o.cb, o.ptr);
    ready(xs_choose(2, "interference")); frame(s.p, sizeof(SP<Obj>));
    g_h[s.i].live = 0;
    { xs_lib l; s->~SP<Obj>(); }
    settled(); values(V); xs_cover("end");
}

// ---- what the destroyed object's destructor may do with the operands of the running operation
static SP<Obj>* g_t; static SP<Obj>* g_s; static SP<Obj>* g_c; static int g_ti, g_si, g_ci;
static int g_act;
static void act() {
    int n = g_c ? 5 : g_s ? 4 : 3;
    g_act = xs_choose(n, "the destroyed object's destructor uses the operands");
    if (g_act == 0) return;
    if (g_act == 1) {
        if (!g_h[g_ti].live) xs_no_path();
        expect(g_ti, nullptr, nullptr);
        { xs_lib l; g_t->reset(); }
    }
    else if (g_act == 2) {
        if (!g_h[g_ti].live) xs_no_path();
        xs_lib l;
        SP<Obj> copy(*g_t);
    }
    else if (g_act == 3) {
        if (!g_h[g_si].live || g_si == g_ti) xs_no_path();
        expect(g_si, nullptr, nullptr);
        xs_lib l; g_s->reset();
    }
    else {
        if (!g_h[g_ti].live || !g_h[g_ci].live) xs_no_path();
        const void* o = g_h[g_ci].xo; const void* p = g_h[g_ci].xp;
        expect(g_ti, o, p);
        xs_lib l; *g_t = *g_c;
    }
}

CONTRACT(s_reset, "C01 C02 C03 C07 C08 C09 C11", "reset, wherever the pointer lives and whatever the released object does") {
    world();
    scb* cb = owner_choice("owner");
    auto t = make_s<Obj>(cb, any_ptr<Obj>("pointer"), home_choice("where the pointer is"), "pointer");
    int k = xs_choose(2, "reset(nullptr)");
    xs_check(noexcept(std::declval<SP<Obj>&>().reset()), "C11: reset is noexcept");
    ready(); frame(t.p, sizeof(SP<Obj>));
    expect(t.i, nullptr, nullptr);
    g_t = t.p; g_ti = t.i; g_s = nullptr; g_c = nullptr; g_action = act;
    { xs_lib l; if (k) t->reset(nullptr); else t->reset(); }
    g_action = nullptr;
    settled(); values(V); xs_cover("end");
}
CONTRACT(s_swap, "C01 C02 C07 C08 C11", "swap, with itself and with the same owner included") {
    world();
    auto a = make_s<Obj>(owner_choice("first owner"), any_ptr<Obj>("first"), -1, "first");
    int self = xs_choose(2, "with itself");
    auto b = self ? a : make_s<Obj>(owner_choice("second owner"), any_ptr<Obj>("second"), -1, "second");
    xs_check(noexcept(std::declval<SP<Obj>&>().swap(std::declval<SP<Obj>&>())), "C11: swap is noexcept");
    ready(); frame(a.p, sizeof(SP<Obj>)); frame(b.p, sizeof(SP<Obj>));
    { xs_lib l; a->swap(*b); }
    transferred();
    expect(a.i, b.cb, b.ptr); expect(b.i, a.cb, a.ptr);
    settled(); values(V);
    xs_check(g_user == 0, "C02: swap destroys nothing");
    xs_cover("end");
}

// ---------------------------------------------------------------- assignment
template <typename T, typename U, bool Move> void assign_conv() {
    world();
    auto t = make_s<T>(owner_choice("owner of target"), any_ptr<T>("target pointer"), home_choice("where the target is"), "target");
    auto s = make_s<U>(owner_choice("owner of source"), any_ptr<U>("source pointer"), home_choice("where the source is"), "source");
    ready(); frame(t.p, sizeof(SP<T>)); if (Move) frame(s.p, sizeof(SP<U>));
    xs_check(std::is_nothrow_assignable_v<SP<T>&, const SP<U>&> && std::is_nothrow_assignable_v<SP<T>&, SP<U>&&>, "C11: assignment is noexcept");
    T* e = s.ptr;
    expect(t.i, s.cb, e);
    if (Move) expect(s.i, nullptr, nullptr); else expect(s.i, s.cb, s.ptr);
    SP<T>* r;
    { xs_lib l; r = Move ? &(*t = std::move(*s)) : &(*t = std::as_const(*s)); }
    if (Move) transferred();
    xs_check(r == t.p, "C08: assignment returns the target");
    settled(); values(V); xs_cover("end");
}
CONTRACT(s_assign_base, "C01 C02 C03 C07 C08 C09 C11", "converting copy assignment, to the second base") { assign_conv<B2, D2, false>(); }
CONTRACT(s_massign_base, "C01 C02 C03 C07 C08 C09 C11", "converting move assignment, to the second base") { assign_conv<B2, D2, true>(); }
CONTRACT(s_assign_const, "C01 C02 C03 C07 C08 C09 C11", "converting copy assignment, to const") { assign_conv<const Obj, Obj, false>(); }
CONTRACT(s_massign_const, "C01 C02 C03 C07 C08 C09 C11", "converting move assignment, to const") { assign_conv<const Obj, Obj, true>(); }

template <bool Move> void assign() {
    world();
    auto t = make_s<Obj>(owner_choice("owner of target"), any_ptr<Obj>("target pointer"), home_choice("where the target is"), "target");
    int self = xs_choose(2, "same object");
    auto s = self ? t : make_s<Obj>(owner_choice("owner of source"), any_ptr<Obj>("source pointer"), home_choice("where the source is"), "source");
    auto c = make_s<Obj>(owner_choice("owner of a third pointer"), any_ptr<Obj>("third pointer"), -1, "third");
    expect(c.i, c.cb, c.ptr);
    ready(); frame(t.p, sizeof(SP<Obj>)); if (Move) frame(s.p, sizeof(SP<Obj>));
    if (Move && !self) expect(s.i, nullptr, nullptr); else expect(s.i, s.cb, s.ptr);
    expect(t.i, s.cb, s.ptr);
    g_t = t.p; g_ti = t.i; g_s = s.p; g_si = s.i; g_c = c.p; g_ci = c.i; g_action = act;
    SP<Obj>* r;
    { xs_lib l; r = Move ? &(*t = std::move(*s)) : &(*t = std::as_const(*s)); }
    g_action = nullptr;
    xs_check(r == t.p, "C08: assignment returns the target");
    settled(); values(V); xs_cover("end");
}
CONTRACT(s_assign, "C01 C02 C03 C07 C08 C09 C11", "copy assignment, wherever the operands live and whatever the released object does") { assign<false>(); }
CONTRACT(s_massign, "C01 C02 C03 C07 C08 C09 C11", "move assignment, wherever the operands live and whatever the released object does") { assign<true>(); }
CONTRACT(s_assign_intf, "C01 C02 C03 C07 C08 C11", "copy and move assignment while other threads change the counts") {
    world();
    auto t = make_s<Obj>(owner_choice("owner of target"), any_ptr<Obj>("target pointer"), -1, "target");
    auto s = make_s<Obj>(owner_choice("owner of source"), any_ptr<Obj>("source pointer"), -1, "source");
    int mv = xs_choose(2, "move");
    ready(true); frame(t.p, sizeof(SP<Obj>)); if (mv) frame(s.p, sizeof(SP<Obj>));
    if (mv) expect(s.i, nullptr, nullptr); else expect(s.i, s.cb, s.ptr);
    expect(t.i, s.cb, s.ptr);
    { xs_lib l; if (mv) *t = std::move(*s); else *t = std::as_const(*s); }
    if (mv) transferred();
    settled(); values(V); xs_cover("end");
}

// ---------------------------------------------------------------- observers
CONTRACT(s_observe, "C01 C07 C08 C19", "use_count, owner, t_owner, get, bool, ->, *, []") {
    world();
    scb* cb = owner_choice("owner");
    auto s = make_s<Obj>(cb, any_ptr<Obj>("pointer"), -1, "pointer");
    auto a = make_s<long[]>(cb, any_ptr<long>("array"), -1, "array pointer");
    expect(s.i, cb, s.ptr); expect(a.i, cb, a.ptr);
    ready();
    const void* o; const scb* to; Obj* g; bool b; Obj* ar; long n; long* g2; bool nn; bool na;
    { xs_lib l; const SP<Obj>& p = *s; o = p.owner(); to = p.t_owner(); g = p.get(); b = bool(p); ar = p.operator->(); n = p.use_count(); g2 = a->get(); nn = no_owner(p); na = bool(*a); }
    xs_check(o == cb && to == cb, "C19|C08: owner() is the control block");
    xs_check(g == s.ptr && ar == s.ptr && g2 == a.ptr, "C08|C19: get and -> give the stored pointer");
    xs_check(b == (s.ptr != nullptr) && na == (a.ptr != nullptr), "C19: bool says whether the pointer is non-null");
    xs_check(nn == (cb == nullptr), "C19: no_owner holds exactly if there is no control block");
    xs_check(n == (cb ? long(cb->strong()) : 0), "C01: use_count is the number of strong owners, 0 without an owner");
    if (xs_decide(s.ptr != nullptr)) {
        Obj* d; { xs_lib l; d = &**s; }
        xs_check(d == s.ptr, "C08|C19: * gives the pointee");
    }
    uint64_t i = xs_nondet(60, "index");
    if (xs_decide(a.ptr != nullptr)) {
        long* e; { xs_lib l; e = &(*a)[i]; }
        xs_check((uint64_t)e == (uint64_t)a.ptr + 8 * i, "C08|C19: [] gives the indexed element");
    }
    settled(); values(V); xs_cover("end");
}
CONTRACT(s_use_count_intf, "C01 C04", "use_count while other threads change the count") {
    world();
    scb* cb = owner_choice("owner");
    auto s = make_s<Obj>(cb, any_ptr<Obj>("pointer"), -1, "pointer");
    expect(s.i, cb, s.ptr);
    ready(true);
    long n; { xs_lib l; n = s->use_count(); }
    xs_check(cb ? (cb->n_counts > 0 && n == cb->last_count) : n == 0, "C01: use_count is a value the count had");
    settled(); values(V); xs_cover("end");
}

// ---------------------------------------------------------------- the pair of block and pointer behind every handle
template <typename T, typename U> void pair_contract() {
    using PT = xmem::cb_ptr_pair<scb, T>; using PU = xmem::cb_ptr_pair<scb, U>;
    scb* c[2]; U* q; T* p;
    for (int i = 0; i < 2; ++i) c[i] = (scb*)xs_nondet_ptr(i ? "second block" : "first block");
    q = (U*)xs_nondet_ptr("source pointer"); p = (T*)xs_nondet_ptr("target pointer");
    PU* s = (PU*)xs_region(sizeof(PU), 8, "source"); PT* t = (PT*)xs_region(sizeof(PT), 8, "target");
    new (s) PU(c[0], q);
    T* e = q;
    int how = xs_choose(7, "copy, move, assign, move assign, reset, swap, null");
    bool same = std::is_same_v<T, U> && xs_choose(2, "with itself");
    if (same && (how < 2 || how == 6)) xs_no_path();
    if (how >= 2) { if (same) { t = (PT*)s; p = e; c[1] = c[0]; } else new (t) PT(c[1], p); }
    xs_frame_begin(); xs_frame_allow(t, sizeof(PT));
    if (how == 1 || how == 3 || how == 5) xs_frame_allow(s, sizeof(PU));
    { xs_lib l;
      switch (how) {
      case 0: new (t) PT(std::as_const(*s)); break;
      case 1: new (t) PT(std::move(*s)); break;
      case 2: *t = std::as_const(*s); break;
      case 3: *t = std::move(*s); break;
      case 4: t->reset(); break;
      case 5: if constexpr (std::is_same_v<T, U>) t->swap(*s); else new (t) PT(nullptr); break;
      default: new (t) PT(nullptr); break;
      } }
    xs_frame_end();
    bool empty = how == 4 || how == 6 || (how == 5 && !std::is_same_v<T, U>);
    if (!(same && how == 3)) {       // (moving a pair to itself is nothing a handle does)
        xs_check(t->cb == (empty ? nullptr : c[0]) && t->ptr == (empty ? nullptr : e), "C08: a pair takes the block and the pointer, or is empty");
        if (!same && (how == 1 || how == 3)) xs_check(!s->cb && !s->ptr, "C08: a moved-from pair is empty");
        else if (!same && how == 5 && std::is_same_v<T, U>) xs_check(s->cb == c[1] && (const void*)s->ptr == (const void*)p, "C08: swap exchanges the pairs");
        else if (!same) xs_check(s->cb == c[0] && s->ptr == q, "C08: a source copied from keeps its value");
    }
    xs_cover("end");
}
CONTRACT(s_pair, "C08", "the block and pointer pair: copies, moves, swap, reset") { pair_contract<Obj, Obj>(); }
CONTRACT(s_pair_base, "C08", "the block and pointer pair: conversions to the second base") { pair_contract<B2, D2>(); }
CONTRACT(s_pair_const, "C08", "the block and pointer pair: conversions to const") { pair_contract<const Obj, Obj>(); }

// ---------------------------------------------------------------- what the declarations promise
template <template <typename> class P, typename T> void declares() {
    using S = P<T>;
    xs_check(std::is_nothrow_default_constructible_v<S> && std::is_nothrow_constructible_v<S, std::nullptr_t>, "C11: making an empty pointer is noexcept");
    xs_check(std::is_nothrow_copy_constructible_v<S> && std::is_nothrow_copy_assignable_v<S>, "C11: copies are noexcept");
    xs_check(std::is_nothrow_move_constructible_v<S> && std::is_nothrow_move_assignable_v<S>, "C11: moves are noexcept");
    xs_check(std::is_nothrow_constructible_v<P<const T>, const S&> && std::is_nothrow_assignable_v<P<const T>&, const S&>, "C11: converting copies are noexcept");
    xs_check(std::is_nothrow_constructible_v<P<const T>, S> && std::is_nothrow_assignable_v<P<const T>&, S>, "C11: converting moves are noexcept");
    xs_check(std::is_nothrow_constructible_v<P<long>, const S&, long*>, "C11: aliasing is noexcept");
    xs_check(noexcept(std::declval<S&>().reset()) && noexcept(std::declval<S&>().swap(std::declval<S&>())), "C11: reset and swap are noexcept");
    xs_check(noexcept((void)std::declval<const S&>().get()) && noexcept((void)std::declval<const S&>().use_count()) && noexcept((void)std::declval<const S&>().owner()) && noexcept((void)std::declval<const S&>().t_owner()) &&
        std::is_nothrow_constructible_v<bool, const S&> && noexcept((void)std::declval<const S&>().owner_before(std::declval<const S&>())), "C11: observers are noexcept");
    xs_check(noexcept((void)*std::declval<const S&>()) && noexcept((void)std::declval<const S&>().operator->()), "C11: observers are noexcept");
    xs_check(noexcept((void)std::declval<const P<T[]>&>()[0]), "C11: observers are noexcept");
    xs_check(!std::is_convertible_v<T*, S> && !std::is_assignable_v<S&, T*>, "C12: a raw pointer is only taken over explicitly");
    xs_check(!std::is_convertible_v<S, T*> && !std::is_convertible_v<S, bool>, "C12: a shared pointer does not decay to its pointer");
    xs_check(std::is_convertible_v<std::nullptr_t, S> && std::is_convertible_v<S, P<const T>> && std::is_convertible_v<xmem::unique_ptr<T>, S>, "C08: conversions are implicit");
    xs_check(!std::is_constructible_v<S, xmem::unique_ptr<T>&>, "C12: a unique pointer only gives its object away when it is moved");
}
CONTRACT(s_interface, "C08 C11 C12", "what shared pointers declare: noexcept, explicit ownership, implicit conversions") {
    declares<SP, Obj>();
    xs_cover("end");
}
