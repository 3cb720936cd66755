// basic_weak_ptr: every operation against the control block contract
// (C01 C03 C04 C07 C08 C09 C11), every combination of owners, pointer values and other owners.
#include "scb.hpp"

struct Obj { long v; };
struct B1 { long x; };
struct B2 { long y; };
struct D2 : B1, B2 { long z; };
struct VB { long q; virtual ~VB() = default; };
struct DV : virtual VB { long r; };

#define V "C08: pointer and owner of every operand"

// a legal weak pointer without a block has no pointer either
template <typename T> wref<T> any_w(const char* on, const char* pn, int home, const char* name) {
    scb* cb = owner_choice(on);
    return make_w<T>(cb, cb ? any_ptr<T>(pn) : nullptr, home, name);
}
template <typename T> sref<T> any_s(const char* on, const char* pn, int home, const char* name) {
    return make_s<T>(owner_choice(on), any_ptr<T>(pn), home, name);
}
template <typename T> WP<T>* target() { return (WP<T>*)xs_region(sizeof(WP<T>), 8, "target"); }

CONTRACT(w_ctor_empty, "C03 C07 C08", "default construction gives an empty weak pointer") {
    world();
    auto m = target<Obj>();
    ready(); frame(m, sizeof(*m));
    { xs_lib l; new (m) WP<Obj>(); }
    expect(track_w<Obj>(m, -1), nullptr, nullptr);
    settled(); values(V); xs_cover("end");
}
CONTRACT(w_ctor_pair, "C03 C07 C08", "construction from a block and a pointer") {
    world();
    scb* cb = owner_choice("owner");
    Obj* p = any_ptr<Obj>("pointer");
    auto m = target<Obj>();
    // somebody else keeps the block
    sref<Obj> k = make_s<Obj>(cb, p, -1, "keeper");
    ready(xs_choose(2, "interference")); frame(m, sizeof(*m));
    { xs_lib l; new (m) WP<Obj>(pair_of<Obj>(cb, p)); }
    expect(track_w<Obj>(m, -1), cb, p); expect(k.i, cb, p);
    settled(); values(V); xs_cover("end");
}
template <typename T, typename U> void ctor_copy() {
    world();
    auto s = any_w<U>("owner of source", "pointer of source", -1, "source");
    auto m = target<T>();
    ready(xs_choose(2, "interference")); frame(m, sizeof(*m));
    xs_check(std::is_nothrow_constructible_v<WP<T>, const WP<U>&>, "C11: copy construction is noexcept");
    { xs_lib l; new (m) WP<T>(std::as_const(*s)); }
    T* e = s.ptr;
    expect(s.i, s.cb, s.ptr); expect(track_w<T>(m, -1), s.cb, e);
    settled(); values(V); xs_cover("end");
}
template <typename T, typename U> void ctor_move() {
    world();
    auto s = any_w<U>("owner of source", "pointer of source", -1, "source");
    auto m = target<T>();
    ready(xs_choose(2, "interference")); frame(m, sizeof(*m)); frame(s.p, sizeof(WP<U>));
    xs_check(std::is_nothrow_constructible_v<WP<T>, WP<U>&&>, "C11: move construction is noexcept");
    { xs_lib l; new (m) WP<T>(std::move(*s)); }
    transferred();
    T* e = s.ptr;
    expect(s.i, nullptr, nullptr); expect(track_w<T>(m, -1), s.cb, e);
    settled(); values(V); xs_cover("end");
}
template <typename T, typename U> void ctor_shared() {
    world();
    auto s = any_s<U>("owner of source", "pointer of source", -1, "source");
    auto m = target<T>();
    ready(xs_choose(2, "interference")); frame(m, sizeof(*m));
    xs_check(std::is_nothrow_constructible_v<WP<T>, const SP<U>&>, "C11: construction from a shared pointer is noexcept");
    { xs_lib l; new (m) WP<T>(std::as_const(*s)); }
    T* e = s.ptr;
    expect(s.i, s.cb, s.ptr); expect(track_w<T>(m, -1), s.cb, e);
    settled(); values(V); xs_cover("end");
}
CONTRACT(w_copy, "C03 C07 C08 C11", "copy construction") { ctor_copy<Obj, Obj>(); }
CONTRACT(w_copy_const, "C03 C07 C08 C11", "converting copy construction, to const") { ctor_copy<const Obj, Obj>(); }
CONTRACT(w_copy_base, "C03 C07 C08 C11", "converting copy construction, to the second base") { ctor_copy<B2, D2>(); }
CONTRACT(w_move, "C03 C07 C08 C11", "move construction") { ctor_move<Obj, Obj>(); }
CONTRACT(w_move_const, "C03 C07 C08 C11", "converting move construction, to const") { ctor_move<const Obj, Obj>(); }
CONTRACT(w_move_base, "C03 C07 C08 C11", "converting move construction, to the second base") { ctor_move<B2, D2>(); }
CONTRACT(w_shared, "C03 C07 C08 C11", "construction from a shared pointer") { ctor_shared<Obj, Obj>(); }
CONTRACT(w_shared_base, "C03 C07 C08 C11", "converting construction from a shared pointer") { ctor_shared<B2, D2>(); }

CONTRACT(w_alias_weak, "C03 C07 C08 C11", "aliasing construction from a weak pointer") {
    world();
    auto s = any_w<Obj>("owner of source", "pointer of source", -1, "source");
    B1* a = any_ptr<B1>("alias");
    auto m = target<B1>();
    ready(xs_choose(2, "interference")); frame(m, sizeof(*m));
    { xs_lib l; new (m) WP<B1>(std::as_const(*s), a); }
    expect(s.i, s.cb, s.ptr); expect(track_w<B1>(m, -1), s.cb, s.cb ? a : nullptr);
    settled(); values(V); xs_cover("end");
}
CONTRACT(w_alias_shared, "C03 C07 C08 C11", "aliasing construction from a shared pointer") {
    world();
    auto s = any_s<Obj>("owner of source", "pointer of source", -1, "source");
    B1* a = any_ptr<B1>("alias");
    auto m = target<B1>();
    ready(xs_choose(2, "interference")); frame(m, sizeof(*m));
    { xs_lib l; new (m) WP<B1>(std::as_const(*s), a); }
    expect(s.i, s.cb, s.ptr); expect(track_w<B1>(m, -1), s.cb, s.cb ? a : nullptr);
    settled(); values(V); xs_cover("end");
}
CONTRACT(w_convert_virtual, "C08", "conversion to a virtual base while the object exists") {
    world();
    DV* o = new (xs_region(sizeof(DV), alignof(DV), "object")) DV();
    scb* cb = owner_choice("owner of source");
    auto s = make_w<DV>(cb, cb ? o : nullptr, -1, "source");
    auto k = make_s<DV>(cb, o, -1, "keeper");
    int how = xs_choose(3, "copy, move, from shared");
    auto m = target<VB>();
    ready(); frame(m, sizeof(*m)); if (how == 1) frame(s.p, sizeof(WP<DV>));
    { xs_lib l; if (how == 0) new (m) WP<VB>(*s); else if (how == 1) new (m) WP<VB>(std::move(*s)); else new (m) WP<VB>(*k); }
    VB* e = (cb || how == 2) ? static_cast<VB*>(o) : nullptr;
    if (how == 1) expect(s.i, nullptr, nullptr); else expect(s.i, s.cb, s.ptr);
    expect(k.i, cb, o);
    expect(track_w<VB>(m, -1), cb, e);
    settled(); values(V); xs_cover("end");
}
CONTRACT(w_convert_virtual_expired, "C08", "conversion to a virtual base after the object is gone") {
    world();
    DV* o = new (xs_region(sizeof(DV), alignof(DV), "object")) DV();
    auto s = make_w<DV>(g_cb[0], o, -1, "source");
    int mv = xs_choose(2, "move");
    auto m = target<VB>();
    g_cb[0]->s_others = 0;
    ready(); frame(m, sizeof(*m)); if (mv) frame(s.p, sizeof(WP<DV>));
    o->~DV(); xs_kill(o);
    { xs_lib l; if (mv) new (m) WP<VB>(std::move(*s)); else new (m) WP<VB>(*s); }
    xs_cover("end");
}

CONTRACT(w_dtor, "C03 C07 C11", "destruction gives up exactly this weak reference") {
    world();
    auto s = any_w<Obj>("owner", "pointer", -1, "pointer");
    auto o = any_w<Obj>("owner of another pointer", "other pointer", home_choice("where the other pointer is"), "other");
    expect(o.i, o.cb, o.ptr);
    ready(xs_choose(2, "interference")); frame(s.p, sizeof(WP<Obj>));
    g_h[s.i].live = 0;
    { xs_lib l; s->~WP<Obj>(); }
    settled(); values(V); xs_cover("end");
}
CONTRACT(w_reset, "C03 C07 C08 C11", "reset") {
    world();
    auto t = any_w<Obj>("owner", "pointer", home_choice("where the pointer is"), "pointer");
    auto o = any_w<Obj>("owner of another pointer", "other pointer", -1, "other");
    xs_check(noexcept(std::declval<WP<Obj>&>().reset()), "C11: reset is noexcept");
    ready(xs_choose(2, "interference")); frame(t.p, sizeof(WP<Obj>));
    expect(t.i, nullptr, nullptr); expect(o.i, o.cb, o.ptr);
    { xs_lib l; t->reset(); }
    settled(); values(V); xs_cover("end");
}
CONTRACT(w_swap, "C03 C07 C08 C11", "swap, with itself and with the same owner included") {
    world();
    auto a = any_w<Obj>("first owner", "first", -1, "first");
    int self = xs_choose(2, "with itself");
    auto b = self ? a : any_w<Obj>("second owner", "second", -1, "second");
    xs_check(noexcept(std::declval<WP<Obj>&>().swap(std::declval<WP<Obj>&>())), "C11: swap is noexcept");
    ready(); frame(a.p, sizeof(WP<Obj>)); frame(b.p, sizeof(WP<Obj>));
    { xs_lib l; a->swap(*b); }
    transferred();
    expect(a.i, b.cb, b.ptr); expect(b.i, a.cb, a.ptr);
    settled(); values(V); xs_cover("end");
}

template <typename T, typename U, bool Move> void assign_conv() {
    world();
    auto t = any_w<T>("owner of target", "target pointer", home_choice("where the target is"), "target");
    auto s = any_w<U>("owner of source", "source pointer", home_choice("where the source is"), "source");
    xs_check(std::is_nothrow_assignable_v<WP<T>&, const WP<U>&> && std::is_nothrow_assignable_v<WP<T>&, WP<U>&&>, "C11: assignment is noexcept");
    ready(); frame(t.p, sizeof(WP<T>)); if (Move) frame(s.p, sizeof(WP<U>));
    T* e = s.ptr;
    if (Move) expect(s.i, nullptr, nullptr); else expect(s.i, s.cb, s.ptr);
    expect(t.i, s.cb, e);
    WP<T>* r;
    { xs_lib l; r = Move ? &(*t = std::move(*s)) : &(*t = std::as_const(*s)); }
    if (Move) transferred();
    xs_check(r == t.p, "C08: assignment returns the target");
    settled(); values(V); xs_cover("end");
}
CONTRACT(w_assign_base, "C03 C07 C08 C09 C11", "converting copy assignment, to the second base") { assign_conv<B2, D2, false>(); }
CONTRACT(w_massign_base, "C03 C07 C08 C09 C11", "converting move assignment, to the second base") { assign_conv<B2, D2, true>(); }
CONTRACT(w_assign_const, "C03 C07 C08 C09 C11", "converting copy assignment, to const") { assign_conv<const Obj, Obj, false>(); }
CONTRACT(w_massign_const, "C03 C07 C08 C09 C11", "converting move assignment, to const") { assign_conv<const Obj, Obj, true>(); }

template <bool Move> void assign() {
    world();
    auto t = any_w<Obj>("owner of target", "target pointer", home_choice("where the target is"), "target");
    int self = xs_choose(2, "same object");
    auto s = self ? t : any_w<Obj>("owner of source", "source pointer", home_choice("where the source is"), "source");
    ready(xs_choose(2, "interference")); frame(t.p, sizeof(WP<Obj>)); if (Move) frame(s.p, sizeof(WP<Obj>));
    if (Move && !self) expect(s.i, nullptr, nullptr); else expect(s.i, s.cb, s.ptr);
    expect(t.i, s.cb, s.ptr);
    WP<Obj>* r;
    { xs_lib l; r = Move ? &(*t = std::move(*s)) : &(*t = std::as_const(*s)); }
    if (Move) transferred();
    xs_check(r == t.p, "C08: assignment returns the target");
    settled(); values(V); xs_cover("end");
}
CONTRACT(w_assign, "C03 C07 C08 C09 C11", "copy assignment, to itself included") { assign<false>(); }
CONTRACT(w_massign, "C03 C07 C08 C09 C11", "move assignment, to itself included") { assign<true>(); }

template <typename T, typename U> void assign_shared() {
    world();
    auto t = any_w<T>("owner of target", "target pointer", home_choice("where the target is"), "target");
    auto s = any_s<U>("owner of source", "source pointer", home_choice("where the source is"), "source");
    xs_check(std::is_nothrow_assignable_v<WP<T>&, const SP<U>&>, "C11: assignment is noexcept");
    ready(xs_choose(2, "interference")); frame(t.p, sizeof(WP<T>));
    T* e = s.ptr;
    expect(s.i, s.cb, s.ptr); expect(t.i, s.cb, e);
    WP<T>* r;
    { xs_lib l; r = &(*t = std::as_const(*s)); }
    xs_check(r == t.p, "C08: assignment returns the target");
    settled(); values(V); xs_cover("end");
}
CONTRACT(w_assign_shared, "C03 C07 C08 C09 C11", "assignment from a shared pointer") { assign_shared<Obj, Obj>(); }
CONTRACT(w_assign_shared_base, "C03 C07 C08 C09 C11", "converting assignment from a shared pointer") { assign_shared<B2, D2>(); }

// ---------------------------------------------------------------- lock and observers
template <typename T, bool Intf> void lock_contract() {
    world();
    auto w = any_w<T>("owner", "pointer", -1, "weak pointer");
    auto k = any_s<T>("owner of another pointer", "other pointer", -1, "other");
    auto m = (SP<T>*)xs_region(sizeof(SP<T>), 8, "result");
    xs_check(noexcept(std::declval<const WP<T>&>().lock()), "C11: lock is noexcept");
    ready(Intf); frame(m, sizeof(*m));
    scb* cb = w.cb;
    int was_expired = cb ? cb->expired : 1;
    { xs_lib l; new (m) SP<T>(std::as_const(*w).lock()); }
    bool got = cb && (Intf ? cb->n_counts > 0 && cb->last_count != 0 : !was_expired);
    if (cb && Intf) xs_check(cb->n_counts > 0, "C04: lock asks the control block");
    expect(w.i, w.cb, w.ptr); expect(k.i, k.cb, k.ptr);
    expect(track_s<T>(m, -1), got ? cb : nullptr, got ? w.ptr : nullptr);
    settled();
    xs_check(m->owner() == (got ? cb : nullptr), "C04: lock gives an owner exactly if there was still one");
    values("C04|C08: lock gives the stored pointer, and changes no operand");
    xs_check(g_user == 0, "C02|C04: lock destroys nothing");
    xs_cover("end");
}
CONTRACT(w_lock, "C01 C02 C04 C07 C08 C11", "lock") { lock_contract<Obj, false>(); }
CONTRACT(w_lock_intf, "C01 C02 C04 C07 C08 C11", "lock while other threads add and drop the other owners") { lock_contract<Obj, true>(); }
CONTRACT(w_lock_void, "C01 C02 C04 C07 C08 C11", "lock, void") { lock_contract<void, true>(); }

CONTRACT(w_observe, "C01 C04 C07 C08 C19", "use_count, expired, owner, bool") {
    world();
    auto w = any_w<Obj>("owner", "pointer", -1, "weak pointer");
    expect(w.i, w.cb, w.ptr);
    ready();
    long n; bool e; const void* o; const scb* to; bool b; bool no;
    { xs_lib l; const WP<Obj>& p = *w; n = p.use_count(); e = p.expired(); o = p.owner(); to = p.t_owner(); b = bool(p); no = no_owner(p); }
    long x = w.cb && !w.cb->expired ? long(w.cb->strong()) : 0;
    xs_check(n == x, "C01: use_count is the number of strong owners, 0 without an owner");
    xs_check(e == (x == 0), "C04: expired exactly if there is no owner");
    xs_check(o == w.cb && to == w.cb, "C08|C19: owner is the control block");
    xs_check(b == (w.cb != nullptr) && no == !w.cb, "C19: bool and no_owner say whether there is a control block");
    settled(); values(V); xs_cover("end");
}
CONTRACT(w_observe_intf, "C01 C04", "use_count and expired while other threads change the count") {
    world();
    auto w = any_w<Obj>("owner", "pointer", -1, "weak pointer");
    expect(w.i, w.cb, w.ptr);
    int which = xs_choose(2, "which");
    ready(true);
    if (which) {
        long n; { xs_lib l; n = w->use_count(); }
        xs_check(w.cb ? (w.cb->n_counts > 0 && n == w.cb->last_count) : n == 0, "C01: use_count is a value the count had");
    }
    else {
        bool e; { xs_lib l; e = w->expired(); }
        xs_check(w.cb ? (w.cb->n_counts > 0 && e == (w.cb->last_count == 0)) : e, "C04: expired says whether an owner existed");
    }
    settled(); values(V); xs_cover("end");
}

// ---------------------------------------------------------------- what the declarations promise
template <template <typename> class W, template <typename> class S, typename T> void declares() {
    using P = W<T>;
    xs_check(std::is_nothrow_default_constructible_v<P>, "C11: making an empty weak pointer is noexcept");
    xs_check(std::is_nothrow_copy_constructible_v<P> && std::is_nothrow_copy_assignable_v<P>, "C11: copies are noexcept");
    xs_check(std::is_nothrow_move_constructible_v<P> && std::is_nothrow_move_assignable_v<P>, "C11: moves are noexcept");
    xs_check(std::is_nothrow_constructible_v<W<const T>, const P&> && std::is_nothrow_assignable_v<W<const T>&, const P&>, "C11: converting copies are noexcept");
    xs_check(std::is_nothrow_constructible_v<W<const T>, P> && std::is_nothrow_assignable_v<W<const T>&, P>, "C11: converting moves are noexcept");
    xs_check(std::is_nothrow_constructible_v<P, const S<T>&> && std::is_nothrow_assignable_v<P&, const S<T>&> && std::is_nothrow_constructible_v<W<const T>, const S<T>&> && std::is_nothrow_assignable_v<W<const T>&, const S<T>&>, "C11: making a weak pointer from a shared pointer is noexcept");
    xs_check(std::is_nothrow_constructible_v<W<long>, const P&, long*> && std::is_nothrow_constructible_v<W<long>, const S<T>&, long*>, "C11: aliasing is noexcept");
    xs_check(noexcept(std::declval<P&>().reset()) && noexcept(std::declval<P&>().swap(std::declval<P&>())) && noexcept((void)std::declval<const P&>().lock()), "C11: reset, swap and lock are noexcept");
    xs_check(noexcept((void)std::declval<const P&>().use_count()) && noexcept((void)std::declval<const P&>().expired()) && noexcept((void)std::declval<const P&>().owner()) && noexcept((void)std::declval<const P&>().t_owner()) &&
        std::is_nothrow_constructible_v<bool, const P&> && noexcept((void)std::declval<const P&>().owner_before(std::declval<const P&>())) && noexcept((void)std::declval<const P&>().owner_before(std::declval<const S<T>&>())), "C11: observers are noexcept");
    xs_check(!std::is_convertible_v<P, S<T>> && !std::is_constructible_v<S<T>, P>, "C04: a weak pointer only becomes an owner by lock()");
    xs_check(!std::is_constructible_v<P, T*> && !std::is_convertible_v<P, bool>, "C08: a weak pointer is not made from a raw pointer, and is no number");
    xs_check(std::is_convertible_v<const S<T>&, P> && std::is_convertible_v<P, W<const T>> && std::is_convertible_v<const S<T>&, W<const T>>, "C08: conversions are implicit");
}
CONTRACT(w_interface, "C04 C08 C11", "what weak pointers declare: noexcept, no ownership without lock, implicit conversions") {
    declares<WP, SP, Obj>();
    xs_cover("end");
}
