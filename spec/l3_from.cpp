// enable_shared_from and enable_shared_from_this against the control block contract (C16, C01 C02 C04 C07)
#include "scb.hpp"

struct Pad { long p; Pad() : p(0) {} };
struct EF : Pad, xmem::basic_enable_shared_from<CBF> {
    using ebf = xmem::basic_enable_shared_from<CBF>;
    long v; long w;
    using ebf::shared_from_this; using ebf::weak_from_this; using ebf::shared_from; using ebf::weak_from;
};
struct ET : Pad, xmem::basic_enable_shared_from_this<CBF, ET> {
    long v; long w;
    using eft = xmem::basic_enable_shared_from_this<CBF, ET>;
    using eft::shared_from; using eft::weak_from;
};
struct EFD : EF { long z; };

#define V "C16|C08: pointer and owner of the result; operands unchanged"
#define CNT "C16|C01: a pointer is added exactly if there is still an owner"

// state of the object: 0 never owned, 1 and 2 owned through A or B (perhaps no longer)
template <typename E> struct fixture { E* o; scb* cb; };
template <typename E> fixture<E> fix() {
    world();
    fixture<E> f;
    f.o = new (xs_region(sizeof(E), alignof(E), "object")) E();
    f.cb = owner_choice("owner of the object");
    if (f.cb) {
        auto p = CBF::prepare_pair(f.cb, f.o);
        xs_check(p.cb == f.cb && p.ptr == f.o, "C16|C14: the first owner gets the block and the object");
        // some handle keeps at least the block
        auto k = make_w<E>(f.cb, f.o, -1, "keeper");
        expect(k.i, f.cb, f.o);
    }
    return f;
}
template <typename T, typename F> void shared_result(scb* cb, const void* want, bool intf, F f) {
    auto m = (SP<T>*)xs_region(sizeof(SP<T>), 8, "result");
    ready(intf); frame(m, sizeof(*m));
    int was = cb ? cb->expired : 1;
    { xs_lib l; f(m); }
    bool got = cb && (intf ? cb->n_counts > 0 && cb->last_count != 0 : !was);
    if (cb && intf) xs_check(cb->n_counts > 0, "C16|C04: the control block is asked");
    expect(track_s<T>(m, -1), got ? cb : nullptr, got ? want : nullptr);
    settled(); values(V);
    xs_check(g_user == 0, "C02|C16: nothing is destroyed");
    xs_cover("end");
    // and giving up what was given works
    ready(intf); frame(m, sizeof(*m));
    g_h[g_nh - 1].live = 0;
    { xs_lib l; m->~SP<T>(); }
    settled();
    xs_check(g_user == (cb && cb->n_dres), "C02: the object is destroyed by its last owner");
    xs_cover("given up");
}
template <typename T, typename F> void weak_result(scb* cb, const void* want, bool intf, F f) {
    auto m = (WP<T>*)xs_region(sizeof(WP<T>), 8, "result");
    ready(intf); frame(m, sizeof(*m));
    { xs_lib l; f(m); }
    expect(track_w<T>(m, -1), cb, cb ? want : nullptr);
    settled(); values(V);
    xs_cover("end");
}
CONTRACT(f_shared_this, "C16 C01 C02 C04 C07", "enable_shared_from_this::shared_from_this") {
    auto f = fix<ET>();
    shared_result<ET>(f.cb, f.o, xs_choose(2, "interference"), [&](SP<ET>* m) { new (m) SP<ET>(f.o->shared_from_this()); });
}
CONTRACT(f_shared_this_const, "C16 C01 C02 C04 C07", "enable_shared_from_this::shared_from_this, const") {
    auto f = fix<ET>();
    shared_result<const ET>(f.cb, f.o, xs_choose(2, "interference"), [&](SP<const ET>* m) { new (m) SP<const ET>(std::as_const(*f.o).shared_from_this()); });
}
CONTRACT(f_shared_void, "C16 C01 C02 C04 C07", "enable_shared_from::shared_from_this") {
    auto f = fix<EF>();
    shared_result<void>(f.cb, f.o, xs_choose(2, "interference"), [&](SP<void>* m) { new (m) SP<void>(f.o->shared_from_this()); });
}
CONTRACT(f_shared_void_const, "C16 C01 C02 C04 C07", "enable_shared_from::shared_from_this, const") {
    auto f = fix<EF>();
    shared_result<const void>(f.cb, f.o, xs_choose(2, "interference"), [&](SP<const void>* m) { new (m) SP<const void>(std::as_const(*f.o).shared_from_this()); });
}
CONTRACT(f_shared_void_derived, "C16 C01 C02 C04 C07", "enable_shared_from::shared_from_this of a derived object") {
    auto f = fix<EFD>();
    shared_result<void>(f.cb, f.o, xs_choose(2, "interference"), [&](SP<void>* m) { new (m) SP<void>(f.o->shared_from_this()); });
}
CONTRACT(f_shared_from, "C16 C01 C02 C04 C07", "shared_from(address)") {
    auto f = fix<EF>();
    shared_result<long>(f.cb, &f.o->w, xs_choose(2, "interference"), [&](SP<long>* m) { new (m) SP<long>(f.o->shared_from(&f.o->w)); });
}
CONTRACT(f_shared_from_t, "C16 C01 C02 C04 C07", "enable_shared_from_this::shared_from(address)") {
    auto f = fix<ET>();
    shared_result<const long>(f.cb, &f.o->w, xs_choose(2, "interference"), [&](SP<const long>* m) { const long* p = &f.o->w; new (m) SP<const long>(std::as_const(*f.o).shared_from(p)); });
}
CONTRACT(f_weak_this, "C16 C03 C07", "enable_shared_from_this::weak_from_this") {
    auto f = fix<ET>();
    weak_result<ET>(f.cb, f.o, xs_choose(2, "interference"), [&](WP<ET>* m) { new (m) WP<ET>(f.o->weak_from_this()); });
}
CONTRACT(f_weak_this_const, "C16 C03 C07", "enable_shared_from_this::weak_from_this, const") {
    auto f = fix<ET>();
    weak_result<const ET>(f.cb, f.o, xs_choose(2, "interference"), [&](WP<const ET>* m) { new (m) WP<const ET>(std::as_const(*f.o).weak_from_this()); });
}
CONTRACT(f_weak_void, "C16 C03 C07", "enable_shared_from::weak_from_this") {
    auto f = fix<EFD>();
    int k = xs_choose(2, "const");
    if (k) weak_result<const void>(f.cb, f.o, false, [&](WP<const void>* m) { new (m) WP<const void>(std::as_const(*f.o).weak_from_this()); });
    else weak_result<void>(f.cb, f.o, false, [&](WP<void>* m) { new (m) WP<void>(f.o->weak_from_this()); });
}
CONTRACT(f_weak_from, "C16 C03 C07", "weak_from(address)") {
    auto f = fix<EF>();
    weak_result<long>(f.cb, &f.o->w, xs_choose(2, "interference"), [&](WP<long>* m) { new (m) WP<long>(f.o->weak_from(&f.o->w)); });
}

// ---- the destructor of the managed object asks for itself
static ET* g_dying; static int g_kind;
static void ask() {
    xs_lib l;
    if (g_kind == 0) { SP<ET> p(g_dying->shared_from_this()); xs_ghost g; xs_check(!p.owner() && !p.get(), "C16|C02: shared_from_this of a dying object is empty"); }
    else if (g_kind == 1) { WP<ET> p(g_dying->weak_from_this()); SP<ET> q(p.lock()); xs_ghost g; xs_check(!q.owner() && !q.get(), "C16|C02|C04: weak_from_this of a dying object cannot be locked"); }
    else { SP<long> p(g_dying->shared_from(&g_dying->w)); xs_ghost g; xs_check(!p.owner() && !p.get(), "C16|C02: shared_from of a dying object is empty"); }
}
CONTRACT(f_dying, "C16 C02 C03 C04 C07", "shared_from functions called by the destructor of the managed object") {
    world();
    xs_kill(g_obj[0]);
    g_obj[0] = xs_region(sizeof(ET), alignof(ET), "object of A");
    g_dying = new (g_obj[0]) ET();
    CBF::prepare_pair(g_cb[0], g_dying);
    auto s = make_s<ET>(g_cb[0], g_dying, -1, "owner");
    g_cb[0]->s_others = 0;
    g_kind = xs_choose(3, "what it asks for");
    ready(); frame(s.p, sizeof(SP<ET>));
    g_action = ask;
    expect(s.i, nullptr, nullptr);
    { xs_lib l; s->reset(); }
    xs_check(g_user == 1, "C02: the object is destroyed once");
    settled(); values(V); xs_cover("end");
}

// ---- copying never copies ownership
template <typename E, typename S> void copying(S shared) {
    auto f = fix<E>();
    E* d = new (xs_region(sizeof(E), alignof(E), "other object")) E();
    scb* dcb = owner_choice("owner of the other object");
    if (dcb) { CBF::prepare_pair(dcb, d); auto k = make_w<E>(dcb, d, -1, "keeper"); expect(k.i, dcb, d); }
    int how = xs_choose(3, "copy construct, copy assign, move assign");
    E* n = (E*)xs_region(sizeof(E), alignof(E), "new object");
    ready(); frame(n, sizeof(E)); frame(d, sizeof(E));
    { xs_lib l; if (how == 0) new (n) E(std::as_const(*f.o)); else if (how == 1) *d = std::as_const(*f.o); else *d = std::move(*f.o); }
    E* t = how == 0 ? n : d; scb* tcb = how == 0 ? nullptr : dcb;
    int which = xs_choose(2, "ask the target or the source");
    E* q = which ? f.o : t; scb* qcb = which ? f.cb : tcb;
    shared(q, qcb);
}
CONTRACT(f_copy_t, "C16", "copying, assigning and moving an object never moves ownership (enable_shared_from_this)") {
    copying<ET>([](ET* q, scb* cb) {
        auto m = (SP<ET>*)xs_region(sizeof(SP<ET>), 8, "result");
        { xs_lib l; new (m) SP<ET>(q->shared_from_this()); }
        bool got = cb && !cb->expired;
        expect(track_s<ET>(m, -1), got ? cb : nullptr, got ? q : nullptr);
        settled(); values(V); xs_cover("end");
    });
}
CONTRACT(f_copy_v, "C16", "copying, assigning and moving an object never moves ownership (enable_shared_from)") {
    copying<EFD>([](EFD* q, scb* cb) {
        auto m = (SP<void>*)xs_region(sizeof(SP<void>), 8, "result");
        { xs_lib l; new (m) SP<void>(q->shared_from_this()); }
        bool got = cb && !cb->expired;
        expect(track_s<void>(m, -1), got ? cb : nullptr, got ? (void*)q : nullptr);
        settled(); values(V); xs_cover("end");
    });
}
CONTRACT(f_prepare, "C16 C14", "prepare_pair: null pointers and new owners") {
    world();
    scb* cb = g_cb[xs_choose(2, "block")];
    EFD* o = new (xs_region(sizeof(EFD), alignof(EFD), "object")) EFD();
    int again = xs_choose(2, "owned before");
    if (again) CBF::prepare_pair(cb == g_cb[0] ? g_cb[1] : g_cb[0], o);
    int null = xs_choose(2, "null");
    ready(); frame(o, sizeof(EFD));
    typename CBF::pair<EFD>* p = (typename CBF::pair<EFD>*)xs_region(sizeof(*p), 8, "pair");
    frame(p, sizeof(*p));
    { xs_lib l; new (p) CBF::pair<EFD>(CBF::prepare_pair(cb, null ? nullptr : o)); }
    xs_check(p->cb == cb && p->ptr == (null ? nullptr : o), "C16|C14: the first owner gets the block and the object");
    if (!null) {
        cb->s_others = cb->s_others | 1;
        auto m = (SP<void>*)xs_region(sizeof(SP<void>), 8, "result");
        { xs_lib l; new (m) SP<void>(o->shared_from_this()); }
        expect(track_s<void>(m, -1), cb, o);
        settled(); values(V);
    }
    xs_cover("end");
}
