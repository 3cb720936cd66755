// The whole stack: real handles over real control blocks (C01 C02 C03 C04 C08 C09 C15 C16).
// The contracts of l3 take the control block by contract and those of l1 prove the block: here the
// two are put together and nothing is assumed.  One invariant ties every block to the handles that
// exist; every operation, started in any state that has it, keeps it:
//   strong count = strong handles, weak count = weak handles + (1 if there is a strong handle),
//   the object exists exactly while there is a strong handle, the block while there is any.
// Handles outside the contract are counted by a symbolic number.
#include "ledger.hpp"
#include "xmem_begin.hpp"
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include "xmem_end.hpp"

struct Shared {
    template <typename T> using ptr = xmem::shared_ptr<T>;
    template <typename T> using weak = xmem::weak_ptr<T>;
    template <typename T> using est = xmem::enable_shared_from_this<T>;
    template <typename T> static ptr<T> make() { return xmem::make_shared<T>(); }
    template <typename T> using storage = xmem::atomic_shared_ptr_storage<T>;
    using count = xmem::atomic_ref_count;
};
struct Local {
    template <typename T> using ptr = xmem::local_shared_ptr<T>;
    template <typename T> using weak = xmem::local_weak_ptr<T>;
    template <typename T> using est = xmem::enable_local_shared_from_this<T>;
    template <typename T> static ptr<T> make() { return xmem::make_local_shared<T>(); }
    template <typename T> using storage = xmem::basic_atomic_shared_ptr_storage<xmem::local_control_block_factory, T>;
    using count = xmem::local_ref_count;
};
struct Pad { uint64_t pad; };
struct Base { uint64_t b; };
static const uint64_t MANY = 0x7fffff00ull;
static const int MAXH = 10;
static const void* g_at[MAXH]; static int g_kind[MAXH]; static int g_nh;    // the handles: 0 strong to Base, 1 strong to Node, 2 weak to Base, 3 weak to Node, 4 stored
static void h_add(const void* p, int k) { g_at[g_nh] = p; g_kind[g_nh] = k; g_nh = g_nh + 1; }
static void h_drop(const void* p) { for (int i = 0; i < g_nh; ++i) if (g_at[i] == p) { g_nh = g_nh - 1; g_at[i] = g_at[g_nh]; g_kind[i] = g_kind[g_nh]; return; } }
static void (*g_dying)();        // what the destructor of an object does, once
static void* g_who;             // the object
// the object: has handles of its own, which go with it
template <typename F> struct Node : Pad, Base, F::template est<Node<F>> {
    typename F::template ptr<Node> next; typename F::template weak<Node> seen;
    Node() { xs_ghost g; pad = 1; b = 2; obj_born(this); h_add(&next, 1); h_add(&seen, 3); }
    ~Node() { { xs_ghost g; if (g_dying) { auto f = g_dying; g_dying = nullptr; g_who = this; f(); } } xs_ghost g; xs_check(pad == 1 && b == 2, "C02: the object is intact until it is destroyed"); obj_dies(this); h_drop(&next); h_drop(&seen); }
};

// ---------------------------------------------------------------- a block and what is known about it
template <typename F> struct world {
    using O = Node<F>;
    template <typename T> using S = typename F::template ptr<T>;
    template <typename T> using W = typename F::template weak<T>;
    struct block {
        bool made;
        char* mem; const void* owner; S<O>* wit; O* obj;
        uint64_t so, wo;             // where the counts are
        uint64_t xs, xw;             // handles elsewhere
    } b[2];
    uint64_t cs;
    world() { ledger_start(); g_nh = 0; g_dying = nullptr; b[0].made = b[1].made = false; cs = sizeof(typename F::count); }
    uint64_t rd(const char* p) { return cs == 4 ? *(const uint32_t*)p : *(const uint64_t*)p; }
    void wr(char* p, uint64_t v) { if (cs == 4) *(uint32_t*)p = uint32_t(v); else *(uint64_t*)p = v; }

    void make(int k) {
        block& c = b[k];
        c.made = true;
        g_keep_block = &c.mem;
        S<O>* p = c.wit = (S<O>*)xs_region(sizeof(S<O>), 8, "owner");
        { xs_lib l; new (p) S<O>(F::template make<O>()); }
        g_keep_block = nullptr;
        { xs_lib l; c.owner = p->owner(); c.obj = p->get(); }
        S<O>* p2 = (S<O>*)xs_region(sizeof(S<O>), 8, "owner");
        W<O>* w = (W<O>*)xs_region(sizeof(W<O>), 8, "weak pointer");
        c.so = find(c, [&] { new (p2) S<O>(*p); });
        c.wo = find(c, [&] { new (w) W<O>(*p); });
        { xs_lib l; p2->~S<O>(); w->~W<O>(); }
        xs_require(c.so != c.wo && rd(c.mem + c.so) == 1 && rd(c.mem + c.wo) == 1, "C01|C03: a new block has one strong owner");
    }
    template <typename G> uint64_t find(block& c, G g) {
        uint64_t snap[16]; bool ini[16];
        int m = int(xs_obj_size(c.mem) / cs); if (m > 16) m = 16;
        for (int i = 0; i < m; ++i) { ini[i] = i * cs >= 8 && !xs_uninit(c.mem + i * cs, cs); snap[i] = ini[i] ? rd(c.mem + i * cs) : 0; }
        { xs_lib l; g(); }
        for (int i = 0; i < m; ++i) if (ini[i] && rd(c.mem + i * cs) != snap[i]) return i * cs;
        xs_require(false, "C01|C03: a new handle is counted");
        return 0;
    }
    // a handle of the contract: to no block (0), to the first or the second one
    S<Base>* sb(int to, const char* n) { return handle<S<Base>>(to, 0, n); }
    S<O>* so(int to, const char* n) { return handle<S<O>>(to, 1, n); }
    W<Base>* wb(int to, const char* n) { return handle<W<Base>>(to, 2, n); }
    W<O>* wo(int to, const char* n) { return handle<W<O>>(to, 3, n); }
    template <typename H> H* handle(int to, int kind, const char* n) {
        H* p = (H*)xs_region(sizeof(H), 8, n);
        { xs_lib l; if (to == 0) new (p) H(); else new (p) H(*b[to - 1].wit); }
        h_add(p, kind);
        return p;
    }
    // the pre-state: any number of handles elsewhere; no owner left if asked for
    void others(int k, bool owned) {
        block& c = b[k];
        if (!owned) {
            uint64_t s, w; c.xs = c.xw = 0; expect(c, s, w);
            if (w == 0) xs_no_path();
            xs_lib l; c.wit->~S<O>();
        }
        c.xs = owned ? xs_nondet(32, "strong owners elsewhere") : 0;
        c.xw = xs_nondet(32, "weak handles elsewhere");
        xs_assume((c.xs <= MANY) & (c.xw <= MANY));
        uint64_t s, w; expect(c, s, w);
        if (owned) xs_assume(s > 0); else xs_assume((s == 0) & (w > 0));
        xs_require(xs_alive(c.mem), "C03: the control block stays while there is a weak handle");
        wr(c.mem + c.so, s); wr(c.mem + c.wo, w + (owned ? 1 : 0));
    }
    void expect(block& c, uint64_t& s, uint64_t& w) {
        s = c.xs; w = c.xw;
        for (int i = 0; i < g_nh; ++i) if (owner(i) == c.owner) { if (g_kind[i] < 2 || g_kind[i] == 4) s = s + 1; else w = w + 1; }
    }
    template <typename H> static const void* own(const void* p) { const void* r; { xs_lib l; r = static_cast<const H*>(p)->owner(); } return r; }
    static const void* owner(int i) {
        int k = g_kind[i]; const void* p = g_at[i];
        return k == 0 ? own<S<Base>>(p) : k == 1 ? own<S<O>>(p) : k == 2 ? own<W<Base>>(p) : k == 3 ? own<W<O>>(p) : stored(p);
    }
    template <typename H> static long cnt(const void* p) { long r; { xs_lib l; r = static_cast<const H*>(p)->use_count(); } return r; }
    static long use(int i) {
        int k = g_kind[i]; const void* p = g_at[i];
        return k == 0 ? cnt<S<Base>>(p) : k == 1 ? cnt<S<O>>(p) : k == 2 ? cnt<W<Base>>(p) : k == 3 ? cnt<W<O>>(p) : stored_use(p);
    }
    using ST = typename F::template storage<O>;
    static const void* stored(const void* p) { const void* r; { xs_lib l; r = static_cast<const ST*>(p)->load().owner(); } return r; }
    static long stored_use(const void* p) { long r; { xs_lib l; S<O> t = static_cast<const ST*>(p)->load(); r = t.use_count(); if (r) r = r - 1; } return r; }
    void invariant() {
        int blocks = 0, objs = 0;
        for (int k = 0; k < 2; ++k) {
            block& c = b[k];
            if (!c.made) continue;
            uint64_t s, w; expect(c, s, w);
            bool strong = xs_decide(s > 0);
            bool any = strong || xs_decide(w > 0);
            xs_check((obj_find(c.obj) >= 0) == strong, "C02|C01|C09: the object exists exactly while there is a strong owner");
            xs_require(xs_alive(c.mem) == any, "C03|C02|C09|C15: the control block exists exactly while there is a handle");
            if (strong) objs++;
            if (!any) continue;
            blocks++;
            xs_check(rd(c.mem + c.so) == s, "C01|C08|C04: the strong count is the number of strong owners");
            xs_check(rd(c.mem + c.wo) == w + (strong ? 1 : 0), "C03|C01|C08: the weak count is the number of weak handles, and one for all the owners");
            for (int i = 0; i < g_nh; ++i) if (owner(i) == c.owner) xs_check(use(i) == long(s), "C01: use_count is the number of strong owners");
        }
        for (int i = 0; i < g_nh; ++i) {
            const void* o = owner(i);
            xs_check(o == nullptr || (b[0].made && o == b[0].owner) || (b[1].made && o == b[1].owner), "C08|C01: a handle refers to a block or to none");
            if (o == nullptr) xs_check(use(i) == 0, "C01: use_count of a handle without a block is zero");
        }
        xs_check(g_allocs == blocks, "C15|C03: memory is held by the blocks only");
        xs_check(g_nobjs == objs, "C02: no other object exists");
    }
    template <typename H> void gone(H* p) { { xs_lib l; p->~H(); } h_drop(p); }
    template <typename H> H* room() { return (H*)xs_region(sizeof(H), 8, "new handle"); }
    bool is_owner(const void* o, int to) { return o == (to == 0 ? nullptr : b[to - 1].owner); }
};

// ---------------------------------------------------------------- strong handles
template <typename F, typename U> void strong_ops() {
    using wd = world<F>; using O = typename wd::O; using SB = typename wd::template S<Base>; using SU = typename wd::template S<U>; using WB = typename wd::template W<Base>;
    constexpr bool same = std::is_same_v<U, Base>;
    const int kind = same ? 0 : 1;
    wd w;
    int ta = xs_choose(2, "target: no block, first block");
    int tb = xs_choose(3, "source: no block, first, second block");
    if (ta || tb == 1) w.make(0);
    if (tb == 2) w.make(1);
    SB* a = w.sb(ta, "target");
    SU* s = w.template handle<SU>(tb, kind, "source");
    for (int k = 0; k < 2; ++k) if (w.b[k].made) w.others(k, true);
    Base* alias; { xs_lib l; alias = a->get(); }
    int op = xs_choose(same ? 12 : 7, "operation");
    void* n = w.template room<SB>();
    SB* ns = (SB*)n; WB* nw = (WB*)n;
    const void* oa = nullptr; const void* os = nullptr; int ea = ta, es = tb, en = -1, nk = 0;
    {
        xs_lib l;
        switch (op) {
        case 0: new (ns) SB(*s); en = tb; break;
        case 1: new (ns) SB(std::move(*s)); en = tb; es = 0; break;
        case 2: *a = *s; ea = tb; break;
        case 3: *a = std::move(*s); ea = tb; es = 0; break;
        case 4: new (ns) SB(*s, alias); en = tb; break;
        case 5: new (nw) WB(*s); en = tb; nk = 2; break;
        case 6: new (nw) WB(*s, alias); en = tb; nk = 2; break;
        default:
            if constexpr (same) switch (op) {
            case 7: a->swap(*s); ea = tb; es = ta; break;
            case 8: a->reset(); ea = 0; break;
            case 9: *a = nullptr; ea = 0; break;
            case 10: *a = *static_cast<SB*>(a); break;
            default: *a = std::move(*a); a->swap(*a); break;
            }
        }
    }
    if (en >= 0) h_add(n, nk);
    oa = wd::template own<SB>(a); os = wd::template own<SU>(s);
    xs_check(w.is_owner(oa, ea) && w.is_owner(os, es), "C08|C01: every handle refers to the block it should");
    if (en >= 0) xs_check(w.is_owner(nk ? wd::template own<WB>(nw) : wd::template own<SB>(ns), en), "C08|C01: every handle refers to the block it should");
    w.invariant();
    w.gone(a); w.invariant();
    w.gone(s); w.invariant();
    if (en >= 0) { if (nk) w.gone(nw); else w.gone(ns); w.invariant(); }
    xs_cover("end");
}
// ---------------------------------------------------------------- weak handles
template <typename F, typename U> void weak_ops() {
    using wd = world<F>; using O = typename wd::O; using SB = typename wd::template S<Base>; using WU = typename wd::template W<U>; using WB = typename wd::template W<Base>; using SU = typename wd::template S<U>;
    constexpr bool same = std::is_same_v<U, Base>;
    wd w;
    int ta = xs_choose(2, "target: no block, first block");
    int tb = xs_choose(3, "source: no block, first, second block");
    int op = xs_choose(same ? 14 : 9, "operation");
    bool strong_target = op == 7 || op == 8;
    if (ta || tb == 1) w.make(0);
    if (tb == 2) w.make(1);
    // which blocks have owners
    bool own[2] = {true, true};
    if (w.b[0].made && !(strong_target && ta)) own[0] = xs_choose(2, "first block has owners");
    if (w.b[1].made) own[1] = xs_choose(2, "second block has owners");
    WB* a = nullptr; SB* sa = nullptr;
    if (strong_target) sa = w.sb(ta, "target"); else a = w.wb(ta, "target");
    WU* s = w.template handle<WU>(tb, same ? 2 : 3, "source");
    for (int k = 0; k < 2; ++k) if (w.b[k].made) w.others(k, own[k]);
    bool src_owned = tb && own[tb - 1];
    // converting an expired weak pointer to a base is the known finding for virtual bases only
    void* n = w.template room<SB>();
    WB* nw = (WB*)n; SU* ns = (SU*)n;
    int ea = ta, es = tb, en = -1, nk = 2;
    Base dummy; Base* alias = &dummy;
    {
        xs_lib l;
        switch (op) {
        case 0: new (nw) WB(*s); en = tb; break;
        case 1: new (nw) WB(std::move(*s)); en = tb; es = 0; break;
        case 2: *a = *s; ea = tb; break;
        case 3: *a = std::move(*s); ea = tb; es = 0; break;
        case 4: new (nw) WB(*s, alias); en = tb; break;
        case 5: new (ns) SU(s->lock()); en = src_owned ? tb : 0; nk = same ? 0 : 1; break;
        case 6: a->reset(); ea = 0; break;
        case 7: *sa = s->lock(); ea = src_owned ? tb : 0; break;
        case 8: *sa = s->lock(); s->reset(); ea = src_owned ? tb : 0; es = 0; break;
        default:
            if constexpr (same) switch (op) {
            case 9: a->swap(*s); ea = tb; es = ta; break;
            case 10: *a = *static_cast<WB*>(a); break;
            case 11: *a = std::move(*a); a->swap(*a); break;
            case 12: *a = s->lock(); ea = src_owned ? tb : 0; break;
            default: { WB t(std::move(*a)); *a = t; } break;
            }
        }
    }
    if (en >= 0) h_add(n, nk);
    const void* oa = strong_target ? wd::template own<SB>(sa) : wd::template own<WB>(a);
    const void* os = wd::template own<WU>(s);
    xs_check(w.is_owner(oa, ea) && w.is_owner(os, es), "C08|C04: every handle refers to the block it should");
    if (en >= 0) xs_check(w.is_owner(nk == 2 ? wd::template own<WB>(nw) : wd::template own<SU>(ns), en), "C08|C04: every handle refers to the block it should, and lock gives an owner exactly if there is one");
    bool ex; { xs_lib l; ex = s->expired(); }
    if (es == tb) xs_check(ex == !src_owned, "C04: expired exactly if there is no owner");
    w.invariant();
    if (en >= 0) { if (nk == 2) w.gone(nw); else w.gone(ns); w.invariant(); }
    if (strong_target) w.gone(sa); else w.gone(a);
    w.invariant();
    w.gone(s); w.invariant();
    xs_cover("end");
}
// ---------------------------------------------------------------- handles inside objects: chains, cycles, a handle released through itself
template <typename F> void link_ops() {
    using wd = world<F>; using O = typename wd::O; using SO = typename wd::template S<O>; using WO = typename wd::template W<O>;
    wd w;
    w.make(0); w.make(1);
    SO* a = w.so(1, "owner of the first object");
    // what the objects' own handles refer to
    int n0 = xs_choose(3, "first object's strong handle: none, itself, second object");
    int n1 = xs_choose(2, "second object's strong handle: none, first object");
    int s0 = xs_choose(3, "first object's weak handle: none, itself, second object");
    {
        xs_lib l;
        O* o0 = w.b[0].obj; O* o1 = w.b[1].obj;
        if (n0) o0->next = n0 == 1 ? *w.b[0].wit : *w.b[1].wit;
        if (n1) o1->next = *w.b[0].wit;
        if (s0) o0->seen = s0 == 1 ? *w.b[0].wit : *w.b[1].wit;
    }
    bool own1 = n0 == 2 || xs_choose(2, "the second object has owners");
    if (!own1 && n1) xs_no_path();
    w.others(0, true); w.others(1, own1);
    int op = xs_choose(8, "operation");
    int ea = -1;
    {
        xs_lib l;
        switch (op) {
        case 0: *a = (*a)->next; ea = n0; break;                        // copied out of what is released
        case 1: *a = std::move((*a)->next); ea = n0; break;
        case 2: a->swap((*a)->next); ea = n0; break;
        case 3: a->reset(); ea = 0; break;
        case 4: (*a)->next.reset(); ea = 1; break;
        case 5: *a = (*a)->seen.lock(); ea = s0 == 2 && !own1 ? 0 : s0; break;
        case 6: (*a)->seen = (*a)->next; ea = 1; break;
        default: (*a)->next = (*a)->seen.lock(); ea = 1; break;
        }
    }
    xs_check(w.is_owner(wd::template own<SO>(a), ea), "C08|C09: the handle refers to the block it should");
    w.invariant();
    w.gone(a); w.invariant();
    xs_cover("end");
}
// ---------------------------------------------------------------- an object whose destructor uses the handles
template <typename F> struct dying {
    using wd = world<F>; using O = typename wd::O; using SO = typename wd::template S<O>; using WO = typename wd::template W<O>;
    static inline SO *a, *b; static inline void* room; static inline int act, did;
    static void run() {
        did = 1;
        O* o = (O*)g_who;
        if (act == 1) { { xs_lib l; new (room) WO(o->weak_from_this()); } h_add(room, 3); }
        else if (act == 2) {
            { xs_lib l; new (room) SO(o->shared_from_this()); }
            xs_check(wd::template own<SO>(room) == nullptr, "C16|C04|C02: an object that is being destroyed has no owner to share");
            { xs_lib l; ((SO*)room)->~SO(); }
        }
        else if (act == 3) { xs_lib l; WO t(o->weak_from_this()); WO u(t); t = std::move(u); SO s(t.lock()); }
        else if (act == 4) { { xs_lib l; new (room) SO(*a); } h_add(room, 1); }
        else if (act == 5) { xs_lib l; a->reset(); }
        else if (act == 6) { xs_lib l; *a = *b; }
        else if (act == 7) { xs_lib l; a->swap(*b); }
    }
};
template <typename F> void dying_ops() {
    using D = dying<F>; using wd = typename D::wd; using SO = typename D::SO; using WO = typename D::WO;
    wd w;
    w.make(0); w.make(1);
    SO* a = D::a = w.so(1, "target");
    SO* b = D::b = w.so(2, "source");
    w.others(0, true); w.others(1, true);
    D::room = w.template room<SO>(); D::did = 0;
    int op = xs_choose(6, "reset, destruction, copy assignment, move assignment, assignment of null, swap with one that goes");
    D::act = xs_choose(op == 1 ? 4 : 8, "what the object's destructor does");
    int ea = 0, eb = 2;
    g_dying = D::run;
    {
        xs_lib l;
        switch (op) {
        case 0: a->reset(); break;
        case 1: a->~SO(); break;
        case 2: *a = *b; ea = 2; break;
        case 3: *a = std::move(*b); ea = 2; eb = 0; break;
        case 4: *a = nullptr; break;
        default: { SO t; t.swap(*a); } break;
        }
    }
    g_dying = nullptr;
    if (op == 1) h_drop(a);
    if (D::did) {
        if (D::act == 4) xs_check(w.is_owner(wd::template own<SO>(D::room), ea), "C09|C08: during the destruction the target has its new value");
        if (D::act == 5) ea = 0;
        if (D::act == 6) ea = eb;
        if (D::act == 7) { int t = ea; ea = eb; eb = t; }
    }
    if (op != 1) xs_check(w.is_owner(wd::template own<SO>(a), ea), "C08|C09: every handle refers to the block it should");
    xs_check(w.is_owner(wd::template own<SO>(b), eb), "C08|C09: every handle refers to the block it should");
    w.invariant();
    if (op != 1) { w.gone(a); w.invariant(); }
    w.gone(b); w.invariant();
    if (D::did && D::act == 1) { w.gone((WO*)D::room); w.invariant(); }
    if (D::did && D::act == 4) { w.gone((SO*)D::room); w.invariant(); }
    xs_cover("end");
}
// ---------------------------------------------------------------- handles from the object itself
template <typename F> void from_ops() {
    using wd = world<F>; using O = typename wd::O; using SO = typename wd::template S<O>; using WO = typename wd::template W<O>; using SB = typename wd::template S<Base>;
    wd w;
    w.make(0);
    int have = xs_choose(2, "an owner in the contract");
    SO* a = w.so(have, "owner");
    w.others(0, true);
    int op = xs_choose(4, "operation");
    void* n = w.template room<SO>();
    O* o = w.b[0].obj; const O* co = o;
    int k = 1;
    {
        xs_lib l;
        switch (op) {
        case 0: new (n) SO(o->shared_from_this()); break;
        case 1: new (n) WO(o->weak_from_this()); k = 3; break;
        case 2: *a = o->shared_from_this(); k = -1; break;
        default: o->seen = o->weak_from_this(); k = -2; break;
        }
    }
    if (k >= 0) h_add(n, k);
    if (k == 1) { O* g; { xs_lib l; g = ((SO*)n)->get(); } xs_check(wd::template own<SO>(n) == w.b[0].owner && g == o, "C16|C08: shared_from_this gives an owner of the object"); }
    if (k == 3) xs_check(wd::template own<WO>(n) == w.b[0].owner, "C16: weak_from_this refers to the object's block");
    if (k == -1) xs_check(wd::template own<SO>(a) == w.b[0].owner, "C16|C08: shared_from_this gives an owner of the object");
    w.invariant();
    w.gone(a); w.invariant();
    if (k == 1) { w.gone((SO*)n); w.invariant(); }
    if (k == 3) { w.gone((WO*)n); w.invariant(); }
    xs_cover("end");
}
// ---------------------------------------------------------------- pointers kept in a storage (one thread; several: l5)
template <typename F> void storage_ops() {
    using wd = world<F>; using O = typename wd::O; using SO = typename wd::template S<O>; using ST = typename wd::ST;
    wd w;
    int ta = xs_choose(2, "stored: no block, first block");
    int tb = xs_choose(3, "source: no block, first, second block");
    int op = xs_choose(9, "operation");
    bool two = op == 6 || op == 7;
    int te = two ? xs_choose(3, "expected: no block, first, second block") : 0;
    if (ta || tb == 1 || te == 1) w.make(0);
    if (tb == 2 || te == 2) w.make(1);
    ST* st = (ST*)xs_region(sizeof(ST), alignof(ST), "storage");
    { xs_lib l; if (ta) new (st) ST(SO(*w.b[0].wit)); else new (st) ST(); }
    h_add(st, 4);
    SO* s = w.so(tb, "source");
    SO* e = two ? w.so(te, "expected") : nullptr;
    for (int k = 0; k < 2; ++k) if (w.b[k].made) w.others(k, true);
    void* n = w.template room<SO>(); SO* nn = (SO*)n;
    int ea = ta, es = tb, en = -1, ee = te; bool r = true, er = true;
    {
        xs_lib l;
        switch (op) {
        case 0: st->store(*s); ea = tb; break;
        case 1: st->store(std::move(*s)); ea = tb; es = 0; break;
        case 2: new (nn) SO(st->load()); en = ta; break;
        case 3: new (nn) SO(st->exchange(std::move(*s))); en = ta; ea = tb; es = 0; break;
        case 4: new (nn) SO(st->exchange(*s)); en = ta; ea = tb; break;
        case 5: *s = st->load(); es = ta; break;
        case 6: r = st->compare_exchange(*e, *s); er = ta == te; break;
        case 7: r = st->compare_exchange(*e, std::move(*s)); er = ta == te; break;
        default: st->store(nullptr); ea = 0; break;
        }
    }
    if (two) {
        xs_check(r == er, "C17: compare_exchange succeeds exactly if the storage holds what is expected");
        if (er) ea = tb; else ee = ta;
        if (op == 7) es = 0;
    }
    if (en >= 0) h_add(n, 1);
    xs_check(w.is_owner(wd::stored(st), ea) && w.is_owner(wd::template own<SO>(s), es), "C17|C08: every handle refers to the block it should");
    if (en >= 0) xs_check(w.is_owner(wd::template own<SO>(nn), en), "C17|C08: what was stored is returned");
    if (two) xs_check(w.is_owner(wd::template own<SO>(e), ee), "C17|C08: a failed compare_exchange gives what is stored, a successful one leaves the expected pointer");
    w.invariant();
    w.gone(st); w.invariant();
    w.gone(s); w.invariant();
    if (en >= 0) { w.gone(nn); w.invariant(); }
    if (two) { w.gone(e); w.invariant(); }
    xs_cover("end");
}
#define STACK(F, f) \
CONTRACT(stk_##f##_strong, "C01 C02 C03 C08 C09 C15", "every operation of two strong handles of one type over real blocks, any number of other handles") { strong_ops<F, Base>(); } \
CONTRACT(stk_##f##_strong_conv, "C01 C02 C03 C08 C09 C15", "every operation of two strong handles of different types over real blocks, any number of other handles") { strong_ops<F, Node<F>>(); } \
CONTRACT(stk_##f##_weak, "C01 C02 C03 C04 C08 C15", "every operation of two weak handles of one type over real blocks, any number of other handles") { weak_ops<F, Base>(); } \
CONTRACT(stk_##f##_weak_conv, "C01 C02 C03 C04 C08 C15", "every operation of two weak handles of different types over real blocks, any number of other handles") { weak_ops<F, Node<F>>(); } \
CONTRACT(stk_##f##_links, "C01 C02 C03 C08 C09 C15", "handles inside the objects they own: chains, cycles, operands that are released by the operation") { link_ops<F>(); } \
CONTRACT(stk_##f##_from, "C01 C02 C03 C16 C15", "handles obtained from the object, any number of other handles") { from_ops<F>(); } \
CONTRACT(stk_##f##_dying, "C01 C02 C03 C04 C08 C09 C16 C15", "an object whose destructor uses the handles that release it and makes new ones") { dying_ops<F>(); } \
CONTRACT(stk_##f##_storage, "C01 C02 C03 C17 C15", "every operation of a storage over real blocks, any number of other handles") { storage_ops<F>(); }
STACK(Shared, a)
STACK(Local, l)
