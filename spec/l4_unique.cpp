// unique_ptr with every kind of deleter (C12 C13 C11 C19): every combination of owned and null
// pointers, deleters that use the pointer they are called from
#include "ledger.hpp"
#include "printing.hpp"
#include "xmem_begin.hpp"
#include <xmem/unique_ptr.hpp>
#include <xmem/ostream.hpp>
#include "xmem_end.hpp"

struct Obj { long v; };
struct B1 { long x; };
struct B2 { long y; };
struct D2 : B1, B2 { long z; };

// ---------------------------------------------------------------- disposals
static int g_nd; static uint64_t g_d_id[8]; static const void* g_d_p[8];
static void (*g_on_dispose)(uint64_t, const void*);
static void dispose(uint64_t id, const void* p) {
    xs_check(p != nullptr, "C12: null is never passed to a deleter");
    if (g_nd >= 8) { xs_check(false, "C12: a pointer is disposed of once"); xs_stop(); }
    g_d_id[g_nd] = id; g_d_p[g_nd] = p; g_nd++;
    if (g_on_dispose) { auto f = g_on_dispose; g_on_dispose = nullptr; f(id, p); }
}
// how often p was given to a deleter / to deleter id
static int times(const void* p) { int n = 0; for (int i = 0; i < g_nd; ++i) if (xs_decide(g_d_p[i] == p)) n++; return n; }
static int times(const void* p, uint64_t id) { int n = 0; for (int i = 0; i < g_nd; ++i) if (xs_decide((g_d_p[i] == p) & (g_d_id[i] == id))) n++; return n; }
static bool null(const void* p) { return xs_decide(p == nullptr); }

template <typename U> struct Del {
    uint64_t id;
    Del() noexcept : id(0) {}
    explicit Del(uint64_t i) noexcept : id(i) {}
    Del(const Del& o) noexcept : id(o.id) {}
    Del(Del&& o) noexcept : id(o.id) { o.id = 0; }
    template <typename V> Del(Del<V>&& o) noexcept : id(o.id) { o.id = 0; }
    Del& operator=(const Del& o) noexcept { id = o.id; return *this; }
    Del& operator=(Del&& o) noexcept { uint64_t i = o.id; o.id = 0; id = i; return *this; }
    template <typename V> Del& operator=(Del<V>&& o) noexcept { id = o.id; o.id = 0; return *this; }
    void operator()(U* p) const noexcept { xs_ghost g; dispose(id, p); }
};
template <typename U> void fd1(U* p) { xs_ghost g; dispose(101, p); }
template <typename U> void fd2(U* p) { xs_ghost g; dispose(102, p); }

static uint64_t g_id[3]; static void* g_ref[3];

template <typename T> struct KClass {
    using U = xmem::unique_ptr<T, Del<std::remove_extent_t<T>>>;
    using E = std::remove_extent_t<T>;
    static void setup(int k) { g_id[k] = xs_nondet(32, "deleter"); xs_assume(g_id[k] != 0); for (int i = 0; i < k; ++i) xs_assume(g_id[i] != g_id[k]); }
    static void make(void* m, E* p, int k) { Del<E> d(g_id[k]); { xs_lib l; new (m) U(p, std::move(d)); } xs_check(d.id == 0, "C13: a deleter given as an rvalue is moved, not copied"); }
    static void make_copy(void* m, E* p, int k) { Del<E> d(g_id[k]); { xs_lib l; new (m) U(p, d); } xs_check(d.id == g_id[k], "C13: a deleter given as an lvalue is copied"); }
    static bool is(U& u, int k) { uint64_t i, j; { xs_lib l; i = u.get_deleter().id; j = std::as_const(u).get_deleter().id; } return (i == g_id[k]) & (j == g_id[k]); }
    static bool gave(U& u) { uint64_t i; { xs_lib l; i = u.get_deleter().id; } return i == 0; }
};
// a deleter with state that is trivially copied
template <typename U> struct DelT { uint64_t id; void operator()(U* p) const noexcept { xs_ghost g; dispose(id, p); } };
template <typename T> struct KTriv {
    using E = std::remove_extent_t<T>;
    using U = xmem::unique_ptr<T, DelT<E>>;
    static void setup(int k) { KClass<T>::setup(k); }
    static void make(void* m, E* p, int k) { DelT<E> d{g_id[k]}; xs_lib l; new (m) U(p, d); }
    static void make_copy(void* m, E* p, int k) { make(m, p, k); }
    static bool is(U& u, int k) { uint64_t i, j; { xs_lib l; i = u.get_deleter().id; j = std::as_const(u).get_deleter().id; } return (i == g_id[k]) & (j == g_id[k]); }
    static bool gave(U&) { return true; }
};
// D: the class referred to; one may have an operator& of its own
template <typename U> struct DelAmp : Del<U> {
    using Del<U>::Del;
    DelAmp* operator&() { return nullptr; }
    const DelAmp* operator&() const { return nullptr; }
};
template <typename T, typename D = Del<T>> struct KRef {
    using U = xmem::unique_ptr<T, D&>;
    using E = T;
    static void setup(int k) { KClass<T>::setup(k); g_ref[k] = new (xs_region(sizeof(D), 8, "deleter object")) D(g_id[k]); }
    static void make(void* m, E* p, int k) { xs_lib l; new (m) U(p, *(D*)g_ref[k]); }
    static void make_copy(void* m, E* p, int k) { make(m, p, k); }
    static bool is(U& u, int k) { const void* i; const void* j; { xs_lib l; i = std::addressof(u.get_deleter()); j = std::addressof(std::as_const(u).get_deleter()); } return (i == g_ref[k]) & (j == g_ref[k]) & (((D*)g_ref[k])->id == g_id[k]); }
    static bool gave(U&) { return true; }
};
template <typename T> struct KFn {
    using U = xmem::unique_ptr<T, void(*)(T*)>;
    using E = T;
    static void setup(int k) { g_id[k] = 101 + k; }
    static void make(void* m, E* p, int k) { xs_lib l; new (m) U(p, k ? fd2<T> : fd1<T>); }
    static void make_copy(void* m, E* p, int k) { make(m, p, k); }
    static bool is(U& u, int k) { void (*d)(T*); { xs_lib l; d = u.get_deleter(); } return d == (k ? fd2<T> : fd1<T>); }
    static bool gave(U&) { return true; }
};

static void begin() { ledger_start(); g_nd = 0; g_on_dispose = nullptr; }
template <typename E> E* owned(const char* n) { return (E*)xs_nondet_ptr(n); }
static void distinct(const void* p, const void* q) { xs_assume((p == nullptr) | (p != q)); }
template <typename U> U* room(const char* n) { return (U*)xs_region(sizeof(U), 8, n); }
template <typename U> auto getp(U* u) { typename U::pointer p; { xs_lib l; p = std::as_const(*u).get(); } return p; }

// what the pointer under operation looks like from inside the deleter
static void* g_watch; static const void* (*g_get)(void*); static void (*g_reset)(void*);
static const void* g_seen; static int g_act; static const void* g_act_id;
template <typename U> const void* get_of(void* u) { return (const void*)getp((U*)u); }
template <typename U> void reset_of(void* u) { xs_lib l; ((U*)u)->reset(); }
static void on_dispose(uint64_t, const void*) {
    g_seen = g_get(g_watch);
    if (g_act) g_reset(g_watch);
}
template <typename U> void watch(U* u, bool act) { g_watch = u; g_get = get_of<U>; g_reset = reset_of<U>; g_seen = nullptr; g_act = act; g_on_dispose = on_dispose; }

// ---------------------------------------------------------------- construction, destruction, access
template <typename K> void life_contract() {
    begin(); K::setup(0);
    using U = typename K::U; using E = typename K::E;
    E* p = owned<E>("pointer");
    U* u = room<U>("unique pointer");
    xs_frame_begin(); xs_frame_allow(u, sizeof(U));
    if (xs_choose(2, "deleter as an lvalue")) K::make_copy(u, p, 0); else K::make(u, p, 0);
    E* g; bool b;
    { xs_lib l; const U& c = *u; g = c.get(); b = bool(c); }
    xs_check(g == p, "C13: get gives the owned pointer");
    xs_check(b == (p != nullptr), "C13|C19: bool says whether the pointer is non-null");
    xs_check(K::is(*u, 0), "C13: get_deleter gives the deleter given");
    xs_check(g_nd == 0, "C12: nothing is deleted while it is owned");
    int rel = xs_choose(2, "release");
    if (rel) {
        E* r; { xs_lib l; r = u->release(); }
        xs_check(r == p, "C12|C13: release hands the pointer out");
        xs_check(getp(u) == nullptr, "C13|C12: a released pointer is null");
        xs_check(K::is(*u, 0), "C13: release keeps the deleter");
    }
    watch(u, false);
    { xs_lib l; u->~U(); }
    if (rel || null(p)) xs_check(g_nd == 0, "C12: a released or null pointer is not deleted");
    else {
        xs_check(g_nd == 1 && times(p, g_id[0]) == 1, "C12|C13: the pointer is deleted once, by its deleter");
        xs_check(g_seen == p, "C12: the deleter runs before the pointer itself is invalidated");
    }
    xs_cover("end");
}
template <typename K> void access_contract() {
    begin(); K::setup(0);
    using U = typename K::U; using E = typename K::E;
    E* p = owned<E>("pointer"); xs_assume(p != nullptr);
    U* u = room<U>("unique pointer");
    K::make(u, p, 0);
    xs_frame_begin();
    E* d; E* a;
    if constexpr (std::is_array_v<typename std::conditional_t<std::is_same_v<K, KClass<Obj[]>> || std::is_same_v<K, KTriv<Obj[]>>, int[1], int>>) {
        uint64_t i = xs_nondet(60, "index");
        { xs_lib l; a = &std::as_const(*u)[i]; }
        xs_check((uint64_t)a == (uint64_t)p + sizeof(E) * i, "C13: [] gives the indexed element");
    }
    else {
        { xs_lib l; const U& c = *u; d = &*c; a = c.operator->(); }
        xs_check(d == p, "C13: * gives the pointee");
        xs_check(a == p, "C13: -> gives the pointer");
    }
    xs_frame_end();
    xs_check(g_nd == 0 && getp(u) == p, "C12|C13: access changes nothing");
    xs_cover("end");
}
// ---------------------------------------------------------------- reset
template <typename K> void reset_contract() {
    begin(); K::setup(0);
    using U = typename K::U; using E = typename K::E;
    E* p = owned<E>("pointer"); E* q = owned<E>("new pointer"); distinct(p, q);
    U* u = room<U>("unique pointer");
    K::make(u, p, 0);
    int how = xs_choose(3, "reset(new), reset(), = nullptr");
    int act = xs_choose(2, "the deleter resets the pointer again");
    if (how) q = nullptr;
    watch(u, act);
    xs_frame_begin(); xs_frame_allow(u, sizeof(U));
    { xs_lib l; if (how == 0) u->reset(q); else if (how == 1) u->reset(); else *u = nullptr; }
    xs_frame_end();
    g_on_dispose = nullptr;
    bool nested = act && !null(p);
    xs_check(getp(u) == (nested ? nullptr : q), "C12|C13: after reset the pointer is the new one");
    xs_check(K::is(*u, 0), "C13: reset keeps the deleter");
    if (!null(p)) {
        xs_check(times(p, g_id[0]) == 1, "C12|C13: the old pointer is deleted once, by its deleter");
        xs_check(g_seen == q, "C12: the old pointer is deleted after it was replaced");
    }
    xs_check(g_nd == !null(p) + (nested && !null(q)), "C12: the new pointer is not deleted while it is owned");
    { xs_lib l; u->~U(); }
    xs_check(null(q) || times(q, g_id[0]) == 1, "C12|C13: the new pointer is deleted once, by its deleter");
    xs_check(g_nd == !null(p) + !null(q), "C12: nothing else is deleted");
    xs_cover("end");
}
// ---------------------------------------------------------------- moves and swaps
template <typename K> void mctor_contract() {
    begin(); K::setup(0);
    using U = typename K::U; using E = typename K::E;
    E* p = owned<E>("pointer");
    U* s = room<U>("source"); U* t = room<U>("target");
    K::make(s, p, 0);
    xs_check(std::is_nothrow_move_constructible_v<U>, "C11: move construction is noexcept");
    xs_frame_begin(); xs_frame_allow(s, sizeof(U)); xs_frame_allow(t, sizeof(U));
    { xs_lib l; new (t) U(std::move(*s)); }
    xs_frame_end();
    xs_check(getp(t) == p, "C12|C13: a move carries the pointer");
    xs_check(getp(s) == nullptr, "C12|C13: a moved-from pointer is null");
    xs_check(K::is(*t, 0), "C13: a move carries the deleter");
    xs_check(K::gave(*s), "C13: the deleter is moved, not copied");
    xs_check(g_nd == 0, "C12: a move deletes nothing");
    int first = xs_choose(2, "source first");
    if (first) { { xs_lib l; s->~U(); } xs_check(g_nd == 0, "C12: a moved-from pointer deletes nothing"); xs_lib l; t->~U(); }
    else { xs_lib l; t->~U(); s->~U(); }
    xs_check(g_nd == !null(p) && (null(p) || times(p, g_id[0]) == 1), "C12|C13: the pointer is deleted once, by its deleter");
    xs_cover("end");
}
template <typename K> void massign_contract() {
    begin(); K::setup(0); K::setup(1);
    using U = typename K::U; using E = typename K::E;
    E* p = owned<E>("target pointer"); E* q = owned<E>("source pointer"); distinct(p, q);
    U* t = room<U>("target"); U* s = room<U>("source");
    K::make(t, p, 0);
    xs_check(std::is_nothrow_move_assignable_v<U>, "C11: move assignment is noexcept");
    int self = xs_choose(2, "to itself");
    if (self) { s = t; q = p; g_id[1] = g_id[0]; g_ref[1] = g_ref[0]; }
    else K::make(s, q, 1);
    watch(t, false);
    xs_frame_begin(); xs_frame_allow(s, sizeof(U)); xs_frame_allow(t, sizeof(U));
    for (int i = 0; i < 2; ++i) if (g_ref[i]) xs_frame_allow(g_ref[i], 0);
    U* r;
    { xs_lib l; r = &(*t = std::move(*s)); }
    xs_frame_end();
    g_on_dispose = nullptr;
    xs_check(r == t, "C13: assignment returns the target");
    xs_check(getp(t) == q, self ? "C12: a pointer moved to itself keeps what it owns" : "C12|C13: a move carries the pointer");
    if (!self) {
        xs_check(getp(s) == nullptr, "C12|C13: a moved-from pointer is null");
        xs_check(K::is(*t, 1), "C13: a move carries the deleter");
        xs_check(K::gave(*s), "C13: the deleter is moved, not copied");
        xs_check(g_nd == !null(p) && (null(p) || times(p, g_id[0]) == 1), "C12|C13: the old pointer is deleted once, by its own deleter");
    }
    else xs_check(g_nd == 0, "C12: a pointer moved to itself deletes nothing");
    { xs_lib l; t->~U(); if (!self) s->~U(); }
    // (a class deleter assigned to itself is the deleter's business)
    xs_check(null(q) || (self ? times(q) == 1 : times(q, g_id[1]) == 1), "C12|C13: the pointer moved is deleted once, by the deleter it came with");
    xs_check(g_nd == (self ? 0 : !null(p)) + !null(q), "C12: nothing else is deleted");
    xs_cover("end");
}
template <typename K> void swap_contract() {
    begin(); K::setup(0); K::setup(1);
    using U = typename K::U; using E = typename K::E;
    E* p = owned<E>("first pointer"); E* q = owned<E>("second pointer"); distinct(p, q);
    U* a = room<U>("first"); U* b = room<U>("second");
    K::make(a, p, 0); K::make(b, q, 1);
    int self = xs_choose(2, "with itself");
    xs_frame_begin(); xs_frame_allow(a, sizeof(U)); if (!self) xs_frame_allow(b, sizeof(U));
    { xs_lib l; if (self) a->swap(*a); else a->swap(*b); }
    xs_frame_end();
    xs_check(getp(a) == (self ? p : q) && getp(b) == (self ? q : p), "C13|C12: swap exchanges the pointers");
    if (!self) xs_check(K::is(*a, 1) && K::is(*b, 0), "C13: swap exchanges the deleters");
    xs_check(g_nd == 0, "C12: swap deletes nothing");
    { xs_lib l; a->~U(); b->~U(); }
    if (!self) {
        xs_check(null(p) || times(p, g_id[0]) == 1, "C12|C13: a pointer is deleted once, by its own deleter");
        xs_check(null(q) || times(q, g_id[1]) == 1, "C12|C13: a pointer is deleted once, by its own deleter");
    }
    xs_check(g_nd == !null(p) + !null(q), "C12: nothing else is deleted");
    xs_cover("end");
}
#define UNIQUE(n, K, text) \
    CONTRACT(u_life_##n, "C12 C13 C11", "construction, get, release and destruction, " text) { life_contract<K>(); } \
    CONTRACT(u_access_##n, "C12 C13", "dereferencing, " text) { access_contract<K>(); } \
    CONTRACT(u_reset_##n, "C12 C13 C11", "reset, " text) { reset_contract<K>(); } \
    CONTRACT(u_mctor_##n, "C12 C13 C11", "move construction, " text) { mctor_contract<K>(); } \
    CONTRACT(u_massign_##n, "C12 C13 C11", "move assignment, " text) { massign_contract<K>(); } \
    CONTRACT(u_swap_##n, "C12 C13 C11", "swap, " text) { swap_contract<K>(); }
UNIQUE(class, KClass<Obj>, "class deleter")
UNIQUE(array, KClass<Obj[]>, "array, class deleter")
UNIQUE(triv, KTriv<Obj>, "trivially copyable class deleter")
UNIQUE(triv_array, KTriv<Obj[]>, "array, trivially copyable class deleter")
UNIQUE(ref, KRef<Obj>, "deleter by reference")
using KRefAmp = KRef<Obj, DelAmp<Obj>>;
UNIQUE(ref_amp, KRefAmp, "deleter by reference, of a class with an operator& of its own")
UNIQUE(fn, KFn<Obj>, "function deleter")

// ---------------------------------------------------------------- conversions
// Del<B2> is made from Del<D2>, and B2* from D2*
struct DelB {   // deletes through the base class
    uint64_t id;
    DelB() noexcept : id(0) {}
    explicit DelB(uint64_t i) noexcept : id(i) {}
    DelB(const DelB&) = default;
    DelB(DelB&& o) noexcept : id(o.id) { o.id = 0; }
    DelB& operator=(DelB&& o) noexcept { uint64_t i = o.id; o.id = 0; id = i; return *this; }
    template <typename V> DelB(Del<V>&& o) noexcept : id(o.id) { o.id = 0; }
    template <typename V> DelB(const Del<V>& o) noexcept : id(o.id) {}
    template <typename V> DelB& operator=(const Del<V>& o) noexcept { id = o.id; return *this; }
    template <typename V> DelB& operator=(Del<V>&& o) noexcept { id = o.id; o.id = 0; return *this; }
    void operator()(B2* p) const noexcept { xs_ghost g; dispose(id, p); }
};
CONTRACT(u_convert, "C12 C13 C11", "converting moves, class deleters") {
    begin();
    using UT = xmem::unique_ptr<B2, DelB>; using US = xmem::unique_ptr<D2, Del<D2>>;
    KClass<D2>::setup(0); KClass<D2>::setup(1);
    D2* q = owned<D2>("source pointer"); B2* p = owned<B2>("target pointer");
    B2* e = q;
    distinct(p, e);
    US* s = room<US>("source"); UT* t = room<UT>("target");
    { xs_lib l; new (s) US(q, Del<D2>(g_id[1])); }
    int assign = xs_choose(2, "assignment");
    if (assign) { xs_lib l; new (t) UT(p, DelB(g_id[0])); }
    xs_frame_begin(); xs_frame_allow(s, sizeof(US)); xs_frame_allow(t, sizeof(UT));
    { xs_lib l; if (assign) *t = std::move(*s); else new (t) UT(std::move(*s)); }
    xs_frame_end();
    if (!assign) p = nullptr;
    xs_check(getp(t) == e, "C13|C12: a converting move carries the pointer");
    xs_check(getp(s) == nullptr, "C12|C13: a moved-from pointer is null");
    { uint64_t i; { xs_lib l; i = t->get_deleter().id; } xs_check(i == g_id[1], "C13: a converting move carries the deleter"); { xs_lib l; i = s->get_deleter().id; } xs_check(i == 0, "C13: the deleter is moved, not copied"); }
    xs_check(g_nd == !null(p) && (null(p) || times(p, g_id[0]) == 1), "C12|C13: the old pointer is deleted once, by its own deleter");
    { xs_lib l; s->~US(); t->~UT(); }
    xs_check(null(e) || times(e, g_id[1]) == 1, "C12|C13: the pointer moved is deleted once, by the deleter it came with");
    xs_check(g_nd == !null(p) + !null(e), "C12: nothing else is deleted");
    xs_cover("end");
}
// base of a deleter referred to
struct DelBase { uint64_t id; void operator()(B2* p) const noexcept { xs_ghost g; dispose(id, p); } };
struct DelDerived : DelBase {};
CONTRACT(u_convert_ref, "C12 C13 C11", "converting moves, deleters by reference") {
    begin();
    using UT = xmem::unique_ptr<B2, DelBase&>; using US = xmem::unique_ptr<D2, DelDerived&>;
    KClass<D2>::setup(0); KClass<D2>::setup(1);
    DelDerived* d0 = new (xs_region(8, 8, "deleter")) DelDerived(); DelDerived* d1 = new (xs_region(8, 8, "deleter")) DelDerived();
    d0->id = g_id[0]; d1->id = g_id[1];
    D2* q = owned<D2>("source pointer"); B2* p = owned<B2>("target pointer");
    B2* e = q;
    distinct(p, e);
    US* s = room<US>("source"); UT* t = room<UT>("target");
    { xs_lib l; new (s) US(q, *d1); }
    int assign = xs_choose(2, "assignment");
    if (assign) { xs_lib l; new (t) UT(p, *d0); }
    xs_frame_begin(); xs_frame_allow(s, sizeof(US)); xs_frame_allow(t, sizeof(UT));
    { xs_lib l; if (assign) *t = std::move(*s); else new (t) UT(std::move(*s)); }
    xs_frame_end();
    if (!assign) p = nullptr;
    xs_check(getp(t) == e, "C13|C12: a converting move carries the pointer");
    xs_check(getp(s) == nullptr, "C12|C13: a moved-from pointer is null");
    { DelBase* d; { xs_lib l; d = &t->get_deleter(); } xs_check(d == d1, "C13: a converting move carries the deleter"); }
    xs_check(g_nd == !null(p) && (null(p) || times(p, g_id[0]) == 1), "C12|C13: the old pointer is deleted once, by its own deleter");
    { xs_lib l; s->~US(); t->~UT(); }
    xs_check(null(e) || times(e, g_id[1]) == 1, "C12|C13: the pointer moved is deleted once, by the deleter it came with");
    xs_check(g_nd == !null(p) + !null(e), "C12: nothing else is deleted");
    xs_cover("end");
}

// a deleter that converts to the function that deletes through the base class
static void fdb(B2* p) { xs_ghost g; dispose(201, p); }
static void fdb2(B2* p) { xs_ghost g; dispose(202, p); }
struct DelFn {
    uint64_t id;
    void operator()(D2* p) const noexcept { xs_ghost g; dispose(id, (B2*)p); }
    using F = void (*)(B2*);
    operator F() const noexcept { return fdb2; }
};
CONTRACT(u_convert_fn, "C12 C13 C11", "converting move assignment to a function deleter") {
    begin();
    using UT = xmem::unique_ptr<B2, void(*)(B2*)>; using US = xmem::unique_ptr<D2, DelFn>;
    D2* q = owned<D2>("source pointer"); B2* p = owned<B2>("target pointer");
    B2* e = q;
    distinct(p, e);
    US* s = room<US>("source"); UT* t = room<UT>("target");
    DelFn df; df.id = 77;
    { xs_lib l; new (s) US(q, df); new (t) UT(p, fdb); }
    watch(t, false);
    xs_frame_begin(); xs_frame_allow(s, sizeof(US)); xs_frame_allow(t, sizeof(UT));
    UT* r;
    { xs_lib l; r = &(*t = std::move(*s)); }
    xs_frame_end();
    g_on_dispose = nullptr;
    xs_check(r == t, "C13: assignment returns the target");
    xs_check(getp(t) == e, "C13|C12: a converting move carries the pointer");
    xs_check(getp(s) == nullptr, "C12|C13: a moved-from pointer is null");
    xs_check(t->get_deleter() == fdb2, "C13: a converting move carries the deleter");
    xs_check(g_nd == !null(p) && (null(p) || times(p, 201) == 1), "C12|C13: the old pointer is deleted once, by its own deleter");
    { xs_lib l; s->~US(); t->~UT(); }
    xs_check(null(e) || times(e, 202) == 1, "C12|C13: the pointer moved is deleted once, by the deleter it came with");
    xs_check(g_nd == !null(p) + !null(e), "C12: nothing else is deleted");
    xs_cover("end");
}
// ---------------------------------------------------------------- what the declarations promise
template <typename U> constexpr bool is_array_ptr = false;
template <typename T, typename D> constexpr bool is_array_ptr<xmem::unique_ptr<T[], D>> = true;
template <typename U> void declares() {
    using P = typename U::pointer;
    xs_check(std::is_nothrow_move_constructible_v<U> && std::is_nothrow_move_assignable_v<U>, "C11: moves are noexcept");
    xs_check(std::is_nothrow_assignable_v<U&, std::nullptr_t>, "C11: assigning null is noexcept");
    xs_check(noexcept(std::declval<U&>().reset()) && noexcept(std::declval<U&>().reset(P())), "C11: reset is noexcept");
    xs_check(noexcept((void)std::declval<U&>().release()), "C11: release is noexcept");
    xs_check(noexcept((void)std::declval<const U&>().get()), "C11: get is noexcept");
    xs_check(std::is_nothrow_constructible_v<bool, const U&>, "C11: the test for null is noexcept");
    if constexpr (is_array_ptr<U>) xs_check(noexcept((void)std::declval<const U&>()[0]), "C11: observers are noexcept");
    else xs_check(noexcept((void)*std::declval<const U&>()) && noexcept((void)std::declval<const U&>().operator->()), "C11: observers are noexcept");
    xs_check(noexcept((void)std::declval<U&>().get_deleter()) && noexcept((void)std::declval<const U&>().get_deleter()), "C11: get_deleter is noexcept");
    xs_check(!std::is_copy_constructible_v<U> && !std::is_copy_assignable_v<U> && !std::is_constructible_v<U, U&> && !std::is_assignable_v<U&, U&>, "C12: a unique pointer is never copied");
    xs_check(!std::is_convertible_v<P, U> && !std::is_assignable_v<U&, P>, "C12: a raw pointer is only taken over explicitly");
    xs_check(!std::is_convertible_v<U, P> && !std::is_convertible_v<U, bool>, "C12: a unique pointer does not decay to its pointer");
}
template <typename U> void declares_class() {
    using P = typename U::pointer; using D = typename U::deleter_type;
    declares<U>();
    xs_check(std::is_nothrow_default_constructible_v<U> && std::is_nothrow_constructible_v<U, std::nullptr_t>, "C11: making an empty unique pointer is noexcept");
    xs_check(std::is_convertible_v<std::nullptr_t, U>, "C12: an empty unique pointer is made from nullptr");
    xs_check(std::is_nothrow_constructible_v<U, P>, "C11: taking a pointer over is noexcept");
    xs_check(std::is_nothrow_constructible_v<U, P, D>, "C11: taking a pointer over with a deleter is noexcept");
}
CONTRACT(u_interface, "C11 C12 C13", "what unique pointers declare: noexcept, no copies, explicit ownership") {
    declares_class<xmem::unique_ptr<Obj>>(); declares_class<xmem::unique_ptr<Obj[]>>(); declares_class<xmem::unique_ptr<const Obj>>();
    declares_class<xmem::unique_ptr<Obj, Del<Obj>>>(); declares_class<xmem::unique_ptr<Obj[], Del<Obj>>>(); declares_class<xmem::unique_ptr<Obj, DelT<Obj>>>();
    using UR = xmem::unique_ptr<Obj, Del<Obj>&>; using UF = xmem::unique_ptr<Obj, void(*)(Obj*)>;
    declares<UR>(); declares<UF>();
    xs_check(std::is_nothrow_constructible_v<UR, Obj*, Del<Obj>&> && std::is_nothrow_constructible_v<UF, Obj*, void(*)(Obj*)>, "C11: taking a pointer over with a deleter is noexcept");
    xs_check(std::is_nothrow_constructible_v<UR, Del<Obj>&> && std::is_nothrow_constructible_v<UF, void(*)(Obj*)>, "C11: making an empty unique pointer is noexcept");
    xs_check(!std::is_default_constructible_v<UF> && !std::is_constructible_v<UF, std::nullptr_t> && !std::is_constructible_v<UF, Obj*, std::nullptr_t>, "C13: a unique pointer with a function deleter always has a function");
    xs_check(!std::is_default_constructible_v<UR> && !std::is_constructible_v<UR, Obj*, Del<Obj>>, "C13: a unique pointer with a deleter by reference always refers to one that lives on");
    xs_check(!std::is_convertible_v<Del<Obj>&, UR> && !std::is_convertible_v<void(*)(Obj*), UF>, "C12: a deleter does not turn into a unique pointer");
    // converting moves
    xs_check(std::is_nothrow_constructible_v<xmem::unique_ptr<const Obj>, xmem::unique_ptr<Obj>> && std::is_nothrow_assignable_v<xmem::unique_ptr<const Obj>&, xmem::unique_ptr<Obj>>, "C11: converting moves are noexcept");
    xs_check(std::is_nothrow_constructible_v<xmem::unique_ptr<B2, DelB>, xmem::unique_ptr<D2, Del<D2>>> && std::is_nothrow_assignable_v<xmem::unique_ptr<B2, DelB>&, xmem::unique_ptr<D2, Del<D2>>>, "C11: converting moves are noexcept");
    xs_check(std::is_nothrow_constructible_v<xmem::unique_ptr<B2, DelBase&>, xmem::unique_ptr<D2, DelDerived&>> && std::is_nothrow_assignable_v<xmem::unique_ptr<B2, DelBase&>&, xmem::unique_ptr<D2, DelDerived&>>, "C11: converting moves are noexcept");
    xs_check(std::is_nothrow_assignable_v<xmem::unique_ptr<B2, void(*)(B2*)>&, xmem::unique_ptr<D2, DelFn>>, "C11: converting moves are noexcept");
    xs_check(!std::is_constructible_v<xmem::unique_ptr<const Obj>, xmem::unique_ptr<Obj>&> && !std::is_assignable_v<xmem::unique_ptr<const Obj>&, xmem::unique_ptr<Obj>&>, "C12: a unique pointer is never copied");
    xs_cover("end");
}
// ---------------------------------------------------------------- empty and null construction, default deletion
CONTRACT(u_empty, "C12 C13", "empty unique pointers") {
    begin();
    using UC = xmem::unique_ptr<Obj, Del<Obj>>; using UA = xmem::unique_ptr<Obj[], Del<Obj>>; using UD = xmem::unique_ptr<Obj>;
    using UR = xmem::unique_ptr<Obj, Del<Obj>&>; using UF = xmem::unique_ptr<Obj, void(*)(Obj*)>;
    UC* c = room<UC>("a"); UC* c2 = room<UC>("b"); UA* a = room<UA>("c"); UA* a2 = room<UA>("d"); UD* d = room<UD>("e"); UD* d2 = room<UD>("f");
    UR* r = room<UR>("g"); UF* f = room<UF>("h");
    Del<Obj>* del = new (xs_region(8, 8, "deleter")) Del<Obj>(5);
    { xs_lib l; new (c) UC(); new (c2) UC(nullptr); new (a) UA(); new (a2) UA(nullptr); new (d) UD(); new (d2) UD(nullptr); new (r) UR(*del); new (f) UF(fd1<Obj>); }
    xs_check(!getp(c) && !getp(c2) && !getp(a) && !getp(a2) && !getp(d) && !getp(d2) && !getp(r) && !getp(f), "C13: an empty unique pointer is null");
    xs_check(&r->get_deleter() == del && f->get_deleter() == fd1<Obj>, "C13: get_deleter gives the deleter given");
    { xs_lib l; c->~UC(); c2->~UC(); a->~UA(); a2->~UA(); d->~UD(); d2->~UD(); r->~UR(); f->~UF(); }
    xs_check(g_nd == 0 && g_allocs == 0, "C12: null is never passed to a deleter");
    xs_cover("end");
}
CONTRACT(u_default, "C12 C13 C15", "default deletion: destruction, reset, moves") {
    begin();
    using T = Rec<8>; using U = xmem::unique_ptr<T>;
    T* p = xs_choose(2, "target owns") ? new T() : nullptr;
    T* q = xs_choose(2, "second pointer") ? new T() : nullptr;
    U* t = room<U>("target"); U* s = room<U>("source");
    { xs_lib l; new (t) U(p); }
    int how = xs_choose(6, "destroy, reset, assign, move, swap, release");
    if (how >= 2) { xs_lib l; new (s) U(q); }
    int np = p != nullptr, nq = q != nullptr;
    switch (how) {
    case 0: { { xs_lib l; t->~U(); } xs_check(g_nobjs == nq, "C12: the object is destroyed once"); if (q) delete q; break; }
    case 1: { { xs_lib l; t->reset(q); } xs_check(getp(t) == q && g_nobjs == nq, "C12|C13: reset replaces the object"); { xs_lib l; t->~U(); } break; }
    case 2: { { xs_lib l; *t = std::move(*s); } xs_check(getp(t) == q && getp(s) == nullptr && g_nobjs == nq, "C12|C13: a move replaces the object"); { xs_lib l; s->~U(); t->~U(); } break; }
    case 3: { U* m = room<U>("moved to"); { xs_lib l; new (m) U(std::move(*t)); } xs_check(getp(m) == p && getp(t) == nullptr && g_nobjs == np + nq, "C12|C13: a move carries the object"); { xs_lib l; t->~U(); s->~U(); m->~U(); } break; }
    case 4: { { xs_lib l; t->swap(*s); } xs_check(getp(t) == q && getp(s) == p && g_nobjs == np + nq, "C12|C13: swap exchanges the objects"); { xs_lib l; s->~U(); t->~U(); } break; }
    default: { T* r; { xs_lib l; r = t->release(); } { xs_lib l; t->~U(); s->~U(); } xs_check(r == p && g_nobjs == np, "C12: a released object is not destroyed"); if (r) delete r; break; }
    }
    xs_check(g_nobjs == 0 && g_gone == np + nq && g_allocs == 0, "C12|C15: every object is destroyed once and its memory returned");
    xs_cover("end");
}
CONTRACT(u_default_conv, "C12 C13", "default_delete conversions to a base class") {
    begin();
    using US = xmem::unique_ptr<D2>; using UT = xmem::unique_ptr<const D2>;
    D2* q = xs_choose(2, "owns") ? new D2() : nullptr;
    US* s = room<US>("source"); UT* t = room<UT>("target");
    { xs_lib l; new (s) US(q); }
    int assign = xs_choose(2, "assignment");
    { xs_lib l; if (assign) { new (t) UT(); *t = std::move(*s); } else new (t) UT(std::move(*s)); }
    xs_check(getp(t) == q && getp(s) == nullptr, "C12|C13: a converting move carries the pointer");
    { xs_lib l; s->~US(); t->~UT(); }
    xs_check(g_allocs == 0, "C12|C15: the object is deleted once");
    xs_cover("end");
}
// a class with memory of its own, deleted through a base class at an offset
static int g_cls_new, g_cls_del;
struct VB1 { long x = 1; virtual ~VB1() {} };
struct VB2 { uint64_t v; VB2() : v(5) { xs_ghost g; obj_born(this); } virtual ~VB2() { xs_ghost g; xs_check(v == 5, "C12: the object is intact until it is destroyed"); obj_dies(this); } };
struct VD final : VB1, VB2 {
    long z = 3;
    static void* operator new(std::size_t n) { void* p = ::operator new(n); xs_ghost g; g_cls_new++; return p; }
    static void operator delete(void* p) { { xs_ghost g; g_cls_del++; } ::operator delete(p); }
};
CONTRACT(u_default_poly, "C12 C13 C14 C15", "default deletion through a base class with a virtual destructor, of a class with memory functions of its own") {
    begin(); g_cls_new = g_cls_del = 0;
    using UD = xmem::unique_ptr<VD>; using UB = xmem::unique_ptr<VB2>;
    UD* d = room<UD>("derived"); UB* b = room<UB>("base");
    int how = xs_choose(5, "raw, reset, converted, assigned, made");
    VD* p = nullptr;
    if (how < 4) p = new VD();
    {
        xs_lib l;
        switch (how) {
        case 0: new (b) UB(p); break;
        case 1: new (b) UB(); b->reset(p); break;
        case 2: new (d) UD(p); new (b) UB(std::move(*d)); break;
        case 3: new (d) UD(p); new (b) UB(); *b = std::move(*d); break;
        default: new (d) UD(xmem::make_unique<VD>()); break;
        }
    }
    if (how == 4) {
        xs_check(g_cls_new == 1 && g_nobjs == 1, "C14|C15: the object is made by its new expression");
        { xs_lib l; new (b) UB(std::move(*d)); }
    }
    else xs_check(getp(b) == (VB2*)p, "C12|C13: the pointer is converted to the base class");
    xs_check(g_nobjs == 1 && g_cls_del == 0, "C12: the object is not destroyed while it is owned");
    { xs_lib l; if (how >= 2) d->~UD(); b->~UB(); }
    xs_check(g_nobjs == 0 && g_gone == 1, "C12: the object is destroyed once");
    xs_check(g_cls_new == 1 && g_cls_del == 1 && g_allocs == 0, "C12|C15: the object is deleted by its own class");
    xs_cover("end");
}
CONTRACT(u_default_array, "C12 C13 C15", "default deletion of arrays") {
    begin();
    using U = xmem::unique_ptr<Pod[]>;
    Pod* p = xs_choose(2, "target owns") ? new Pod[2] : nullptr;
    Pod* q = xs_choose(2, "second pointer") ? new Pod[3] : nullptr;
    U* t = room<U>("target"); U* s = room<U>("source");
    { xs_lib l; new (t) U(p); new (s) U(q); }
    int how = xs_choose(3, "destroy, assign, reset");
    int all = g_allocs;
    if (how == 1) { { xs_lib l; *t = std::move(*s); } xs_check(getp(t) == q && getp(s) == nullptr && g_allocs == all - (p != nullptr), "C12|C13: a move replaces the array"); }
    if (how == 2) { { xs_lib l; t->reset(s->release()); } xs_check(getp(t) == q && getp(s) == nullptr && g_allocs == all - (p != nullptr), "C12|C13: reset replaces the array"); }
    { xs_lib l; s->~U(); t->~U(); }
    xs_check(g_allocs == 0, "C12|C15: every array is deleted once, as an array");
    xs_cover("end");
}
// a list whose head is replaced by the next node, which the old head owns; every kind of deleter
template <int K> struct Node;
template <int K> struct NDel {
    uint64_t id;
    NDel() noexcept : id(0) {}
    explicit NDel(uint64_t i) noexcept : id(i) {}
    NDel(NDel&& o) noexcept : id(o.id) { o.id = 0; }
    NDel& operator=(NDel&& o) noexcept { uint64_t i = o.id; o.id = 0; id = i; return *this; }
    void operator()(Node<K>* p) const noexcept;
};
template <int K> void ndel(Node<K>* p);
template <int K> struct nptr { using type = xmem::unique_ptr<Node<K>, NDel<K>>; };
template <> struct nptr<0> { using type = xmem::unique_ptr<Node<0>>; };
template <> struct nptr<2> { using type = xmem::unique_ptr<Node<2>, NDel<2>&>; };
template <> struct nptr<3> { using type = xmem::unique_ptr<Node<3>, void(*)(Node<3>*)>; };
static NDel<2> g_ndel[2];
template <int K> struct Node {
    typename nptr<K>::type next; uint64_t v;
    Node() : next(none()), v(1) { xs_ghost g; obj_born(this); }
    ~Node() { xs_ghost g; obj_dies(this); }
    static typename nptr<K>::type none() { return of(nullptr, 0); }
    static typename nptr<K>::type of(Node* p, int i) {
        using U = typename nptr<K>::type;
        if constexpr (K == 0) return U(p);
        else if constexpr (K == 1) return U(p, NDel<K>(1 + i));
        else if constexpr (K == 2) { g_ndel[0].id = 1; g_ndel[1].id = 2; return U(p, g_ndel[i]); }
        else return U(p, ndel<K>);
    }
};
template <int K> void NDel<K>::operator()(Node<K>* p) const noexcept { { xs_ghost g; dispose(id, p); } delete p; }
template <int K> void ndel(Node<K>* p) { { xs_ghost g; dispose(1, p); } delete p; }
template <int K> void list_contract() {
    begin();
    using U = typename nptr<K>::type; using N = Node<K>;
    U* head = room<U>("head");
    int two = xs_choose(2, "two nodes");
    N* a; N* b = nullptr;
    { xs_lib l; a = new N(); if (two) b = new N(); new (head) U(N::of(a, 0)); a->next = N::of(b, 1); }
    // with a deleter to move as well, the source of an assignment must outlive the target's old pointer (as for std::unique_ptr)
    int how = K ? 1 : xs_choose(2, "the next node is released first");
    { xs_lib l; if (how) { U n(std::move((*head)->next)); *head = std::move(n); } else *head = std::move((*head)->next); }
    xs_check(getp(head) == b && g_nobjs == (b != nullptr) && g_gone == 1, "C12|C13: the next node replaces the head, which is destroyed once");
    if (K) xs_check(times(a, 1) == 1 && g_nd == 1, "C12|C13: the old head is deleted by its own deleter");
    { xs_lib l; head->~U(); }
    xs_check(g_nobjs == 0 && g_allocs == 0 && g_gone == 1 + (b != nullptr), "C12: every node is destroyed once");
    if (K && two) xs_check(times(b, K == 3 ? 1 : 2) == 1 && g_nd == 2, "C12|C13: the next node is deleted by its own deleter");
    xs_cover("end");
}
CONTRACT(u_list, "C12 C13", "head = std::move(head->next), default deletion") { list_contract<0>(); }
CONTRACT(u_list_class, "C12 C13", "n = std::move(head->next), head = std::move(n), class deleter") { list_contract<1>(); }
CONTRACT(u_list_ref, "C12 C13", "n = std::move(head->next), head = std::move(n), deleter by reference") { list_contract<2>(); }
CONTRACT(u_list_fn, "C12 C13", "n = std::move(head->next), head = std::move(n), function deleter") { list_contract<3>(); }

// ---------------------------------------------------------------- comparisons and printing
template <typename UA, typename UB, typename A, typename B> void compare_contract() {
    begin();
    A* p = owned<A>("left"); B* q = owned<B>("right");
    UA* a = room<UA>("left"); UB* b = room<UB>("right");
    { xs_lib l; new (a) UA(p, Del<A>(1)); new (b) UB(q, Del<B>(2)); }
    bool eq, ne, lt, le, gt, ge;
    xs_frame_begin();
    { xs_lib l; eq = *a == *b; ne = *a != *b; lt = *a < *b; le = *a <= *b; gt = *a > *b; ge = *a >= *b; }
    xs_frame_end();
    using C = std::common_type_t<A*, B*>;
    uint64_t x = (uint64_t)(C)p, y = (uint64_t)(C)q;
    xs_check(eq == (x == y), "C19: == compares the stored pointers");
    xs_check(ne == (x != y), "C19: != compares the stored pointers");
    xs_check(lt == (x < y), "C19: < compares the stored pointers");
    xs_check(le == (x <= y), "C19: <= compares the stored pointers");
    xs_check(gt == (x > y), "C19: > compares the stored pointers");
    xs_check(ge == (x >= y), "C19: >= compares the stored pointers");
    xs_check(g_nd == 0 && getp(a) == p && getp(b) == q, "C12|C19: comparing changes nothing");
    xs_cover("end");
}
CONTRACT(u_compare, "C19", "relational operators of unique pointers") { compare_contract<xmem::unique_ptr<Obj, Del<Obj>>, xmem::unique_ptr<Obj, Del<Obj>>, Obj, Obj>(); }
CONTRACT(u_compare_conv, "C19", "relational operators of unique pointers to a base and a derived class") { compare_contract<xmem::unique_ptr<B2, Del<B2>>, xmem::unique_ptr<D2, Del<D2>>, B2, D2>(); }
CONTRACT(u_compare_array, "C19", "relational operators of unique pointers to arrays") { compare_contract<xmem::unique_ptr<Obj[], Del<Obj>>, xmem::unique_ptr<Obj[], Del<Obj>>, Obj, Obj>(); }

CONTRACT(u_print, "C19", "stream output prints the stored pointer") {
    begin();
    using U = xmem::unique_ptr<Obj, Del<Obj>>;
    Obj* p = owned<Obj>("pointer");
    U* u = room<U>("unique pointer");
    { xs_lib l; new (u) U(p, Del<Obj>(1)); }
    (void)null(p);   // one case for null, one for other pointers
    std::ostream* os = print_stream();
    std::ostream* r;
    xs_frame_begin();
    { xs_lib l; r = &(*os << *u); }
    xs_frame_end();
    xs_check(r == os, "C19: stream output gives the stream back");
    xs_check(printed(*os, p), "C19: exactly the stored pointer is printed");
    xs_cover("end");
}
