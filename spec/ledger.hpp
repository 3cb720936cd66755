// Accounting of memory and objects for the contracts of factories and unique pointers:
// the global allocation functions, tracked objects, stateful allocators.
#pragma once
#include "xspec.hpp"

// ---------------------------------------------------------------- global allocation functions
static int g_can_fail;         // allocation may fail
static int g_failed;           // one did
static int g_allocs;           // blocks allocated and not yet freed
static uint64_t g_last_size, g_last_align;
static int g_last_form;
static int g_n_new;
static char** g_keep_block;     // receives the address of the block

extern "C" void* xs_model_new(uint64_t size, uint64_t align, int form) {
    {
        xs_ghost g;
        if (xs_decide(size > (uint64_t(1) << 40))) goto fail;
        if (g_can_fail && xs_choose(2, "allocation fails")) goto fail;
        g_n_new++;
        g_last_size = size; g_last_align = align; g_last_form = form;
        void* p = xs_region(size, align, "allocated block");
        xs_heap_set(p, form);
        g_allocs++;
        if (g_keep_block) *g_keep_block = (char*)p;
        return p;
    }
fail:
    { xs_ghost g; g_failed = 1; }
    throw std::bad_alloc();
}
extern "C" void xs_model_delete(void* p, uint64_t align, int form) {
    xs_ghost g;
    if (p == nullptr) return;
    int f = xs_heap_form(p);
    xs_require(f != 0xFFFF, "C15|C12|C14: only an allocated block is freed, once and by its address");
    xs_check(f == form, "C15|C12: allocation and deallocation forms match");
    if (form & 1) xs_check(xs_obj_align(p) == align, "C15: a block is freed with the alignment it was allocated with");
    g_allocs--;
    xs_kill(p);
}

// ---------------------------------------------------------------- tracked objects
static const int MAXO = 12;
static const void* g_objs[MAXO]; static int g_nobjs;    // alive
static int g_made, g_gone;
static int obj_find(const void* p) { for (int i = 0; i < g_nobjs; ++i) if (g_objs[i] == p) return i; return -1; }
static void obj_born(const void* p) {
    xs_check(obj_find(p) < 0, "C14|C02: an object is constructed once");
    if (g_nobjs >= MAXO) { xs_check(false, "C14: no more objects are constructed than asked for"); xs_stop(); }
    g_objs[g_nobjs++] = p; g_made++;
}
static void obj_dies(const void* p) {
    int i = obj_find(p);
    xs_require(i >= 0, "C02|C11|C12|C14: only a constructed object is destroyed, and only once");
    g_nobjs--; g_objs[i] = g_objs[g_nobjs]; g_gone++;
}

// arguments a constructor received: address and value category
static const int MAXA = 5;
static const void* g_arg_p[MAXA]; static int g_arg_k[MAXA]; static int g_nargs;
enum { LV = 0, CLV = 1, RV = 2, CRV = 3 };
template <typename A> constexpr int category() {
    return (std::is_lvalue_reference_v<A> ? 0 : 2) + (std::is_const_v<std::remove_reference_t<A>> ? 1 : 0);
}
template <typename A> void note_arg(const void* p) { g_arg_p[g_nargs] = p; g_arg_k[g_nargs] = category<A>(); g_nargs = g_nargs + 1; }
struct Arg { uint64_t v; };

static int g_ctor_can_throw, g_ctor_threw;
static void may_throw() {
    {
        xs_ghost g;
        if (!g_ctor_can_throw || !xs_choose(2, "constructor throws")) return;
        g_ctor_threw = 1;
    }
    throw 7;
}
static void (*g_in_dtor)(void*);

// a class whose constructor records its arguments
template <int Al> struct alignas(Al) Rec {
    uint64_t v; uint64_t w;
    template <typename... A> explicit Rec(A&&... a) {
        may_throw();
        xs_ghost g;
        g_nargs = 0;
        (note_arg<A&&>(&a), ...);
        v = 42; w = 43;
        obj_born(this);
    }
    Rec() {
        may_throw();
        xs_ghost g;
        g_nargs = 0;
        v = 42; w = 43;
        obj_born(this);
    }
    Rec(const Rec&) = delete;
    ~Rec() {
        xs_ghost g;
        if (g_in_dtor) g_in_dtor(this);
        xs_check(v == 42 && w == 43, "C02|C12|C14: the object is intact until it is destroyed");
        obj_dies(this);
    }
};
// one whose unary & gives something else
struct Amp : Rec<8> {
    using Rec<8>::Rec;
    Amp* operator&() { return nullptr; }
    const Amp* operator&() const { return nullptr; }
};
// large ones
template <int N> struct Large : Rec<8> { using Rec<8>::Rec; char room[N]; };
// a class that records what it was copied or moved from
static int g_copied, g_moved; static const void* g_from;
struct Cop {
    uint64_t v;
    explicit Cop(uint64_t x) : v(x) { xs_ghost g; obj_born(this); }
    Cop(const Cop& o) : v(o.v) { may_throw(); xs_ghost g; g_copied++; g_from = &o; obj_born(this); }
    Cop(Cop&& o) : v(o.v) { may_throw(); xs_ghost g; g_moved++; g_from = &o; o.v = 0; obj_born(this); }
    ~Cop() { xs_ghost g; obj_dies(this); }
};
struct Pod { uint64_t a, b; };
struct Nothing {};

static void ledger_start() {
    g_can_fail = g_failed = g_allocs = g_n_new = 0; g_keep_block = nullptr;
    g_nobjs = g_made = g_gone = g_nargs = 0; g_ctor_can_throw = g_ctor_threw = 0; g_in_dtor = nullptr;
    g_copied = g_moved = 0; g_from = nullptr;
}
#define T_LEAK "C11|C14|C15: every allocated block is returned"
#define T_ALIVE "C11|C02: no object is left behind or destroyed without having been constructed"
