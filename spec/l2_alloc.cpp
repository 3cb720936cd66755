// control blocks made with a user supplied allocator (C15, C11 C14 C02 C03 C12)
#include "ledger.hpp"
#include "xmem_begin.hpp"
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/unique_ptr.hpp>
#include "xmem_end.hpp"

// ---------------------------------------------------------------- a stateful allocator
static const int MAXI = 16;
static const void* g_inst[MAXI]; static int g_ninst;       // allocator objects alive
static int inst_find(const void* p) { for (int i = 0; i < g_ninst; ++i) if (g_inst[i] == p) return i; return -1; }
static void inst_born(const void* p) { if (g_ninst >= MAXI) { xs_check(false, "C15: allocator copies are destroyed"); xs_stop(); } g_inst[g_ninst++] = p; }
static void inst_dies(const void* p) {
    int i = inst_find(p);
    xs_require(i >= 0, "C15|C11: an allocator copy is destroyed once");
    g_ninst--; g_inst[i] = g_inst[g_ninst];
}
struct grant { char* p; uint64_t n, id, type_size, type_align; int live; };
static grant g_grant[4]; static int g_ngrants;

template <typename T> struct talloc {
    using value_type = T;
    uint64_t id;
    talloc() noexcept : id(0) { xs_ghost g; inst_born(this); }       // a different allocator
    explicit talloc(uint64_t i) noexcept : id(i) { xs_ghost g; inst_born(this); }
    talloc(const talloc& o) noexcept : id(o.id) { xs_ghost g; inst_born(this); }
    talloc(talloc&& o) noexcept : id(o.id) { xs_ghost g; inst_born(this); }
    template <typename U> talloc(const talloc<U>& o) noexcept : id(o.id) { xs_ghost g; inst_born(this); }
    talloc& operator=(const talloc& o) noexcept { id = o.id; return *this; }
    ~talloc() { xs_ghost g; inst_dies(this); id = 0; }
    T* allocate(size_t n) {
        {
            xs_ghost g;
            xs_check(inst_find(this) >= 0, "C15: a living allocator is asked for memory");
            if (g_can_fail && xs_choose(2, "allocation fails")) { g_failed = 1; }
            else {
                xs_check(n == 1, "C15: one element is allocated");
                if (g_ngrants >= 4) { xs_check(false, "C15: one allocation per control block"); xs_stop(); }
                grant& a = g_grant[g_ngrants++];
                a.p = (char*)xs_region(n * sizeof(T), alignof(T), "allocated block"); a.n = n; a.id = id; a.live = 1;
                a.type_size = sizeof(T); a.type_align = alignof(T);
                g_allocs++;
                return (T*)a.p;
            }
        }
        throw std::bad_alloc();
    }
    void deallocate(T* p, size_t n) {
        xs_ghost g;
        xs_check(inst_find(this) >= 0, "C15: a living allocator takes the memory back");
        for (int i = 0; i < g_ngrants; ++i) {
            grant& a = g_grant[i];
            if (a.p != (char*)p) continue;
            xs_require(a.live == 1, "C15: memory is returned once");
            xs_check(a.n == n, "C15: memory is returned with the count it was allocated with");
            xs_check(a.id == id, "C15: memory is returned to an allocator equal to the one it came from");
            xs_check(a.type_size == sizeof(T) && a.type_align == alignof(T), "C15: memory is returned by an allocator of the same type");
            for (int k = 0; k < g_ninst; ++k) xs_check(!xs_same_object(g_inst[k], p), "C15: the block's own allocator is destroyed before its memory is returned");
            for (int k = 0; k < g_nobjs; ++k) xs_check(!xs_same_object(g_objs[k], p), "C15|C02: the object is destroyed before its memory is returned");
            a.live = 0;
            g_allocs--;
            xs_kill(p);
            return;
        }
        xs_require(false, "C15: the address returned is the one that was allocated");
    }
    bool operator==(const talloc& o) const { return id == o.id; }
};

struct Shared { using factory = xmem::atomic_control_block_factory; template <typename T> using ptr = xmem::shared_ptr<T>; };
struct Local { using factory = xmem::local_control_block_factory; template <typename T> using ptr = xmem::local_shared_ptr<T>; };

static void start() { ledger_start(); g_ninst = 0; g_ngrants = 0; }
// nothing of a failed or finished block is left; the caller's own allocator objects are
static void nothing_left(int callers, const char* l) {
    xs_check(g_allocs == 0, l);
    xs_check(g_ninst == callers, "C15|C11: every allocator copy is destroyed");
}

template <typename P, typename F> void use_up(P* p, F gone) {
    using W = typename P::weak_type;
    W* w = (W*)xs_region(sizeof(W), 8, "weak pointer");
    int weak = xs_choose(2, "a weak pointer outlives it");
    if (weak) { xs_lib l; new (w) W(*p); }
    { xs_lib l; p->~P(); }
    gone();
    if (weak) {
        xs_check(g_allocs == 1, "C03|C15: the block stays while a weak pointer refers to it");
        xs_lib l; w->~W();
    }
}

template <typename F, typename T> void resource_contract() {
    start();
    uint64_t id = xs_nondet(32, "allocator"); xs_assume(id != 0);
    Arg* a = (Arg*)xs_region(sizeof(Arg), 8, "first argument");
    Arg* b = (Arg*)xs_region(sizeof(Arg), 8, "second argument");
    int how = xs_choose(3, "arguments, none, for overwrite");
    using P = typename F::template ptr<T>;
    P* p = (P*)xs_region(sizeof(P), 8, "result");
    g_can_fail = 1; g_ctor_can_throw = 1;
    int threw = 0;
    {
        talloc<char> al(id);
        try {
            xs_lib l;
            if (how == 0) new (p) P(F::factory::template make_resource_cb<T>(al, *a, std::move(*b)));
            else if (how == 1) new (p) P(F::factory::template make_resource_cb<T>(al));
            else new (p) P(F::factory::template make_resource_cb_for_overwrite<T>(al));
        } catch (const std::bad_alloc&) { threw = 1; } catch (int) { threw = 2; }
        xs_check(al.id == id, "C15: the caller's allocator is not changed");
    }
    g_can_fail = 0; g_ctor_can_throw = 0;
    xs_check(threw == (g_failed ? 1 : g_ctor_threw ? 2 : 0), "C11: an exception reaches the caller, and only if something threw");
    if (threw) {
        xs_check(g_nobjs == 0, T_ALIVE);
        nothing_left(0, "C11|C15: after an exception the block is returned to its allocator");
        xs_cover("thrown");
        return;
    }
    xs_check(g_ngrants == 1 && g_allocs == 1 && g_n_new == 0, "C15: one block is allocated, from the allocator given");
    xs_check(g_grant[0].id == id, "C15: the block comes from an allocator equal to the one given");
    xs_check(g_made == 1 && g_nobjs == 1, "C14: exactly one object is constructed");
    const void* o = g_objs[0];
    xs_check(xs_same_object(o, g_grant[0].p) && xs_is_object(o, sizeof(T)) && xs_aligned(o, alignof(T)), "C15|C14: the object lies in the block, aligned and with enough room");
    xs_check(g_nargs == (how == 0 ? 2 : 0), "C14: the constructor gets exactly the arguments");
    if (how == 0) xs_check(g_arg_p[0] == a && g_arg_p[1] == b && g_arg_k[0] == LV && g_arg_k[1] == RV, "C14: arguments keep their identity and value category");
    T* g; long c; { xs_lib l; g = p->get(); c = p->use_count(); }
    xs_check(g == o && c == 1, "C14|C01: the result is the only owner of the object");
    use_up(p, [] { xs_check(g_nobjs == 0 && g_gone == 1, "C02: the object is destroyed once, with its last owner"); });
    nothing_left(0, "C15|C03: the block is returned with the last handle");
    xs_cover("end");
}
CONTRACT(a_resource, "C15 C11 C14 C01 C02 C03", "make_resource_cb with an allocator, atomic") { resource_contract<Shared, Rec<8>>(); }
CONTRACT(a_resource_over, "C15 C11 C14 C01 C02 C03", "make_resource_cb of an over-aligned class") { resource_contract<Shared, Rec<64>>(); }
CONTRACT(a_resource_amp, "C15 C11 C14 C01 C02 C03", "make_resource_cb of a class with an operator& of its own") { resource_contract<Shared, Amp>(); }
CONTRACT(a_resource_large, "C15 C11 C14 C01 C02 C03", "make_resource_cb of a large class") { resource_contract<Shared, Large<8192>>(); }
CONTRACT(a_resource_huge, "C15 C11 C14 C01 C02 C03", "make_resource_cb of a huge class") { resource_contract<Shared, Large<(1 << 20)>>(); }
CONTRACT(a_resource_local, "C15 C11 C14 C01 C02 C03", "make_resource_cb with an allocator, local") { resource_contract<Local, Rec<8>>(); }
CONTRACT(a_resource_local_over, "C15 C11 C14 C01 C02 C03", "make_resource_cb of an over-aligned class, local") { resource_contract<Local, Rec<32>>(); }

// ---- a unique pointer handed over to a block with an allocator
static int g_nd; static uint64_t g_d_id; static const void* g_d_p;
template <typename U> struct Del {
    uint64_t id;
    explicit Del(uint64_t i) noexcept : id(i) {}
    Del(Del&& o) noexcept : id(o.id) { o.id = 0; }
    Del(const Del&) = default;
    Del& operator=(const Del&) = default;
    void operator()(U* p) const noexcept { xs_ghost g; g_nd++; g_d_id = id; g_d_p = p; }
};
template <typename F> void unique_contract() {
    start(); g_nd = 0;
    using U = xmem::unique_ptr<Pod, Del<Pod>>; using P = typename F::template ptr<Pod>;
    uint64_t id = xs_nondet(32, "allocator"), did = xs_nondet(32, "deleter"); xs_assume((id != 0) & (did != 0));
    Pod* o = (Pod*)xs_nondet_ptr("pointer");
    int null = xs_decide(o == nullptr) ? 1 : 0;
    U* u = new (xs_region(sizeof(U), 8, "unique pointer")) U(o, Del<Pod>(did));
    P* p = (P*)xs_region(sizeof(P), 8, "result");
    g_can_fail = 1;
    int threw = 0;
    {
        talloc<char> al(id);
        try { xs_lib l; new (p) P(F::factory::make_uptr_cb(*u, al)); } catch (const std::bad_alloc&) { threw = 1; }
        xs_check(al.id == id, "C15: the caller's allocator is not changed");
    }
    g_can_fail = 0;
    xs_check(threw == g_failed, "C11: an exception reaches the caller, and only if something threw");
    if (threw) {
        xs_check(u->get() == o && u->get_deleter().id == did && g_nd == 0, "C11|C12: after an exception the unique pointer still owns");
        nothing_left(0, "C11|C15: after an exception nothing stays allocated");
        { xs_lib l; u->~U(); }
        xs_check(g_nd == !null, "C12|C11: the object is disposed of once");
        xs_cover("thrown");
        return;
    }
    xs_check(g_ngrants == 1 && g_allocs == 1 && g_n_new == 0, "C15: one block is allocated, from the allocator given");
    xs_check(g_grant[0].id == id, "C15: the block comes from an allocator equal to the one given");
    xs_check(u->get() == nullptr, "C12|C13: the unique pointer gives up what it handed over");
    { xs_lib l; u->~U(); }
    xs_check(g_nd == 0, "C12|C02: the object is not disposed of while it is owned");
    Pod* g; long c; { xs_lib l; g = p->get(); c = p->use_count(); }
    xs_check(g == o && c == 1, "C14|C01: the result is the only owner of the object");
    use_up(p, [=] { xs_check(g_nd == !null && (null || (g_d_id == did && g_d_p == o)), "C02|C12|C13: the object is disposed of once, by its own deleter"); });
    nothing_left(0, "C15|C03: the block is returned with the last handle");
    xs_cover("end");
}
CONTRACT(a_unique, "C15 C11 C12 C13 C14 C01 C02 C03", "make_uptr_cb with an allocator, atomic") { unique_contract<Shared>(); }
CONTRACT(a_unique_local, "C15 C11 C12 C13 C14 C01 C02 C03", "make_uptr_cb with an allocator, local") { unique_contract<Local>(); }

// ---- xmem's own allocator: forms, sizes and alignment
template <typename T> void default_alloc() {
    start();
    xmem::allocator<T>* a = new (xs_region(8, 8, "allocator")) xmem::allocator<T>();
    xmem::allocator<char>* c = new (xs_region(8, 8, "allocator")) xmem::allocator<char>();
    xmem::allocator<T>* b = (xmem::allocator<T>*)xs_region(8, 8, "rebound allocator");
    uint64_t n = xs_nondet(20, "count"); xs_assume(n != 0);
    T* p = nullptr;
    g_can_fail = 1;
    int threw = 0;
    try { xs_lib l; new (b) xmem::allocator<T>(*c); p = a->allocate(n); } catch (const std::bad_alloc&) { threw = 1; }
    g_can_fail = 0;
    xs_check(threw == g_failed, "C11: an exception reaches the caller, and only if something threw");
    if (threw) { xs_check(g_allocs == 0, T_LEAK); return; }
    xs_check(g_allocs == 1 && xs_heap_form(p) != 0xFFFF, "C15: memory is allocated");
    xs_check(xs_obj_size(p) >= n * sizeof(T), "C15: the memory is large enough");
    xs_check(xs_aligned(p, alignof(T)), "C15: the memory is aligned");
    { xs_lib l; b->deallocate(p, n); }
    xs_check(g_allocs == 0, "C15: the memory is returned");
    xs_cover("end");
}
CONTRACT(a_default, "C15 C11", "xmem::allocator, ordinary alignment") { default_alloc<Pod>(); }
CONTRACT(a_default_over, "C15 C11", "xmem::allocator, over-aligned type") { default_alloc<Rec<64>>(); }
CONTRACT(a_default_many, "C15 C11", "xmem::allocator, types of many sizes and alignments") {
    switch (xs_choose(8, "type")) {
    case 0: default_alloc<uint16_t>(); break;
    case 1: default_alloc<uint32_t>(); break;
    case 2: default_alloc<Rec<16>>(); break;
    case 3: default_alloc<Rec<32>>(); break;
    case 4: default_alloc<Rec<128>>(); break;
    case 5: default_alloc<Rec<256>>(); break;
    case 6: default_alloc<Rec<4096>>(); break;
    default: default_alloc<Large<5000>>(); break;
    }
}
CONTRACT(a_default_char, "C15 C11", "xmem::allocator, smallest type") { default_alloc<char>(); }
