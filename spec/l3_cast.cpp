// casts, make_aliased (C10) and comparisons, owner order, printing (C19) of shared and weak pointers
#include "scb.hpp"
#include "printing.hpp"
#include "xmem_begin.hpp"
#include <xmem/ostream.hpp>
#include "xmem_end.hpp"

struct Obj { long v; };
struct B1 { long x; };
struct B2 { long y; };
struct D2 : B1, B2 { long z; };
struct P1 { long a; virtual ~P1() = default; };
struct P2 { long b; virtual ~P2() = default; };
struct PD : P1, P2 { long c; };

#define V "C10|C08: pointer and owner of the result; the source is unchanged"

static const void* g_dyn_arg; static void* g_dyn_res; static int g_dyn_n;
extern "C" void* xs_model_dynamic_cast(void* p, void*) {
    xs_ghost g;
    xs_check(p == g_dyn_arg, "C10: the stored pointer is the one that is cast");
    g_dyn_n++;
    return g_dyn_res;
}

template <typename T, typename U, typename W, typename F> void cast_contract(W want, F f, bool copy_null_owner) {
    world();
    scb* cb = owner_choice("owner of source");
    auto s = make_s<U>(cb, any_ptr<U>("pointer of source"), -1, "source");
    auto o = make_s<U>(owner_choice("owner of another pointer"), any_ptr<U>("other pointer"), -1, "other");
    auto m = (SP<T>*)xs_region(sizeof(SP<T>), 8, "result");
    bool intf = xs_choose(2, "interference");
    std::remove_extent_t<T>* e = want(s.ptr);
    ready(intf); frame(m, sizeof(*m));
    { xs_lib l; f(m, std::as_const(*s)); }
    bool got = cb && !(copy_null_owner && xs_decide(e == nullptr));
    expect(s.i, cb, s.ptr); expect(o.i, o.cb, o.ptr);
    expect(track_s<T>(m, -1), got ? cb : nullptr, got ? e : nullptr);
    settled(); values(V);
    xs_check(g_user == 0, "C02|C10: a cast destroys nothing");
    if (!intf) count_is(*m, got ? cb : nullptr, "C10|C01: the result is one more owner");
    xs_cover("end");
}
CONTRACT(k_static_down, "C10 C01 C07 C08", "static_pointer_cast to a derived class") {
    cast_contract<D2, B2>([](B2* p) { return static_cast<D2*>(p); }, [](SP<D2>* m, const SP<B2>& s) { new (m) SP<D2>(xmem::static_pointer_cast<D2>(s)); }, false);
}
CONTRACT(k_static_up, "C10 C01 C07 C08", "static_pointer_cast to a base class") {
    cast_contract<B2, D2>([](D2* p) { return static_cast<B2*>(p); }, [](SP<B2>* m, const SP<D2>& s) { new (m) SP<B2>(xmem::static_pointer_cast<B2>(s)); }, false);
}
CONTRACT(k_const, "C10 C01 C07 C08", "const_pointer_cast") {
    cast_contract<Obj, const Obj>([](const Obj* p) { return const_cast<Obj*>(p); }, [](SP<Obj>* m, const SP<const Obj>& s) { new (m) SP<Obj>(xmem::const_pointer_cast<Obj>(s)); }, false);
}
CONTRACT(k_reinterpret, "C10 C01 C07 C08", "reinterpret_pointer_cast") {
    cast_contract<B1, Obj>([](Obj* p) { return reinterpret_cast<B1*>(p); }, [](SP<B1>* m, const SP<Obj>& s) { new (m) SP<B1>(xmem::reinterpret_pointer_cast<B1>(s)); }, false);
}
CONTRACT(k_dynamic_cross, "C10 C01 C07 C08", "dynamic_pointer_cast, succeeding and failing") {
    cast_contract<P2, P1>([](P1* p) {
        g_dyn_arg = p; g_dyn_n = 0;
        int fails = xs_choose(2, "the cast fails");
        g_dyn_res = fails ? nullptr : xs_nondet_ptr("result of the cast");
        if (!fails && g_dyn_res == nullptr) xs_no_path();
        return xs_decide(p == nullptr) ? (P2*)nullptr : (P2*)g_dyn_res;
    }, [](SP<P2>* m, const SP<P1>& s) { new (m) SP<P2>(xmem::dynamic_pointer_cast<P2>(s)); }, true);
}
CONTRACT(k_dynamic_up, "C10 C01 C07 C08", "dynamic_pointer_cast to a base class") {
    cast_contract<P2, PD>([](PD* p) { return static_cast<P2*>(p); }, [](SP<P2>* m, const SP<PD>& s) { new (m) SP<P2>(xmem::dynamic_pointer_cast<P2>(s)); }, true);
}
CONTRACT(k_make_aliased, "C10 C01 C07 C08", "make_aliased") {
    Obj* a = any_ptr<Obj>("alias");
    cast_contract<Obj, B1>([=](B1*) { return a; }, [=](SP<Obj>* m, const SP<B1>& s) { new (m) SP<Obj>(xmem::make_aliased(s, a)); }, false);
}

// ---------------------------------------------------------------- comparisons
template <typename T, typename U> void compare_contract() {
    world();
    auto a = make_s<T>(owner_choice("left owner"), any_ptr<T>("left"), -1, "left");
    auto b = make_s<U>(owner_choice("right owner"), any_ptr<U>("right"), -1, "right");
    expect(a.i, a.cb, a.ptr); expect(b.i, b.cb, b.ptr);
    ready();
    bool eq, ne, lt, le, gt, ge;
    { xs_lib l; eq = *a == *b; ne = *a != *b; lt = *a < *b; le = *a <= *b; gt = *a > *b; ge = *a >= *b; }
    using C = std::common_type_t<T*, U*>;
    uint64_t x = (uint64_t)(C)a.ptr, y = (uint64_t)(C)b.ptr;
    xs_check(eq == (x == y), "C19: == compares the stored pointers");
    xs_check(ne == (x != y), "C19: != compares the stored pointers");
    xs_check(lt == (x < y), "C19: < compares the stored pointers");
    xs_check(le == (x <= y), "C19: <= compares the stored pointers");
    xs_check(gt == (x > y), "C19: > compares the stored pointers");
    xs_check(ge == (x >= y), "C19: >= compares the stored pointers");
    settled(); values("C08|C19: comparing changes nothing"); xs_cover("end");
}
CONTRACT(k_compare, "C19", "relational operators of shared pointers") { compare_contract<Obj, Obj>(); }
CONTRACT(k_compare_conv, "C19", "relational operators of shared pointers to a base and a derived class") { compare_contract<B2, D2>(); }
CONTRACT(k_compare_conv2, "C19", "relational operators of shared pointers to a derived class and a base") { compare_contract<D2, B1>(); }

// ---------------------------------------------------------------- owner order
template <int K0, int K12> void owner_order() {
    world();
    scb* third = new (xs_region(sizeof(scb), alignof(scb), "control block C")) scb();
    third->fresh = 0; third->s_others = 1;
    scb* c[3]; SP<Obj>* s[3]; WP<Obj>* w[3];
    for (int i = 0; i < 3; ++i) {
        int o = xs_choose(4, "owner");
        c[i] = o == 0 ? nullptr : o == 3 ? third : g_cb[o - 1];
        s[i] = new (xs_region(sizeof(SP<Obj>), 8, "shared")) SP<Obj>(pair_of<Obj>(c[i], any_ptr<Obj>("pointer")));
        w[i] = new (xs_region(sizeof(WP<Obj>), 8, "weak")) WP<Obj>(pair_of<Obj>(c[i], any_ptr<Obj>("pointer")));
    }
    int kind[3];
    kind[0] = K0; kind[1] = kind[2] = K12;
    g_setup = 0;
    xs_frame_begin();
    bool lt[3][3], same[3][3], no[3];
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) {
            bool b, e; int ki = kind[i], kj = kind[j];
            {
                xs_lib l;
                if (ki && kj) { b = w[i]->owner_before(*w[j]); e = same_owner(*w[i], *w[j]); }
                else if (ki) { b = w[i]->owner_before(*s[j]); e = same_owner(*w[i], *s[j]); }
                else if (kj) { b = s[i]->owner_before(*s[j]); e = same_owner(*s[i], *w[j]); }
                else { b = s[i]->owner_before(*s[j]); e = same_owner(*s[i], *s[j]); }
            }
            lt[i][j] = b; same[i][j] = e;
        }
        bool a, b;
        { xs_lib l; a = no_owner(*s[i]); b = no_owner(*w[i]); }
        xs_check(a == (c[i] == nullptr) && b == a, "C19: no_owner holds exactly if there is no control block");
    }
    xs_frame_end();
    for (int i = 0; i < 3; ++i) {
        xs_check(!lt[i][i], "C19: owner_before is irreflexive");
        for (int j = 0; j < 3; ++j) {
            xs_check(same[i][j] == (c[i] == c[j]), "C19: same_owner holds exactly if the control blocks are the same");
            xs_check(!(lt[i][j] & lt[j][i]), "C19: owner_before is asymmetric");
            xs_check((!lt[i][j] & !lt[j][i]) == (c[i] == c[j]), "C19: neither is before the other exactly if they have the same owner");
            for (int k = 0; k < 3; ++k) xs_check(!(lt[i][j] & lt[j][k]) | lt[i][k], "C19: owner_before is transitive");
        }
    }
    xs_cover("end");
}

CONTRACT(k_owner_order, "C19", "owner_before, same_owner, no_owner of shared pointers") { owner_order<0, 0>(); }
CONTRACT(k_owner_order_weak, "C19", "owner_before, same_owner, no_owner of weak pointers") { owner_order<1, 1>(); }
CONTRACT(k_owner_order_mixed, "C19", "owner_before, same_owner, no_owner of a weak and two shared pointers") { owner_order<1, 0>(); }

// ---------------------------------------------------------------- printing
CONTRACT(k_print, "C19", "stream output prints the stored pointer") {
    world();
    auto a = make_s<Obj>(owner_choice("owner"), any_ptr<Obj>("pointer"), -1, "pointer");
    auto v = make_s<const void>(a.cb, any_ptr<const void>("void pointer"), -1, "void pointer");
    expect(a.i, a.cb, a.ptr); expect(v.i, v.cb, v.ptr);
    (void)xs_decide(a.ptr == nullptr);   // one case for null, one for other pointers
    std::ostream* os = print_stream();
    ready();
    std::ostream* r;
    { xs_lib l; r = &(*os << *a); }
    xs_check(r == os, "C19: stream output gives the stream back");
    xs_check(printed(*os, a.ptr), "C19: exactly the stored pointer is printed");
    { xs_lib l; r = &(*os << *v); }
    xs_check(r == os, "C19: stream output gives the stream back");
    xs_check(printed(*os, v.ptr), "C19: exactly the stored pointer is printed");
    settled(); values("C08|C19: printing changes nothing"); xs_cover("end");
}
