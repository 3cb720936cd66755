// Self test of the verifier: contracts named ok_* must be established, contracts named bad_* must
// fail with the obligation named in their text.
#include "xspec.hpp"
struct Rgn { uint64_t a, b; };
static Rgn* rgn() { return (Rgn*)xs_region(sizeof(Rgn), 8, "r"); }

CONTRACT(ok_arith, "S", "") {
    uint64_t x = xs_nondet(32, "x"), y = xs_nondet(32, "y");
    xs_check(x + y >= x, "no overflow");
    xs_check(((x ^ y) ^ y) == x, "xor");
    xs_cover("end");
}
CONTRACT(bad_arith, "S", "wraps") { uint64_t x = xs_nondet(64, "x"); xs_check(x + 1 > x, "wraps"); xs_cover("end"); }
CONTRACT(bad_signed32, "S", "w") { uint32_t x = uint32_t(xs_nondet(32, "x")); xs_check(uint32_t(x + 1) != 0, "w"); xs_cover("end"); }
CONTRACT(ok_branch, "S", "") {
    uint64_t x = xs_nondet(64, "x"); uint64_t y;
    if (x > 5) y = x - 5; else y = 0;
    xs_check(y < x || x == 0, "less"); xs_cover("end");
}
CONTRACT(bad_branch, "S", "one value") { uint64_t x = xs_nondet(64, "x"); if (x == 0x123456789abcull) xs_check(false, "one value"); xs_cover("end"); }
CONTRACT(bad_oob, "S", "safety:memory") { auto r = rgn(); { xs_lib l; (&r->a)[2] = 1; } xs_cover("end"); }
CONTRACT(bad_oob_neg, "S", "safety:memory") { auto r = rgn(); { xs_lib l; (&r->a)[-1] = 1; } xs_cover("end"); }
CONTRACT(bad_null, "S", "safety:memory") { { xs_lib l; *(volatile int*)nullptr = 1; } xs_cover("end"); }
CONTRACT(bad_wild, "S", "safety:memory") { auto p = (int*)xs_nondet_ptr("p"); { xs_lib l; *p = 1; } xs_cover("end"); }
CONTRACT(bad_dead, "S", "safety:memory") { auto r = rgn(); r->a = 1; xs_kill(r); { xs_lib l; r->a = 2; } xs_cover("end"); }
CONTRACT(bad_dead_read, "S", "safety:memory") { auto r = rgn(); r->a = 1; xs_kill(r); uint64_t v; { xs_lib l; v = r->a; } xs_check(v == 1, "v"); xs_cover("end"); }
CONTRACT(bad_uninit, "S", "safety:uninitialised") { auto r = rgn(); { xs_lib l; if (r->a) r->b = 1; } xs_cover("end"); }
CONTRACT(bad_uninit_check, "S", "c") { auto r = rgn(); xs_check(r->a == 0, "c"); xs_cover("end"); }
static int* dangling() { int x = 3; int* volatile p = &x; return p; }
CONTRACT(bad_stack, "S", "safety:memory") { int v; { xs_lib l; v = *dangling(); } xs_check(v == 3, "v"); xs_cover("end"); }
CONTRACT(bad_frame, "S", "safety:frame") { auto r = rgn(); auto q = rgn(); xs_frame_begin(); xs_frame_allow(r, 8); { xs_lib l; r->a = 1; q->a = 1; } xs_frame_end(); xs_cover("end"); }
CONTRACT(bad_frame_part, "S", "safety:frame") { auto r = rgn(); xs_frame_begin(); xs_frame_allow(r, 8); { xs_lib l; r->b = 1; } xs_frame_end(); xs_cover("end"); }
CONTRACT(ok_frame, "S", "") { auto r = rgn(); xs_frame_begin(); xs_frame_allow(r, 8); { xs_lib l; int x = 3; r->a = uint64_t(x); } xs_frame_end(); xs_check(r->a == 3, "v"); xs_cover("end"); }
struct V { virtual int f() { return 1; } virtual ~V() {} };
struct W : V { uint64_t x; W(uint64_t v) : x(v) {} int f() override { return x == 7 ? 2 : 3; } };
CONTRACT(ok_virtual, "S", "") { V* v = new (xs_region(sizeof(W), 8, "w")) W(xs_nondet(64, "x")); int r; { xs_lib l; r = v->f(); } xs_check(r == 2 || r == 3, "f"); xs_cover("end"); }
CONTRACT(bad_virtual, "S", "f") { V* v = new (xs_region(sizeof(W), 8, "w")) W(xs_nondet(64, "x")); int r; { xs_lib l; r = v->f(); } xs_check(r == 3, "f"); xs_cover("end"); }
static void thrower(int k) { if (k == 1) throw 5; if (k == 2) throw std::bad_alloc(); }
static int g_d; struct D { ~D() { g_d++; } };
static int catcher(int k) { try { D d; thrower(k); return 0; } catch (int x) { return x; } catch (const std::exception&) { return 9; } }
CONTRACT(ok_exc, "S", "") { int k = xs_choose(3, "k"); g_d = 0; int r; { xs_lib l; r = catcher(k); } xs_check(r == (k == 0 ? 0 : k == 1 ? 5 : 9), "caught"); xs_check(g_d == 1, "unwound"); xs_cover("end"); }
static void nx(int k) noexcept { thrower(k); }
CONTRACT(bad_noexcept, "S", "safety:terminate") { { xs_lib l; nx(xs_choose(2, "k")); } xs_cover("end"); }
// loops
static uint64_t count(uint64_t n) { uint64_t i = 0; while (i != n) ++i; return i; }
CONTRACT(ok_loop, "S", "") { uint64_t n = xs_nondet(64, "n"), r; { xs_lib l; r = count(n); } xs_check(r == n, "counts"); xs_cover("end"); }
static uint64_t count_bad(uint64_t n) { uint64_t i = 0; while (i != n && i != 1000000) ++i; return i; }
CONTRACT(bad_loop, "S", "counts") { uint64_t n = xs_nondet(64, "n"), r; { xs_lib l; r = count_bad(n); } xs_check(r == n, "counts"); xs_cover("end"); }
static uint64_t g_n, g_k;
static uint64_t twin(uint64_t n, uint64_t odd) { uint64_t i = 0, j = 5; while (i != n) { ++i; j += i == odd ? 8 : 16; g_k = g_k + 1; } return j; }
CONTRACT(ok_induct, "S", "") { g_n = xs_nondet(40, "n"); xs_loop_value(&g_n); g_k = 0; uint64_t r; { xs_lib l; r = twin(g_n, 0); } xs_check(r == 16 * g_n + 5 && g_k == g_n, "in step"); xs_cover("end"); }
CONTRACT(bad_induct, "S", "in step") { g_n = xs_nondet(40, "n"); g_k = 0; uint64_t r; { xs_lib l; r = twin(g_n, 1000000); } xs_check(r == 16 * g_n + 5, "in step"); xs_cover("end"); }
static uint64_t upto(uint64_t n, bool incl) { uint64_t i = 0; for (; incl ? i <= n : i < n; ++i) { xs_ghost g; xs_check(i < g_n, "in bounds"); } return i; }
CONTRACT(ok_bound, "S", "") { g_n = xs_nondet(40, "n"); xs_loop_value(&g_n); uint64_t r; { xs_lib l; r = upto(g_n, false); } xs_check(r == g_n, "runs to the end"); xs_cover("end"); }
CONTRACT(bad_bound, "S", "in bounds") { g_n = xs_nondet(40, "n"); xs_loop_value(&g_n); { xs_lib l; upto(g_n, true); } xs_cover("end"); }
struct E1 { uint64_t v; E1() { xs_ghost g; g_k = g_k + 1; } ~E1() { xs_ghost g; g_k = g_k - 1; } };
CONTRACT(ok_elems, "S", "") { g_n = xs_nondet(30, "n"); g_k = 0; xs_loop_value(&g_n); char* m = (char*)xs_region(8 * g_n + 8, 8, "m"); E1* p; { xs_lib l; p = (E1*)m; for (uint64_t i = 0; i < g_n; ++i) new (p + i) E1; } xs_check(g_k == g_n, "all made"); { xs_lib l; for (E1* q = p + g_n; q != p; ) (--q)->~E1(); } xs_check(g_k == 0, "all gone"); xs_cover("end"); }
CONTRACT(bad_elems, "S", "all gone") { g_n = xs_nondet(30, "n"); xs_assume(g_n != 0); g_k = 0; xs_loop_value(&g_n); char* m = (char*)xs_region(8 * g_n + 8, 8, "m"); E1* p; { xs_lib l; p = (E1*)m; for (uint64_t i = 0; i < g_n; ++i) new (p + i) E1; } { xs_lib l; for (E1* q = p + g_n; q != p + 1; ) (--q)->~E1(); } xs_check(g_k == 0, "all gone"); xs_cover("end"); }
// other threads
static std::atomic<uint32_t>* g_a; static int g_rel;
extern "C" void xs_atomic_pre(void* p, uint64_t, uint64_t) { *(uint32_t*)p = uint32_t(xs_nondet(32, "others")); }
extern "C" void xs_atomic_post(void*, int kind, uint64_t old, uint64_t now, int order, uint64_t) { if (kind == 4 || kind == 2) { xs_check(now == ((old + 1) & 0xffffffff), "step adds one"); g_rel = xs_rel(order); } }
extern "C" void xs_plain_access(void*, uint64_t, int, uint64_t) { xs_check(false, "plain access"); }
static void shared() { g_a = new (xs_region(8, 8, "atomic")) std::atomic<uint32_t>(0); xs_share(g_a, 4, 1); }
CONTRACT(ok_rmw, "S", "") { shared(); { xs_lib l; g_a->fetch_add(1, std::memory_order_release); } xs_check(g_rel, "release"); xs_cover("end"); }
CONTRACT(bad_order, "S", "release") { shared(); { xs_lib l; g_a->fetch_add(1, std::memory_order_relaxed); } xs_check(g_rel, "release"); xs_cover("end"); }
CONTRACT(ok_cas, "S", "") { shared(); { xs_lib l; uint32_t e = g_a->load(); while (!g_a->compare_exchange_weak(e, e + 1)); } xs_cover("end"); }
CONTRACT(bad_stale, "S", "step adds one") { shared(); { xs_lib l; uint32_t e = g_a->load(); g_a->exchange(e + 1); } xs_cover("end"); }
CONTRACT(bad_plain, "S", "plain access") { shared(); { xs_lib l; *(uint32_t*)g_a = 1; } xs_cover("end"); }
// bytes
CONTRACT(ok_bytes, "S", "") { auto r = rgn(); r->a = xs_nondet(64, "x"); uint64_t y = 0; { xs_lib l; std::memcpy(&y, r, 8); } xs_check(y == r->a, "copy"); uint8_t lo = *(uint8_t*)r; xs_check(lo == uint8_t(r->a), "low byte"); xs_cover("end"); }
CONTRACT(bad_alias, "S", "apart") { auto p = (uint64_t*)xs_nondet_ptr("p"); auto r = rgn(); xs_check((void*)p != (void*)r, "apart"); xs_cover("end"); }
CONTRACT(ok_apart, "S", "") { auto r = rgn(); auto q = rgn(); xs_check((uint64_t)r != (uint64_t)q, "apart"); xs_check((uint64_t)r + 16 <= (uint64_t)q || (uint64_t)q + 16 <= (uint64_t)r, "disjoint"); xs_check(((uint64_t)r & 7) == 0, "aligned"); xs_cover("end"); }
CONTRACT(bad_vacuous, "S", "no end") { uint64_t x = xs_nondet(64, "x"); xs_assume(x < 3); xs_assume(x > 4); xs_cover("end"); }
