// Demonstrations of the defects found in the pinned tree, each repaired by a "fix:" commit in /repo.
//   g++ -std=c++17 -g -fsanitize=address,undefined -I/repo/code demos.cpp -o d && ./d <n>
// exit 0: repaired; anything else (sanitizer report, assertion, hang): the defect.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>
#include <unistd.h>
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/std_helpers.hpp>
using namespace xmem;
#define REQ(x) do { if (!(x)) { std::printf("FAILED line %d: %s\n", __LINE__, #x); std::exit(1); } } while (0)
struct node { shared_ptr<node> next; int v = 0; };
static int dels[4];
struct del { int id; void operator()(int* p) { dels[id]++; delete p; } };
template <typename T> struct failing { using value_type = T; };
struct esf : enable_shared_from_this<esf> { ~esf() { if (probe) probe(this); } static void (*probe)(esf*); };
void (*esf::probe)(esf*);
static bool g_fail_new;
void* operator new(size_t n, std::align_val_t) { if (g_fail_new) throw std::bad_alloc(); void* p; REQ(!posix_memalign(&p, 64, n)); return p; }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
struct reenter { atomic_shared_ptr_storage<reenter>* st = nullptr; ~reenter() { if (st) (void)st->load(); } };
struct xreenter { xstd::atomic_shared_ptr_storage<xreenter>* st = nullptr; ~xreenter() { if (st) (void)st->load(); } };
struct sdel { int id; sdel(int i = 0) : id(i) {} void operator()(int* p) { if (p) dels[id]++; delete p; } };
int main(int c, char** v) {
    alarm(5);
    switch (c > 1 ? atoi(v[1]) : 0) {
    case 1: { auto head = make_shared<node>(); head->next = make_shared<node>(); head->next->v = 5; head = head->next; REQ(head->v == 5); REQ(head.use_count() == 1); break; }
    case 2: { auto head = make_shared<node>(); head->next = make_shared<node>(); head->next->v = 5; head = std::move(head->next); REQ(head->v == 5); REQ(head.use_count() == 1); break; }
    case 3: { auto p = make_shared<node>(); p->next = p; auto raw = p.get(); p.reset(); raw->next.reset(); break; }
    case 4: { // throwing allocation while assigning from a unique pointer
        auto p = make_shared<int>(1); auto u = xmem::make_unique<int>(2); g_fail_new = true;
        try { p = std::move(u); REQ(false); } catch (std::bad_alloc&) {} g_fail_new = false;
        REQ(p && *p == 1); REQ(u && *u == 2); break; }
    case 5: { // shared_from_this while the object is being destroyed
        static weak_ptr<esf> w; auto p = make_shared<esf>(); w = p;
        esf::probe = [](esf* e) { auto q = e->shared_from_this(); REQ(!q); REQ(!q.owner()); };
        p.reset(); REQ(w.use_count() == 0); break; }
    case 6: { shared_ptr<esf> p(xmem::unique_ptr<esf>(nullptr)); REQ(!p); break; }
    case 7: { { xmem::unique_ptr<int, sdel> a(new int(1), sdel(1)), b(new int(2), sdel(2)); int* pa = a.get(); a.swap(b);
        REQ(b.get() == pa); REQ(b.get_deleter().id == 1); REQ(a.get_deleter().id == 2);
        a.reset(); REQ(dels[2] == 1 && dels[1] == 0); } REQ(dels[1] == 1 && dels[2] == 1); break; }
    case 8: {
#ifndef SKIP8
        shared_ptr<int> p; p.reset(new int(1), del{3}); p.reset(); REQ(dels[3] == 1);
#endif
        break; }
    case 9: { atomic_shared_ptr_storage<reenter> st; auto e = make_shared<reenter>(); e->st = &st; REQ(!st.compare_exchange(e, make_shared<reenter>())); REQ(!e); break; }
    case 10: { xstd::atomic_shared_ptr_storage<xreenter> st; auto e = std::make_shared<xreenter>(); e->st = &st; REQ(!st.compare_exchange(e, std::make_shared<xreenter>())); REQ(!e); break; }
    default: return 2;
    }
    std::puts("ok");
}
