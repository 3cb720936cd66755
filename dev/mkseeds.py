#!/usr/bin/env python3-vt
"""Writes /verif/seeded/<id>/ from the list below (patch made against /repo's HEAD) and, with 'check', confirms each: applies,
builds, passes the stable tests, demo 0 without and nonzero with the patch. usage: mkseeds.py [write|check] [ids...]"""
import sys,os,shutil,subprocess,json
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from mutants import *
SEEDS=[]
def seed(id,prop,edits,needs,breaks,demo,files={},flags=""): SEEDS.append((id,prop,edits,needs,breaks,demo,files,flags))
CHECK='#include <cstdio>\n#include <cstdlib>\n#define CHECK(x) do { if (!(x)) { std::printf("FAILED %s:%d %s\\n", __FILE__, __LINE__, #x); std::exit(1); } } while (0)\n'
COUNT_NEW='''#include <new>
static long n_live_blocks = 0;
void* operator new(std::size_t n, std::align_val_t a) { ++n_live_blocks; std::size_t al = std::size_t(a) < sizeof(void*) ? sizeof(void*) : std::size_t(a); void* p = std::aligned_alloc(al, (n + al - 1) / al * al); if (!p) std::abort(); return p; }
void operator delete(void* p, std::align_val_t) noexcept { if (p) --n_live_blocks; std::free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { if (p) --n_live_blocks; std::free(p); }
'''
HOOKRC='''#include <xmem/common_control_block.hpp>
#include <functional>
// a reference count whose steps can be interleaved with other "threads" deterministically
struct hook_rc {
    static std::function<void()> after_dec, after_count;
    static void fire(std::function<void()>& f) { if (f) { auto g = std::move(f); f = nullptr; g(); } }
    unsigned n = 1;
    unsigned inc() noexcept { return ++n; }
    unsigned dec() noexcept { auto r = --n; fire(after_dec); return r; }
    unsigned count() const noexcept { auto r = n; fire(after_count); return r; }
    unsigned inc_nz() noexcept { return n ? ++n : 0; }
};
std::function<void()> hook_rc::after_dec, hook_rc::after_count;
using CBF = xmem::control_block_factory<xmem::control_block_base<hook_rc>>;
template <typename T> using sp = xmem::basic_shared_ptr<CBF, T>;
template <typename T> using wp = xmem::basic_weak_ptr<CBF, T>;
'''
SHADOW='''// std::atomic as seen by xmem is replaced by one that (1) lets another "thread" act before a chosen step and
// (2) keeps vector clocks, so that orderings can be observed in one real thread
#include <atomic>
#include <memory>
#include <functional>
#include <new>
#include <type_traits>
#include <utility>
#include <ostream>
#include <cstdint>
namespace shadow {
struct clock { unsigned t[4] = {}; void join(const clock& o) { for (int i = 0; i < 4; ++i) if (o.t[i] > t[i]) t[i] = o.t[i]; } };
inline clock th[4], acq_pending[4], rel_fence[4]; inline int cur = 0;
inline std::function<void()> before_cas, before_step;
inline void fire(std::function<void()>& f) { if (f) { auto g = std::move(f); f = nullptr; g(); } }
inline bool acq(std::memory_order m) { return m == std::memory_order_acquire || m == std::memory_order_acq_rel || m == std::memory_order_seq_cst || m == std::memory_order_consume; }
inline bool rel(std::memory_order m) { return m == std::memory_order_release || m == std::memory_order_acq_rel || m == std::memory_order_seq_cst; }
struct cell {
    std::uint32_t v; mutable clock c;
    constexpr cell(std::uint32_t x = 0) : v(x) {}
    cell(const cell&) = delete;
    void rd(std::memory_order m) const { if (acq(m)) th[cur].join(c); acq_pending[cur].join(c); }
    void wr(std::memory_order m, bool rmw) { if (!rmw) c = clock(); if (rel(m)) c.join(th[cur]); else c.join(rel_fence[cur]); }
    using mo = std::memory_order;
    std::uint32_t load(mo m = mo::memory_order_seq_cst) const { fire(before_step); rd(m); return v; }
    void store(std::uint32_t x, mo m = mo::memory_order_seq_cst) { fire(before_step); wr(m, false); v = x; }
    std::uint32_t fetch_add(std::uint32_t d, mo m = mo::memory_order_seq_cst) { fire(before_step); rd(m); wr(m, true); auto o = v; v += d; return o; }
    std::uint32_t fetch_sub(std::uint32_t d, mo m = mo::memory_order_seq_cst) { fire(before_step); rd(m); wr(m, true); auto o = v; v -= d; return o; }
    std::uint32_t exchange(std::uint32_t x, mo m = mo::memory_order_seq_cst) { fire(before_step); rd(m); wr(m, true); auto o = v; v = x; return o; }
    bool compare_exchange_strong(std::uint32_t& e, std::uint32_t d, mo s, mo f) { fire(before_cas); fire(before_step); if (v == e) { rd(s); wr(s, true); v = d; return true; } rd(f); e = v; return false; }
    bool compare_exchange_strong(std::uint32_t& e, std::uint32_t d, mo s = mo::memory_order_seq_cst) { return compare_exchange_strong(e, d, s, s == mo::memory_order_acq_rel ? mo::memory_order_acquire : s == mo::memory_order_release ? mo::memory_order_relaxed : s); }
    bool compare_exchange_weak(std::uint32_t& e, std::uint32_t d, mo s, mo f) { return compare_exchange_strong(e, d, s, f); }
    bool compare_exchange_weak(std::uint32_t& e, std::uint32_t d, mo s = mo::memory_order_seq_cst) { return compare_exchange_strong(e, d, s); }
    std::uint32_t operator++() { return fetch_add(1) + 1; } std::uint32_t operator++(int) { return fetch_add(1); }
    std::uint32_t operator--() { return fetch_sub(1) - 1; } std::uint32_t operator--(int) { return fetch_sub(1); }
    std::uint32_t operator+=(std::uint32_t d) { return fetch_add(d) + d; } std::uint32_t operator-=(std::uint32_t d) { return fetch_sub(d) - d; }
    operator std::uint32_t() const { return load(); }
};
inline void fence(std::memory_order m) { if (acq(m)) th[cur].join(acq_pending[cur]); if (rel(m)) rel_fence[cur] = th[cur]; }
inline void write_by(int t) { ++th[t].t[t]; }
inline bool sees(int reader, int writer) { return th[reader].t[writer] == th[writer].t[writer]; }
}
namespace std { using shadow_cell = ::shadow::cell; template <typename> using shadow_cell_t = ::shadow::cell; inline void shadow_fence(memory_order m) { ::shadow::fence(m); } }
#define atomic_uint32_t shadow_cell
#define atomic_thread_fence shadow_fence
#include <xmem/atomic_ref_count.hpp>
#undef atomic_uint32_t
#undef atomic_thread_fence
#include <xmem/shared_ptr.hpp>
'''
REGCB='''#include <utility>
#include <cstddef>
#include <type_traits>
#include <xmem/basic_shared_ptr.hpp>
#include <xmem/basic_weak_ptr.hpp>
#include <map>
#include <set>
// a control block that keeps the addresses of its owners, like upstream's bookkeeping blocks
struct reg_cb {
    std::multiset<const void*> strong, weak; bool bad = false;
    void init_strong(const void* p) noexcept { strong.insert(p); }
    void inc_strong_ref(const void* p) noexcept { strong.insert(p); }
    void dec_strong_ref(const void* p) noexcept { auto i = strong.find(p); if (i == strong.end()) bad = true; else strong.erase(i); }
    bool inc_strong_ref_nz(const void* p) noexcept { if (strong.empty()) return false; strong.insert(p); return true; }
    long strong_ref_count() const noexcept { return long(strong.size()); }
    void transfer_strong(const void* to, const void* from) noexcept { auto i = strong.find(from); if (i == strong.end()) bad = true; else strong.erase(i); strong.insert(to); }
    void inc_weak_ref(const void* p) noexcept { weak.insert(p); }
    void dec_weak_ref(const void* p) noexcept { auto i = weak.find(p); if (i == weak.end()) bad = true; else weak.erase(i); }
    void transfer_weak(const void* to, const void* from) noexcept { auto i = weak.find(from); if (i == weak.end()) bad = true; else weak.erase(i); weak.insert(to); }
};
struct CBF { using cb_type = reg_cb; };
using sp = xmem::basic_shared_ptr<CBF, int>;
using wp = xmem::basic_weak_ptr<CBF, int>;
using pr = xmem::cb_ptr_pair<reg_cb, int>;
'''
seed("c01-null-alias-copy","C01",[(SP,"        m = r;\n        if (m.cb) m.cb->inc_strong_ref(this);","        m = r;\n        if (m.ptr) m.cb->inc_strong_ref(this);")],
 "a copy of a shared_ptr that owns but whose stored pointer is null (aliased to null)","the copy is not counted although it gives up a count when destroyed: use_count is too low and the object dies early",
 CHECK+'''#include <xmem/shared_ptr.hpp>
int dead = 0; struct X { ~X() { ++dead; } };
int main() { auto a = xmem::make_shared<X>(); { xmem::shared_ptr<int> n(a, (int*)nullptr); auto m = n; CHECK(a.use_count() == 3); } CHECK(a.use_count() == 1); CHECK(dead == 0); return 0; }
''')
seed("c02-reread-after-dec","C02",[(CB,"        if (m_strong.dec() == 0) {","        m_strong.dec();\n        if (m_strong.count() == 0) {")],
 "two threads give up the last two strong owners, the second one between the first one's decrement and its look at the count","both see zero and both destroy the object",
 CHECK+HOOKRC+'''int dead = 0; struct X { ~X() { ++dead; } };
int main() {
    auto a = new sp<X>(CBF::make_resource_cb<X>(xmem::allocator<char>{})); auto b = new sp<X>(*a);
    auto w1 = new wp<X>(*a); auto w2 = new wp<X>(*a); (void)w2; // the block stays
    hook_rc::after_dec = [&] { delete b; };     // the other thread's release
    delete a;
    hook_rc::after_dec = nullptr;
    CHECK(dead == 1); CHECK(w1->expired());
    return 0;
}
''')
seed("c03-weak-assign-same-owner","C03",[(WP,"    basic_weak_ptr& operator=(const basic_shared_ptr<CBF, U>& sptr) noexcept {\n        if (m.cb) m.cb->dec_weak_ref(this);","    basic_weak_ptr& operator=(const basic_shared_ptr<CBF, U>& sptr) noexcept {\n        if (m.cb && m.cb != sptr.m.cb) m.cb->dec_weak_ref(this);")],
 "a weak_ptr assigned from a shared_ptr that has the owner the weak_ptr already refers to","the weak count grows by one that nobody gives back: the control block is never freed",
 CHECK+COUNT_NEW+'''#include <xmem/shared_ptr.hpp>
int main() { { auto s = xmem::make_shared<int>(5); xmem::weak_ptr<int> w = s; xmem::shared_ptr<int> t = s; w = t; CHECK(n_live_blocks == 1); } CHECK(n_live_blocks == 0); return 0; }
''')
seed("c04-lock-check-then-inc","C04",[(WP,"        if (!m.cb->inc_strong_ref_nz(&ret)) return ret;\n","        if (m.cb->strong_ref_count() == 0) return ret;\n        m.cb->inc_strong_ref(&ret);\n")],
 "the last strong owner goes away between lock()'s look at the count and its increment","lock() returns an owner of a destroyed object",
 CHECK+HOOKRC+'''int dead = 0; struct X { ~X() { ++dead; } };
int main() {
    auto a = new sp<X>(CBF::make_resource_cb<X>(xmem::allocator<char>{})); wp<X> w(*a);
    hook_rc::after_count = [&] { delete a; };
    auto l = new sp<X>(w.lock());
    hook_rc::after_count = nullptr;
    CHECK(!(dead && *l));
    return 0;
}
''')
seed("c05-resurrect-on-failed-cas","C05",[(AR,"        while (rc != 0) {\n            if (m_refs.compare_exchange_weak(rc, rc + 1, std::memory_order_acq_rel, std::memory_order_relaxed)) {\n                return rc + 1;\n            }\n        }\n        return 0;",
 "        if (rc == 0) return 0;\n        while (!m_refs.compare_exchange_weak(rc, rc + 1, std::memory_order_acq_rel, std::memory_order_relaxed));\n        return rc + 1;")],
 "the count drops to zero between the first load and the compare-exchange of inc_nz","a zero count is incremented: lock() resurrects a destroyed object",
 CHECK+'#include "shadow.hpp"\n'+'''int dead = 0; struct X { ~X() { ++dead; } };
int main() {
    auto a = new xmem::shared_ptr<X>(xmem::make_shared<X>()); xmem::weak_ptr<X> w(*a);
    shadow::before_cas = [&] { delete a; };
    auto l = new xmem::shared_ptr<X>(w.lock());
    shadow::before_cas = nullptr;
    CHECK(!(dead && *l)); CHECK(dead == 0 || l->use_count() == 0);
    return 0;
}
''',{"shadow.hpp":SHADOW})
seed("c05-dec-two-steps","C05",[(AR,"return m_refs.fetch_sub(1, std::memory_order_acq_rel) - 1;","m_refs.fetch_sub(1, std::memory_order_acq_rel);\n        return m_refs.load(std::memory_order_acquire);")],
 "another thread decrements between the decrement and the load","two decrements both return zero",
 CHECK+'#include "shadow.hpp"\n'+'''int main() {
    xmem::atomic_ref_count rc; rc.inc();
    int zero = 0;
    int n = 0; std::function<void()> other = [&] { if (n++ == 0) shadow::before_step = other; else { if (rc.dec() == 0) ++zero; } };
    shadow::before_step = other;
    if (rc.dec() == 0) ++zero;
    shadow::before_step = nullptr;
    if (n < 2) { if (rc.dec() == 0) ++zero; }
    CHECK(zero == 1);
    return 0;
}
''',{"shadow.hpp":SHADOW})
seed("c06-dec-not-acquire","C06",[(AR,"m_refs.fetch_sub(1, std::memory_order_acq_rel)","m_refs.fetch_sub(1, std::memory_order_release)")],
 "a thread writes to the object and gives up its owner, another one drops the last owner, nothing else orders the two","the destructor may run without seeing the other thread's writes",
 CHECK+'#include "shadow.hpp"\n'+'''bool ok = false, dead = false; struct X { ~X() { dead = true; ok = shadow::sees(shadow::cur, 1); } };
int main() {
    auto a = new xmem::shared_ptr<X>(xmem::make_shared<X>()); auto b = new xmem::shared_ptr<X>(*a);
    shadow::cur = 1; shadow::write_by(1); delete a;
    shadow::cur = 2; delete b;
    CHECK(dead); CHECK(ok);
    return 0;
}
''',{"shadow.hpp":SHADOW})
seed("c06-dec-not-release","C06",[(AR,"m_refs.fetch_sub(1, std::memory_order_acq_rel)","m_refs.fetch_sub(1, std::memory_order_acquire)")],
 "a thread writes to the object and gives up its owner, another one drops the last owner","giving up an owner doesn't publish what was written through it",
 CHECK+'#include "shadow.hpp"\n'+'''bool ok = false, dead = false; struct X { ~X() { dead = true; ok = shadow::sees(shadow::cur, 1); } };
int main() {
    auto a = new xmem::shared_ptr<X>(xmem::make_shared<X>()); auto b = new xmem::shared_ptr<X>(*a);
    shadow::cur = 1; shadow::write_by(1); delete a;
    shadow::cur = 2; delete b;
    CHECK(dead); CHECK(ok);
    return 0;
}
''',{"shadow.hpp":SHADOW})
seed("c07-swap-transfer-source","C07",[(SP,"            if (m.cb) m.cb->transfer_strong(&r, this);\n            m.swap(r.m);\n            if (m.cb) m.cb->transfer_strong(this, &r);","            m.swap(r.m);\n            if (r.m.cb) r.m.cb->transfer_strong(&r, this);\n            else if (m.cb) m.cb->transfer_strong(this, &r);")],
 "swapping two shared pointers that both own, with different owners, and a control block that watches its owners","one of the two control blocks is not told that its owner moved",
 CHECK+REGCB+'''int main() {
    reg_cb b1, b2; int x = 1, y = 2;
    { sp a(pr(&b1, &x)), b(pr(&b2, &y)); a.swap(b); CHECK(b1.strong.count(&b) == 1 && b2.strong.count(&a) == 1); sp e; a.swap(e); CHECK(b2.strong.count(&e) == 1); }
    CHECK(!b1.bad && !b2.bad && b1.strong.empty() && b2.strong.empty());
    return 0;
}
''')
seed("c07-weak-move-transfer","C07",[(WP,"        m = std::move(r.m);\n        if (m.cb) m.cb->transfer_weak(this, &r);","        m = std::move(r.m);\n        if (m.ptr) m.cb->transfer_weak(this, &r);")],
 "moving a weak pointer that has an owner but a null pointer, and a control block that watches its weak pointers","the control block is not told that the weak pointer moved",
 CHECK+REGCB+'''int main() {
    reg_cb b1; int x = 1;
    { sp a(pr(&b1, &x)); wp w(a, (int*)nullptr); wp v(std::move(w)); CHECK(b1.weak.count(&v) == 1 && b1.weak.count(&w) == 0); }
    CHECK(!b1.bad && b1.weak.empty() && b1.strong.empty());
    return 0;
}
''')
seed("c08-assign-same-owner","C08",[(SP,"        if (&r == this) return *this; // self usurp\n        basic_shared_ptr(r)","        if (r.m.cb == m.cb) return *this; // self usurp\n        basic_shared_ptr(r)")],
 "assignment between two pointers that share the owner but point to different subobjects","the target keeps its old pointer",
 CHECK+'''#include <xmem/shared_ptr.hpp>
struct P { int a = 1, b = 2; };
int main() { auto p = xmem::make_shared<P>(); xmem::shared_ptr<int> a(p, &p->a), b(p, &p->b); a = b; CHECK(a.get() == &p->b); CHECK(p.use_count() == 3); return 0; }
''')
seed("c08-moved-from-keeps-pointer","C08",[(PP,"    template <typename U>\n    cb_ptr_pair& operator=(cb_ptr_pair<CB, U>&& r) noexcept {\n        cb = r.cb;\n        ptr = r.ptr;\n        r.reset();","    template <typename U>\n    cb_ptr_pair& operator=(cb_ptr_pair<CB, U>&& r) noexcept {\n        cb = r.cb;\n        ptr = r.ptr;\n        r.cb = nullptr;")],
 "a converting move (shared_ptr<D> to shared_ptr<B>)","the moved-from pointer still points to the object without owning it",
 CHECK+'''#include <xmem/shared_ptr.hpp>
struct B { virtual ~B() = default; }; struct D : B {};
int main() { auto d = xmem::make_shared<D>(); xmem::shared_ptr<B> b = std::move(d); CHECK(b && !d && d.get() == nullptr && d.use_count() == 0); return 0; }
''')
seed("c08-weak-alias-expired","C08",[(WP,"        if (!r) {\n            m.reset();\n            return;\n        }\n        init_from_copy(cb_ptr_pair_type(r.m.cb, aptr));","        if (r.expired()) {\n            m.reset();\n            return;\n        }\n        init_from_copy(cb_ptr_pair_type(r.m.cb, aptr));")],
 "an aliasing weak_ptr made from a weak_ptr whose object is gone","the alias loses the owner: it is no longer equivalent to its source in owner order",
 CHECK+'''#include <xmem/shared_ptr.hpp>
int main() { auto s = xmem::make_shared<int>(1); xmem::weak_ptr<int> w = s; int x; s.reset(); xmem::weak_ptr<int> a(w, &x); CHECK(xmem::same_owner(a, w)); CHECK(!!a); CHECK(a.expired()); return 0; }
''')
seed("c09-weak-self-assign","C09",[(WP,"        if (&r == this) return *this; // self usurp\n        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_copy(r.m);","        if (m.cb) m.cb->dec_weak_ref(this);\n        init_from_copy(r.m);")],
 "self-assignment of the only pointer that still refers to a control block","the control block is freed and then used",
 CHECK+COUNT_NEW+'''#include <xmem/shared_ptr.hpp>
int main() { { xmem::weak_ptr<int> w; { auto s = xmem::make_shared<int>(1); w = s; } CHECK(n_live_blocks == 1); auto& same = w; w = same; CHECK(n_live_blocks == 1); CHECK(w.expired()); } CHECK(n_live_blocks == 0); return 0; }
''')
seed("c10-make-aliased-null-owner-ptr","C10",[(SP,"    if (owner.use_count() == 0) return {};","    if (!owner) return {};")],
 "make_aliased with an owner that owns but whose own pointer is null (or one that points but doesn't own)","ownership is lost, or a pointer without an owner is made",
 CHECK+'''#include <xmem/shared_ptr.hpp>
int main() { int x; auto s = xmem::make_shared<int>(1); xmem::shared_ptr<int> n(s, (int*)nullptr); auto a = xmem::make_aliased(n, &x); CHECK(a.get() == &x && xmem::same_owner(a, s) && s.use_count() == 3);
  xmem::shared_ptr<int> e(xmem::shared_ptr<int>{}, &x); auto b = xmem::make_aliased(e, &x); CHECK(!b); return 0; }
''')
seed("c10-dynamic-cast-failed-keeps-owner","C10",[(SP,"    if (!ptr) return {};\n    return make_aliased(owner, ptr);","    return make_aliased(owner, ptr);")],
 "a dynamic_pointer_cast that fails","the result is null but shares ownership, so the object lives longer and use_count is too high",
 CHECK+'''#include <xmem/shared_ptr.hpp>
struct B { virtual ~B() = default; }; struct D : B {}; struct E : B {};
int main() { xmem::shared_ptr<B> b = xmem::make_shared<D>(); auto e = xmem::dynamic_pointer_cast<E>(b); CHECK(!e && b.use_count() == 1 && xmem::no_owner(e)); auto d = xmem::dynamic_pointer_cast<D>(b); CHECK(d && b.use_count() == 2); return 0; }
''')
seed("c11-overwrite-release-early","C11",[(CB,"        new (tmp->obj()) T;\n        auto cb = tmp.release();","        auto cb = tmp.release();\n        new (cb->obj()) T;")],
 "make_shared_for_overwrite of a type whose default constructor throws","the control block leaks",
 CHECK+COUNT_NEW+'''#include <xmem/shared_ptr.hpp>
struct T { T() { throw 5; } };
int main() { bool c = false; try { auto p = xmem::make_shared_for_overwrite<T>(); } catch (int) { c = true; } CHECK(c); CHECK(n_live_blocks == 0); return 0; }
''')
seed("c11-uptr-released-before-block","C11",[(CB,"        auto tmp = rsrc_type::create(std::move(a));\n        new (tmp->obj()) uptr_type(std::move(uptr));\n        auto cb = tmp.release();\n        return prepare_pair(cb, cb->obj()->get());",
  "        uptr_type owned(std::move(uptr));\n        auto tmp = rsrc_type::create(std::move(a));\n        new (tmp->obj()) uptr_type(std::move(owned));\n        auto cb = tmp.release();\n        return prepare_pair(cb, cb->obj()->get());")],
 "the allocation of the control block throws while a unique_ptr is turned into a shared_ptr","the caller's unique_ptr is emptied and its object destroyed although the construction failed",
 CHECK+'''#include <new>
static bool fail = false;
void* operator new(std::size_t n, std::align_val_t a) { if (fail) throw std::bad_alloc(); std::size_t al = std::size_t(a) < sizeof(void*) ? sizeof(void*) : std::size_t(a); return std::aligned_alloc(al, (n + al - 1) / al * al); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
#include <xmem/shared_ptr.hpp>
int dead = 0; struct X { ~X() { ++dead; } };
int main() { auto u = xmem::make_unique<X>(); auto raw = u.get(); fail = true; bool c = false; try { xmem::shared_ptr<X> s(std::move(u)); } catch (std::bad_alloc&) { c = true; } fail = false; CHECK(c); CHECK(dead == 0); CHECK(u.get() == raw); u.reset(); CHECK(dead == 1); return 0; }
''')
seed("c12-dtor-clears-first","C12",[(UP,"    ~unique_ptr() {\n        if (this->m_ptr) {\n            D::operator()(this->m_ptr);\n        }\n    }\n\n    unique_ptr(std::nullptr_t) noexcept {}\n    unique_ptr& operator=(std::nullptr_t) noexcept {\n        reset();\n        return *this;\n    }\n\n    unique_ptr(unique_ptr&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}\n    unique_ptr& operator=(unique_ptr&& other) noexcept {\n        reset(other.release());\n        get_deleter() = std::move(other.get_deleter());\n        return *this;\n    }\n\n    template <typename D2>\n    unique_ptr(pointer p, D2&& d)",
  "    ~unique_ptr() {\n        reset();\n    }\n\n    unique_ptr(std::nullptr_t) noexcept {}\n    unique_ptr& operator=(std::nullptr_t) noexcept {\n        reset();\n        return *this;\n    }\n\n    unique_ptr(unique_ptr&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}\n    unique_ptr& operator=(unique_ptr&& other) noexcept {\n        reset(other.release());\n        get_deleter() = std::move(other.get_deleter());\n        return *this;\n    }\n\n    template <typename D2>\n    unique_ptr(pointer p, D2&& d)")],
 "an object whose destructor uses the unique_ptr that is being destroyed","the pointer is already null while the destructor runs (the guarantee this class is documented to give)",
 CHECK+'''#include <xmem/unique_ptr.hpp>
#define BOTH 1
struct X; bool ok = true; int dead = 0;
struct H { xmem::unique_ptr<X> p; xmem::unique_ptr<X[]> a; }; H* h;
struct X { bool arr; X(bool b = true) : arr(b) {} ~X() { ++dead; if (arr ? h->a.get() != this : h->p.get() != this) ok = false; } };
int main() { h = new H; h->p = xmem::unique_ptr<X>(new X(false)); h->a = xmem::unique_ptr<X[]>(new X[1]); delete h; CHECK(dead == 2); CHECK(ok); return 0; }
''')
seed("c12-reset-sets-after","C12",[(UP,"    void reset(pointer p = pointer()) noexcept {\n        auto old = this->m_ptr;\n        this->m_ptr = p;\n        if (old) {\n            D::operator()(old);\n        }\n    }\n\n    void swap(unique_ptr& other) {\n        common::swap(other);\n        if constexpr (!std::is_empty_v<D>) std::swap(get_deleter(), other.get_deleter());\n    }\n    using common::release;\n    using common::operator bool;\n    using common::get;\n    using common::operator->",
  "    void reset(pointer p = pointer()) noexcept {\n        if (this->m_ptr) {\n            D::operator()(this->m_ptr);\n        }\n        this->m_ptr = p;\n    }\n\n    void swap(unique_ptr& other) {\n        common::swap(other);\n        if constexpr (!std::is_empty_v<D>) std::swap(get_deleter(), other.get_deleter());\n    }\n    using common::release;\n    using common::operator bool;\n    using common::get;\n    using common::operator->")],
 "a deleter (or destructor) that assigns to the unique_ptr being reset","the object is deleted twice and the new one leaked",
 CHECK+'''#include <xmem/unique_ptr.hpp>
struct X { int id; }; int deleted[3];
struct Del; xmem::unique_ptr<X, Del>* g;
struct Del { void operator()(X* p) const; };
static X x0{0}, x1{1}, x2{2};
void Del::operator()(X* p) const { if (deleted[p->id]++ == 0 && p->id == 0 && g) g->reset(&x2); }
int main() { { xmem::unique_ptr<X, Del> u(&x0); g = &u; u.reset(&x1); g = nullptr; } CHECK(deleted[0] == 1); CHECK(deleted[1] == 1); CHECK(deleted[2] == 1); return 0; }
''')
seed("c13-fn-deleter-before-reset","C13",[(UP,"    template <typename U, typename D2>\n    unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {\n        reset(other.release());\n        m_deleter = other.get_deleter();","    template <typename U, typename D2>\n    unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {\n        m_deleter = other.get_deleter();\n        reset(other.release());")],
 "converting move assignment between unique_ptrs with different deleter functions, the target not empty","the old object is given to the new object's deleter",
 CHECK+'''#include <xmem/unique_ptr.hpp>
struct B {}; struct D : B {};
int by1 = 0, by2 = 0; B* g1 = nullptr; B* g2 = nullptr;
void d1(B* p) { ++by1; g1 = p; } void d2(B* p) { ++by2; g2 = p; }
int main() { static D x, y; { xmem::unique_ptr<B, void (*)(B*)> a(&x, d1); xmem::unique_ptr<D, void (*)(B*)> b(nullptr, d2);
  struct conv { static void f(B* p) { d2(p); } }; 
  xmem::unique_ptr<B, void (*)(B*)> c(&y, d2); a = std::move(c); CHECK(by1 == 1 && g1 == &x && by2 == 0); }
  CHECK(by2 == 1 && g2 == &y); return 0; }
''')
SEEDS.pop()   # replaced below: needs a conversion that compiles
seed("c13-fn-deleter-before-reset","C13",[(UP,"    unique_ptr(unique_ptr&& other) noexcept : common(other.release()), m_deleter(other.get_deleter()) {}\n    unique_ptr& operator=(unique_ptr&& other) noexcept {\n        reset(other.release());\n        m_deleter = other.get_deleter();","    unique_ptr(unique_ptr&& other) noexcept : common(other.release()), m_deleter(other.get_deleter()) {}\n    unique_ptr& operator=(unique_ptr&& other) noexcept {\n        m_deleter = other.get_deleter();\n        reset(other.release());")],
 "move assignment between unique_ptrs with different deleter functions, the target not empty","the old object is given to the new object's deleter",
 CHECK+'''#include <xmem/unique_ptr.hpp>
struct B {};
int by1 = 0, by2 = 0; B* g1 = nullptr; B* g2 = nullptr;
void d1(B* p) { ++by1; g1 = p; } void d2(B* p) { ++by2; g2 = p; }
int main() { static B x, y; { xmem::unique_ptr<B, void (*)(B*)> a(&x, d1), c(&y, d2); a = std::move(c); CHECK(by1 == 1 && g1 == &x && by2 == 0); CHECK(a.get_deleter() == &d2); }
  CHECK(by2 == 1 && g2 == &y); return 0; }
''')
seed("c13-ref-deleter-not-moved","C13",[(UP,"    unique_ptr& operator=(unique_ptr&& other) noexcept {\n        reset(other.release());\n        m_deleter = &other.get_deleter();\n        return *this;\n    }\n\n    template <typename U, typename D2>\n    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), m_deleter","    unique_ptr& operator=(unique_ptr&& other) noexcept {\n        reset(other.release());\n        if (!this->m_ptr) m_deleter = &other.get_deleter();\n        return *this;\n    }\n\n    template <typename U, typename D2>\n    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), m_deleter")],
 "move assignment of a non-empty unique_ptr with a reference deleter","the pointer is disposed of by the target's old deleter",
 CHECK+'''#include <xmem/unique_ptr.hpp>
struct Del { int n = 0; void operator()(int*) { ++n; } };
int main() { Del d1, d2; int x, y; { xmem::unique_ptr<int, Del&> a(&x, d1), b(&y, d2); a = std::move(b); CHECK(d1.n == 1 && d2.n == 0); CHECK(&a.get_deleter() == &d2); } CHECK(d1.n == 1 && d2.n == 1); return 0; }
''')
seed("c14-array-not-value-initialized","C14",[(UP,"new std::remove_extent_t<T>[n]()}","new std::remove_extent_t<T>[n]}")],
 "make_unique<T[]> of a type without a user-provided constructor, on memory that isn't zero","the elements are indeterminate instead of value-initialized",
 CHECK+'''#include <xmem/unique_ptr.hpp>
#include <cstring>
struct P { int a, b; static void* operator new[](std::size_t n) { void* p = std::malloc(n); std::memset(p, 0xAA, n); return p; } static void operator delete[](void* p) { std::free(p); } };
int main() { auto p = xmem::make_unique<P[]>(3); for (int i = 0; i < 3; ++i) CHECK(p[i].a == 0 && p[i].b == 0); return 0; }
''')
seed("c14-local-shared-ptr-copies","C14",[(S2,"    return make_local_shared<std::remove_reference_t<T>>(std::forward<T>(t));","    return make_local_shared<std::remove_reference_t<T>>(t);")],
 "make_local_shared_ptr given an rvalue","the argument is copied instead of moved",
 CHECK+'''#include <xmem/local_shared_ptr.hpp>
struct M { bool moved_in = false; M() = default; M(const M&) {} M(M&&) noexcept : moved_in(true) {} };
int main() { auto p = xmem::make_local_shared_ptr(M{}); CHECK(p->moved_in); M m; auto q = xmem::make_local_shared_ptr(m); CHECK(!q->moved_in); return 0; }
''')
seed("c15-overaligned-storage","C15",[(AL,"align_val{alignof(T)};","align_val{alignof(T) < __STDCPP_DEFAULT_NEW_ALIGNMENT__ ? alignof(T) : __STDCPP_DEFAULT_NEW_ALIGNMENT__};")],
 "make_shared of a type aligned more strictly than operator new aligns by default","the object may be placed at an address that is not aligned for it",
 CHECK+'''#include <xmem/shared_ptr.hpp>
#include <cstdint>
#include <vector>
struct alignas(256) V { char c[256]; };
int main() { std::vector<xmem::shared_ptr<V>> v; for (int i = 0; i < 64; ++i) { v.push_back(xmem::make_shared<V>()); CHECK(reinterpret_cast<std::uintptr_t>(v.back().get()) % 256 == 0); } return 0; }
''',flags="-faligned-new")
seed("c15-stateful-allocator","C15",[(CB,"    explicit control_block_resource(Alloc&& a) : Alloc(std::move(a)) {}","    explicit control_block_resource(Alloc&& a) : Alloc() { (void)a; }")],
 "a control block made with an allocator that has state","the block is returned to a default constructed allocator instead of the one it came from",
 CHECK+'''#include <xmem/shared_ptr.hpp>
struct arena { long live = 0; }; static arena def;
template <typename T> struct al { using value_type = T; arena* a = &def; al() = default; al(arena* x) : a(x) {} template <typename U> al(const al<U>& o) noexcept : a(o.a) {}
  T* allocate(std::size_t n) { ++a->live; return static_cast<T*>(std::malloc(n * sizeof(T))); } void deallocate(T* p, std::size_t) { --a->live; std::free(p); } };
int main() { arena r; { xmem::shared_ptr<int> p(xmem::atomic_control_block_factory::make_resource_cb<int>(al<char>(&r), 5)); CHECK(*p == 5 && r.live == 1); } CHECK(r.live == 0 && def.live == 0); return 0; }
''')
seed("c15-allocator-read-after-dtor","C15",[(CB,"        self_alloc_type myalloc = get_self_alloc(*this); // slice\n        this->~control_block_resource();","        this->~control_block_resource();\n        self_alloc_type myalloc = get_self_alloc(*this); // slice")],
 "an allocator whose destructor gives up its state","the allocator is copied out of the block after the block (and it) was destroyed",
 CHECK+'''#include <xmem/shared_ptr.hpp>
struct arena { long live = 0; };
template <typename T> struct al { using value_type = T; arena* volatile a; al(arena* x) : a(x) {} al(const al& o) : a(o.a) {} template <typename U> al(const al<U>& o) noexcept : a(o.a) {} ~al() { a = nullptr; }
  T* allocate(std::size_t n) { ++a->live; return static_cast<T*>(std::malloc(n * sizeof(T))); } void deallocate(T* p, std::size_t) { CHECK(a != nullptr); --a->live; std::free(p); } };
int main() { arena r; { xmem::shared_ptr<int> p(xmem::atomic_control_block_factory::make_resource_cb<int>(al<char>(&r), 5)); CHECK(*p == 5 && r.live == 1); } CHECK(r.live == 0); return 0; }
''',flags="-fno-lifetime-dse")
seed("c16-assign-copies-owner","C16",[(SF,"basic_enable_shared_from& operator=(const basic_enable_shared_from&) { return *this; }","basic_enable_shared_from& operator=(const basic_enable_shared_from& r) { if (!m.cb) m = r.m; return *this; }")],
 "assigning a managed object to one that isn't managed (or whose owner was never set)","the unmanaged object hands out pointers to the other object's owner",
 CHECK+'''#include <xmem/shared_ptr.hpp>
struct X : xmem::enable_shared_from_this<X> { int v = 0; };
int main() { auto p = xmem::make_shared<X>(); { X local; local = *p; auto s = local.shared_from_this(); CHECK(!s); CHECK(local.weak_from_this().expired()); } CHECK(p.use_count() == 1); CHECK(p->shared_from_this().get() == p.get()); return 0; }
''')
seed("c16-this-of-base","C16",[(CB,"                ebf->m.ptr = ptr;","                ebf->m.ptr = ebf;")],
 "a class whose enable_shared_from base is not at its start, and the pointer of shared_from_this() as void*","shared_from_this() points to the base subobject instead of the object",
 CHECK+'''#include <xmem/shared_ptr.hpp>
struct A { int x = 1; virtual ~A() = default; };
struct X : A, xmem::enable_shared_from { auto self() { return shared_from_this(); } };
int main() { auto p = xmem::make_shared<X>(); CHECK(p->self().get() == static_cast<void*>(p.get())); CHECK(p.use_count() == 1); return 0; }
''')
seed("c17-cas-compares-owner","C17",[(ST,"            if (m_ptr == expect) {","            if (same_owner(m_ptr, expect)) {")],
 "compare_exchange when the stored and the expected pointer share the owner but point to different subobjects","it succeeds although the stored pointer is not the expected one",
 CHECK+'''#include <xmem/shared_ptr.hpp>
struct P { int a = 1, b = 2; };
int main() { auto p = xmem::make_shared<P>(); xmem::shared_ptr<int> a(p, &p->a), b(p, &p->b); xmem::atomic_shared_ptr_storage<int> s(a); auto e = b; CHECK(!s.compare_exchange(e, nullptr)); CHECK(e.get() == &p->a); CHECK(s.load().get() == &p->a); return 0; }
''')
LOCKDEMO=CHECK+'''#include <utility>
#include <cstddef>
#include <type_traits>
#include <xmem/basic_shared_ptr.hpp>
#include <xmem/basic_atomic_shared_ptr_storage.hpp>
#include <atomic>
#include <thread>
#include <chrono>
// a control block that stops inside the copy made by load()
struct cb { std::atomic<int> n{1}; static inline std::atomic<bool> hold{false}, inside{false}; static inline thread_local bool victim = false;
  void init_strong(const void*) noexcept {} void inc_strong_ref(const void*) noexcept { if (victim && hold) { inside = true; while (hold) std::this_thread::yield(); } ++n; } void dec_strong_ref(const void*) noexcept { --n; }
  bool inc_strong_ref_nz(const void*) noexcept { ++n; return true; } long strong_ref_count() const noexcept { return n; } void transfer_strong(const void*, const void*) noexcept {} };
struct CBF { using cb_type = cb; };
using sp = xmem::basic_shared_ptr<CBF, int>;
int main() {
    static cb b1, b2; static int x = 1, y = 2;
    xmem::basic_atomic_shared_ptr_storage<CBF, int> st(sp(sp::cb_ptr_pair_type(&b1, &x)));
    std::atomic<bool> stored{false};
    cb::hold = true;
    std::thread t([&] { cb::victim = true; sp p = st.load(); CHECK(p.get() == &x || p.get() == &y); });
    while (!cb::inside) std::this_thread::yield();
    std::thread u([&] { st.store(sp(sp::cb_ptr_pair_type(&b2, &y))); stored = true; });
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
    bool excluded = !stored;         // the store must wait for the load
    cb::hold = false;
    t.join(); u.join();
    CHECK(excluded);
    return 0;
}
'''
seed("c17-load-without-lock","C17",[(ST,"    shared_pointer_type load() const noexcept {\n        impl::spinlock::lock_guard _l(m_spinlock);\n        return m_ptr;","    shared_pointer_type load() const noexcept {\n        { impl::spinlock::lock_guard _l(m_spinlock); }\n        return m_ptr;")],
 "a store that runs while a load has read the stored pointer and not yet counted its copy","the load copies a pointer that is released at the same time",LOCKDEMO,flags="-pthread")
seed("c17-lock-tries-twice","C17",[(SL,"while (flag.test_and_set(std::memory_order_acquire)) /* spin */;","if (flag.test_and_set(std::memory_order_acquire)) flag.test_and_set(std::memory_order_acquire);")],
 "contention on the storage's lock","a thread that doesn't get the lock goes on without it",LOCKDEMO,flags="-pthread")
seed("c18-store-releases-under-lock","C18",[(ST,"    void store(shared_pointer_type ptr) noexcept {\n        impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr.swap(ptr);","    void store(shared_pointer_type ptr) noexcept {\n        impl::spinlock::lock_guard _l(m_spinlock);\n        m_ptr = std::move(ptr);")],
 "a store that drops the last owner of an object whose destructor uses the same storage","the destructor runs under the spinlock and waits for itself for ever",
 CHECK+'''#include <xmem/shared_ptr.hpp>
#include <unistd.h>
struct X; xmem::atomic_shared_ptr_storage<X>* g; bool seen = false;
struct X { ~X() { if (g) { auto p = g->load(); seen = true; } } };
int main() { alarm(3); xmem::atomic_shared_ptr_storage<X> s(xmem::make_shared<X>()); g = &s; s.store(nullptr); CHECK(seen); g = nullptr; return 0; }
''')
seed("c18-exchange-releases-under-lock","C18",[(ST,"        {\n            impl::spinlock::lock_guard _l(m_spinlock);\n            m_ptr.swap(ptr);\n        }\n        return ptr;","        shared_pointer_type old;\n        {\n            impl::spinlock::lock_guard _l(m_spinlock);\n            old = m_ptr;\n            m_ptr = nullptr;\n            m_ptr = std::move(ptr);\n        }\n        return old;")],
 "a control block hook or another thread that looks at the storage's use count","the exchange counts a second owner and releases under the lock; harmless unless the release is the last",
 "")
SEEDS.pop()
seed("c19-owner-before-by-pointer","C19",[(SP,"    [[nodiscard]] bool owner_before(const basic_shared_ptr<UCBF, U>& r) const noexcept {\n        return m.cb < r.m.cb;","    [[nodiscard]] bool owner_before(const basic_shared_ptr<UCBF, U>& r) const noexcept {\n        if (m.cb == r.m.cb) return static_cast<const volatile void*>(m.ptr) < static_cast<const volatile void*>(r.m.ptr);\n        return m.cb < r.m.cb;")],
 "owner_before of two pointers that share the owner but point to different subobjects","pointers with one owner are ordered: they aren't equivalent in an owner-ordered map",
 CHECK+'''#include <xmem/shared_ptr.hpp>
struct P { int a = 1, b = 2; };
int main() { auto p = xmem::make_shared<P>(); xmem::shared_ptr<int> a(p, &p->a), b(p, &p->b); CHECK(!a.owner_before(b) && !b.owner_before(a)); return 0; }
''')
seed("c19-unique-greater","C19",[(UP,"return u1.get() > u2.get(); }","return !(u1.get() < u2.get()); }")],
 "comparing two unique_ptrs that are equal (both null, or one compared with itself)","a > a holds",
 CHECK+'''#include <xmem/unique_ptr.hpp>
int main() { xmem::unique_ptr<int> a, b(new int(1)); const auto& c = b; CHECK(!(a > a)); CHECK(!(b > c)); CHECK(b > a || a > b); return 0; }
''')
seed("c20-same-owner-by-lock","C20",[(SH,"bool same_owner(const std::weak_ptr<T>& a, const std::shared_ptr<U>& b) {\n    return !a.owner_before(b) && !b.owner_before(a);","bool same_owner(const std::weak_ptr<T>& a, const std::shared_ptr<U>& b) {\n    return same_owner(a.lock(), b);")],
 "same_owner of an expired weak_ptr and an empty shared_ptr","an expired weak_ptr counts as having no owner",
 CHECK+'''#include <xmem/std_helpers.hpp>
int main() { std::weak_ptr<int> w; { auto s = std::make_shared<int>(1); w = s; CHECK(xstd::same_owner(w, s)); } CHECK(!xstd::same_owner(w, std::shared_ptr<int>{})); return 0; }
''')
seed("c20-no-owner-expired","C20",[(SH,"    std::weak_ptr<T> e;\n    return same_owner(ptr, e);","    return ptr.expired();")],
 "no_owner of a weak_ptr whose object is gone","an expired weak_ptr is reported to have no owner",
 CHECK+'''#include <xmem/std_helpers.hpp>
int main() { std::weak_ptr<int> w; CHECK(xstd::no_owner(w)); { auto s = std::make_shared<int>(1); w = s; } CHECK(!xstd::no_owner(w)); return 0; }
''')
V="/verif/seeded"; W="/tmp/seedwt"
def run(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",**k)
def wt():
    shutil.rmtree(W,ignore_errors=True); run("cp -a /repo %s && git -C %s checkout -q -- ."%(W,W))
def write(s):
    id,prop,edits,needs,breaks,demo,files,flags=s
    wt()
    for f,a,b in edits:
        p=W+"/code/xmem/"+f; t=open(p).read()
        if a not in t: print(id,"NOT FOUND",repr(a[:80])); return
        open(p,"w").write(t.replace(a,b,1))
    d=run("git -C %s diff"%W).stdout; assert d
    o=os.path.join(V,id); shutil.rmtree(o,ignore_errors=True); os.makedirs(o)
    open(o+"/patch.diff","w").write(d); open(o+"/demo.cpp","w").write(demo)
    for n,c in files.items(): open(o+"/"+n,"w").write(c)
    open(o+"/demo.sh","w").write('#!/bin/bash\n# run in /repo: exit 0 if the property holds, nonzero otherwise\nhere="$(cd "$(dirname "$0")" && pwd)"\nt="$(mktemp -d)" || exit 3\ntrap \'rm -rf "$t"\' EXIT\ng++ -std=c++17 -g -O1 %s -Icode -I"$here" "$here/demo.cpp" -o "$t/demo" 2> "$t/log" || { cat "$t/log"; exit 2; }\ntimeout 60 "$t/demo"\n'%flags)
    os.chmod(o+"/demo.sh",0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(o+"/meta.json","w"),indent=1)
def check(s):
    id=s[0]; o=os.path.join(V,id); wt()
    a=run("bash %s/demo.sh"%o,cwd=W); p=run("git apply %s/patch.diff"%o,cwd=W); b=run("bash %s/demo.sh"%o,cwd=W)
    shutil.rmtree(W)
    bad=[]
    if a.returncode: bad.append("demo fails on the unchanged tree: "+a.stdout[-300:])
    if p.returncode: bad.append("does not apply: "+p.stdout)
    if b.returncode in (0,2,3): bad.append("demo %d with the patch: %s"%(b.returncode,b.stdout[-300:]))
    print("%-36s %s (%d: %s)"%(id,"ok" if not bad else bad,b.returncode,b.stdout.strip()[-90:]),flush=True)
if __name__=="__main__":
    sel=[s for s in SEEDS if len(sys.argv)<3 or s[0] in sys.argv[2:]]
    for s in sel:
        if sys.argv[1]=="write": write(s)
        check(s)
