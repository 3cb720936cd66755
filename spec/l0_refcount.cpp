// C05 (and the order facts of C06): the two reference count classes.
#include "xspec.hpp"
#include "xmem_begin.hpp"
#include <xmem/atomic_ref_count.hpp>
#include <xmem/local_ref_count.hpp>
#include "xmem_end.hpp"

// ---------------------------------------------------------------- other threads and the step log
static uint64_t g_lo, g_hi;      // rely: other threads keep the count within [lo, hi]
static int g_size;
static int g_conc;
static int n_writes, n_reads;
static uint64_t w_old, w_new, last_read;

static int g_turns = -1;         // progress: how often the other threads still act (-1: they never stop, -2: until a loop is at an arbitrary iteration)
static int g_alone;              // accesses made while they do not

static uint64_t rd(const void* p) { return g_size == 4 ? *(const uint32_t*)p : *(const uint64_t*)p; }
static void wr(void* p, uint64_t v) { if (g_size == 4) *(uint32_t*)p = uint32_t(v); else *(uint64_t*)p = v; }

extern "C" void xs_atomic_pre(void* p, uint64_t, uint64_t) {
    if (g_turns == 0 || (g_turns == -2 && xs_headed()) || (g_turns > 0 && !xs_choose(2, "other threads act"))) {
        if (++g_alone > 16) { xs_check(false, "C05|C04: an operation ends once the other threads leave the count alone"); xs_stop(); }
        return;
    }
    if (g_turns > 0) g_turns--;
    uint64_t v = xs_nondet(32, "count set by other threads");
    xs_assume((v >= g_lo) & (v <= g_hi));
    wr(p, v);
}
extern "C" void xs_atomic_post(void*, int kind, uint64_t old, uint64_t now, int, uint64_t) {
    if (kind == 0 || kind == 3) {
        n_reads = 1; last_read = old;
    }
    else if (kind == 1) { xs_check(false, "C05: the count is overwritten by a plain store, which loses concurrent updates"); }
    else { n_writes++; w_old = old; w_new = now; }
}
extern "C" void xs_plain_access(void*, uint64_t, int, uint64_t) {
    xs_check(false, "C05: the shared count is accessed non-atomically");
}
extern "C" void xs_fence(int) {}

template <typename RC>
struct cell {
    void* mem; RC* rc; uint64_t v;
    cell(bool conc, uint64_t lo, uint64_t hi) {
        mem = xs_region(sizeof(RC), alignof(RC), "counter");
        { xs_lib l; rc = new (mem) RC(); }
        { xs_lib l; v = rc->count(); }
        xs_require(v == 1, "C05: a fresh count is 1");
        g_size = sizeof(RC);
        g_lo = lo; g_hi = hi; g_conc = conc;
        n_writes = n_reads = 0;
        v = xs_nondet(32, "count");
        xs_assume((v >= lo) & (v <= hi));
        wr(mem, v);
        uint64_t c;
        { xs_lib l; c = rc->count(); }
        xs_require(c == v, "C05: count() reports the stored count");
        n_writes = n_reads = 0;
        if (conc) xs_share(mem, sizeof(RC), 1);
        xs_frame_begin();
        xs_frame_allow(mem, sizeof(RC));
    }
    void done() { xs_frame_end(); xs_unshare(); xs_cover("end"); }
};

template <typename RC> void seq() {
    int op = xs_choose(4, "operation");
    uint64_t lo = op == 1 ? 1 : 0;
    cell<RC> c(false, lo, 0xfffffffeull);
    uint64_t r;
    if (op == 0) {
        { xs_lib l; r = c.rc->inc(); }
        xs_check(r == c.v + 1, "C05: inc returns the new count");
        xs_check(rd(c.mem) == c.v + 1, "C05: inc adds exactly one");
    }
    else if (op == 1) {
        { xs_lib l; r = c.rc->dec(); }
        xs_check(r == c.v - 1, "C05: dec returns the new count");
        xs_check(rd(c.mem) == c.v - 1, "C05: dec subtracts exactly one");
    }
    else if (op == 2) {
        { xs_lib l; r = c.rc->count(); }
        xs_check(r == c.v, "C05: count returns the count");
        xs_check(rd(c.mem) == c.v, "C05: count changes nothing");
    }
    else {
        { xs_lib l; r = c.rc->inc_nz(); }
        xs_check(r == xs_ite(c.v == 0, 0, c.v + 1), "C05: inc_nz returns the new count, or 0 for a zero count");
        xs_check(rd(c.mem) == xs_ite(c.v == 0, 0, c.v + 1), "C05: inc_nz adds one to a non-zero count and leaves zero alone");
    }
    c.done();
}
CONTRACT(local_rc_seq, "C05", "local_ref_count: sequential specification of inc, dec, inc_nz, count") { seq<xmem::local_ref_count>(); }
CONTRACT(atomic_rc_seq, "C05", "atomic_ref_count: sequential specification of inc, dec, inc_nz, count") { seq<xmem::atomic_ref_count>(); }

CONTRACT(atomic_rc_inc, "C05", "atomic_ref_count::inc is one atomic step adding one, under any interference") {
    cell<xmem::atomic_ref_count> c(true, 0, 0xfffffffeull);
    uint64_t r; { xs_lib l; r = c.rc->inc(); }
    xs_require(n_writes == 1, "C05: inc is exactly one atomic modification");
    xs_check(w_new == w_old + 1, "C05: inc adds exactly one to the count other threads left");
    xs_check(r == w_new, "C05: inc returns the value it produced");
    c.done();
}
CONTRACT(atomic_rc_dec, "C05", "atomic_ref_count::dec is one atomic step subtracting one, under any interference") {
    cell<xmem::atomic_ref_count> c(true, 1, 0xffffffffull);
    uint64_t r; { xs_lib l; r = c.rc->dec(); }
    xs_require(n_writes == 1, "C05: dec is exactly one atomic modification");
    xs_check(w_new == w_old - 1, "C05: dec subtracts exactly one from the count other threads left");
    xs_check(r == w_new, "C05: dec returns the value it produced");
    c.done();
}
CONTRACT(atomic_rc_count, "C05", "atomic_ref_count::count reads a value the count had") {
    cell<xmem::atomic_ref_count> c(true, 0, 0xffffffffull);
    uint64_t r; { xs_lib l; r = c.rc->count(); }
    xs_check(n_writes == 0, "C05: count modifies nothing");
    xs_require(n_reads == 1, "C05: count reads the count");
    xs_check(r == last_read, "C05: count returns a value the count had");
    c.done();
}
CONTRACT(atomic_rc_inc_nz, "C05 C04", "atomic_ref_count::inc_nz under any interference and any number of failed exchanges") {
    cell<xmem::atomic_ref_count> c(true, 0, 0xfffffffeull);
    uint64_t r; { xs_lib l; r = c.rc->inc_nz(); }
    if (n_writes == 0) {
        xs_check(r == 0, "C05|C04: inc_nz that changes nothing returns 0");
        xs_require(n_reads == 1, "C05: inc_nz reads the count");
        xs_check(last_read == 0, "C05|C04: inc_nz gives up only when the count was zero");
        xs_cover("gave up");
    }
    else {
        xs_require(n_writes == 1, "C05: inc_nz is at most one atomic modification");
        xs_check(w_old != 0, "C05|C04: inc_nz never increments a zero count");
        xs_check(w_new == w_old + 1, "C05: inc_nz adds exactly one to the count other threads left");
        xs_check(r == w_new, "C05|C04: inc_nz returns the value it produced");
        xs_cover("incremented");
    }
    c.done();
}
// progress. First from an arbitrary iteration of every loop on: with the other threads acting it re-establishes the invariant
// (kind 0), without them the operation ends (kind 1).  Then, to have inputs to replay, with the loops as they are and the other
// threads acting before at most three accesses, whichever they are.
static void progress(int kind) {
    int op = xs_choose(4, "operation");
    cell<xmem::atomic_ref_count> c(true, op == 1 ? 1 : 0, 0xfffffffeull);
    g_turns = kind == 2 ? 3 : kind ? -2 : -1; g_alone = 0;
    if (kind == 1) xs_through(1);
    uint64_t r;
    { xs_lib l; if (kind == 2) xs_mode(2); r = op == 0 ? c.rc->inc() : op == 1 ? c.rc->dec() : op == 2 ? c.rc->count() : c.rc->inc_nz(); }
    g_turns = -1; xs_through(0);
    if (op != 2) xs_check(n_writes == 1 || (op == 3 && n_writes == 0 && last_read == 0 && r == 0), "C05|C04: an operation ends by doing what it is for");
    if (xs_headed()) xs_cover("from an arbitrary iteration");
    c.done();
}
CONTRACT(atomic_rc_progress, "C05 C04", "every operation of atomic_ref_count ends once the other threads leave the count alone, however long they did not") { progress(xs_choose(2, "kind")); }
CONTRACT(atomic_rc_progress_few, "C05 C04", "BOUNDED to three interferences, for replay: every operation of atomic_ref_count ends once the other threads leave the count alone") { progress(2); }
