#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so the statements stay reviewable).
import json
H = "code/xmem/"
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[H+f for f in files],
            state=[dict(name=a, meaning=b, where=H+c) for a,b,c in state],
            mechanism=[dict(name=a, where=H+b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook))
props = [
P("C01","use_count is exactly the number of strong owners",
  "For every history of constructions, copies, moves, conversions, aliasings, swaps, resets, assignments, locks and destructions of shared pointers, the use count of a control block changes by exactly the change in the number of shared pointers that own through it. So between calls it equals that number, ownerless pointers report 0, and no operation touches the count of a control block that none of its operands owns.",
  ["histories","inputs"],"every operation, every combination of owners of its operands (none, same, different), any number of other owners, every convertible pointee type, any control block type",
  "The runnable tests only exercise a bare counter with one fixed sequence; no shared pointer is executed at all, and no test can enumerate all histories, owner combinations and other-owner counts.",
  ["basic_shared_ptr.hpp","basic_weak_ptr.hpp","common_control_block.hpp","basic_shared_from.hpp"],
  [("init_new/init_from_copy/init_from_move","basic_shared_ptr.hpp"),("inc/dec_strong_ref","common_control_block.hpp")],
  [("strong count","number of strong owners","common_control_block.hpp")],["use_count()"]),
P("C02","Managed object destroyed exactly once, with its last strong owner",
  "A managed object is destroyed exactly once, at the moment its last strong owner stops owning it: never while a strong owner exists, never a second time, and never skipped. Weak pointers and raw copies of the pointer do not prolong its life.",
  ["histories","inputs"],"every operation that can drop an owner, any number of other strong and weak owners, both reference count types and every control block type",
  "Tests sample a few scopes; early, late or double destruction depends on count values and operand combinations they never produce.",
  ["basic_shared_ptr.hpp","common_control_block.hpp"],
  [("dec_strong_ref","common_control_block.hpp"),("~basic_shared_ptr, assignment, reset","basic_shared_ptr.hpp")],(),["calls of the managed object's destructor / deleter"]),
P("C03","Control block outlives every handle and is freed exactly once",
  "A control block stays valid as long as at least one strong or weak pointer refers to it, and it is freed exactly once, when the last of them is gone and after the managed object has been destroyed. No pointer operation touches a control block after it was freed, and weak pointers change only the weak side of the accounting.",
  ["histories","inputs"],"every weak and strong pointer operation, any number of other owners, order of the last releases",
  "Needs every combination of remaining strong and weak owners at the moment of release; the existing tests run no weak pointer.",
  ["basic_weak_ptr.hpp","common_control_block.hpp"],
  [("inc/dec_weak_ref, implicit weak reference of the strong owners","common_control_block.hpp"),("weak pointer constructors and assignments","basic_weak_ptr.hpp")],
  [("weak count","weak owners plus one for all strong owners together","common_control_block.hpp")],["deallocation of the control block"]),
P("C04","lock() owns if and only if the object is still owned",
  "Locking a weak pointer gives a shared pointer that owns the object and points where the weak pointer points if at least one strong owner exists at that instant, and an empty pointer otherwise; an expired object is never resurrected and a failed lock leaves no trace. expired() and use_count() of weak pointers report the same strong count, whatever other threads do between the steps.",
  ["schedules","histories"],"all weak pointers (empty, live, expired, aliased), all interleavings of other owners' steps between the steps of lock",
  "The race between the last release and a lock shows up only in particular interleavings; a test cannot schedule all of them.",
  ["basic_weak_ptr.hpp","common_control_block.hpp","atomic_ref_count.hpp","local_ref_count.hpp"],
  [("lock","basic_weak_ptr.hpp"),("inc_strong_ref_nz / inc_nz","common_control_block.hpp")],(),["lock(), expired(), use_count()"]),
P("C05","Reference count operations are single atomic steps",
  "Under every interleaving each increment adds exactly one, each decrement subtracts exactly one and returns the value it produced (so exactly one of the concurrent decrements sees zero), and increment-if-not-zero either adds one to a non-zero count and returns the new value or changes nothing and returns 0. A read changes nothing and returns a value the count had during the call; the single-threaded counter obeys the same sequential specification. No operation waits: it ends as soon as other threads leave the count alone.",
  ["schedules","inputs"],"every initial count (up to the documented 32-bit capacity), every interference by other threads before each step, any number of failed exchange attempts",
  "The unit test checks one single-threaded sequence starting from 1; lost updates and spurious failures need specific interleavings and counts.",
  ["atomic_ref_count.hpp","local_ref_count.hpp"],
  [("fetch_add/fetch_sub/compare_exchange loop","atomic_ref_count.hpp"),("plain counter","local_ref_count.hpp")],(),["inc, dec, inc_nz, count"]),
P("C06","Releases happen-before destruction",
  "Everything any thread did through a strong (or weak) pointer before giving it up is ordered before the destruction of the managed object (or the freeing of the control block) by whichever thread performs it. In particular giving up a reference publishes prior writes, and the thread that drops the count to zero synchronises with all of them before it destroys anything.",
  ["schedules"],"all executions of the C++ memory model with any number of threads sharing the thread-safe pointers",
  "Missing ordering is invisible on x86 and in single runs; no test input can exhibit it reliably.",
  ["atomic_ref_count.hpp","common_control_block.hpp"],
  [("acq_rel decrement","atomic_ref_count.hpp"),("destroy_resource / destroy_self after a decrement to zero","common_control_block.hpp")],(),["order of decrement and destruction"]),
P("C07","Control block hooks describe the set of live handles exactly",
  "A custom control block is told about every strong and weak pointer under that pointer's own address: once when it starts to own, once when it stops, and by a transfer naming destination and source when ownership moves from one pointer object to another. At every moment control can leave the library, the set of addresses reported and not yet withdrawn equals the set of pointer objects owning through that block, and a failed lock reports nothing.",
  ["histories","inputs"],"every control block type, every pointer operation, every combination of operand owners including self-assignment and equal owners",
  "The bookkeeping tests are not runnable here and check only a few sequences; the hook protocol must hold for every operation and operand combination.",
  ["basic_shared_ptr.hpp","basic_weak_ptr.hpp","basic_shared_from.hpp"],
  [("init_strong, inc/dec_strong_ref, transfer_strong calls","basic_shared_ptr.hpp"),("inc/dec_weak_ref, transfer_weak calls","basic_weak_ptr.hpp")],(),["calls received by the control block"]),
P("C08","Copy, move, conversion, aliasing and swap carry pointer and owner",
  "After copying, converting, moving, aliasing, swapping or resetting shared and weak pointers, every operand has exactly the pointer value and owner the operation defines: copies agree with their source and leave it alone, moved-from pointers are empty, swap exchanges both parts, aliasing combines the source's owner with the given pointer, conversion applies the pointer conversion (null stays null). Nothing but the operands is modified.",
  ["inputs","histories"],"all pointer values, all owners, base/derived/void/const conversions including multiple inheritance, ownerless non-null pointers, self-operations",
  "Tests check selected values and types; the property ranges over all pointer values, owner combinations and conversions.",
  ["basic_shared_ptr.hpp","basic_weak_ptr.hpp","cb_ptr_pair.hpp"],
  [("owner/pointer pair","cb_ptr_pair.hpp"),("special members, swap, reset","basic_shared_ptr.hpp"),("special members, swap, reset","basic_weak_ptr.hpp")],(),["get(), owner(), t_owner(), bool conversion"]),
P("C09","Assignment and reset are safe under aliasing and re-entrancy",
  "Assigning to or resetting a shared pointer is safe when the release destroys the object that contains the source, the target, or both (head = head->next, self.reset()), when source and target are the same object, and when the destroyed object's destructor uses the very pointers involved. Whenever user code runs inside an operation, every pointer it can reach is in a valid state, and the operation never touches an operand after that user code may have changed or destroyed it.",
  ["histories","inputs"],"every assignment and reset, every placement of the operands inside or outside the object being released, every re-entrant use by its destructor",
  "Needs particular ownership topologies and destructors that call back; none of the tests builds one.",
  ["basic_shared_ptr.hpp","basic_weak_ptr.hpp","unique_ptr.hpp"],
  [("operator=, reset","basic_shared_ptr.hpp"),("operator=, reset","unique_ptr.hpp")],(),["state of the operands when a destructor or deleter runs"]),
P("C10","Casts and make_aliased share ownership or yield null",
  "static, const, reinterpret and dynamic pointer casts and make_aliased give a pointer with the source's owner and exactly the pointer the language-level cast (or the caller) gives, adding one strong owner, and leave the source unchanged. When the source has no owner, or a dynamic cast fails, the result is completely empty.",
  ["inputs"],"all pointer values, owned, ownerless and null sources, all outcomes of the dynamic cast",
  "The cast tests are not runnable and sample a handful of values.",
  ["basic_shared_ptr.hpp"],
  [("make_aliased, *_pointer_cast","basic_shared_ptr.hpp")],(),["result of the cast functions"]),
P("C11","No leak and no double release when something throws",
  "If an allocation or the construction of the managed object throws while a smart pointer is created, assigned or reset, the exception reaches the caller, every allocated block is returned, no never-constructed object is destroyed, and an object already handed over is disposed of exactly once or left with its previous owner. The pointer assigned to keeps its previous value, and copying, moving, swapping shared and weak pointers, resetting and locking never throw, and are declared noexcept.",
  ["fault_sequences","inputs"],"every allocation and constructor call that can fail, in every creating or assigning operation",
  "No test injects a failure.",
  ["common_control_block.hpp","basic_shared_ptr.hpp","unique_ptr.hpp","allocator.hpp"],
  [("guarded control block creation","common_control_block.hpp"),("construction/assignment from unique_ptr","basic_shared_ptr.hpp")],(),["state after a throwing allocation or constructor"]),
P("C12","unique_ptr disposes of what it owns exactly once",
  "For every history of operations on unique pointers (single objects, arrays, with class, reference and function-pointer deleters) each non-null pointer taken over is passed to a deleter exactly once, or handed out by release and never deleted; null is never passed to a deleter. In the destructor the deleter runs before the pointer itself is invalidated; reset, assignment and moves never lose, duplicate or delete early, self-move included. A unique pointer is never copied, and no smart pointer takes a raw pointer over by an implicit conversion.",
  ["histories","inputs"],"all operations, all pointer values including null and equal, all four unique_ptr forms, self-move, re-entrant deleters",
  "No unique_ptr test runs here; upstream ones sample a few values per form.",
  ["unique_ptr.hpp","default_delete.hpp"],
  [("destructor, reset, release, move","unique_ptr.hpp"),("delete / delete[]","default_delete.hpp")],
  [("m_ptr","the owned pointer","unique_ptr.hpp")],["calls of the deleter"]),
P("C13","unique_ptr keeps each pointer with its own deleter",
  "A pointer owned by a unique pointer is always disposed of by the deleter it was given with: moves, converting moves, assignments and swaps carry the deleter along with the pointer (a move moves it, it does not copy it), and the deleter in force is the one get_deleter reports. get, release, bool, dereference, arrow and index give exactly the owned pointer, and moved-from or released pointers are null.",
  ["inputs","histories"],"all pointer values and deleter states for class, reference and function-pointer deleters, same and converted types",
  "Upstream tests use deleters whose states are indistinguishable in most operations, and do not run here.",
  ["unique_ptr.hpp"],
  [("move constructor/assignment, swap, get_deleter","unique_ptr.hpp")],(),["deleter state used at disposal, get_deleter()"]),
P("C14","Factories build exactly the requested object with one owner",
  "make_shared, make_unique, their local, _ptr and _for_overwrite variants, and construction of a shared pointer from a raw or unique pointer (to one object or an array) give a pointer that is the only owner (use count 1) of exactly one new object constructed once from exactly the forwarded arguments with their value category (default-initialised for the overwrite variants, n value-initialised elements for arrays), or of exactly the given pointer with its deleter. Destroying the result destroys that object (every element of that array) once and returns all memory.",
  ["inputs"],"all argument values and value categories, all array lengths, null and non-null raw pointers, custom deleters",
  "Tests use a few literal arguments and cannot observe the number of owners, constructions and releases for all of them.",
  ["common_control_block.hpp","shared_ptr.hpp","local_shared_ptr.hpp","unique_ptr.hpp"],
  [("make_resource_cb, make_uptr_cb","common_control_block.hpp"),("make_* functions","shared_ptr.hpp")],(),["constructor calls and their arguments, use_count(), deleter calls"]),
P("C15","Memory goes back to the allocator it came from",
  "Every control block is obtained from (a rebound copy of) the allocator supplied by one allocation of one element, with storage that is aligned and large enough for the managed object placed inside it, and is returned exactly once, with the same address and count, to an allocator equal to that one, after the block's own members were destroyed. Default allocation and deallocation use matching forms (same alignment, array with array).",
  ["inputs","histories"],"all allocator states and managed types including over-aligned ones, any number of copies made before the release",
  "The allocator tests do not run, use one stateless allocator, and cannot see mismatched deallocation.",
  ["common_control_block.hpp","allocator.hpp","allocator_rebind.hpp","default_delete.hpp"],
  [("create / destroy_self","common_control_block.hpp"),("allocate / deallocate","allocator.hpp")],(),["allocate/deallocate calls"]),
P("C16","shared_from functions share the real owner or are empty",
  "For an object managed by a shared pointer, shared_from_this, shared_from, weak_from_this and weak_from give pointers that share its owner and point to the object (or the given address); for an object that is not managed, or whose last strong owner is gone (its destructor running), they give empty or expired pointers and leave every count unchanged. Copying or assigning such an object never copies its ownership, and creating the owner works for null pointers too.",
  ["inputs","histories"],"unmanaged, managed and expired objects, any number of other owners, all given pointers, all interleavings of other owners",
  "Expired use during destruction and the concurrent loss of the last owner are not exercised by any test.",
  ["basic_shared_from.hpp","common_control_block.hpp"],
  [("basic_enable_shared_from, basic_enable_shared_from_this","basic_shared_from.hpp"),("prepare_pair","common_control_block.hpp")],(),["results of the *_from functions, use_count()"]),
P("C17","Atomic storage operations are linearizable",
  "Each load, store, exchange and compare_exchange of the atomic shared pointer storages (xmem's and xstd's) behaves as one indivisible step on the stored pointer under every interleaving: load returns the stored value, store and exchange replace it and exchange returns the replaced one, compare_exchange replaces it and returns true exactly if it compared equal to the expected value and otherwise copies it to the expectation and returns false. Ownership counts stay exact: nothing is leaked or released twice.",
  ["schedules","inputs"],"all stored, expected and new values, every interleaving with operations of other threads",
  "Thread tests only look for crashes, and do not run here.",
  ["basic_atomic_shared_ptr_storage.hpp","bits/spinlock.hpp"],
  [("load/store/exchange/compare_exchange under the spinlock","basic_atomic_shared_ptr_storage.hpp")],(),["results of the storage operations"]),
P("C18","Atomic storage lock excludes, orders and is never held in user code",
  "The pointer inside an atomic storage is accessed only between a successful acquiring lock step and the releasing unlock step of the same thread; every operation leaves the lock released, only its holder releases it, and an operation waits only while another thread holds it. No destructor or deleter of a managed object runs while the lock is held, so objects may use the same storage from their destructors without deadlock.",
  ["schedules","histories"],"every operation, any number of failed lock attempts, every interference by other threads, every operand ownership",
  "Deadlock by re-entrancy and missing ordering need specific ownership and schedules; no test drives them.",
  ["basic_atomic_shared_ptr_storage.hpp","bits/spinlock.hpp","std_helpers.hpp"],
  [("spinlock, lock_guard","bits/spinlock.hpp"),("compare_exchange, store, exchange","basic_atomic_shared_ptr_storage.hpp")],(),["lock state when user code runs"]),
P("C19","Comparisons, owner order and printing follow the raw pointers",
  "The relational operators of shared and unique pointers give exactly the result of comparing the stored raw pointers, and the bool conversion says whether the pointer is non-null (for weak pointers whether there is an owner). same_owner holds exactly if both sides have the same control block, no_owner exactly if there is none, owner_before is a strict weak order consistent with same_owner, and stream output inserts the stored pointer.",
  ["inputs"],"all pairs (and triples) of pointer values and owners, including null and mixed pointee types, shared and weak mixes",
  "Order properties quantify over all pairs and triples; tests compare two array slots.",
  ["basic_shared_ptr.hpp","basic_weak_ptr.hpp","unique_ptr.hpp","ostream.hpp"],
  [("operator==,!=,<,<=,>,>=, same_owner, no_owner, owner_before","basic_shared_ptr.hpp"),("operator<<","ostream.hpp")],(),["results of comparisons"]),
P("C20","The std:: helpers give the same guarantees for std pointers",
  "For std::shared_ptr, std::weak_ptr and std::unique_ptr, the xstd helpers make_shared_ptr, make_unique_ptr, make_aliased, same_owner, no_owner, enable_shared_from and atomic_shared_ptr_storage give the results their xmem counterparts are specified to give: correct owner, pointer and count, empty results for ownerless sources, linearizable storage operations under the lock, and no user code while it is held.",
  ["inputs","schedules"],"all pointer values and owners, all interleavings of storage operations",
  "The std sanity tests do not run here and sample single values and schedules.",
  ["std_helpers.hpp","bits/spinlock.hpp"],
  [("xstd helpers","std_helpers.hpp"),("asps_holder","std_helpers.hpp")],(),["results of the helper functions"]),
]
with open("/verif/properties.jsonl","w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
