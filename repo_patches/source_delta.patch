From 8114806d77b7890f6030020c0c6089d9f88c8dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 01/16] fix: basic_shared_ptr assignment releases the old value
 last

Releasing first may destroy the source (head = head->next) or re-enter
*this while it still refers to the released control block.
---
 code/xmem/basic_shared_ptr.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index d80a1e6..a76c1c4 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -29,8 +29,7 @@ public:
     }
     basic_shared_ptr& operator=(const basic_shared_ptr& r) noexcept {
         if (&r == this) return *this; // self usurp
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_copy(r.m);
+        basic_shared_ptr(r).swap(*this); // release last: r may be owned by what we release
         return *this;
     }
 
@@ -40,8 +39,7 @@ public:
     }
     template <typename U>
     basic_shared_ptr& operator=(const basic_shared_ptr<CBF, U>& r) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_copy(r.m);
+        basic_shared_ptr(r).swap(*this);
         return *this;
     }
 
@@ -50,8 +48,7 @@ public:
     }
     basic_shared_ptr& operator=(basic_shared_ptr&& r) noexcept {
         if (&r == this) return *this; // self usurp
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_move(r);
+        basic_shared_ptr(std::move(r)).swap(*this); // release last: r may be owned by what we release
         return *this;
     }
 
@@ -61,8 +58,7 @@ public:
     }
     template <typename U>
     basic_shared_ptr& operator=(basic_shared_ptr<CBF, U>&& r) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_move(r);
+        basic_shared_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From 9ce45c7d97b0edbf00d2e51a7de1c9b69bc5cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 02/16] fix: basic_shared_ptr::reset empties the pointer before
 releasing

The release may destroy *this or re-enter it.
---
 code/xmem/basic_shared_ptr.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index a76c1c4..f0baf33 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -97,8 +97,7 @@ public:
     }
 
     void reset(std::nullptr_t = nullptr) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        m.reset();
+        basic_shared_ptr().swap(*this); // become empty first: the release may destroy or use *this
     }
 
     template <typename U>
-- 
2.43.0


From 3ad33919940a650eba91182aa34b9dce81b89b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 03/16] fix: assigning a unique_ptr to a shared_ptr keeps the
 old value on exception

The old control block was released before the new one was allocated and
was released again later when the allocation threw.
---
 code/xmem/basic_shared_ptr.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index f0baf33..034faa1 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -69,8 +69,7 @@ public:
 
     template <typename U, typename D>
     basic_shared_ptr& operator=(unique_ptr<U, D>&& uptr) {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_new(CBF::make_uptr_cb(uptr));
+        basic_shared_ptr(std::move(uptr)).swap(*this); // may throw, so don't release before that
         return *this;
     }
 
-- 
2.43.0


From 3d9d975c860d8b06b770db035c4d392037cc61d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 04/16] fix: basic_shared_ptr::reset(ptr, deleter) uses the
 deleter given

---
 code/xmem/basic_shared_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index 034faa1..1f1dcb2 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -106,7 +106,7 @@ public:
 
     template <typename U, typename D>
     void reset(U* u, D d) {
-        operator=(unique_ptr<U>(u, std::move(d)));
+        operator=(unique_ptr<U, D>(u, std::move(d)));
     }
 
     template <typename U, typename D, typename A>
-- 
2.43.0


From 6444f0e25b1208f4fd5fb7d485a4cfd2dc2f8120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 05/16] fix: shared_from functions don't release what they
 failed to acquire

When the object was expired the local result still referred to the control
block and its destructor dropped a reference which it never had.
---
 code/xmem/basic_shared_from.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/code/xmem/basic_shared_from.hpp b/code/xmem/basic_shared_from.hpp
index ae73a3d..ffd63a2 100644
--- a/code/xmem/basic_shared_from.hpp
+++ b/code/xmem/basic_shared_from.hpp
@@ -27,14 +27,14 @@ protected:
     basic_enable_shared_from& operator=(const basic_enable_shared_from&) { return *this; }
 
     sptr<void> shared_from_this() {
-        sptr<void> ret(m);
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        sptr<void> ret;
+        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = m;
+        return ret;
     }
     sptr<const void> shared_from_this() const {
-        sptr<const void> ret(m);
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        sptr<const void> ret;
+        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = m;
+        return ret;
     }
     wptr<void> weak_from_this() { return wptr<void>{m}; }
     wptr<const void> weak_from_this() const { return wptr<const void>{m}; }
@@ -42,9 +42,9 @@ protected:
     template <typename T>
     sptr<T> shared_from(T* ptr) const {
         cb_ptr_pair<control_block_type, T> alias{m.cb, ptr};
-        sptr<T> ret{alias};
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        sptr<T> ret;
+        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = alias;
+        return ret;
     }
 
     template <typename T>
-- 
2.43.0


From 65a547ecc481ad0744581e92d72dac07aca98b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 06/16] fix: shared_ptr from a null unique_ptr to an
 enable_shared_from type

---
 code/xmem/common_control_block.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index adb4f59..8033ff0 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -97,9 +97,11 @@ struct control_block_factory {
     static pair<T> prepare_pair(cb_type* cb, T* ptr) noexcept {
         using ebf_type = basic_enable_shared_from<control_block_factory>;
         if constexpr (std::is_base_of_v<ebf_type, T>) {
-            ebf_type* ebf = ptr;
-            ebf->m.cb = cb;
-            ebf->m.ptr = ptr;
+            if (ptr) {
+                ebf_type* ebf = ptr;
+                ebf->m.cb = cb;
+                ebf->m.ptr = ptr;
+            }
         }
         return {cb, ptr};
     }
-- 
2.43.0


From 851a773d336c3ef15b790c0cbd544bdd52c861c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 07/16] fix: unique_ptr::swap swaps the deleters too

Otherwise each pointer ends up with the deleter of the other one.
---
 code/xmem/unique_ptr.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index b1f714a..74c9a1f 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -97,7 +97,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        if constexpr (!std::is_empty_v<D>) std::swap(get_deleter(), other.get_deleter());
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -172,7 +175,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(m_deleter, other.m_deleter);
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -232,7 +238,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(m_deleter, other.m_deleter);
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -282,7 +291,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        if constexpr (!std::is_empty_v<D>) std::swap(get_deleter(), other.get_deleter());
+    }
     using common::release;
     using common::operator bool;
     using common::get;
-- 
2.43.0


From 70c2653ed01aba4b36228f686e91a42fd68b17a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 08/16] fix: atomic storage compare_exchange doesn't release
 under the lock

The old value of expect was released while the spinlock was held, so an
object which uses the same storage in its destructor would deadlock.
---
 code/xmem/basic_atomic_shared_ptr_storage.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/code/xmem/basic_atomic_shared_ptr_storage.hpp b/code/xmem/basic_atomic_shared_ptr_storage.hpp
index 7e38ac1..42eddac 100644
--- a/code/xmem/basic_atomic_shared_ptr_storage.hpp
+++ b/code/xmem/basic_atomic_shared_ptr_storage.hpp
@@ -38,15 +38,17 @@ public:
     }
 
     bool compare_exchange(shared_pointer_type& expect, shared_pointer_type ptr) noexcept {
-        impl::spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
-            m_ptr.swap(ptr);
-            return true;
-        }
-        else {
-            expect = m_ptr;
-            return false;
+        shared_pointer_type cur;
+        {
+            impl::spinlock::lock_guard _l(m_spinlock);
+            if (m_ptr == expect) {
+                m_ptr.swap(ptr);
+                return true;
+            }
+            cur = m_ptr;
         }
+        expect.swap(cur); // the old value of expect must not be released under the lock
+        return false;
     }
 };
 
-- 
2.43.0


From b8a94fd0bfc6d357aa37e495f2b6bda33c06bab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 09/16] fix: xstd atomic storage compare_exchange doesn't
 release under the lock

---
 code/xmem/std_helpers.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/code/xmem/std_helpers.hpp b/code/xmem/std_helpers.hpp
index cea48f3..b7d75ac 100644
--- a/code/xmem/std_helpers.hpp
+++ b/code/xmem/std_helpers.hpp
@@ -121,15 +121,17 @@ public:
 
     // have _strong to match atomic<shared_ptr>
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
-        xmem::impl::spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
-            m_ptr.swap(ptr);
-            return true;
-        }
-        else {
-            expect = m_ptr;
-            return false;
+        sptr cur;
+        {
+            xmem::impl::spinlock::lock_guard _l(m_spinlock);
+            if (m_ptr == expect) {
+                m_ptr.swap(ptr);
+                return true;
+            }
+            cur = m_ptr;
         }
+        expect.swap(cur); // the old value of expect must not be released under the lock
+        return false;
     }
 };
 #endif
-- 
2.43.0


From c0240b29fb2ffb324c029d5ef5f120011397e452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 10/16] fix: make_shared of a class that overloads unary &

control_block_resource::obj() used the object's own operator&
---
 code/xmem/common_control_block.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 8033ff0..05919a9 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -72,7 +72,7 @@ public:
     }
 
     [[nodiscard]] T* obj() {
-        return &m_obj;
+        return std::addressof(m_obj);
     }
 
     virtual void destroy_resource() noexcept override { m_obj.~T(); }
-- 
2.43.0


From 7e0155084fc1ad2898b88ee2c374e84f22fc7146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 11/16] fix: unique_ptr with a reference to a deleter that
 overloads unary &

---
 code/xmem/unique_ptr.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index 74c9a1f..ae63647 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -5,6 +5,7 @@
 #include "default_delete.hpp"
 
 #include <cstddef> // nullptr_t, size_t
+#include <memory> // std::addressof
 #include <utility> // std::forward, std::swap
 
 namespace xmem {
@@ -138,8 +139,8 @@ public:
     using element_type = T;
     using deleter_type = D&;
 
-    unique_ptr(pointer p, D& d) noexcept : common(p), m_deleter(&d) {}
-    explicit unique_ptr(D& d) noexcept : common(nullptr), m_deleter(&d) {}
+    unique_ptr(pointer p, D& d) noexcept : common(p), m_deleter(std::addressof(d)) {}
+    explicit unique_ptr(D& d) noexcept : common(nullptr), m_deleter(std::addressof(d)) {}
     ~unique_ptr() {
         if (this->m_ptr) {
             (*m_deleter)(this->m_ptr);
@@ -151,19 +152,19 @@ public:
         return *this;
     }
 
-    unique_ptr(unique_ptr&& other) noexcept : common(other.release()), m_deleter(&other.get_deleter()) {}
+    unique_ptr(unique_ptr&& other) noexcept : common(other.release()), m_deleter(std::addressof(other.get_deleter())) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
         reset(other.release());
-        m_deleter = &other.get_deleter();
+        m_deleter = std::addressof(other.get_deleter());
         return *this;
     }
 
     template <typename U, typename D2>
-    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), m_deleter(&other.get_deleter()) {}
+    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), m_deleter(std::addressof(other.get_deleter())) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
         reset(other.release());
-        m_deleter = &other.get_deleter();
+        m_deleter = std::addressof(other.get_deleter());
         return *this;
     }
 
-- 
2.43.0


From 5cc78f7a6a82d7bb40f6a3f56220d5ca73f2d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 12/16] fix: make_shared of a class with an operator new of its
 own

The class's operator new hid the placement form (or was used instead of it)
---
 code/xmem/common_control_block.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 05919a9..ab02f58 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -120,7 +120,7 @@ struct control_block_factory {
     [[nodiscard]] static pair<T> make_resource_cb(Alloc a, Args&&... args) {
         using rsrc_type = control_block_resource<cb_type, T, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (tmp->obj()) T(std::forward<Args>(args)...);
+        ::new (static_cast<void*>(tmp->obj())) T(std::forward<Args>(args)...);
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
@@ -129,7 +129,7 @@ struct control_block_factory {
     [[nodiscard]] static pair<T> make_resource_cb_for_overwrite(Alloc a) {
         using rsrc_type = control_block_resource<cb_type, T, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (tmp->obj()) T;
+        ::new (static_cast<void*>(tmp->obj())) T;
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
-- 
2.43.0


From 92cfdb9b806f181995329ae8f4d5640b5dbb93c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:49 +0000
Subject: [PATCH 13/16] fix: make_shared of a const object

It didn't compile, and so neither did make_shared_ptr of a const lvalue
---
 code/xmem/common_control_block.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index ab02f58..e6b4203 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -120,7 +120,7 @@ struct control_block_factory {
     [[nodiscard]] static pair<T> make_resource_cb(Alloc a, Args&&... args) {
         using rsrc_type = control_block_resource<cb_type, T, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        ::new (static_cast<void*>(tmp->obj())) T(std::forward<Args>(args)...);
+        ::new (const_cast<void*>(static_cast<const volatile void*>(tmp->obj()))) T(std::forward<Args>(args)...);
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
@@ -129,7 +129,7 @@ struct control_block_factory {
     [[nodiscard]] static pair<T> make_resource_cb_for_overwrite(Alloc a) {
         using rsrc_type = control_block_resource<cb_type, T, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        ::new (static_cast<void*>(tmp->obj())) T;
+        ::new (const_cast<void*>(static_cast<const volatile void*>(tmp->obj()))) T;
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
-- 
2.43.0


From cecd6633ae9ba0a4501883578806e8edaf3d7ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:33 +0000
Subject: [PATCH 14/16] fix: owners of const enable_shared_from objects

shared_ptr<const T> of a const T* or unique_ptr<const T>, and make_shared<const T>,
didn't compile for such T
---
 code/xmem/basic_shared_from.hpp    | 2 +-
 code/xmem/common_control_block.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/xmem/basic_shared_from.hpp b/code/xmem/basic_shared_from.hpp
index ffd63a2..7c0e8a5 100644
--- a/code/xmem/basic_shared_from.hpp
+++ b/code/xmem/basic_shared_from.hpp
@@ -17,7 +17,7 @@ class basic_enable_shared_from {
     friend CBF;
 
     using control_block_type = typename CBF::cb_type;
-    cb_ptr_pair<control_block_type, void> m;
+    mutable cb_ptr_pair<control_block_type, void> m; // also set for const objects
 protected:
     basic_enable_shared_from() : m(nullptr) {}
     ~basic_enable_shared_from() = default;
diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index e6b4203..9c8bd74 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -98,9 +98,9 @@ struct control_block_factory {
         using ebf_type = basic_enable_shared_from<control_block_factory>;
         if constexpr (std::is_base_of_v<ebf_type, T>) {
             if (ptr) {
-                ebf_type* ebf = ptr;
+                const ebf_type* ebf = ptr;
                 ebf->m.cb = cb;
-                ebf->m.ptr = ptr;
+                ebf->m.ptr = const_cast<std::remove_cv_t<T>*>(ptr);
             }
         }
         return {cb, ptr};
-- 
2.43.0


From ef58f84f1d870ec74af8bdf9c759c0fb827695e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:26 +0000
Subject: [PATCH 15/16] fix: delete the array given to a shared_ptr to an array
 as one

shared_ptr<T[]>(new T[n]) and reset(new T[n]) used scalar delete.
---
 code/xmem/basic_shared_ptr.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index 1f1dcb2..a4c44bf 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -13,8 +13,20 @@ class basic_weak_ptr;
 template <typename CBF>
 class basic_enable_shared_from;
 
+namespace impl {
+// how a plain U* given to a shared pointer of T is deleted
+template <typename T, typename U>
+struct sptr_default_delete { using type = default_delete<U>; };
+template <typename T, typename U>
+struct sptr_default_delete<T[], U> { using type = default_delete<U[]>; };
+template <typename T, size_t N, typename U>
+struct sptr_default_delete<T[N], U> { using type = default_delete<U[]>; };
+}
+
 template <typename CBF, typename T>
 class basic_shared_ptr {
+    template <typename U>
+    using default_uptr = unique_ptr<U, typename impl::sptr_default_delete<T, U>::type>;
 public:
     using element_type = std::remove_extent_t<T>;
     using control_block_type = typename CBF::cb_type;
@@ -77,7 +89,7 @@ public:
     basic_shared_ptr(std::nullptr_t, D d) : basic_shared_ptr(unique_ptr<T, D>(nullptr, std::move(d))) {}
 
     template <typename U>
-    explicit basic_shared_ptr(U* p) : basic_shared_ptr(unique_ptr<U>(p)) {}
+    explicit basic_shared_ptr(U* p) : basic_shared_ptr(default_uptr<U>(p)) {}
 
     template <typename U, typename D>
     basic_shared_ptr(U* p, D d) : basic_shared_ptr(unique_ptr<U, D>(p, std::move(d))) {}
@@ -101,7 +113,7 @@ public:
 
     template <typename U>
     void reset(U* u) {
-        operator=(unique_ptr<U>(u));
+        operator=(default_uptr<U>(u));
     }
 
     template <typename U, typename D>
-- 
2.43.0


From 76bc3228d17bd70a64ec3144284ed73baacc48aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 16/16] fix: let a shared_ptr to an array be made of a
 unique_ptr to one

It did not compile: the pair made had the array type as its element.
---
 code/xmem/common_control_block.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 9c8bd74..08e4136 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -107,7 +107,7 @@ struct control_block_factory {
     }
 
     template <typename T, typename Del, typename Alloc = allocator<char>>
-    [[nodiscard]] static pair<T> make_uptr_cb(unique_ptr<T, Del>& uptr, Alloc a = {}) {
+    [[nodiscard]] static pair<std::remove_extent_t<T>> make_uptr_cb(unique_ptr<T, Del>& uptr, Alloc a = {}) {
         using uptr_type = unique_ptr<T, Del>;
         using rsrc_type = control_block_resource<cb_type, uptr_type, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-- 
2.43.0

