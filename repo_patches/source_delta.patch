From 712922367e0f3295180f1e960506e032c3ab4fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:31 +0000
Subject: [PATCH 01/19] fix: unique_ptr::swap must exchange the deleters
 together with the pointers

---
 code/xmem/unique_ptr.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index b1f714a..0d2a174 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -97,7 +97,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(get_deleter(), other.get_deleter());
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -172,7 +175,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(m_deleter, other.m_deleter);
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -232,7 +238,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(m_deleter, other.m_deleter);
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -282,7 +291,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(get_deleter(), other.get_deleter());
+    }
     using common::release;
     using common::operator bool;
     using common::get;
-- 
2.43.0


From 392f03ed96f56d07817e755c8f69ffca13eb1919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 02/19] fix: shared_ptr assignment and reset must acquire the
 new value before releasing the old one

Releasing first reads freed memory when the source is owned by the released
object (head = head->next), writes to freed memory when a pointer owned by its
own object is reset, and leaves a dangling pointer behind when the creation of
the new control block throws.
---
 code/xmem/basic_shared_ptr.hpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index d80a1e6..cd27449 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -29,8 +29,8 @@ public:
     }
     basic_shared_ptr& operator=(const basic_shared_ptr& r) noexcept {
         if (&r == this) return *this; // self usurp
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_copy(r.m);
+        // acquire before releasing: r may be owned by what we're about to release
+        basic_shared_ptr(r).swap(*this);
         return *this;
     }
 
@@ -40,8 +40,7 @@ public:
     }
     template <typename U>
     basic_shared_ptr& operator=(const basic_shared_ptr<CBF, U>& r) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_copy(r.m);
+        basic_shared_ptr(r).swap(*this);
         return *this;
     }
 
@@ -50,8 +49,7 @@ public:
     }
     basic_shared_ptr& operator=(basic_shared_ptr&& r) noexcept {
         if (&r == this) return *this; // self usurp
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_move(r);
+        basic_shared_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
@@ -61,8 +59,7 @@ public:
     }
     template <typename U>
     basic_shared_ptr& operator=(basic_shared_ptr<CBF, U>&& r) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_move(r);
+        basic_shared_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
@@ -73,8 +70,7 @@ public:
 
     template <typename U, typename D>
     basic_shared_ptr& operator=(unique_ptr<U, D>&& uptr) {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_new(CBF::make_uptr_cb(uptr));
+        basic_shared_ptr(std::move(uptr)).swap(*this);
         return *this;
     }
 
@@ -101,8 +97,7 @@ public:
     }
 
     void reset(std::nullptr_t = nullptr) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        m.reset();
+        basic_shared_ptr().swap(*this);
     }
 
     template <typename U>
-- 
2.43.0


From a315d94e7a43125ab0d817f6d4f22d7ca8733326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 03/19] fix: failed shared_from must not drop a reference which
 it never took

On an expired owner (e.g. in the object's destructor) the local pointer was
already holding the control block, so its destructor decremented the zero
strong count and the owner's weak pointers stopped being expired.
---
 code/xmem/basic_shared_from.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/code/xmem/basic_shared_from.hpp b/code/xmem/basic_shared_from.hpp
index ae73a3d..f1ffe1c 100644
--- a/code/xmem/basic_shared_from.hpp
+++ b/code/xmem/basic_shared_from.hpp
@@ -27,24 +27,23 @@ protected:
     basic_enable_shared_from& operator=(const basic_enable_shared_from&) { return *this; }
 
     sptr<void> shared_from_this() {
-        sptr<void> ret(m);
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        sptr<void> ret;
+        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = m;
+        return ret;
     }
     sptr<const void> shared_from_this() const {
-        sptr<const void> ret(m);
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        sptr<const void> ret;
+        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = m;
+        return ret;
     }
     wptr<void> weak_from_this() { return wptr<void>{m}; }
     wptr<const void> weak_from_this() const { return wptr<const void>{m}; }
 
     template <typename T>
     sptr<T> shared_from(T* ptr) const {
-        cb_ptr_pair<control_block_type, T> alias{m.cb, ptr};
-        sptr<T> ret{alias};
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        sptr<T> ret;
+        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = cb_ptr_pair<control_block_type, T>{m.cb, ptr};
+        return ret;
     }
 
     template <typename T>
-- 
2.43.0


From 0711accffee1058997982ae109c16c41844e7edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 04/19] fix: don't write through null when a shared_ptr takes a
 null pointer to an enable_shared_from type

---
 code/xmem/common_control_block.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index adb4f59..8033ff0 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -97,9 +97,11 @@ struct control_block_factory {
     static pair<T> prepare_pair(cb_type* cb, T* ptr) noexcept {
         using ebf_type = basic_enable_shared_from<control_block_factory>;
         if constexpr (std::is_base_of_v<ebf_type, T>) {
-            ebf_type* ebf = ptr;
-            ebf->m.cb = cb;
-            ebf->m.ptr = ptr;
+            if (ptr) {
+                ebf_type* ebf = ptr;
+                ebf->m.cb = cb;
+                ebf->m.ptr = ptr;
+            }
         }
         return {cb, ptr};
     }
-- 
2.43.0


From ff3e5e4005c526cddd858b3d86ef30c517e11380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 05/19] fix: failed compare_exchange must not release the
 expected pointer under the spinlock

The release can destroy an object whose destructor uses the same storage, which
then spins forever.
---
 code/xmem/basic_atomic_shared_ptr_storage.hpp | 18 ++++++++++--------
 code/xmem/std_helpers.hpp                     | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/code/xmem/basic_atomic_shared_ptr_storage.hpp b/code/xmem/basic_atomic_shared_ptr_storage.hpp
index 7e38ac1..23a4f90 100644
--- a/code/xmem/basic_atomic_shared_ptr_storage.hpp
+++ b/code/xmem/basic_atomic_shared_ptr_storage.hpp
@@ -38,15 +38,17 @@ public:
     }
 
     bool compare_exchange(shared_pointer_type& expect, shared_pointer_type ptr) noexcept {
-        impl::spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
-            m_ptr.swap(ptr);
-            return true;
-        }
-        else {
-            expect = m_ptr;
-            return false;
+        shared_pointer_type cur; // what expect held must be released out of the lock
+        {
+            impl::spinlock::lock_guard _l(m_spinlock);
+            if (m_ptr == expect) {
+                m_ptr.swap(ptr);
+                return true;
+            }
+            cur = m_ptr;
         }
+        expect.swap(cur);
+        return false;
     }
 };
 
diff --git a/code/xmem/std_helpers.hpp b/code/xmem/std_helpers.hpp
index cea48f3..d6a4855 100644
--- a/code/xmem/std_helpers.hpp
+++ b/code/xmem/std_helpers.hpp
@@ -121,15 +121,17 @@ public:
 
     // have _strong to match atomic<shared_ptr>
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
-        xmem::impl::spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
-            m_ptr.swap(ptr);
-            return true;
-        }
-        else {
-            expect = m_ptr;
-            return false;
+        sptr cur; // what expect held must be released out of the lock
+        {
+            xmem::impl::spinlock::lock_guard _l(m_spinlock);
+            if (m_ptr == expect) {
+                m_ptr.swap(ptr);
+                return true;
+            }
+            cur = m_ptr;
         }
+        expect.swap(cur);
+        return false;
     }
 };
 #endif
-- 
2.43.0


From db01786c5d20cebfd22e15ca3991b417e24a4042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:04 +0000
Subject: [PATCH 06/19] fix: shared_ptr<T[]> must release the raw array it owns
 with delete[]

---
 code/xmem/basic_shared_ptr.hpp     | 7 +++++--
 code/xmem/common_control_block.hpp | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index cd27449..8cb734f 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -15,6 +15,9 @@ class basic_enable_shared_from;
 
 template <typename CBF, typename T>
 class basic_shared_ptr {
+    // unique ptr to take ownership of a raw pointer: pointers to array own arrays
+    template <typename U>
+    using raw_uptr = unique_ptr<std::conditional_t<std::is_array_v<T>, U[], U>>;
 public:
     using element_type = std::remove_extent_t<T>;
     using control_block_type = typename CBF::cb_type;
@@ -78,7 +81,7 @@ public:
     basic_shared_ptr(std::nullptr_t, D d) : basic_shared_ptr(unique_ptr<T, D>(nullptr, std::move(d))) {}
 
     template <typename U>
-    explicit basic_shared_ptr(U* p) : basic_shared_ptr(unique_ptr<U>(p)) {}
+    explicit basic_shared_ptr(U* p) : basic_shared_ptr(raw_uptr<U>(p)) {}
 
     template <typename U, typename D>
     basic_shared_ptr(U* p, D d) : basic_shared_ptr(unique_ptr<U, D>(p, std::move(d))) {}
@@ -102,7 +105,7 @@ public:
 
     template <typename U>
     void reset(U* u) {
-        operator=(unique_ptr<U>(u));
+        operator=(raw_uptr<U>(u));
     }
 
     template <typename U, typename D>
diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 8033ff0..0e7a6e7 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -107,7 +107,7 @@ struct control_block_factory {
     }
 
     template <typename T, typename Del, typename Alloc = allocator<char>>
-    [[nodiscard]] static pair<T> make_uptr_cb(unique_ptr<T, Del>& uptr, Alloc a = {}) {
+    [[nodiscard]] static pair<std::remove_extent_t<T>> make_uptr_cb(unique_ptr<T, Del>& uptr, Alloc a = {}) {
         using uptr_type = unique_ptr<T, Del>;
         using rsrc_type = control_block_resource<cb_type, uptr_type, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-- 
2.43.0


From 49f116e8e26a3defb1916ebdde1ba4701756a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:04 +0000
Subject: [PATCH 07/19] fix: allocator::allocate must not wrap around on huge
 element counts

---
 code/xmem/allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/xmem/allocator.hpp b/code/xmem/allocator.hpp
index de67253..847c783 100644
--- a/code/xmem/allocator.hpp
+++ b/code/xmem/allocator.hpp
@@ -3,6 +3,7 @@
 //
 #pragma once
 #include <memory>
+#include <new>
 
 namespace xmem {
 
@@ -20,6 +21,7 @@ public:
     static inline constexpr std::align_val_t align_val{alignof(T)};
 
     [[nodiscard]] T* allocate(size_t n) {
+        if (n > size_t(-1) / sizeof(T)) throw std::bad_array_new_length{};
         auto ret = ::operator new(n * sizeof(T), align_val);
         return reinterpret_cast<T*>(ret);
     }
-- 
2.43.0


From 35e45f56a431dfaff149a5afee6cb9e6bd2dee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:43 +0000
Subject: [PATCH 08/19] fix: don't leak the control block's memory when its
 constructor throws

---
 code/xmem/common_control_block.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 0e7a6e7..196a693 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -66,9 +66,14 @@ public:
     using control_block_resource_ptr = unique_ptr<control_block_resource, void(*)(control_block_resource*)>;
     [[nodiscard]] static control_block_resource_ptr create(Alloc a) {
         auto myalloc = get_self_alloc(a);
-        auto self = myalloc.allocate(1);
-        new (self) control_block_resource(std::move(a));
-        return control_block_resource_ptr(self, [](control_block_resource* ptr) { ptr->destroy_self(); });
+        // give the memory back if the constructor throws
+        struct deallocate {
+            self_alloc_type& alloc;
+            void operator()(control_block_resource* ptr) { alloc.deallocate(ptr, 1); }
+        };
+        unique_ptr<control_block_resource, deallocate> mem(myalloc.allocate(1), deallocate{myalloc});
+        new (mem.get()) control_block_resource(std::move(a));
+        return control_block_resource_ptr(mem.release(), [](control_block_resource* ptr) { ptr->destroy_self(); });
     }
 
     [[nodiscard]] T* obj() {
-- 
2.43.0


From be9ec39f7efde1a1538e6b31d3848eaf47fc1c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:35 +0000
Subject: [PATCH 09/19] fix: converting an expired weak_ptr to a virtual base
 must not read the destroyed object

---
 code/xmem/basic_weak_ptr.hpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/code/xmem/basic_weak_ptr.hpp b/code/xmem/basic_weak_ptr.hpp
index 49735e6..c070524 100644
--- a/code/xmem/basic_weak_ptr.hpp
+++ b/code/xmem/basic_weak_ptr.hpp
@@ -6,6 +6,15 @@
 
 namespace xmem {
 
+namespace impl {
+// converting a pointer to one to a virtual base reads the object
+// (these are exactly the upcasts which static_cast can't undo)
+template <typename From, typename To, typename = void>
+struct is_upcast_to_virtual : std::is_base_of<To, From> {};
+template <typename From, typename To>
+struct is_upcast_to_virtual<From, To, std::void_t<decltype(static_cast<From*>(std::declval<To*>()))>> : std::false_type {};
+}
+
 template <typename CBF, typename T>
 class basic_weak_ptr {
 public:
@@ -30,12 +39,11 @@ public:
 
     template <typename U>
     basic_weak_ptr(const basic_weak_ptr<CBF, U>& r) noexcept {
-        init_from_copy(r.m);
+        init_from_copy(convert(r));
     }
     template <typename U>
     basic_weak_ptr& operator=(const basic_weak_ptr<CBF, U>& r) noexcept {
-        if (m.cb) m.cb->dec_weak_ref(this);
-        init_from_copy(r.m);
+        basic_weak_ptr(r).swap(*this);
         return *this;
     }
 
@@ -55,8 +63,7 @@ public:
     }
     template <typename U>
     basic_weak_ptr& operator=(basic_weak_ptr<CBF, U>&& r) noexcept {
-        if (m.cb) m.cb->dec_weak_ref(this);
-        init_from_move(r);
+        basic_weak_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
@@ -147,6 +154,17 @@ public:
     }
 
 private:
+    template <typename U>
+    static cb_ptr_pair_type convert(const basic_weak_ptr<CBF, U>& r) noexcept {
+        if constexpr (impl::is_upcast_to_virtual<std::remove_cv_t<U>, std::remove_cv_t<T>>::value) {
+            // the object may already be destroyed
+            return {r.m.cb, r.lock().get()};
+        }
+        else {
+            return r.m;
+        }
+    }
+
     template <typename U>
     void init_from_copy(const cb_ptr_pair<control_block_type, U>& r) noexcept {
         m = r;
@@ -155,7 +173,8 @@ private:
 
     template <typename U>
     void init_from_move(basic_weak_ptr<CBF, U>& r) noexcept {
-        m = std::move(r.m);
+        m = convert(r);
+        r.m.reset();
         if (m.cb) m.cb->transfer_weak(this, &r);
     }
 
-- 
2.43.0


From 3fbe12582cbddb471d9ccb19e3d7c64903edbd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:36 +0000
Subject: [PATCH 10/19] fix: unique_ptr's function deleter must accept the
 pointer type, not the other way around

---
 code/xmem/unique_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index 0d2a174..822f322 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -191,7 +191,7 @@ public:
 
 template <typename T, typename B>
 class unique_ptr<T, void(*)(B*)> : public impl::uptr_common<T*> {
-    static_assert(std::is_convertible_v<B*, T*>, "unique_ptr type needs to be convertible to deleter type");
+    static_assert(std::is_convertible_v<T*, B*>, "unique_ptr type needs to be convertible to deleter type");
     using common = impl::uptr_common<T*>;
     void (*m_deleter)(B*);
 public:
-- 
2.43.0


From 0b75c4886d36f6c12acada506db00f4f4a923546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 11/19] fix: unique_ptr move assignment must not read the
 source after disposing of the old object

---
 code/xmem/unique_ptr.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index 822f322..be4fa38 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -72,8 +72,8 @@ public:
 
     unique_ptr(unique_ptr&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
-        reset(other.release());
-        get_deleter() = std::move(other.get_deleter());
+        // other may be owned by what we're about to dispose of
+        unique_ptr(other.release(), std::move(other.get_deleter())).swap(*this);
         return *this;
     }
 
@@ -84,8 +84,8 @@ public:
     unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
-        reset(other.release());
-        get_deleter() = std::move(other.get_deleter());
+        // other may be owned by what we're about to dispose of
+        unique_ptr(other.release(), std::move(other.get_deleter())).swap(*this);
         return *this;
     }
 
@@ -153,8 +153,8 @@ public:
 
     unique_ptr(unique_ptr&& other) noexcept : common(other.release()), m_deleter(&other.get_deleter()) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
-        reset(other.release());
-        m_deleter = &other.get_deleter();
+        // other may be owned by what we're about to dispose of
+        unique_ptr(other.release(), other.get_deleter()).swap(*this);
         return *this;
     }
 
@@ -162,8 +162,8 @@ public:
     unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), m_deleter(&other.get_deleter()) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
-        reset(other.release());
-        m_deleter = &other.get_deleter();
+        // other may be owned by what we're about to dispose of
+        unique_ptr(other.release(), other.get_deleter()).swap(*this);
         return *this;
     }
 
@@ -216,8 +216,8 @@ public:
 
     unique_ptr(unique_ptr&& other) noexcept : common(other.release()), m_deleter(other.get_deleter()) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
-        reset(other.release());
-        m_deleter = other.get_deleter();
+        // other may be owned by what we're about to dispose of
+        unique_ptr(other.release(), other.get_deleter()).swap(*this);
         return *this;
     }
 
@@ -225,8 +225,8 @@ public:
     unique_ptr(unique_ptr<U, deleter_type>&& other) noexcept : common(other.release()), m_deleter(other.get_deleter()) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
-        reset(other.release());
-        m_deleter = other.get_deleter();
+        // other may be owned by what we're about to dispose of
+        unique_ptr(other.release(), other.get_deleter()).swap(*this);
         return *this;
     }
 
@@ -275,8 +275,8 @@ public:
 
     unique_ptr(unique_ptr&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
-        reset(other.release());
-        get_deleter() = std::move(other.get_deleter());
+        // other may be owned by what we're about to dispose of
+        unique_ptr(other.release(), std::move(other.get_deleter())).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From d35cef84166f7bda347bbe425f5c09fc6f22e46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 12/19] fix: shared_ptr::reset(ptr, deleter) must use the
 deleter

---
 code/xmem/basic_shared_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index 8cb734f..61f23d8 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -110,7 +110,7 @@ public:
 
     template <typename U, typename D>
     void reset(U* u, D d) {
-        operator=(unique_ptr<U>(u, std::move(d)));
+        operator=(unique_ptr<U, D>(u, std::move(d)));
     }
 
     template <typename U, typename D, typename A>
-- 
2.43.0


From 7605c67c3052ae7b1eae468111460e4c8161ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 13/19] fix: make_shared must not use the managed type's own
 operator&

---
 code/xmem/common_control_block.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 196a693..86f0842 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -77,7 +77,7 @@ public:
     }
 
     [[nodiscard]] T* obj() {
-        return &m_obj;
+        return std::addressof(m_obj);
     }
 
     virtual void destroy_resource() noexcept override { m_obj.~T(); }
-- 
2.43.0


From 68ad44e0679dcf00c2863d2ba4ebefa238ccb8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:41 +0000
Subject: [PATCH 14/19] fix: construct shared objects which are const or have
 their own operator new

---
 code/xmem/common_control_block.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 86f0842..15e11c8 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -72,13 +72,17 @@ public:
             void operator()(control_block_resource* ptr) { alloc.deallocate(ptr, 1); }
         };
         unique_ptr<control_block_resource, deallocate> mem(myalloc.allocate(1), deallocate{myalloc});
-        new (mem.get()) control_block_resource(std::move(a));
+        ::new (static_cast<void*>(mem.get())) control_block_resource(std::move(a));
         return control_block_resource_ptr(mem.release(), [](control_block_resource* ptr) { ptr->destroy_self(); });
     }
 
     [[nodiscard]] T* obj() {
         return std::addressof(m_obj);
     }
+    // where to construct the object (which may be const)
+    [[nodiscard]] void* obj_mem() {
+        return const_cast<void*>(static_cast<const volatile void*>(obj()));
+    }
 
     virtual void destroy_resource() noexcept override { m_obj.~T(); }
     virtual void destroy_self() noexcept override {
@@ -116,7 +120,7 @@ struct control_block_factory {
         using uptr_type = unique_ptr<T, Del>;
         using rsrc_type = control_block_resource<cb_type, uptr_type, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (tmp->obj()) uptr_type(std::move(uptr));
+        ::new (tmp->obj_mem()) uptr_type(std::move(uptr));
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj()->get());
     }
@@ -125,7 +129,7 @@ struct control_block_factory {
     [[nodiscard]] static pair<T> make_resource_cb(Alloc a, Args&&... args) {
         using rsrc_type = control_block_resource<cb_type, T, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (tmp->obj()) T(std::forward<Args>(args)...);
+        ::new (tmp->obj_mem()) T(std::forward<Args>(args)...);
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
@@ -134,7 +138,7 @@ struct control_block_factory {
     [[nodiscard]] static pair<T> make_resource_cb_for_overwrite(Alloc a) {
         using rsrc_type = control_block_resource<cb_type, T, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (tmp->obj()) T;
+        ::new (tmp->obj_mem()) T;
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
-- 
2.43.0


From 9424a246620e2b58a3b6aea1025e281ca6bd39d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:41 +0000
Subject: [PATCH 15/19] fix: associate objects owned through pointers to const
 with their owner

---
 code/xmem/common_control_block.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 15e11c8..ec7b913 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -107,9 +107,10 @@ struct control_block_factory {
         using ebf_type = basic_enable_shared_from<control_block_factory>;
         if constexpr (std::is_base_of_v<ebf_type, T>) {
             if (ptr) {
-                ebf_type* ebf = ptr;
+                auto mptr = const_cast<std::remove_cv_t<T>*>(ptr);
+                ebf_type* ebf = mptr;
                 ebf->m.cb = cb;
-                ebf->m.ptr = ptr;
+                ebf->m.ptr = mptr;
             }
         }
         return {cb, ptr};
-- 
2.43.0


From 99e98ab6c7e3ddc3a92bf87dfefe44920b7aee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:21 +0000
Subject: [PATCH 16/19] fix: allow aliases which are pointers to arrays

---
 code/xmem/basic_shared_ptr.hpp | 2 +-
 code/xmem/basic_weak_ptr.hpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index 61f23d8..0db121d 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -87,7 +87,7 @@ public:
     basic_shared_ptr(U* p, D d) : basic_shared_ptr(unique_ptr<U, D>(p, std::move(d))) {}
 
     template <typename U>
-    basic_shared_ptr(const basic_shared_ptr<CBF, U>& r, T* aptr) noexcept {
+    basic_shared_ptr(const basic_shared_ptr<CBF, U>& r, element_type* aptr) noexcept {
         init_from_copy(cb_ptr_pair_type(r.m.cb, aptr));
     }
 
diff --git a/code/xmem/basic_weak_ptr.hpp b/code/xmem/basic_weak_ptr.hpp
index c070524..8b01143 100644
--- a/code/xmem/basic_weak_ptr.hpp
+++ b/code/xmem/basic_weak_ptr.hpp
@@ -79,7 +79,7 @@ public:
     }
 
     template <typename U>
-    basic_weak_ptr(const basic_weak_ptr<CBF, U>& r, T* aptr) noexcept {
+    basic_weak_ptr(const basic_weak_ptr<CBF, U>& r, element_type* aptr) noexcept {
         if (!r) {
             m.reset();
             return;
@@ -87,7 +87,7 @@ public:
         init_from_copy(cb_ptr_pair_type(r.m.cb, aptr));
     }
     template <typename U>
-    basic_weak_ptr(const basic_shared_ptr<CBF, U>& sptr, T* aptr) noexcept {
+    basic_weak_ptr(const basic_shared_ptr<CBF, U>& sptr, element_type* aptr) noexcept {
         if (!sptr.m.cb) {
             m.reset();
             return;
-- 
2.43.0


From 9faf0cd6c88e01991e2b5d37d8c5a4b767330309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 17/19] fix: don't move from deleters which are only referred
 to

---
 code/xmem/unique_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index be4fa38..73b108a 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -81,11 +81,11 @@ public:
     unique_ptr(pointer p, D2&& d) noexcept : common(p), D(std::forward<D2>(d)) {}
 
     template <typename U, typename D2>
-    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}
+    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), D(std::forward<D2>(other.get_deleter())) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
         // other may be owned by what we're about to dispose of
-        unique_ptr(other.release(), std::move(other.get_deleter())).swap(*this);
+        unique_ptr(other.release(), std::forward<D2>(other.get_deleter())).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From f20abf17bcfe4e29c9f7a4d6695ba160364d40bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 18/19] fix: shared pointers must still accept raw pointers to
 abstract types

---
 code/xmem/basic_shared_ptr.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index 0db121d..446b50a 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -16,8 +16,12 @@ class basic_enable_shared_from;
 template <typename CBF, typename T>
 class basic_shared_ptr {
     // unique ptr to take ownership of a raw pointer: pointers to array own arrays
+    template <typename U, bool Array>
+    struct raw_resource { using type = U; };
     template <typename U>
-    using raw_uptr = unique_ptr<std::conditional_t<std::is_array_v<T>, U[], U>>;
+    struct raw_resource<U, true> { using type = U[]; };
+    template <typename U>
+    using raw_uptr = unique_ptr<typename raw_resource<U, std::is_array_v<T>>::type>;
 public:
     using element_type = std::remove_extent_t<T>;
     using control_block_type = typename CBF::cb_type;
-- 
2.43.0


From 182001d0162c2a30384a05b3b554c220b86faf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 19/19] fix: unique_ptr must not use the overloaded operator&
 of a deleter it refers to

---
 code/xmem/unique_ptr.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index 73b108a..ad458d9 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -5,6 +5,7 @@
 #include "default_delete.hpp"
 
 #include <cstddef> // nullptr_t, size_t
+#include <memory> // std::addressof
 #include <utility> // std::forward, std::swap
 
 namespace xmem {
@@ -138,8 +139,8 @@ public:
     using element_type = T;
     using deleter_type = D&;
 
-    unique_ptr(pointer p, D& d) noexcept : common(p), m_deleter(&d) {}
-    explicit unique_ptr(D& d) noexcept : common(nullptr), m_deleter(&d) {}
+    unique_ptr(pointer p, D& d) noexcept : common(p), m_deleter(std::addressof(d)) {}
+    explicit unique_ptr(D& d) noexcept : common(nullptr), m_deleter(std::addressof(d)) {}
     ~unique_ptr() {
         if (this->m_ptr) {
             (*m_deleter)(this->m_ptr);
@@ -151,7 +152,7 @@ public:
         return *this;
     }
 
-    unique_ptr(unique_ptr&& other) noexcept : common(other.release()), m_deleter(&other.get_deleter()) {}
+    unique_ptr(unique_ptr&& other) noexcept : common(other.release()), m_deleter(std::addressof(other.get_deleter())) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
         // other may be owned by what we're about to dispose of
         unique_ptr(other.release(), other.get_deleter()).swap(*this);
@@ -159,7 +160,7 @@ public:
     }
 
     template <typename U, typename D2>
-    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), m_deleter(&other.get_deleter()) {}
+    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), m_deleter(std::addressof(other.get_deleter())) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
         // other may be owned by what we're about to dispose of
-- 
2.43.0

