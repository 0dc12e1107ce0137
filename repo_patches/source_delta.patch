From 9393c1932be5f8ccd77c559484495e335620679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 01/36] fix: stack_pool::clear() left the released stacks in
 the free list

---
 include/libcopp/stack/stack_pool.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index 374d1b8..4283200 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -301,6 +301,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
     for (typename std::list<stack_context>::iterator iter = free_list_.begin(); iter != free_list_.end(); ++iter) {
       alloc_.deallocate(*iter);
     }
+    free_list_.clear();
 
     LIBCOPP_UTIL_LOCK_ATOMIC_THREAD_FENCE(LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
   }
-- 
2.43.0


From a2ed6bfa9e68f23bc55be8bef0a5429a7aeac05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 02/36] fix: stack_pool::gc() read the pool's counters without
 its lock

---
 include/libcopp/stack/stack_pool.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index 4283200..de2f918 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -225,6 +225,11 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
 
   size_t gc() {
     size_t ret = 0;
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+        action_lock_);
+#endif
+
     // gc only if free stacks is greater than used
     if (limits_.used_stack_size >= limits_.free_stack_size && limits_.used_stack_number >= limits_.free_stack_number) {
       return ret;
@@ -241,11 +246,6 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
       }
     }
 
-#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
-    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
-        action_lock_);
-#endif
-
     size_t keep_size = limits_.free_stack_size >> 1;
     size_t keep_number = limits_.free_stack_number >> 1;
     size_t left_gc = conf_.gc_number;
-- 
2.43.0


From 5a259baf732500234ac6e4466b74fe2669304eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 03/36] fix: stack allocators handed out an empty stack when
 rounding a huge size overflowed

---
 src/libcopp/stack/allocator/stack_allocator_malloc.cpp | 4 ++++
 src/libcopp/stack/allocator/stack_allocator_posix.cpp  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/libcopp/stack/allocator/stack_allocator_malloc.cpp b/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
index 343c88b..cd2fdf9 100755
--- a/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
@@ -50,6 +50,10 @@ LIBCOPP_COPP_API void stack_allocator_malloc::allocate(stack_context &ctx, std::
   size = (std::min)(size, stack_traits::maximum_size());
 
   std::size_t size_ = stack_traits::round_to_page_size(size);
+  if (size_ < size) {  // overflow
+    ctx.sp = nullptr;
+    return;
+  }
 
   void *start_ptr = malloc(size_);
 
diff --git a/src/libcopp/stack/allocator/stack_allocator_posix.cpp b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
index efb5b11..15ef397 100755
--- a/src/libcopp/stack/allocator/stack_allocator_posix.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
@@ -61,6 +61,10 @@ LIBCOPP_COPP_API void stack_allocator_posix::allocate(stack_context &ctx, std::s
   size = (std::min)(size, stack_traits::maximum_size());
 
   std::size_t size_ = stack_traits::round_to_page_size(size) + stack_traits::page_size();  // add one protected page
+  if (size_ < size) {  // overflow
+    ctx.sp = nullptr;
+    return;
+  }
   assert(size > 0 && size_ > 0);
 
   // conform to POSIX.4 (POSIX.1b-1993, _POSIX_C_SOURCE=199309L)
-- 
2.43.0


From 6bcffe603f6af593b321c9633058d43e37b776e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 04/36] fix: stack_allocator_memory used memory beyond the
 attached buffer

---
 src/libcopp/stack/allocator/stack_allocator_memory.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libcopp/stack/allocator/stack_allocator_memory.cpp b/src/libcopp/stack/allocator/stack_allocator_memory.cpp
index 2616a69..1879483 100755
--- a/src/libcopp/stack/allocator/stack_allocator_memory.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_memory.cpp
@@ -101,6 +101,14 @@ LIBCOPP_COPP_API void stack_allocator_memory::allocate(stack_context &ctx, std::
   size = (std::min)(size, memory_size_);
 
   std::size_t size_ = stack_traits::round_to_page_size(size);
+  // never leave the attached buffer
+  if (size_ > memory_size_) {
+    size_ = memory_size_ - memory_size_ % stack_traits::page_size();
+  }
+  if (0 == size_) {
+    ctx.sp = nullptr;
+    return;
+  }
   assert(size > 0 && size_ > 0 && size_ <= memory_size_);
 
   ctx.size = size_;
-- 
2.43.0


From 4d91b1a2291b1797dc3af517a9d75d3b12fe0ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 05/36] fix: stack allocators asserted on releasing a stack of
 the maximum size

---
 src/libcopp/stack/allocator/stack_allocator_malloc.cpp | 3 ++-
 src/libcopp/stack/allocator/stack_allocator_memory.cpp | 3 ++-
 src/libcopp/stack/allocator/stack_allocator_posix.cpp  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libcopp/stack/allocator/stack_allocator_malloc.cpp b/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
index cd2fdf9..8fbc578 100755
--- a/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
@@ -73,7 +73,8 @@ LIBCOPP_COPP_API void stack_allocator_malloc::allocate(stack_context &ctx, std::
 LIBCOPP_COPP_API void stack_allocator_malloc::deallocate(stack_context &ctx) LIBCOPP_MACRO_NOEXCEPT {
   assert(ctx.sp);
   assert(stack_traits::minimum_size() <= ctx.size);
-  assert(stack_traits::is_unbounded() || (stack_traits::maximum_size() >= ctx.size));
+  assert(stack_traits::is_unbounded() ||
+         (stack_traits::round_to_page_size(stack_traits::maximum_size()) >= ctx.size));
 
 #if defined(LIBCOPP_MACRO_USE_VALGRIND)
   VALGRIND_STACK_DEREGISTER(ctx.valgrind_stack_id);
diff --git a/src/libcopp/stack/allocator/stack_allocator_memory.cpp b/src/libcopp/stack/allocator/stack_allocator_memory.cpp
index 1879483..798dc90 100755
--- a/src/libcopp/stack/allocator/stack_allocator_memory.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_memory.cpp
@@ -124,7 +124,8 @@ LIBCOPP_COPP_API void stack_allocator_memory::deallocate(EXPLICIT_UNUSED_ATTR st
     LIBCOPP_MACRO_NOEXCEPT {
   assert(ctx.sp);
   assert(stack_traits::minimum_size() <= ctx.size);
-  assert(stack_traits::is_unbounded() || (stack_traits::maximum_size() >= ctx.size));
+  assert(stack_traits::is_unbounded() ||
+         (stack_traits::round_to_page_size(stack_traits::maximum_size()) >= ctx.size));
 
 #if defined(LIBCOPP_MACRO_USE_VALGRIND)
   VALGRIND_STACK_DEREGISTER(ctx.valgrind_stack_id);
diff --git a/src/libcopp/stack/allocator/stack_allocator_posix.cpp b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
index 15ef397..bbacd13 100755
--- a/src/libcopp/stack/allocator/stack_allocator_posix.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
@@ -94,7 +94,8 @@ LIBCOPP_COPP_API void stack_allocator_posix::allocate(stack_context &ctx, std::s
 LIBCOPP_COPP_API void stack_allocator_posix::deallocate(stack_context &ctx) LIBCOPP_MACRO_NOEXCEPT {
   assert(ctx.sp);
   assert(stack_traits::minimum_size() <= ctx.size);
-  assert(stack_traits::is_unbounded() || (stack_traits::maximum_size() >= ctx.size));
+  assert(stack_traits::is_unbounded() ||
+         (stack_traits::round_to_page_size(stack_traits::maximum_size()) + stack_traits::page_size() >= ctx.size));
 
 #if defined(LIBCOPP_MACRO_USE_VALGRIND)
   VALGRIND_STACK_DEREGISTER(ctx.valgrind_stack_id);
-- 
2.43.0


From d2c28a9c1d98097439de2aa01f538e6b36b3c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 06/36] fix: creating a coroutine or task with a huge private
 buffer overflowed the size checks

---
 include/libcopp/coroutine/coroutine_context_container.h | 5 +++++
 include/libcotask/task.h                                | 3 ++-
 src/libcopp/coroutine/coroutine_context.cpp             | 5 +++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/libcopp/coroutine/coroutine_context_container.h b/include/libcopp/coroutine/coroutine_context_container.h
index 3d5a46c..c66f9c0 100755
--- a/include/libcopp/coroutine/coroutine_context_container.h
+++ b/include/libcopp/coroutine/coroutine_context_container.h
@@ -75,6 +75,11 @@ class coroutine_context_container : public coroutine_context {
       stack_sz = stack_traits::default_size();
     }
 
+    // sizes like these can never be satisfied and would overflow when padding and summing below
+    if (coroutine_size > (~static_cast<size_t>(0)) / 4 || private_buffer_size > (~static_cast<size_t>(0)) / 4) {
+      return ret;
+    }
+
     // padding to sizeof size_t
     coroutine_size = align_address_size(coroutine_size);
     const size_t this_align_size = align_address_size(sizeof(this_type));
diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 7b87efc..6ad8029 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -101,7 +101,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     size_t action_size = coroutine_type::align_address_size(sizeof(a_t));
     size_t task_size = coroutine_type::align_address_size(sizeof(self_type));
 
-    if (stack_size <= sizeof(impl::task_impl *) + private_buffer_size + action_size + task_size) {
+    if (private_buffer_size >= stack_size ||
+        stack_size - private_buffer_size <= sizeof(impl::task_impl *) + action_size + task_size) {
       return ptr_type();
     }
 
diff --git a/src/libcopp/coroutine/coroutine_context.cpp b/src/libcopp/coroutine/coroutine_context.cpp
index 4abd2f6..19e6fdd 100755
--- a/src/libcopp/coroutine/coroutine_context.cpp
+++ b/src/libcopp/coroutine/coroutine_context.cpp
@@ -297,6 +297,11 @@ LIBCOPP_COPP_API int coroutine_context::create(coroutine_context *p, callback_ty
     return COPP_EC_ARGS_ERROR;
   }
 
+  // can not be larger than stack, also avoid overflow when summing below
+  if (private_buffer_size >= callee_stack.size || coroutine_size >= callee_stack.size - private_buffer_size) {
+    return COPP_EC_ARGS_ERROR;
+  }
+
   size_t stack_offset = align_stack_size(private_buffer_size + coroutine_size);
   if (nullptr == callee_stack.sp || callee_stack.size <= stack_offset) {
     return COPP_EC_ARGS_ERROR;
-- 
2.43.0


From ef7a5682db52435efec9bcdeafd84c1b60ee9cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 07/36] fix: coroutine container was placed outside a stack
 smaller than requested

---
 include/libcopp/coroutine/coroutine_context_container.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libcopp/coroutine/coroutine_context_container.h b/include/libcopp/coroutine/coroutine_context_container.h
index c66f9c0..85ca6cf 100755
--- a/include/libcopp/coroutine/coroutine_context_container.h
+++ b/include/libcopp/coroutine/coroutine_context_container.h
@@ -97,6 +97,12 @@ class coroutine_context_container : public coroutine_context {
       return ret;
     }
 
+    // allocator may return a stack smaller than requested(stack pool always uses its own stack size)
+    if (callee_stack.size <= coroutine_size + private_buffer_size) {
+      alloc.deallocate(callee_stack);
+      return ret;
+    }
+
     // placement new
     unsigned char *this_addr = reinterpret_cast<unsigned char *>(callee_stack.sp);
     // stack down
-- 
2.43.0


From bc50097762827a0cec8ee9f905a4744fedc48a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 08/36] fix: killing or canceling a finished task finished it a
 second time

The terminal status was overwritten and on_finished() called again, and
killing twice a task which is still running never returned.
---
 include/libcotask/task.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 6ad8029..ade8332 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -574,6 +574,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
         return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IS_RUNNING;
       }
 
+      COPP_UNLIKELY_IF (from_status >= EN_TS_DONE) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+      }
+
       COPP_LIKELY_IF (_cas_status(from_status, EN_TS_CANCELED)) {
         break;
       }
@@ -603,6 +607,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     EN_TASK_STATUS from_status = get_status();
 
     do {
+      COPP_UNLIKELY_IF (from_status >= EN_TS_DONE) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+      }
+
       COPP_LIKELY_IF (_cas_status(from_status, status)) {
         break;
       }
-- 
2.43.0


From ae700fd097b0c909815dcdbdf021b0ff3d8946cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 09/36] fix: dropping the last reference of a waiting task
 resumed its destroyed action

---
 include/libcotask/task.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index ade8332..6470b89 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -793,6 +793,17 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     size_t left = --p->ref_count_;
     if (0 == left) {
+      // inited but not finished will trigger timeout and finish other actors, it must be done before anything is
+      // destroyed because the action will be resumed and may use the task
+      EN_TASK_STATUS status = p->get_status();
+      if (status > EN_TS_CREATED && status < EN_TS_DONE) {
+        ++p->ref_count_;
+        p->kill(EN_TS_TIMEOUT);
+        if (0 != --p->ref_count_) {
+          return;
+        }
+      }
+
       // save coroutine context first, make sure it's still available after destroy task
       using this_coroutine_type = typename task<TCO_MACRO>::coroutine_type;
       using this_coroutine_ptr_type = typename this_coroutine_type::ptr_type;
-- 
2.43.0


From 5361091a9beaa29d32e120c3c06a286570fe1d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 10/36] fix: a next task added while the task was finishing in
 another thread was never run

---
 include/libcotask/task.h | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 6470b89..6f43d67 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -235,24 +235,26 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       return ptr_type(this);
     }
 
-    // can not add next task when finished
-    if (is_exiting() || is_completed()) {
-      // run next task immedialy
-      EN_TASK_STATUS next_task_status = next_task->get_status();
-      if (EN_TS_CREATED == next_task_status) {
-        next_task->start(priv_data);
-      } else if (EN_TS_WAITING == next_task_status) {
-        next_task->resume(priv_data);
-      }
-      return next_task;
-    }
-
+    {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
-    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
-        inner_action_lock_);
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
 #endif
 
-    next_list_.member_list_.push_back(std::make_pair(next_task, priv_data));
+      // next tasks will be actived after exiting, so it must be checked when holding the lock
+      if (!is_exiting() && !is_completed()) {
+        next_list_.member_list_.push_back(std::make_pair(next_task, priv_data));
+        return next_task;
+      }
+    }
+
+    // can not add next task when finished, run next task immedialy
+    EN_TASK_STATUS next_task_status = next_task->get_status();
+    if (EN_TS_CREATED == next_task_status) {
+      next_task->start(priv_data);
+    } else if (EN_TS_WAITING == next_task_status) {
+      next_task->resume(priv_data);
+    }
     return next_task;
   }
 
-- 
2.43.0


From b5e2ad210e9e4c66290fc7dd235970c42f4c157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 11/36] fix: task::then(functor) moved the allocator out of the
 task it's called on

---
 include/libcotask/task.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 6f43d67..2d44bb3 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -390,12 +390,12 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
   template <typename Ty>
   inline ptr_type then(Ty &&functor, void *priv_data = nullptr) {
     if (!coroutine_obj_) {
-      then(create(std::forward<Ty>(functor), stack_size_, get_private_buffer_size()), priv_data);
+      return then(create(std::forward<Ty>(functor), stack_size_, get_private_buffer_size()), priv_data);
     }
 
-    return then(
-        create(std::forward<Ty>(functor), coroutine_obj_->get_allocator(), stack_size_, get_private_buffer_size()),
-        priv_data);
+    // the allocator of this task is still needed, create() will move from the one passed in
+    typename coroutine_type::allocator_type alloc(coroutine_obj_->get_allocator());
+    return then(create(std::forward<Ty>(functor), alloc, stack_size_, get_private_buffer_size()), priv_data);
   }
 
   template <typename Ty>
@@ -404,7 +404,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       return then(create(func, stack_size_, get_private_buffer_size()), priv_data);
     }
 
-    return then(create(func, coroutine_obj_->get_allocator(), stack_size_, get_private_buffer_size()), priv_data);
+    // the allocator of this task is still needed, create() will move from the one passed in
+    typename coroutine_type::allocator_type alloc(coroutine_obj_->get_allocator());
+    return then(create(func, alloc, stack_size_, get_private_buffer_size()), priv_data);
   }
 
   /**
-- 
2.43.0


From 8c67528b328082302a4bef366f6a26878a9a4367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 12/36] fix: the data passed to kill() of a running task could
 be missed by the thread running it

---
 include/libcotask/task.h | 46 +++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 2d44bb3..4521c09 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -507,7 +507,13 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
         }
       }
 
-      finish_priv_data_ = priv_data;
+      {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+        LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+            inner_action_lock_);
+#endif
+        finish_priv_data_ = priv_data;
+      }
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
       _notify_finished(unhandled, priv_data);
 #else
@@ -518,10 +524,17 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     while (true) {
       if (from_status >= EN_TS_DONE) {  // canceled or killed
+        {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+          LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+              inner_action_lock_);
+#endif
+          priv_data = finish_priv_data_;
+        }
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
-        _notify_finished(unhandled, finish_priv_data_);
+        _notify_finished(unhandled, priv_data);
 #else
-        _notify_finished(finish_priv_data_);
+        _notify_finished(priv_data);
 #endif
         break;
       }
@@ -610,15 +623,26 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 #endif
     EN_TASK_STATUS from_status = get_status();
 
-    do {
-      COPP_UNLIKELY_IF (from_status >= EN_TS_DONE) {
-        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
-      }
+    {
+      // status and finish_priv_data_ should be visible together for the thread running this task
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
+#endif
+      do {
+        COPP_UNLIKELY_IF (from_status >= EN_TS_DONE) {
+          return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+        }
 
-      COPP_LIKELY_IF (_cas_status(from_status, status)) {
-        break;
+        COPP_LIKELY_IF (_cas_status(from_status, status)) {
+          break;
+        }
+      } while (true);
+
+      if (EN_TS_RUNNING == from_status) {
+        finish_priv_data_ = priv_data;
       }
-    } while (true);
+    }
 
     if (EN_TS_RUNNING != from_status) {
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
@@ -626,8 +650,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 #else
       _notify_finished(priv_data);
 #endif
-    } else {
-      finish_priv_data_ = priv_data;
     }
 
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
-- 
2.43.0


From 755069d1f901679d3653bc83df470bfa60e4ee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 13/36] fix: task timeouts fired late when the nanosecond parts
 add up to more than a second

---
 include/libcotask/task_manager.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index a7dc903..29e3d69 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -70,6 +70,18 @@ struct LIBCOPP_COTASK_API_HEAD_ONLY tickspec_t {
 #endif
 };
 
+inline tickspec_t add_tickspec(const tickspec_t &base, time_t sec, int nsec) {
+  tickspec_t ret;
+  ret.tv_sec = base.tv_sec + sec;
+  ret.tv_nsec = base.tv_nsec + nsec;
+  // carry, both base.tv_nsec and nsec are in the range 0-999999999
+  if (ret.tv_nsec >= 1000000000) {
+    ret.tv_nsec -= 1000000000;
+    ++ret.tv_sec;
+  }
+  return ret;
+}
+
 template <class TTASK_ID_TYPE>
 struct LIBCOPP_COTASK_API_HEAD_ONLY task_timer_node {
   tickspec_t expired_time;
@@ -704,8 +716,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
            task_timeout_timer_.end() != iter; ++iter) {
         detail::task_timer_node<id_type> new_checkpoint = (*iter);
-        new_checkpoint.expired_time.tv_sec += sec;
-        new_checkpoint.expired_time.tv_nsec += nsec;
+        new_checkpoint.expired_time = detail::add_tickspec(new_checkpoint.expired_time, sec, nsec);
         real_checkpoints.insert(new_checkpoint);
       }
 
@@ -828,8 +839,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
     detail::task_timer_node<id_type> timer_node;
     timer_node.task_id = node.task_->get_id();
-    timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
-    timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
+    timer_node.expired_time = detail::add_tickspec(last_tick_time_, timeout_sec, timeout_nsec);
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
         task_timeout_timer_.insert(timer_node);
@@ -1312,8 +1322,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
            task_timeout_timer_.end() != iter; ++iter) {
         detail::task_timer_node<id_type> new_checkpoint = (*iter);
-        new_checkpoint.expired_time.tv_sec += sec;
-        new_checkpoint.expired_time.tv_nsec += nsec;
+        new_checkpoint.expired_time = detail::add_tickspec(new_checkpoint.expired_time, sec, nsec);
         real_checkpoints.insert(new_checkpoint);
       }
 
@@ -1425,8 +1434,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
     detail::task_timer_node<id_type> timer_node;
     timer_node.task_id = node.task_.get_id();
-    timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
-    timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
+    timer_node.expired_time = detail::add_tickspec(last_tick_time_, timeout_sec, timeout_nsec);
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
         task_timeout_timer_.insert(timer_node);
-- 
2.43.0


From 871b0a42247194213780b9a4446dbac5576011d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 14/36] fix: tasks which were already exiting still referred to
 the manager after they left it

reset() and tick() didn't unbind a task killed while running, so it notified
a manager which may be destroyed when it finished.
---
 include/libcotask/task_manager.h | 37 ++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 29e3d69..c885713 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -243,6 +243,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       for (typename container_type::iterator iter = tasks_.begin(); iter != tasks_.end(); ++iter) {
         all_tasks.push_back(iter->second.task_);
         remove_timeout_timer(iter->second);
+#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+        // no task should refer to this manager any more, even if it's already exiting
+        task_type::task_manager_helper::cleanup_task_manager(*iter->second.task_, reinterpret_cast<void *>(this));
+#endif
       }
 
       tasks_.clear();
@@ -771,12 +775,15 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       }
 
       // task call can not be used when lock is on
-      if (task_inst && !task_inst->is_exiting()) {
+      if (!task_inst) {
+        continue;
+      }
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-        using task_manager_helper = typename task_type::task_manager_helper;
-        // already cleanup, there is no need to cleanup again
-        task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
+      using task_manager_helper = typename task_type::task_manager_helper;
+      // already cleanup, there is no need to cleanup again
+      task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
 #endif
+      if (!task_inst->is_exiting()) {
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
         task_inst->kill(eptrs, EN_TS_TIMEOUT, nullptr);
 #else
@@ -945,6 +952,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       for (typename container_type::iterator iter = tasks_.begin(); iter != tasks_.end(); ++iter) {
         all_tasks.push_back(iter->second.task_);
         remove_timeout_timer(iter->second);
+#  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+        // no task should refer to this manager any more, even if it's already exiting
+        task_type::task_manager_helper::cleanup_task_manager(*iter->second.task_.get_context(),
+                                                             reinterpret_cast<void *>(this));
+#  endif
       }
 
       tasks_.clear();
@@ -957,12 +969,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
     // then, kill all tasks
     for (typename std::vector<task_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
       if (!(*iter).is_exiting()) {
-#  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-        using task_manager_helper = typename task_type::task_manager_helper;
-        // already cleanup, there is no need to cleanup again
-        task_manager_helper::cleanup_task_manager(*(*iter).get_context(), reinterpret_cast<void *>(this));
-#  endif
-
         (*iter).kill(task_status_type::kKilled);
       }
     }
@@ -1374,12 +1380,15 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       }
 
       // task call can not be used when lock is on
-      if (!task_inst.is_exiting()) {
+      if (!task_inst.get_context()) {
+        continue;
+      }
 #  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-        using task_manager_helper = typename task_type::task_manager_helper;
-        // already cleanup, there is no need to cleanup again
-        task_manager_helper::cleanup_task_manager(*task_inst.get_context(), reinterpret_cast<void *>(this));
+      using task_manager_helper = typename task_type::task_manager_helper;
+      // already cleanup, there is no need to cleanup again
+      task_manager_helper::cleanup_task_manager(*task_inst.get_context(), reinterpret_cast<void *>(this));
 #  endif
+      if (!task_inst.is_exiting()) {
         task_inst.kill(task_status_type::kTimeout);
       }
     }
-- 
2.43.0


From effebe0c361956044a822f64b58c6d4a6745e7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 15/36] fix: task_manager::reset() cleared the flag which
 refuses operations during the reset

Tasks could be added by the callbacks of the killed ones, and were left in
a manager that may be under destruction.
---
 include/libcotask/task_manager.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index c885713..3b1ef09 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -251,9 +251,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
       tasks_.clear();
       task_timeout_timer_.clear();
-      flags_ = 0;
-      last_tick_time_.tv_sec = 0;
-      last_tick_time_.tv_nsec = 0;
+      // if it's called by a task killed in tick(), the time is still that of the tick
+      if (!(flags_ & flag_type::EN_TM_IN_TICK)) {
+        last_tick_time_.tv_sec = 0;
+        last_tick_time_.tv_nsec = 0;
+      }
     }
 
     // then, kill all tasks
@@ -961,9 +963,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
       tasks_.clear();
       task_timeout_timer_.clear();
-      flags_ = 0;
-      last_tick_time_.tv_sec = 0;
-      last_tick_time_.tv_nsec = 0;
+      // if it's called by a task killed in tick(), the time is still that of the tick
+      if (!(flags_ & static_cast<uint32_t>(flag_type::kTimerTick))) {
+        last_tick_time_.tv_sec = 0;
+        last_tick_time_.tv_nsec = 0;
+      }
     }
 
     // then, kill all tasks
-- 
2.43.0


From 24fc21904ad386240fd2d1c69d8b0452a79ae108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 16/36] fix: task_manager::reset() left tasks alive after one
 of them threw an exception

---
 include/libcotask/task_manager.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 3b1ef09..e95aca5 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -259,11 +259,23 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
     }
 
     // then, kill all tasks
+#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
+    std::list<std::exception_ptr> eptrs;
+#endif
     for (typename std::vector<task_ptr_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
       if (!(*iter)->is_exiting()) {
+#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
+        (*iter)->kill(eptrs, EN_TS_KILLED, nullptr);
+#else
         (*iter)->kill(EN_TS_KILLED);
+#endif
       }
     }
+
+#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
+    // all tasks should be killed before rethrow
+    task_type::maybe_rethrow(eptrs);
+#endif
   }
 
   /**
-- 
2.43.0


From f57f4d3196602b3e0df42f22fecd0297c5c78ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 17/36] fix: task_manager::cancel() dropped a running task it
 failed to cancel

---
 include/libcotask/task_manager.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index e95aca5..d30d64b 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -616,6 +616,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
         return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_NOT_FOUND;
       }
 
+      // a running task can not be canceled, keep managing it
+      if (EN_TS_RUNNING == iter->second.task_->get_status()) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IS_RUNNING;
+      }
+
       task_inst = std::move(iter->second.task_);
 
       remove_timeout_timer(iter->second);
-- 
2.43.0


From f74f9e5252f00b2101a7b4e17f5339d90754e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 18/36] fix: task_manager accessed its clock, timers and flags
 without its lock

Adding a task which was just finished by another thread also left it in the
manager.
---
 include/libcotask/task.h         |   5 +
 include/libcotask/task_manager.h | 174 ++++++++++++++++++-------------
 2 files changed, 106 insertions(+), 73 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 4521c09..4d45914 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -864,6 +864,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
         return false;
       }
 
+      // the manager will not be notified any more
+      if (task_inst.is_exiting()) {
+        return false;
+      }
+
       task_inst.binding_manager_ptr_ = manager_ptr;
       task_inst.binding_manager_fn_ = fn;
       return true;
diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index d30d64b..d055994 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -195,20 +195,26 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
   using flag_t = flag_type;
 
  private:
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+  using flags_data_type = LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<int>;
+#else
+  using flags_data_type = LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::unsafe_int_type<int>>;
+#endif
+
   struct flag_guard_type {
-    int *data_;
+    flags_data_type *data_;
     typename flag_type::type flag_;
-    inline flag_guard_type(int *flags, typename flag_type::type v) : data_(flags), flag_(v) {
-      if (nullptr == data_ || (*data_ & flag_)) {
+    inline flag_guard_type(flags_data_type *flags, typename flag_type::type v) : data_(flags), flag_(v) {
+      // only one can own the flag
+      if (nullptr == data_ || (data_->fetch_or(flag_) & flag_)) {
         flag_ = flag_type::EN_TM_NONE;
         data_ = nullptr;
-      } else {
-        (*data_) |= flag_;
       }
     }
     inline ~flag_guard_type() {
       if (*this) {
-        (*data_) &= ~flag_;
+        data_->fetch_and(~flag_);
       }
     }
 
@@ -336,6 +342,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
     using task_manager_helper = typename task_type::task_manager_helper;
     if (!task_manager_helper::setup_task_manager(*task, reinterpret_cast<void *>(this), &task_cleanup_callback)) {
+      if (task->is_exiting()) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_IS_EXITING;
+      }
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER;
     }
 #endif
@@ -709,11 +718,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
    */
   int tick(time_t sec, int nsec = 0) {
     detail::tickspec_t now_tick_time;
-    // time can not be back
-    if (sec < last_tick_time_.tv_sec || (sec == last_tick_time_.tv_sec && nsec <= last_tick_time_.tv_nsec)) {
-      return 0;
-    }
-
     now_tick_time.tv_sec = sec;
     now_tick_time.tv_nsec = nsec;
 
@@ -723,46 +727,53 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
-    }
-
-    // first tick, init and reset task timeout
-    if (0 == last_tick_time_.tv_sec && 0 == last_tick_time_.tv_nsec) {
+    {
       // hold lock
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
       LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
           action_lock_};
 #endif
 
-      std::set<detail::task_timer_node<id_type>> real_checkpoints;
-      for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
-           task_timeout_timer_.end() != iter; ++iter) {
-        detail::task_timer_node<id_type> new_checkpoint = (*iter);
-        new_checkpoint.expired_time = detail::add_tickspec(new_checkpoint.expired_time, sec, nsec);
-        real_checkpoints.insert(new_checkpoint);
+      // time can not be back
+      if (sec < last_tick_time_.tv_sec || (sec == last_tick_time_.tv_sec && nsec <= last_tick_time_.tv_nsec)) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
       }
 
-      task_timeout_timer_.swap(real_checkpoints);
-      for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
-           task_timeout_timer_.end() != iter; ++iter) {
-        const typename std::set<detail::task_timer_node<id_type>>::value_type &checkpoint = *iter;
-        using co_iter_type = typename container_type::iterator;
-        co_iter_type  co_iter = tasks_.find(checkpoint.task_id);
+      if (flags_ & flag_type::EN_TM_IN_RESET) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
+      }
+
+      // first tick, init and reset task timeout
+      if (0 == last_tick_time_.tv_sec && 0 == last_tick_time_.tv_nsec) {
+        std::set<detail::task_timer_node<id_type>> real_checkpoints;
+        for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
+             task_timeout_timer_.end() != iter; ++iter) {
+          detail::task_timer_node<id_type> new_checkpoint = (*iter);
+          new_checkpoint.expired_time = detail::add_tickspec(new_checkpoint.expired_time, sec, nsec);
+          real_checkpoints.insert(new_checkpoint);
+        }
+
+        task_timeout_timer_.swap(real_checkpoints);
+        for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
+             task_timeout_timer_.end() != iter; ++iter) {
+          const typename std::set<detail::task_timer_node<id_type>>::value_type &checkpoint = *iter;
+          using co_iter_type = typename container_type::iterator;
+          co_iter_type  co_iter = tasks_.find(checkpoint.task_id);
 
-        if (tasks_.end() != co_iter) {
-          co_iter->second.timer_node = iter;
+          if (tasks_.end() != co_iter) {
+            co_iter->second.timer_node = iter;
+          }
         }
+        last_tick_time_ = now_tick_time;
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
       }
-      last_tick_time_ = now_tick_time;
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
     std::list<std::exception_ptr> eptrs;
 #endif
     // remove timeout tasks
-    while (false == task_timeout_timer_.empty()) {
+    while (true) {
       task_ptr_type task_inst;
 
       {
@@ -772,10 +783,16 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
             action_lock_};
 #endif
 
+        if (task_timeout_timer_.empty()) {
+          last_tick_time_ = now_tick_time;
+          break;
+        }
+
         const typename std::set<detail::task_timer_node<id_type>>::value_type &timer_node =
             *task_timeout_timer_.begin();
         // all tasks those expired time less than now are timeout
         if (now_tick_time <= timer_node.expired_time) {
+          last_tick_time_ = now_tick_time;
           break;
         }
 
@@ -811,8 +828,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       }
     }
 
-    last_tick_time_ = now_tick_time;
-
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
     task_type::maybe_rethrow(eptrs);
 #endif
@@ -899,7 +914,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
   LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock action_lock_;
 #endif
-  int flags_;
+  flags_data_type flags_;
 };
 
 #if defined(LIBCOPP_MACRO_ENABLE_STD_COROUTINE) && LIBCOPP_MACRO_ENABLE_STD_COROUTINE
@@ -923,20 +938,26 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
   };
 
  private:
+#  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+  using flags_data_type = LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<uint32_t>;
+#  else
+  using flags_data_type = LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::unsafe_int_type<uint32_t>>;
+#  endif
+
   struct flag_guard_type {
-    uint32_t *data_;
+    flags_data_type *data_;
     flag_type flag_;
-    inline flag_guard_type(uint32_t *flags, flag_type v) : data_(flags), flag_(v) {
-      if (nullptr == data_ || (*data_ & static_cast<uint32_t>(flag_))) {
+    inline flag_guard_type(flags_data_type *flags, flag_type v) : data_(flags), flag_(v) {
+      // only one can own the flag
+      if (nullptr == data_ || (data_->fetch_or(static_cast<uint32_t>(flag_)) & static_cast<uint32_t>(flag_))) {
         flag_ = flag_type::kNone;
         data_ = nullptr;
-      } else {
-        (*data_) |= static_cast<uint32_t>(flag_);
       }
     }
     inline ~flag_guard_type() {
       if (*this) {
-        (*data_) &= ~static_cast<uint32_t>(flag_);
+        data_->fetch_and(~static_cast<uint32_t>(flag_));
       }
     }
 
@@ -1319,11 +1340,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
    */
   int tick(time_t sec, int nsec = 0) {
     detail::tickspec_t now_tick_time;
-    // time can not be back
-    if (sec < last_tick_time_.tv_sec || (sec == last_tick_time_.tv_sec && nsec <= last_tick_time_.tv_nsec)) {
-      return 0;
-    }
-
     now_tick_time.tv_sec = sec;
     now_tick_time.tv_nsec = nsec;
 
@@ -1333,43 +1349,50 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
-    }
-
-    // first tick, init and reset task timeout
-    if (0 == last_tick_time_.tv_sec && 0 == last_tick_time_.tv_nsec) {
+    {
       // hold lock
 #  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
       LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
           action_lock_};
 #  endif
 
-      std::set<detail::task_timer_node<id_type>> real_checkpoints;
-      for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
-           task_timeout_timer_.end() != iter; ++iter) {
-        detail::task_timer_node<id_type> new_checkpoint = (*iter);
-        new_checkpoint.expired_time = detail::add_tickspec(new_checkpoint.expired_time, sec, nsec);
-        real_checkpoints.insert(new_checkpoint);
+      // time can not be back
+      if (sec < last_tick_time_.tv_sec || (sec == last_tick_time_.tv_sec && nsec <= last_tick_time_.tv_nsec)) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
+      }
+
+      if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
       }
 
-      task_timeout_timer_.swap(real_checkpoints);
-      for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
-           task_timeout_timer_.end() != iter; ++iter) {
-        const typename std::set<detail::task_timer_node<id_type>>::value_type &checkpoint = *iter;
-        using co_iter_type = typename container_type::iterator;
-        co_iter_type  co_iter = tasks_.find(checkpoint.task_id);
+      // first tick, init and reset task timeout
+      if (0 == last_tick_time_.tv_sec && 0 == last_tick_time_.tv_nsec) {
+        std::set<detail::task_timer_node<id_type>> real_checkpoints;
+        for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
+             task_timeout_timer_.end() != iter; ++iter) {
+          detail::task_timer_node<id_type> new_checkpoint = (*iter);
+          new_checkpoint.expired_time = detail::add_tickspec(new_checkpoint.expired_time, sec, nsec);
+          real_checkpoints.insert(new_checkpoint);
+        }
+
+        task_timeout_timer_.swap(real_checkpoints);
+        for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
+             task_timeout_timer_.end() != iter; ++iter) {
+          const typename std::set<detail::task_timer_node<id_type>>::value_type &checkpoint = *iter;
+          using co_iter_type = typename container_type::iterator;
+          co_iter_type  co_iter = tasks_.find(checkpoint.task_id);
 
-        if (tasks_.end() != co_iter) {
-          co_iter->second.timer_node = iter;
+          if (tasks_.end() != co_iter) {
+            co_iter->second.timer_node = iter;
+          }
         }
+        last_tick_time_ = now_tick_time;
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
       }
-      last_tick_time_ = now_tick_time;
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
     // remove timeout tasks
-    while (false == task_timeout_timer_.empty()) {
+    while (true) {
       task_type task_inst;
 
       {
@@ -1379,10 +1402,16 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
             action_lock_};
 #  endif
 
+        if (task_timeout_timer_.empty()) {
+          last_tick_time_ = now_tick_time;
+          break;
+        }
+
         const typename std::set<detail::task_timer_node<id_type>>::value_type &timer_node =
             *task_timeout_timer_.begin();
         // all tasks those expired time less than now are timeout
         if (now_tick_time <= timer_node.expired_time) {
+          last_tick_time_ = now_tick_time;
           break;
         }
 
@@ -1414,7 +1443,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       }
     }
 
-    last_tick_time_ = now_tick_time;
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
   }
 
@@ -1498,7 +1526,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 #  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
   LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock action_lock_;
 #  endif
-  uint32_t flags_;
+  flags_data_type flags_;
 };
 #endif
 
-- 
2.43.0


From 77ce86d0c70191f1db27099ab78c59a05adf33a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 19/36] fix: a suspending coroutine could be resumed by another
 thread before its context was saved

yield() set the status to ready before switching out of its stack.
---
 src/libcopp/coroutine/coroutine_context.cpp | 36 ++++++++++-----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/libcopp/coroutine/coroutine_context.cpp b/src/libcopp/coroutine/coroutine_context.cpp
index 19e6fdd..32e8be0 100755
--- a/src/libcopp/coroutine/coroutine_context.cpp
+++ b/src/libcopp/coroutine/coroutine_context.cpp
@@ -351,10 +351,6 @@ LIBCOPP_COPP_API int coroutine_context::start(std::exception_ptr &unhandled, voi
 #else
 LIBCOPP_COPP_API int coroutine_context::start(void *priv_data) {
 #endif
-  if (nullptr == callee_) {
-    return COPP_EC_NOT_INITED;
-  }
-
 #if defined(LIBCOPP_MACRO_ENABLE_WIN_FIBER) && LIBCOPP_MACRO_ENABLE_WIN_FIBER
   {
     coroutine_context_base *this_ctx = detail::get_this_coroutine_context();
@@ -387,6 +383,12 @@ LIBCOPP_COPP_API int coroutine_context::start(void *priv_data) {
     }
   } while (true);
 
+  // callee_ can only be accessed by the one who set the status to running
+  if (nullptr == callee_) {
+    status_.store(status_type::EN_CRS_READY, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
+    return COPP_EC_NOT_INITED;
+  }
+
   jump_src_data_t jump_data;
 #if defined(LIBCOPP_MACRO_ENABLE_WIN_FIBER) && LIBCOPP_MACRO_ENABLE_WIN_FIBER
   jump_data.from_co = LIBCOPP_COPP_NAMESPACE_ID::this_coroutine::get_coroutine();
@@ -402,18 +404,21 @@ LIBCOPP_COPP_API int coroutine_context::start(void *priv_data) {
   jump_to(callee_, callee_stack_, callee_stack_, jump_data);
 #endif
 
-  // Move changing status to EN_CRS_EXITED is finished
-  if (check_flags(flag_type::EN_CFT_FINISHED)) {
-    // if in finished status, change it to exited
-    status_.store(status_type::EN_CRS_EXITED, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
-  }
-
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
   COPP_UNLIKELY_IF (unhandle_exception_) {
     std::swap(unhandled, unhandle_exception_);
   }
 #endif
 
+  // Move changing status to EN_CRS_READY or EN_CRS_EXITED here, it's not safe to start it again from another thread
+  // before its context is saved and this thread leaved its stack
+  if (check_flags(flag_type::EN_CFT_FINISHED)) {
+    // if in finished status, change it to exited
+    status_.store(status_type::EN_CRS_EXITED, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
+  } else {
+    status_.store(status_type::EN_CRS_READY, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
+  }
+
   return COPP_EC_SUCCESS;
 }
 
@@ -429,14 +434,9 @@ LIBCOPP_COPP_API int coroutine_context::yield(void **priv_data) LIBCOPP_MACRO_NO
     return COPP_EC_NOT_INITED;
   }
 
-  int from_status = status_type::EN_CRS_RUNNING;
-  int to_status = status_type::EN_CRS_READY;
-  if (check_flags(flag_type::EN_CFT_FINISHED)) {
-    to_status = status_type::EN_CRS_FINISHED;
-  }
-  if (false == status_.compare_exchange_strong(from_status, to_status,
-                                               LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acq_rel,
-                                               LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acquire)) {
+  // status will be changed by start() after switched out
+  int from_status = status_.load(LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acquire);
+  if (status_type::EN_CRS_RUNNING != from_status) {
     switch (from_status) {
       case status_type::EN_CRS_INVALID:
         return COPP_EC_NOT_INITED;
-- 
2.43.0


From 1d2e3713b9a71e6495bca91f28984daf4cce9dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 20/36] fix: a finished task notified its manager which was
 destroyed by the task following it

---
 include/libcotask/task.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 4d45914..206649e 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -718,10 +718,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
   void active_next_tasks() {
 #endif
     std::list<std::pair<ptr_type, void *> > next_list;
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-    void *manager_ptr;
-    void (*manager_fn)(void *, self_type &);
-#endif
     // first, lock and swap container
     {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
@@ -729,12 +725,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
           inner_action_lock_);
 #endif
       next_list.swap(next_list_.member_list_);
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-      manager_ptr = binding_manager_ptr_;
-      manager_fn = binding_manager_fn_;
-      binding_manager_ptr_ = nullptr;
-      binding_manager_fn_ = nullptr;
-#endif
     }
 
     // then, do all the pending tasks
@@ -765,6 +755,19 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     // finally, notify manager to cleanup(maybe start or resume with task's API but not task_manager's)
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+    void *manager_ptr;
+    void (*manager_fn)(void *, self_type &);
+    {
+      // the manager may be already destroyed by a task above, it unbinds this task in that case
+#  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
+#  endif
+      manager_ptr = binding_manager_ptr_;
+      manager_fn = binding_manager_fn_;
+      binding_manager_ptr_ = nullptr;
+      binding_manager_fn_ = nullptr;
+    }
     if (nullptr != manager_ptr && nullptr != manager_fn) {
       (*manager_fn)(manager_ptr, *this);
     }
-- 
2.43.0


From 8d878250d27da63faebe2123c5699617901c510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 21/36] fix: awaiting a task which finishes in another thread
 could sleep forever

---
 include/libcotask/task.h | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 206649e..b88d31b 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -348,20 +348,26 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_NOT_IN_ACTION;
     }
 
+    // wait_task may finish in another thread before this task is switched out, it must not miss this task then
+    awaiting_.store(1);
+
     // add to next list failed
     if (wait_task->next(ptr_type(this)).get() != this) {
+      awaiting_.store(0);
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_ADD_NEXT_FAILED;
     }
 
     int ret = 0;
     while (!(wait_task->is_exiting() || wait_task->is_completed())) {
       if (is_exiting()) {
-        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_IS_EXITING;
+        ret = LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_IS_EXITING;
+        break;
       }
 
       ret = yield();
     }
 
+    awaiting_.store(0);
     return ret;
   }
 
@@ -738,13 +744,22 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       if (iter->first->get_status() < EN_TS_RUNNING) {
         iter->first->start(unhandled, iter->second);
       } else {
-        iter->first->resume(unhandled, iter->second);
+        // a task which is just going to wait for this one in another thread will be able to be resumed soon
+        unsigned char try_times = 0;
+        while (LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IS_RUNNING == iter->first->resume(unhandled, iter->second) &&
+               0 != iter->first->awaiting_.load()) {
+          __LIBCOPP_UTIL_LOCK_SPIN_LOCK_WAIT(try_times++);
+        }
       }
 #else
       if (iter->first->get_status() < EN_TS_RUNNING) {
         iter->first->start(iter->second);
       } else {
-        iter->first->resume(iter->second);
+        unsigned char try_times = 0;
+        while (LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IS_RUNNING == iter->first->resume(iter->second) &&
+               0 != iter->first->awaiting_.load()) {
+          __LIBCOPP_UTIL_LOCK_SPIN_LOCK_WAIT(try_times++);
+        }
       }
 #endif
     }
@@ -984,11 +999,15 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
   LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<size_t> ref_count_; /** ref_count **/
+  LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<size_t> awaiting_;  /** not 0 inside await_task() **/
   LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock inner_action_lock_;
 #else
   LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<
       LIBCOPP_COPP_NAMESPACE_ID::util::lock::unsafe_int_type<size_t> >
       ref_count_; /** ref_count **/
+  LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::unsafe_int_type<size_t> >
+      awaiting_; /** not 0 inside await_task() **/
 #endif
 
   // ============== binding to task manager ==============
-- 
2.43.0


From 6fcc5a93a825ddd51a8e460cfb078963d907414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:35 +0000
Subject: [PATCH 22/36] fix: swapping results of different modes lost part of
 the larger value

---
 include/libcopp/future/storage.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/libcopp/future/storage.h b/include/libcopp/future/storage.h
index 6350f4d..23d004e 100644
--- a/include/libcopp/future/storage.h
+++ b/include/libcopp/future/storage.h
@@ -433,13 +433,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY result_base<TOK, TERR, true> {
   }
 
   inline void swap(result_base &other) LIBCOPP_MACRO_NOEXCEPT {
-    using std::swap;
-    if (is_success()) {
-      swap(success_data_, other.success_data_);
-    } else {
-      swap(error_data_, other.error_data_);
-    }
-    swap(mode_, other.mode_);
+    // the two sides may hold different members of the union
+    result_base tmp = other;
+    other = *this;
+    *this = tmp;
   }
 
   UTIL_FORCEINLINE friend void swap(result_base &l, result_base &r) LIBCOPP_MACRO_NOEXCEPT { l.swap(r); }
-- 
2.43.0


From 61a09b7da38a47a490ed5282c8bae352ff508aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 23/36] fix: a moved-from lock guard released the lock again

---
 include/libcopp/utils/lock_holder.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/libcopp/utils/lock_holder.h b/include/libcopp/utils/lock_holder.h
index 4a4ebf7..09c5e5b 100755
--- a/include/libcopp/utils/lock_holder.h
+++ b/include/libcopp/utils/lock_holder.h
@@ -91,11 +91,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY lock_holder {
       return *this;
     }
 
-    if (lock_flag_ != other.lock_flag_) {
-      reset();
-    }
+    reset();
 
     lock_flag_ = other.lock_flag_;
+    other.lock_flag_ = nullptr;
     return *this;
   }
 
-- 
2.43.0


From 02a6cf7365e5913746bf791788a87093d6f5d244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 24/36] fix: a waiter ended by another resumed waiter was
 resumed after it's destroyed

---
 .../libcopp/coroutine/std_coroutine_common.h  |  19 +++
 .../coroutine/std_coroutine_common.cpp        | 118 ++++++++++++------
 2 files changed, 96 insertions(+), 41 deletions(-)

diff --git a/include/libcopp/coroutine/std_coroutine_common.h b/include/libcopp/coroutine/std_coroutine_common.h
index 8f86aca..07a6a61 100644
--- a/include/libcopp/coroutine/std_coroutine_common.h
+++ b/include/libcopp/coroutine/std_coroutine_common.h
@@ -172,6 +172,8 @@ class promise_caller_manager {
 
   LIBCOPP_COPP_API size_t resume_callers();
 
+  // If there is any caller which is not resumed yet
+  LIBCOPP_COPP_API bool has_callers() const noexcept;
   LIBCOPP_COPP_API bool has_multiple_callers() const noexcept;
 
  private:
@@ -183,6 +185,21 @@ class promise_caller_manager {
   };
 
   using multi_caller_set = std::unordered_set<handle_delegate, handle_delegate_hash>;
+
+  // Callers taken out by resume_callers() but not resumed yet. It lives on the stack of the outermost resume_callers()
+  // because the manager may be destroyed by a resumed caller.
+  struct LIBCOPP_COPP_API_HEAD_ONLY resuming_callers {
+    promise_caller_manager *manager = nullptr;
+    multi_caller_set pending;
+
+    inline ~resuming_callers() {
+      if (nullptr != manager) {
+        manager->resuming_ = nullptr;
+      }
+    }
+  };
+  resuming_callers *resuming_;
+
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
   std::variant<handle_delegate, multi_caller_set> callers_;
 #  else
@@ -320,6 +337,8 @@ class promise_base_type {
     remove_caller(handle_delegate{handle}, inherit_status);
   }
 
+  UTIL_FORCEINLINE bool has_callers() const noexcept { return caller_manager_.has_callers(); }
+
   UTIL_FORCEINLINE bool has_multiple_callers() const noexcept { return caller_manager_.has_multiple_callers(); }
 
   LIBCOPP_COPP_API pick_promise_status_awaitable yield_value(pick_promise_status_awaitable &&args) const noexcept;
diff --git a/src/libcopp/coroutine/std_coroutine_common.cpp b/src/libcopp/coroutine/std_coroutine_common.cpp
index b08f415..293f7b3 100644
--- a/src/libcopp/coroutine/std_coroutine_common.cpp
+++ b/src/libcopp/coroutine/std_coroutine_common.cpp
@@ -18,7 +18,7 @@
 LIBCOPP_COPP_NAMESPACE_BEGIN
 
 LIBCOPP_COPP_API promise_caller_manager::promise_caller_manager()
-    :
+    : resuming_(nullptr),
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
       callers_(handle_delegate{nullptr})
 #  else
@@ -27,7 +27,11 @@ LIBCOPP_COPP_API promise_caller_manager::promise_caller_manager()
 {
 }
 
-LIBCOPP_COPP_API promise_caller_manager::~promise_caller_manager() {}
+LIBCOPP_COPP_API promise_caller_manager::~promise_caller_manager() {
+  if (nullptr != resuming_) {
+    resuming_->manager = nullptr;
+  }
+}
 
 LIBCOPP_COPP_API void promise_caller_manager::add_caller(handle_delegate delegate) noexcept {
   if (!delegate.handle || delegate.handle.done()) {
@@ -65,10 +69,15 @@ LIBCOPP_COPP_API void promise_caller_manager::add_caller(handle_delegate delegat
 
 LIBCOPP_COPP_API bool promise_caller_manager::remove_caller(handle_delegate delegate) noexcept {
   bool has_caller = false;
+  // A caller which is not resumed yet should not be touched any more
+  if (nullptr != resuming_ && resuming_->pending.erase(delegate) > 0) {
+    has_caller = true;
+  }
+
   do {
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
     if (std::holds_alternative<multi_caller_set>(callers_)) {
-      has_caller = std::get<multi_caller_set>(callers_).erase(delegate) > 0;
+      has_caller = std::get<multi_caller_set>(callers_).erase(delegate) > 0 || has_caller;
       break;
     }
 
@@ -84,7 +93,7 @@ LIBCOPP_COPP_API bool promise_caller_manager::remove_caller(handle_delegate dele
     }
 
     if (multiple_callers_) {
-      has_caller = multiple_callers_->erase(delegate) > 0;
+      has_caller = multiple_callers_->erase(delegate) > 0 || has_caller;
     }
 #  endif
   } while (false);
@@ -92,56 +101,83 @@ LIBCOPP_COPP_API bool promise_caller_manager::remove_caller(handle_delegate dele
   return has_caller;
 }
 
+static bool resume_caller(const promise_caller_manager::handle_delegate &caller) {
+  if (caller.handle && !caller.handle.done() &&
+      (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
+    promise_caller_manager::type_erased_handle_type handle = caller.handle;
+    handle.resume();
+    return true;
+  }
+  return false;
+}
+
 LIBCOPP_COPP_API size_t promise_caller_manager::resume_callers() {
-  size_t resume_count = 0;
+  handle_delegate unique_caller{nullptr};
+  multi_caller_set multiple_callers;
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
   if (std::holds_alternative<handle_delegate>(callers_)) {
-    auto caller = std::get<handle_delegate>(callers_);
+    unique_caller = std::get<handle_delegate>(callers_);
     std::get<handle_delegate>(callers_) = nullptr;
-    if (caller.handle && !caller.handle.done() &&
-        (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
-      caller.handle.resume();
-      ++resume_count;
-    }
   } else if (std::holds_alternative<multi_caller_set>(callers_)) {
-    multi_caller_set callers;
-    callers.swap(std::get<multi_caller_set>(callers_));
-    for (auto &caller : callers) {
-      if (caller.handle && !caller.handle.done() &&
-          (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
-        type_erased_handle_type handle = caller.handle;
-        handle.resume();
-        ++resume_count;
-      }
-    }
+    multiple_callers.swap(std::get<multi_caller_set>(callers_));
   }
 #  else
-  auto unique_caller = unique_caller_;
+  unique_caller = unique_caller_;
   unique_caller_ = nullptr;
-  std::unique_ptr<multi_caller_set> multiple_callers;
-  multiple_callers.swap(multiple_callers_);
-
-  // The promise object may be destroyed after first caller.resume()
-  if (unique_caller.handle && !unique_caller.handle.done() &&
-      (nullptr == unique_caller.promise || !unique_caller.promise->check_flag(promise_flag::kDestroying))) {
-    unique_caller.handle.resume();
-    ++resume_count;
-  }
-
-  if (multiple_callers) {
-    for (auto &caller : *multiple_callers) {
-      if (caller.handle && !caller.handle.done() &&
-          (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
-        type_erased_handle_type handle = caller.handle;
-        handle.resume();
-        ++resume_count;
-      }
-    }
+  if (multiple_callers_) {
+    multiple_callers.swap(*multiple_callers_);
   }
 #  endif
+
+  // Mostly, there is only one caller
+  if (nullptr == resuming_ && multiple_callers.empty()) {
+    return resume_caller(unique_caller) ? 1 : 0;
+  }
+
+  // Remove callers one by one, so a resumed caller can still see and remove the others.
+  resuming_callers local_resuming;
+  if (nullptr == resuming_) {
+    local_resuming.manager = this;
+    resuming_ = &local_resuming;
+  }
+  resuming_callers *resuming = resuming_;
+  if (unique_caller) {
+    resuming->pending.insert(unique_caller);
+  }
+  if (resuming->pending.empty()) {
+    resuming->pending.swap(multiple_callers);
+  } else {
+    resuming->pending.insert(multiple_callers.begin(), multiple_callers.end());
+  }
+
+  // This object may be destroyed after any caller is resumed
+  size_t resume_count = 0;
+  while (!resuming->pending.empty()) {
+    handle_delegate caller = *resuming->pending.begin();
+    resuming->pending.erase(resuming->pending.begin());
+    if (resume_caller(caller)) {
+      ++resume_count;
+    }
+  }
   return resume_count;
 }
 
+LIBCOPP_COPP_API bool promise_caller_manager::has_callers() const noexcept {
+  if (nullptr != resuming_ && !resuming_->pending.empty()) {
+    return true;
+  }
+#  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
+  if (std::holds_alternative<handle_delegate>(callers_)) {
+    return !!std::get<handle_delegate>(callers_);
+  } else if (std::holds_alternative<multi_caller_set>(callers_)) {
+    return !std::get<multi_caller_set>(callers_).empty();
+  }
+  return false;
+#  else
+  return unique_caller_ || (multiple_callers_ && !multiple_callers_->empty());
+#  endif
+}
+
 LIBCOPP_COPP_API bool promise_caller_manager::has_multiple_callers() const noexcept {
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
   if (std::holds_alternative<handle_delegate>(callers_)) {
-- 
2.43.0


From 728b295f03b85b19fb91c1e1443ef79ca9b4090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 25/36] fix: the value was moved out for the first of several
 waiters

---
 include/libcopp/coroutine/callable_promise.h  |  7 +++++++
 include/libcopp/coroutine/generator_promise.h | 11 ++++-------
 include/libcotask/task_promise.h              | 17 ++++++++++-------
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 88e72f1..d416d34 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -246,6 +246,13 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_awaitable<TPROMISE, TERROR_TRANSFORM,
       return TERROR_TRANSFORM()(callee_promise.get_status());
     }
 
+    // Other callers need this value, too
+    if constexpr (std::is_copy_constructible<value_type>::value) {
+      if (callee_promise.has_callers()) {
+        return callee_promise.data();
+      }
+    }
+
     return std::move(callee_promise.data());
   }
 };
diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index 75db8e8..941af6f 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -90,6 +90,8 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_context_base {
     remove_caller(handle_delegate{handle}, inherit_status);
   }
 
+  UTIL_FORCEINLINE bool has_callers() const noexcept { return caller_manager_.has_callers(); }
+
   UTIL_FORCEINLINE bool has_multiple_callers() const noexcept { return caller_manager_.has_multiple_callers(); }
 
  protected:
@@ -441,12 +443,6 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_awaitable<TCONTEXT, false> : public g
       : base_type(context, vtable) {}
 
   inline value_type await_resume() {
-    bool has_multiple_callers;
-    COPP_LIKELY_IF (nullptr != get_context()) {
-      has_multiple_callers = get_context()->has_multiple_callers();
-    } else {
-      has_multiple_callers = false;
-    }
     promise_status result_status = detach();
 
     if (promise_status::kDone != result_status) {
@@ -454,7 +450,8 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_awaitable<TCONTEXT, false> : public g
     }
 
     COPP_LIKELY_IF (nullptr != get_context()) {
-      if (has_multiple_callers) {
+      // Other callers need this value, too
+      if (get_context()->has_callers()) {
         return *get_context()->data();
       } else {
         return multiple_callers_constructor<value_type>::return_value(*get_context()->data());
diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index c407ca4..64ec668 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -109,6 +109,14 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_context_base {
 
   UTIL_FORCEINLINE id_type get_id() const noexcept { return id_; }
 
+  UTIL_FORCEINLINE bool has_callers() const noexcept {
+    if (nullptr != current_handle_.promise) {
+      return current_handle_.promise->has_callers();
+    }
+
+    return false;
+  }
+
   UTIL_FORCEINLINE bool has_multiple_callers() const noexcept {
     if (nullptr != current_handle_.promise) {
       return current_handle_.promise->has_multiple_callers();
@@ -717,12 +725,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_awaitable<TCONTEXT, false> : public task
   task_awaitable(context_type* context) : base_type(context) {}
 
   inline value_type await_resume() {
-    bool has_multiple_callers;
-    COPP_LIKELY_IF (nullptr != get_context()) {
-      has_multiple_callers = get_context()->has_multiple_callers();
-    } else {
-      has_multiple_callers = false;
-    }
     task_status_type result_status = detach();
 
     if (task_status_type::kDone != result_status) {
@@ -730,7 +732,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_awaitable<TCONTEXT, false> : public task
     }
 
     COPP_LIKELY_IF (nullptr != get_context()) {
-      if (has_multiple_callers) {
+      // Other callers need this value, too
+      if (get_context()->has_callers()) {
         return *get_context()->data();
       } else {
         return LIBCOPP_COPP_NAMESPACE_ID::multiple_callers_constructor<value_type>::return_value(
-- 
2.43.0


From 847ac12147694898b1c088ae3f8a0a4bc0a1454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 26/36] fix: the suspend callback of a generator was destroyed
 while it's running

---
 include/libcopp/coroutine/generator_promise.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index 941af6f..4971edd 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -332,8 +332,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_awaitable_base : public awaitable_bas
       caller.promise().set_flag(promise_flag::kInternalWaitting, true);
 
       // Custom event. awaitable object may be deleted after this call
-      if (vtable_ && vtable_->get_await_suspend_callback()) {
-        vtable_->get_await_suspend_callback()(context_->shared_from_this());
+      // Keep the callback alive until it returns, it may set the value and then the caller destroys the generator
+      copp::util::intrusive_ptr<vtable_type> vtable = vtable_;
+      if (vtable && vtable->get_await_suspend_callback()) {
+        vtable->get_await_suspend_callback()(context_->shared_from_this());
       }
 
       return true;
-- 
2.43.0


From 56a32d0747c81214f5ea7843d04e4ecf94a576cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 27/36] fix: all() of futures could return before all of them
 are ready

---
 include/libcopp/coroutine/callable_promise.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index d416d34..01788bc 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -632,8 +632,8 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
       co_return promise_status::kDone;
     }
 
-    if (ready_count >= context.pending.size() + ready_futures.size()) {
-      ready_count = context.pending.size() + ready_futures.size();
+    if (ready_count >= context.pending.size() + context.ready.size()) {
+      ready_count = context.pending.size() + context.ready.size();
     }
     context.ready_bound = ready_count;
     context.scan_bound = context.ready.size();
-- 
2.43.0


From d865ef71247c6877e101ee02f349670ccf8d25d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 28/36] fix: some() could miss futures which become ready while
 it's suspending

---
 include/libcopp/coroutine/callable_promise.h | 38 +++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 01788bc..2677ad8 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -471,6 +471,8 @@ struct LIBCOPP_COPP_API_HEAD_ONLY some_delegate_context {
   ready_output_type ready;
   size_t ready_bound = 0;
   size_t scan_bound = 0;
+  bool suspending = false;
+  bool resumed_when_suspending = false;
   promise_status status = promise_status::kCreated;
   promise_caller_manager::handle_delegate caller_handle = promise_caller_manager::handle_delegate(nullptr);
 };
@@ -500,6 +502,15 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
     }
   }
 
+  static bool has_ready(const context_type& context) {
+    for (auto& pending_future : context.pending) {
+      if (!delegate_action_type::is_pending(*pending_future)) {
+        return true;
+      }
+    }
+    return false;
+  }
+
   static void scan_ready(context_type& context) {
     auto iter = context.pending.begin();
 
@@ -552,11 +563,22 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
 
       // set caller for all futures
       if (!context_->caller_handle) {
-        context_->caller_handle = caller;
-        // Copy pending here, the callback may call resume and will change the pending list
-        std::list<future_type*> copy_pending = context_->pending;
-        for (auto& pending_future : copy_pending) {
-          delegate_action_type::suspend_future(context_->caller_handle, *pending_future);
+        // The callback may resume the caller and then this object is destroyed
+        context_type* context = context_;
+        context->caller_handle = caller;
+        context->suspending = true;
+        for (auto& pending_future : context->pending) {
+          delegate_action_type::suspend_future(context->caller_handle, *pending_future);
+        }
+        context->suspending = false;
+
+        // Futures which become ready in the callbacks may not resume the caller any more
+        if (has_ready(*context)) {
+          context->scan_bound = context->ready_bound;
+          if (!context->resumed_when_suspending) {
+            return false;
+          }
+          caller.resume();
         }
       }
 
@@ -577,6 +599,12 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
         return;
       }
 
+      // Scan after all futures are suspended
+      if (context_->suspending) {
+        context_->resumed_when_suspending = true;
+        return;
+      }
+
       ++context_->scan_bound;
       if (context_->scan_bound >= context_->ready_bound) {
         scan_ready(*context_);
-- 
2.43.0


From 7fbce79b4226a2cdc558dec51c077798a7b98352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 29/36] fix: task_manager::remove_task() of C++20 tasks returns
 1 when it killed the task

---
 include/libcotask/task_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index d055994..a0023b1 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -1188,7 +1188,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
       task_status_type task_status = task_inst.get_status();
       if (task_status > task_status_type::kCreated && task_status < task_status_type::kDone) {
-        return task_inst.kill(task_status_type::kKilled);
+        task_inst.kill(task_status_type::kKilled);
       }
     }
 
-- 
2.43.0


From 234a3192d9d7639dd9e1d537f67ae40df6369880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 30/36] fix: task removed from task_manager was refused as in
 another manager when added again at once

---
 include/libcotask/task_manager.h | 37 ++++++++++++++------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index a0023b1..7f8f936 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -455,15 +455,13 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
       remove_timeout_timer(iter->second);
       tasks_.erase(iter);
-    }
-
-    if (task_inst) {
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-      using task_manager_helper = typename task_type::task_manager_helper;
-      // already cleanup, there is no need to cleanup again
-      task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
+      // it can be added again as soon as it's not in the container, so unbind it before unlock
+      task_type::task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
 #endif
+    }
 
+    if (task_inst) {
       EN_TASK_STATUS task_status = task_inst->get_status();
       if (task_status > EN_TS_CREATED && task_status < EN_TS_DONE) {
         return task_inst->kill(EN_TS_KILLED, nullptr);
@@ -634,15 +632,14 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
       remove_timeout_timer(iter->second);
       tasks_.erase(iter);  // remove from container
+#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      // it can be added again as soon as it's not in the container, so unbind it before unlock
+      task_type::task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
+#endif
     }
 
     // unlock and then run cancel
     if (task_inst) {
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-      using task_manager_helper = typename task_type::task_manager_helper;
-      // already cleanup, there is no need to cleanup again
-      task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
-#endif
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
       return task_inst->cancel(unhandled, priv_data);
 #else
@@ -687,15 +684,14 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
       remove_timeout_timer(iter->second);
       tasks_.erase(iter);  // remove from container
+#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      // it can be added again as soon as it's not in the container, so unbind it before unlock
+      task_type::task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
+#endif
     }
 
     // unlock and then run kill
     if (task_inst) {
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-      using task_manager_helper = typename task_type::task_manager_helper;
-      // already cleanup, there is no need to cleanup again
-      task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
-#endif
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
       return task_inst->kill(unhandled, status, priv_data);
 #else
@@ -807,6 +803,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
           remove_timeout_timer(iter->second);
           tasks_.erase(iter);  // remove from container
+#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+          // it can be added again as soon as it's not in the container, so unbind it before unlock
+          task_type::task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
+#endif
         }
       }
 
@@ -814,11 +814,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       if (!task_inst) {
         continue;
       }
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-      using task_manager_helper = typename task_type::task_manager_helper;
-      // already cleanup, there is no need to cleanup again
-      task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
-#endif
       if (!task_inst->is_exiting()) {
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
         task_inst->kill(eptrs, EN_TS_TIMEOUT, nullptr);
-- 
2.43.0


From 0967d7b5b5a8ba74d21b8ff95305ee358270ed1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 31/36] fix: task_manager::cancel() lost a task which just
 began to run in another thread

---
 include/libcotask/task_manager.h | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 7f8f936..aa80609 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -623,28 +623,23 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
         return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_NOT_FOUND;
       }
 
-      // a running task can not be canceled, keep managing it
-      if (EN_TS_RUNNING == iter->second.task_->get_status()) {
-        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IS_RUNNING;
-      }
-
-      task_inst = std::move(iter->second.task_);
-
-      remove_timeout_timer(iter->second);
-      tasks_.erase(iter);  // remove from container
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-      // it can be added again as soon as it's not in the container, so unbind it before unlock
-      task_type::task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
-#endif
+      task_inst = iter->second.task_;
     }
 
     // unlock and then run cancel
     if (task_inst) {
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
-      return task_inst->cancel(unhandled, priv_data);
+      int ret = task_inst->cancel(unhandled, priv_data);
 #else
-      return task_inst->cancel(priv_data);
+      int ret = task_inst->cancel(priv_data);
 #endif
+
+      // a running task can not be canceled, keep managing it
+      if (task_inst->get_status() >= EN_TS_DONE) {
+        remove_task(id, task_inst.get());
+      }
+
+      return ret;
     } else {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_NOT_FOUND;
     }
-- 
2.43.0


From 2ed8b3d95ec9c1cfb5f30ef46f5ec3822940f224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 32/36] fix: task added while task_manager::reset() begins in
 another thread was left in it after it ended

---
 include/libcotask/task_manager.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index aa80609..40362f9 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -334,6 +334,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
         action_lock_};
 #endif
 
+    // reset() in another thread may just begin before the lock, it will not see this task any more
+    if (flags_ & flag_type::EN_TM_IN_RESET) {
+      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
+    }
+
     id_type task_id = task->get_id();
     if (tasks_.end() != tasks_.find(task_id)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_EXIST;
-- 
2.43.0


From 541328c8c4579b2335f8464b55f68e0589c38bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:59 +0000
Subject: [PATCH 33/36] fix: assigning over a callable_future forgot the
 coroutine it held

---
 include/libcopp/coroutine/callable_promise.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 2677ad8..56e598c 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -324,8 +324,9 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_future {
 
   callable_future& operator=(const callable_future&) = delete;
   callable_future& operator=(callable_future&& other) noexcept {
-    current_handle_ = other.current_handle_;
-    other.current_handle_ = nullptr;
+    // The coroutine held before should be finished and destroyed just like in destructor
+    callable_future previous{std::move(other)};
+    std::swap(current_handle_, previous.current_handle_);
     return *this;
   }
 
-- 
2.43.0


From a6b3ca5fa125f3e847c03dfa17c0408d6640b6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 34/36] fix: awaiting an empty callable_future dereferenced a
 null handle

---
 include/libcopp/coroutine/callable_promise.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 56e598c..7c753ec 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -214,6 +214,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_awaitable<TPROMISE, TERROR_TRANSFORM,
   callable_awaitable(handle_type handle) : base_type(handle) {}
 
   UTIL_FORCEINLINE void await_resume() {
+    if (!get_callee()) {
+      return;
+    }
+
     detach();
     get_callee().promise().resume_waiting(get_callee(), true);
   }
@@ -238,6 +242,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_awaitable<TPROMISE, TERROR_TRANSFORM,
   callable_awaitable(handle_type handle) : base_type(handle) {}
 
   inline value_type await_resume() {
+    if (!get_callee()) {
+      return TERROR_TRANSFORM()(promise_status::kInvalid);
+    }
+
     detach();
     auto& callee_promise = get_callee().promise();
     callee_promise.resume_waiting(get_callee(), true);
@@ -359,7 +367,13 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_future {
     return current_handle_.done() || current_handle_.promise().check_flag(promise_flag::kHasReturned);
   }
 
-  UTIL_FORCEINLINE promise_status get_status() const noexcept { return current_handle_.promise().get_status(); }
+  UTIL_FORCEINLINE promise_status get_status() const noexcept {
+    if (!current_handle_) {
+      return promise_status::kInvalid;
+    }
+
+    return current_handle_.promise().get_status();
+  }
 
   static auto yield_status() noexcept { return promise_base_type::pick_current_status(); }
 
-- 
2.43.0


From db18b105c667af0e24c331ebb836b7f5c0603d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 35/36] fix: assigning a task_future used its source after
 releasing the old task

---
 include/libcotask/task_promise.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index 64ec668..87be46c 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -807,12 +807,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
       return;
     }
 
-    reset();
-
-    COPP_LIKELY_IF (other.context_) {
-      ++other.context_->future_counter_;
-    }
-    context_ = other.context_;
+    // other may be destroyed and this object may be assigned again when releasing the previous context
+    task_future_base previous{other};
+    context_.swap(previous.context_);
   }
 
   void assign(task_future_base&& other) noexcept {
@@ -820,10 +817,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
       return;
     }
 
-    reset();
-    context_.swap(other.context_);
-
-    return;
+    task_future_base previous{std::move(other)};
+    context_.swap(previous.context_);
   }
 
   void reset() {
-- 
2.43.0


From 545463373e2073804e4088ab92f7930b0ce55c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:46 +0000
Subject: [PATCH 36/36] fix: coroutine_context::create refuses a layout that
 leaves no room for the initial frame

---
 src/libcopp/coroutine/coroutine_context.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libcopp/coroutine/coroutine_context.cpp b/src/libcopp/coroutine/coroutine_context.cpp
index 32e8be0..8dfcaa6 100755
--- a/src/libcopp/coroutine/coroutine_context.cpp
+++ b/src/libcopp/coroutine/coroutine_context.cpp
@@ -303,7 +303,10 @@ LIBCOPP_COPP_API int coroutine_context::create(coroutine_context *p, callback_ty
   }
 
   size_t stack_offset = align_stack_size(private_buffer_size + coroutine_size);
-  if (nullptr == callee_stack.sp || callee_stack.size <= stack_offset) {
+  // copp_make_fcontext_v2() writes the initial frame into the rest of the stack, less than 512 bytes on every ABI
+  static constexpr const size_t initial_frame_size = 512;
+  if (nullptr == callee_stack.sp || callee_stack.size <= stack_offset ||
+      callee_stack.size - stack_offset < initial_frame_size) {
     return COPP_EC_ARGS_ERROR;
   }
 
-- 
2.43.0

