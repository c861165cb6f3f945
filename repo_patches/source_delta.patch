From 55c64b71de40298201b9233158ffd77ee18eb50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 01/19] fix: polymorphic_cxx14 initializer-list constructor
 owns a U, not a T

The allocator-extended initializer-list constructor (and the one delegating to
it) created a control block for T, slicing or failing to compile for the
requested derived type.
---
 polymorphic_cxx14.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 0849204..08a0964 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -237,7 +237,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
   polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
               std::initializer_list<I> ilist, Ts&&... ts)
       : alloc_base(alloc) {
-    cb_ = create_control_block<T>(ilist, std::forward<Ts>(ts)...);
+    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
   }
 
   template <
-- 
2.43.0


From 7fde1dd0f4d67521f224d8d0c0866bdb4bfee95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 02/19] fix: polymorphic_cxx14 allocator-extended move must
 test is_always_equal

Testing propagate_on_container_copy_assignment made the new object own storage
from an unequal allocator.
---
 polymorphic_cxx14.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 08a0964..73afc47 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -333,7 +333,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_arg_t, const A& alloc,
       polymorphic&& other) noexcept(allocator_traits::is_always_equal::value)
       : alloc_base(alloc) {
-    if (allocator_traits::propagate_on_container_copy_assignment::value) {
+    if (allocator_traits::is_always_equal::value) {
       cb_ = other.cb_;
       other.cb_ = nullptr;
     } else {
-- 
2.43.0


From ad153d7874cc7a98775d8186dfcedf6e4a70987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 03/19] fix: copy the owned object as const

Copying passed the source object to the constructor of the new one as a
non-const lvalue, selecting T(T&) or a greedy T(U&&) and allowing the source of
a copy to be modified.
---
 indirect.h          | 2 +-
 indirect_cxx14.h    | 3 +--
 polymorphic.h       | 4 ++--
 polymorphic_cxx14.h | 4 ++--
 4 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/indirect.h b/indirect.h
index 7869cc4..43ea0cc 100644
--- a/indirect.h
+++ b/indirect.h
@@ -246,7 +246,7 @@ class indirect {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
         auto tmp =
-            construct_from(update_alloc ? other.alloc_ : alloc_, *other.p_);
+            construct_from(update_alloc ? other.alloc_ : alloc_, *other);
         reset();
         p_ = tmp;
       }
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index c45aeb7..3cb31aa 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -255,8 +255,7 @@ class indirect : private detail::empty_base_optimization<A> {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
         auto tmp = construct_from(
-            update_alloc ? other.alloc_base::get() : alloc_base::get(),
-            *other.p_);
+            update_alloc ? other.alloc_base::get() : alloc_base::get(), *other);
         reset();
         p_ = tmp;
       }
diff --git a/polymorphic.h b/polymorphic.h
index a32be6d..b2cefd7 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -55,7 +55,7 @@ class polymorphic {
 
     virtual constexpr ~control_block() = default;
     virtual constexpr void destroy(A& alloc) = 0;
-    virtual constexpr control_block* clone(const A& alloc) = 0;
+    virtual constexpr control_block* clone(const A& alloc) const = 0;
     virtual constexpr control_block* move(const A& alloc) = 0;
   };
 
@@ -82,7 +82,7 @@ class polymorphic {
       control_block::p_ = std::addressof(storage_.u_);
     }
 
-    constexpr control_block* clone(const A& alloc) override {
+    constexpr control_block* clone(const A& alloc) const override {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 73afc47..884c022 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -110,7 +110,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
 
     virtual ~control_block() = default;
     virtual void destroy(A& alloc) = 0;
-    virtual control_block* clone(const A& alloc) = 0;
+    virtual control_block* clone(const A& alloc) const = 0;
     virtual control_block* move(const A& alloc) = 0;
   };
 
@@ -137,7 +137,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       control_block::p_ = std::addressof(storage_.u_);
     }
 
-    control_block* clone(const A& alloc) override {
+    control_block* clone(const A& alloc) const override {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-- 
2.43.0


From 401af8f4823684f8accefbfc09b71e201255f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 04/19] fix: indirect_cxx14 converting assignment must not
 accept indirect lvalues

The exclusion compared the reference type U with indirect, so assigning from a
non-const indirect selected the converting assignment for element types that
are constructible and assignable from anything.
---
 indirect_cxx14.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 3cb31aa..f77462f 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -302,7 +302,10 @@ class indirect : private detail::empty_base_optimization<A> {
   template <class U, typename std::enable_if<
                          (std::is_constructible<T, U>::value &&
                           std::is_assignable<T&, U>::value &&
-                          !std::is_same<std::remove_cv_t<U>, indirect>::value),
+                          !std::is_same<typename std::remove_cv<
+                                            typename std::remove_reference<
+                                                U>::type>::type,
+                                        indirect>::value),
                          int>::type = 0>
   constexpr indirect& operator=(U&& u) {
     if (valueless_after_move()) {
-- 
2.43.0


From e1a2a8998a2316ca7b4e743a2916ff6e359ed3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 05/19] fix: assignment must not require an assignable
 allocator

The allocator was assigned under a run-time condition, so copy and move
assignment did not compile with allocators that never propagate and cannot be
assigned, such as std::pmr::polymorphic_allocator.
---
 indirect.h    | 6 ++++--
 polymorphic.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/indirect.h b/indirect.h
index 43ea0cc..04f5f14 100644
--- a/indirect.h
+++ b/indirect.h
@@ -251,7 +251,8 @@ class indirect {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
+    if constexpr (allocator_traits::propagate_on_container_copy_assignment::
+                      value) {
       alloc_ = other.alloc_;
     }
     return *this;
@@ -285,7 +286,8 @@ class indirect {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
+    if constexpr (allocator_traits::propagate_on_container_move_assignment::
+                      value) {
       alloc_ = other.alloc_;
     }
     return *this;
diff --git a/polymorphic.h b/polymorphic.h
index b2cefd7..b7b4335 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -296,7 +296,8 @@ class polymorphic {
       reset();
       cb_ = tmp;
     }
-    if (update_alloc) {
+    if constexpr (allocator_traits::propagate_on_container_copy_assignment::
+                      value) {
       alloc_ = other.alloc_;
     }
     return *this;
@@ -330,7 +331,8 @@ class polymorphic {
       }
     }
 
-    if (update_alloc) {
+    if constexpr (allocator_traits::propagate_on_container_move_assignment::
+                      value) {
       alloc_ = other.alloc_;
     }
     return *this;
-- 
2.43.0


From 9cbda546346574b9274e82bcd0e7d9212646734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 06/19] fix: C++14 assignment and swap must not require an
 assignable allocator

As in the C++20 headers: allocators that do not propagate need not be
assignable or swappable.
---
 indirect_cxx14.h    | 31 ++++++++++++++++++++++++-------
 polymorphic_cxx14.h | 31 ++++++++++++++++++++++++-------
 2 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index f77462f..2211450 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -260,9 +260,11 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
-    }
+    assign_allocator(
+        alloc_base::get(), other.alloc_base::get(),
+        std::integral_constant<bool, allocator_traits::
+                                         propagate_on_container_copy_assignment::
+                                             value>{});
     return *this;
   }
 
@@ -293,9 +295,11 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
-    }
+    assign_allocator(
+        alloc_base::get(), other.alloc_base::get(),
+        std::integral_constant<bool, allocator_traits::
+                                         propagate_on_container_move_assignment::
+                                             value>{});
     return *this;
   }
 
@@ -357,7 +361,10 @@ class indirect : private detail::empty_base_optimization<A> {
       std::allocator_traits<A>::is_always_equal::value) {
     if (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects we can swap both.
-      std::swap(alloc_base::get(), other.alloc_base::get());
+      swap_allocators(
+          alloc_base::get(), other.alloc_base::get(),
+          std::integral_constant<
+              bool, allocator_traits::propagate_on_container_swap::value>{});
       std::swap(p_, other.p_);
       return;
     } else /*  */ {
@@ -548,6 +555,16 @@ class indirect : private detail::empty_base_optimization<A> {
  private:
   pointer p_;
 
+  static void assign_allocator(A& lhs, const A& rhs, std::true_type) {
+    lhs = rhs;
+  }
+  static void assign_allocator(A&, const A&, std::false_type) {}
+
+  static void swap_allocators(A& lhs, A& rhs, std::true_type) {
+    std::swap(lhs, rhs);
+  }
+  static void swap_allocators(A&, A&, std::false_type) {}
+
   void reset() noexcept {
     if (p_ == nullptr) return;
     destroy_with(alloc_base::get(), p_);
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 884c022..69fb0e6 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -375,9 +375,11 @@ class polymorphic : private detail::empty_base_optimization<A> {
       reset();
       cb_ = tmp;
     }
-    if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
-    }
+    assign_allocator(
+        alloc_base::get(), other.alloc_base::get(),
+        std::integral_constant<bool, allocator_traits::
+                                         propagate_on_container_copy_assignment::
+                                             value>{});
     return *this;
   }
 
@@ -408,9 +410,11 @@ class polymorphic : private detail::empty_base_optimization<A> {
       }
     }
 
-    if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
-    }
+    assign_allocator(
+        alloc_base::get(), other.alloc_base::get(),
+        std::integral_constant<bool, allocator_traits::
+                                         propagate_on_container_move_assignment::
+                                             value>{});
     return *this;
   }
 
@@ -445,7 +449,10 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_traits<A>::is_always_equal::value) {
     if (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects we can swap both.
-      std::swap(alloc_base::get(), other.alloc_base::get());
+      swap_allocators(
+          alloc_base::get(), other.alloc_base::get(),
+          std::integral_constant<
+              bool, allocator_traits::propagate_on_container_swap::value>{});
       std::swap(cb_, other.cb_);
       return;
     } else /*  */ {
@@ -463,6 +470,16 @@ class polymorphic : private detail::empty_base_optimization<A> {
   }
 
  private:
+  static void assign_allocator(A& lhs, const A& rhs, std::true_type) {
+    lhs = rhs;
+  }
+  static void assign_allocator(A&, const A&, std::false_type) {}
+
+  static void swap_allocators(A& lhs, A& rhs, std::true_type) {
+    std::swap(lhs, rhs);
+  }
+  static void swap_allocators(A&, A&, std::false_type) {}
+
   void reset() noexcept {
     if (cb_ != nullptr) {
       cb_->destroy(alloc_base::get());
-- 
2.43.0


From 74b283e5743bde7a05ec895164916b56ec14b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 07/19] fix: C++14 value constructors need a default
 constructible allocator

Like the other constructors without an allocator argument (and the C++20
headers) they must not take part in overload resolution otherwise.
---
 indirect_cxx14.h    | 5 ++++-
 polymorphic_cxx14.h | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 2211450..e6cbd26 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -150,7 +150,10 @@ class indirect : private detail::empty_base_optimization<A> {
           !std::is_same<typename std::remove_cv<
                             typename std::remove_reference<U>::type>::type,
                         xyz::in_place_t>::value,
-          int>::type = 0>
+          int>::type = 0,
+      class AA = A,
+      typename std::enable_if<std::is_default_constructible<AA>::value,
+                              int>::type = 0>
   explicit constexpr indirect(U&& u)
       : indirect(std::allocator_arg, A{}, std::forward<U>(u)) {}
 
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 69fb0e6..5384a37 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -307,7 +307,10 @@ class polymorphic : private detail::empty_base_optimization<A> {
           std::is_base_of<
               T, typename std::remove_cv<
                      typename std::remove_reference<U>::type>::type>::value,
-          int>::type = 0>
+          int>::type = 0,
+      typename AA = A,
+      typename std::enable_if<std::is_default_constructible<AA>::value,
+                              int>::type = 0>
   explicit polymorphic(U&& u)
       : polymorphic(std::allocator_arg_t{}, A{},
                     in_place_type_t<typename std::remove_cv<
-- 
2.43.0


From 256227d87e5c7b43a30808cd41fff5df16a76bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 08/19] fix: assignment from a wrapper nested inside the owned
 object

---
 indirect.h          | 20 ++++++++++++--------
 indirect_cxx14.h    | 21 ++++++++++++---------
 polymorphic.h       | 18 ++++++++++++------
 polymorphic_cxx14.h | 20 ++++++++++++--------
 4 files changed, 48 insertions(+), 31 deletions(-)

diff --git a/indirect.h b/indirect.h
index 04f5f14..a554aea 100644
--- a/indirect.h
+++ b/indirect.h
@@ -235,6 +235,8 @@ class indirect {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // Copied now because destroying the owned object can destroy other.
+    A new_alloc(update_alloc ? other.alloc_ : alloc_);
 
     if (other.valueless_after_move()) {
       reset();
@@ -245,15 +247,14 @@ class indirect {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp =
-            construct_from(update_alloc ? other.alloc_ : alloc_, *other);
+        auto tmp = construct_from(new_alloc, *other);
         reset();
         p_ = tmp;
       }
     }
     if constexpr (allocator_traits::propagate_on_container_copy_assignment::
                       value) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
@@ -270,25 +271,28 @@ class indirect {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // Copied now because destroying the owned object can destroy other.
+    A new_alloc(update_alloc ? other.alloc_ : alloc_);
 
     if (other.valueless_after_move()) {
       reset();
     } else {
       if (alloc_ == other.alloc_) {
-        std::swap(p_, other.p_);
-        other.reset();
+        auto tmp = other.p_;
+        other.p_ = nullptr;
+        reset();
+        p_ = tmp;
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(update_alloc ? other.alloc_ : alloc_,
-                                  std::move(*other.p_));
+        auto tmp = construct_from(new_alloc, std::move(*other.p_));
         reset();
         p_ = tmp;
       }
     }
     if constexpr (allocator_traits::propagate_on_container_move_assignment::
                       value) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index e6cbd26..7e8390e 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -247,6 +247,8 @@ class indirect : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // Copied now because destroying the owned object can destroy other.
+    A new_alloc(update_alloc ? other.alloc_base::get() : alloc_base::get());
 
     if (other.valueless_after_move()) {
       reset();
@@ -257,14 +259,13 @@ class indirect : private detail::empty_base_optimization<A> {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(
-            update_alloc ? other.alloc_base::get() : alloc_base::get(), *other);
+        auto tmp = construct_from(new_alloc, *other);
         reset();
         p_ = tmp;
       }
     }
     assign_allocator(
-        alloc_base::get(), other.alloc_base::get(),
+        alloc_base::get(), new_alloc,
         std::integral_constant<bool, allocator_traits::
                                          propagate_on_container_copy_assignment::
                                              value>{});
@@ -281,25 +282,27 @@ class indirect : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // Copied now because destroying the owned object can destroy other.
+    A new_alloc(update_alloc ? other.alloc_base::get() : alloc_base::get());
 
     if (other.valueless_after_move()) {
       reset();
     } else {
       if (alloc_base::get() == other.alloc_base::get()) {
-        std::swap(p_, other.p_);
-        other.reset();
+        auto tmp = other.p_;
+        other.p_ = nullptr;
+        reset();
+        p_ = tmp;
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(
-            update_alloc ? other.alloc_base::get() : alloc_base::get(),
-            std::move(*other.p_));
+        auto tmp = construct_from(new_alloc, std::move(*other.p_));
         reset();
         p_ = tmp;
       }
     }
     assign_allocator(
-        alloc_base::get(), other.alloc_base::get(),
+        alloc_base::get(), new_alloc,
         std::integral_constant<bool, allocator_traits::
                                          propagate_on_container_move_assignment::
                                              value>{});
diff --git a/polymorphic.h b/polymorphic.h
index b7b4335..71bcf60 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -284,6 +284,8 @@ class polymorphic {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // Copied now because destroying the owned object can destroy other.
+    A new_alloc(update_alloc ? other.alloc_ : alloc_);
 
     if (other.valueless_after_move()) {
       reset();
@@ -292,13 +294,13 @@ class polymorphic {
       // resetting or updating allocators until this is done.
 
       // Inlining the allocator into the construct_from call confuses LCOV.
-      auto tmp = other.cb_->clone(update_alloc ? other.alloc_ : alloc_);
+      auto tmp = other.cb_->clone(new_alloc);
       reset();
       cb_ = tmp;
     }
     if constexpr (allocator_traits::propagate_on_container_copy_assignment::
                       value) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
@@ -313,19 +315,23 @@ class polymorphic {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // Copied now because destroying the owned object can destroy other.
+    A new_alloc(update_alloc ? other.alloc_ : alloc_);
 
     if (other.valueless_after_move()) {
       reset();
     } else {
       if (alloc_ == other.alloc_) {
-        std::swap(cb_, other.cb_);
-        other.reset();
+        auto tmp = other.cb_;
+        other.cb_ = nullptr;
+        reset();
+        cb_ = tmp;
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
 
         // Inlining the allocator into the construct_from call confuses LCOV.
-        auto tmp = other.cb_->move(update_alloc ? other.alloc_ : alloc_);
+        auto tmp = other.cb_->move(new_alloc);
         reset();
         cb_ = tmp;
       }
@@ -333,7 +339,7 @@ class polymorphic {
 
     if constexpr (allocator_traits::propagate_on_container_move_assignment::
                       value) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 5384a37..502cdaa 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -367,19 +367,20 @@ class polymorphic : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // Copied now because destroying the owned object can destroy other.
+    A new_alloc(update_alloc ? other.alloc_base::get() : alloc_base::get());
 
     if (other.valueless_after_move()) {
       reset();
     } else {
       // Constructing a new control block could throw so we need to defer
       // resetting or updating allocators until this is done.
-      auto tmp = other.cb_->clone(update_alloc ? other.alloc_base::get()
-                                               : alloc_base::get());
+      auto tmp = other.cb_->clone(new_alloc);
       reset();
       cb_ = tmp;
     }
     assign_allocator(
-        alloc_base::get(), other.alloc_base::get(),
+        alloc_base::get(), new_alloc,
         std::integral_constant<bool, allocator_traits::
                                          propagate_on_container_copy_assignment::
                                              value>{});
@@ -396,25 +397,28 @@ class polymorphic : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // Copied now because destroying the owned object can destroy other.
+    A new_alloc(update_alloc ? other.alloc_base::get() : alloc_base::get());
 
     if (other.valueless_after_move()) {
       reset();
     } else {
       if (alloc_base::get() == other.alloc_base::get()) {
-        std::swap(cb_, other.cb_);
-        other.reset();
+        auto tmp = other.cb_;
+        other.cb_ = nullptr;
+        reset();
+        cb_ = tmp;
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
-        auto tmp = other.cb_->move(update_alloc ? other.alloc_base::get()
-                                                : alloc_base::get());
+        auto tmp = other.cb_->move(new_alloc);
         reset();
         cb_ = tmp;
       }
     }
 
     assign_allocator(
-        alloc_base::get(), other.alloc_base::get(),
+        alloc_base::get(), new_alloc,
         std::integral_constant<bool, allocator_traits::
                                          propagate_on_container_move_assignment::
                                              value>{});
-- 
2.43.0


From c38b7bf411aa85ce324607eacf2cbb5209513559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 09/19] fix: swap propagating allocators with their own swap

---
 indirect.h          | 3 ++-
 indirect_cxx14.h    | 3 ++-
 polymorphic.h       | 3 ++-
 polymorphic_cxx14.h | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/indirect.h b/indirect.h
index a554aea..c668e4a 100644
--- a/indirect.h
+++ b/indirect.h
@@ -359,7 +359,8 @@ class indirect {
       std::allocator_traits<A>::is_always_equal::value) {
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects, we can swap both.
-      std::swap(alloc_, other.alloc_);
+      using std::swap;
+      swap(alloc_, other.alloc_);
       std::swap(p_, other.p_);
       return;
     } else /* constexpr */ {
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 7e8390e..2d1c2a9 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -567,7 +567,8 @@ class indirect : private detail::empty_base_optimization<A> {
   static void assign_allocator(A&, const A&, std::false_type) {}
 
   static void swap_allocators(A& lhs, A& rhs, std::true_type) {
-    std::swap(lhs, rhs);
+    using std::swap;
+    swap(lhs, rhs);
   }
   static void swap_allocators(A&, A&, std::false_type) {}
 
diff --git a/polymorphic.h b/polymorphic.h
index 71bcf60..c421041 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -383,7 +383,8 @@ class polymorphic {
       std::allocator_traits<A>::is_always_equal::value) {
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects, we can swap both.
-      std::swap(alloc_, other.alloc_);
+      using std::swap;
+      swap(alloc_, other.alloc_);
       std::swap(cb_, other.cb_);
       return;
     } else /* constexpr */ {
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 502cdaa..f01f07e 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -483,7 +483,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
   static void assign_allocator(A&, const A&, std::false_type) {}
 
   static void swap_allocators(A& lhs, A& rhs, std::true_type) {
-    std::swap(lhs, rhs);
+    using std::swap;
+    swap(lhs, rhs);
   }
   static void swap_allocators(A&, A&, std::false_type) {}
 
-- 
2.43.0


From bcecabcf52dcbbf5bbb468e19c2fe1e0da9690dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 10/19] fix: move-assign the propagated allocator on move
 assignment

---
 indirect.h          | 2 +-
 indirect_cxx14.h    | 6 +++---
 polymorphic.h       | 2 +-
 polymorphic_cxx14.h | 6 +++---
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/indirect.h b/indirect.h
index c668e4a..3c9e8cb 100644
--- a/indirect.h
+++ b/indirect.h
@@ -292,7 +292,7 @@ class indirect {
     }
     if constexpr (allocator_traits::propagate_on_container_move_assignment::
                       value) {
-      alloc_ = new_alloc;
+      alloc_ = std::move(new_alloc);
     }
     return *this;
   }
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 2d1c2a9..70c4b9c 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -561,10 +561,10 @@ class indirect : private detail::empty_base_optimization<A> {
  private:
   pointer p_;
 
-  static void assign_allocator(A& lhs, const A& rhs, std::true_type) {
-    lhs = rhs;
+  static void assign_allocator(A& lhs, A& rhs, std::true_type) {
+    lhs = std::move(rhs);
   }
-  static void assign_allocator(A&, const A&, std::false_type) {}
+  static void assign_allocator(A&, A&, std::false_type) {}
 
   static void swap_allocators(A& lhs, A& rhs, std::true_type) {
     using std::swap;
diff --git a/polymorphic.h b/polymorphic.h
index c421041..a89873e 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -339,7 +339,7 @@ class polymorphic {
 
     if constexpr (allocator_traits::propagate_on_container_move_assignment::
                       value) {
-      alloc_ = new_alloc;
+      alloc_ = std::move(new_alloc);
     }
     return *this;
   }
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index f01f07e..009b7f4 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -477,10 +477,10 @@ class polymorphic : private detail::empty_base_optimization<A> {
   }
 
  private:
-  static void assign_allocator(A& lhs, const A& rhs, std::true_type) {
-    lhs = rhs;
+  static void assign_allocator(A& lhs, A& rhs, std::true_type) {
+    lhs = std::move(rhs);
   }
-  static void assign_allocator(A&, const A&, std::false_type) {}
+  static void assign_allocator(A&, A&, std::false_type) {}
 
   static void swap_allocators(A& lhs, A& rhs, std::true_type) {
     using std::swap;
-- 
2.43.0


From f406892bae582709f4a6eb5b80e94d632319af34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 11/19] fix: reject element types and allocators the
 specification prohibits

---
 indirect.h          |  7 +++++++
 indirect_cxx14.h    | 11 +++++++++++
 polymorphic.h       |  7 +++++++
 polymorphic_cxx14.h |  9 +++++++++
 4 files changed, 34 insertions(+)

diff --git a/indirect.h b/indirect.h
index 3c9e8cb..ccc37b8 100644
--- a/indirect.h
+++ b/indirect.h
@@ -81,6 +81,13 @@ inline constexpr bool is_indirect_v<indirect<T, A>> = true;
 
 template <class T, class A = std::allocator<T>>
 class indirect {
+  // T and the value type of A are restricted as documented in DRAFT.md.
+  static_assert(std::is_object_v<T> && !std::is_array_v<T>);
+  static_assert(std::is_same_v<T, std::remove_cv_t<T>>);
+  static_assert(!std::is_same_v<T, std::in_place_t>);
+  static_assert(
+      std::is_same_v<typename std::allocator_traits<A>::value_type, T>);
+
   using allocator_traits = std::allocator_traits<A>;
 
  public:
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 70c4b9c..1cf7090 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -104,6 +104,17 @@ struct is_indirect<indirect<T, A>> : std::true_type {};
 
 template <class T, class A = std::allocator<T>>
 class indirect : private detail::empty_base_optimization<A> {
+  // T and the value type of A are restricted as documented in DRAFT.md.
+  static_assert(std::is_object<T>::value && !std::is_array<T>::value,
+                "T must be an object type other than an array");
+  static_assert(std::is_same<T, typename std::remove_cv<T>::type>::value,
+                "T must not be cv-qualified");
+  static_assert(!std::is_same<T, xyz::in_place_t>::value,
+                "T must not be in_place_t");
+  static_assert(
+      std::is_same<typename std::allocator_traits<A>::value_type, T>::value,
+      "T must be the value type of the allocator");
+
   using allocator_traits = std::allocator_traits<A>;
   using alloc_base = detail::empty_base_optimization<A>;
 
diff --git a/polymorphic.h b/polymorphic.h
index a89873e..0256c7a 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -49,6 +49,13 @@ namespace xyz {
 
 template <class T, class A = std::allocator<T>>
 class polymorphic {
+  // T and the value type of A are restricted as documented in DRAFT.md.
+  static_assert(std::is_object_v<T> && !std::is_array_v<T>);
+  static_assert(std::is_same_v<T, std::remove_cv_t<T>>);
+  static_assert(!std::is_same_v<T, std::in_place_t>);
+  static_assert(
+      std::is_same_v<typename std::allocator_traits<A>::value_type, T>);
+
   struct control_block {
     using allocator_traits = std::allocator_traits<A>;
     typename allocator_traits::pointer p_;
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 009b7f4..edfa534 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -104,6 +104,15 @@ namespace xyz {
 
 template <class T, class A = std::allocator<T>>
 class polymorphic : private detail::empty_base_optimization<A> {
+  // T and the value type of A are restricted as documented in DRAFT.md.
+  static_assert(std::is_object<T>::value && !std::is_array<T>::value,
+                "T must be an object type other than an array");
+  static_assert(std::is_same<T, typename std::remove_cv<T>::type>::value,
+                "T must not be cv-qualified");
+  static_assert(
+      std::is_same<typename std::allocator_traits<A>::value_type, T>::value,
+      "T must be the value type of the allocator");
+
   struct control_block {
     using allocator_traits = std::allocator_traits<A>;
     typename allocator_traits::pointer p_;
-- 
2.43.0


From 80184c54e4f679f0b515d4f821b3326deab08701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:40 +0000
Subject: [PATCH 12/19] fix: indirect mandates and constrains with the traits
 documented in DRAFT.md

std::copy_constructible, std::move_constructible and std::assignable_from ask
for implicit conversions, moves and a common reference that DRAFT.md does not,
so elements with explicit copy constructors or assignment operators returning
void were rejected or not assigned in place.
---
 indirect.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/indirect.h b/indirect.h
index ccc37b8..4e51905 100644
--- a/indirect.h
+++ b/indirect.h
@@ -138,7 +138,7 @@ class indirect {
                  allocator_traits::select_on_container_copy_construction(
                      other.alloc_),
                  other) {
-    static_assert(std::copy_constructible<T>);
+    static_assert(std::is_copy_constructible_v<T>);
   }
 
   constexpr indirect(indirect&& other) noexcept(
@@ -192,7 +192,7 @@ class indirect {
   constexpr indirect(std::allocator_arg_t, const A& alloc,
                      const indirect& other)
       : alloc_(alloc) {
-    static_assert(std::copy_constructible<T>);
+    static_assert(std::is_copy_constructible_v<T>);
 
     if (other.valueless_after_move()) {
       p_ = nullptr;
@@ -205,7 +205,7 @@ class indirect {
       std::allocator_arg_t, const A& alloc,
       indirect&& other) noexcept(allocator_traits::is_always_equal::value)
       : p_(nullptr), alloc_(alloc) {
-    static_assert(std::move_constructible<T>);
+    static_assert(std::is_move_constructible_v<T>);
 
     if constexpr (allocator_traits::is_always_equal::value) {
       std::swap(p_, other.p_);
@@ -233,7 +233,7 @@ class indirect {
   //
 
   constexpr indirect& operator=(const indirect& other) {
-    static_assert(std::copy_constructible<T>);
+    static_assert(std::is_copy_constructible_v<T>);
 
     if (this == &other) return *this;
 
@@ -248,7 +248,7 @@ class indirect {
     if (other.valueless_after_move()) {
       reset();
     } else {
-      if (std::assignable_from<T&, T> && !valueless_after_move() &&
+      if (std::is_copy_assignable_v<T> && !valueless_after_move() &&
           alloc_ == other.alloc_) {
         *p_ = *other;
       } else {
@@ -269,7 +269,7 @@ class indirect {
   constexpr indirect& operator=(indirect&& other) noexcept(
       allocator_traits::propagate_on_container_move_assignment::value ||
       allocator_traits::is_always_equal::value) {
-    static_assert(std::move_constructible<T>);
+    static_assert(std::is_move_constructible_v<T>);
 
     if (this == &other) return *this;
 
@@ -307,7 +307,7 @@ class indirect {
   template <class U>
   constexpr indirect& operator=(U&& u)
     requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
-             std::constructible_from<T, U> && std::assignable_from<T&, U>)
+             std::constructible_from<T, U> && std::is_assignable_v<T&, U>)
   {
     if (valueless_after_move()) {
       p_ = construct_from(alloc_, std::forward<U>(u));
-- 
2.43.0


From 454c3ddca59da508c0e6e9642020451a7331ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 13/19] fix: polymorphic requires copies of elements as
 documented in DRAFT.md

std::copy_constructible asks for implicit conversions and moves as well, so
elements with an explicit copy constructor were rejected.
---
 polymorphic.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/polymorphic.h b/polymorphic.h
index 0256c7a..c8effb3 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -25,6 +25,7 @@ CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include <concepts>
 #include <initializer_list>
 #include <memory>
+#include <type_traits>
 #include <utility>
 
 #ifndef XYZ_POLYMORPHIC_HAS_EXTENDED_CONSTRUCTORS
@@ -163,14 +164,16 @@ class polymorphic {
   explicit constexpr polymorphic()
     requires std::default_initializable<A>
       : polymorphic(std::allocator_arg_t{}, A{}) {
-    static_assert(std::default_initializable<T> && std::copy_constructible<T>);
+    static_assert(std::default_initializable<T> &&
+                  std::is_copy_constructible_v<T>);
   }
 
   template <class U>
   constexpr explicit polymorphic(U&& u)
     requires(!std::same_as<polymorphic, std::remove_cvref_t<U>>) &&
-            std::copy_constructible<std::remove_cvref_t<U>> &&
+            std::is_copy_constructible_v<std::remove_cvref_t<U>> &&
             std::derived_from<std::remove_cvref_t<U>, T> &&
+            std::constructible_from<std::remove_cvref_t<U>, U> &&
             std::default_initializable<A>
       : polymorphic(std::allocator_arg_t{}, A{}, std::forward<U>(u)) {}
 
@@ -178,7 +181,7 @@ class polymorphic {
   explicit constexpr polymorphic(std::in_place_type_t<U>, Ts&&... ts)
     requires std::same_as<std::remove_cvref_t<U>, U> &&
              std::constructible_from<U, Ts&&...> &&
-             std::copy_constructible<U> && std::derived_from<U, T> &&
+             std::is_copy_constructible_v<U> && std::derived_from<U, T> &&
              std::default_initializable<A>
       : polymorphic(std::allocator_arg_t{}, A{}, std::in_place_type<U>,
                     std::forward<Ts>(ts)...) {}
@@ -188,7 +191,7 @@ class polymorphic {
                                  std::initializer_list<I> ilist, Ts&&... ts)
     requires std::same_as<std::remove_cvref_t<U>, U> &&
              std::constructible_from<U, std::initializer_list<I>, Ts&&...> &&
-             std::copy_constructible<U> && std::derived_from<U, T> &&
+             std::is_copy_constructible_v<U> && std::derived_from<U, T> &&
              std::default_initializable<A>
       : polymorphic(std::allocator_arg_t{}, A{}, std::in_place_type<U>, ilist,
                     std::forward<Ts>(ts)...) {}
@@ -209,7 +212,8 @@ class polymorphic {
 
   explicit constexpr polymorphic(std::allocator_arg_t, const A& alloc)
       : alloc_(alloc) {
-    static_assert(std::default_initializable<T> && std::copy_constructible<T>);
+    static_assert(std::default_initializable<T> &&
+                  std::is_copy_constructible_v<T>);
 
     cb_ = create_control_block<T>();
   }
@@ -217,8 +221,9 @@ class polymorphic {
   template <class U>
   constexpr explicit polymorphic(std::allocator_arg_t, const A& alloc, U&& u)
     requires(not std::same_as<polymorphic, std::remove_cvref_t<U>>) &&
-            std::copy_constructible<std::remove_cvref_t<U>> &&
-            std::derived_from<std::remove_cvref_t<U>, T>
+            std::is_copy_constructible_v<std::remove_cvref_t<U>> &&
+            std::derived_from<std::remove_cvref_t<U>, T> &&
+            std::constructible_from<std::remove_cvref_t<U>, U>
       : alloc_(alloc) {
     cb_ = create_control_block<std::remove_cvref_t<U>>(std::forward<U>(u));
   }
@@ -228,7 +233,7 @@ class polymorphic {
                                  std::in_place_type_t<U>, Ts&&... ts)
     requires std::same_as<std::remove_cvref_t<U>, U> &&
              std::constructible_from<U, Ts&&...> &&
-             std::copy_constructible<U> && std::derived_from<U, T>
+             std::is_copy_constructible_v<U> && std::derived_from<U, T>
       : alloc_(alloc) {
     cb_ = create_control_block<U>(std::forward<Ts>(ts)...);
   }
@@ -239,7 +244,7 @@ class polymorphic {
                                  std::initializer_list<I> ilist, Ts&&... ts)
     requires std::same_as<std::remove_cvref_t<U>, U> &&
              std::constructible_from<U, std::initializer_list<I>, Ts&&...> &&
-             std::copy_constructible<U> && std::derived_from<U, T>
+             std::is_copy_constructible_v<U> && std::derived_from<U, T>
       : alloc_(alloc) {
     cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
   }
-- 
2.43.0


From 482f9c207ec1b78bffe862a3ede807d99c796f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 14/19] fix: constrain initializer-list constructors on the
 lvalue they pass on

The list is forwarded as an lvalue, as DRAFT.md documents and indirect.h
already requires; the constraints tested an rvalue.
---
 indirect_cxx14.h    | 4 ++--
 polymorphic.h       | 4 ++--
 polymorphic_cxx14.h | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 1cf7090..ec6d584 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -189,7 +189,7 @@ class indirect : private detail::empty_base_optimization<A> {
   template <
       class U, class... Us,
       typename std::enable_if<
-          std::is_constructible<T, std::initializer_list<U>, Us&&...>::value,
+          std::is_constructible<T, std::initializer_list<U>&, Us&&...>::value,
           int>::type = 0>
   indirect(std::allocator_arg_t, const A& alloc, xyz::in_place_t,
            std::initializer_list<U> ilist, Us&&... us)
@@ -203,7 +203,7 @@ class indirect : private detail::empty_base_optimization<A> {
                               int>::type = 0,
       class U, class... Us,
       typename std::enable_if<
-          std::is_constructible<T, std::initializer_list<U>, Us&&...>::value,
+          std::is_constructible<T, std::initializer_list<U>&, Us&&...>::value,
           int>::type = 0>
   indirect(xyz::in_place_t, std::initializer_list<U> ilist, Us&&... us)
       : indirect(std::allocator_arg, A(), xyz::in_place_t{}, ilist,
diff --git a/polymorphic.h b/polymorphic.h
index c8effb3..fe5e922 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -190,7 +190,7 @@ class polymorphic {
   explicit constexpr polymorphic(std::in_place_type_t<U>,
                                  std::initializer_list<I> ilist, Ts&&... ts)
     requires std::same_as<std::remove_cvref_t<U>, U> &&
-             std::constructible_from<U, std::initializer_list<I>, Ts&&...> &&
+             std::constructible_from<U, std::initializer_list<I>&, Ts&&...> &&
              std::is_copy_constructible_v<U> && std::derived_from<U, T> &&
              std::default_initializable<A>
       : polymorphic(std::allocator_arg_t{}, A{}, std::in_place_type<U>, ilist,
@@ -243,7 +243,7 @@ class polymorphic {
                                  std::in_place_type_t<U>,
                                  std::initializer_list<I> ilist, Ts&&... ts)
     requires std::same_as<std::remove_cvref_t<U>, U> &&
-             std::constructible_from<U, std::initializer_list<I>, Ts&&...> &&
+             std::constructible_from<U, std::initializer_list<I>&, Ts&&...> &&
              std::is_copy_constructible_v<U> && std::derived_from<U, T>
       : alloc_(alloc) {
     cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index edfa534..cc3dc70 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -238,7 +238,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
   template <
       class U, class I, class... Ts,
       typename std::enable_if<
-          std::is_constructible<U, std::initializer_list<I>, Ts&&...>::value,
+          std::is_constructible<U, std::initializer_list<I>&, Ts&&...>::value,
           int>::type = 0,
       typename std::enable_if<std::is_copy_constructible<U>::value, int>::type =
           0,
@@ -252,7 +252,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
   template <
       class U, class I, class... Ts,
       typename std::enable_if<
-          std::is_constructible<U, std::initializer_list<I>, Ts&&...>::value,
+          std::is_constructible<U, std::initializer_list<I>&, Ts&&...>::value,
           int>::type = 0,
       typename std::enable_if<std::is_copy_constructible<U>::value, int>::type =
           0,
-- 
2.43.0


From e0692beac052206813bc1bd1100edcce5d5ee3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:42 +0000
Subject: [PATCH 15/19] fix: move constructors are noexcept for every allocator

DRAFT.md documents them as noexcept; with a stateful allocator containers fell
back to copying, or could not hold wrappers of move-only elements strongly.
---
 indirect.h       | 3 +--
 indirect_cxx14.h | 2 +-
 polymorphic.h    | 3 +--
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/indirect.h b/indirect.h
index 4e51905..9e41d88 100644
--- a/indirect.h
+++ b/indirect.h
@@ -141,8 +141,7 @@ class indirect {
     static_assert(std::is_copy_constructible_v<T>);
   }
 
-  constexpr indirect(indirect&& other) noexcept(
-      allocator_traits::is_always_equal::value)
+  constexpr indirect(indirect&& other) noexcept
       : indirect(std::allocator_arg, other.alloc_, std::move(other)) {}
 
   //
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index ec6d584..41b92ec 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -244,7 +244,7 @@ class indirect : private detail::empty_base_optimization<A> {
     }
   }
 
-  indirect(indirect&& other) noexcept(allocator_traits::is_always_equal::value)
+  indirect(indirect&& other) noexcept
       : indirect(std::allocator_arg, other.alloc_base::get(),
                  std::move(other)) {}
 
diff --git a/polymorphic.h b/polymorphic.h
index fe5e922..4018740 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -202,8 +202,7 @@ class polymorphic {
                         other.alloc_),
                     other) {}
 
-  constexpr polymorphic(polymorphic&& other) noexcept(
-      allocator_traits::is_always_equal::value)
+  constexpr polymorphic(polymorphic&& other) noexcept
       : polymorphic(std::allocator_arg_t{}, other.alloc_, std::move(other)) {}
 
   //
-- 
2.43.0


From 1cbf9ec74eb35be08688c16b67a2ee2415f62d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:45 +0000
Subject: [PATCH 16/19] fix: default the template argument of value
 construction and assignment

DRAFT.md declares indirect::operator=(U&&) and the value constructors of
polymorphic with 'template <class U=T>', so that braced arguments build the
element. The default was missing, and such uses did not compile.
---
 indirect.h    | 2 +-
 polymorphic.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/indirect.h b/indirect.h
index 9e41d88..6877dc4 100644
--- a/indirect.h
+++ b/indirect.h
@@ -303,7 +303,7 @@ class indirect {
     return *this;
   }
 
-  template <class U>
+  template <class U = T>
   constexpr indirect& operator=(U&& u)
     requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
              std::constructible_from<T, U> && std::is_assignable_v<T&, U>)
diff --git a/polymorphic.h b/polymorphic.h
index 4018740..6671b61 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -168,7 +168,7 @@ class polymorphic {
                   std::is_copy_constructible_v<T>);
   }
 
-  template <class U>
+  template <class U = T>
   constexpr explicit polymorphic(U&& u)
     requires(!std::same_as<polymorphic, std::remove_cvref_t<U>>) &&
             std::is_copy_constructible_v<std::remove_cvref_t<U>> &&
@@ -217,7 +217,7 @@ class polymorphic {
     cb_ = create_control_block<T>();
   }
 
-  template <class U>
+  template <class U = T>
   constexpr explicit polymorphic(std::allocator_arg_t, const A& alloc, U&& u)
     requires(not std::same_as<polymorphic, std::remove_cvref_t<U>>) &&
             std::is_copy_constructible_v<std::remove_cvref_t<U>> &&
-- 
2.43.0


From 93858d4ef9d539518b0949fb6598d1f954eefc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:20 +0000
Subject: [PATCH 17/19] fix: include the export file that install() writes

install(EXPORT xyz_value_types-export-set) without FILE writes
xyz_value_types-export-set.cmake; the package configuration included
xyz_value_types-target.cmake, which nothing creates, so find_package always failed.
---
 xyz_value_types-config.cmake.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xyz_value_types-config.cmake.in b/xyz_value_types-config.cmake.in
index 0c79f37..473dfb3 100644
--- a/xyz_value_types-config.cmake.in
+++ b/xyz_value_types-config.cmake.in
@@ -4,5 +4,5 @@ check_required_components(xyz_value_types)
 
 if(NOT TARGET xyz_value_types::xyz_value_types)
     list(APPEND CMAKE_MODULE_PATH "${CMAKE_CURRENT_LIST_DIR}")
-    include(${CMAKE_CURRENT_LIST_DIR}/xyz_value_types-target.cmake)
+    include(${CMAKE_CURRENT_LIST_DIR}/xyz_value_types-export-set.cmake)
 endif()
-- 
2.43.0


From 0c7cf42b5d11720cdf7a527cb13f107fe73dc64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:08 +0000
Subject: [PATCH 18/19] fix: moving an indirect does not require a movable
 element

The move constructor delegated to the allocator-extended one, which
requires a complete, move constructible element even when its allocator
is always equal. DRAFT.md requires neither.
---
 indirect.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/indirect.h b/indirect.h
index 6877dc4..7e34191 100644
--- a/indirect.h
+++ b/indirect.h
@@ -142,7 +142,7 @@ class indirect {
   }
 
   constexpr indirect(indirect&& other) noexcept
-      : indirect(std::allocator_arg, other.alloc_, std::move(other)) {}
+      : p_(std::exchange(other.p_, nullptr)), alloc_(other.alloc_) {}
 
   //
   // Allocator-extended constructors.
@@ -204,11 +204,11 @@ class indirect {
       std::allocator_arg_t, const A& alloc,
       indirect&& other) noexcept(allocator_traits::is_always_equal::value)
       : p_(nullptr), alloc_(alloc) {
-    static_assert(std::is_move_constructible_v<T>);
-
     if constexpr (allocator_traits::is_always_equal::value) {
       std::swap(p_, other.p_);
     } else {
+      static_assert(std::is_move_constructible_v<T>);
+
       if (alloc_ == other.alloc_) {
         std::swap(p_, other.p_);
       } else {
-- 
2.43.0


From 3d7a2d6aa71ef97c5e95f8b1f55ddaeb7b3ac254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:08 +0000
Subject: [PATCH 19/19] fix: moving a C++14 indirect does not require a movable
 element

As for indirect.h: no object is constructed by the move constructor, nor
by the allocator-extended one when allocators are always equal.
---
 indirect_cxx14.h | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 41b92ec..0313ec0 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -229,24 +229,14 @@ class indirect : private detail::empty_base_optimization<A> {
   indirect(std::allocator_arg_t, const A& alloc,
            indirect&& other) noexcept(allocator_traits::is_always_equal::value)
       : alloc_base(alloc), p_(nullptr) {
-    if (allocator_traits::is_always_equal::value) {
-      std::swap(p_, other.p_);
-    } else {
-      if (alloc_base::get() == other.alloc_base::get()) {
-        std::swap(p_, other.p_);
-      } else {
-        if (!other.valueless_after_move()) {
-          p_ = construct_from(alloc_base::get(), std::move(*other));
-        } else {
-          p_ = nullptr;
-        }
-      }
-    }
+    move_from(other,
+              std::integral_constant<
+                  bool, allocator_traits::is_always_equal::value>{});
   }
 
   indirect(indirect&& other) noexcept
-      : indirect(std::allocator_arg, other.alloc_base::get(),
-                 std::move(other)) {}
+      : alloc_base(other.alloc_base::get()),
+        p_(std::exchange(other.p_, nullptr)) {}
 
   ~indirect() { reset(); }
 
@@ -583,6 +573,17 @@ class indirect : private detail::empty_base_optimization<A> {
   }
   static void swap_allocators(A&, A&, std::false_type) {}
 
+  void move_from(indirect& other, std::true_type) noexcept {
+    std::swap(p_, other.p_);
+  }
+  void move_from(indirect& other, std::false_type) {
+    if (alloc_base::get() == other.alloc_base::get()) {
+      std::swap(p_, other.p_);
+    } else if (!other.valueless_after_move()) {
+      p_ = construct_from(alloc_base::get(), std::move(*other));
+    }
+  }
+
   void reset() noexcept {
     if (p_ == nullptr) return;
     destroy_with(alloc_base::get(), p_);
-- 
2.43.0

