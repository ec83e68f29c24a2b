From f21c253df69b11033ee29762547b229ae6d6e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 01/36] fix: arrays of pointers decay like other arrays in
 MetaType::compatible

The pointer depth and the const mask of T*[N] were taken as those of a
non-pointer type, so int*[2] could never be accessed as int* const*.
---
 include/rtti/misc_traits.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/rtti/misc_traits.h b/include/rtti/misc_traits.h
index 2c6339e..b38bc26 100644
--- a/include/rtti/misc_traits.h
+++ b/include/rtti/misc_traits.h
@@ -76,6 +76,11 @@ struct pointer_arity<T, true>:
     std::integral_constant<std::size_t, pointer_arity_v<std::remove_pointer_t<T>> + 1>
 {};
 
+// Array of pointers has depth of its elements
+template<typename T, std::size_t N>
+struct pointer_arity<T[N], false>: pointer_arity<T>
+{};
+
 //-----------------------------------------------------------------------------------------------------------------------------
 
 template<typename T, bool = std::is_pointer_v<T>>
@@ -201,18 +206,18 @@ struct const_bitset_helper<T, I, true, false>:
 
 template<typename T, std::size_t I>
 struct const_bitset_helper<T, I, false, true>:
-    std::integral_constant<std::size_t, const_bitset_helper_v<std::remove_pointer_t<T>, I - 1>>
+    std::integral_constant<std::size_t, const_bitset_helper_v<std::remove_all_extents_t<std::remove_pointer_t<T>>, I - 1>>
 {};
 
 template<typename T, std::size_t I>
 struct const_bitset_helper<T, I, true, true>:
-    std::integral_constant<std::size_t, (1 << I) + const_bitset_helper_v<std::remove_pointer_t<T>, I - 1>>
+    std::integral_constant<std::size_t, (1 << I) + const_bitset_helper_v<std::remove_all_extents_t<std::remove_pointer_t<T>>, I - 1>>
 {};
 
 } // namespace internal
 
 template<typename T>
-using const_bitset = internal::const_bitset_helper<T, pointer_arity<T>::value>;
+using const_bitset = internal::const_bitset_helper<std::remove_all_extents_t<T>, pointer_arity<T>::value>;
 
 //-----------------------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 44ca030e39745133bca15cd7b5b8fc08117ee514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 02/36] fix: construct array elements instead of assigning to
 raw memory

Copying, moving or default constructing an array assigned to elements which
did not exist yet, and lost the ones already built when a constructor threw.
---
 include/rtti/metatype.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index e4ff728..66d0cd8 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -10,6 +10,8 @@
 #include <rtti/typename.h>
 #include <rtti/tagged_id.h>
 
+#include <memory>
+
 namespace rtti {
 
 namespace internal {
@@ -333,13 +335,7 @@ struct type_function_table_impl<T[N]>
         {
             if constexpr(!std::is_trivially_default_constructible_v<Base>)
                 if (where)
-                {
-                    auto *begin = static_cast<Base*>(where);
-                    auto *end = static_cast<Base*>(where) + Length;
-
-                    for (; begin != end; ++begin)
-                        new (begin) Base();
-                }
+                    std::uninitialized_value_construct_n(static_cast<Base*>(where), Length);
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't DefaultConstructible");
     }
@@ -353,7 +349,7 @@ struct type_function_table_impl<T[N]>
             if (source && where)
             {
                 auto *it = static_cast<Base const*>(source);
-                std::copy(it, it + Length, static_cast<Base*>(where));
+                std::uninitialized_copy(it, it + Length, static_cast<Base*>(where));
             }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't CopyConstructible");
@@ -368,7 +364,7 @@ struct type_function_table_impl<T[N]>
             if (source && where)
             {
                 auto *it = static_cast<Base*>(source);
-                std::move(it, it + Length, static_cast<Base*>(where));
+                std::uninitialized_move(it, it + Length, static_cast<Base*>(where));
             }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't MoveConstructible");
-- 
2.43.0


From 3fd2631dbf1890c4e9954736662708a34133cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 03/36] fix: compare arrays by their elements

Whether arrays can be compared, and whether that may throw, was decided on
the array type (where == compares decayed pointers and never throws).
---
 include/rtti/detail/variant_impl.h | 5 +++--
 include/rtti/metatype.h            | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 2ba1779..7198ba0 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -169,7 +169,7 @@ struct variant_function_table_impl<T, true, true>
     { /* do nothing */ }
 
     static bool compare_eq(variant_type_storage const &lhs, void const *rhs)
-        noexcept(has_nt_eq_v<Decay, Decay>)
+        noexcept(has_nt_eq_v<Base, Base>)
     {
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
@@ -182,6 +182,7 @@ private:
     using UConstLref = std::add_lvalue_reference_t<std::add_const_t<U>>;
 
     using Decay = std::conditional_t<std::is_array_v<U>, remove_all_cv_t<U>, full_decay_t<U>>;
+    using Base = std::remove_all_extents_t<Decay>;
 };
 
 template<typename T>
@@ -315,7 +316,7 @@ struct variant_function_table_impl<T[N], false, false>
     }
 
     static bool compare_eq(variant_type_storage const &lhs, void const *rhs)
-        noexcept(has_nt_eq_v<Decay, Decay>)
+        noexcept(has_nt_eq_v<Base, Base>)
     {
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 66d0cd8..013bcbb 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -392,10 +392,10 @@ struct type_function_table_impl<T[N]>
     }
 
     static bool compare_eq(void const *lhs, void const *rhs)
-        noexcept(has_nt_eq_v<T, T>)
+        noexcept(has_nt_eq_v<Base, Base>)
     {
         using namespace std::literals;
-        if constexpr(has_eq_v<T, T>)
+        if constexpr(has_eq_v<Base, Base>)
         {
             if (lhs == rhs)
                 return true;
@@ -407,7 +407,7 @@ struct type_function_table_impl<T[N]>
             auto *first2 = static_cast<Base const*>(rhs);
             return std::equal(first1, last1, first2);
         }
-        else throw runtime_error("Type T = "s + type_name<T>() + "isn't EQ_Comparable");
+        else throw runtime_error("Type T = "s + type_name<Base>() + "isn't EQ_Comparable");
     }
 
 };
-- 
2.43.0


From 7d0499f2478272be9566c5ed2d263bdcd0945745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 04/36] fix: keep only suitably aligned, nothrow movable types
 in place

variant swap and move are noexcept, so a small type whose move constructor
throws terminated the program; a small over-aligned type was misaligned.
---
 include/rtti/detail/variant_impl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 7198ba0..d2d8bc0 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -5,7 +5,10 @@ namespace rtti {
 
 namespace internal {
 
-template<typename T, bool Small = sizeof(T) <= STORAGE_SIZE>
+// Moving between storages is noexcept and the storage has limited size and alignment
+template<typename T, bool Small = (sizeof(T) <= STORAGE_SIZE)
+                                  && (alignof(T) <= STORAGE_ALIGN)
+                                  && std::is_nothrow_move_constructible_v<T>>
 using is_inplace = std::integral_constant<bool, Small>;
 
 template<typename T>
-- 
2.43.0


From 667ddae89b9893f697415ffb5e1ec88730558450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 05/36] fix: allocate over-aligned types with their alignment

---
 include/rtti/metatype.h | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 013bcbb..ab7222e 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -11,6 +11,7 @@
 #include <rtti/tagged_id.h>
 
 #include <memory>
+#include <new>
 
 namespace rtti {
 
@@ -222,18 +223,36 @@ struct RTTI_PRIVATE type_function_table
     {}
 };
 
+template<typename T>
+inline void* allocate_storage(std::size_t size)
+{
+    if constexpr(alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+        return ::operator new(size, std::align_val_t{alignof(T)});
+    else
+        return ::operator new(size);
+}
+
+template<typename T>
+inline void deallocate_storage(void *ptr)
+{
+    if constexpr(alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+        ::operator delete(ptr, std::align_val_t{alignof(T)});
+    else
+        ::operator delete(ptr);
+}
+
 template<typename T>
 struct type_function_table_impl
 {
     static void* allocate()
     {
-        return ::operator new(sizeof(T));
+        return allocate_storage<T>(sizeof(T));
     }
 
     static void deallocate(void *ptr)
     {
         if (ptr)
-            ::operator delete(ptr);
+            deallocate_storage<T>(ptr);
     }
 
     DISABLE_WARNINGS_PUSH
@@ -318,13 +337,13 @@ struct type_function_table_impl<T[N]>
 
     static void* allocate()
     {
-        return ::operator new(Length*sizeof(Base));
+        return allocate_storage<Base>(Length*sizeof(Base));
     }
 
     static void deallocate(void *ptr)
     {
         if (ptr)
-            ::operator delete(ptr);
+            deallocate_storage<Base>(ptr);
     }
 
     static void default_construct([[maybe_unused]] void *where)
-- 
2.43.0


From c3229d5b7a2fe589e90a94e73e55d414ed435e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 06/36] fix: variant doesn't leak or terminate when heap
 storage fails

Storage allocated for a value was lost when its constructor threw, and
bad_alloc escaped from functions declared noexcept.
---
 include/rtti/detail/variant_impl.h | 47 ++++++++++++++++++------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index d2d8bc0..84f41ea 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -188,6 +188,23 @@ private:
     using Base = std::remove_all_extents_t<Decay>;
 };
 
+// Deallocates if construct throws
+template<typename T, typename F>
+inline void* allocate_and_construct(F &&construct)
+{
+    auto *result = type_manager_t<T>::allocate();
+    try
+    {
+        construct(result);
+    }
+    catch (...)
+    {
+        type_manager_t<T>::deallocate(result);
+        throw;
+    }
+    return result;
+}
+
 template<typename T>
 struct variant_function_table_impl<T, false, false>
 {
@@ -215,24 +232,21 @@ struct variant_function_table_impl<T, false, false>
     }
 
     static void copy_construct(void const *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_copy_constructible_v<Decay>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(value, storage.ptr);
+        storage.ptr = allocate_and_construct<Decay>([value](void *where)
+                      { type_manager_t<Decay>::copy_construct(value, where); });
     }
 
     static void move_construct(void *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_move_constructible_v<Decay>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::move_or_copy(value, storage.ptr);
+        storage.ptr = allocate_and_construct<Decay>([value](void *where)
+                      { type_manager_t<Decay>::move_or_copy(value, where); });
     }
 
     static void copy(variant_type_storage const &src, variant_type_storage &dst)
-        noexcept(std::is_nothrow_copy_constructible_v<Decay>)
     {
-        dst.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(src.ptr, dst.ptr);
+        dst.ptr = allocate_and_construct<Decay>([&src](void *where)
+                  { type_manager_t<Decay>::copy_construct(src.ptr, where); });
     }
 
     static void move(variant_type_storage &src, variant_type_storage &dst) noexcept
@@ -287,24 +301,21 @@ struct variant_function_table_impl<T[N], false, false>
     }
 
     static void copy_construct(void const *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_copy_constructible_v<Base>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(value, storage.ptr);
+        storage.ptr = allocate_and_construct<Decay>([value](void *where)
+                      { type_manager_t<Decay>::copy_construct(value, where); });
     }
 
     static void move_construct(void *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_move_constructible_v<Base>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::move_or_copy(value, storage.ptr);
+        storage.ptr = allocate_and_construct<Decay>([value](void *where)
+                      { type_manager_t<Decay>::move_or_copy(value, where); });
     }
 
     static void copy(variant_type_storage const &src, variant_type_storage &dst)
-        noexcept(std::is_nothrow_copy_constructible_v<Base>)
     {
-        dst.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(src.ptr, dst.ptr);
+        dst.ptr = allocate_and_construct<Decay>([&src](void *where)
+                  { type_manager_t<Decay>::copy_construct(src.ptr, where); });
     }
 
     static void move(variant_type_storage &src, variant_type_storage &dst) noexcept
-- 
2.43.0


From 88b32f7da971a35f29b0e8f584f7b8a9002edc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 07/36] fix: MetaType::construct frees the memory when
 construction throws

---
 src/metatype.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/metatype.cpp b/src/metatype.cpp
index 5c44784..8c1d331 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -292,13 +292,20 @@ bool MetaType::compare_eq(void const *lhs, void const *rhs) const
 void* MetaType::construct(void *copy, bool movable) const
 {
     auto result = allocate();
-    if (!copy)
-        default_construct(result);
-    else if (!movable)
-        copy_construct(copy, result);
-    else
-        move_or_copy(copy, result);
-
+    try
+    {
+        if (!copy)
+            default_construct(result);
+        else if (!movable)
+            copy_construct(copy, result);
+        else
+            move_or_copy(copy, result);
+    }
+    catch (...)
+    {
+        deallocate(result);
+        throw;
+    }
     return result;
 }
 
-- 
2.43.0


From e17d51dd2ce5982e0eabd51628ba8d6aa1539bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 08/36] fix: moving a variant of a copy-only type doesn't leak
 the original

An in-place object without a move constructor is copied when its variant is
moved; the original was then abandoned without being destroyed.
---
 include/rtti/detail/variant_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 84f41ea..e5a1a48 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -100,6 +100,9 @@ struct variant_function_table_impl<T, true, false>
         noexcept(std::is_nothrow_move_constructible_v<Decay>)
     {
         type_manager_t<Decay>::move_or_copy(&src.buffer, &dst.buffer);
+        // Without move constructor source was copied and still owns its resources
+        if constexpr(!has_move_constructor_t<Decay>::value)
+            destroy(src);
     }
 
     static void destroy(variant_type_storage &value) noexcept
-- 
2.43.0


From b903dbd684909c9ca7f2957f58234e5c76ec4bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 09/36] fix: swapping a variant with itself keeps its content

The contained object was constructed from itself in its own storage.
---
 src/variant.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/variant.cpp b/src/variant.cpp
index 14f474c..478b2ba 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -43,6 +43,9 @@ void variant::swap(variant &other) noexcept
 {
     using std::swap;
 
+    if (this == &other)
+        return;
+
     auto thisEmpty  = this->empty();
     auto otherEmpty = other.empty();
     if (thisEmpty && otherEmpty)
-- 
2.43.0


From 968793406bef7a54f7ea8678ce8c4588f28d996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 10/36] fix: a stored array keeps the const of what its
 elements point to

---
 include/rtti/detail/variant_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index e5a1a48..b86f7b3 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -338,7 +338,7 @@ struct variant_function_table_impl<T[N], false, false>
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
 private:
-    using U = Decay;
+    using U = std::remove_cv_t<T[N]>;
     using ULref = std::add_lvalue_reference_t<U>;
     using URref = std::add_rvalue_reference_t<U>;
     using UConstLref = std::add_lvalue_reference_t<std::add_const_t<U>>;
-- 
2.43.0


From 53f2feac4c908da04a7701f729f19c16c2593b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 11/36] fix: print type flags by their names

---
 src/metatype.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/metatype.cpp b/src/metatype.cpp
index 8c1d331..1bd15a9 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -484,6 +484,7 @@ static char const *flag_names[] = {"None",
                                    "Polymorphic",
                                    "DefaultConstructible",
                                    "CopyConstructible",
+                                   "CopyAssignable",
                                    "MoveConstructible",
                                    "MoveAssignable",
                                    "Destructible",
@@ -492,7 +493,11 @@ static char const *flag_names[] = {"None",
 
 inline static std::string_view flag_name(TypeFlags value)
 {
-    return flag_names[static_cast<std::underlying_type_t<TypeFlags>>(value)];
+    // None is followed by the bits in order
+    auto index = std::size_t{0};
+    for (auto bits = static_cast<std::underlying_type_t<TypeFlags>>(value); bits; bits >>= 1)
+        ++index;
+    return flag_names[index];
 }
 
 inline static constexpr bool check_flag(TypeFlags value, TypeFlags bit)
@@ -550,6 +555,8 @@ std::ostream& operator<<(std::ostream &stream, TypeFlags value)
         it = flag_name(TypeFlags::DefaultConstructible);
     if (check_flag(value, TypeFlags::CopyConstructible))
         it = flag_name(TypeFlags::CopyConstructible);
+    if (check_flag(value, TypeFlags::CopyAssignable))
+        it = flag_name(TypeFlags::CopyAssignable);
     if (check_flag(value, TypeFlags::MoveConstructible))
         it = flag_name(TypeFlags::MoveConstructible);
     if (check_flag(value, TypeFlags::MoveAssignable))
-- 
2.43.0


From 6f29fc6250a6bd35522e8ec50e9846497ab1bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 12/36] fix: a converter that reports failure or throws leaves
 no result behind

---
 include/rtti/metatype.h | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index ab7222e..dd5dcbf 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -706,11 +706,20 @@ struct RTTI_PRIVATE ConvertFunctorOk: ConvertFunctionBase
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
     {
-        auto &_this = static_cast<this_t const&>(self);
-        auto from = static_cast<From const*>(in);
-        auto result = false;
-        new (out) To(_this.m_func(*from, result));
-        return result;
+        try
+        {
+            auto &_this = static_cast<this_t const&>(self);
+            auto from = static_cast<From const*>(in);
+            auto result = false;
+            auto to = new (out) To(_this.m_func(*from, result));
+            if (!result)
+                to->~To();
+            return result;
+        }
+        catch (...)
+        {
+            return false;
+        }
     }
 
 private:
@@ -768,11 +777,20 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
     {
-        auto &_this = static_cast<this_t const&>(self);
-        auto from = static_cast<From const*>(in);
-        auto result = false;
-        new (out) To(from->*_this.m_func(result));
-        return result;
+        try
+        {
+            auto &_this = static_cast<this_t const&>(self);
+            auto from = static_cast<From const*>(in);
+            auto result = false;
+            auto to = new (out) To(from->*_this.m_func(result));
+            if (!result)
+                to->~To();
+            return result;
+        }
+        catch (...)
+        {
+            return false;
+        }
     }
 
 private:
-- 
2.43.0


From cf289c200719a70821c2a88f0ce95f2a81948bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 13/36] fix: member functions can be registered as converters

---
 include/rtti/metatype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index dd5dcbf..2cca952 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -747,7 +747,7 @@ struct RTTI_PRIVATE ConvertMethod: ConvertFunctionBase
         {
             auto &_this = static_cast<this_t const&>(self);
             auto from = static_cast<From const*>(in);
-            new (out) To(from->*_this.m_func());
+            new (out) To((from->*_this.m_func)());
             return true;
         }
         catch (...)
@@ -782,7 +782,7 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
             auto &_this = static_cast<this_t const&>(self);
             auto from = static_cast<From const*>(in);
             auto result = false;
-            auto to = new (out) To(from->*_this.m_func(result));
+            auto to = new (out) To((from->*_this.m_func)(result));
             if (!result)
                 to->~To();
             return result;
-- 
2.43.0


From d0b804fe43c765895b398b6fb1a6c6c9fe598f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 14/36] fix: a converter registered after removal is the one
 used

---
 include/rtti/metatype.h | 49 ++++++++++++++++++-----------------------
 src/metatype.cpp        | 20 +++++++++++------
 2 files changed, 35 insertions(+), 34 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 2cca952..12d7fa0 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -158,7 +158,7 @@ private:
     static bool registerConverter_imp(To(From::*func)(bool&) const);
 
     static bool registerConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId,
-                                  internal::ConvertFunctionBase const &converter);
+                                  std::shared_ptr<internal::ConvertFunctionBase const> converter);
     static bool convert(void const *from, MetaType fromType, void *to, MetaType toType);
     static bool convert(void const *from, MetaType_ID fromTypeId, void *to, MetaType_ID toTypeId);
 
@@ -664,10 +664,6 @@ struct RTTI_PRIVATE ConvertFunctor: ConvertFunctionBase
     explicit ConvertFunctor(F &&func)
         : ConvertFunctionBase{convert}, m_func(std::move(func))
     {}
-    ~ConvertFunctor()
-    {
-        MetaType::unregisterConverter<From, To>();
-    }
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
     {
@@ -699,10 +695,6 @@ struct RTTI_PRIVATE ConvertFunctorOk: ConvertFunctionBase
     explicit ConvertFunctorOk(F &&func)
         : ConvertFunctionBase{convert}, m_func(std::move(func))
     {}
-    ~ConvertFunctorOk()
-    {
-        MetaType::unregisterConverter<From, To>();
-    }
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
     {
@@ -736,11 +728,6 @@ struct RTTI_PRIVATE ConvertMethod: ConvertFunctionBase
         : ConvertFunctionBase{convert}, m_func(func)
     {}
 
-    ~ConvertMethod()
-    {
-        MetaType::unregisterConverter<From, To>();
-    }
-
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
     {
         try
@@ -770,11 +757,6 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
         : ConvertFunctionBase{convert}, m_func(func)
     {}
 
-    ~ConvertMethodOk()
-    {
-        MetaType::unregisterConverter<From, To>();
-    }
-
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
     {
         try
@@ -797,6 +779,16 @@ private:
     func_t const m_func;
 };
 
+// Code of the converter may become unavailable after static objects are destroyed
+template<typename From, typename To>
+struct RTTI_PRIVATE ConverterCleanup
+{
+    ~ConverterCleanup()
+    {
+        MetaType::unregisterConverter<From, To>();
+    }
+};
+
 } // namespace internal
 
 
@@ -811,18 +803,19 @@ inline bool MetaType::hasConverter() noexcept
 template<typename From, typename To, typename Func>
 inline bool MetaType::registerConverter_imp(Func &&func)
 {
+    static internal::ConverterCleanup<From, To> const cleanup{};
     using Fu = full_decay_t<Func>;
     auto constexpr is_functorOk = std::is_invocable_r_v<To, Func, From, bool&>;
 
     if constexpr(is_functorOk)
     {
-        static internal::ConvertFunctorOk<From, To, Fu> converter{std::forward<Func>(func)};
-        return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
+        return registerConverter(metaTypeId<From>(), metaTypeId<To>(),
+                                 std::make_shared<internal::ConvertFunctorOk<From, To, Fu>>(std::forward<Func>(func)));
     }
     else
     {
-        static internal::ConvertFunctor<From, To, Fu> converter{std::forward<Func>(func)};
-        return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
+        return registerConverter(metaTypeId<From>(), metaTypeId<To>(),
+                                 std::make_shared<internal::ConvertFunctor<From, To, Fu>>(std::forward<Func>(func)));
     }
 }
 
@@ -852,8 +845,9 @@ inline bool MetaType::registerConverter()
 template<typename From, typename To>
 inline bool MetaType::registerConverter_imp(To(From::*func)() const)
 {
-    static internal::ConvertMethod<From, To> converter{func};
-    return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
+    static internal::ConverterCleanup<From, To> const cleanup{};
+    return registerConverter(metaTypeId<From>(), metaTypeId<To>(),
+                             std::make_shared<internal::ConvertMethod<From, To>>(func));
 }
 
 template<typename From, typename To>
@@ -869,8 +863,9 @@ inline bool MetaType::registerConverter(To(From::*func)() const)
 template<typename From, typename To>
 inline bool MetaType::registerConverter_imp(To(From::*func)(bool&) const)
 {
-    static internal::ConvertMethodOk<From, To> converter{func};
-    return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
+    static internal::ConverterCleanup<From, To> const cleanup{};
+    return registerConverter(metaTypeId<From>(), metaTypeId<To>(),
+                             std::make_shared<internal::ConvertMethodOk<From, To>>(func));
 }
 
 template<typename From, typename To>
diff --git a/src/metatype.cpp b/src/metatype.cpp
index 1bd15a9..a5ee266 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -343,7 +343,7 @@ namespace {
             return (m_items.find(key) != std::end(m_items));
         }
 
-        bool add(key_t key, F const *func)
+        bool add(key_t key, std::shared_ptr<F const> func)
         {
             if (!func)
                 return false;
@@ -352,11 +352,11 @@ namespace {
             if (auto search = m_items.find(key); search != std::end(m_items))
                 return false;
 
-            m_items.emplace(key, func);
+            m_items.emplace(key, std::move(func));
             return true;
         }
 
-        F const* get(key_t const &key) const
+        std::shared_ptr<F const> get(key_t const &key) const
         {
             std::shared_lock lock{m_lock};
             if (auto search = m_items.find(key); search != std::end(m_items))
@@ -366,8 +366,14 @@ namespace {
 
         void remove(key_t const &key)
         {
+            std::shared_ptr<F const> removed;
             std::unique_lock lock{m_lock};
-            m_items.erase(key);
+            if (auto search = m_items.find(key); search != std::end(m_items))
+            {
+                removed = std::move(search->second);
+                m_items.erase(search);
+            }
+            lock.unlock();
         }
     private:
         struct hash_key
@@ -382,7 +388,7 @@ namespace {
         };
 
         mutable std::shared_mutex m_lock;
-        std::unordered_map<key_t, F const*, hash_key> m_items;
+        std::unordered_map<key_t, std::shared_ptr<F const>, hash_key> m_items;
 
         static bool Destroyed;
 
@@ -420,14 +426,14 @@ bool MetaType::hasConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId) noexce
 }
 
 bool MetaType::registerConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId,
-                                 internal::ConvertFunctionBase const &converter)
+                                 std::shared_ptr<internal::ConvertFunctionBase const> converter)
 {
     auto fromType = MetaType{fromTypeId};
     auto toType   = MetaType{toTypeId};
 
     if (fromType.valid() && toType.valid())
         if (auto list = customConverters())
-            return list->add({fromType.m_typeInfo->decay, toType.m_typeInfo->decay}, &converter);
+            return list->add({fromType.m_typeInfo->decay, toType.m_typeInfo->decay}, std::move(converter));
     return false;
 }
 
-- 
2.43.0


From 84e9aba8473d8391766198b3dc63072c890b45a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 15/36] fix: comparing variants is symmetric and does not mix
 arrays with pointers

---
 src/variant.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index 478b2ba..23605a0 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -101,19 +101,17 @@ bool variant::operator==(variant const &value) const
     auto mt_left  = MetaType{this->internalTypeId(type_attribute::LREF_CONST)};
     auto mt_right = MetaType{value.internalTypeId(type_attribute::LREF_CONST)};
 
-    if (MetaType::compatible(mt_right, mt_left))
-    {
-        if (mt_right.decayId() == mt_left.decayId())
-        {
-            auto ptr = value.raw_data_ptr();
-            if (mt_right.isArray())
-                ptr = *reinterpret_cast<void const *const *>(ptr);
+    // Operands should have the same decayed type and both be arrays of the same size or both be not
+    if (mt_right.decayId() != mt_left.decayId() || mt_right.isArray() != mt_left.isArray())
+        return false;
+    if (mt_left.isArray() && mt_right.typeSize() != mt_left.typeSize())
+        return false;
 
-            return manager->f_compare_eq(storage, ptr);
-        }
-    }
+    auto ptr = value.raw_data_ptr();
+    if (mt_right.isArray())
+        ptr = *reinterpret_cast<void const *const *>(ptr);
 
-    return false;
+    return manager->f_compare_eq(storage, ptr);
 }
 
 variant variant::get_property(std::string_view name) const
-- 
2.43.0


From df00d04fdee25344d089a13304b9432504a39f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:25 +0000
Subject: [PATCH 16/36] fix: eq does not convert to array types

---
 include/rtti/detail/variant_impl.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index b86f7b3..1ab917d 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -479,10 +479,11 @@ bool variant::eq(T const &value) const
     if (*this == variant{std::cref(value)})
         return true;
 
+    // There are no conversions to array
     auto mt_self = MetaType{internalTypeId(type_attribute::NONE)};
     auto mt_value = MetaType{metaTypeId<T>()};
 
-    if (MetaType::hasConverter(mt_self, mt_value))
+    if (!mt_value.isArray() && MetaType::hasConverter(mt_self, mt_value))
     {
         std::aligned_storage_t<sizeof(T), alignof(T)> buffer;
         if (MetaType::convert(raw_data_ptr(), mt_self, &buffer, mt_value))
@@ -492,7 +493,7 @@ bool variant::eq(T const &value) const
         }
     }
 
-    if (MetaType::hasConverter(mt_value, mt_self))
+    if (!mt_self.isArray() && MetaType::hasConverter(mt_value, mt_self))
     {
         auto *buffer = mt_self.allocate();
         FINALLY { mt_self.deallocate(buffer); };
@@ -506,10 +507,7 @@ bool variant::eq(T const &value) const
         if (MetaType::convert(address, mt_value, buffer, mt_self))
         {
             FINALLY { mt_self.destroy(buffer); };
-            auto ptr = raw_data_ptr();
-            if (mt_self.isArray())
-                ptr = *reinterpret_cast<void const *const *>(ptr);
-            return mt_self.compare_eq(ptr, buffer);
+            return mt_self.compare_eq(raw_data_ptr(), buffer);
         }
     }
 
-- 
2.43.0


From 69464ad0af5f9cf5fce7d2ef0360ea4d8efed785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:42 +0000
Subject: [PATCH 17/36] fix: eq of two variants compares their contents

---
 include/rtti/detail/variant_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 1ab917d..9aaf4cb 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -476,6 +476,9 @@ variant& variant::operator=(T &&value)
 template<typename T>
 bool variant::eq(T const &value) const
 {
+    if constexpr(std::is_same_v<T, variant>)
+        return (*this == value);
+
     if (*this == variant{std::cref(value)})
         return true;
 
-- 
2.43.0


From 8c691d65a72a79760497fac33c3ace9fe3a99db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 18/36] fix: std::hash of ids compiles

---
 include/rtti/tagged_id.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/tagged_id.h b/include/rtti/tagged_id.h
index 69e6783..28b4ea3 100644
--- a/include/rtti/tagged_id.h
+++ b/include/rtti/tagged_id.h
@@ -61,7 +61,7 @@ struct hash<mpl::ID<Tag, Type, default_value>>
 
     result_type operator()(argument_type const &id) const
     {
-        return std::hash<Type>(id.value());
+        return std::hash<Type>{}(id.value());
     }
 };
 
-- 
2.43.0


From 69fb90cd1440c58915c6693aca215ce9e2baf2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:37 +0000
Subject: [PATCH 19/36] fix: equal variants have equal hashes

---
 include/rtti/detail/variant_impl.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 9aaf4cb..8837e8a 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -590,8 +590,25 @@ struct hash<rtti::variant>: public std::__hash_base<std::size_t, rtti::variant>
         if (!value)
             return 0;
 
+        using rtti::TypeFlags;
+
         auto type = rtti::MetaType{value.typeId()};
         auto ptr = value.raw_data_ptr({});
+
+        if (type.decayId() == rtti::metaTypeId<float>())
+            return std::hash<float>{}(*static_cast<float const *>(ptr));
+        if (type.decayId() == rtti::metaTypeId<double>())
+            return std::hash<double>{}(*static_cast<double const *>(ptr));
+        if (type.decayId() == rtti::metaTypeId<long double>())
+            return std::hash<long double>{}(*static_cast<long double const *>(ptr));
+        if (type.decayId() == rtti::metaTypeId<std::string>())
+            return std::hash<std::string>{}(*static_cast<std::string const *>(ptr));
+
+        // Equal values of other types may have different representations
+        auto scalar = type.typeFlags() & (TypeFlags::Integral | TypeFlags::Enum);
+        if (type.pointerArity() == 0 && scalar == TypeFlags::None)
+            return std::hash<rtti::MetaType_ID>{}(type.decayId());
+
         if (type.isArray())
             ptr = *reinterpret_cast<void const * const *>(ptr);
         return _Hash_impl::hash(ptr, type.typeSize());
-- 
2.43.0


From c9081ae14a40e723aaa0ae0032ae5dc5f19f97e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:27 +0000
Subject: [PATCH 20/36] fix: variant != value negates variant's own ==

---
 include/rtti/variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index 1231aed..51152db 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -109,7 +109,7 @@ public:
     template<typename T>
     bool operator!=(T const &value) const
     {
-        return !(*this == value);
+        return !operator==(value);
     }
 
     template<typename T>
-- 
2.43.0


From d50f4b08a08728908c4819b04e5fdbab85ebdea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 21/36] fix: null class pointer in variant has no class

---
 include/rtti/detail/variant_impl.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 8837e8a..2aeafda 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -378,16 +378,13 @@ struct class_info_get
             }
             else if constexpr(is_class_ptr_v<Decay>)
             {
+                auto ptr = *reinterpret_cast<C const * const *>(instance);
+                if (!ptr)
+                    return ClassInfo{};
                 if constexpr(is_registered::value)
-                {
-                    auto ptr = reinterpret_cast<C const * const *>(instance);
-                    return (*ptr)->classInfo();
-                }
+                    return ptr->classInfo();
                 else
-                {
-                    auto ptr = reinterpret_cast<C const * const *>(instance);
-                    return ClassInfo{metaTypeId<C>(), *ptr};
-                }
+                    return ClassInfo{metaTypeId<C>(), ptr};
             }
         }
     }
-- 
2.43.0


From 89b32ce9303328636c4c2b013dd3fb0fbadd5496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 22/36] fix: derived class can redefine methods and properties
 of its bases

---
 src/metamethod.cpp   | 4 +++-
 src/metaproperty.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metamethod.cpp b/src/metamethod.cpp
index ffa0762..b27f40d 100644
--- a/src/metamethod.cpp
+++ b/src/metamethod.cpp
@@ -26,7 +26,9 @@ MetaMethod* MetaMethod::create(std::string_view name, MetaContainer &owner,
         return nullptr;
 
     auto signature = invoker->signature(name);
-    auto result = const_cast<MetaMethod*>(owner.getMethod(signature));
+    // Don't look in base classes, their methods can be redefined
+    auto result = static_cast<MetaMethod*>(const_cast<MetaItem*>(
+        INVOKE_PROTECTED(owner, item, mcatMethod, std::string_view{signature})));
     if (!result)
     {
         result = new MetaMethod{signature, owner, std::move(invoker)};
diff --git a/src/metaproperty.cpp b/src/metaproperty.cpp
index 1da43c8..2cd940c 100644
--- a/src/metaproperty.cpp
+++ b/src/metaproperty.cpp
@@ -18,7 +18,9 @@ MetaProperty* MetaProperty::create(std::string_view name, MetaContainer &owner,
     if (name.empty() || !invoker)
         return nullptr;
 
-    auto result = const_cast<MetaProperty*>(owner.getProperty(name));
+    // Don't look in base classes, their properties can be redefined
+    auto result = static_cast<MetaProperty*>(const_cast<MetaItem*>(
+        INVOKE_PROTECTED(owner, item, mcatProperty, name)));
     if (!result)
     {
         result = new MetaProperty{name, owner, std::move(invoker)};
-- 
2.43.0


From 9700c819ce1a497b0fbe9db22787d68e6343b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 23/36] fix: static methods without arguments can be invoked

---
 include/rtti/detail/metamethod_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/rtti/detail/metamethod_impl.h b/include/rtti/detail/metamethod_impl.h
index 0aaf9f4..cb480ed 100644
--- a/include/rtti/detail/metamethod_impl.h
+++ b/include/rtti/detail/metamethod_impl.h
@@ -11,6 +11,10 @@ variant MetaMethod::invoke(Args&&... args) const
     auto interface = invoker();
     if (interface->isStatic())
         return interface->invoke_static(std::forward<Args>(args)...);
+
+    // Member functions need at least an instance
+    if constexpr(sizeof...(Args) == 0)
+        throw invoke_error{"Invalid number of arguments"};
     else
         return interface->invoke_method(std::forward<Args>(args)...);
 }
-- 
2.43.0


From ea2d01eadac61a628278e642d7666d76d6122627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 24/36] fix: member functions with ten arguments can be invoked

---
 include/rtti/detail/metamethod_impl.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/rtti/detail/metamethod_impl.h b/include/rtti/detail/metamethod_impl.h
index cb480ed..0635541 100644
--- a/include/rtti/detail/metamethod_impl.h
+++ b/include/rtti/detail/metamethod_impl.h
@@ -6,11 +6,17 @@ namespace rtti {
 template<typename ...Args>
 variant MetaMethod::invoke(Args&&... args) const
 {
-    static_assert(sizeof...(Args) <= IMethodInvoker::MaxNumberOfArguments,
+    // Member functions take an instance in addition to their arguments
+    static_assert(sizeof...(Args) <= IMethodInvoker::MaxNumberOfArguments + 1,
                   "Maximum supported metamethod arguments: 10");
     auto interface = invoker();
     if (interface->isStatic())
-        return interface->invoke_static(std::forward<Args>(args)...);
+    {
+        if constexpr(sizeof...(Args) > IMethodInvoker::MaxNumberOfArguments)
+            throw invoke_error{"Invalid number of arguments"};
+        else
+            return interface->invoke_static(std::forward<Args>(args)...);
+    }
 
     // Member functions need at least an instance
     if constexpr(sizeof...(Args) == 0)
-- 
2.43.0


From 77f801f8f62e8314f25fc23a77443dde5b9f2b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 25/36] fix: classes whose converting constructor takes its
 argument by reference or moves it can be registered

---
 include/rtti/misc_traits.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rtti/misc_traits.h b/include/rtti/misc_traits.h
index b38bc26..d0e99ba 100644
--- a/include/rtti/misc_traits.h
+++ b/include/rtti/misc_traits.h
@@ -227,7 +227,9 @@ struct is_converting_constructor: std::false_type
 
 template<typename T, typename Arg>
 struct is_converting_constructor<T, Arg>:
-    std::conditional_t<!std::is_same_v<T, full_decay_t<Arg>> && std::is_convertible_v<Arg, T>,
+    std::conditional_t<!std::is_same_v<T, full_decay_t<Arg>> && std::is_convertible_v<Arg, T> &&
+                       // conversion source can't be modified
+                       std::is_convertible_v<std::decay_t<Arg> const&, Arg>,
                        std::true_type, std::false_type>
 {};
 
-- 
2.43.0


From 93632545e1433c0b9fb67290068a8095ac1c405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 26/36] fix: properties can be defined by a pair of static
 functions

---
 include/rtti/metadefine.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index a9f7428..b944fc0 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -781,7 +781,7 @@ struct PropertyInvokerEx: IPropertyInvoker
     {}
 
     bool isStatic() const override
-    { return std::is_function_v<G>; }
+    { return std::is_function_v<std::remove_pointer_t<G>>; }
 
     MetaType_ID typeId() const override
     { return metaTypeId<T>(); }
@@ -806,7 +806,7 @@ struct PropertyInvokerEx: IPropertyInvoker
 
 private:
     static constexpr auto valid = conditional_v<
-     (std::is_function_v<G> && (std::is_void_v<S> || std::is_function_v<S>))
+     (std::is_function_v<std::remove_pointer_t<G>> && (std::is_void_v<S> || std::is_function_v<std::remove_pointer_t<S>>))
      ||
      (std::is_member_function_pointer_v<G> && (std::is_void_v<S> || std::is_member_function_pointer_v<S>)),
      std::true_type, std::false_type>;
-- 
2.43.0


From e3695b0a025d6a66603fc1bfe755cc3fba438bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 27/36] fix: a refused class definition does not disturb the
 definition around it

---
 include/rtti/metadefine.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index b944fc0..b6f0307 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -868,9 +868,10 @@ public:
                       "Class can be defined in namespace or anther class");
         assert(m_currentContainer && m_containerStack);
 
+        // Class creation can fail, nothing should be changed in this case
+        auto *item = MetaClass::create(name, *m_currentContainer, metaTypeId<C>(), {});
         m_containerStack->push(m_currentContainer);
-        m_currentContainer = MetaClass::create(
-            name, *m_currentContainer, metaTypeId<C>(), {});
+        m_currentContainer = item;
         m_currentItem = m_currentContainer;
 
         meta_define<C, this_t> result {m_currentItem, m_currentContainer, m_containerStack};
-- 
2.43.0


From 538f0546f72fc1ab8702bc32e7e0879da5c4ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 28/36] fix: registering a class under the name of another
 class is refused

---
 src/metaclass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index 29a4572..c528722 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -38,6 +38,8 @@ MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaTy
             result = const_cast<MetaClass *>(owner.getClass(name));
         }
     }
+    if (result && result->metaTypeId() != typeId)
+        throw duplicate_metaclass{"Other class already registered as: "s + result->qualifiedName()};
     return result;
 }
 
-- 
2.43.0


From ac17198c51d161e59e91cc5ec5014ff68b954a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 29/36] fix: if one of base classes is not registered, none of
 them is added

---
 include/rtti/metadefine.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index b6f0307..23e4c92 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -1016,12 +1016,24 @@ private:
         // check that every type is class
         static_assert(mpl::is_typelist_v<mpl::typelist_map_t<L, check_is_class>>, "");
 
+        // check that every type is registered, nothing should be added otherwise
+        EXPAND(
+            check_base_class(metaTypeId<mpl::typelist_get_t<L, I>>())
+        )
+
         EXPAND(
             item->addBaseClass(metaTypeId<mpl::typelist_get_t<L, I>>(),
                 &internal::metacast_to_base<T, mpl::typelist_get_t<L, I>>, {})
         )
     }
 
+    static void check_base_class(MetaType_ID typeId)
+    {
+        using namespace std::literals;
+        if (!MetaClass::find(typeId))
+            throw unregistered_metaclass{"Base class "s + MetaType{typeId}.typeName() + " not registered"};
+    }
+
     void define_default_constructor()
     {
         if constexpr(std::is_default_constructible_v<T>)
-- 
2.43.0


From 631221e25d111a869068f6f11e3dfabb07bf45d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 30/36] fix: qualified names can be taken from several threads

---
 src/metaitem.cpp         | 9 +--------
 src/private/metaitem_p.h | 7 +++++--
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/metaitem.cpp b/src/metaitem.cpp
index 79f45ed..e1e60cd 100644
--- a/src/metaitem.cpp
+++ b/src/metaitem.cpp
@@ -44,19 +44,12 @@ namespace internal {
 // MetaItemPrivate
 //--------------------------------------------------------------------------------------------------------------------------------
 
-inline std::string MetaItemPrivate::makeQualifiedName() const
+std::string MetaItemPrivate::makeQualifiedName() const
 {
     std::string result = m_owner ? m_owner->qualifiedName() : "";
     return std::move(result) + (m_owner ? "::" + m_name : "");
 }
 
-inline std::string const& MetaItemPrivate::qualifiedName() const
-{
-    if (m_qualifiedName.empty())
-        m_qualifiedName = makeQualifiedName();
-    return m_qualifiedName;
-}
-
 MetaItemPrivate::~MetaItemPrivate() = default;
 
 //--------------------------------------------------------------------------------------------------------------------------------
diff --git a/src/private/metaitem_p.h b/src/private/metaitem_p.h
index 9de38ba..6fb53f9 100644
--- a/src/private/metaitem_p.h
+++ b/src/private/metaitem_p.h
@@ -99,6 +99,7 @@ public:
     MetaItemPrivate(std::string_view name, MetaContainer const &owner)
         : m_name(name)
         , m_owner(&owner)
+        , m_qualifiedName(makeQualifiedName())
     {}
 
     virtual ~MetaItemPrivate();
@@ -108,7 +109,8 @@ protected:
     { return m_name; }
     MetaContainer const *owner() const
     { return m_owner; }
-    std::string const &qualifiedName() const;
+    std::string const &qualifiedName() const
+    { return m_qualifiedName; }
 
 private:
     std::string makeQualifiedName() const;
@@ -116,7 +118,8 @@ private:
     std::string const m_name;
     MetaContainer const *m_owner = nullptr;
     internal::NamedVariantList m_attributes;
-    mutable std::string m_qualifiedName = {};
+    // Never changes, can be read from several threads
+    std::string const m_qualifiedName = {};
 
     friend class rtti::MetaItem;
 };
-- 
2.43.0


From a5e8416e64938bc1986b689af94b436119f82ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 31/36] fix: enumerating items can start deferred definitions
 which add items

---
 src/metacontainer.cpp         |  2 +-
 src/private/metaclass_p.h     | 11 +++++++++--
 src/private/metacontainer_p.h |  7 ++++---
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index 2bacc45..8426a74 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -43,7 +43,7 @@ bool MetaItemList::add(MetaItem *value)
     return false;
 }
 
-inline MetaItem* MetaItemList::get(std::size_t index) const
+MetaItem* MetaItemList::get(std::size_t index) const
 {
     std::shared_lock<std::shared_mutex> lock{m_lock};
     if (index < m_items.size())
diff --git a/src/private/metaclass_p.h b/src/private/metaclass_p.h
index d7f5c77..b3cb1b5 100644
--- a/src/private/metaclass_p.h
+++ b/src/private/metaclass_p.h
@@ -97,9 +97,16 @@ namespace internal {
     template<typename F>
     inline void BaseClassList::for_each(F &&func) const
     {
-        std::shared_lock lock{m_lock};
-        for (auto const &item: m_items)
+        // Items are never removed. Function should be called without lock:
+        // it can start deferred definition which adds new items
+        for (std::size_t i = 0;; ++i)
         {
+            std::shared_lock lock{m_lock};
+            if (i >= m_items.size())
+                break;
+            auto const item = m_items[i];
+            lock.unlock();
+
             if (!func(item))
                 break;
         }
diff --git a/src/private/metacontainer_p.h b/src/private/metacontainer_p.h
index 63ee7a9..07857b4 100644
--- a/src/private/metacontainer_p.h
+++ b/src/private/metacontainer_p.h
@@ -36,10 +36,11 @@ private:
 template<typename F>
 inline void MetaItemList::for_each(F &&func) const
 {
-    std::shared_lock lock{m_lock};
-    for(auto &item: m_items)
+    // Items are never removed. Function should be called without lock:
+    // it can start deferred definition which adds new items
+    for (std::size_t i = 0; auto *item = get(i); ++i)
     {
-        if (!func(item.get()))
+        if (!func(item))
             break;
     }
 }
-- 
2.43.0


From b4c76e697facb0d916550c4e8f7abf839df79f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 32/36] fix: deferred definitions are executed once and
 completely when queried from several threads

---
 src/metacontainer.cpp         | 25 ++++++++++++++++++++++---
 src/private/metacontainer_p.h |  3 ++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index 8426a74..2862f01 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -9,6 +9,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <mutex>
 
 namespace rtti {
 
@@ -141,26 +142,44 @@ MetaContainer::MetaContainer(MetaContainerPrivate &value)
 // Lazy definition
 //--------------------------------------------------------------------------------------------------------------------------------
 
+namespace {
+
+// Deferred definitions can query and define other containers, so they are executed by one thread at a time
+std::recursive_mutex& deferredDefineMutex()
+{
+    static std::recursive_mutex mutex;
+    return mutex;
+}
+
+} // namespace
+
 void MetaContainer::setDeferredDefine(std::unique_ptr<IDefinitionCallbackHolder> callback)
 {
     auto d = d_func();
+    std::lock_guard<std::recursive_mutex> lock{deferredDefineMutex()};
     if (d->m_deferredDefine)
         throw definition_error{"Metacontainer " + qualifiedName() +
                                " already has deferred definition"};
     d->m_deferredDefine = std::move(callback);
+    d->m_deferredDefine_pending.store(d->m_deferredDefine != nullptr, std::memory_order_release);
 }
 
 void MetaContainer::checkDeferredDefine() const
 {
     auto d = d_func();
-    if (!d->m_deferredDefine)
+    if (!d->m_deferredDefine_pending.load(std::memory_order_acquire))
         return;
-    if (d->m_deferredDefine_lock.exchange(true, std::memory_order_acquire))
+
+    // Other threads should wait till the definition is complete
+    std::lock_guard<std::recursive_mutex> lock{deferredDefineMutex()};
+    if (!d->m_deferredDefine || d->m_deferredDefine_running)
         return;
 
+    d->m_deferredDefine_running = true;
     FINALLY{
         d->m_deferredDefine = nullptr;
-        d->m_deferredDefine_lock.store(false, std::memory_order_release);
+        d->m_deferredDefine_running = false;
+        d->m_deferredDefine_pending.store(false, std::memory_order_release);
     };
 
     d->m_deferredDefine->invoke(*const_cast<MetaContainer*>(this));
diff --git a/src/private/metacontainer_p.h b/src/private/metacontainer_p.h
index 07857b4..a99fa38 100644
--- a/src/private/metacontainer_p.h
+++ b/src/private/metacontainer_p.h
@@ -74,7 +74,8 @@ private:
          &m_methods, &m_enums, &m_constructors}
     };
 
-    mutable std::atomic_bool m_deferredDefine_lock = false;
+    mutable std::atomic_bool m_deferredDefine_pending = false;
+    mutable bool m_deferredDefine_running = false;
     mutable std::unique_ptr<IDefinitionCallbackHolder> m_deferredDefine;
 
     friend class rtti::MetaContainer;
-- 
2.43.0


From 73001dac78b7a0ae91355e15a9f544426397d0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 33/36] fix: the right fold of a type list has the result of
 the fold as its type

---
 include/rtti/typelist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/typelist.h b/include/rtti/typelist.h
index 54509b3..f5bdfab 100644
--- a/include/rtti/typelist.h
+++ b/include/rtti/typelist.h
@@ -441,7 +441,7 @@ struct typelist_foldr: check_typelist<T>
 
 template<typename H, typename ...T, template<typename, typename> class F, typename I>
 struct typelist_foldr<type_list<H, T...>, F, I>:
-        F<H, typename typelist_foldr<type_list<T...>, F, I>::type>::type
+        identity<typename F<H, typename typelist_foldr<type_list<T...>, F, I>::type>::type>
 {};
 
 template<template<typename, typename> class F, typename I>
-- 
2.43.0


From 12389b95dd17a640740dd31b8dcdd827cfb0af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 34/36] fix: the traits of std::function are those of its
 signature

---
 include/rtti/function_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/function_traits.h b/include/rtti/function_traits.h
index efec932..f967185 100644
--- a/include/rtti/function_traits.h
+++ b/include/rtti/function_traits.h
@@ -164,7 +164,7 @@ struct function_traits_helper<R(C::*)(Args...) const volatile &&>:
 };
 
 template <typename F>
-struct function_traits_helper<std::function<F>>: function_traits_helper<F>
+struct function_traits_helper<std::function<F>>: function_traits_helper<std::decay_t<F>>
 {};
 
 } // namespace internal
-- 
2.43.0


From e4183d1c210c3c4955ef612d1a7e1094e503a9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 35/36] fix: function traits of noexcept member functions with
 ref or volatile qualifiers

---
 include/rtti/function_traits.h | 99 ++++++++++++++++++++++++++++++++++
 1 file changed, 99 insertions(+)

diff --git a/include/rtti/function_traits.h b/include/rtti/function_traits.h
index f967185..4d72aa5 100644
--- a/include/rtti/function_traits.h
+++ b/include/rtti/function_traits.h
@@ -71,6 +71,15 @@ struct function_traits_helper<R(C::*)(Args...) &>:
     using is_lrefthis = std::true_type;
 };
 
+#if __cplusplus > 201402L
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) & noexcept>:
+    function_traits_helper<R(C::*)(Args...) noexcept>
+{
+    using is_lrefthis = std::true_type;
+};
+#endif
+
 template<typename C, typename R, typename ...Args>
 struct function_traits_helper<R(C::*)(Args...) &&>:
     function_traits_helper<R(C::*)(Args...)>
@@ -79,6 +88,16 @@ struct function_traits_helper<R(C::*)(Args...) &&>:
     using uniform_signature = R(C&&, Args...);
 };
 
+#if __cplusplus > 201402L
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) && noexcept>:
+    function_traits_helper<R(C::*)(Args...) noexcept>
+{
+    using is_rrefthis = std::true_type;
+    using uniform_signature = R(C&&, Args...) noexcept;
+};
+#endif
+
 template<typename C, typename R, typename ...Args>
 struct function_traits_helper<R(C::*)(Args...) const>:
     function_traits_helper<R(*)(Args...)>
@@ -106,6 +125,15 @@ struct function_traits_helper<R(C::*)(Args...) const &>:
     using is_lrefthis = std::true_type;
 };
 
+#if __cplusplus > 201402L
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) const & noexcept>:
+    function_traits_helper<R(C::*)(Args...) const noexcept>
+{
+    using is_lrefthis = std::true_type;
+};
+#endif
+
 template<typename C, typename R, typename ...Args>
 struct function_traits_helper<R(C::*)(Args...) const &&>:
     function_traits_helper<R(C::*)(Args...) const>
@@ -114,6 +142,16 @@ struct function_traits_helper<R(C::*)(Args...) const &&>:
     using uniform_signature = R(C const&&, Args...);
 };
 
+#if __cplusplus > 201402L
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) const && noexcept>:
+    function_traits_helper<R(C::*)(Args...) const noexcept>
+{
+    using is_rrefthis = std::true_type;
+    using uniform_signature = R(C const&&, Args...) noexcept;
+};
+#endif
+
 template<typename C, typename R, typename ...Args>
 struct function_traits_helper<R(C::*)(Args...) volatile>:
     function_traits_helper<R(*)(Args...)>
@@ -123,6 +161,17 @@ struct function_traits_helper<R(C::*)(Args...) volatile>:
     using uniform_signature = R(volatile C&, Args...);
 };
 
+#if __cplusplus > 201402L
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) volatile noexcept>:
+    function_traits_helper<R(*)(Args...) noexcept>
+{
+    using class_type = C;
+    using is_volatile = std::true_type;
+    using uniform_signature = R(volatile C&, Args...) noexcept;
+};
+#endif
+
 template<typename C, typename R, typename ...Args>
 struct function_traits_helper<R(C::*)(Args...) volatile &>:
     function_traits_helper<R(C::*)(Args...) volatile>
@@ -130,6 +179,15 @@ struct function_traits_helper<R(C::*)(Args...) volatile &>:
     using is_lrefthis = std::true_type;
 };
 
+#if __cplusplus > 201402L
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) volatile & noexcept>:
+    function_traits_helper<R(C::*)(Args...) volatile noexcept>
+{
+    using is_lrefthis = std::true_type;
+};
+#endif
+
 template<typename C, typename R, typename ...Args>
 struct function_traits_helper<R(C::*)(Args...) volatile &&>:
     function_traits_helper<R(C::*)(Args...) volatile>
@@ -138,6 +196,16 @@ struct function_traits_helper<R(C::*)(Args...) volatile &&>:
     using uniform_signature = R(volatile C&&, Args...);
 };
 
+#if __cplusplus > 201402L
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) volatile && noexcept>:
+    function_traits_helper<R(C::*)(Args...) volatile noexcept>
+{
+    using is_rrefthis = std::true_type;
+    using uniform_signature = R(volatile C&&, Args...) noexcept;
+};
+#endif
+
 template<typename C, typename R, typename ...Args>
 struct function_traits_helper<R(C::*)(Args...) const volatile>:
     function_traits_helper<R(*)(Args...)>
@@ -148,6 +216,18 @@ struct function_traits_helper<R(C::*)(Args...) const volatile>:
     using uniform_signature = R(C const volatile&, Args...);
 };
 
+#if __cplusplus > 201402L
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) const volatile noexcept>:
+    function_traits_helper<R(*)(Args...) noexcept>
+{
+    using class_type = C;
+    using is_const = std::true_type;
+    using is_volatile = std::true_type;
+    using uniform_signature = R(C const volatile&, Args...) noexcept;
+};
+#endif
+
 template<typename C, typename R, typename ...Args>
 struct function_traits_helper<R(C::*)(Args...) const volatile &>:
     function_traits_helper<R(C::*)(Args...) const volatile>
@@ -155,6 +235,15 @@ struct function_traits_helper<R(C::*)(Args...) const volatile &>:
     using is_lrefthis = std::true_type;
 };
 
+#if __cplusplus > 201402L
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) const volatile & noexcept>:
+    function_traits_helper<R(C::*)(Args...) const volatile noexcept>
+{
+    using is_lrefthis = std::true_type;
+};
+#endif
+
 template<typename C, typename R, typename ...Args>
 struct function_traits_helper<R(C::*)(Args...) const volatile &&>:
     function_traits_helper<R(C::*)(Args...) const volatile>
@@ -163,6 +252,16 @@ struct function_traits_helper<R(C::*)(Args...) const volatile &&>:
     using uniform_signature = R(C const volatile&&, Args...);
 };
 
+#if __cplusplus > 201402L
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) const volatile && noexcept>:
+    function_traits_helper<R(C::*)(Args...) const volatile noexcept>
+{
+    using is_rrefthis = std::true_type;
+    using uniform_signature = R(C const volatile&&, Args...) noexcept;
+};
+#endif
+
 template <typename F>
 struct function_traits_helper<std::function<F>>: function_traits_helper<std::decay_t<F>>
 {};
-- 
2.43.0


From 45695f1e92a3c673a56c814fb985548bd19fe748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 36/36] fix: make_function accepts noexcept functions

---
 include/rtti/function_traits.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/rtti/function_traits.h b/include/rtti/function_traits.h
index 4d72aa5..24f3563 100644
--- a/include/rtti/function_traits.h
+++ b/include/rtti/function_traits.h
@@ -272,9 +272,29 @@ template<typename F>
 struct function_traits: internal::function_traits_helper<std::decay_t<F>>
 {};
 
+namespace internal {
+
+// std::function has no noexcept signatures
+template<typename S>
+struct function_signature
+{
+    using type = S;
+};
+
+#if __cplusplus > 201402L
+template<typename R, typename ...Args>
+struct function_signature<R(Args...) noexcept>
+{
+    using type = R(Args...);
+};
+#endif
+
+} // namespace internal
+
 // Factory
 template<typename F>
-using function_type = std::function<typename function_traits<F>::base_signature>;
+using function_type = std::function<
+    typename internal::function_signature<typename function_traits<F>::base_signature>::type>;
 
 template<typename F>
 inline function_type<F> make_function(F &&f)
-- 
2.43.0

