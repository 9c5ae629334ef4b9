From 0f906531d0d6684c149916064d44c2d5864c8198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 01/27] fix: a member of a base class no longer takes the name
 of a derived class's own method or property

MetaMethod::create and MetaProperty::create looked the name up through the
owner's inheriting lookup, so defining a member in a class whose registered
base had one of the same signature returned the base's item and registered
nothing.
---
 src/metamethod.cpp   | 11 +++++++++--
 src/metaproperty.cpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/metamethod.cpp b/src/metamethod.cpp
index ffa0762..af88da3 100644
--- a/src/metamethod.cpp
+++ b/src/metamethod.cpp
@@ -26,14 +26,21 @@ MetaMethod* MetaMethod::create(std::string_view name, MetaContainer &owner,
         return nullptr;
 
     auto signature = invoker->signature(name);
-    auto result = const_cast<MetaMethod*>(owner.getMethod(signature));
+    // look in the owner itself only: a member of a base class doesn't take the name
+    auto find = [&owner, &signature]
+    {
+        auto item = INVOKE_PROTECTED(owner, item, mcatMethod, std::string_view{signature});
+        return static_cast<MetaMethod*>(const_cast<MetaItem*>(item));
+    };
+
+    auto result = find();
     if (!result)
     {
         result = new MetaMethod{signature, owner, std::move(invoker)};
         if (!INVOKE_PROTECTED(owner, addItem, result))
         {
             delete result;
-            result = const_cast<MetaMethod*>(owner.getMethod(signature));
+            result = find();
         }
     }
     return result;
diff --git a/src/metaproperty.cpp b/src/metaproperty.cpp
index 1da43c8..694fa1c 100644
--- a/src/metaproperty.cpp
+++ b/src/metaproperty.cpp
@@ -18,14 +18,21 @@ MetaProperty* MetaProperty::create(std::string_view name, MetaContainer &owner,
     if (name.empty() || !invoker)
         return nullptr;
 
-    auto result = const_cast<MetaProperty*>(owner.getProperty(name));
+    // look in the owner itself only: a member of a base class doesn't take the name
+    auto find = [&owner, name]
+    {
+        auto item = INVOKE_PROTECTED(owner, item, mcatProperty, name);
+        return static_cast<MetaProperty*>(const_cast<MetaItem*>(item));
+    };
+
+    auto result = find();
     if (!result)
     {
         result = new MetaProperty{name, owner, std::move(invoker)};
         if (!INVOKE_PROTECTED(owner, addItem, result))
         {
             delete result;
-            result = const_cast<MetaProperty*>(owner.getProperty(name));
+            result = find();
         }
     }
     return result;
-- 
2.43.0


From 9583e5e08c390d844c0c41944abc9782accaafe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:08 +0000
Subject: [PATCH 02/27] fix: method converters call the registered member
 function

---
 include/rtti/metatype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index e4ff728..386cad5 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -723,7 +723,7 @@ struct RTTI_PRIVATE ConvertMethod: ConvertFunctionBase
         {
             auto &_this = static_cast<this_t const&>(self);
             auto from = static_cast<From const*>(in);
-            new (out) To(from->*_this.m_func());
+            new (out) To((from->*_this.m_func)());
             return true;
         }
         catch (...)
@@ -756,7 +756,7 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
         auto &_this = static_cast<this_t const&>(self);
         auto from = static_cast<From const*>(in);
         auto result = false;
-        new (out) To(from->*_this.m_func(result));
+        new (out) To((from->*_this.m_func)(result));
         return result;
     }
 
-- 
2.43.0


From 76cb3a5accfa397a7b2fe40e90a0f1f572c8bc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 03/27] fix: a converter that throws or reports failure leaves
 no object behind

---
 include/rtti/metatype.h | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 386cad5..df3ac01 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -691,11 +691,20 @@ struct RTTI_PRIVATE ConvertFunctorOk: ConvertFunctionBase
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
     {
-        auto &_this = static_cast<this_t const&>(self);
-        auto from = static_cast<From const*>(in);
-        auto result = false;
-        new (out) To(_this.m_func(*from, result));
-        return result;
+        try
+        {
+            auto &_this = static_cast<this_t const&>(self);
+            auto from = static_cast<From const*>(in);
+            auto result = false;
+            auto *value = new (out) To(_this.m_func(*from, result));
+            if (!result)
+                value->~To();
+            return result;
+        }
+        catch (...)
+        {
+            return false;
+        }
     }
 
 private:
@@ -753,11 +762,20 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
     {
-        auto &_this = static_cast<this_t const&>(self);
-        auto from = static_cast<From const*>(in);
-        auto result = false;
-        new (out) To((from->*_this.m_func)(result));
-        return result;
+        try
+        {
+            auto &_this = static_cast<this_t const&>(self);
+            auto from = static_cast<From const*>(in);
+            auto result = false;
+            auto *value = new (out) To((from->*_this.m_func)(result));
+            if (!result)
+                value->~To();
+            return result;
+        }
+        catch (...)
+        {
+            return false;
+        }
     }
 
 private:
-- 
2.43.0


From 95b6201624c3c056a0d952b3da2b0c7f026f37b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 04/27] fix: printing type flags stays inside the name table
 and names CopyAssignable

---
 src/metatype.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/metatype.cpp b/src/metatype.cpp
index 5c44784..4ffdb22 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -477,6 +477,7 @@ static char const *flag_names[] = {"None",
                                    "Polymorphic",
                                    "DefaultConstructible",
                                    "CopyConstructible",
+                                   "CopyAssignable",
                                    "MoveConstructible",
                                    "MoveAssignable",
                                    "Destructible",
@@ -485,7 +486,11 @@ static char const *flag_names[] = {"None",
 
 inline static std::string_view flag_name(TypeFlags value)
 {
-    return flag_names[static_cast<std::underlying_type_t<TypeFlags>>(value)];
+    // the first name belongs to the empty set, every other one to the next bit
+    std::size_t index = 0;
+    for (auto bits = static_cast<std::underlying_type_t<TypeFlags>>(value); bits; bits >>= 1)
+        ++index;
+    return flag_names[index];
 }
 
 inline static constexpr bool check_flag(TypeFlags value, TypeFlags bit)
@@ -543,6 +548,8 @@ std::ostream& operator<<(std::ostream &stream, TypeFlags value)
         it = flag_name(TypeFlags::DefaultConstructible);
     if (check_flag(value, TypeFlags::CopyConstructible))
         it = flag_name(TypeFlags::CopyConstructible);
+    if (check_flag(value, TypeFlags::CopyAssignable))
+        it = flag_name(TypeFlags::CopyAssignable);
     if (check_flag(value, TypeFlags::MoveConstructible))
         it = flag_name(TypeFlags::MoveConstructible);
     if (check_flag(value, TypeFlags::MoveAssignable))
-- 
2.43.0


From 05bebe760b02978d1e124dbe5185d7ca291255eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 05/27] fix: type-erased array construction constructs the
 elements instead of assigning to raw storage

---
 include/rtti/metatype.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index df3ac01..89db458 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -10,6 +10,8 @@
 #include <rtti/typename.h>
 #include <rtti/tagged_id.h>
 
+#include <memory>
+
 namespace rtti {
 
 namespace internal {
@@ -333,13 +335,7 @@ struct type_function_table_impl<T[N]>
         {
             if constexpr(!std::is_trivially_default_constructible_v<Base>)
                 if (where)
-                {
-                    auto *begin = static_cast<Base*>(where);
-                    auto *end = static_cast<Base*>(where) + Length;
-
-                    for (; begin != end; ++begin)
-                        new (begin) Base();
-                }
+                    std::uninitialized_value_construct_n(static_cast<Base*>(where), Length);
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't DefaultConstructible");
     }
@@ -353,7 +349,7 @@ struct type_function_table_impl<T[N]>
             if (source && where)
             {
                 auto *it = static_cast<Base const*>(source);
-                std::copy(it, it + Length, static_cast<Base*>(where));
+                std::uninitialized_copy(it, it + Length, static_cast<Base*>(where));
             }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't CopyConstructible");
@@ -368,7 +364,7 @@ struct type_function_table_impl<T[N]>
             if (source && where)
             {
                 auto *it = static_cast<Base*>(source);
-                std::move(it, it + Length, static_cast<Base*>(where));
+                std::uninitialized_move(it, it + Length, static_cast<Base*>(where));
             }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't MoveConstructible");
-- 
2.43.0


From c56db9316d82491b858c154df0af184d8b70c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 06/27] fix: comparing arrays of arrays depends on the
 innermost element's equality

---
 include/rtti/metatype.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 89db458..a3d5827 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -392,10 +392,10 @@ struct type_function_table_impl<T[N]>
     }
 
     static bool compare_eq(void const *lhs, void const *rhs)
-        noexcept(has_nt_eq_v<T, T>)
+        noexcept(has_nt_eq_v<Base, Base>)
     {
         using namespace std::literals;
-        if constexpr(has_eq_v<T, T>)
+        if constexpr(has_eq_v<Base, Base>)
         {
             if (lhs == rhs)
                 return true;
@@ -407,7 +407,7 @@ struct type_function_table_impl<T[N]>
             auto *first2 = static_cast<Base const*>(rhs);
             return std::equal(first1, last1, first2);
         }
-        else throw runtime_error("Type T = "s + type_name<T>() + "isn't EQ_Comparable");
+        else throw runtime_error("Type T = "s + type_name<Base>() + "isn't EQ_Comparable");
     }
 
 };
-- 
2.43.0


From 5ea9e2dcc1159521bc2ca23ec3f5a4caadfd3623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 07/27] fix: type-erased allocation respects the alignment of
 over-aligned types

---
 include/rtti/metatype.h | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index a3d5827..3eea117 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -222,18 +222,37 @@ struct RTTI_PRIVATE type_function_table
     {}
 };
 
+// storage aligned for objects of type T
+template<typename T>
+inline void* allocate_for(std::size_t size)
+{
+    if constexpr(alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+        return ::operator new(size, std::align_val_t{alignof(T)});
+    else
+        return ::operator new(size);
+}
+
+template<typename T>
+inline void deallocate_for(void *ptr)
+{
+    if constexpr(alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+        ::operator delete(ptr, std::align_val_t{alignof(T)});
+    else
+        ::operator delete(ptr);
+}
+
 template<typename T>
 struct type_function_table_impl
 {
     static void* allocate()
     {
-        return ::operator new(sizeof(T));
+        return allocate_for<T>(sizeof(T));
     }
 
     static void deallocate(void *ptr)
     {
         if (ptr)
-            ::operator delete(ptr);
+            deallocate_for<T>(ptr);
     }
 
     DISABLE_WARNINGS_PUSH
@@ -318,13 +337,13 @@ struct type_function_table_impl<T[N]>
 
     static void* allocate()
     {
-        return ::operator new(Length*sizeof(Base));
+        return allocate_for<Base>(Length*sizeof(Base));
     }
 
     static void deallocate(void *ptr)
     {
         if (ptr)
-            ::operator delete(ptr);
+            deallocate_for<Base>(ptr);
     }
 
     static void default_construct([[maybe_unused]] void *where)
-- 
2.43.0


From 202bc865489c60e44b942bcd0c3ded989ed07a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 08/27] fix: type-erased construction that throws releases the
 storage

---
 src/metatype.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/metatype.cpp b/src/metatype.cpp
index 4ffdb22..cd353ef 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -292,12 +292,20 @@ bool MetaType::compare_eq(void const *lhs, void const *rhs) const
 void* MetaType::construct(void *copy, bool movable) const
 {
     auto result = allocate();
-    if (!copy)
-        default_construct(result);
-    else if (!movable)
-        copy_construct(copy, result);
-    else
-        move_or_copy(copy, result);
+    try
+    {
+        if (!copy)
+            default_construct(result);
+        else if (!movable)
+            copy_construct(copy, result);
+        else
+            move_or_copy(copy, result);
+    }
+    catch (...)
+    {
+        deallocate(result);
+        throw;
+    }
 
     return result;
 }
-- 
2.43.0


From 419346631d393e4a34dc064f22eebe910377c65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 09/27] fix: a query that loses the race for a deferred
 definition no longer calls a null definition

---
 src/metacontainer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index 2bacc45..8ff59c6 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -163,7 +163,9 @@ void MetaContainer::checkDeferredDefine() const
         d->m_deferredDefine_lock.store(false, std::memory_order_release);
     };
 
-    d->m_deferredDefine->invoke(*const_cast<MetaContainer*>(this));
+    // another thread may have run the definition to its end after the first check
+    if (d->m_deferredDefine)
+        d->m_deferredDefine->invoke(*const_cast<MetaContainer*>(this));
 }
 
 void MetaContainer::forceDeferredDefine(ForceDeferred type) const
-- 
2.43.0


From a5e5c1f458f794f93f4cf9fb725e09604e112151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 10/27] fix: moving a scope guard hands its action over instead
 of running it twice

---
 include/rtti/finally.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/rtti/finally.h b/include/rtti/finally.h
index 643beca..f7c2c6b 100644
--- a/include/rtti/finally.h
+++ b/include/rtti/finally.h
@@ -15,8 +15,19 @@ public:
     scope_guard() = delete;
     scope_guard(scope_guard const&) = delete;
     scope_guard& operator=(scope_guard const&) = delete;
-    scope_guard(scope_guard &&) noexcept = default;
-    scope_guard& operator=(scope_guard &&) noexcept = default;
+    scope_guard(scope_guard &&other)
+        noexcept(std::is_nothrow_move_constructible<F>::value)
+        : m_dismiss{other.m_dismiss}
+        , m_function{std::move(other.m_function)}
+    { other.m_dismiss = true; }
+    scope_guard& operator=(scope_guard &&other)
+        noexcept(std::is_nothrow_swappable<F>::value)
+    {
+        // either action still runs once: when the guard that holds it ends
+        std::swap(m_dismiss, other.m_dismiss);
+        std::swap(m_function, other.m_function);
+        return *this;
+    }
     explicit scope_guard(F const &function)
         noexcept(std::is_nothrow_copy_constructible<F>::value)
         : m_function{function}
-- 
2.43.0


From 9a19580a6630687b842e6d699ca5df7642f321fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 11/27] fix: running out of memory while registering an item
 leaves the list as it was

---
 src/metacontainer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index 8ff59c6..6d76ede 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -36,8 +36,16 @@ bool MetaItemList::add(MetaItem *value)
     if (!itemFound && !nameFound)
     {
         auto index = m_items.size();
-        m_items.emplace_back(value);
-        m_names.emplace(name, index);
+        auto pos = m_names.emplace(name, index).first;
+        try
+        {
+            m_items.emplace_back(value);
+        }
+        catch (...)
+        {
+            m_names.erase(pos);
+            throw;
+        }
         return true;
     }
     return false;
-- 
2.43.0


From 4987fbf734aa8849b878532d42a470c2e78063ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 12/27] fix: running out of memory while setting an attribute
 leaves the table as it was

---
 src/private/metaitem_p.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/private/metaitem_p.h b/src/private/metaitem_p.h
index 9de38ba..2791688 100644
--- a/src/private/metaitem_p.h
+++ b/src/private/metaitem_p.h
@@ -58,8 +58,17 @@ namespace internal {
         std::unique_lock lock{m_lock};
         if (auto search = m_names.find(name); search == std::end(m_names))
         {
-            auto &item = m_items.emplace_back(new named_variant{name, std::forward<T>(value)});
-            m_names.emplace(item->name, m_items.size() - 1);
+            auto item = std::make_unique<named_variant>(name, std::forward<T>(value));
+            auto pos  = m_names.emplace(item->name, m_items.size()).first;
+            try
+            {
+                m_items.emplace_back(std::move(item));
+            }
+            catch (...)
+            {
+                m_names.erase(pos);
+                throw;
+            }
         }
         else
         {
-- 
2.43.0


From 023d57ba3f91904246379297f8f32c80e2df884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 13/27] fix: a variant keeps in place only what fits there,
 alignment included, and moves without throwing

---
 include/rtti/detail/variant_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 2ba1779..7ce2d73 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -5,7 +5,9 @@ namespace rtti {
 
 namespace internal {
 
-template<typename T, bool Small = sizeof(T) <= STORAGE_SIZE>
+template<typename T, bool Small = sizeof(T) <= STORAGE_SIZE
+                                  && alignof(T) <= STORAGE_ALIGN
+                                  && std::is_nothrow_move_constructible_v<T>>
 using is_inplace = std::integral_constant<bool, Small>;
 
 template<typename T>
-- 
2.43.0


From 0a59e4e34f32d35981c67cd32da6b39c37fe8a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 14/27] fix: a variant whose object fails to construct releases
 its storage and raises the exception

---
 include/rtti/detail/variant_impl.h | 41 +++++++++++++++++-------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 7ce2d73..5535f1b 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -45,6 +45,23 @@ struct unwrap_reference<T, true>: mpl::identity<typename T::type>
 template<typename T>
 using unwrap_reference_t = typename unwrap_reference<T>::type;
 
+// storage for an object of type T, released if the construction in it throws
+template<typename T, typename F>
+inline void* construct_on_heap(F &&construct)
+{
+    auto ptr = type_manager_t<T>::allocate();
+    try
+    {
+        construct(ptr);
+    }
+    catch (...)
+    {
+        type_manager_t<T>::deallocate(ptr);
+        throw;
+    }
+    return ptr;
+}
+
 template<typename T,
          bool = is_inplace_v<std::remove_cv_t<T>>,
          bool = is_reference_wrapper_v<std::remove_cv_t<T>>
@@ -213,24 +230,18 @@ struct variant_function_table_impl<T, false, false>
     }
 
     static void copy_construct(void const *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_copy_constructible_v<Decay>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(value, storage.ptr);
+        storage.ptr = construct_on_heap<Decay>([value](void *ptr) { type_manager_t<Decay>::copy_construct(value, ptr); });
     }
 
     static void move_construct(void *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_move_constructible_v<Decay>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::move_or_copy(value, storage.ptr);
+        storage.ptr = construct_on_heap<Decay>([value](void *ptr) { type_manager_t<Decay>::move_or_copy(value, ptr); });
     }
 
     static void copy(variant_type_storage const &src, variant_type_storage &dst)
-        noexcept(std::is_nothrow_copy_constructible_v<Decay>)
     {
-        dst.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(src.ptr, dst.ptr);
+        dst.ptr = construct_on_heap<Decay>([&src](void *ptr) { type_manager_t<Decay>::copy_construct(src.ptr, ptr); });
     }
 
     static void move(variant_type_storage &src, variant_type_storage &dst) noexcept
@@ -285,24 +296,18 @@ struct variant_function_table_impl<T[N], false, false>
     }
 
     static void copy_construct(void const *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_copy_constructible_v<Base>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(value, storage.ptr);
+        storage.ptr = construct_on_heap<Decay>([value](void *ptr) { type_manager_t<Decay>::copy_construct(value, ptr); });
     }
 
     static void move_construct(void *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_move_constructible_v<Base>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::move_or_copy(value, storage.ptr);
+        storage.ptr = construct_on_heap<Decay>([value](void *ptr) { type_manager_t<Decay>::move_or_copy(value, ptr); });
     }
 
     static void copy(variant_type_storage const &src, variant_type_storage &dst)
-        noexcept(std::is_nothrow_copy_constructible_v<Base>)
     {
-        dst.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(src.ptr, dst.ptr);
+        dst.ptr = construct_on_heap<Decay>([&src](void *ptr) { type_manager_t<Decay>::copy_construct(src.ptr, ptr); });
     }
 
     static void move(variant_type_storage &src, variant_type_storage &dst) noexcept
-- 
2.43.0


From 7b48675f41edad88985542e42864c0c2a600e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 15/27] fix: comparing arrays is noexcept only when comparing
 their elements is

---
 include/rtti/detail/variant_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 5535f1b..0ead040 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -188,7 +188,7 @@ struct variant_function_table_impl<T, true, true>
     { /* do nothing */ }
 
     static bool compare_eq(variant_type_storage const &lhs, void const *rhs)
-        noexcept(has_nt_eq_v<Decay, Decay>)
+        noexcept(has_nt_eq_v<std::remove_all_extents_t<Decay>, std::remove_all_extents_t<Decay>>)
     {
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
@@ -322,7 +322,7 @@ struct variant_function_table_impl<T[N], false, false>
     }
 
     static bool compare_eq(variant_type_storage const &lhs, void const *rhs)
-        noexcept(has_nt_eq_v<Decay, Decay>)
+        noexcept(has_nt_eq_v<Base, Base>)
     {
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
-- 
2.43.0


From e17c8124ec8d6daec616976ebe4cb9da2ea07ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 16/27] fix: arrays compare equal only to arrays of the same
 length

---
 src/variant.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index 14f474c..7dc5c5e 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -100,7 +100,9 @@ bool variant::operator==(variant const &value) const
 
     if (MetaType::compatible(mt_right, mt_left))
     {
-        if (mt_right.decayId() == mt_left.decayId())
+        if (mt_right.decayId() == mt_left.decayId()
+            && mt_right.isArray() == mt_left.isArray()
+            && mt_right.typeSize() == mt_left.typeSize())
         {
             auto ptr = value.raw_data_ptr();
             if (mt_right.isArray())
-- 
2.43.0


From e962d80036f3631c34a4bf802802af77396a248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 17/27] fix: class information of a null pointer is that of its
 static type

---
 include/rtti/detail/variant_impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 0ead040..fd52a63 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -370,6 +370,8 @@ struct class_info_get
                 if constexpr(is_registered::value)
                 {
                     auto ptr = reinterpret_cast<C const * const *>(instance);
+                    if (!*ptr)
+                        return ClassInfo{metaTypeId<C>(), nullptr};
                     return (*ptr)->classInfo();
                 }
                 else
-- 
2.43.0


From 9b005b7887f326450dc33167d742d418e25800f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 18/27] fix: a variant of an array of pointers reports the
 array's own type

---
 include/rtti/detail/variant_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index fd52a63..274d5c6 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -327,7 +327,7 @@ struct variant_function_table_impl<T[N], false, false>
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
 private:
-    using U = Decay;
+    using U = std::remove_cv_t<T[N]>;
     using ULref = std::add_lvalue_reference_t<U>;
     using URref = std::add_rvalue_reference_t<U>;
     using UConstLref = std::add_lvalue_reference_t<std::add_const_t<U>>;
-- 
2.43.0


From 1bb0882e5868e1e83b57ccb4d8d632b3fa0ccc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 19/27] fix: a pointer held by reference is not taken for its
 own base sub-object

---
 include/rtti/variant.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index 1231aed..b75bcb5 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -478,7 +478,8 @@ private:
             {
                 if (auto ptr = cast_imp(self))
                 {
-                    if (ptr == self.storage.ptr)
+                    // only a pointer kept in the variant itself can stand for a pointer to base
+                    if (self.raw_data_ptr() == &self.storage && ptr == self.storage.ptr)
                         return &self.storage.ptr;
 
                     throw bad_variant_cast("Reference to sub-object pointers isn't supported");
-- 
2.43.0


From 22a7e353e6ab100ed6e40eedf17bd7569939603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 20/27] fix: a null class pointer is viewed as a null pointer
 to base

---
 include/rtti/variant.h | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index b75bcb5..f5c142c 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -464,8 +464,9 @@ private:
         static void const* cast(variant const &self, MetaType from,
                                 std::integral_constant<int, 1>)
         {
-            if (from.isClass())
-                return cast_imp(self);
+            void const *ptr = nullptr;
+            if (from.isClass() && cast_imp(self, ptr))
+                return ptr;
 
             return nullptr;
         }
@@ -476,7 +477,8 @@ private:
         {
             if (from.isClassPtr())
             {
-                if (auto ptr = cast_imp(self))
+                void const *ptr = nullptr;
+                if (cast_imp(self, ptr))
                 {
                     // only a pointer kept in the variant itself can stand for a pointer to base
                     if (self.raw_data_ptr() == &self.storage && ptr == self.storage.ptr)
@@ -488,21 +490,22 @@ private:
             return nullptr;
         }
 
-        // implementaion
-        static void const* cast_imp(variant const &self)
+        // implementaion, a null pointer is cast to null
+        static bool cast_imp(variant const &self, void const *&result)
         {
             auto const &info = self.classInfo();
 
             auto fromType = MetaType{info.typeId};
             if (!fromType.valid())
-                return nullptr;
+                return false;
 
             auto fromClass = MetaClass::find(info.typeId);
             auto toClass   = MetaClass::find(metaTypeId<C>());
-            if (!fromClass || !toClass)
-                return nullptr;
+            if (!fromClass || !toClass || !fromClass->inheritedFrom(toClass))
+                return false;
 
-            return fromClass->cast(toClass, info.instance, {});
+            result = fromClass->cast(toClass, info.instance, {});
+            return true;
         }
     };
 
@@ -558,7 +561,8 @@ private:
         {
             if (from.isClass())
             {
-                if (auto ptr = cast_imp(self))
+                void const *ptr = nullptr;
+                if (cast_imp(self, ptr))
                 {
                     to.copy_construct(ptr, buffer);
                     return true;
@@ -573,7 +577,8 @@ private:
         {
             if (from.isClassPtr())
             {
-                if (auto ptr = cast_imp(self))
+                void const *ptr = nullptr;
+                if (cast_imp(self, ptr))
                 {
                     to.copy_construct(&ptr, buffer);
                     return true;
@@ -582,21 +587,22 @@ private:
             return false;
         }
 
-        // implementaion
-        static void const* cast_imp(variant const &self)
+        // implementaion, a null pointer is cast to null
+        static bool cast_imp(variant const &self, void const *&result)
         {
             auto const &info = self.classInfo();
 
             auto fromType = MetaType{info.typeId};
             if (!fromType.valid())
-                return nullptr;
+                return false;
 
             auto fromClass = MetaClass::find(info.typeId);
             auto toClass   = MetaClass::find(metaTypeId<C>());
-            if (!fromClass || !toClass)
-                return nullptr;
+            if (!fromClass || !toClass || !fromClass->inheritedFrom(toClass))
+                return false;
 
-            return fromClass->cast(toClass, info.instance, {});
+            result = fromClass->cast(toClass, info.instance, {});
+            return true;
         }
     };
 
-- 
2.43.0


From df73593398b51fe2bc8997562be705f678e9deba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 21/27] fix: pointer levels and const-ness below an array are
 those of its elements

---
 include/rtti/misc_traits.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/rtti/misc_traits.h b/include/rtti/misc_traits.h
index 2c6339e..de2f2e8 100644
--- a/include/rtti/misc_traits.h
+++ b/include/rtti/misc_traits.h
@@ -76,6 +76,15 @@ struct pointer_arity<T, true>:
     std::integral_constant<std::size_t, pointer_arity_v<std::remove_pointer_t<T>> + 1>
 {};
 
+// levels below an array are those of its elements
+template<typename T>
+struct pointer_arity<T[], false>: pointer_arity<T>
+{};
+
+template<typename T, std::size_t N>
+struct pointer_arity<T[N], false>: pointer_arity<T>
+{};
+
 //-----------------------------------------------------------------------------------------------------------------------------
 
 template<typename T, bool = std::is_pointer_v<T>>
@@ -209,6 +218,23 @@ struct const_bitset_helper<T, I, true, true>:
     std::integral_constant<std::size_t, (1 << I) + const_bitset_helper_v<std::remove_pointer_t<T>, I - 1>>
 {};
 
+// an array is as const as its elements
+template<typename T, std::size_t I>
+struct const_bitset_helper<T[], I, false, false>: const_bitset_helper<T, I>
+{};
+
+template<typename T, std::size_t I>
+struct const_bitset_helper<T[], I, true, false>: const_bitset_helper<T, I>
+{};
+
+template<typename T, std::size_t N, std::size_t I>
+struct const_bitset_helper<T[N], I, false, false>: const_bitset_helper<T, I>
+{};
+
+template<typename T, std::size_t N, std::size_t I>
+struct const_bitset_helper<T[N], I, true, false>: const_bitset_helper<T, I>
+{};
+
 } // namespace internal
 
 template<typename T>
-- 
2.43.0


From cd4630bac562c7af6e18e745f94ef33bf48e824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 22/27] fix: an array is comparable only when its elements are

---
 include/rtti/metatype.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 3eea117..8b15590 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -472,6 +472,7 @@ struct type_flags {
     using Flags = TypeFlags;
     using no_ref = std::remove_reference_t<T>;
     using no_ptr = std::remove_pointer_t<no_ref>;
+    using no_ext = std::remove_all_extents_t<no_ref>;
     using base = base_type_t<T>;
     static Flags constexpr value =
           (std::is_const_v<no_ref>                 ? Flags::Const                  : Flags::None)
@@ -497,7 +498,7 @@ struct type_flags {
         | (std::is_move_constructible_v<base>      ? Flags::MoveConstructible      : Flags::None)
         | (std::is_move_assignable_v<base>         ? Flags::MoveAssignable         : Flags::None)
         | (std::is_destructible_v<base>            ? Flags::Destructible           : Flags::None)
-        | (has_eq_v<no_ref,no_ref>                 ? Flags::EQ_Comparable          : Flags::None)
+        | (has_eq_v<no_ext,no_ext>                 ? Flags::EQ_Comparable          : Flags::None)
     ;
 };
 
-- 
2.43.0


From 043f5092e704ba9e12705ec20364a42fadbbfda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:50 +0000
Subject: [PATCH 23/27] fix: accessing a member without an instance raises an
 error

---
 include/rtti/metadefine.h | 43 ++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index a9f7428..2bb0da3 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -75,6 +75,21 @@ std::conditional_t<std::is_void_v<typename mpl::function_traits<F>::result_type>
 
 template<typename F, typename Tag> struct method_invoker;
 
+// a member isn't accessed through a null pointer
+template<typename T>
+inline T* not_null(T *instance)
+{
+    if (!instance)
+        throw invoke_error{"Null pointer is used as instance"};
+    return instance;
+}
+
+[[noreturn]] inline void not_instance(MetaType type)
+{
+    using namespace std::literals;
+    throw bad_variant_cast{"Type T = "s + type.typeName() + " isn't Class or ClassPtr"};
+}
+
 using argument_array_t = std::array<argument const*, IMethodInvoker::MaxNumberOfArguments>;
 
 inline argument_array_t pack_arguments(std::size_t count,
@@ -303,7 +318,9 @@ private:
                                        type_name<class_ref_t>()};
         }
         else if (type.isClassPtr())
-            (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
+            (not_null(instance.to<class_ptr_t>())->*func)(args[I]->value<argument_get_t<I>>()...);
+        else
+            not_instance(type);
 
         return variant::empty_variant;
     }
@@ -316,7 +333,9 @@ private:
         if (type.isClass())
             (instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...);
         else if (type.isClassPtr())
-            (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
+            (not_null(instance.to<class_ptr_t>())->*func)(args[I]->value<argument_get_t<I>>()...);
+        else
+            not_instance(type);
 
         return variant::empty_variant;
     }
@@ -416,9 +435,9 @@ private:
                                        type_name<class_ref_t>()};
         }
         else if (type.isClassPtr())
-            return reference_get((instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...));
+            return reference_get((not_null(instance.to<class_ptr_t>())->*func)(args[I]->value<argument_get_t<I>>()...));
 
-        return variant::empty_variant;
+        not_instance(type);
     }
 
     template<std::size_t ...I>
@@ -429,9 +448,9 @@ private:
         if (type.isClass())
             return reference_get((instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...));
         else if (type.isClassPtr())
-            return reference_get((instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...));
+            return reference_get((not_null(instance.to<class_ptr_t>())->*func)(args[I]->value<argument_get_t<I>>()...));
 
-        return variant::empty_variant;
+        not_instance(type);
     }
 };
 
@@ -697,8 +716,8 @@ struct property_invoker<P, member_pointer>
         if (type.isClass())
             return std::ref(instance.ref<C const>().*property);
         else if (type.isClassPtr())
-            return std::ref(instance.to<C const *>()->*property);
-        return variant::empty_variant;
+            return std::ref(not_null(instance.to<C const *>())->*property);
+        not_instance(type);
     }
 
     static void set_field(P property, variant const &instance, argument const &arg)
@@ -713,7 +732,9 @@ struct property_invoker<P, member_pointer>
                 throw bad_variant_cast{"Incompatible types: const rtti::variant& -> "s +
                                        type_name<class_ref_t>()};
             else if (type.isClassPtr())
-                instance.to<C*>()->*property = arg.value<T>();
+                not_null(instance.to<C*>())->*property = arg.value<T>();
+            else
+                not_instance(type);
         }
     }
 
@@ -727,7 +748,9 @@ struct property_invoker<P, member_pointer>
             if (type.isClass())
                 instance.ref<C>().*property = arg.value<T>();
             else if (type.isClassPtr())
-                instance.to<C*>()->*property = arg.value<T>();
+                not_null(instance.to<C*>())->*property = arg.value<T>();
+            else
+                not_instance(type);
         }
     }
 private:
-- 
2.43.0


From 18b55edc2a405b4507f16522d573869a1a212771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:50 +0000
Subject: [PATCH 24/27] fix: an argument passed as std::ref is the caller's
 lvalue

---
 include/rtti/detail/argument_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/detail/argument_impl.h b/include/rtti/detail/argument_impl.h
index 5738973..238beaf 100644
--- a/include/rtti/detail/argument_impl.h
+++ b/include/rtti/detail/argument_impl.h
@@ -5,7 +5,7 @@ namespace rtti {
 
 template<typename T, typename>
 argument::argument(T &&value) noexcept
-    : m_rvalue(!std::is_reference_v<T>)
+    : m_rvalue(!std::is_reference_v<T> && !internal::is_reference_wrapper_v<std::decay_t<T>>)
     , m_value{std::ref(value)}
 {}
 
-- 
2.43.0


From 32bcc4dd480b04f89c23ea9b113842b723cd125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:50 +0000
Subject: [PATCH 25/27] fix: methods can be invoked without arguments

---
 include/rtti/detail/metamethod_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rtti/detail/metamethod_impl.h b/include/rtti/detail/metamethod_impl.h
index 0aaf9f4..b8019e2 100644
--- a/include/rtti/detail/metamethod_impl.h
+++ b/include/rtti/detail/metamethod_impl.h
@@ -11,8 +11,10 @@ variant MetaMethod::invoke(Args&&... args) const
     auto interface = invoker();
     if (interface->isStatic())
         return interface->invoke_static(std::forward<Args>(args)...);
-    else
+    else if constexpr(sizeof...(Args) > 0)
         return interface->invoke_method(std::forward<Args>(args)...);
+    else
+        throw invoke_error{"Trying to invoke method " + qualifiedName() + " without instance"};
 }
 
 } // namespace rtti
-- 
2.43.0


From b69f114cc0a74f02f92cd0e66edb7c258bcf21dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:50 +0000
Subject: [PATCH 26/27] fix: properties accept static get and set functions

---
 include/rtti/metadefine.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index 2bb0da3..f8a622f 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -804,7 +804,7 @@ struct PropertyInvokerEx: IPropertyInvoker
     {}
 
     bool isStatic() const override
-    { return std::is_function_v<G>; }
+    { return std::is_function_v<std::remove_pointer_t<G>>; }
 
     MetaType_ID typeId() const override
     { return metaTypeId<T>(); }
@@ -829,7 +829,7 @@ struct PropertyInvokerEx: IPropertyInvoker
 
 private:
     static constexpr auto valid = conditional_v<
-     (std::is_function_v<G> && (std::is_void_v<S> || std::is_function_v<S>))
+     (std::is_function_v<std::remove_pointer_t<G>> && (std::is_void_v<S> || std::is_function_v<std::remove_pointer_t<S>>))
      ||
      (std::is_member_function_pointer_v<G> && (std::is_void_v<S> || std::is_member_function_pointer_v<S>)),
      std::true_type, std::false_type>;
-- 
2.43.0


From 5b39028eed84d6d66d4a374097445eb369441c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:57 +0000
Subject: [PATCH 27/27] fix: the end of a converter that was refused or
 replaced no longer unregisters the one in force

---
 include/rtti/metatype.h | 18 ++++++++++++++----
 src/metatype.cpp        | 18 ++++++++++++++++++
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 8b15590..4bcbc1e 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -158,6 +158,8 @@ private:
 
     static bool registerConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId,
                                   internal::ConvertFunctionBase const &converter);
+    static void unregisterConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId,
+                                    internal::ConvertFunctionBase const &converter);
     static bool convert(void const *from, MetaType fromType, void *to, MetaType toType);
     static bool convert(void const *from, MetaType_ID fromTypeId, void *to, MetaType_ID toTypeId);
 
@@ -170,6 +172,7 @@ private:
         template<typename> friend class internal::meta_type;
     };
     friend class rtti::variant;
+    friend struct internal::ConvertFunctionBase;
 public:
     TypeInfo const* typeInfo(TypeInfoKey) const
     { return m_typeInfo; }
@@ -650,6 +653,13 @@ struct RTTI_PRIVATE ConvertFunctionBase
     {
         return m_converter(*this, in, out);
     }
+protected:
+    // only the registered converter is unregistered with its end
+    template<typename From, typename To>
+    void unregister() const
+    {
+        MetaType::unregisterConverter(metaTypeId<From>(), metaTypeId<To>(), *this);
+    }
 private:
     converter_t m_converter;
 };
@@ -667,7 +677,7 @@ struct RTTI_PRIVATE ConvertFunctor: ConvertFunctionBase
     {}
     ~ConvertFunctor()
     {
-        MetaType::unregisterConverter<From, To>();
+        unregister<From, To>();
     }
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
@@ -702,7 +712,7 @@ struct RTTI_PRIVATE ConvertFunctorOk: ConvertFunctionBase
     {}
     ~ConvertFunctorOk()
     {
-        MetaType::unregisterConverter<From, To>();
+        unregister<From, To>();
     }
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
@@ -739,7 +749,7 @@ struct RTTI_PRIVATE ConvertMethod: ConvertFunctionBase
 
     ~ConvertMethod()
     {
-        MetaType::unregisterConverter<From, To>();
+        unregister<From, To>();
     }
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
@@ -773,7 +783,7 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
 
     ~ConvertMethodOk()
     {
-        MetaType::unregisterConverter<From, To>();
+        unregister<From, To>();
     }
 
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
diff --git a/src/metatype.cpp b/src/metatype.cpp
index cd353ef..ef478df 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -370,6 +370,13 @@ namespace {
             std::unique_lock lock{m_lock};
             m_items.erase(key);
         }
+
+        void remove(key_t const &key, F const *func)
+        {
+            std::unique_lock lock{m_lock};
+            if (auto search = m_items.find(key); search != std::end(m_items) && search->second == func)
+                m_items.erase(key);
+        }
     private:
         struct hash_key
         {
@@ -462,6 +469,17 @@ void MetaType::unregisterConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId)
             list->remove({fromType.m_typeInfo->decay, toType.m_typeInfo->decay});
 }
 
+void MetaType::unregisterConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId,
+                                   internal::ConvertFunctionBase const &converter)
+{
+    auto fromType = MetaType{fromTypeId};
+    auto toType   = MetaType{toTypeId};
+
+    if (fromType.valid() && toType.valid())
+        if (auto list = customConverters())
+            list->remove({fromType.m_typeInfo->decay, toType.m_typeInfo->decay}, &converter);
+}
+
 static char const *flag_names[] = {"None",
 
                                    "Const",
-- 
2.43.0

