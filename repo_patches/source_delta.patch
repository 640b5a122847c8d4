From 9c2f9e95f262aa569e8c79fd9be6881aa1d4d0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:25 +0000
Subject: [PATCH 01/20] fix: simple_resource computes buffer alignment in
 size_t (int shift overflowed for buffers aligned to 2GiB or more)

---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 995d026..dda21b8 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -295,7 +295,7 @@ class simple_resource : public memory_resource
         if (data_)
         {
             const std::size_t kBufferAlignment =
-                1 << ctz(reinterpret_cast<uintptr_t>(data_));
+                std::size_t{1} << ctz(reinterpret_cast<uintptr_t>(data_));
             if (aAlignment <= max_alignment_inside_block(
                                   kBufferAlignment, block_count_ * BlockSize))
             {
-- 
2.43.0


From 67e641cca087865bd9f0c7eca9d7cfb7372dbd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:25 +0000
Subject: [PATCH 02/20] fix: max_alignment_inside_block shifts in size_t (int
 shift overflowed for results of 2GiB or more)

---
 sources/include/utils/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 45589ff..677b675 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -423,7 +423,7 @@ constexpr std::size_t max_alignment_inside_block(
     const std::size_t msb = bits_count(value) - 1;
 
     // 2. return 2^msb
-    const std::size_t max_alignment = 1 << msb;
+    const std::size_t max_alignment = std::size_t{1} << msb;
 
     return max_alignment;
     ;
-- 
2.43.0


From ee49b7d8fcca021032a1dc7505ac9a2237af1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:29 +0000
Subject: [PATCH 03/20] fix: simple_resource occupies the blocks of [p,
 p+size), not one more when size is a multiple of the block size

---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index dda21b8..0813baf 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -413,7 +413,7 @@ class simple_resource : public memory_resource
                          std::size_t aSize) noexcept
     {
         const BIndex first = pointer_to_block_index(aPtr);
-        const BIndex last = pointer_to_block_index(aPtr + aSize);
+        const BIndex last = pointer_to_block_index(aPtr + (aSize - 1));
         const BIndex after_free = at(aFreeRegion).next_index();
         const BIndex last_of_free =
             after_free ? after_free - 1 : static_cast<BIndex>(block_count_ - 1);
-- 
2.43.0


From 5a2e4811e220b15cb3274172679056c7f9d5698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:21 +0000
Subject: [PATCH 04/20] fix: simple_resource does not serve a huge request
 whose size wraps around

---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 0813baf..aa0c01a 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -309,7 +309,7 @@ class simple_resource : public memory_resource
                               block_index_to_pointer(aIndex);
                           const auto skip =
                               skip_to_align(block_pointer, aAlignment);
-                          if (skip + aSize <= block_size)
+                          if (skip <= block_size && aSize <= block_size - skip)
                           {
                               pointer = block_pointer + skip;
                               allocate_blocks(aIndex, pointer, aSize);
-- 
2.43.0


From 225068dcac9dbefcc79db6b54ff6ce381bdb9d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:45 +0000
Subject: [PATCH 05/20] fix: simple_resource asks its upstream for
 block-aligned memory, as its deallocate requires

---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index aa0c01a..acd6854 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -323,7 +323,7 @@ class simple_resource : public memory_resource
         if (!pointer && upstream_)
         {
             pointer = static_cast<std::byte *>(
-                upstream_->allocate(aSize, aAlignment));
+                upstream_->allocate(aSize, std::max(aAlignment, BlockSize)));
         }
 
         assert(is_aligned(pointer, BlockSize));
-- 
2.43.0


From 2e2f94ae6ed54ae927e758e4e93cf6ed22182955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:54 +0000
Subject: [PATCH 06/20] fix: simple_resource walks its regions by block index
 instead of an index truncated to bool

---
 sources/include/utils/memory/simple_resource.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index acd6854..483db9e 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -214,7 +214,7 @@ class simple_resource : public memory_resource
     void release() noexcept
     {
         apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
-              [this](BIndex aIndex) mutable noexcept -> bool
+              [this](BIndex aIndex) mutable noexcept -> BIndex
               { return at(deallocate_blocks(aIndex)).next_index(); });
     }
 
@@ -302,7 +302,7 @@ class simple_resource : public memory_resource
                 apply([this](BIndex aIndex) noexcept -> bool
                       { return not in_use(aIndex); },
                       [this, &pointer, aAlignment,
-                       aSize](BIndex aIndex) mutable noexcept -> bool
+                       aSize](BIndex aIndex) mutable noexcept -> BIndex
                       {
                           const auto block_size = block_size_in_bytes(aIndex);
                           std::byte *const block_pointer =
@@ -391,7 +391,7 @@ class simple_resource : public memory_resource
 
     template <typename Predicate, typename Action>
     std::enable_if_t<std::is_nothrow_invocable_r_v<bool, Predicate, BIndex> &&
-                     std::is_nothrow_invocable_r_v<bool, Action, BIndex>>
+                     std::is_nothrow_invocable_r_v<BIndex, Action, BIndex>>
     apply(Predicate &&aPredicate, Action &&aAction) noexcept
     {
         BIndex i = 0;
-- 
2.43.0


From d9b4e08cee2d1bc868afe76c9891cb4dd4385285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:15 +0000
Subject: [PATCH 07/20] fix: releasing a simple_resource without blocks does
 nothing instead of failing an assertion

---
 sources/include/utils/memory/simple_resource.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 483db9e..4873f35 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -213,6 +213,10 @@ class simple_resource : public memory_resource
 
     void release() noexcept
     {
+        if (!block_count_)
+        {
+            return;
+        }
         apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
               [this](BIndex aIndex) mutable noexcept -> BIndex
               { return at(deallocate_blocks(aIndex)).next_index(); });
-- 
2.43.0


From 7f1507e6aa0f1cb38a86306017885a9a80af2844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:30 +0000
Subject: [PATCH 08/20] fix: a simple_resource without blocks reports no free
 region

---
 sources/include/utils/memory/simple_resource.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 4873f35..33d5d78 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -281,6 +281,7 @@ class simple_resource : public memory_resource
         , block_count_(
               std::min(std::get<1>(aOriginAndBlockCount), MaxBlockCount))
         , upstream_(aUpstream)
+        , free_count_(block_count_ ? 1 : 0)
     {
     }
 
@@ -555,7 +556,7 @@ class simple_resource : public memory_resource
     memory_resource *upstream_{memory::get_default_resource()};
     block_info infos_[MaxBlockCount]{};
     std::bitset<MaxBlockCount> in_use_{};
-    std::size_t free_count_{1};
+    std::size_t free_count_{};
     std::size_t busy_count_{};
 };
 }  // namespace memory
-- 
2.43.0


From 8bc2b60afcc166fadc7f2e314a151c8984e80960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 09/20] fix: monotonic_buffer_resource does not serve a request
 whose size or alignment wraps around

---
 sources/include/utils/memory/monotonic_buffer_resource.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/memory/monotonic_buffer_resource.h b/sources/include/utils/memory/monotonic_buffer_resource.h
index 33f5368..17f5007 100644
--- a/sources/include/utils/memory/monotonic_buffer_resource.h
+++ b/sources/include/utils/memory/monotonic_buffer_resource.h
@@ -72,10 +72,10 @@ class monotonic_buffer_resource : public memory_resource
         if (data_)
         {
             const auto skip = skip_to_align(next_, aAlignment);
-            std::byte *supposed_result = next_ + skip;
-            if (std::less_equal<std::byte *>{}(supposed_result + aSize,
-                                               data_ + size_))
+            const auto left = static_cast<std::size_t>(data_ + size_ - next_);
+            if (skip <= left && aSize <= left - skip)
             {
+                std::byte *supposed_result = next_ + skip;
                 next_ = supposed_result + aSize;
                 pointer = supposed_result;
             }
-- 
2.43.0


From 090aa45e4c43a394e79e89c00d38a56e0a47b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:44 +0000
Subject: [PATCH 10/20] fix: the resource singletons and default resource
 accessors are shared by all translation units

---
 sources/include/utils/memory/memory.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 8daca9f..80fef1f 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -218,8 +218,8 @@ class memory_resource
     deallocate_t deallocate_{};
 };
 
-static memory_resource *system_memory_resource() noexcept;
-static memory_resource *null_memory_resource() noexcept;
+inline memory_resource *system_memory_resource() noexcept;
+inline memory_resource *null_memory_resource() noexcept;
 
 namespace details
 {
@@ -286,25 +286,25 @@ class null_memory_resource : public memory_resource
 };
 }  // namespace details
 
-[[maybe_unused]] static memory_resource *system_memory_resource() noexcept
+inline memory_resource *system_memory_resource() noexcept
 {
     static details::system_memory_resource r;
     return &r;
 }
 
-[[maybe_unused]] static memory_resource *null_memory_resource() noexcept
+inline memory_resource *null_memory_resource() noexcept
 {
     static details::null_memory_resource r;
     return &r;
 }
 
-[[maybe_unused]] static memory_resource *set_default_resource(
+inline memory_resource *set_default_resource(
     memory_resource *aResource) noexcept
 {
     return details::default_resource.exchange(aResource);
 }
 
-[[maybe_unused]] static memory_resource *get_default_resource() noexcept
+inline memory_resource *get_default_resource() noexcept
 {
     return details::default_resource.load();
 }
-- 
2.43.0


From 7f96fddf6ac85584a898b02342bd7e837cae0260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:50 +0000
Subject: [PATCH 11/20] fix: allocators of different value types can be
 converted and compared (they accessed each other's private member)

---
 sources/include/utils/memory/allocator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index c783925..cb7ea56 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -20,7 +20,7 @@ class allocator
     allocator& operator=(const allocator&) = delete;
 
     template <typename U>
-    allocator(const allocator<U>& aOther) noexcept : resource_(aOther.resource_)
+    allocator(const allocator<U>& aOther) noexcept : resource_(aOther.resource())
     {
     }
 
@@ -104,7 +104,7 @@ class allocator
 template <class T1, class T2>
 bool operator==(const allocator<T1>& aLhs, const allocator<T2>& aRhs) noexcept
 {
-    return *aLhs.resource_ == *aRhs.resource_;
+    return *aLhs.resource() == *aRhs.resource();
 }
 
 template <class T1, class T2>
-- 
2.43.0


From 97d072e279cf5eb7d8739cfd2bdf7610f9159b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:50 +0000
Subject: [PATCH 12/20] fix: allocator constructs objects from its arguments as
 given instead of casting them to its value type or to lvalues

---
 sources/include/utils/memory/allocator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index cb7ea56..1349292 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -37,7 +37,7 @@ class allocator
     template <typename U, typename... Args>
     void construct(U* aPtr, Args&&... aArgs) noexcept
     {
-        new (aPtr) U(std::forward<T>(aArgs)...);
+        new (aPtr) U(std::forward<Args>(aArgs)...);
     }
 
     [[nodiscard]] void* allocate_bytes(
@@ -68,7 +68,7 @@ class allocator
         U* ptr = this->allocate_object<U>();
         if (ptr)
         {
-            this->construct(ptr, aArgs...);
+            this->construct(ptr, std::forward<CtorArgs>(aArgs)...);
         }
         return ptr;
     }
-- 
2.43.0


From 0ffc1a7e9aac8c022e935a330b485aa7674295cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:50 +0000
Subject: [PATCH 13/20] fix: allocator refuses a count of objects whose size in
 bytes wraps around

---
 sources/include/utils/memory/allocator.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 1349292..3617cf1 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -1,6 +1,7 @@
 #ifndef utils_allocator_h
 #define utils_allocator_h
 
+#include <limits>
 #include <type_traits>
 
 #include "memory.h"
@@ -28,6 +29,10 @@ class allocator
 
     [[nodiscard]] T* allocate(std::size_t aCount) noexcept
     {
+        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(T))
+        {
+            return nullptr;
+        }
         return static_cast<T*>(
             resource_->allocate(aCount * sizeof(T), alignof(T)));
     }
@@ -52,6 +57,10 @@ class allocator
     template <typename U>
     [[nodiscard]] U* allocate_object(std::size_t aCount = 1) noexcept
     {
+        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(U))
+        {
+            return nullptr;
+        }
         return static_cast<U*>(allocate_bytes(aCount * sizeof(U), alignof(U)));
     }
 
-- 
2.43.0


From beffcf7aa0027f0f13067299ae7808668477c038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:50 +0000
Subject: [PATCH 14/20] fix: secure_zero_memory is not optimised away when the
 memory is not read again

---
 sources/include/utils/memory/memory.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 80fef1f..c115f0a 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -66,7 +66,12 @@ inline constexpr void secure_zero_memory(std::byte *aPtr,
 #ifdef __STDC_LIB_EXT1__
         sysops::memory::ops::memset_s(aPtr, aSize, '\0', aSize);
 #else
-        handmade_zero_mem(aPtr, aSize);
+        // volatile: the stores must stay even if the memory is not read again
+        volatile std::byte *const buf = aPtr;
+        for (std::size_t i = 0; i < aSize; ++i)
+        {
+            *(buf + i) = std::byte{};
+        }
 #endif
 #endif
     }
-- 
2.43.0


From 5084f75be3abcf0b0b79aae8be81715d237dfd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:50 +0000
Subject: [PATCH 15/20] fix: memmove in constant expressions copies backwards
 when the destination overlaps the end of the source

---
 sources/include/utils/memory/memory.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index c115f0a..6637d6f 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -103,6 +103,19 @@ constexpr std::byte *memmove(std::byte *aDst, const std::byte *aSrc,
         {
             return aDst;
         }
+        // aDst < aSrc can't be evaluated in a constant expression if they are
+        // not in the same array
+        for (std::size_t i = 1; i < aCount; ++i)
+        {
+            if (aSrc + i == aDst)
+            {
+                for (std::size_t j = aCount; j > 0; --j)
+                {
+                    *(aDst + (j - 1)) = *(aSrc + (j - 1));
+                }
+                return aDst;
+            }
+        }
         for (std::size_t i = 0; i < aCount; ++i)
         {
             *(aDst + i) = *(aSrc + i);
-- 
2.43.0


From 2b505734f3712b405fbd3d2dad8ae76459bc8042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:51 +0000
Subject: [PATCH 16/20] fix: div divides the operands in their common type, as
 its constant evaluation does

---
 sources/include/utils/common.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 677b675..ca21dec 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -602,14 +602,20 @@ constexpr decltype(auto) div(T aNumerator, U aDenominator) noexcept
     {
         using types_with_builtin_impl = type_list<int, long, long long>;
         using common_t = std::common_type_t<type, int, long, long long>;
-        using work_t =
-            std::conditional_t<types_with_builtin_impl::contains_v<common_t>,
-                               common_t, long long>;
-
-        const auto result = std::div(static_cast<work_t>(aNumerator),
-                                     static_cast<work_t>(aDenominator));
-        return div_t<type>{static_cast<type>(result.quot),
-                           static_cast<type>(result.rem)};
+        const auto numerator = static_cast<type>(aNumerator);
+        const auto denominator = static_cast<type>(aDenominator);
+        if constexpr (types_with_builtin_impl::contains_v<common_t>)
+        {
+            const auto result = std::div(static_cast<common_t>(numerator),
+                                         static_cast<common_t>(denominator));
+            return div_t<type>{static_cast<type>(result.quot),
+                               static_cast<type>(result.rem)};
+        }
+        else
+        {
+            return div_t<type>{numerator / denominator,
+                               numerator % denominator};
+        }
     }
 }
 
-- 
2.43.0


From 150e8f5ddafc35f1b2025e79e479a280f9d0f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:11 +0000
Subject: [PATCH 17/20] fix: make_array of a repeated value copies the value
 into every element instead of moving it away

---
 sources/include/utils/common.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index ca21dec..21c1e2b 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -178,7 +178,14 @@ template <typename T, std::size_t... I>
 constexpr std::array<T, sizeof...(I)> make_array_with_value_impl(
     [[maybe_unused]] T aValue, std::index_sequence<I...>) noexcept
 {
-    return {make_element_for_index<T, I>(std::move(aValue))...};
+    if constexpr (std::is_copy_constructible_v<T>)
+    {
+        return {make_element_for_index<const T&, I>(aValue)...};
+    }
+    else
+    {
+        return {make_element_for_index<T, I>(std::move(aValue))...};
+    }
 }
 
 template <std::size_t... I>
-- 
2.43.0


From e9003ff916646723d07a8d82c5bc7fb7efb989fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:58 +0000
Subject: [PATCH 18/20] fix: make_array_from_range ends at End even if one more
 step would wrap around

---
 sources/include/utils/common.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 21c1e2b..3aae8d8 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -297,8 +297,9 @@ constexpr auto make_array_from_range() noexcept
 
     auto step_count = [](auto aBegin, auto aEnd, auto aStep) constexpr
     {
-        std::size_t count{};
-        while (aBegin <= aEnd)
+        std::size_t count{1};
+        while (static_cast<std::size_t>(aEnd - aBegin) >=
+               static_cast<std::size_t>(aStep))
         {
             ++count;
             aBegin += aStep;
@@ -313,7 +314,10 @@ constexpr auto make_array_from_range() noexcept
     for (auto& v: result)
     {
         v = CommonT{currentValue};
-        currentValue = currentValue + Step;
+        if (&v != &result.back())
+        {
+            currentValue = currentValue + Step;
+        }
     }
     return result;
 }
-- 
2.43.0


From 4f703618a279a3f234be909df24b67b9138ad177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:41 +0000
Subject: [PATCH 19/20] fix: timer destroys its finish callback after the call

---
 sources/include/utils/timer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 002ea87..b0e427b 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -38,7 +38,9 @@ struct timer_impl
     static void call_finish_callback(std::byte *aData,
                                      const Timer &aTimer) noexcept
     {
-        callback<FinishCallback>(aData)(aTimer);
+        auto &finishCallback = callback<FinishCallback>(aData);
+        finishCallback(aTimer);
+        finishCallback.~FinishCallback();
     }
 
     template <typename T>
-- 
2.43.0


From 84d3d3c6c824e5337fe6b65a5dc917d860edef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:08 +0000
Subject: [PATCH 20/20] fix: simple_resource compares offsets, not an address
 that can wrap around, with its maximum size

---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 33d5d78..107cfc6 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -454,7 +454,7 @@ class simple_resource : public memory_resource
         const uintptr_t ptr = reinterpret_cast<uintptr_t>(aPtr);
 
         assert(ptr >= begin);
-        assert(ptr < reinterpret_cast<uintptr_t>(data_ + kMaxResourceSize));
+        assert(ptr - begin < kMaxResourceSize);
 
         return static_cast<BIndex>((ptr - begin) / BlockSize);
     }
-- 
2.43.0

