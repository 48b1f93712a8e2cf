From e5eb6707f11048c45964e0a41416942ea42bc81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 01/37] fix: ring::at throws for index equal to size

---
 Awl/Ring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index fdc7391..c70d2e4 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -392,7 +392,7 @@ namespace awl
 
         void check_index(std::size_t index) const
         {
-            if (index > size())
+            if (index >= size())
             {
                 throw std::out_of_range("ring index is out of range");
             }
-- 
2.43.0


From 010ffc68a64264e3f953d0d36db3c844715512c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 02/37] fix: a default-constructed or moved-from ring is empty
 with zero capacity

---
 Awl/Ring.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index c70d2e4..72e83ca 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -176,8 +176,7 @@ namespace awl
         using reverse_iterator = std::reverse_iterator<iterator>;
         using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-        ring(Allocator alloc = {}) : m_alloc(alloc),
-            m_buf(nullptr)
+        ring(Allocator alloc = {}) : m_alloc(alloc)
         {
         }
 
@@ -548,6 +547,10 @@ namespace awl
         void release()
         {
             m_buf = nullptr;
+            m_capacity = 0;
+
+            m_data = nullptr;
+            m_size = 0;
         }
 
         void attach(const ring & other)
@@ -575,11 +578,11 @@ namespace awl
 
         Allocator m_alloc;
 
-        T * m_buf;
-        std::size_t m_capacity;
+        T * m_buf = nullptr;
+        std::size_t m_capacity = 0;
 
-        T * m_data;
-        std::size_t m_size;
+        T * m_data = nullptr;
+        std::size_t m_size = 0;
 
         template <class E>
         friend class ring_iterator;
-- 
2.43.0


From 372d96e68ce10d190112ec74b7a58e5f6be33ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 03/37] fix: ring copies the pushed value before it overwrites
 an element

---
 Awl/Ring.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index 72e83ca..f62ea48 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -289,22 +289,28 @@ namespace awl
 
         void push_front(const value_type & val)
         {
-            new (allocate_prev()) T(val);
+            //Making the copy can throw, and val can be the element that is going to be overwritten.
+            push_front(T(val));
         }
 
         void push_front(value_type && val)
         {
-            new (allocate_prev()) T(std::move(val));
+            T new_val(std::move(val));
+
+            new (allocate_prev()) T(std::move(new_val));
         }
 
         void push_back(const value_type & val)
         {
-            new (allocate_next()) T(val);
+            //Making the copy can throw, and val can be the element that is going to be overwritten.
+            push_back(T(val));
         }
 
         void push_back(value_type && val)
         {
-            new (allocate_next()) T(std::move(val));
+            T new_val(std::move(val));
+
+            new (allocate_next()) T(std::move(new_val));
         }
 
         void pop_front()
-- 
2.43.0


From 9f14b74a288f32b544dc4e22560f41480da5e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 04/37] fix: vector_set self-assignment keeps the elements

---
 Awl/VectorSet.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index dcaaa47..957ad3f 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -277,10 +277,13 @@ namespace awl
 
         vector_set & operator = (const vector_set & other)
         {
-            clear();
-            //Should we copy the allocator?
-            m_comp = other.m_comp;
-            CopyElements(other);
+            if (this != &other)
+            {
+                clear();
+                //Should we copy the allocator?
+                m_comp = other.m_comp;
+                CopyElements(other);
+            }
             return *this;
         }
 
-- 
2.43.0


From 5690360a070127225d67188f779b1d8dabe3e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 05/37] fix: vector_set does not leak when an element
 constructor throws

---
 Awl/VectorSet.h | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index 957ad3f..f6f0ae4 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -168,23 +168,35 @@ namespace awl
 
         Node * CreateNode(const T & val)
         {
-            Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(val);
-            return node;
+            return ConstructNode(val);
         }
 
         Node * CreateNode(T && val)
         {
-            Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(std::move(val));
-            return node;
+            return ConstructNode(std::move(val));
         }
 
         template <class... Args>
         Node * CreateNode(Args&&... args)
+        {
+            return ConstructNode(std::forward<Args>(args) ...);
+        }
+
+        template <class... Args>
+        Node * ConstructNode(Args&&... args)
         {
             Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(std::forward<Args>(args) ...);
+
+            try
+            {
+                new (node) Node(std::forward<Args>(args) ...);
+            }
+            catch (...)
+            {
+                m_nodeAlloc.deallocate(node, 1);
+                throw;
+            }
+
             return node;
         }
 
@@ -228,7 +240,7 @@ namespace awl
         {
         }
 
-        vector_set(const vector_set & other) : m_comp(other.m_comp), m_alloc(other.m_alloc), m_nodeAlloc(other.m_nodeAlloc)
+        vector_set(const vector_set & other) : vector_set(other.m_comp, other.m_alloc)
         {
             CopyElements(other);
         }
@@ -239,7 +251,7 @@ namespace awl
             other.m_root = nullptr;
         }
 
-        vector_set(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator()) : m_comp(comp), m_alloc(alloc)
+        vector_set(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator()) : vector_set(comp, alloc)
         {
             //It is not clear how to move the elemetns from std::initializer_list,
             //see https://stackoverflow.com/questions/8193102/initializer-list-and-move-semantics
@@ -357,8 +369,8 @@ namespace awl
         std::pair<iterator, bool> emplace(Args&&... args)
         {
             Node * parent;
-            //TODO: It is probably a bug. We probably need a deleter here.
-            std::unique_ptr<Node> val_node(CreateNode(std::forward<Args>(args) ...));
+            auto deleter = [this](Node * p) { DestroyNode(p); };
+            std::unique_ptr<Node, decltype(deleter)> val_node(CreateNode(std::forward<Args>(args) ...), deleter);
             Node * node = FindNodeByKey(val_node->value, &parent);
             const bool exists = node != nullptr;
 
-- 
2.43.0


From 514ba3d9affb06ea82f6b9eb2353927610545549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 06/37] fix: a moved scope_guard takes over the engaged state

---
 Awl/ScopeGuard.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/ScopeGuard.h b/Awl/ScopeGuard.h
index 58c460f..bf0baf3 100644
--- a/Awl/ScopeGuard.h
+++ b/Awl/ScopeGuard.h
@@ -23,7 +23,7 @@ namespace awl
 
         scope_guard & operator = (const scope_guard &) = delete;
 
-        scope_guard(scope_guard && other) : free(std::move(other.free))
+        scope_guard(scope_guard && other) : free(std::move(other.free)), engaged(other.engaged)
         {
             other.engaged = false;
         }
@@ -31,6 +31,7 @@ namespace awl
         scope_guard & operator = (scope_guard && other)
         {
             free = std::move(other.free);
+            engaged = other.engaged;
             other.engaged = false;
             return *this;
         }
-- 
2.43.0


From 0a1a77ef757e1efb0526a7ab31dea9afcb235d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 07/37] fix: unique_ptr self-move assignment keeps the object

---
 Awl/UniquePtr.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Awl/UniquePtr.h b/Awl/UniquePtr.h
index 03bda6d..2bdab87 100644
--- a/Awl/UniquePtr.h
+++ b/Awl/UniquePtr.h
@@ -65,9 +65,7 @@ namespace awl
 
         constexpr unique_ptr& operator=(unique_ptr&& other) noexcept
         {
-            reset(other.m_p);
-
-            other.m_p = nullptr;
+            reset(other.release());
 
             return *this;
         }
-- 
2.43.0


From 431a246c9c185b2f366709bb6994730461edf977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 08/37] fix: bitmap initializer list works with more than 64
 values

---
 Awl/BitMap.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/Awl/BitMap.h b/Awl/BitMap.h
index 9016d2d..1d04957 100644
--- a/Awl/BitMap.h
+++ b/Awl/BitMap.h
@@ -10,6 +10,7 @@
 #include <type_traits>
 #include <bitset>
 #include <initializer_list>
+#include <limits>
 
 namespace awl
 {
@@ -32,10 +33,17 @@ namespace awl
 
         constexpr bitmap(std::initializer_list<Enum> values) : m_bits(MakeLong(values))
         {
-            //for (Enum v : values)
-            //{
-            //    m_bits |= Enum2Bits(v);
-            //}
+            //The values that do not fit into unsigned long long.
+            if constexpr (N > long_size)
+            {
+                for (Enum v : values)
+                {
+                    if (Enum2Index(v) >= long_size)
+                    {
+                        m_bits |= Enum2Bits(v);
+                    }
+                }
+            }
         }
 
         constexpr bitmap operator|(Enum value) const
@@ -175,6 +183,8 @@ namespace awl
 
     private:
 
+        static constexpr std::size_t long_size = std::numeric_limits<unsigned long long>::digits;
+
         static constexpr size_type Enum2Index(Enum value)
         {
             return static_cast<size_type>(value);
@@ -193,7 +203,10 @@ namespace awl
 
             for (Enum v : values)
             {
-                val |= (1ull << Enum2Index(v));
+                if (Enum2Index(v) < long_size)
+                {
+                    val |= (1ull << Enum2Index(v));
+                }
             }
 
             return val;
-- 
2.43.0


From 06e122668bee9c878add8d3515ce0e82f9a3ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 09/37] fix: member names are split by commas without a space
 as well

---
 Awl/Reflection.h | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/Awl/Reflection.h b/Awl/Reflection.h
index 7d00783..690ab3d 100644
--- a/Awl/Reflection.h
+++ b/Awl/Reflection.h
@@ -83,31 +83,25 @@ namespace awl
             static void traverse(const char * va, Accept accept)
             {
                 const char * p_start = va;
-                bool eaten_separator = false;
 
                 const char * p = va;
                 while (*p != 0)
                 {
-                    if (*p == ',' && *(p + 1) == ' ')
+                    if (*p == ',')
                     {
-                        assert(p_start != nullptr);
                         assert(p > p_start);
                         accept(p_start, p - p_start);
-                        p_start = nullptr;
-                        eaten_separator = true;
-                        ++p;
+
+                        //The space after the comma is optional.
+                        p_start = *(p + 1) == ' ' ? p + 2 : p + 1;
+                        p = p_start;
                     }
-                    else if (eaten_separator)
+                    else
                     {
-                        p_start = p;
-                        eaten_separator = false;
+                        ++p;
                     }
-
-                    ++p;
                 }
 
-                assert(p_start != nullptr);
-
                 //the list can be empty
                 if (p != p_start)
                 {
-- 
2.43.0


From 1f6fe5ef1b3df2929e03c708da83628eab36a8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 10/37] fix: migrating an empty observable_set does not notify
 about clearing

---
 Awl/ObservableSet.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Awl/ObservableSet.h b/Awl/ObservableSet.h
index 830b003..b255de8 100644
--- a/Awl/ObservableSet.h
+++ b/Awl/ObservableSet.h
@@ -94,7 +94,11 @@ namespace awl
         {
             clear();
 
-            other.NotifyClearing();
+            if (!other.m_set.empty())
+            {
+                other.NotifyClearing();
+            }
+
             m_set = std::move(other.m_set);
             other.m_set.clear();
 
-- 
2.43.0


From f6964cc465027fdceb31e9dab6fef40c2415b70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 11/37] fix: observable_set::emplace constructs the element
 from its arguments

---
 Awl/ObservableSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/ObservableSet.h b/Awl/ObservableSet.h
index b255de8..da593f5 100644
--- a/Awl/ObservableSet.h
+++ b/Awl/ObservableSet.h
@@ -161,7 +161,7 @@ namespace awl
         template <class... Args>
         std::pair<iterator, bool> emplace(Args&&... args)
         {
-            const std::pair<iterator, bool> result = m_set.insert(std::forward<Args>(args) ...);
+            const std::pair<iterator, bool> result = m_set.emplace(std::forward<Args>(args) ...);
             NotifyAdded(result);
             return result;
         }
-- 
2.43.0


From 623a69734467e446e77d116055004bf30702f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 12/37] fix: UpdateQueue::ClearPending releases the cleared
 updates

---
 Awl/UpdateQueue.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Awl/UpdateQueue.h b/Awl/UpdateQueue.h
index cb1b6bb..00148be 100644
--- a/Awl/UpdateQueue.h
+++ b/Awl/UpdateQueue.h
@@ -57,7 +57,7 @@ namespace awl
 
             //put them directly to freeBlocks, but not to renderingMessages
             //note that using pendingMessages.clear() here will result in memory leak
-            freeBlocks.push_back(pendingMessages);
+            Recycle(pendingMessages);
         }
 
         //called by UI thread to propagate changes to render thread
@@ -132,14 +132,19 @@ namespace awl
         {
             std::lock_guard<std::recursive_mutex> lock(queueMutex);
 
-            for (Message * p_message : renderingMessages)
+            //recycle renderingMessages (also very short operation)
+            Recycle(renderingMessages);
+        }
+
+        void Recycle(MessageQueue & messages)
+        {
+            for (Message * p_message : messages)
             {
                 //release lambda expression
                 p_message->Func = std::function<void(Args ...)>();
             }
 
-            //recycle renderingMessages (also very short operation)
-            freeBlocks.push_back(renderingMessages);
+            freeBlocks.push_back(messages);
         }
 
         //an update can queue another updates by calling Push() while it is processed, so the mutex is recursive
-- 
2.43.0


From b5c8415f8a18cfb0a90146ec3b0e3ea37a9d65cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:55 +0000
Subject: [PATCH 13/37] fix: no extra fill characters before a 128-bit integer
 longer than the width

---
 Awl/String.h | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/Awl/String.h b/Awl/String.h
index 7fd7ed5..3c45317 100644
--- a/Awl/String.h
+++ b/Awl/String.h
@@ -410,17 +410,6 @@ namespace awl
             }
         }
 
-        // There is always at least one digit.
-        if (out.width() > 1 && len > out.width())
-        {
-            const std::streamsize diff = len - out.width();
-            
-            for (std::streamsize i = 0; i < diff; ++i)
-            {
-                out << out.fill();
-            }
-        }
-
         constexpr const C zero_symbol = static_cast<C>('0');
 
         std::size_t length = static_cast<std::size_t>(len);
-- 
2.43.0


From b1d556179826a4b08464ab88122494815922b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 14/37] fix: reading an empty optional or pointer resets the
 destination

---
 Awl/Io/Rw/OptionalReadWrite.h | 4 ++++
 Awl/Io/Rw/PointerReadWrite.h  | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/Awl/Io/Rw/OptionalReadWrite.h b/Awl/Io/Rw/OptionalReadWrite.h
index e97631d..9d37424 100644
--- a/Awl/Io/Rw/OptionalReadWrite.h
+++ b/Awl/Io/Rw/OptionalReadWrite.h
@@ -28,6 +28,10 @@ namespace awl::io
 
             opt_val = std::move(val);
         }
+        else
+        {
+            opt_val.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
diff --git a/Awl/Io/Rw/PointerReadWrite.h b/Awl/Io/Rw/PointerReadWrite.h
index a703bf4..16703ac 100644
--- a/Awl/Io/Rw/PointerReadWrite.h
+++ b/Awl/Io/Rw/PointerReadWrite.h
@@ -28,6 +28,10 @@ namespace awl::io
 
             p = std::make_shared<T>(val);
         }
+        else
+        {
+            p.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
@@ -60,6 +64,10 @@ namespace awl::io
 
             p = std::make_unique<T>(val);
         }
+        else
+        {
+            p.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
-- 
2.43.0


From 8206593fb24a48d5dd0bf274b5b6334e342ba876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 15/37] fix: reading a collection replaces the previous
 elements of the destination

---
 Awl/Io/Rw/CollectionReadWrite.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Awl/Io/Rw/CollectionReadWrite.h b/Awl/Io/Rw/CollectionReadWrite.h
index fef6fac..9c3be43 100644
--- a/Awl/Io/Rw/CollectionReadWrite.h
+++ b/Awl/Io/Rw/CollectionReadWrite.h
@@ -35,6 +35,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::value_type elem;
@@ -53,6 +55,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::value_type elem;
@@ -72,6 +76,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::key_type key;
-- 
2.43.0


From d79b843955f8295b3b93bacc675a2ae3b97d4254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 16/37] fix: reading a variant with a wrong alternative index
 throws CorruptionException

---
 Awl/Io/Rw/VariantReadWrite.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/Rw/VariantReadWrite.h b/Awl/Io/Rw/VariantReadWrite.h
index e476a30..e61cad3 100644
--- a/Awl/Io/Rw/VariantReadWrite.h
+++ b/Awl/Io/Rw/VariantReadWrite.h
@@ -55,7 +55,10 @@ namespace awl::io
                 std::size_t index;
                 Read(in, index, ctx);
 
-                assert(index < std::variant_size_v<V>);
+                if (index >= std::variant_size_v<V>)
+                {
+                    throw CorruptionException();
+                }
 
                 vra[index]->ReadAlternative(in, v, ctx);
             }
-- 
2.43.0


From 4cdbe3f833983720d48faa9bdea57e8160fa9dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 17/37] fix: reading a wrong enum index does not change the
 destination

---
 Awl/Io/Rw/EnumReadWrite.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Awl/Io/Rw/EnumReadWrite.h b/Awl/Io/Rw/EnumReadWrite.h
index b0f4cc4..5e57b65 100644
--- a/Awl/Io/Rw/EnumReadWrite.h
+++ b/Awl/Io/Rw/EnumReadWrite.h
@@ -66,9 +66,14 @@ namespace awl::io
         requires (sequential_input_stream<Stream> && is_sequential_enum<T>)
     void Read(Stream& s, T& val, const Context& ctx = {})
     {
-        ReadEnum(s, val, ctx);
+        //val should not be changed if a wrong index is read.
+        T new_val;
 
-        ValidateEnum(val);
+        ReadEnum(s, new_val, ctx);
+
+        ValidateEnum(new_val);
+
+        val = new_val;
     }
 
     template <class Stream, typename T, class Context = FakeContext>
-- 
2.43.0


From aad11c8d08076271ecfde02ec0aec6cbd16fd1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 18/37] fix: a failed write of the last block of a hashing
 stream is reported instead of terminating

---
 Awl/Io/HashStream.h          | 29 +++++++++++++++++++++++------
 Awl/Io/HashingSerializable.h |  4 ++++
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 26f98b4..08ba237 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -171,29 +171,46 @@ namespace awl
             {
             }
 
+            //Call Flush() explicitly to get to know that the last block could not be written.
             ~HashOutputStream()
             {
-                Flush();
+                try
+                {
+                    Flush();
+                }
+                catch (...)
+                {
+                }
             }
 
             void Write(const uint8_t * buffer, size_t count) override;
 
-        private:
-
             void Flush()
             {
                 if (!m_v.empty())
                 {
-                    auto val = m_hash(m_v.begin(), m_v.end());
+                    try
+                    {
+                        auto val = m_hash(m_v.begin(), m_v.end());
 
-                    m_v.insert(m_v.end(), val.begin(), val.end());
+                        m_v.insert(m_v.end(), val.begin(), val.end());
 
-                    m_out.Write(m_v.data(), m_v.size());
+                        m_out.Write(m_v.data(), m_v.size());
+                    }
+                    catch (...)
+                    {
+                        //A failed block should not be written again by the destructor.
+                        m_v.clear();
+
+                        throw;
+                    }
 
                     m_v.clear();
                 }
             }
 
+        private:
+
             Hash m_hash;
 
             UnderlyingStream& m_out;
diff --git a/Awl/Io/HashingSerializable.h b/Awl/Io/HashingSerializable.h
index ba2d78d..7f39872 100644
--- a/Awl/Io/HashingSerializable.h
+++ b/Awl/Io/HashingSerializable.h
@@ -52,6 +52,8 @@ namespace awl::io
             WriteHeader(out);
 
             m_val.Write(out);
+
+            out.Flush();
         }
 
     protected:
@@ -64,6 +66,8 @@ namespace awl::io
 
             // Write vector without leading 8 bytes containing its size.
             hashing_out.Write(v.data(), v.size());
+
+            hashing_out.Flush();
         }
 
         virtual bool ReadHeader(HashIStream&) { return true; }
-- 
2.43.0


From a28faaa0293ce792c62bbc5e92c3cc8f2f5dd18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 19/37] fix: a hashing input stream does not return unverified
 data after CorruptionException

---
 Awl/Io/HashStream.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 08ba237..24f5aa5 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -50,6 +50,23 @@ namespace awl
             }
             
             void PeekBuf()
+            {
+                try
+                {
+                    PeekBlock();
+                }
+                catch (...)
+                {
+                    //Unverified data should not become available.
+                    m_block.clear();
+
+                    m_i = m_block.end();
+
+                    throw;
+                }
+            }
+
+            void PeekBlock()
             {
                 if (m_i == m_block.end())
                 {
-- 
2.43.0


From 64bf46bed451606f82600866ba201f8f9c549576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 20/37] fix: the old value of a non-movable object is restored
 after any exception

---
 Awl/Io/VersionTolerantSerializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Io/VersionTolerantSerializable.h b/Awl/Io/VersionTolerantSerializable.h
index 26568c4..f8b5aaf 100644
--- a/Awl/Io/VersionTolerantSerializable.h
+++ b/Awl/Io/VersionTolerantSerializable.h
@@ -62,7 +62,7 @@ namespace awl::io
                     {
                         Read(in, m_val);
                     }
-                    catch (const IoException&)
+                    catch (...)
                     {
                         // Restore old value.
                         ReadSnapshot(v);
-- 
2.43.0


From 77e1afd7f32e81a186d2ca6f161abb8b8fe6acc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 21/37] fix: a wrong structure index throws CorruptionException

---
 Awl/Io/Reader.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 17b7079..3cbde0e 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -338,7 +338,12 @@ namespace awl::io
         typename Base::StructIndexType ReadStructIndex(InputStream & s) const
         {
             typename Base::StructIndexType index = Base::ReadStructIndex(s);
-            assert(index < oldPrototypes.size());
+
+            if (index >= oldPrototypes.size())
+            {
+                throw CorruptionException();
+            }
+
             return index;
         }
 
-- 
2.43.0


From 357f3d457ccb041e603ff1ecf0d090db24708736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 22/37] fix: skipping a removed field does not map the
 structures it contains

---
 Awl/Io/Reader.h | 48 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 3cbde0e..6e3de30 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -61,6 +61,52 @@ namespace awl::io
             virtual void SkipField(const Reader & context, InputStream & in) const = 0;
         };
 
+        // The type of a skipped field is found by its name, so vector<B> can be used to skip vector<A>, for example.
+        // Therefore the structures the field contains are skipped but not mapped.
+        class SkipContext
+        {
+        public:
+
+            explicit SkipContext(const Reader & reader) : m_reader(reader)
+            {
+            }
+
+            template <class Struct>
+            void ReadV(InputStream & in, Struct & val) const
+            {
+                if constexpr (is_reflectable_v<Struct>)
+                {
+                    if constexpr (std::is_default_constructible_v<Struct> && std::is_move_assignable_v<Struct>)
+                    {
+                        val = Struct{};
+                    }
+
+                    m_reader.SkipStruct(in);
+                }
+                else if constexpr (is_tuplizable_v<Struct>)
+                {
+                    for_each(object_as_tuple(val), [this, &in](auto& field_val)
+                    {
+                        this->ReadV(in, field_val);
+                    });
+                }
+                else if constexpr (std::is_enum_v<Struct>)
+                {
+                    // An enum has the same type name as its underlying type.
+                    std::underlying_type_t<Struct> index;
+                    Read(in, index, *this);
+                }
+                else
+                {
+                    Read(in, val, *this);
+                }
+            }
+
+        private:
+
+            const Reader & m_reader;
+        };
+
         template <class Field>
         class FieldSkipperImpl : public FieldSkipper
         {
@@ -70,7 +116,7 @@ namespace awl::io
             {
                 // It is the only place where Field type is required to be default constructable.
                 Field val;
-                context.ReadV(in, val);
+                SkipContext(context).ReadV(in, val);
             }
         };
 
-- 
2.43.0


From 2ec7d40be57ec6860bb714e49673cc4ff3a94914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 23/37] fix: an added field of a structure that used to be
 empty is not read from the stream

---
 Awl/Io/Reader.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 6e3de30..301c39c 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -280,8 +280,12 @@ namespace awl::io
                 const std::vector<size_t> name_map = this->template FindProtoMap<Struct>(old_struct_index);
 
                 //An empty map means either an empty structure or equal prototypes
-                //(the prototypes of empty structures are equal).
-                if (name_map.empty())
+                //(an old empty structure has nothing to read, but the new one can have fields).
+                if (name_map.empty() && oldPrototypes[old_struct_index].GetCount() != this->template FindNewPrototype<Struct>().GetCount())
+                {
+                    assert(oldPrototypes[old_struct_index].GetCount() == 0);
+                }
+                else if (name_map.empty())
                 {
                     //Read in the same way we write it.
                     ReadTuplizable(s, val);
-- 
2.43.0


From 58f73da6fc323b4a7d6abebb5c27c7b534a14fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:49 +0000
Subject: [PATCH 24/37] fix: negative zero is equal to zero

---
 Awl/Decimal.h | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 6683be7..7ba7a6c 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -180,15 +180,10 @@ namespace awl
 
         bool operator == (const decimal& other) const
         {
-            if (m_data.positive() == other.m_data.positive())
-            {
-                const decimal a = normalize();
-                const decimal b = other.normalize();
+            const decimal a = normalize();
+            const decimal b = other.normalize();
 
-                return a.m_data.exp() == b.m_data.exp() && a.m_data.man() == b.m_data.man();
-            }
-            
-            return false;
+            return a.m_data.positive() == b.m_data.positive() && a.m_data.exp() == b.m_data.exp() && a.m_data.man() == b.m_data.man();
         }
 
         bool operator != (const decimal& other) const
@@ -558,25 +553,23 @@ namespace awl
             if (m_data.man() == 0)
             {
                 m_data.set_exp(0);
+                m_data.set_positive(true);
             }
         }
 
         template <class Comp>
         static constexpr bool compare(const decimal& a, const decimal& b, Comp comp)
         {
-            if (a.negative() && b.negative())
-            {
-                return compare_positive(b, a, comp);
-            }
+            //Negative zero is equal to positive zero.
+            auto make_sign = [](const Data& data) -> uint8_t { return data.positive() || data.man() == 0 ? 0 : 1; };
 
-            if (a.positive() && b.positive())
+            if (make_sign(a.m_data) == make_sign(b.m_data))
             {
-                return compare_positive(a, b, comp);
+                return make_sign(a.m_data) != 0 ? compare_positive(b, a, comp) : compare_positive(a, b, comp);
             }
 
             //1 < 0
 
-            auto make_sign = [](const Data& data) -> uint8_t { return data.positive() ? 0 : 1; };
             
             return comp(make_sign(b.m_data), make_sign(a.m_data));
         }
-- 
2.43.0


From 135ea34ca34707f98910b6fc244eba3496cb052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:51 +0000
Subject: [PATCH 25/37] fix: a value that does not fit into the mantissa of a
 decimal throws

---
 Awl/Decimal.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 7ba7a6c..e8a1ed4 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -127,16 +127,14 @@ namespace awl
 
         constexpr void set_mantissa(Int val)
         {
-            if (val >= 0)
-            {
-                m_data.set_positive(true);
-                m_data.set_man(static_cast<UInt>(val));
-            }
-            else
-            {
-                m_data.set_positive(false);
-                m_data.set_man(static_cast<UInt>(-val));
-            }
+            const bool is_positive = val >= 0;
+
+            //The absolute value of the minimum does not fit into Int.
+            const UInt man = is_positive ? static_cast<UInt>(val) : static_cast<UInt>(static_cast<UInt>(-(val + 1)) + 1u);
+
+            set_unsigned_mantissa(man);
+
+            m_data.set_positive(is_positive);
         }
         
         constexpr UInt unsigned_mantissa() const
@@ -146,6 +144,11 @@ namespace awl
 
         constexpr void set_unsigned_mantissa(UInt val)
         {
+            if (val > max_mantissa())
+            {
+                throw std::logic_error("Decimal overflow.");
+            }
+
             m_data.set_man(val);
         }
 
-- 
2.43.0


From a4cc6b8b08623be437e3b0d005cd4a5f14008c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 26/37] fix: multiplication of decimals throws on overflow

---
 Awl/Decimal.h | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index e8a1ed4..d482525 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -838,9 +838,31 @@ namespace awl
     template <typename UInt, uint8_t exp_len, template <typename, uint8_t> class DataTemplate>
     constexpr decimal<UInt, exp_len, DataTemplate> multiply(decimal<UInt, exp_len, DataTemplate> a, decimal<UInt, exp_len, DataTemplate> b)
     {
-        decimal<UInt, exp_len, DataTemplate> c(a.exponent() + b.exponent());
+        using Decimal = decimal<UInt, exp_len, DataTemplate>;
 
-        c.set_mantissa(a.mantissa() * b.mantissa());
+        const uint8_t digits = static_cast<uint8_t>(a.exponent() + b.exponent());
+
+        if (digits > Decimal::max_exponent())
+        {
+            throw std::logic_error("Too many digits in a decimal.");
+        }
+
+        Decimal c(digits);
+
+        const UInt a_man = a.unsigned_mantissa();
+        const UInt b_man = b.unsigned_mantissa();
+
+        if (a_man != 0 && b_man > Decimal::max_mantissa() / a_man)
+        {
+            throw std::logic_error("Decimal overflow.");
+        }
+
+        c.set_unsigned_mantissa(static_cast<UInt>(a_man * b_man));
+
+        if (a.negative() != b.negative())
+        {
+            c.negate();
+        }
 
         return c;
     }
-- 
2.43.0


From 50e90726cddc9b3ef21c20b56c8c19128a317271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 27/37] fix: floor and ceil of a negative decimal

---
 Awl/Decimal.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index d482525..d0856ed 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -367,13 +367,15 @@ namespace awl
 
         constexpr decimal floor(uint8_t digits) const
         {
-            return truncate(digits);
+            awl::decimal temp = *this;
+            temp.round_self(digits, negative());
+            return temp;
         }
 
         constexpr decimal ceil(uint8_t digits) const
         {
             awl::decimal temp = *this;
-            temp.ceil_self(digits);
+            temp.round_self(digits, positive());
             return temp;
         }
 
@@ -516,7 +518,7 @@ namespace awl
             }
         }
 
-        constexpr void ceil_self(uint8_t digits)
+        constexpr void round_self(uint8_t digits, bool away_from_zero)
         {
             if (digits < m_data.exp())
             {
@@ -526,7 +528,7 @@ namespace awl
 
                 UInt new_man = m_data.man() / denom;
 
-                if (m_data.man() % denom != 0)
+                if (away_from_zero && m_data.man() % denom != 0)
                 {
                     ++new_man;
                 }
-- 
2.43.0


From 460674ae2344dfdf172b52728df8a3eddaa8035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 28/37] fix: a long or empty decimal string

---
 Awl/Decimal.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index d0856ed..054ce4a 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -631,7 +631,7 @@ namespace awl
         }
 
         template <class C>
-        static constexpr std::tuple<typename std::basic_string_view<C>::const_iterator, uint8_t, UInt>
+        static constexpr std::tuple<typename std::basic_string_view<C>::const_iterator, size_t, UInt>
             parse_int(std::basic_string_view<C> fixed_string, bool point_terminator);
 
         template <class C>
@@ -645,7 +645,7 @@ namespace awl
             throw std::logic_error("Not a valid decimal string.");
         }
 
-        static constexpr void check_exp(uint8_t digits)
+        static constexpr void check_exp(size_t digits)
         {
             if (digits > max_exponent())
             {
@@ -682,7 +682,7 @@ namespace awl
         {
             typename string_view::const_iterator i = fixed_string.begin();
 
-            if (*i == '+' || *i == '-')
+            if (i != fixed_string.end() && (*i == '+' || *i == '-'))
             {
                 positive = *i == '+';
 
@@ -723,7 +723,7 @@ namespace awl
         decimal result;
 
         result.m_data.set_man(int_part + fractional_part);
-        result.m_data.set_exp(digits);
+        result.m_data.set_exp(static_cast<uint8_t>(digits));
 
         if (!positive)
         {
@@ -761,25 +761,25 @@ namespace awl
 
     template <typename UInt, uint8_t exp_len, template <typename, uint8_t> class DataTemplate>
     template <class C>
-    constexpr std::tuple<typename std::basic_string_view<C>::const_iterator, uint8_t, UInt>
+    constexpr std::tuple<typename std::basic_string_view<C>::const_iterator, size_t, UInt>
         decimal<UInt, exp_len, DataTemplate>::parse_int(std::basic_string_view<C> fixed_string, bool point_terminator)
     {
-        uint8_t digit_count = 0;
+        size_t digit_count = 0;
 
-        uint8_t zero_count = 0;
+        size_t zero_count = 0;
 
         UInt val = 0;
 
         auto do_append = [&digit_count, &val](UInt digit)
         {
-            val = val * 10u + digit;
-
             //It does not make a sense to parse a string longer than the mantissa.
-            if (val > max_mantissa())
+            if (val > (max_mantissa() - digit) / 10u)
             {
                 throw std::logic_error("A decimal string is too long.");
             }
 
+            val = val * 10u + digit;
+
             ++digit_count;
         };
 
@@ -804,7 +804,7 @@ namespace awl
                 else
                 {
                     //flush accumulated zeros
-                    for (uint8_t i = 0; i < zero_count; ++i)
+                    for (size_t i = 0; i < zero_count; ++i)
                     {
                         do_append(0);
                     }
-- 
2.43.0


From de508d694d2110bbba0eeefc5af2b75466804624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 29/37] fix: nanoseconds of a decimal with more than nine
 digits

---
 Awl/DecimalTime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/DecimalTime.h b/Awl/DecimalTime.h
index 8c790b5..1831930 100644
--- a/Awl/DecimalTime.h
+++ b/Awl/DecimalTime.h
@@ -19,6 +19,6 @@ namespace awl
         //typename Duration::rep rep = dum_dec.mantissa() / Duration::rep::num;
         //return Duration(static_cast<typename Duration::rep>(dec.extend(9).mantissa()));
 
-        return std::chrono::nanoseconds(static_cast<std::chrono::nanoseconds::rep>(dec.extend(9).mantissa()));
+        return std::chrono::nanoseconds(static_cast<std::chrono::nanoseconds::rep>(dec.rescale(9, false).mantissa()));
     }
 }
-- 
2.43.0


From 5f158386a252325bde0a6d73d89fb6b1d202b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:26 +0000
Subject: [PATCH 30/37] fix: a save after a failed save does not overwrite the
 only complete value

---
 Awl/Io/AtomicStorage.cpp | 10 ++++++++--
 Awl/Io/AtomicStorage.h   | 22 +++++++++++++++++++---
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/Awl/Io/AtomicStorage.cpp b/Awl/Io/AtomicStorage.cpp
index 8663700..bd23e04 100644
--- a/Awl/Io/AtomicStorage.cpp
+++ b/Awl/Io/AtomicStorage.cpp
@@ -39,7 +39,10 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
 {
     if (p_mutex == nullptr)
     {
-        WriteToStream(m_backup, val);
+        if (!m_masterDirty)
+        {
+            WriteToStream(m_backup, val);
+        }
 
         WriteToStream(m_s, val);
     }
@@ -53,7 +56,10 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
 
         lock.unlock();
 
-        WriteSnapshot(m_backup, snapshotable, v);
+        if (!m_masterDirty)
+        {
+            WriteSnapshot(m_backup, snapshotable, v);
+        }
 
         WriteSnapshot(m_s, snapshotable, v);
     }
diff --git a/Awl/Io/AtomicStorage.h b/Awl/Io/AtomicStorage.h
index 7c40d48..bbb468c 100644
--- a/Awl/Io/AtomicStorage.h
+++ b/Awl/Io/AtomicStorage.h
@@ -42,6 +42,7 @@ namespace awl::io
         {
             m_s = std::move(other.m_s);
             m_backup = std::move(other.m_backup);
+            m_masterDirty = other.m_masterDirty;
             return *this;
         }
 
@@ -58,6 +59,8 @@ namespace awl::io
 
         bool Open(const awl::String& file_name, const awl::String& backup_name)
         {
+            m_masterDirty = false;
+
             try
             {
                 m_s = awl::io::CreateUniqueFile(file_name);
@@ -96,22 +99,32 @@ namespace awl::io
         }
 
         template <class Func>
-        static void WriteToStreamFunc(UniqueStream& s, Func&& func)
+        void WriteToStreamFunc(UniqueStream& s, Func&& func)
         {
+            if (&s == &m_s)
+            {
+                m_masterDirty = true;
+            }
+
             s.Seek(0);
 
             func(s);
 
             s.Truncate();
             s.Flush();
+
+            if (&s == &m_s)
+            {
+                m_masterDirty = false;
+            }
         }
 
-        static void WriteToStream(UniqueStream& s, const Value& val)
+        void WriteToStream(UniqueStream& s, const Value& val)
         {
             WriteToStreamFunc(s, [&val](UniqueStream& s) { val.Write(s); });
         }
 
-        static void WriteSnapshot(UniqueStream& s, const awl::io::Snapshotable<SequentialOutputStream>& snapshotable, const std::vector<uint8_t>& v)
+        void WriteSnapshot(UniqueStream& s, const awl::io::Snapshotable<SequentialOutputStream>& snapshotable, const std::vector<uint8_t>& v)
         {
             WriteToStreamFunc(s, [&snapshotable, &v](UniqueStream& s) { snapshotable.WriteSnapshot(s, v); });
         }
@@ -128,5 +141,8 @@ namespace awl::io
         Logger& m_logger;
         UniqueStream m_s;
         UniqueStream m_backup;
+
+        // Writing to the master file was not completed, so the backup contains the only complete value.
+        bool m_masterDirty = false;
     };
 }
-- 
2.43.0


From 3479451cb5f49a25e88451056197faae28b7e121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:59 +0000
Subject: [PATCH 31/37] fix: loading from an optional storage that could not be
 opened leaves the default values

---
 Awl/Io/OptionalStorage.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Awl/Io/OptionalStorage.h b/Awl/Io/OptionalStorage.h
index 66605a9..9813a32 100644
--- a/Awl/Io/OptionalStorage.h
+++ b/Awl/Io/OptionalStorage.h
@@ -53,6 +53,12 @@ namespace awl::io
 
         bool Load(Value& val)
         {
+            //The files could not be opened, leaving default values.
+            if (!m_storage.IsOpened())
+            {
+                return false;
+            }
+
             return m_storage.Load(val);
         }
 
-- 
2.43.0


From a2b7b420a05a63eef9db18679847e4cfefc3f8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:55 +0000
Subject: [PATCH 32/37] fix: releasing a finished update task destroys its
 frame

---
 Awl/Coro/UpdateTask.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Awl/Coro/UpdateTask.h b/Awl/Coro/UpdateTask.h
index 423a71f..41b0efe 100644
--- a/Awl/Coro/UpdateTask.h
+++ b/Awl/Coro/UpdateTask.h
@@ -146,6 +146,14 @@ namespace awl
     {
         if (m_h)
         {
+            if (m_h.done())
+            {
+                //The final suspend point has already been passed, so the coroutine can't destroy itself.
+                free();
+
+                return;
+            }
+
             m_h.promise().m_owned = false;
 
             m_h = nullptr;
-- 
2.43.0


From 0f42ef1613290610ae46610ca10e2617df77ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:55 +0000
Subject: [PATCH 33/37] fix: dropping a stop token does not destroy the state
 that other tokens use

---
 Extras/JThread/JThreadExtras/stop_token.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Extras/JThread/JThreadExtras/stop_token.hpp b/Extras/JThread/JThreadExtras/stop_token.hpp
index 44839fd..7f695e2 100644
--- a/Extras/JThread/JThreadExtras/stop_token.hpp
+++ b/Extras/JThread/JThreadExtras/stop_token.hpp
@@ -53,7 +53,7 @@ struct __stop_state {
   void __remove_token_reference() noexcept {
     auto __oldState =
         __state_.fetch_sub(__token_ref_increment, std::memory_order_acq_rel);
-    if (__oldState < (__token_ref_increment + __source_ref_increment)) {
+    if (__oldState < (__token_ref_increment + __token_ref_increment)) {
       delete this;
     }
   }
-- 
2.43.0


From 7be92e88e417fbddb2ddf9d86a79f42df873ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:55 +0000
Subject: [PATCH 34/37] fix: a stop request at the beginning of sleep_for is
 not lost

---
 Awl/Sleep.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Awl/Sleep.h b/Awl/Sleep.h
index 75c729d..4549660 100644
--- a/Awl/Sleep.h
+++ b/Awl/Sleep.h
@@ -20,8 +20,6 @@ namespace awl
 
         std::mutex mutex;
 
-        std::unique_lock<std::mutex> lock{ mutex };
-
         // ThreadSanitizer: double lock of a mutex
         // std::condition_variable_any().wait_for(lock, token, d, [&token]
         // {
@@ -31,12 +29,19 @@ namespace awl
         std::stop_callback stop_wait
         {
             token,
-            [&cv]()
+            [&cv, &mutex]()
             {
+                //A stop request between the check of the token and the wait should not be lost.
+                {
+                    std::lock_guard<std::mutex> guard{ mutex };
+                }
+
                 cv.notify_one();
             }
         };
 
+        std::unique_lock<std::mutex> lock{ mutex };
+
         cv.wait_for(lock, d, [&token]()
         {
             return token.stop_requested();
-- 
2.43.0


From 72a6ab5b09d35893a7e08e5433f930f1caf17240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:55 +0000
Subject: [PATCH 35/37] fix: the members of watch_dog are there while its
 thread runs

---
 Awl/WatchDog.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Awl/WatchDog.h b/Awl/WatchDog.h
index b0b1543..ba244e8 100644
--- a/Awl/WatchDog.h
+++ b/Awl/WatchDog.h
@@ -21,9 +21,9 @@ namespace awl
         watch_dog(std::stop_token token, std::chrono::nanoseconds timeout, std::function<void()> log) :
             m_token(token),
             m_timeout(timeout),
-            m_thread(std::bind(&watch_dog::thread_proc, this, std::placeholders::_1)),
+            m_log(log),
             m_callback(m_token, std::bind(&watch_dog::callback_proc, this)),
-            m_log(log)
+            m_thread(std::bind(&watch_dog::thread_proc, this, std::placeholders::_1))
         {
         }
 
@@ -60,10 +60,11 @@ namespace awl
 
         std::chrono::nanoseconds m_timeout;
 
-        std::jthread m_thread;
+        std::function<void()> m_log;
 
         std::stop_callback<std::function<void()>> m_callback;
 
-        std::function<void()> m_log;
+        //The thread uses the other members, so it starts last and ends first.
+        std::jthread m_thread;
     };
 }
-- 
2.43.0


From f32a5dd47ed96451459a0b2ae315ab9236af469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:45 +0000
Subject: [PATCH 36/37] fix: Assert::Throws<E> passed without an exception when
 E was a base of TestException

---
 Awl/Testing/TestAssert.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Awl/Testing/TestAssert.h b/Awl/Testing/TestAssert.h
index 5a6fc9e..a3eb5e7 100644
--- a/Awl/Testing/TestAssert.h
+++ b/Awl/Testing/TestAssert.h
@@ -54,11 +54,13 @@ namespace awl::testing
             try
             {
                 func();
-                Assert::Fail(format() << _T("Exception of type '") << FromACString(typeid(E).name()) << _T("' was not thrown."));
             }
             catch (const E &)
             {
+                return;
             }
+
+            Assert::Fail(format() << _T("Exception of type '") << FromACString(typeid(E).name()) << _T("' was not thrown."));
         }
     };
 }
-- 
2.43.0


From 8b55cb9a4c55a44f173a1947cd07856498b4742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:45 +0000
Subject: [PATCH 37/37] fix: attributes of type unsigned int above INT_MAX were
 replaced with the default value

---
 Awl/Testing/ScalarFormatter.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Awl/Testing/ScalarFormatter.h b/Awl/Testing/ScalarFormatter.h
index d33112b..d63dcbd 100644
--- a/Awl/Testing/ScalarFormatter.h
+++ b/Awl/Testing/ScalarFormatter.h
@@ -8,6 +8,8 @@
 #include "Awl/String.h"
 
 #include <type_traits>
+#include <limits>
+#include <stdexcept>
 
 namespace awl
 {
@@ -62,7 +64,14 @@ namespace awl
 
             static void FromString(const String & s, unsigned int & val)
             {
-                val = static_cast<unsigned int>(std::stoi(s));
+                const long long wide = std::stoll(s);
+
+                if (wide < std::numeric_limits<int>::min() || wide > std::numeric_limits<unsigned int>::max())
+                {
+                    throw std::out_of_range("unsigned int");
+                }
+
+                val = static_cast<unsigned int>(wide);
             }
 
             static void FromString(const String & s, long & val)
-- 
2.43.0

