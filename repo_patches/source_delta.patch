From def151de989a1e394a9bbf85dc3c1e3e9feccc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 01/48] fix: inserts into a growing hash table could be lost by
 a concurrent migration

An insert that had passed the epoch check could still claim a slot of the old
table after the migration had copied that slot: the key was lost, or a second
insert of the same key was reported as new. Inserts now announce themselves per
epoch parity and a migration waits for those in progress.
---
 include/datastructures/Growing_LP.hxx | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/Growing_LP.hxx b/include/datastructures/Growing_LP.hxx
index b4b8a62..b16c11e 100644
--- a/include/datastructures/Growing_LP.hxx
+++ b/include/datastructures/Growing_LP.hxx
@@ -23,7 +23,7 @@ public:
 
     template<typename... Args>
     GrowingHashTable(Args... args)
-            : g_epoch_r(0), g_epoch_w(0), helperThreads(0) {
+            : g_epoch_r(0), g_epoch_w(0), helperThreads(0), writers{{0}, {0}} {
         g_table_r = std::make_shared<HT>(std::forward<Args>(args)...);
         g_table_w = g_table_r;
     }
@@ -35,7 +35,8 @@ public:
               g_table_r(other.g_table_r),
               g_epoch_w(other.g_epoch_w.load()),
               g_table_w(other.g_table_w),
-              helperThreads(0) { }
+              helperThreads(0),
+              writers{{0}, {0}} { }
 
     ~GrowingHashTable() = default;
 
@@ -72,6 +73,10 @@ private:
     }
 
     std::atomic_uint helperThreads;
+
+    //number of inserts in progress into the table of an even/odd epoch
+    std::atomic_uint writers[2];
+
     std::mutex grow_mutex;
 
 };
@@ -222,7 +227,18 @@ public:
                 grow();
             }
         }
+
+        //announce the insert so that a migration of this table waits for it
+        auto &writers = parent.writers[l_epoch & 1];
+        writers.fetch_add(1);
+        if (parent.g_epoch_w.load() != l_epoch) {
+            //a migration has been started in the meantime
+            writers.fetch_sub(1);
+            return insert(args...);
+        }
         auto result = l_table->insert(args...);
+        writers.fetch_sub(1);
+
         if (result == InsertReturn::State::Full) {
             grow();
             return insert(args...);
@@ -366,6 +382,10 @@ private:
         auto t_epoch = l_table->m_version;
         parent.g_epoch_w.compare_exchange_strong(t_epoch, w_table->m_version);
 
+        //wait for inserts still in progress in the table to be migrated
+        while (parent.writers[l_table->m_version & 1].load(std::memory_order_acquire))
+        {};
+
         //nhelper ++
         parent.helperThreads.fetch_add(1);
 
-- 
2.43.0


From 4567d934f52efc134497245b02963d42fbe5b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 02/48] fix: handles read the published hash table pointer
 without synchronisation

Copying g_table_r raced with its replacement at the end of a migration (torn
shared_ptr, use after free). Take the mutex the writer already holds.
---
 include/datastructures/Growing_LP.hxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/datastructures/Growing_LP.hxx b/include/datastructures/Growing_LP.hxx
index b16c11e..d8245cd 100644
--- a/include/datastructures/Growing_LP.hxx
+++ b/include/datastructures/Growing_LP.hxx
@@ -77,7 +77,7 @@ private:
     //number of inserts in progress into the table of an even/odd epoch
     std::atomic_uint writers[2];
 
-    std::mutex grow_mutex;
+    mutable std::mutex grow_mutex;
 
 };
 
@@ -186,7 +186,10 @@ public:
 private:
     void getTable() const {
         l_epoch = parent.g_epoch_r.load();
-        l_table = parent.g_table_r;
+        {
+            std::lock_guard<std::mutex> lock(parent.grow_mutex);
+            l_table = parent.g_table_r;
+        }
 
         if (l_table->m_version != l_epoch) {
             getTable();
@@ -354,7 +357,10 @@ public:
 private:
     void getTable() const {
         l_epoch = parent.g_epoch_r.load();
-        l_table = parent.g_table_r;
+        {
+            std::lock_guard<std::mutex> lock(parent.grow_mutex);
+            l_table = parent.g_table_r;
+        }
 
         if (l_table->m_version != l_epoch) {
             getTable();
-- 
2.43.0


From 5804563dc1f7d19830529d9351a36e555d769792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:08 +0000
Subject: [PATCH 03/48] fix: concurrent map lookup could return uninitialised
 memory

A lookup that finds a key another thread has just claimed, but whose value is
not stored yet, returned whatever the fresh value array contained. Zero means
'not in the map', so initialise the values with it.
---
 include/datastructures/LP_Map.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 8c1d7fd..3d3795d 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -432,7 +432,7 @@ private:
 
     inline void _allocate(const std::size_t size) {
         m_keys.reset(new std::atomic<K>[size]()); // zero init
-        m_values.reset(new std::atomic<V>[size]); // random init
+        m_values.reset(new std::atomic<V>[size]()); // zero init, a lookup may see a claimed key before its value
     }
 
 public:
-- 
2.43.0


From a318bfaeb267564dd246ab23a11ad0c4a5d6fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:58 +0000
Subject: [PATCH 04/48] fix: nextPow2(0) returned 0 and made hash tables
 without any cell

---
 include/utils/Misc.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/utils/Misc.h b/include/utils/Misc.h
index 88d856f..962f7e2 100644
--- a/include/utils/Misc.h
+++ b/include/utils/Misc.h
@@ -19,6 +19,9 @@ T isPowN(const T x, const T n) {
 
 template<typename T, typename std::enable_if<std::is_unsigned<T>::value>::type * = nullptr>
 T nextPow2(const T x) {
+    if (x == 0)
+        return 1;
+
     T v = x - 1;
 
     for (T s = 1; s < sizeof(T) * CHAR_BIT; s <<= 1) {
-- 
2.43.0


From 6d6b7ad2829bad3931b2a3028d87a35c239da970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:58 +0000
Subject: [PATCH 05/48] fix: a hash set of capacity one filled up, later
 lookups of absent keys did not return

---
 include/datastructures/LP_Set.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index d096c6d..c1211b4 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -305,7 +305,7 @@ public:
     bool insert(const K &key) {
         ASSERT(key != 0);
 
-        if (Growing && !m_rehashing && (double) m_items / (double) m_arraySize >= 0.5)
+        if (Growing && !m_rehashing && 2 * (m_items + 1) > m_arraySize)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
-- 
2.43.0


From d31d24efcade17d26c1181f0858571338e1ad384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:58 +0000
Subject: [PATCH 06/48] fix: filtered merge of hash sets ignored cmp for its
 own keys

---
 include/datastructures/LP_Set.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index c1211b4..fb92af4 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -423,7 +423,7 @@ public:
 
     template<class Set, bool Growing2>
     void merge(LP_Set<K, Growing2> &&other, const Set &filter, const bool cmp = false) {
-        rehash(2*(size() + other.size()), filter);
+        rehash(2*(size() + other.size()), filter, cmp);
 
         for (std::size_t i = 0; i < other.capacity(); ++i) {
             if (other.m_array[i] != 0 && filter.count(other.m_array[i]) == cmp)
-- 
2.43.0


From b1d8c18c7b1394f8cfa7da7cde77ec4e487abb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:58 +0000
Subject: [PATCH 07/48] fix: hash map and multimap compared the load factor in
 integers and filled up completely

---
 include/datastructures/LP_Map.hxx      | 2 +-
 include/datastructures/LP_MultiMap.hxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 3d3795d..44c6d44 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -45,7 +45,7 @@ public:
     bool insert(const K &key, const V &value) {
         ASSERT(key != 0);
 
-        if (!m_rehashing && m_items / m_arraySize >= 0.5)
+        if (!m_rehashing && 2 * (m_items + 1) > m_arraySize)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index fa9557d..ff30ba0 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -131,7 +131,7 @@ public:
 
         ASSERT(key != 0);
 
-        if (!m_rehashing && m_items / m_arraySize >= 0.5)
+        if (!m_rehashing && 2 * (m_items + 1) > m_arraySize)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
-- 
2.43.0


From 1b9c0e49a08f2b7de64f3b0f13812b840f62f557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:36 +0000
Subject: [PATCH 08/48] fix: multimap lookup found nothing in a table of
 capacity two

---
 include/datastructures/LP_MultiMap.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index ff30ba0..a70572b 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -178,13 +178,13 @@ public:
                     firstIdx &= m_arraySize - 1;
                 }
 
-                ++lastIdx;
-                lastIdx &= m_arraySize - 1;
-
                 if (probedKey == 0 /* implicitly && idx != firstIdx */)
                     // we have found the end of the chain of equal hashes
                     return std::make_pair(const_filtered_iterator(*this, firstIdx, lastIdx, key),
                                           const_filtered_iterator(*this, lastIdx, lastIdx, key));
+
+                ++lastIdx;
+                lastIdx &= m_arraySize - 1;
             }
         }
 
@@ -464,13 +464,13 @@ public:
                     firstIdx &= m_arraySize - 1;
                 }
 
-                ++lastIdx;
-                lastIdx &= m_arraySize - 1;
-
                 if (probedKey == 0 /* implicitly && idx != firstIdx */)
                     // we have found the end of the chain of equal hashes
                     return std::make_pair(const_filtered_iterator(*this, firstIdx, lastIdx, key),
                                           const_filtered_iterator(*this, lastIdx, lastIdx, key));
+
+                ++lastIdx;
+                lastIdx &= m_arraySize - 1;
             }
         }
 
-- 
2.43.0


From f36b15bd14b40174c9b7d6d93f8e9acca20dbb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 09/48] fix: Bit_Set::batchSet cleared bits set before and
 miscounted them

---
 include/datastructures/Bit_Set.hxx | 38 +++++++++++-------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/include/datastructures/Bit_Set.hxx b/include/datastructures/Bit_Set.hxx
index 2f9dc25..1c071a3 100644
--- a/include/datastructures/Bit_Set.hxx
+++ b/include/datastructures/Bit_Set.hxx
@@ -218,37 +218,27 @@ public:
         ASSERT(m_lowerBound <= from && from < m_upperBound);
         ASSERT(m_lowerBound <= to && to <= m_upperBound);
 
-        /*auto print = [this] (const std::string & msg) {
-            std::cout << msg << ": ";
-            for(std::size_t i = 0; i < capacity(); ++i)
-                std::cout << isSet(i);
-            std::cout << std::endl;
-        };*/
+        if (from >= to)
+            return;
 
         std::size_t fromBlock = _block(from);
         std::size_t toBlock = _block(to - 1); // to not included
 
-        //print("before");
+        for (std::size_t i = fromBlock; i <= toBlock; ++i) {
+            // middle block: all ones
+            tKeyType mask = ~(tKeyType) 0;
 
-        // special case: first block
-        m_array[fromBlock] = (~(tKeyType) 0) << (from % cENTRIES);
+            // special case: first block
+            if (i == fromBlock)
+                mask &= (~(tKeyType) 0) << (from % cENTRIES);
 
-        //print("first ");
+            // special case: last block
+            if (i == toBlock)
+                mask &= (~(tKeyType) 0) >> (cENTRIES - 1 - ((to - 1) % cENTRIES));
 
-        // middle block: all ones
-        for (std::size_t i = fromBlock + 1; i < toBlock; ++i)
-            m_array[i] = (~(tKeyType) 0);
-
-        //print("middle");
-
-        // special case: last block
-        m_array[toBlock] = ((~(tKeyType) 0) >> (cENTRIES - (to % cENTRIES))) &
-                           (toBlock == fromBlock ? m_array[toBlock] : (~(tKeyType) 0));
-
-        m_ones = to - from;
-
-
-        //print("after ");
+            m_ones += popcount((tKeyType) (mask & ~m_array[i]));
+            m_array[i] |= mask;
+        }
     }
 
     bool isSet(const tKeyType &idx) const {
-- 
2.43.0


From f5c13af637e84542a16aa84ea89f5588fd7e5aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 10/48] fix: Bit_Set::filter did not count the bits outside the
 filter's bounds

---
 include/datastructures/Bit_Set.hxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/datastructures/Bit_Set.hxx b/include/datastructures/Bit_Set.hxx
index 1c071a3..d6b2b83 100644
--- a/include/datastructures/Bit_Set.hxx
+++ b/include/datastructures/Bit_Set.hxx
@@ -366,10 +366,11 @@ public:
     void filter(const BitSet &filter) {
 
         m_ones = 0;
-        for (std::size_t i = std::max(m_lowerBound, filter.m_lowerBound);
-             i < std::min(m_upperBound, filter.m_upperBound);
+        for (std::size_t i = m_lowerBound;
+             i < m_upperBound;
              i += cENTRIES) {
-            m_array[_block(i)] &= ~filter.m_array[filter._block(i)];
+            if (filter.m_lowerBound <= i && i < filter.m_upperBound)
+                m_array[_block(i)] &= ~filter.m_array[filter._block(i)];
             m_ones += popcount(m_array[_block(i)]);
         }
     }
-- 
2.43.0


From e44dafcc4904d7c055d23baa442e5301316bfa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 11/48] fix: copying a concurrent multimap left its size unset

---
 include/datastructures/LP_MultiMap.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index a70572b..048cf02 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -524,12 +524,13 @@ public:
 
     template<class Source>
     void unsafe_copy(const Source &other) {
-        ASSERT(m_arraySize == other.size());
+        ASSERT(m_arraySize == other.capacity());
         for (std::size_t i = 0; i < m_arraySize; ++i) {
             auto pair = other.at(i);
             m_keys[i] = pair.first;
             m_values[i] = pair.second;
         }
+        m_items.store(other.size());
     }
 
     template<class Source, class Filter>
-- 
2.43.0


From 4f5879ec48d77d4e190807d6f32b8c7c4fedfe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:34 +0000
Subject: [PATCH 12/48] fix: loading a block store dereferenced blocks that
 were never allocated

---
 include/datastructures/BlockedArray2.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/datastructures/BlockedArray2.hxx b/include/datastructures/BlockedArray2.hxx
index cc228ae..03af59c 100644
--- a/include/datastructures/BlockedArray2.hxx
+++ b/include/datastructures/BlockedArray2.hxx
@@ -602,6 +602,7 @@ private:
         m_blocks.resize(n);
 
         for (std::size_t i = 0; i < n; ++i) {
+            m_blocks[i] = std::make_unique<block>(0, 0);
             ar >> *m_blocks[i];
         }
     }
-- 
2.43.0


From f35270ede3a5abe8f8bfb8d22eaf26c9982880c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:34 +0000
Subject: [PATCH 13/48] fix: BlockedArray::at let the first index past the end
 through

---
 include/datastructures/BlockedArray.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/datastructures/BlockedArray.hxx b/include/datastructures/BlockedArray.hxx
index 0f6b966..0e5bfaf 100644
--- a/include/datastructures/BlockedArray.hxx
+++ b/include/datastructures/BlockedArray.hxx
@@ -41,13 +41,13 @@ public:
     }
 
     const T& at(const std::size_t idx) const {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
 
     T& at(const std::size_t idx) {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
@@ -93,13 +93,13 @@ public:
     }
 
     const T& at(const std::size_t idx) const {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
 
     T& at(const std::size_t idx) {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
-- 
2.43.0


From 442d801bd58e8738c80b1e8ac53be7bab3973af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:17 +0000
Subject: [PATCH 14/48] fix: loading a block store kept the position hint of
 its old contents

---
 include/datastructures/BlockedArray2.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/datastructures/BlockedArray2.hxx b/include/datastructures/BlockedArray2.hxx
index 03af59c..c081c31 100644
--- a/include/datastructures/BlockedArray2.hxx
+++ b/include/datastructures/BlockedArray2.hxx
@@ -600,6 +600,7 @@ private:
         std::size_t n;
         ar >> n;
         m_blocks.resize(n);
+        m_hint = 0;
 
         for (std::size_t i = 0; i < n; ++i) {
             m_blocks[i] = std::make_unique<block>(0, 0);
-- 
2.43.0


From a4fd7bf26efbfab3df512f26c02ec29580429ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:16 +0000
Subject: [PATCH 15/48] fix: find the end of a trait behind its inner separator
 when loading a record

A trait name or separator that overlaps, or an empty value, made the parser
cut the record at the wrong place.
---
 src/utils/Timings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/Timings.cpp b/src/utils/Timings.cpp
index 5066629..a23182c 100644
--- a/src/utils/Timings.cpp
+++ b/src/utils/Timings.cpp
@@ -25,7 +25,8 @@ ExperimentRun::ExperimentRun(const std::string &run, std::string _traitSep, std:
 
     while (currPos < run.length()) {
         innerSep = run.find(_innerSep, currPos);
-        traitSep = run.find(_traitSep, currPos);
+        //the separator can only follow the value, an empty value must not be skipped
+        traitSep = run.find(_traitSep, innerSep != std::string::npos ? innerSep + _innerSep.length() : currPos);
 
         //we have the last trait in the string
         traitSep = traitSep != std::string::npos ? traitSep : run.length() + 1;
-- 
2.43.0


From b1c6936ff527ba5f53a2ccf9f559ef80875497bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:16 +0000
Subject: [PATCH 16/48] fix: compare experiment records by their non-ignored
 traits only

The number of traits included the ignored fields, so a reloaded record with
e.g. a start time never compared equal, and the comparison was asymmetric.
---
 src/utils/Timings.cpp | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/utils/Timings.cpp b/src/utils/Timings.cpp
index a23182c..29527dc 100644
--- a/src/utils/Timings.cpp
+++ b/src/utils/Timings.cpp
@@ -77,25 +77,24 @@ ExperimentRun::tMeasurement ExperimentRun::avgMeasurement(const std::string &nam
 
 bool ExperimentRun::operator==(const ExperimentRun &o) const {
 
-    if (m_traits.size() != o.m_traits.size())
-        return false;
-
-    bool eq = true;
-    for (const auto &t : m_traits) {
-
-        if (std::find(c_ignored_fields.begin(), c_ignored_fields.end(), t.first) != c_ignored_fields.end())
-            //trait is ignored field
-            continue;
-
-        if (o.m_traits.count(t.first) == 0)
-            // the other object does not contain this trait
-            return false;
-        else if (t.second != o.m_traits.at(t.first))
-            eq = false;
-    }
+    // ignored fields must not take part in the comparison, neither by value nor by presence
+    auto covers = [](const ExperimentRun &a, const ExperimentRun &b) {
+        for (const auto &t : a.m_traits) {
+
+            if (std::find(c_ignored_fields.begin(), c_ignored_fields.end(), t.first) != c_ignored_fields.end())
+                //trait is ignored field
+                continue;
+
+            auto it = b.m_traits.find(t.first);
+            if (it == b.m_traits.end() || it->second != t.second)
+                // the other object does not contain this trait or has another value
+                return false;
+        }
 
+        return true;
+    };
 
-    return eq;
+    return covers(*this, o) && covers(o, *this);
 
 }
 
-- 
2.43.0


From d858c03c304785f232c6ff560ac1d35453a1b92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:16 +0000
Subject: [PATCH 17/48] fix: increment profiling counters atomically

Counters are incremented from parallel tasks; a plain += loses increments.
---
 include/utils/Timings.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils/Timings.h b/include/utils/Timings.h
index 530411c..aadd735 100644
--- a/include/utils/Timings.h
+++ b/include/utils/Timings.h
@@ -90,7 +90,8 @@ public:
     tMeasurement avgMeasurement(const std::string &name) const;
 
     void incCounter(const std::string &name, const tMeasurement &value = 1) {
-        m_counters[name] += value;
+        // the map is concurrent, the counter itself is not
+        __atomic_fetch_add(&m_counters[name], value, __ATOMIC_RELAXED);
     }
 
     const auto &counters() const {
-- 
2.43.0


From 6c50e9343c3e579bc413de42bea36d705d9a6927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:52 +0000
Subject: [PATCH 18/48] fix: recognise signed and unsigned numbers, and only
 those

The character class [(-|+)|] took '(', '|' and ')' as a sign and made a
leading character mandatory, so "|12" was a number and "12" only by
accident; decimals with a leading zero were not recognised.
---
 include/utils/StringUtils.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/utils/StringUtils.h b/include/utils/StringUtils.h
index 1b0d998..18642e9 100644
--- a/include/utils/StringUtils.h
+++ b/include/utils/StringUtils.h
@@ -5,13 +5,9 @@
 #include <string>
 
 bool is_int(const std::string & s){
-    return !s.empty() &&
-           ((s.size() == 1 && std::isdigit(s[0]))
-           || std::regex_match(s, std::regex("[(-|+)|][0-9]+")));
+    return std::regex_match(s, std::regex("[+-]?[0-9]+"));
 }
 
 bool is_float(const std::string & s){
-    return !s.empty() && (
-           (s.size() == 1 && std::isdigit(s[0]))
-           || std::regex_match(s, std::regex("[(-|+)|](([1-9][0-9]*\\.?[0-9]*)|(\\.[0-9]+))([Ee][+-]?[0-9]+)?")));
-}
\ No newline at end of file
+    return std::regex_match(s, std::regex("[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([Ee][+-]?[0-9]+)?"));
+}
-- 
2.43.0


From 370a52e3a224c4a03a50756c2521f0f911d07f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:52 +0000
Subject: [PATCH 19/48] fix: test for powers and logarithms of any base

isPowN answered for multiples instead of powers, logN was wrong for bases
that are no power of two and did not return for base one.
---
 include/utils/Misc.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/utils/Misc.h b/include/utils/Misc.h
index 962f7e2..e715285 100644
--- a/include/utils/Misc.h
+++ b/include/utils/Misc.h
@@ -14,7 +14,14 @@ T isPow2(const T x) {
 
 template<typename T, typename std::enable_if<std::is_unsigned<T>::value>::type * = nullptr>
 T isPowN(const T x, const T n) {
-    return x != 0 && x % n == 0;
+    if (n < 2)
+        return x == 1;
+
+    T v = x;
+    while (v != 0 && v % n == 0)
+        v /= n;
+
+    return v == 1;
 }
 
 template<typename T, typename std::enable_if<std::is_unsigned<T>::value>::type * = nullptr>
@@ -44,7 +51,9 @@ template<typename T, typename std::enable_if<std::is_unsigned<T>::value>::type *
 T logN(const T _x, const T _n) {
     T x = _x;
     T y = 0;
-    while (x >>= log2(_n)) ++y;
+    if (_n < 2)
+        return 0; // undefined
+    while (x /= _n) ++y;
     //asm ( "\tbsr %1, %0\n" : "=r"(y) : "r" (x));
     return y;
 }
-- 
2.43.0


From ba62fcac53d98077b58f8c703af9a558fdbccb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:51 +0000
Subject: [PATCH 20/48] fix: unbalanced log indentation of worker threads could
 hang a parallel triangulation

---
 include/utils/Logger.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/utils/Logger.h b/include/utils/Logger.h
index 5b321de..fd9e7c7 100644
--- a/include/utils/Logger.h
+++ b/include/utils/Logger.h
@@ -77,8 +77,10 @@ public:
     void incIndent() { ++indentLevel; }
 
     void decIndent() {
-        ASSERT(indentLevel > 0);
-        --indentLevel;
+        // the indentation is kept per thread, a thread that worked on another task
+        // in between (parallel loops) may find it at a lower level than it left it
+        if (indentLevel > 0)
+            --indentLevel;
     }
 
     void setIndent(const uint i) { indentLevel = i; }
-- 
2.43.0


From 19f4429e5b3546a78e5466772f97600dbab3529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:51 +0000
Subject: [PATCH 21/48] fix: extend partitioner picked dimension -1 for points
 without extent

---
 src/lib/Partitioner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Partitioner.cpp b/src/lib/Partitioner.cpp
index b2d07f9..a2e062d 100644
--- a/src/lib/Partitioner.cpp
+++ b/src/lib/Partitioner.cpp
@@ -200,7 +200,7 @@ ExtendPartitioner<D, Precision>::partition(const dPointStats<D, Precision> &stat
 
     // determine most vast dimension
     Precision maxExtend = 0;
-    int maxDim = -1;
+    int maxDim = 0; // points without any extent can be split along any dimension
 
     for (uint d = 0; d < D; ++d) {
         if (stats.max[d] - stats.min[d] > maxExtend) {
-- 
2.43.0


From b3b2257fc734097b953cb253b53ffdd4945584ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:00 +0000
Subject: [PATCH 22/48] fix: artificial corner points were placed around the
 origin instead of around the points

---
 include/LoadBalancedDCTriangulator.tpp | 2 +-
 src/lib/DCTriangulator.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index e73b28e..9adb3b8 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -88,7 +88,7 @@ namespace LoadBalancing
                 p.coords = stats.mid;
 
                 for (uint d = 0; d < D; ++d)
-                    p.coords[d] =
+                    p.coords[d] +=
                             (i & (1 << d) ? 1 : -1) * 2 * SAFETY * (stats.max[d] - stats.min[d]);
 
                 this->points[dPoint<D, Precision>::cINF | i] = std::move(p);
diff --git a/src/lib/DCTriangulator.cpp b/src/lib/DCTriangulator.cpp
index 6905f0e..9bd87ce 100644
--- a/src/lib/DCTriangulator.cpp
+++ b/src/lib/DCTriangulator.cpp
@@ -78,7 +78,7 @@ DCTriangulator<D, Precision>::DCTriangulator(
             p.coords = stats.mid;
 
             for (uint d = 0; d < D; ++d)
-                p.coords[d] =
+                p.coords[d] +=
                         (i & (1 << d) ? 1 : -1) * 2 * SAFETY * (stats.max[d] - stats.min[d]);
 
             this->points[dPoint<D, Precision>::cINF | i] = std::move(p);
-- 
2.43.0


From 2ecd1d3bc4c997b3959b4478632aa5c5251887e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:07 +0000
Subject: [PATCH 23/48] fix: extents of point sets with only negative
 coordinates reached up to zero

---
 include/Geometry.h    | 2 +-
 include/Partitioner.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 13c7c10..8388ba5 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -260,7 +260,7 @@ public:
 
         dBox<D, Precision> bounds;
         bounds.low.fill(std::numeric_limits<Precision>::max());
-        bounds.high.fill(std::numeric_limits<Precision>::min());
+        bounds.high.fill(std::numeric_limits<Precision>::lowest());
 
 #ifndef NDEBUG
         std::size_t lc = 0;
diff --git a/include/Partitioner.h b/include/Partitioner.h
index 61e77ec..985893d 100644
--- a/include/Partitioner.h
+++ b/include/Partitioner.h
@@ -79,7 +79,7 @@ struct dPointStats {
         for (uint dim = 0; dim < D; ++dim) {
             min[dim] = std::numeric_limits<Precision>::max();
             mid[dim] = 0;
-            max[dim] = std::numeric_limits<Precision>::min();
+            max[dim] = std::numeric_limits<Precision>::lowest();
         }
     }
 
@@ -122,7 +122,7 @@ dPointStats<D, Precision> getPointStatsSeq(const InputIt &first,
 
     for (uint dim = 0; dim < D; ++dim) {
         stats.min[dim] = std::numeric_limits<Precision>::max();
-        stats.max[dim] = std::numeric_limits<Precision>::min();
+        stats.max[dim] = std::numeric_limits<Precision>::lowest();
 
         for (auto it = first; it != last; ++it) {
 
-- 
2.43.0


From bd5d9fd338e1b83f399a029e728259c4c1550a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:17 +0000
Subject: [PATCH 24/48] fix: circumsphere lost its accuracy far from the origin
 and for flat simplices

---
 src/lib/Geometry.cpp | 430 ++++++++-----------------------------------
 1 file changed, 79 insertions(+), 351 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 884adfa..f2b1bfd 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -1,6 +1,9 @@
 #include "Geometry.h"
 
 #include <algorithm>
+#include <array>
+#include <cmath>
+#include <limits>
 #include <sstream>
 #include <atomic>
 
@@ -68,6 +71,40 @@ dVector<D, Precision> operator-(const dVector<D, Precision> &a, const dVector<D,
 
 // specializations
 
+/* The smallest sphere that certainly encloses the circumsphere with center origin + num / den, given the
+ * magnitudes of the summands of num and den, i.e. taking into account how far they may be off due to rounding */
+template<uint D, typename Precision>
+dSphere<D, Precision> enclosingSphere(const dVector<D, Precision> &origin,
+                                      const std::array<Precision, D> &num, const std::array<Precision, D> &numMag,
+                                      const Precision &den, const Precision &denMag) {
+
+    constexpr Precision eps = 32 * std::numeric_limits<Precision>::epsilon();
+
+    dSphere<D, Precision> sphere;
+    const Precision safeDen = fabs(den) - eps * denMag;
+
+    if (safeDen > 0) {
+        Precision dist = 0, err = 0;
+        for (uint d = 0; d < D; ++d) {
+            const Precision offset = num[d] / den;
+            sphere.center[d] = origin[d] + offset;
+
+            const Precision e = eps * (numMag[d] + fabs(offset) * denMag) / safeDen + eps * fabs(sphere.center[d]);
+            dist += offset * offset;
+            err += e * e;
+        }
+        sphere.radius = (sqrt(dist) + 2 * sqrt(err)) * (1 + eps);
+
+        if (std::isfinite(sphere.radius))
+            return sphere;
+    }
+
+    // (nearly) degenerate, any point might be inside the sphere
+    sphere.center = origin;
+    sphere.radius = std::numeric_limits<Precision>::infinity();
+    return sphere;
+}
+
 template<typename Precision>
 class GeometryCore<2, Precision> {
 public:
@@ -189,51 +226,16 @@ public:
     static dSphere<2, Precision>
     circumsphere(const dPoint<2, Precision> &s0, const dPoint<2, Precision> &s1, const dPoint<2, Precision> &s2) {
 
-        dSphere<2, Precision> sphere;
-
-        Precision den = 2 * (s0.coords[0] *
-                             (s1.coords[1] -
-                              s2.coords[1]) +
-                             s1.coords[0] *
-                             (s2.coords[1] -
-                              s0.coords[1]) +
-                             s2.coords[0] *
-                             (s0.coords[1] -
-                              s1.coords[1]));
-
-        sphere.center[0] = ((pow(s0.coords[0], 2) +
-                             pow(s0.coords[1], 2)) *
-                            (s1.coords[1] -
-                             s2.coords[1]) +
-                            (pow(s1.coords[0], 2) +
-                             pow(s1.coords[1], 2)) *
-                            (s2.coords[1] -
-                             s0.coords[1]) +
-                            (pow(s2.coords[0], 2) +
-                             pow(s2.coords[1], 2)) *
-                            (s0.coords[1] -
-                             s1.coords[1])) /
-                           den;
-
-        sphere.center[1] = ((pow(s0.coords[0], 2) +
-                             pow(s0.coords[1], 2)) *
-                            (s2.coords[0] -
-                             s1.coords[0]) +
-                            (pow(s1.coords[0], 2) +
-                             pow(s1.coords[1], 2)) *
-                            (s0.coords[0] -
-                             s2.coords[0]) +
-                            (pow(s2.coords[0], 2) +
-                             pow(s2.coords[1], 2)) *
-                            (s1.coords[0] -
-                             s0.coords[0])) /
-                           den;
-
-        sphere.radius =
-                sqrt(pow(sphere.center[0] - s0.coords[0], 2) +
-                     pow(sphere.center[1] - s0.coords[1], 2));
-
-        return sphere;
+        // coordinates relative to s0, the absolute ones would cancel
+        const Precision bx = s1.coords[0] - s0.coords[0], by = s1.coords[1] - s0.coords[1];
+        const Precision cx = s2.coords[0] - s0.coords[0], cy = s2.coords[1] - s0.coords[1];
+        const Precision b = bx * bx + by * by, c = cx * cx + cy * cy;
+
+        return enclosingSphere<2, Precision>(s0.coords,
+                                             {{cy * b - by * c, bx * c - cx * b}},
+                                             {{fabs(cy) * b + fabs(by) * c, fabs(bx) * c + fabs(cx) * b}},
+                                             2 * (bx * cy - by * cx),
+                                             2 * (fabs(bx * cy) + fabs(by * cx)));
     }
 };
 
@@ -412,312 +414,38 @@ public:
     static dSphere<3, Precision>
     circumsphere(const dPoint<3, Precision> &s0, const dPoint<3, Precision> &s1, const dPoint<3, Precision> &s2, const dPoint<3, Precision> &s3) {
 
-        dSphere<3, Precision> sphere;
-
-        Precision den = 2 * (s0.coords[0] *
-                             (s2.coords[1] *
-                              s3.coords[2] +
-                              s1.coords[1] *
-                              (s2.coords[2] -
-                               s3.coords[2]) -
-                              s3.coords[1] *
-                              s2.coords[2] -
-                              (s2.coords[1] -
-                               s3.coords[1]) *
-                              s1.coords[2]) -
-                             s1.coords[0] *
-                             (s2.coords[1] *
-                              s3.coords[2] -
-                              s3.coords[1] *
-                              s2.coords[2]) -
-                             s0.coords[1] *
-                             (s2.coords[0] *
-                              s3.coords[2] +
-                              s1.coords[0] *
-                              (s2.coords[2] -
-                               s3.coords[2]) -
-                              s3.coords[0] *
-                              s2.coords[2] -
-                              (s2.coords[0] -
-                               s3.coords[0]) *
-                              s1.coords[2]) +
-                             s1.coords[1] *
-                             (s2.coords[0] *
-                              s3.coords[2] -
-                              s3.coords[0] *
-                              s2.coords[2]) +
-                             s0.coords[2] *
-                             (s2.coords[0] *
-                              s3.coords[1] +
-                              s1.coords[0] *
-                              (s2.coords[1] -
-                               s3.coords[1]) -
-                              s3.coords[0] *
-                              s2.coords[1] -
-                              (s2.coords[0] -
-                               s3.coords[0]) *
-                              s1.coords[1]) -
-                             s1.coords[2] *
-                             (s2.coords[0] *
-                              s3.coords[1] -
-                              s3.coords[0] *
-                              s2.coords[1]));
-
-        sphere.center[0] =
-                (-s0.coords[1] *
-                 (-s2.coords[2] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[2] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) *
-                  s3.coords[2] +
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2)) *
-                  (s2.coords[2] -
-                   s3.coords[2])) +
-                 s1.coords[1] *
-                 ((pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) *
-                  s3.coords[2] -
-                  s2.coords[2] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) +
-                 s0.coords[2] *
-                 (-s2.coords[1] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[1] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  s3.coords[1] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (s2.coords[1] -
-                   s3.coords[1]) *
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2))) -
-                 s1.coords[2] *
-                 (s3.coords[1] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) -
-                  s2.coords[1] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) +
-                 (pow(s0.coords[2], 2) +
-                  pow(s0.coords[1], 2) +
-                  pow(s0.coords[0], 2)) *
-                 (s2.coords[1] *
-                  s3.coords[2] +
-                  s1.coords[1] *
-                  (s2.coords[2] -
-                   s3.coords[2]) -
-                  s3.coords[1] *
-                  s2.coords[2] -
-                  (s2.coords[1] -
-                   s3.coords[1]) *
-                  s1.coords[2]) -
-                 (pow(s1.coords[2], 2) +
-                  pow(s1.coords[1], 2) +
-                  pow(s1.coords[0], 2)) *
-                 (s2.coords[1] *
-                  s3.coords[2] -
-                  s3.coords[1] *
-                  s2.coords[2])) /
-                den;
-
-        sphere.center[1] =
-                (s0.coords[0] *
-                 (-s2.coords[2] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[2] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) *
-                  s3.coords[2] +
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2)) *
-                  (s2.coords[2] -
-                   s3.coords[2])) -
-                 s1.coords[0] *
-                 ((pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) *
-                  s3.coords[2] -
-                  s2.coords[2] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) -
-                 s0.coords[2] *
-                 (-s2.coords[0] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[0] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  s3.coords[0] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (s2.coords[0] -
-                   s3.coords[0]) *
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2))) +
-                 s1.coords[2] *
-                 (s3.coords[0] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) -
-                  s2.coords[0] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) -
-                 (pow(s0.coords[2], 2) +
-                  pow(s0.coords[1], 2) +
-                  pow(s0.coords[0], 2)) *
-                 (s2.coords[0] *
-                  s3.coords[2] +
-                  s1.coords[0] *
-                  (s2.coords[2] -
-                   s3.coords[2]) -
-                  s3.coords[0] *
-                  s2.coords[2] -
-                  (s2.coords[0] -
-                   s3.coords[0]) *
-                  s1.coords[2]) +
-                 (pow(s1.coords[2], 2) +
-                  pow(s1.coords[1], 2) +
-                  pow(s1.coords[0], 2)) *
-                 (s2.coords[0] *
-                  s3.coords[2] -
-                  s3.coords[0] *
-                  s2.coords[2])) /
-                den;
-
-        sphere.center[2] =
-                (-s0.coords[0] *
-                 (-s2.coords[1] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[1] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  s3.coords[1] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (s2.coords[1] -
-                   s3.coords[1]) *
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2))) +
-                 s1.coords[0] *
-                 (s3.coords[1] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) -
-                  s2.coords[1] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) +
-                 s0.coords[1] *
-                 (-s2.coords[0] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[0] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  s3.coords[0] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (s2.coords[0] -
-                   s3.coords[0]) *
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2))) -
-                 s1.coords[1] *
-                 (s3.coords[0] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) -
-                  s2.coords[0] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) -
-                 (s2.coords[0] *
-                  s3.coords[1] -
-                  s3.coords[0] *
-                  s2.coords[1]) *
-                 (pow(s1.coords[2], 2) +
-                  pow(s1.coords[1], 2) +
-                  pow(s1.coords[0], 2)) +
-                 (s2.coords[0] *
-                  s3.coords[1] +
-                  s1.coords[0] *
-                  (s2.coords[1] -
-                   s3.coords[1]) -
-                  s3.coords[0] *
-                  s2.coords[1] -
-                  (s2.coords[0] -
-                   s3.coords[0]) *
-                  s1.coords[1]) *
-                 (pow(s0.coords[2], 2) +
-                  pow(s0.coords[1], 2) +
-                  pow(s0.coords[0], 2))) /
-                den;
-
-        sphere.radius =
-                sqrt(pow(sphere.center[0] - s0.coords[0], 2) +
-                     pow(sphere.center[1] - s0.coords[1], 2) +
-                     pow(sphere.center[2] - s0.coords[2], 2));
-
-        return sphere;
+        // coordinates relative to s0, the absolute ones would cancel
+        std::array<std::array<Precision, 3>, 3> e;
+        std::array<Precision, 3> sq;
+        for (uint d = 0; d < 3; ++d) {
+            e[0][d] = s1.coords[d] - s0.coords[d];
+            e[1][d] = s2.coords[d] - s0.coords[d];
+            e[2][d] = s3.coords[d] - s0.coords[d];
+        }
+        for (uint i = 0; i < 3; ++i)
+            sq[i] = e[i][0] * e[i][0] + e[i][1] * e[i][1] + e[i][2] * e[i][2];
+
+        std::array<Precision, 3> num{}, numMag{};
+        Precision den = 0, denMag = 0;
+        for (uint i = 0; i < 3; ++i) {
+            const auto &v = e[(i + 1) % 3];
+            const auto &w = e[(i + 2) % 3];
+            for (uint d = 0; d < 3; ++d) {
+                // component d of the cross product of v and w
+                const Precision p = v[(d + 1) % 3] * w[(d + 2) % 3];
+                const Precision q = v[(d + 2) % 3] * w[(d + 1) % 3];
+
+                num[d] += sq[i] * (p - q);
+                numMag[d] += sq[i] * (fabs(p) + fabs(q));
+
+                if (i == 0) {
+                    den += 2 * e[0][d] * (p - q);
+                    denMag += 2 * fabs(e[0][d]) * (fabs(p) + fabs(q));
+                }
+            }
+        }
+
+        return enclosingSphere<3, Precision>(s0.coords, num, numMag, den, denMag);
     }
 };
 
-- 
2.43.0


From 817610c2f7f40e2a2cafef3148679e5a671a578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:28 +0000
Subject: [PATCH 25/48] fix: lookup of an absent key in a completely full set
 never returned

---
 include/datastructures/LP_Set.hxx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index fb92af4..e1b2653 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -332,15 +332,18 @@ public:
     bool contains(const K &key) const {
         ASSERT(key != 0);
 
-        for (K idx = m_hasher(key); ; idx++) {
+        // a set of fixed capacity may be completely full, stop once every slot has been probed
+        K idx = m_hasher(key);
+        for (std::size_t probes = 0; probes < m_arraySize; ++probes, ++idx) {
             idx &= m_arraySize - 1;
             K probedKey = m_array[idx];
             if (probedKey == key)
-                return true;;
+                return true;
             if (probedKey == 0)
                 return false;
         }
 
+        return false;
     }
 
     std::size_t count(const K &key) const {
@@ -620,15 +623,18 @@ public:
     K get(const K &key) const {
         ASSERT(key != 0);
 
-        for (K idx = m_hasher(key); ; idx++) {
+        // a set of fixed capacity may be completely full, stop once every slot has been probed
+        K idx = m_hasher(key);
+        for (std::size_t probes = 0; probes < m_arraySize; ++probes, ++idx) {
             idx &= m_arraySize - 1;
             K probedKey = m_array[idx].load();
             if (probedKey == key)
-                return key;;
+                return key;
             if (probedKey == 0)
                 return 0;
         }
 
+        return 0;
     }
 
     bool contains(const K &key) const {
-- 
2.43.0


From 323aa61a537bd3f705d0d37793804a3c394fba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:07 +0000
Subject: [PATCH 26/48] fix: self check rejected valid triangulations with
 cocircular points or tiny coordinates

---
 include/Geometry.h   | 19 ++++++++++---------
 src/lib/Geometry.cpp | 20 +++++++++++++++-----
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 8388ba5..5f85a80 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -368,13 +368,14 @@ public:
     static Precision sqDistanceToFace(const dPoint<D, Precision> &p,
                                       const dPoint<D, Precision> &s0, const dPoint<D, Precision> &s1, const dPoint<D, Precision> &s2);
 
+    // points on the boundary count as inside, unless strict
     static bool inSphere(const dPoint<D, Precision> &p,
                          const dPoint<D, Precision> &s0, const dPoint<D, Precision> &s1,
-                         const dPoint<D, Precision> &s2);
+                         const dPoint<D, Precision> &s2, const bool strict = false);
 
     static bool inSphere(const dPoint<D, Precision> &p,
                          const dPoint<D, Precision> &s0, const dPoint<D, Precision> &s1, const dPoint<D, Precision> &s2,
-                         const dPoint<D, Precision> &s3);
+                         const dPoint<D, Precision> &s3, const bool strict = false);
 
     static dSphere<D, Precision>
             circumsphere(const dPoint<D, Precision> &s0, const dPoint<D, Precision> &s1,
@@ -406,7 +407,7 @@ public:
     template<class Collection>
     static bool inSphere(const dSimplex<D, Precision> &simplex,
                          const dPoint<D, Precision> &p,
-                         const Collection &points);
+                         const Collection &points, const bool strict = false);
 
     template<class Collection>
     static dSphere<D, Precision>
@@ -578,10 +579,10 @@ public:
     }
 
     template<class Collection>
-    bool inSphere(const dPoint<D, Precision> &p, const Collection &points) const {
+    bool inSphere(const dPoint<D, Precision> &p, const Collection &points, const bool strict = false) const {
         PROFILER_INC("dSimplex_inSphere");
 
-        return GeometryHelper<D, Precision>::inSphere(*this, p, points);
+        return GeometryHelper<D, Precision>::inSphere(*this, p, points, strict);
     }
 
     template<class Collection>
@@ -1024,9 +1025,9 @@ public:
     template<class Collection>
     static bool inSphere(const dSimplex<2, Precision> &simplex,
                          const dPoint<2, Precision> &p,
-                         const Collection &points) {
+                         const Collection &points, const bool strict = false) {
         return GeometryCore<2, Precision>::inSphere(p, points[simplex.vertices[0]], points[simplex.vertices[1]],
-                                                    points[simplex.vertices[2]]);
+                                                    points[simplex.vertices[2]], strict);
     }
 
     template<class Collection>
@@ -1080,10 +1081,10 @@ public:
     template<class Collection>
     static bool inSphere(const dSimplex<3, Precision> &simplex,
                          const dPoint<3, Precision> &p,
-                         const Collection &points) {
+                         const Collection &points, const bool strict = false) {
 
         return GeometryCore<3, Precision>::inSphere(p, points[simplex.vertices[0]], points[simplex.vertices[1]],
-                                                    points[simplex.vertices[2]], points[simplex.vertices[3]]);
+                                                    points[simplex.vertices[2]], points[simplex.vertices[3]], strict);
     }
 
     template<class Collection>
diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index f2b1bfd..9e33933 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -183,7 +183,8 @@ public:
     }
 
     static bool inSphere(const dPoint<2, Precision> &p,
-                         const dPoint<2, Precision> &s0, const dPoint<2, Precision> &s1, const dPoint<2, Precision> &s2) {
+                         const dPoint<2, Precision> &s0, const dPoint<2, Precision> &s1, const dPoint<2, Precision> &s2,
+                         const bool strict = false) {
 //        Precision adx, ady, bdx, bdy, cdx, cdy;
 //        Precision abdet, bcdet, cadet;
 //        Precision alift, blift, clift;
@@ -220,7 +221,11 @@ public:
 //
 //        det = alift * bcdet + blift * cadet + clift * abdet;
 
-        return orientation(s0, s1, s2) * Predicates<2, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), p.coords.data()) >= 0;
+        // do not multiply the two, the product could underflow
+        const Precision orient = orientation(s0, s1, s2);
+        const Precision inside = Predicates<2, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), p.coords.data());
+
+        return orient == 0 || (inside == 0 ? !strict : (orient > 0) == (inside > 0));
     }
 
     static dSphere<2, Precision>
@@ -351,7 +356,8 @@ public:
     }
 
     static bool inSphere(const dPoint<3, Precision> &p,
-                         const dPoint<3, Precision> &s0, const dPoint<3, Precision> &s1, const dPoint<3, Precision> &s2, const dPoint<3, Precision> &s3) {
+                         const dPoint<3, Precision> &s0, const dPoint<3, Precision> &s1, const dPoint<3, Precision> &s2, const dPoint<3, Precision> &s3,
+                         const bool strict = false) {
 
 //        Precision aex, bex, cex, dex;
 //        Precision aey, bey, cey, dey;
@@ -408,7 +414,11 @@ public:
 //
 //        det = (dlift * abc - clift * dab) + (blift * cda - alift * bcd);
 
-        return orientation(s0, s1, s2, s3) * Predicates<3, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), s3.coords.data(), p.coords.data()) >= 0;
+        // do not multiply the two, the product could underflow
+        const Precision orient = orientation(s0, s1, s2, s3);
+        const Precision inside = Predicates<3, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), s3.coords.data(), p.coords.data());
+
+        return orient == 0 || (inside == 0 ? !strict : (orient > 0) == (inside > 0));
     }
 
     static dSphere<3, Precision>
@@ -843,7 +853,7 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
                     if (dPoint<D,Precision>::isFinite(nn.vertices[d]) && !s.contains(nn.vertices[d])) {
                         // we have found the point of nn that is NOT shared with s
                         const auto &p = points[nn.vertices[d]];
-                        if (s.inSphere(p, points)) {
+                        if (s.inSphere(p, points, true)) {
                             LOG("Point " << nn.vertices[d] << " " << p << " is in circle of " << s << std::endl);
 
                             tbb::spin_mutex::scoped_lock lock(mtx);
-- 
2.43.0


From e79c07c10ce417c5f164cbee7ed02a0b2cc2320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:07 +0000
Subject: [PATCH 27/48] fix: self check missed or crashed on dangling neighbour
 links, and on point ids with an offset

---
 src/lib/Geometry.cpp | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 9e33933..2289d20 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -665,7 +665,8 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
                 }
             }
         } else {
-            for (std::size_t i = 0; i < points.finite_size(); ++i) {
+            const auto allPoints = points.range();
+            for (tIdType i = allPoints.begin(); i != allPoints.end(); ++i) {
                 const auto &p = points[i];
                 if (usedPoints.count(i) != 1 && dPoint<D, Precision>::isFinite(i)) {
                     sNotUsed << i << " - " << p << " ";
@@ -719,6 +720,13 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
 
         for (auto i = r.begin(); i != r.end(); ++i) {
 
+            if (!thisHandle.contains(convexHull[i])) {
+                tbb::spin_mutex::scoped_lock lock(mtx);
+                LOG("Convex hull contains unknown simplex " << convexHull[i] << std::endl);
+                result.valid = false;
+                continue;
+            }
+
             const dSimplex<D, Precision> &s = thisHandle.at(convexHull[i]);
             if (s.isFinite()) {
                 // s is finite but part of convex hull
@@ -796,6 +804,30 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
 
         for (const auto &a : r) {
 
+            // every link must lead to an existing simplex across a shared face, which links back
+            for (const auto &n : a.neighbors) {
+                if (!dSimplex<D, Precision>::isFinite(n))
+                    continue;
+
+                if (!thisHandle.contains(n)) {
+                    tbb::spin_mutex::scoped_lock lock(mtx);
+                    LOG("Neighbor " << n << " of " << a << " does not exist" << std::endl);
+                    result.valid = false;
+                    continue;
+                }
+
+                const dSimplex<D, Precision> &b = thisHandle.at(n);
+                if (!a.isNeighbor(b) ||
+                    std::count(a.neighbors.begin(), a.neighbors.end(), n) != 1 ||
+                    std::count(b.neighbors.begin(), b.neighbors.end(), a.id) != 1) {
+
+                    tbb::spin_mutex::scoped_lock lock(mtx);
+                    LOG("Wrong neighbor link between " << a << " and " << b << std::endl);
+                    result.wrongNeighbors.emplace_back(a, b);
+                    result.valid = false;
+                }
+            }
+
             // we already verified that the face where-used data structure is correct
             // we can use it to verify the neighbor relation
             for (uint i = 0; i < D + 1; ++i) {
@@ -845,8 +877,8 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
             // we check for all neighbors whether the NOT shared point is in the circle
 
             for (const auto &n : s.neighbors) {
-                if (!dSimplex<D, Precision>::isFinite(n))
-                    continue;
+                if (!dSimplex<D, Precision>::isFinite(n) || !thisHandle.contains(n))
+                    continue; // dangling links have already been reported
 
                 const dSimplex<D, Precision> &nn = thisHandle.at(n);
                 for (uint d = 0; d < D + 1; ++d) {
-- 
2.43.0


From fac2b68f57fa373b09b0d6718c64544156432f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:07 +0000
Subject: [PATCH 28/48] fix: cross check reported only the first missing
 simplex of each chunk and crashed on dangling links

---
 src/lib/Geometry.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 2289d20..9d4cbb4 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -562,17 +562,17 @@ CrossCheckReport<D, Precision> dSimplices<D, Precision>::crossCheck(
                 LOG("did not find simplex " << realSimplex << std::endl);
                 result.valid = false;
                 result.missing.push_back(realSimplex);
-                return;
+                continue;
             }
 
             // check neighbors
             for (const auto &n : realSimplex.neighbors) {
-                if (!dSimplex<D, Precision>::isFinite(n))
+                if (!dSimplex<D, Precision>::isFinite(n) || !realHandle.contains(n))
                     continue;
 
                 bool found = false;
                 for (const auto &nn : thisHandle.at(mySimplex->second).neighbors) {
-                    if (dSimplex<D, Precision>::isFinite(nn) &&
+                    if (dSimplex<D, Precision>::isFinite(nn) && thisHandle.contains(nn) &&
                         thisHandle.at(nn).equalVertices(realHandle[n])) {
                         found = true;
                         break;
-- 
2.43.0


From e213dd3d9d67a86309cc928696af5bc2f4362646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:39 +0000
Subject: [PATCH 29/48] fix: self check accepted simplices over points outside
 of the given ids

When the simplices use exactly the points of the container, the check of the
used points was skipped even if only some of the points had been given.
---
 src/lib/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 9d4cbb4..141c9fb 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -652,7 +652,7 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
     for (const auto &s : *this) {
         usedPoints.insert(s.vertices.begin(), s.vertices.end());
     }
-    if (points != usedPoints) {
+    if (pointIds || points != usedPoints) {
         // not all points of input used
         std::stringstream sNotUsed;
 
-- 
2.43.0


From 7632dbcd5d2c5de6b167c7f1f595f5931ca103fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:21 +0000
Subject: [PATCH 30/48] fix: geometric predicates were inexact when compiled
 for hardware with fused multiply-add

The build uses -march=native; contracting a product and a sum invalidates the
error terms of the exact arithmetic, and thus the sign of the predicates.
---
 src/utils/Predicates.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils/Predicates.cpp b/src/utils/Predicates.cpp
index fd6723c..f439301 100644
--- a/src/utils/Predicates.cpp
+++ b/src/utils/Predicates.cpp
@@ -113,6 +113,14 @@
 /*                                                                           */
 /*****************************************************************************/
 
+/* The error terms of sums and products are only correct if each operation is */
+/*   rounded on its own, i.e. not contracted to fused multiply-add.           */
+#if defined(__clang__)
+#pragma STDC FP_CONTRACT OFF
+#elif defined(__GNUC__)
+#pragma GCC optimize ("fp-contract=off")
+#endif
+
 #include <stdio.h>
 #include <stdlib.h>
 #include <math.h>
-- 
2.43.0


From 560568cb7651ade64dec218bd693e40d871fce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:13 +0000
Subject: [PATCH 31/48] fix: vector operators of Geometry.cpp clashed with the
 ones of VectorOperations.h

---
 src/lib/Geometry.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 141c9fb..ecf7c53 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -45,8 +45,9 @@ std::atomic<tIdType> dSimplices<D, Precision>::simplexID(1);
 /*****************************************************************************/
 
 // common operations
+// local to this file: VectorOperations.h has operators of the same name that subtract the other way round
 template<std::size_t D, typename Precision>
-Precision dot(const dVector<D, Precision> &a, const dVector<D, Precision> &b){
+static Precision dot(const dVector<D, Precision> &a, const dVector<D, Precision> &b){
     Precision r = 0;
     for(uint d = 0; d < D; ++d)
         r += a[d] * b[d];
@@ -54,7 +55,7 @@ Precision dot(const dVector<D, Precision> &a, const dVector<D, Precision> &b){
 }
 
 template<std::size_t D, typename Precision>
-dVector<D, Precision> operator+(const dVector<D, Precision> &a, const dVector<D, Precision> &b){
+static dVector<D, Precision> operator+(const dVector<D, Precision> &a, const dVector<D, Precision> &b){
     dVector<D, Precision> r = a;
     for(uint d = 0; d < D; ++d)
         r[d] += b[d];
@@ -62,7 +63,7 @@ dVector<D, Precision> operator+(const dVector<D, Precision> &a, const dVector<D,
 }
 
 template<std::size_t D, typename Precision>
-dVector<D, Precision> operator-(const dVector<D, Precision> &a, const dVector<D, Precision> &b){
+static dVector<D, Precision> operator-(const dVector<D, Precision> &a, const dVector<D, Precision> &b){
     dVector<D, Precision> r = b;
     for(uint d = 0; d < D; ++d)
         r[d] -= a[d];
-- 
2.43.0


From 9df6a7dfc7f5c42d44dd24936a751c14b6528297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:13 +0000
Subject: [PATCH 32/48] fix: vecToBox did not compile for float coordinates

---
 include/load_balancing/BoxUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/load_balancing/BoxUtils.h b/include/load_balancing/BoxUtils.h
index 5e7674a..d59780c 100644
--- a/include/load_balancing/BoxUtils.h
+++ b/include/load_balancing/BoxUtils.h
@@ -64,7 +64,7 @@ namespace LoadBalancing
     template <uint D, typename Precision>
     dVector<D, Precision> vecToLowerQuadrant(dVector<D, Precision> v) {        
         std::transform(begin(v), end(v), begin(v), [](Precision x) {
-            return std::max(x, 0.0);
+            return std::max(x, Precision(0));
         });
         return v;
     }
-- 
2.43.0


From 936b10a0b8f81dca666ebf549534d3c8e97d1e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:13 +0000
Subject: [PATCH 33/48] fix: rounding could put a point next to a cell border
 into a grid cell that does not contain it

---
 include/load_balancing/Grid.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/load_balancing/Grid.h b/include/load_balancing/Grid.h
index 06562a2..49a1d27 100644
--- a/include/load_balancing/Grid.h
+++ b/include/load_balancing/Grid.h
@@ -165,7 +165,15 @@ Precision Grid<D, Precision, IndexPrecision>::diagonalCellLength() const
 template <uint D, typename Precision, typename IndexPrecision>
 IndexPrecision Grid<D, Precision, IndexPrecision>::fitOneDimension(Precision x) const
 {
-	return std::floor(x/mCellWidth);
+	IndexPrecision i = std::floor(x/mCellWidth);
+
+	// the quotient is rounded: make sure that the cell contains x
+	if(x < i * mCellWidth)
+		--i;
+	else if(x >= (i + 1) * mCellWidth)
+		++i;
+
+	return i;
 }
 
 }
-- 
2.43.0


From 7711f4b39ff0972f03c5f3dd8a233bd46868ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:12 +0000
Subject: [PATCH 34/48] fix: box tree missed the grid cell of a point on the
 upper border of its bounds

---
 include/datastructures/AABBTree.h | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/include/datastructures/AABBTree.h b/include/datastructures/AABBTree.h
index 32adbc7..926f078 100644
--- a/include/datastructures/AABBTree.h
+++ b/include/datastructures/AABBTree.h
@@ -178,15 +178,15 @@ private:
         }
 
 //        printf("splitting (%.0f %.0f %.0f) (%.0f %.0f %.0f)\n", bounds.low[0], bounds.low[1], bounds.low[2], bounds.high[0], bounds.high[1], bounds.high[2]);
+        // half side length rounded down to nearest multiple of cell size
+        const LoadBalancing::Grid<D, Precision> grid(cell_size);
+        const auto mid = grid.boundsOf(grid.indexAt(bounds.low + Precision(0.5) * (bounds.high - bounds.low))).low;
+
         for (int i = 0; i < cChildren; ++i) {
             dBox<D, Precision> child;
             for (uint d = 0; d < D; ++d) {
-
-                // half side length rounded down to nearest multiple of cell size
-                Precision mid = std::floor((bounds.low[d] + (bounds.high[d] - bounds.low[d]) / 2) / cell_size) * cell_size;
-
-                child.low[d] = i & (1 << d) ? mid : bounds.low[d];
-                child.high[d] = i & (1 << d) ? bounds.high[d] : mid;
+                child.low[d] = i & (1 << d) ? mid[d] : bounds.low[d];
+                child.high[d] = i & (1 << d) ? bounds.high[d] : mid[d];
             }
 //            printf("\t%u: (%.0f %.0f %.0f) (%.0f %.0f %.0f)\n", i, child.low[0], child.low[1], child.low[2], child.high[0], child.high[1], child.high[2]);
             children[i] = std::make_unique<TreeNode<D, Precision>>(child, cell_size, false);
@@ -244,14 +244,12 @@ public:
 private:
     TreeNode<D, Precision> m_root;
 
-    static dBox<D, Precision> round(dBox<D, Precision> bounds, const Precision cell_size) {
+    static dBox<D, Precision> round(const dBox<D, Precision> &bounds, const Precision cell_size) {
 
-        // round bounds to cell size
-        for(uint d = 0; d < D; ++d){
-            bounds.low[d] = std::floor(bounds.low[d] / cell_size) * cell_size;
-            bounds.high[d] = std::ceil(bounds.high[d] / cell_size) * cell_size;
-        }
+        // grow bounds to the borders of the cells that hold its corners
+        const LoadBalancing::Grid<D, Precision> grid(cell_size);
 
-        return bounds;
+        return dBox<D, Precision>(grid.boundsOf(grid.indexAt(bounds.low)).low,
+                                  grid.boundsOf(grid.indexAt(bounds.high)).high);
     };
 };
-- 
2.43.0


From 40fc16625469a63bc0958dab1b75089ffac438c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:12 +0000
Subject: [PATCH 35/48] fix: partition makers wrote one vector<bool> from
 several threads

---
 include/load_balancing/BoundsIntersectionChecker.h | 2 +-
 include/load_balancing/GridIntersectionChecker.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/BoundsIntersectionChecker.h b/include/load_balancing/BoundsIntersectionChecker.h
index 75f31d0..792f43e 100644
--- a/include/load_balancing/BoundsIntersectionChecker.h
+++ b/include/load_balancing/BoundsIntersectionChecker.h
@@ -58,7 +58,7 @@ namespace LoadBalancing
 				idss.emplace_back(std::move(ids.data()));
 			}
 			std::vector<dBox<D, Precision>> boundss(partitions);
-			std::vector<bool> initialized(partitions);
+			std::vector<char> initialized(partitions, false); // not vector<bool>: written concurrently
 			
 			tbb::parallel_for(size_t(0), partitions, [&](auto partition) {
 			    for(auto id : idss[partition]) {
diff --git a/include/load_balancing/GridIntersectionChecker.h b/include/load_balancing/GridIntersectionChecker.h
index d1d1988..7e1bafb 100644
--- a/include/load_balancing/GridIntersectionChecker.h
+++ b/include/load_balancing/GridIntersectionChecker.h
@@ -124,7 +124,7 @@ namespace LoadBalancing
 				idss.emplace_back(std::move(ids.data()));
 			}
 			std::vector<dBox<D, Precision>> boundss(partitions);
-			std::vector<bool> initialized(partitions);
+			std::vector<char> initialized(partitions, false); // not vector<bool>: written concurrently
 			std::vector<std::unordered_set<dIndex<D, IndexPrecision>,
 				dIndexHasher<D, IndexPrecision>>> indices(partitions);
 			
-- 
2.43.0


From d5e3f0d6c34052eb879f8d8e21bcd0429d595918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:12 +0000
Subject: [PATCH 36/48] fix: accurate grid partition maker leaked the grid
 checkers

---
 include/load_balancing/AccurateGridIntersectionChecker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/load_balancing/AccurateGridIntersectionChecker.h b/include/load_balancing/AccurateGridIntersectionChecker.h
index c6a878b..527c4dd 100644
--- a/include/load_balancing/AccurateGridIntersectionChecker.h
+++ b/include/load_balancing/AccurateGridIntersectionChecker.h
@@ -137,7 +137,7 @@ namespace LoadBalancing
 			for(auto& partition : gridIntersectionPartitioning) {
 				auto intersectionChecker = std::move(partition.intersectionChecker);
 				auto gridIntersectionChecker =
-					*(dynamic_cast<GIC*>(intersectionChecker.release()));
+					std::move(*(dynamic_cast<GIC*>(intersectionChecker.get())));
 				partition.intersectionChecker =
 					std::make_unique<AGIC>(std::move(gridIntersectionChecker),
 					                       cellsPtr, points, ids);
-- 
2.43.0


From e9fb9a200731954528b5674b2a13c9331229e974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:41 +0000
Subject: [PATCH 37/48] fix: partition trees could not be assigned and trees
 without a border test could not be copied

---
 include/load_balancing/PartitionTree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/load_balancing/PartitionTree.h b/include/load_balancing/PartitionTree.h
index 1536757..c5fb2af 100644
--- a/include/load_balancing/PartitionTree.h
+++ b/include/load_balancing/PartitionTree.h
@@ -22,7 +22,8 @@ namespace LoadBalancing
 		PartitionTree() = default;
         
 		PartitionTree(const PartitionTree& obj)
-			: intersectionChecker(obj.intersectionChecker->copy()), attachment(obj.attachment)
+			: intersectionChecker(obj.intersectionChecker ? obj.intersectionChecker->copy() : nullptr),
+			  attachment(obj.attachment)
 		{
 		}
 
@@ -30,8 +31,7 @@ namespace LoadBalancing
 
 		PartitionTree& operator=(const PartitionTree& rhs)
 		{
-			intersectionChecker = rhs.intersectionChecker.copy();
-			attachment = rhs.attachment;
+			return *this = PartitionTree(rhs);
 		}
 
 		PartitionTree& operator=(PartitionTree&&) = default;
-- 
2.43.0


From d200d7c1ded0ec6b4c388a0b4da3d76409e0cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:41 +0000
Subject: [PATCH 38/48] fix: SimplePartitioner did not implement the
 partitioner interface

---
 include/load_balancing/SimplePartitioner.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/load_balancing/SimplePartitioner.h b/include/load_balancing/SimplePartitioner.h
index f7a0715..3e1e8a4 100644
--- a/include/load_balancing/SimplePartitioner.h
+++ b/include/load_balancing/SimplePartitioner.h
@@ -13,7 +13,8 @@ namespace LoadBalancing
     {        
         PartitionTree<D, Precision> partition(const dBox<D, Precision>& bounds,
                                         dPoints<D, Precision>& points,
-                                        const Point_Ids& pointIds) override
+                                        const Point_Ids& pointIds,
+                                        MonitorT& /*monitor*/) override
         {
             auto x = (bounds.low[0] + bounds.high[0])/2;            
             auto boxPair = splitBox(bounds, 0, x);
-- 
2.43.0


From 813caff5069a68bfbeaf8c8067bb20204c54a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:21 +0000
Subject: [PATCH 39/48] fix: sample bipartitioner produced inner nodes without
 a border test

---
 .../NearestSamplePointAssigningSampleBipartitioner.h          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h b/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
index 9a721f8..f457cff 100644
--- a/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
+++ b/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
@@ -48,6 +48,8 @@ namespace LoadBalancing
 		                                             std::string provenance,
 		                                             MonitorT& monitor) {
 			PartitionTree<D, Precision> result;
+			result.intersectionChecker =
+				std::make_unique<BoundsIntersectionChecker<D, Precision>>(bounds);
 			if(numPartitions > 1 && pointIds.size() > mBaseCutoff) {
 				using BasePartitioner
 					=	NearestSamplePointAssigningSamplePartitioner<D, Precision, UnpluggedMonitor>;
@@ -84,8 +86,6 @@ namespace LoadBalancing
 				result.attachment = typename decltype(tree)::ChildContainer {
 					std::move(leftTree), std::move(rightTree)};
 			} else {
-				result.intersectionChecker =
-					std::make_unique<BoundsIntersectionChecker<D, Precision>>(bounds);
 				result.attachment = pointIds;
 			}
 			return result;
-- 
2.43.0


From b50c64b820ba2c26593201172af9d8815e5f1206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:21 +0000
Subject: [PATCH 40/48] fix: load-balancing samples could be empty because
 artificial points were drawn

---
 include/load_balancing/sample_partitioner/Sampler.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/Sampler.h b/include/load_balancing/sample_partitioner/Sampler.h
index c07ad68..33ddbb2 100644
--- a/include/load_balancing/sample_partitioner/Sampler.h
+++ b/include/load_balancing/sample_partitioner/Sampler.h
@@ -159,14 +159,13 @@ namespace LoadBalancing
         template <typename Generator_t>
         Point_Ids generateSample(size_t sampleSize, const Point_Ids& pointIds, Generator_t& rand) {
 			VTUNE_TASK(GenerateSample);
+            std::vector<tIdType> finiteIds;
+            std::copy_if(pointIds.begin(), pointIds.end(), std::back_inserter(finiteIds), [](tIdType id) {
+                return dPoint<D, Precision>::isFinite(id);
+            });
             std::vector<tIdType> resultIds;
-            std::sample(pointIds.begin(), pointIds.end(), std::back_inserter(resultIds),
-                        sampleSize, rand);
-            resultIds.erase(std::remove_if(resultIds.begin(), resultIds.end(), [](tIdType id){
-                return !dPoint<D, Precision>::isFinite(id);
-                
-            }),
-            resultIds.end());
+            std::sample(finiteIds.begin(), finiteIds.end(), std::back_inserter(resultIds),
+                        std::max<size_t>(sampleSize, 1), rand);
             Point_Ids result;
             for(auto id : resultIds) {
 	            result.insert(id);
-- 
2.43.0


From dec9580fad3b2a52e2f4cc7fabf1c547a8e4d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:41 +0000
Subject: [PATCH 41/48] fix: hyperplane bipartitioner crashed when the sample
 had no border

---
 .../HyperplaneBipartitioner.h                 | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h b/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h
index 9b4b2d3..c21e30f 100644
--- a/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h
+++ b/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h
@@ -87,16 +87,24 @@ namespace LoadBalancing
 					matrix(i, D) = 1;
 				}
 
-				Eigen::JacobiSVD<Matrix> svd(matrix, Eigen::ComputeFullV);
-				Vector vector = svd.matrixV().col(D);
+				// without a border in the sample, or without a plane through it, cut the bounds in half
+				dVector<D, Precision> normal{};
+				normal[0] = 1;
+				Precision offset = (bounds.low[0] + bounds.high[0]) / 2;
+				if(m > 0) {
+					Eigen::JacobiSVD<Matrix> svd(matrix, Eigen::ComputeFullV);
+					Vector vector = svd.matrixV().col(D);
 
-				dVector<D, Precision> orthogonal;
-				for(size_t j = 0; j < D; ++j) {
-					orthogonal[j] = vector(j);
+					dVector<D, Precision> orthogonal;
+					for(size_t j = 0; j < D; ++j) {
+						orthogonal[j] = vector(j);
+					}
+
+					if(std::isnormal(len(orthogonal))) {
+						normal = 1/len(orthogonal) * orthogonal;
+						offset = -vector(D)/scalarProduct(normal, orthogonal);
+					}
 				}
-				
-				auto normal = 1/len(orthogonal) * orthogonal;
-				auto offset = -vector(D)/scalarProduct(normal, orthogonal);
 
 				// separate points
 				Concurrent_Growing_Point_Ids leftIdset(pointIds.size() / 2);
-- 
2.43.0


From 3cef30c7632e9182734a55a11276ed6b3eb5bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:51 +0000
Subject: [PATCH 42/48] fix: accurate grid border tests kept a pointer to the
 point ids they were made from

---
 .../load_balancing/AccurateGridIntersectionChecker.h   | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/load_balancing/AccurateGridIntersectionChecker.h b/include/load_balancing/AccurateGridIntersectionChecker.h
index 527c4dd..b538dd0 100644
--- a/include/load_balancing/AccurateGridIntersectionChecker.h
+++ b/include/load_balancing/AccurateGridIntersectionChecker.h
@@ -22,7 +22,6 @@ namespace LoadBalancing
 
 		private:
 		const dPoints<D, Precision>* points;
-		const Point_Ids* pointIds;
 		std::shared_ptr<CellsWithPoints> mCells;
 
 
@@ -41,11 +40,9 @@ namespace LoadBalancing
 
 		AccurateGridIntersectionChecker(GridIntersectionChecker<D, Precision> gic,
 		                                std::shared_ptr<CellsWithPoints> cells,
-		                                const dPoints<D, Precision>& points,
-		                                const Point_Ids& pointIds)
+		                                const dPoints<D, Precision>& points)
 			: GridIntersectionChecker<D, Precision>(std::move(gic)),
 			  points(&points),
-			  pointIds(&pointIds),
 			  mCells(std::move(cells)) { }
 		
 		virtual bool intersects(const dSphere<D, Precision>& sphere,
@@ -56,8 +53,7 @@ namespace LoadBalancing
 				auto it = mCells->find(cell);
 				assert(it != mCells->end());
 				for(tIdType pointId : it->second.pointIds) {
-					if(pointIds->contains(pointId)
-					   && checkCircumsphereContainsPoint((*points)[pointId], sphere, simplex))
+					if(checkCircumsphereContainsPoint((*points)[pointId], sphere, simplex))
 						return true;
 				}
 			}
@@ -140,7 +136,7 @@ namespace LoadBalancing
 					std::move(*(dynamic_cast<GIC*>(intersectionChecker.get())));
 				partition.intersectionChecker =
 					std::make_unique<AGIC>(std::move(gridIntersectionChecker),
-					                       cellsPtr, points, ids);
+					                       cellsPtr, points);
 			}
 
 			return gridIntersectionPartitioning;
-- 
2.43.0


From 20bcac1307b6c618e7036ecfb0ebb48bc9d45e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:28 +0000
Subject: [PATCH 43/48] fix: load-balanced triangulation merged parts without
 finite points and single-child inner nodes wrongly

---
 include/LoadBalancedDCTriangulator.tpp | 13 +++++++++++--
 include/load_balancing/PartitionTree.h | 12 ++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index 9adb3b8..106af0a 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -581,6 +581,15 @@ namespace LoadBalancing
 
         const auto& bounds = tree.intersectionChecker->bounds();
 
+        if (auto children = std::get_if<typename PartitionTree<D, Precision>::ChildContainer>(&tree.attachment)) {
+            // a part with artificial points only has no border towards the others
+            auto parts = std::stable_partition(children->begin(), children->end(),
+                                               [](const auto& child) { return child.hasFinitePoints(); });
+            if (parts == children->begin())
+                ++parts;
+            children->erase(parts, children->end());
+        }
+
         if (std::holds_alternative<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment)
                 && std::get<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment).size() > 1) {
             VTUNE_TASK(TriangulateRecursive);
@@ -686,8 +695,8 @@ namespace LoadBalancing
 
         } else { // base case
             if (std::holds_alternative<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment)){
-                return _triangulateBase(std::get<Point_Ids>(
-                        std::get<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment)[0].attachment), bounds, provenance, mParallelBaseCase);
+                return recursiveTriangulate(std::move(
+                        std::get<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment)[0]), provenance);
             } else {
                 return _triangulateBase(std::get<Point_Ids>(tree.attachment), bounds, provenance, mParallelBaseCase);
             }
diff --git a/include/load_balancing/PartitionTree.h b/include/load_balancing/PartitionTree.h
index c5fb2af..e5aebe6 100644
--- a/include/load_balancing/PartitionTree.h
+++ b/include/load_balancing/PartitionTree.h
@@ -66,6 +66,18 @@ namespace LoadBalancing
 			std::visit(visitor, attachment);
 		}
         
+        bool hasFinitePoints() const {
+            if(auto children = std::get_if<ChildContainer>(&attachment)) {
+                return std::any_of(children->begin(), children->end(), [](const auto& child) {
+                    return child.hasFinitePoints();
+                });
+            }
+            const auto& ids = std::get<Point_Ids>(attachment);
+            return std::any_of(ids.begin(), ids.end(), [](tIdType id) {
+                return dPoint<D, Precision>::isFinite(id);
+            });
+        }
+
         bool isLeaf() const {
             return std::holds_alternative<Point_Ids>(attachment);
         }
-- 
2.43.0


From 170447806f1f3dae9e52baaab4ffd18deb2e4374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:51 +0000
Subject: [PATCH 44/48] fix: load-balanced triangulation missed borders that
 are not connected to the convex hull

---
 include/LoadBalancedDCTriangulator.tpp | 67 ++++++++------------------
 1 file changed, 21 insertions(+), 46 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index 106af0a..0c6f91e 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -137,64 +137,39 @@ namespace LoadBalancing
                 tbb::cache_aligned_allocator<hConcurrent_Growing_Simplex_Ids>,
                 tbb::ets_key_usage_type::ets_key_per_instance> tsEdgeSimplicesHandle(std::ref(edgeSimplices));
 
-        tbb::enumerable_thread_specific<dSimplicesConstHandle<D, Precision>,
-                tbb::cache_aligned_allocator<dSimplicesConstHandle<D, Precision>>,
-                tbb::ets_key_usage_type::ets_key_per_instance> tsSimplicesHandle(std::ref(simplices));
-
-
-        tMarkType queuedMark = ++simplices.mark;
-        tMarkType doneMark = ++simplices.mark;
-        ASSERT(queuedMark < doneMark);
-
-        /* Walk along the neighbors,
-        * testing for each neighbor whether its circumsphere is within the
-        * partition or not
+        /* Test for each simplex whether its circumsphere reaches into another partition.
+        * Partitions can enclose each other, so the simplices of the edge need not be
+        * connected to the convex hull.
         */
 
         INDENT
 
         VTUNE_TASK(IdentifyEdge);
-        tbb::parallel_do(simplices.convexHull, [&](const tIdType id,
-                                                tbb::parallel_do_feeder<tIdType> &feeder) {
-
-            if (!dSimplex<D, Precision>::isFinite(id))
-                return;
+        tbb::parallel_for(simplices.range(), [&](auto &r) {
 
             auto &edgePointsHandle = tsEdgePointsHandle.local();
             auto &edgeSimplicesHandle = tsEdgeSimplicesHandle.local();
 
-            auto &simplicesHandle = tsSimplicesHandle.local();
-
-            const auto &simplex = simplicesHandle[id];
-
-
-            if (simplex.mark == doneMark) {
-                return; //already checked
-            }
-            simplex.mark = doneMark;
-
-            const auto cs = simplex.circumsphere(this->points);
-            bool intersectsBounds = false;
-            for (uint i = 0; i < partitioning.size() && !intersectsBounds; ++i) {
-                if (i != partition && intersectionCheckers[i]->intersects(cs, simplex))
-                    intersectsBounds = true;
-            }
-            if (intersectsBounds) {
-
-                PLOG("Adding " << simplex
-                    << " to edge -> circumcircle criterion"
-                    << std::endl);
-                edgeSimplicesHandle.insert(simplex.id);
+            // we need an explicit iterator loop here for the it < r.end() comparision
+            // range-based for loop uses it != r.end() which doesn't work
+            for (auto it = r.begin(); it < r.end(); ++it) {
+                const auto &simplex = *it;
 
-                for (uint i = 0; i < D + 1; ++i) {
-                    edgePointsHandle.insert(simplex.vertices[i]);
+                const auto cs = simplex.circumsphere(this->points);
+                bool intersectsBounds = false;
+                for (uint i = 0; i < partitioning.size() && !intersectsBounds; ++i) {
+                    if (i != partition && intersectionCheckers[i]->intersects(cs, simplex))
+                        intersectsBounds = true;
                 }
+                if (intersectsBounds) {
+
+                    PLOG("Adding " << simplex
+                        << " to edge -> circumcircle criterion"
+                        << std::endl);
+                    edgeSimplicesHandle.insert(simplex.id);
 
-                for (const auto &n : simplex.neighbors) {
-                    if (dSimplex<D, Precision>::isFinite(n) && simplicesHandle[n].mark < queuedMark) {
-                        // n was not yet inspected
-                        simplicesHandle[n].mark = queuedMark;
-                        feeder.add(n);
+                    for (uint i = 0; i < D + 1; ++i) {
+                        edgePointsHandle.insert(simplex.vertices[i]);
                     }
                 }
             }
-- 
2.43.0


From c2c771f5cc7bf544558851b184a1cfa2aaa682df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:45 +0000
Subject: [PATCH 45/48] fix: weights of the sample graph were scaled by a
 truncated integer

---
 include/load_balancing/sample_partitioner/Sampler.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/Sampler.h b/include/load_balancing/sample_partitioner/Sampler.h
index 33ddbb2..c499eed 100644
--- a/include/load_balancing/sample_partitioner/Sampler.h
+++ b/include/load_balancing/sample_partitioner/Sampler.h
@@ -23,7 +23,7 @@ namespace LoadBalancing
 	struct Mapper
 	{
 		Mapper(In minIn, In maxIn, Out minOut, Out maxOut)
-			: minIn(minIn), maxIn(maxIn), minOut(minOut), maxOut(maxOut), scale((maxOut - minOut)/(maxIn - minIn))
+			: minIn(minIn), maxIn(maxIn), minOut(minOut), maxOut(maxOut), scale(static_cast<In>(maxOut - minOut)/(maxIn - minIn))
 		{
 			assert(minIn < maxIn);
 		}
@@ -36,7 +36,7 @@ namespace LoadBalancing
 	private:
 		const In minIn, maxIn;
 		const Out minOut, maxOut;
-		const Out scale;
+		const In scale;
 	};
 	
     struct Graph {
-- 
2.43.0


From 76ed1b1e8d878a189c9827cd3e0c3ee0aa1ed738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:27 +0000
Subject: [PATCH 46/48] fix: bubble generator left points unset if their number
 is not divisible by the number of bubbles

---
 include/utils/Generator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index b71252d..8f84792 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -149,7 +149,6 @@ protected:
             }
         }
 
-        tIdType ppB = n / bubbles.size(); // points per bubble
         for(uint b = 0; b < bubbles.size(); ++b) {
             const auto & bubble = bubbles[b];
 
@@ -161,7 +160,8 @@ protected:
                 span[d] -= bubble.low[d];
             }
 
-            for (tIdType i = b*ppB + 1; i <= (b+1)*ppB; ++i) {
+            // the points are spread evenly over the bubbles, also if their number is not divisible
+            for (tIdType i = n * b / bubbles.size() + 1; i <= n * (b + 1) / bubbles.size(); ++i) {
                 dPoint<D, Precision> p;
 
                 do {
-- 
2.43.0


From fc64d5ef728b0d44a85a3cf9053a6959ec5ec11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:27 +0000
Subject: [PATCH 47/48] fix: skew line generator left the last of an odd number
 of points unset

---
 include/utils/Generator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index 8f84792..6a669c6 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -274,7 +274,7 @@ protected:
         // a is skewed
         // b crosses the opposite corner
 
-        for (tIdType i = 1; i < n; i += 2) {
+        for (tIdType i = 1; i <= n; i += 2) {
             dPoint<D, Precision> p1, p2;
 
             Precision r = dice();
@@ -286,7 +286,8 @@ protected:
 
 
             points[i] = std::move(p1);
-            points[i + 1] = std::move(p2);
+            if (i < n)
+                points[i + 1] = std::move(p2);
         }
 
         // TODO checks for colliding points, straight lines, etc.
-- 
2.43.0


From db7790f1d4884d579b09cb59d57eb60f4745e097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:27 +0000
Subject: [PATCH 48/48] fix: unbound and malicious bubble generators stored
 their points under the ids zero to n-1

---
 include/load_balancing/MaliciousBubbleGenerator.h | 4 ++--
 include/load_balancing/UnboundBubbleGenerator.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/load_balancing/MaliciousBubbleGenerator.h b/include/load_balancing/MaliciousBubbleGenerator.h
index 15b1186..5af6958 100644
--- a/include/load_balancing/MaliciousBubbleGenerator.h
+++ b/include/load_balancing/MaliciousBubbleGenerator.h
@@ -31,8 +31,8 @@ protected:
                   
         std::normal_distribution<Precision> pointDist(0.0, 0.5);
         
-        for(size_t i = 0; i < n; ++i) {
-            size_t centerIndex = i * ((float)mNumBubbles / n);
+        for(tIdType i = 1; i <= n; ++i) {
+            size_t centerIndex = (i - 1) * mNumBubbles / n;
             const auto& center = bubbleCenters[centerIndex];
             const auto& radius = bubbleRadiuses[centerIndex];
                   
diff --git a/include/load_balancing/UnboundBubbleGenerator.h b/include/load_balancing/UnboundBubbleGenerator.h
index 6c274c0..26ce75a 100644
--- a/include/load_balancing/UnboundBubbleGenerator.h
+++ b/include/load_balancing/UnboundBubbleGenerator.h
@@ -53,8 +53,8 @@ protected:
             return v;
         });
         
-        for(size_t i = 0; i < n; ++i) {
-            size_t centerIndex = i * ((float)mNumBubbles / n);
+        for(tIdType i = 1; i <= n; ++i) {
+            size_t centerIndex = (i - 1) * mNumBubbles / n;
             
             dVector<D, Precision> coords;
             std::generate(coords.begin(), coords.end(), [&pointDist, &gen]() -> auto {
-- 
2.43.0

