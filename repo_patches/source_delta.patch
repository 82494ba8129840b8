From 92b9b6c8023a13e090a65d6aa7cae3996eb9c6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 01/48] fix: btree::map const end()/crend() recursed into each
 other forever

---
 include/indexes/btree/map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index f37acdf..5ee9a74 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -894,7 +894,7 @@ public:
 
   inline const_iterator cbegin() const { return {this, get_first_leaf(), 0}; }
 
-  inline const_iterator cend() const { return end(); }
+  inline const_iterator cend() const { return {this, nullptr, 0}; }
 
   inline const_iterator begin() const { return cbegin(); }
 
@@ -912,7 +912,7 @@ public:
     return {this, leaf, leaf->num_values - 1};
   }
 
-  inline const_reverse_iterator crend() const { return end(); }
+  inline const_reverse_iterator crend() const { return {this, nullptr, 0}; }
 
   inline const_reverse_iterator rbegin() const { return crbegin(); }
 
-- 
2.43.0


From fde77e9869c708bf918c516ee9f18f68cc5491c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:53 +0000
Subject: [PATCH 02/48] fix: btree::map released its nodes with a delete that
 does not match their allocation

---
 include/indexes/btree/map.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 5ee9a74..5395e06 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -80,9 +80,12 @@ private:
 
     static void free(node_t *node) {
       if (node->isLeaf())
-        delete ASLEAF(node);
+        ASLEAF(node)->~leaf_node_t();
       else
-        delete ASINNER(node);
+        ASINNER(node)->~inner_node_t();
+
+      // Nodes are placed in a char array, see alloc()
+      delete[] reinterpret_cast<char *>(node);
     }
   };
 
-- 
2.43.0


From b1cda52ccd7e866787588a44969e7cd0c9711967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:48 +0000
Subject: [PATCH 03/48] fix: btree::map inserted a key without constructing its
 value

---
 include/indexes/btree/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 5395e06..122da23 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -265,7 +265,7 @@ private:
         int current_value_offset =
             this->last_value_offset - sizeof(key_value_t);
 
-        new (opaque() + current_value_offset) key_type{key};
+        new (opaque() + current_value_offset) key_value_t{key, value_t{}};
 
         std::copy_backward(slots + pos, slots + this->num_values,
                            slots + this->num_values + 1);
-- 
2.43.0


From fda4f03ec74220698449eab54e0c216a5a32f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:48 +0000
Subject: [PATCH 04/48] fix: btree::map rbegin()/crbegin() dereferenced a null
 leaf on an empty map

---
 include/indexes/btree/map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 122da23..7ec711e 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -905,14 +905,14 @@ public:
 
   inline reverse_iterator rbegin() {
     auto leaf = get_last_leaf();
-    return {this, leaf, leaf->num_values - 1};
+    return {this, leaf, leaf ? leaf->num_values - 1 : 0};
   }
 
   inline reverse_iterator rend() { return end(); }
 
   inline const_reverse_iterator crbegin() const {
     auto leaf = get_last_leaf();
-    return {this, leaf, leaf->num_values - 1};
+    return {this, leaf, leaf ? leaf->num_values - 1 : 0};
   }
 
   inline const_reverse_iterator crend() const { return {this, nullptr, 0}; }
-- 
2.43.0


From 32f685365189aef5268498b3aedad055838ed103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:34 +0000
Subject: [PATCH 05/48] fix: btree::map iteration dereferenced leaves emptied
 by erase

---
 include/indexes/btree/map.h | 47 +++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 7ec711e..4ce48c6 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -725,27 +725,22 @@ public:
 
     friend class map;
 
+    // Leaves emptied by erase can stay in the tree, step over them.
     void increment() {
-      if (++m_curslot >= m_leaf->num_values) {
-        if (this->m_leaf->highkey) {
-          m_leaf = m_bt->get_next_leaf(m_leaf);
-          m_curslot = 0;
-        } else {
-          m_leaf = nullptr;
-          m_curslot = 0;
-        }
+      m_curslot++;
+
+      while (m_leaf && m_curslot >= m_leaf->num_values) {
+        m_leaf = m_leaf->highkey ? m_bt->get_next_leaf(m_leaf) : nullptr;
+        m_curslot = 0;
       }
     }
 
     void decrement() {
-      if (--m_curslot < 0) {
-        if (this->m_leaf->lowkey) {
-          m_leaf = m_bt->get_prev_leaf(this->m_leaf);
-          m_curslot = m_leaf->num_values - 1;
-        } else {
-          m_leaf = nullptr;
-          m_curslot = 0;
-        }
+      m_curslot--;
+
+      while (m_leaf && m_curslot < 0) {
+        m_leaf = m_leaf->lowkey ? m_bt->get_prev_leaf(m_leaf) : nullptr;
+        m_curslot = m_leaf ? m_leaf->num_values - 1 : 0;
       }
     }
 
@@ -891,11 +886,19 @@ public:
     return end();
   }
 
-  inline iterator begin() { return {this, get_first_leaf(), 0}; }
+  inline iterator begin() {
+    iterator it = {this, get_first_leaf(), 0};
+
+    return it.m_leaf && !it.m_leaf->num_values ? ++it : it;
+  }
 
   inline iterator end() { return {this, nullptr, 0}; }
 
-  inline const_iterator cbegin() const { return {this, get_first_leaf(), 0}; }
+  inline const_iterator cbegin() const {
+    const_iterator it = {this, get_first_leaf(), 0};
+
+    return it.m_leaf && !it.m_leaf->num_values ? ++it : it;
+  }
 
   inline const_iterator cend() const { return {this, nullptr, 0}; }
 
@@ -905,14 +908,18 @@ public:
 
   inline reverse_iterator rbegin() {
     auto leaf = get_last_leaf();
-    return {this, leaf, leaf ? leaf->num_values - 1 : 0};
+    reverse_iterator it = {this, leaf, leaf ? leaf->num_values - 1 : 0};
+
+    return leaf && !leaf->num_values ? ++it : it;
   }
 
   inline reverse_iterator rend() { return end(); }
 
   inline const_reverse_iterator crbegin() const {
     auto leaf = get_last_leaf();
-    return {this, leaf, leaf ? leaf->num_values - 1 : 0};
+    const_reverse_iterator it = {this, leaf, leaf ? leaf->num_values - 1 : 0};
+
+    return leaf && !leaf->num_values ? ++it : it;
   }
 
   inline const_reverse_iterator crend() const { return {this, nullptr, 0}; }
-- 
2.43.0


From 5ed4ff06fecbbb0b20009e6c6435768e95c08ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:34 +0000
Subject: [PATCH 06/48] fix: btree::map iterators could not step back from
 end()/rend()

---
 include/indexes/btree/map.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 4ce48c6..2a646ee 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -727,6 +727,9 @@ public:
 
     // Leaves emptied by erase can stay in the tree, step over them.
     void increment() {
+      if (!m_leaf && (m_leaf = m_bt->get_first_leaf()))
+        m_curslot = -1;
+
       m_curslot++;
 
       while (m_leaf && m_curslot >= m_leaf->num_values) {
@@ -736,6 +739,9 @@ public:
     }
 
     void decrement() {
+      if (!m_leaf && (m_leaf = m_bt->get_last_leaf()))
+        m_curslot = m_leaf->num_values;
+
       m_curslot--;
 
       while (m_leaf && m_curslot < 0) {
-- 
2.43.0


From dc13e139aac6f401c4816096487e8b8e3b297f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:24 +0000
Subject: [PATCH 07/48] fix: btree::map never destroyed erased keys and values

Nodes were located through their first key, which had to outlive the
entry it belonged to. Locate them through their lowkey instead.
---
 include/indexes/btree/map.h | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 2a646ee..c34a293 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -171,13 +171,6 @@ private:
       return slot == 0 ? get_first_child() : get_key_value(slot)->second;
     }
 
-    inline const Key &get_first_key() const {
-      if constexpr (IsInner())
-        return get_key_value(1)->first;
-      else
-        return get_key_value(0)->first;
-    }
-
     INNER_ONLY
     inline value_t get_first_child() const {
       value_t *valptr = reinterpret_cast<value_t *>(&get_key_value(0)->first);
@@ -335,6 +328,8 @@ private:
     void remove(int pos) {
       int *slots = get_slots();
 
+      get_key_value(pos)->~key_value_t();
+
       std::copy(slots + pos + 1, slots + this->num_values, slots + pos);
 
       this->num_values--;
@@ -471,12 +466,18 @@ private:
     m_root = new_root;
   }
 
+  // Position of the child of inner, under which node is located. Nodes are
+  // located using their lowkey, which (unlike their first key) never changes.
+  template <typename Node>
+  static int search_child_pos(const inner_node_t *inner, const Node *node) {
+    return node->lowkey ? inner->search_inner(*node->lowkey) : 0;
+  }
+
   template <typename Node> inner_node_t *find_parent(Node *node) const {
-    const Key &key = node->get_first_key();
     inner_node_t *parent = nullptr;
 
     for (auto *current = m_root; current && current->isInner();
-         current = ASINNER(current)->get_child_for_key(key)) {
+         current = parent->get_child(search_child_pos(parent, node))) {
       if (current == node)
         break;
 
@@ -497,7 +498,7 @@ private:
     if (parent == nullptr)
       return std::nullopt;
 
-    int pos = parent->search_inner(node->get_first_key());
+    int pos = search_child_pos(parent, node);
 
     if (pos == 0)
       return std::nullopt;
@@ -542,7 +543,7 @@ private:
     NodeSplitInfo<Node> splitinfo = node->split();
 
     if (node != m_root) {
-      int left_pos = parent->search_inner(node->get_first_key());
+      int left_pos = search_child_pos(parent, node);
       int right_pos = left_pos + 1;
 
       parent->update(left_pos, splitinfo.left);
@@ -565,7 +566,7 @@ private:
     Node *new_node = node->trim();
 
     if (node != m_root) {
-      int pos = parent->search_inner(node->get_first_key());
+      int pos = search_child_pos(parent, node);
 
       parent->update(pos, new_node);
     } else {
-- 
2.43.0


From e7fec79b2d455ea99b35b4292384fac04a591886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:33 +0000
Subject: [PATCH 08/48] fix: enter_epoch did not order its announcement before
 later reads

A release store followed by an acquire fence may be delayed past the loads
of shared pointers (store buffering), so a reclaimer could miss the reader.
---
 include/indexes/utils/EpochManager.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 352397a..8bb2a17 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -46,7 +46,8 @@ public:
 
     if (pd.nested_level == 0) {
       pd.epoch.store(now(), std::memory_order_release);
-      std::atomic_thread_fence(std::memory_order_acquire);
+      // The announcement must be visible before any shared object is read.
+      std::atomic_thread_fence(std::memory_order_seq_cst);
     }
     pd.nested_level++;
   }
-- 
2.43.0


From be4864ef01e147817cf9bce7138422a6970d3ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:33 +0000
Subject: [PATCH 09/48] fix: get_min_used_epoch re-read the minimum after
 choosing it

The chosen thread could leave its epoch in between, making everything look
reclaimable although other threads are still inside older epochs.
---
 include/indexes/utils/EpochManager.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 8bb2a17..ca5aa65 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -190,13 +190,14 @@ private:
   }
 
   epoch_t get_min_used_epoch() {
-    return std::min_element(std::begin(m_local_epoch),
-                            std::begin(m_local_epoch) +
-                                ThreadRegistry::MaxThreadID() + 1,
-                            [](const auto &a, const auto &b) {
-                              return a.epoch.load() < b.epoch.load();
-                            })
-        ->epoch;
+    epoch_t min_used_epoch = QUIESCENT_STATE;
+
+    // Read each epoch only once, it can change at any time.
+    for (int id = 0, max_id = ThreadRegistry::MaxThreadID(); id <= max_id; id++)
+      min_used_epoch =
+          std::min<epoch_t>(min_used_epoch, m_local_epoch[id].epoch.load());
+
+    return min_used_epoch;
   }
 
   void retire(std::function<void(ReclaimedPtrType object)> reclaimer,
-- 
2.43.0


From a07923f041fc4d89da316c169f0c42744ec69333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:33 +0000
Subject: [PATCH 10/48] fix: EpochManager leaked the objects still retired when
 it was destroyed

---
 include/indexes/utils/EpochManager.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index ca5aa65..ef964a6 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -140,6 +140,9 @@ public:
         m_local_epoch(ThreadRegistry::MAX_THREADS),
         m_retire_list(ThreadRegistry::MAX_THREADS) {}
 
+  // Nobody can be using the objects, when the manager is destroyed.
+  ~EpochManager() { reclaim_all(); }
+
   EpochManager(const EpochManager &) = delete;
   EpochManager(EpochManager &&) = delete;
 
-- 
2.43.0


From 091275184a44c27d2826a6820dbc8d4d1f4e7cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 11/48] fix: hash table recursed forever when doubling its size
 did not help

An overflowing insert migrated to a table for twice the live entries, which can
be of the size that just overflowed. Grow unless there were tomb stones to drop.
A table abandoned because it overflowed during migration is released.
---
 include/indexes/hashtable/concurrent_map.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index d9dd299..a5ade24 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -350,7 +350,7 @@ private:
   }
 
   bool try_migrate_table(size_t new_num_buckets) {
-    auto *new_ht = new HashTable{new_num_buckets};
+    auto new_ht = std::make_unique<HashTable>(new_num_buckets);
     auto *old_ht = ht.load();
     size_t old_num_buckets = old_ht->num_buckets;
 
@@ -374,7 +374,7 @@ private:
       }
     }
 
-    ht.store(new_ht);
+    ht.store(new_ht.release());
     m_gc.retire_in_new_epoch(
         [&](void *ptr) { delete reinterpret_cast<HashTable *>(ptr); },
         reinterpret_cast<void *>(old_ht));
@@ -393,9 +393,17 @@ private:
     if (migration_lock) {
       is_migration_in_progress = true;
 
-      if (new_num_buckets == 0)
+      if (new_num_buckets == 0) {
+        HashTable &old_ht = *ht.load();
+
         new_num_buckets = size() * 2;
 
+        // Without tomb stones to get rid of, only a bigger table helps.
+        if (old_ht.get_stats().second == 0)
+          new_num_buckets =
+              std::max(new_num_buckets, old_ht.num_buckets * 2);
+      }
+
       new_num_buckets = next_pow_2(new_num_buckets);
 
       while (!try_migrate_table(new_num_buckets)) {
-- 
2.43.0


From f71c4bf02d5fceee1d3495c65684124565c8e755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 12/48] fix: hash table lost entries linked concurrently behind
 the same bucket

Two inserts could find the same end of a chain, take different free buckets and
overwrite each other's link, or both insert the same key. Link a new bucket only
while holding the lock of the bucket it is linked to, if that still is the end.
---
 include/indexes/hashtable/concurrent_map.h | 28 ++++++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index a5ade24..7a0d834 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -283,6 +283,8 @@ private:
     struct InsertSearchResult {
       InsertResult res;
       MutexLock lock;
+      // Lock of the bucket, which will be linked to the new bucket.
+      MutexLock tail_lock;
       typename Traits::LinkType bucket_link;
       SearchResult sres;
     };
@@ -299,27 +301,39 @@ private:
 
           if (buckets[sres.bucket].has_value()) {
             return {InsertResult::InsertResult_AlreadyPresent, std::move(lock),
-                    0, sres};
+                    {}, 0, sres};
           } else {
             continue;
           }
         }
 
         if (auto bucket_link = get_bucket_to_insert(sres)) {
-          sres.bucket = add_bucket_circular(sres.bucket, *bucket_link);
+          MutexLock tail_lock{link[sres.bucket].m};
+          MutexLock lock;
 
-          MutexLock lock{link[sres.bucket].m};
+          // The end of the chain cannot change anymore. Make sure it still is
+          // the end and nobody has inserted the key since it was searched.
+          if (*sres.link || search(key).first)
+            continue;
+
+          // The end of a chain is never a free bucket, and never becomes one.
+          // So bucket locks are always acquired in the order in which the
+          // buckets were occupied.
+          if (*bucket_link) {
+            sres.bucket = add_bucket_circular(sres.bucket, *bucket_link);
+            lock = MutexLock{link[sres.bucket].m};
+          }
 
           if (buckets[sres.bucket].is_free()) {
             increment_num_values();
 
             return {InsertResult::InsertResult_New, std::move(lock),
-                    *bucket_link, sres};
+                    std::move(tail_lock), *bucket_link, sres};
           } else {
             continue;
           }
         } else {
-          return {InsertResult::InsertResult_Overflow, {}, 0, sres};
+          return {InsertResult::InsertResult_Overflow, {}, {}, 0, sres};
         }
       };
     }
@@ -454,6 +468,8 @@ public:
       if (is_migration_in_progress) {
         if (ires.lock)
           ires.lock.unlock();
+        if (ires.tail_lock)
+          ires.tail_lock.unlock();
 
         wait_for_migration_to_end();
         continue;
@@ -486,6 +502,8 @@ public:
       if (is_migration_in_progress) {
         if (ires.lock)
           ires.lock.unlock();
+        if (ires.tail_lock)
+          ires.tail_lock.unlock();
 
         wait_for_migration_to_end();
         continue;
-- 
2.43.0


From 7f53995447f077fa259006945accf2388e75e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 13/48] fix: hash table writers could modify a table that was
 already replaced

A writer that picked up the table before a migration and locked its bucket after
the migration had finished wrote to the retired table.
---
 include/indexes/hashtable/concurrent_map.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 7a0d834..d3b844a 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -396,6 +396,11 @@ private:
     return true;
   }
 
+  // Buckets of `a_ht` must not be modified, if they are being or were migrated.
+  bool is_stale(const HashTable &a_ht) const {
+    return is_migration_in_progress || this->ht.load() != &a_ht;
+  }
+
   void wait_for_migration_to_end() {
     std::lock_guard<sync_prim::mutex::Mutex> migration_lock{migration_mutex};
   }
@@ -465,7 +470,7 @@ public:
       HashTable &ht = *this->ht.load();
       auto ires = ht.insert(key);
 
-      if (is_migration_in_progress) {
+      if (is_stale(ht)) {
         if (ires.lock)
           ires.lock.unlock();
         if (ires.tail_lock)
@@ -499,7 +504,7 @@ public:
       HashTable &ht = *this->ht.load();
       auto ires = ht.insert(key);
 
-      if (is_migration_in_progress) {
+      if (is_stale(ht)) {
         if (ires.lock)
           ires.lock.unlock();
         if (ires.tail_lock)
@@ -539,7 +544,7 @@ public:
       if (found) {
         typename HashTable::MutexLock lock{ht.link[sres.bucket].m};
 
-        if (is_migration_in_progress) {
+        if (is_stale(ht)) {
           lock.unlock();
           wait_for_migration_to_end();
           continue;
@@ -568,7 +573,7 @@ public:
 
         typename HashTable::MutexLock lock{ht.link[sres.bucket].m};
 
-        if (is_migration_in_progress) {
+        if (is_stale(ht)) {
           lock.unlock();
           wait_for_migration_to_end();
           continue;
-- 
2.43.0


From 34a266f707c006a69abdf2a300f1311decc57065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 14/48] fix: hash table leaked deleted entries and touched
 replaced tables

Delete retired a pointer into the bucket array, which may be released before the
pointer is reclaimed, to destroy an entry which was never destroyed as it already
was marked as deleted. Deleted entries now live as long as their table.
---
 include/indexes/hashtable/concurrent_map.h | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index d3b844a..06a1d24 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -119,7 +119,7 @@ private:
       }
 
       void destroy() {
-        if (has_value())
+        if (!is_free())
           key_value.~KeyValuePair();
       }
 
@@ -584,13 +584,6 @@ public:
 
           bucket.mark_as_empty();
           ht.increment_num_tomb_stones();
-
-          m_gc.retire_in_new_epoch(
-              [&](void *ptr) {
-                reinterpret_cast<typename HashTable::HashBucket *>(ptr)
-                    ->destroy();
-              },
-              reinterpret_cast<void *>(&bucket));
         } else {
           continue;
         }
-- 
2.43.0


From ed701c66eb3755dd8f7c19517e8136b85254501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 15/48] fix: hash table leaked its buckets when destroyed

---
 include/indexes/hashtable/concurrent_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 06a1d24..729e44f 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -450,6 +450,8 @@ public:
     o_map.ht.store(nullptr);
   }
 
+  ~concurrent_map() { delete ht.load(); }
+
   void reserve(size_t num_values) { migrate_table(num_values * 2); }
 
   std::optional<mapped_type> Search(const key_type &key) {
-- 
2.43.0


From 0ddcf9917a8969289fdeb7700ce680cbdd854253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 16/48] fix: hash table statistics were read without protection
 from reclamation

---
 include/indexes/hashtable/concurrent_map.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 729e44f..e6e1152 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -344,12 +344,12 @@ private:
   sync_prim::mutex::Mutex migration_mutex;
   std::atomic<int> num_migrations;
 
-  indexes::utils::EpochManager<uint64_t, void> m_gc;
+  mutable indexes::utils::EpochManager<uint64_t, void> m_gc;
 
   struct EpochGuard {
-    concurrent_map *map;
+    const concurrent_map *map;
 
-    EpochGuard(concurrent_map *a_map) : map(a_map) { map->m_gc.enter_epoch(); }
+    EpochGuard(const concurrent_map *a_map) : map(a_map) { map->m_gc.enter_epoch(); }
 
     ~EpochGuard() { map->m_gc.exit_epoch(); }
   };
@@ -596,6 +596,8 @@ public:
   }
 
   size_t size() const {
+    EpochGuard eg{this};
+
     std::atomic_thread_fence(std::memory_order_seq_cst);
 
     auto [num_values, num_tomb_stones] = ht.load()->get_stats();
@@ -604,6 +606,7 @@ public:
   }
 
   int load_factor() const {
+    EpochGuard eg{this};
     HashTable &ht = *this->ht.load();
     auto [num_values, num_tomb_stones] = ht.get_stats();
 
-- 
2.43.0


From 6fa28b7e6de7543ed867521f7852901fcdcc4c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 17/48] fix: hash table counted an insert again when retried
 after a migration

The entry was counted when its bucket was found. A writer that found a bucket of
the new table while the migration was still being finished counted it and then
started over.
---
 include/indexes/hashtable/concurrent_map.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index e6e1152..9ca483b 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -325,8 +325,6 @@ private:
           }
 
           if (buckets[sres.bucket].is_free()) {
-            increment_num_values();
-
             return {InsertResult::InsertResult_New, std::move(lock),
                     std::move(tail_lock), *bucket_link, sres};
           } else {
@@ -359,6 +357,7 @@ private:
                                      typename Traits::LinkType bucket_link,
                                      const key_type &key,
                                      const mapped_type &val) {
+    ht.increment_num_values();
     ht.buckets[sres.bucket].emplace(sres.hash, key, val);
     sres.link->store(bucket_link, std::memory_order_release);
   }
-- 
2.43.0


From f7255dca07097963e2a0f9ce682f41bcccca78ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 18/48] fix: art::map attached an enlarged node to the wrong
 slot of its parent

When a full node was replaced by a larger one, the slot to update was looked
up with the byte before the current depth. A node's key length includes its
branch byte and may cover several bytes, so the slot is the byte at the
node's start; the old node was freed while still referenced.
---
 include/indexes/art/map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/map.h b/include/indexes/art/map.h
index 5588a75..f77d4df 100644
--- a/include/indexes/art/map.h
+++ b/include/indexes/art/map.h
@@ -612,7 +612,8 @@ private:
         parent->add(node, ind);
 
         if (grand_parent)
-          grand_parent->update(parent, node_t::get_ind(node->key, depth - 1));
+          grand_parent->update(
+              parent, node_t::get_ind(node->key, depth - parent->keylen));
         else
           root = parent;
 
-- 
2.43.0


From 4625d2320616457c82da13ee0a041404479bdf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 19/48] fix: concurrent radix tree modified nodes that were
 already removed

A snapshot taken after a node died carries DEAD_VERSION and compared equal
when locking, and a leaf removed from the root was never marked dead, so
updates could go to nodes no longer in the tree.
---
 include/indexes/art/concurrent_map.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 127e711..5c79f06 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -781,7 +781,10 @@ private:
     LockType lock() {
       LockType lock{node->m};
 
-      if (load_rx(node->version) != version) {
+      version_t current = load_rx(node->version);
+
+      // A snapshot taken after the node was removed carries DEAD_VERSION
+      if (current != version || current == node_t::DEAD_VERSION) {
         lock.unlock();
       }
 
@@ -924,6 +927,7 @@ private:
         } else {
           if (auto lock = root_snapshot.lock_root(map)) {
             map.root = nullptr;
+            leaf->mark_as_deleted();
             is_snapshot_stale = false;
           }
         }
-- 
2.43.0


From 67cbfe2ab3991575e37e1098015c089ca64ee788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 20/48] fix: concurrent radix tree Delete returned a value
 already overwritten

The value was read before the leaf was locked, so an update in between was
lost: Delete returned the value of before the update.
---
 include/indexes/art/concurrent_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 5c79f06..23ec3ae 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -913,11 +913,13 @@ private:
 
     std::optional<value_type> remove_leaf(leaf_t *leaf, node_snapshot_t &node,
                                           node_snapshot_t &parent) {
-      value_type oldval = leaf->value;
+      std::optional<value_type> oldval;
 
       is_snapshot_stale = true;
 
       if (auto lock = node.lock()) {
+        oldval = leaf->value;
+
         if (parent) {
           if (auto lock = parent.lock()) {
             parent->remove(leaf->key);
-- 
2.43.0


From 52b00fab58f4d5b824410c21a7599a41ef18be82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 21/48] fix: concurrent radix tree leaked the leaf of an insert
 it had to retry

The replacement of a node that could not be enlarged was also deleted
through its base class.
---
 include/indexes/art/concurrent_map.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 23ec3ae..afdceb0 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -956,7 +956,7 @@ private:
         map.m_gc.retire_in_new_epoch(node_t::free, old);
       } else {
         lock.unlock();
-        delete node;
+        node_t::free(node);
         node = nullptr;
       }
 
@@ -1074,7 +1074,10 @@ private:
       }
 
       if constexpr (UOp != UpdateOp::UOP_Update) {
-        if (!add_to_parent(new leaf_t(key, value), parent, grand_parent)) {
+        auto leaf = new leaf_t(key, value);
+
+        if (!add_to_parent(leaf, parent, grand_parent)) {
+          delete leaf;
           is_snapshot_stale = true;
         }
       }
-- 
2.43.0


From 5db872d884d0611d8af712a41713c171621eb35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 22/48] fix: a moved concurrent radix tree had no root mutex

---
 include/indexes/art/concurrent_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index afdceb0..c71f439 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -1178,7 +1178,8 @@ public:
   concurrent_map(const concurrent_map &) = delete;
 
   concurrent_map(concurrent_map &&other)
-      : root(other.root.exchange(nullptr)),
+      : root_mtx(std::move(other.root_mtx)),
+        root(other.root.exchange(nullptr)),
         count(std::exchange(other.count, nullptr)) {}
 
   std::optional<value_type> Search(key_type key) const {
-- 
2.43.0


From 670972485fd2f8e2111132df07763d4d9a32c121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:45 +0000
Subject: [PATCH 23/48] fix: concurrent radix tree never shrank its nodes

remove_leaf changed the parent and thereby invalidated the snapshot that
shrink_node locks, so no node was ever shrunk and emptied nodes stayed in
the tree. Also release the unused replacement node properly, and drop the
self-checks that contradict the handling of empty nodes in shrink_node.
---
 include/indexes/art/concurrent_map.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index c71f439..7066258 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -137,8 +137,6 @@ private:
     }
 
     node_t *find(std::uint8_t ind) const {
-      ART_DEBUG_ASSERT(this->size() != 0);
-
       switch (node_type) {
       case node_type_t::NODE4:
         return static_cast<const node4_t *>(this)->find(ind);
@@ -260,7 +258,6 @@ private:
     }
 
     node_t *expand() const {
-      ART_DEBUG_ASSERT(this->size() != 0);
       ART_DEBUG_ASSERT(m.is_locked());
 
       switch (node_type) {
@@ -291,8 +288,6 @@ private:
     }
 
     bool is_underfull() const {
-      ART_DEBUG_ASSERT(this->size() != 0);
-
       switch (node_type) {
       case node_type_t::NODE4:
         return static_cast<const node4_t *>(this)->is_underfull();
@@ -338,7 +333,6 @@ private:
     }
 
     static void free(node_t *node) {
-      ART_DEBUG_ASSERT(node->is_leaf() || node->size() != 0);
       ART_DEBUG_ASSERT(!node->m.is_locked());
 
       switch (node->node_type) {
@@ -893,7 +887,8 @@ private:
           }
 
           if (node->node_type != node_type_t::NODE4) {
-            delete replacement;
+            child_lock.unlock();
+            node_t::free(replacement);
           }
         } else {
           if (parent) {
@@ -923,6 +918,8 @@ private:
         if (parent) {
           if (auto lock = parent.lock()) {
             parent->remove(leaf->key);
+            // Our own change must not keep the parent from being shrunk
+            parent.version = load_rx(parent->version);
             leaf->mark_as_deleted();
             is_snapshot_stale = false;
           }
-- 
2.43.0


From 90081b06e0213dc958ce97ff4e363dc2a761b36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:24 +0000
Subject: [PATCH 24/48] fix: concurrent B+tree could not be used with dynamic
 keys

The comparator type had the wrong constness, the constructor arguments were
in another order than at the call sites, three comparisons used operator<
and upper_bound built the end iterator for static keys.
---
 include/indexes/btree/concurrent_map.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 85612ac..819e03a 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -914,13 +914,13 @@ protected:
   template <typename KeyType> class search_ops_t {
   public:
     using cmp_key_type = KeyType;
-    using comparator_t = std::conditional_t<is_dynamic_key, dynamic_cmp *,
+    using comparator_t = std::conditional_t<is_dynamic_key, const dynamic_cmp *,
                                             static_cmp<key_type, KeyType>>;
 
     STATIC_KEY_ONLY
     search_ops_t(Stats *stats) : m_stats(stats) {}
     DYNAMIC_KEY_ONLY
-    search_ops_t(Stats *stats, const dynamic_cmp *cmp)
+    search_ops_t(const dynamic_cmp *cmp, Stats *stats)
         : m_cmp(cmp), m_stats(stats) {}
 
     template <typename OthKeyType>
@@ -954,16 +954,25 @@ protected:
     template <typename Key1Type, typename Key2Type>
     inline bool less_equal(const Key1Type &k1, const Key2Type &k2) const
         noexcept {
-      return !(k2 < k1);
+      if constexpr (is_dynamic_key)
+        return !m_cmp->less(k2, k1);
+      else
+        return !(k2 < k1);
     }
     template <typename Key1Type, typename Key2Type>
     inline bool greater(const Key1Type &k1, const Key2Type &k2) const noexcept {
-      return k2 < k1;
+      if constexpr (is_dynamic_key)
+        return m_cmp->less(k2, k1);
+      else
+        return k2 < k1;
     }
     template <typename Key1Type, typename Key2Type>
     inline bool greater_equal(const Key1Type &k1, const Key2Type &k2) const
         noexcept {
-      return !(k1 < k2);
+      if constexpr (is_dynamic_key)
+        return !m_cmp->less(k1, k2);
+      else
+        return !(k1 < k2);
     }
 
     template <typename NodeType> class lower_bound_cmp {
@@ -2463,7 +2472,7 @@ protected:
     if (leaf && node_empty)
       it++;
 
-    return leaf ? std::move(it) : end({this->m_stats.get()});
+    return leaf ? std::move(it) : end(ops);
   }
 };
 } // namespace detail
-- 
2.43.0


From 97288691afd2b8c5af4e4aef63b1b40db9d49a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 25/48] fix: concurrent B+tree stats() did not compile

---
 include/indexes/btree/concurrent_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 819e03a..e38ae38 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2762,7 +2762,7 @@ public:
   }
 
   template <ENABLE_IF(Traits::STAT)> inline const Stats &stats() const {
-    return this->m_stats;
+    return *this->m_stats;
   }
 
   ~concurrent_map() {
-- 
2.43.0


From f251dad349c32a70ad9c99c8f7aa01fad2eee35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 26/48] fix: concurrent B+tree released its nodes with a delete
 that does not match their allocation

Nodes are constructed in a char array, so destroy them and release the array.
---
 include/indexes/btree/concurrent_map.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index e38ae38..9984910 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -226,9 +226,9 @@ protected:
 
     static inline void free(node_t *node) {
       if (node->isLeaf())
-        delete ASLEAF(node);
+        leaf_node_t::free(ASLEAF(node));
       else
-        delete ASINNER(node);
+        inner_node_t::free(ASINNER(node));
     }
 
     inline const key_type &get_first_key() const {
@@ -281,7 +281,10 @@ protected:
           inherited_node_t(lowkey, highkey, height);
     }
 
-    static void free(inherited_node_t *node) { delete node; }
+    static void free(inherited_node_t *node) {
+      node->~inherited_node_t();
+      delete[] reinterpret_cast<char *>(node);
+    }
 
     // Must be called with both this's and other's mutex held
     inline bool haveEnoughSpace() const {
@@ -824,7 +827,7 @@ protected:
                                          detail::load_acquire(this->m_height));
 
       if (!update_root({}, new_root))
-        delete new_root;
+        leaf_node_t::free(new_root);
     }
   }
 
-- 
2.43.0


From 3cd4c1d75572c92d3123d2d1c4d53ab300cd5d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 27/48] fix: concurrent B+tree iteration dereferenced a missing
 bound of an emptied root

An emptied leaf without a neighbour on that side ends the traversal.
---
 include/indexes/btree/concurrent_map.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 9984910..7cf1258 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2361,9 +2361,12 @@ protected:
       eg.refresh();
     } while (leaf);
 
-    if (leaf && slots.empty())
-      std::tie(leaf, pos) =
-          ops.get_next_leaf(this, leaf->highkey.value(), slots);
+    if (leaf && slots.empty()) {
+      if (leaf->highkey)
+        std::tie(leaf, pos) = ops.get_next_leaf(this, *leaf->highkey, slots);
+      else
+        leaf = nullptr;
+    }
 
     return leaf ? const_iterator{ops,
                                  this,
@@ -2404,8 +2407,10 @@ protected:
     } while (leaf);
 
     if (leaf && slots.empty()) {
-      std::tie(leaf, pos) =
-          ops.get_prev_leaf(this, leaf->lowkey.value(), slots);
+      if (leaf->lowkey)
+        std::tie(leaf, pos) = ops.get_prev_leaf(this, *leaf->lowkey, slots);
+      else
+        leaf = nullptr;
     } else {
       pos = slots.size() - 1;
     }
-- 
2.43.0


From c692f1bd94d0b26ed605236ad8fb7b10964bd65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 28/48] fix: concurrent B+tree skipped an entry when stepping
 back into a merged leaf

The slot before the lower bound is the one that is less than the key, whether
or not the key itself is present.
---
 include/indexes/btree/concurrent_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 7cf1258..27e7715 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -1088,9 +1088,9 @@ protected:
 
     int get_slots_less_than(const leaf_node_t *leaf, const key_type &key,
                             std::vector<int> &slot_offsets) const noexcept {
-      auto [pos, found, num_values] = lower_bound(leaf, key);
+      auto num_values = detail::load_acquire(leaf->num_values);
+      auto pos = lower_bound_pos(leaf, key, num_values);
 
-      pos = found ? pos - 1 : pos;
       leaf_node_t::get_all_slots(slot_offsets, leaf->get_slots(), num_values);
       return pos - 1;
     }
-- 
2.43.0


From 6f63dcb8ccba0088f3b7ca2689890d2a78d9a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 29/48] fix: concurrent B+tree reverse range missed or exceeded
 its maximum

It was empty when the maximum is beyond the last key, and an entry inserted
meanwhile between the maximum and the entry found for it was reported. Start
from the last entry in the first case and step down to the maximum in both.
---
 include/indexes/btree/concurrent_map.h | 31 +++++++++++++++++---------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 27e7715..2108dbe 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2298,24 +2298,33 @@ protected:
         return {};
     }
 
+    template <typename MaxkeyType>
+    bool beyond_max(const key_type &key, const MaxkeyType &max_key) const
+        noexcept {
+      if constexpr (RRKind == range_kind::INCLUSIVE)
+        return m_max_ops.greater(key, max_key);
+      else
+        return m_max_ops.greater_equal(key, max_key);
+    }
+
     template <typename MinkeyType, typename MaxkeyType>
     std::optional<iterator> get_reverse_iter(const concurrent_map_iter *map,
                                              const MinkeyType &min_key,
                                              const MaxkeyType &max_key) {
-      auto it = map->lower_bound(max_key, m_max_ops, m_defops);
+      std::optional<iterator> it;
 
-      if (it.m_leaf == nullptr)
-        return {};
+      it.emplace(map->lower_bound(max_key, m_max_ops, m_defops));
 
-      if (m_max_ops.equal(it->first, max_key)) {
-        if constexpr (RRKind == range_kind::EXCLUSIVE)
-          --it;
-      } else {
-        --it;
-      }
+      if (it->m_leaf == nullptr)
+        it.emplace(map->crbegin(m_defops));
 
-      if (it.m_leaf != nullptr)
-        return {std::move(it)};
+      // Concurrent inserts may have added more than one entry beyond the
+      // maximum.
+      while (it->m_leaf != nullptr && beyond_max((*it)->first, max_key))
+        ++*it;
+
+      if (it->m_leaf != nullptr)
+        return std::move(it);
       else
         return {};
     }
-- 
2.43.0


From a2b86d0eb0bedc19fbc3c5d7f9fb1612a2b089f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 30/48] fix: concurrent B+tree range iterators kept a dangling
 reference to their end key

Keep a copy, of the type of the key at which the iteration ends.
---
 include/indexes/btree/concurrent_map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 2108dbe..3697300 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2150,9 +2150,9 @@ protected:
     using minkey_type = typename MinkeyOps::cmp_key_type;
     using maxkey_type = typename MaxkeyOps::cmp_key_type;
     using endkey_type = std::conditional_t<IDir == iter_direction::FORWARD,
-                                           minkey_type, maxkey_type>;
+                                           maxkey_type, minkey_type>;
     using endkey_ops_type = std::conditional_t<IDir == iter_direction::FORWARD,
-                                               MinkeyOps, MaxkeyOps>;
+                                               MaxkeyOps, MinkeyOps>;
     using iterator = iterator_impl<IDir>;
 
     range_iterator(const concurrent_map_iter *map, DefOps defops,
@@ -2333,7 +2333,7 @@ protected:
     const MinkeyOps m_min_ops;
     const MaxkeyOps m_max_ops;
     const endkey_ops_type m_endkey_ops;
-    const endkey_type &m_endkey;
+    const endkey_type m_endkey;
     std::optional<iterator> m_it;
   };
 
-- 
2.43.0


From 9b5ed34660907267343d0130375cd450b354ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 31/48] fix: concurrent B+tree unlocked the mutex of a null
 node when the root stayed locked

---
 include/indexes/btree/concurrent_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 3697300..b1815ae 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -676,8 +676,12 @@ protected:
         BTREE_UPDATE_STAT(optimistic_fail, ++);
         try_lock_pessimistic(node, state);
 
-        if (!state.is_deleted())
-          node->mutex.unlock();
+        if (!state.is_deleted()) {
+          if (node)
+            node->mutex.unlock();
+          else
+            this->m_root_mutex->unlock();
+        }
       }
     } else {
       try_lock_pessimistic(node, state);
-- 
2.43.0


From 2eb8eac8c275c6f53b681aecbaf49e6d0105282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:58 +0000
Subject: [PATCH 32/48] fix: concurrent B+tree height grew each time a root
 leaf was trimmed

Replacing the root by a trimmed copy of itself adds no level.
---
 include/indexes/btree/concurrent_map.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index b1815ae..c6739b7 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -791,7 +791,7 @@ protected:
   }
 
   // Root mutex must be held
-  inline void store_root(node_t *new_root) {
+  inline void store_root(node_t *new_root, bool adds_level = true) {
     detail::store_release(
         this->m_root_state,
         detail::load_relaxed(this->m_root_state).set_locked());
@@ -800,8 +800,9 @@ protected:
                           detail::load_relaxed(this->m_root_state)
                               .reset_locked()
                               .increment_version());
-    detail::store_release(this->m_height,
-                          detail::load_relaxed(this->m_height) + 1);
+    if (adds_level)
+      detail::store_release(this->m_height,
+                            detail::load_relaxed(this->m_height) + 1);
   }
 
   // Root mutex must be held
@@ -1579,7 +1580,7 @@ protected:
                   if (parent)
                     ops.update_inner_for_trim(parent, key, trimmed_node);
                   else
-                    this->store_root(trimmed_node);
+                    this->store_root(trimmed_node, false);
 
                   return true;
                 }),
-- 
2.43.0


From 4e80e6ea10cb1c6947b7638733dabf6851f0acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:29 +0000
Subject: [PATCH 33/48] fix: Zipfian generator ignored its lower bound for the
 two first ranks

They were returned as 0 and 1 whatever the range. Also add the base as an
integer, as large bounds do not fit a double.
---
 src/benchmark/utils/zipfian_generator.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/benchmark/utils/zipfian_generator.h b/src/benchmark/utils/zipfian_generator.h
index e96ccb9..3da46b7 100644
--- a/src/benchmark/utils/zipfian_generator.h
+++ b/src/benchmark/utils/zipfian_generator.h
@@ -105,14 +105,15 @@ inline uint64_t ZipfianGenerator::NextUnlocked(uint64_t num) {
   double uz = u * zeta_n_;
 
   if (uz < 1.0) {
-    return last_value_ = 0;
+    return last_value_ = base_;
   }
 
   if (uz < 1.0 + std::pow(0.5, theta_)) {
-    return last_value_ = 1;
+    return last_value_ = base_ + 1;
   }
 
-  return last_value_ = base_ + num * std::pow(eta_ * u - eta_ + 1, alpha_);
+  return last_value_ = base_ + static_cast<uint64_t>(
+                                   num * std::pow(eta_ * u - eta_ + 1, alpha_));
 }
 
 inline uint64_t ZipfianGenerator::Next(uint64_t num) {
-- 
2.43.0


From ff5d2c851bc3fa2c1ea306c7f9329fbc48dba4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:29 +0000
Subject: [PATCH 34/48] fix: Zipfian generator kept the old item count when the
 number of items grew

eta was computed from the new zeta but the initial count, so that a range of
ranks was never drawn.
---
 src/benchmark/utils/zipfian_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/benchmark/utils/zipfian_generator.h b/src/benchmark/utils/zipfian_generator.h
index 3da46b7..ef695f0 100644
--- a/src/benchmark/utils/zipfian_generator.h
+++ b/src/benchmark/utils/zipfian_generator.h
@@ -60,7 +60,7 @@ private:
   }
 
   double Eta() {
-    return (1 - std::pow(2.0 / num_items_, 1 - theta_)) /
+    return (1 - std::pow(2.0 / n_for_zeta_, 1 - theta_)) /
            (1 - zeta_2_ / zeta_n_);
   }
 
-- 
2.43.0


From d93adc1b47b864448bea03a82fccc17ab8c11831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:29 +0000
Subject: [PATCH 35/48] fix: RandomDouble ignored its bounds after the first
 call

---
 src/benchmark/utils/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/benchmark/utils/utils.h b/src/benchmark/utils/utils.h
index ac2b0d7..e278f5d 100644
--- a/src/benchmark/utils/utils.h
+++ b/src/benchmark/utils/utils.h
@@ -37,7 +37,7 @@ inline uint64_t Hash(uint64_t val) { return FNVHash64(val); }
 
 inline double RandomDouble(double min = 0.0, double max = 1.0) {
   static thread_local std::default_random_engine generator;
-  static thread_local std::uniform_real_distribution<double> uniform(min, max);
+  std::uniform_real_distribution<double> uniform(min, max);
   return uniform(generator);
 }
 
-- 
2.43.0


From f5b28185152379b3cfb66655c5f0685f7e5e6e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:29 +0000
Subject: [PATCH 36/48] fix: benchmark client asked for fields that do not
 exist

NextFieldName() already includes the prefix.
---
 src/benchmark/ycsb/core/client.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/benchmark/ycsb/core/client.h b/src/benchmark/ycsb/core/client.h
index e1956cd..71ae8bd 100644
--- a/src/benchmark/ycsb/core/client.h
+++ b/src/benchmark/ycsb/core/client.h
@@ -74,7 +74,7 @@ inline int Client::TransactionRead() {
 
   if (!workload_.read_all_fields()) {
     DB::FieldSet fields;
-    fields.insert("field" + workload_.NextFieldName());
+    fields.insert(workload_.NextFieldName());
     return db_.Read(table, key, &fields, workload_.field_count(), result);
   } else {
     return db_.Read(table, key, NULL, workload_.field_count(), result);
@@ -88,7 +88,7 @@ inline int Client::TransactionReadModifyWrite() {
 
   if (!workload_.read_all_fields()) {
     DB::FieldSet fields;
-    fields.insert("field" + workload_.NextFieldName());
+    fields.insert(workload_.NextFieldName());
     db_.Read(table, key, &fields, workload_.field_count(), result);
   } else {
     db_.Read(table, key, NULL, workload_.field_count(), result);
@@ -110,7 +110,7 @@ inline int Client::TransactionScan() {
   std::vector<DB::FieldVec> result;
   if (!workload_.read_all_fields()) {
     DB::FieldSet fields;
-    fields.insert("field" + workload_.NextFieldName());
+    fields.insert(workload_.NextFieldName());
     return db_.Scan(table, key, len, &fields, workload_.field_count(), result);
   } else {
     return db_.Scan(table, key, len, NULL, workload_.field_count(), result);
-- 
2.43.0


From 926a4452bc90ff2d8049b0b66b0c5d97fad996ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:55 +0000
Subject: [PATCH 37/48] fix: concurrent B+tree never destroyed removed keys and
 values

---
 include/indexes/btree/concurrent_map.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index c6739b7..6748d9c 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -268,9 +268,12 @@ protected:
         : node_t(NType, sizeof(inherited_node_t), height, lowkey, highkey) {}
 
     inline ~inherited_node_t() {
-      auto num_values = detail::load_relaxed(this->num_values);
-      for (int slot = IsInner() ? 1 : 0; slot < num_values; slot++) {
-        get_key_value(slot)->~key_value_t();
+      // Removed entries stay in place as long as the node lives.
+      constexpr int end =
+          Traits::NODE_SIZE - (IsInner() ? sizeof(key_value_t) : 0);
+      for (int offset = this->last_value_offset; offset < end;
+           offset += sizeof(key_value_t)) {
+        get_key_value_for_offset(offset)->~key_value_t();
       }
     }
 
-- 
2.43.0


From 40a77358b78379f47ad9076d06cffd938c4b5a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 38/48] fix: locked store looked for records to delete without
 their table

---
 src/benchmark/ycsb/db/locked_map_db.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/benchmark/ycsb/db/locked_map_db.h b/src/benchmark/ycsb/db/locked_map_db.h
index 0af626e..19c5a87 100644
--- a/src/benchmark/ycsb/db/locked_map_db.h
+++ b/src/benchmark/ycsb/db/locked_map_db.h
@@ -56,7 +56,7 @@ public:
     KVPair *fields = nullptr;
     std::lock_guard<std::mutex> lock(mutex);
 
-    fields = Delete(key);
+    fields = Delete(keyind);
 
     if (fields)
       delete[] fields;
-- 
2.43.0


From 1c96907049aec717366ef98759a1ad297101f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 39/48] fix: locked store mixed up records of different tables

---
 src/benchmark/ycsb/db/locked_map_db.h | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/benchmark/ycsb/db/locked_map_db.h b/src/benchmark/ycsb/db/locked_map_db.h
index 19c5a87..ee3c308 100644
--- a/src/benchmark/ycsb/db/locked_map_db.h
+++ b/src/benchmark/ycsb/db/locked_map_db.h
@@ -19,7 +19,7 @@ public:
   int Read(const std::string &table, const std::string &key,
            const DB::FieldSet *fields, int field_count,
            std::vector<KVPair> &result) {
-    std::string keyind = table + key;
+    std::string keyind = record_key(table, key);
     std::lock_guard<std::mutex> lock(mutex);
 
     return Read(keyind, fields, field_count, result);
@@ -29,10 +29,11 @@ public:
            const DB::FieldSet *fields, int field_count,
            std::vector<std::vector<KVPair>> &result) {
     if constexpr (ScanSupported) {
-      std::string keyind = table + key;
+      std::string keyind = record_key(table, key);
       std::lock_guard<std::mutex> lock(mutex);
 
-      return Scan(keyind, record_count, fields, field_count, result);
+      return Scan(record_key(table, ""), keyind, record_count, fields,
+                  field_count, result);
     } else {
       throw "Scan: function not implemented!";
     }
@@ -40,7 +41,7 @@ public:
 
   int Update(const std::string &table, const std::string &key, int field_count,
              DB::FieldMap &values) {
-    std::string keyind = table + key;
+    std::string keyind = record_key(table, key);
     std::lock_guard<std::mutex> lock(mutex);
 
     return Update(keyind, field_count, values);
@@ -48,11 +49,11 @@ public:
 
   int Insert(const std::string &table, const std::string &key,
              std::vector<KVPair> &values) {
-    return insert(table + key, values, false);
+    return insert(record_key(table, key), values, false);
   }
 
   int Delete(const std::string &table, const std::string &key) {
-    std::string keyind = table + key;
+    std::string keyind = record_key(table, key);
     KVPair *fields = nullptr;
     std::lock_guard<std::mutex> lock(mutex);
 
@@ -68,6 +69,11 @@ private:
   MapType<std::string, KVPair *> db;
   std::mutex mutex;
 
+  static std::string record_key(const std::string &table,
+                                const std::string &key) {
+    return table + '\0' + key;
+  }
+
   int Read(std::string &key, const DB::FieldSet *fields, int field_count,
            std::vector<KVPair> &result) {
     auto it = db.find(key);
@@ -81,12 +87,17 @@ private:
     return DB::kOK;
   }
 
-  int Scan(std::string &key, int record_count, const DB::FieldSet *fields,
-           int field_count, std::vector<std::vector<KVPair>> &result) {
+  int Scan(const std::string &prefix, std::string &key, int record_count,
+           const DB::FieldSet *fields, int field_count,
+           std::vector<std::vector<KVPair>> &result) {
     result.clear();
 
     for (auto it = db.lower_bound(key); it != db.end() && record_count;
          ++it, --record_count) {
+      // The table ends here
+      if (it->first.compare(0, prefix.size(), prefix) != 0)
+        break;
+
       result.push_back(get_fields(fields, field_count, it->second));
     }
 
-- 
2.43.0


From f840949599619a90c7848f35dc8a4561a888ceaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 40/48] fix: locked store kept records as arrays of unknown
 length

---
 src/benchmark/ycsb/db/locked_map_db.h | 75 +++++++++++++--------------
 1 file changed, 36 insertions(+), 39 deletions(-)

diff --git a/src/benchmark/ycsb/db/locked_map_db.h b/src/benchmark/ycsb/db/locked_map_db.h
index ee3c308..75e23ba 100644
--- a/src/benchmark/ycsb/db/locked_map_db.h
+++ b/src/benchmark/ycsb/db/locked_map_db.h
@@ -3,6 +3,7 @@
 #include "core/db.h"
 #include "utils/properties.h"
 
+#include <algorithm>
 #include <mutex>
 #include <string>
 #include <vector>
@@ -39,12 +40,12 @@ public:
     }
   }
 
-  int Update(const std::string &table, const std::string &key, int field_count,
-             DB::FieldMap &values) {
+  int Update(const std::string &table, const std::string &key,
+             int /* field_count */, DB::FieldMap &values) {
     std::string keyind = record_key(table, key);
     std::lock_guard<std::mutex> lock(mutex);
 
-    return Update(keyind, field_count, values);
+    return Update(keyind, values);
   }
 
   int Insert(const std::string &table, const std::string &key,
@@ -54,19 +55,13 @@ public:
 
   int Delete(const std::string &table, const std::string &key) {
     std::string keyind = record_key(table, key);
-    KVPair *fields = nullptr;
     std::lock_guard<std::mutex> lock(mutex);
 
-    fields = Delete(keyind);
-
-    if (fields)
-      delete[] fields;
-
-    return fields ? DB::kOK : DB::kErrorNoData;
+    return Delete(keyind) ? DB::kOK : DB::kErrorNoData;
   }
 
 private:
-  MapType<std::string, KVPair *> db;
+  MapType<std::string, DB::FieldVec> db;
   std::mutex mutex;
 
   static std::string record_key(const std::string &table,
@@ -104,74 +99,76 @@ private:
     return DB::kOK;
   }
 
-  int Update(const std::string &key, int field_count, DB::FieldMap &values) {
+  int Update(const std::string &key, DB::FieldMap &values) {
     auto it = db.find(key);
 
     if (it == db.end())
       return insert(key, values, true);
 
-    KVPair *fields = it->second;
-    int num_updates = values.size();
+    // Not all maps let an iterator modify the value
+    DB::FieldVec &record = db[key];
 
-    for (int i = 0; (i < field_count) && num_updates; i++) {
-      KVPair &field = fields[i];
-      auto it = values.find(field.first);
+    for (auto &value : values) {
+      auto field =
+          std::find_if(record.begin(), record.end(), [&](const KVPair &field) {
+            return field.first == value.first;
+          });
 
-      if (it != values.end()) {
-        field.second = it->second;
-        num_updates--;
-      }
+      if (field != record.end())
+        field->second = value.second;
+      else
+        record.emplace_back(value.first, value.second);
     }
 
     return DB::kOK;
   }
 
-  KVPair *Delete(const std::string &key) {
-    KVPair *fields = nullptr;
+  bool Delete(const std::string &key) {
     auto it = db.find(key);
 
-    if (it != db.end()) {
-      fields = it->second;
-      db.erase(it);
-    }
+    if (it == db.end())
+      return false;
+
+    db.erase(it);
 
-    return fields;
+    return true;
   }
 
   template <typename Cont>
   int insert(const std::string &key, Cont &values, bool locked) {
-    KVPair *fields = new KVPair[values.size()];
-
-    std::copy(std::begin(values), std::end(values), fields);
+    DB::FieldVec fields(std::begin(values), std::end(values));
 
     if (locked) {
-      db[key] = fields;
+      db[key] = std::move(fields);
     } else {
       std::lock_guard<std::mutex> lock(mutex);
-      db[key] = fields;
+      db[key] = std::move(fields);
     }
 
     return DB::kOK;
   }
 
   std::vector<KVPair> get_fields(const DB::FieldSet *fields, int field_count,
-                                 const KVPair *fieldvec) {
+                                 const DB::FieldVec &record) {
     std::vector<KVPair> result;
 
-    get_fields(result, fields, field_count, fieldvec);
+    get_fields(result, fields, field_count, record);
 
     return result;
   }
 
   void get_fields(std::vector<KVPair> &result, const DB::FieldSet *fields,
-                  int field_count, const KVPair *fieldvec) {
+                  int field_count, const DB::FieldVec &record) {
+    // The record may have fewer fields than asked for
+    int num_fields = std::min(field_count, static_cast<int>(record.size()));
+
     if (!fields) {
-      result = std::vector<KVPair>{fieldvec, fieldvec + field_count};
+      result = DB::FieldVec{record.begin(), record.begin() + num_fields};
     } else {
       int num_field_reads = fields->size();
 
-      for (int i = 0; (i < field_count) && num_field_reads; i++) {
-        const KVPair &field = fieldvec[i];
+      for (int i = 0; (i < num_fields) && num_field_reads; i++) {
+        const KVPair &field = record[i];
 
         if (fields->count(field.first)) {
           result.push_back(field);
-- 
2.43.0


From 3bc4eb2215688918da877f23d6b806d9a2c0fa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 41/48] fix: concurrent store looked for records to delete
 without their table

---
 src/benchmark/ycsb/db/concurrent_map_db.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/benchmark/ycsb/db/concurrent_map_db.h b/src/benchmark/ycsb/db/concurrent_map_db.h
index 9f4ee74..ea60da8 100644
--- a/src/benchmark/ycsb/db/concurrent_map_db.h
+++ b/src/benchmark/ycsb/db/concurrent_map_db.h
@@ -49,7 +49,7 @@ public:
     std::string keyind = table + key;
     KVPair *fields = nullptr;
 
-    fields = Delete(key);
+    fields = Delete(keyind);
 
     if (fields)
       delete[] fields;
-- 
2.43.0


From 924a64b58e8aeb1362328f2d627e48c987ac1d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 42/48] fix: concurrent store mixed up records of different
 tables

---
 src/benchmark/ycsb/db/concurrent_map_db.h | 27 ++++++++++++++++-------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/benchmark/ycsb/db/concurrent_map_db.h b/src/benchmark/ycsb/db/concurrent_map_db.h
index ea60da8..bc5f616 100644
--- a/src/benchmark/ycsb/db/concurrent_map_db.h
+++ b/src/benchmark/ycsb/db/concurrent_map_db.h
@@ -16,7 +16,7 @@ public:
   int Read(const std::string &table, const std::string &key,
            const DB::FieldSet *fields, int field_count,
            std::vector<KVPair> &result) {
-    std::string keyind = table + key;
+    std::string keyind = record_key(table, key);
 
     return Read(keyind, fields, field_count, result);
   }
@@ -25,9 +25,10 @@ public:
            const DB::FieldSet *fields, int field_count,
            std::vector<std::vector<KVPair>> &result) {
     if constexpr (ScanSupported) {
-      std::string keyind = table + key;
+      std::string keyind = record_key(table, key);
 
-      return Scan(keyind, record_count, fields, field_count, result);
+      return Scan(record_key(table, ""), keyind, record_count, fields,
+                  field_count, result);
     } else {
       throw "Scan: function not implemented!";
     }
@@ -35,18 +36,18 @@ public:
 
   int Update(const std::string &table, const std::string &key, int field_count,
              DB::FieldMap &values) {
-    std::string keyind = table + key;
+    std::string keyind = record_key(table, key);
 
     return Update(keyind, field_count, values);
   }
 
   int Insert(const std::string &table, const std::string &key,
              std::vector<KVPair> &values) {
-    return insert(table + key, values);
+    return insert(record_key(table, key), values);
   }
 
   int Delete(const std::string &table, const std::string &key) {
-    std::string keyind = table + key;
+    std::string keyind = record_key(table, key);
     KVPair *fields = nullptr;
 
     fields = Delete(keyind);
@@ -60,6 +61,11 @@ public:
 private:
   MapType db;
 
+  static std::string record_key(const std::string &table,
+                                const std::string &key) {
+    return table + '\0' + key;
+  }
+
   int Read(std::string &key, const DB::FieldSet *fields, int field_count,
            std::vector<KVPair> &result) {
     auto val = db.Search(key);
@@ -73,12 +79,17 @@ private:
     return DB::kOK;
   }
 
-  int Scan(std::string &key, int record_count, const DB::FieldSet *fields,
-           int field_count, std::vector<std::vector<KVPair>> &result) {
+  int Scan(const std::string &prefix, std::string &key, int record_count,
+           const DB::FieldSet *fields, int field_count,
+           std::vector<std::vector<KVPair>> &result) {
     result.clear();
 
     for (auto it = db.lower_bound(key); it != db.end() && record_count;
          ++it, --record_count) {
+      // The table ends here
+      if (it->first.compare(0, prefix.size(), prefix) != 0)
+        break;
+
       result.push_back(get_fields(fields, field_count, it->second));
     }
 
-- 
2.43.0


From 2c9e7045e581c86f08f320eb3d736b465dadf638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 43/48] fix: concurrent store lost updates and released records
 still being read

---
 src/benchmark/ycsb/db/concurrent_map_db.h | 120 +++++++++++++++-------
 src/benchmark/ycsb/db/db_factory.cpp      |   2 +-
 2 files changed, 85 insertions(+), 37 deletions(-)

diff --git a/src/benchmark/ycsb/db/concurrent_map_db.h b/src/benchmark/ycsb/db/concurrent_map_db.h
index bc5f616..b564595 100644
--- a/src/benchmark/ycsb/db/concurrent_map_db.h
+++ b/src/benchmark/ycsb/db/concurrent_map_db.h
@@ -1,9 +1,14 @@
 #pragma once
 
 #include "core/db.h"
+#include "indexes/utils/EpochManager.h"
 #include "sync_prim/ThreadRegistry.h"
 #include "utils/properties.h"
 
+#include <algorithm>
+#include <array>
+#include <memory>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -34,11 +39,11 @@ public:
     }
   }
 
-  int Update(const std::string &table, const std::string &key, int field_count,
-             DB::FieldMap &values) {
+  int Update(const std::string &table, const std::string &key,
+             int /* field_count */, DB::FieldMap &values) {
     std::string keyind = record_key(table, key);
 
-    return Update(keyind, field_count, values);
+    return Update(keyind, values);
   }
 
   int Insert(const std::string &table, const std::string &key,
@@ -48,18 +53,39 @@ public:
 
   int Delete(const std::string &table, const std::string &key) {
     std::string keyind = record_key(table, key);
-    KVPair *fields = nullptr;
-
-    fields = Delete(keyind);
-
-    if (fields)
-      delete[] fields;
+    return Delete(keyind) ? DB::kOK : DB::kErrorNoData;
+  }
 
-    return fields ? DB::kOK : DB::kErrorNoData;
+  ~ConcurrentMapDB() {
+    if constexpr (ScanSupported) {
+      for (auto it = db.begin(); it != db.end(); ++it)
+        delete it->second;
+    }
   }
 
 private:
   MapType db;
+  // Records are replaced, never modified, so that they can be read at any time.
+  // Those no longer in `db` are released, when nobody reads them.
+  indexes::utils::EpochManager<uint64_t, DB::FieldVec> gc;
+  // Replacing a record takes more than one operation of `db`
+  std::array<std::mutex, 64> writer_mutexes;
+
+  struct ReadGuard {
+    ConcurrentMapDB &db;
+
+    ReadGuard(ConcurrentMapDB &a_db) : db(a_db) { db.gc.enter_epoch(); }
+    ~ReadGuard() { db.gc.exit_epoch(); }
+  };
+
+  std::mutex &writer_mutex(const std::string &key) {
+    return writer_mutexes[std::hash<std::string>{}(key) %
+                          writer_mutexes.size()];
+  }
+
+  void release(DB::FieldVec *record) {
+    gc.retire_in_new_epoch([](DB::FieldVec *record) { delete record; }, record);
+  }
 
   static std::string record_key(const std::string &table,
                                 const std::string &key) {
@@ -68,13 +94,14 @@ private:
 
   int Read(std::string &key, const DB::FieldSet *fields, int field_count,
            std::vector<KVPair> &result) {
+    ReadGuard guard{*this};
     auto val = db.Search(key);
 
     if (!val)
       return DB::kErrorNoData;
 
     result.clear();
-    get_fields(result, fields, field_count, *val);
+    get_fields(result, fields, field_count, **val);
 
     return DB::kOK;
   }
@@ -82,6 +109,8 @@ private:
   int Scan(const std::string &prefix, std::string &key, int record_count,
            const DB::FieldSet *fields, int field_count,
            std::vector<std::vector<KVPair>> &result) {
+    ReadGuard guard{*this};
+
     result.clear();
 
     for (auto it = db.lower_bound(key); it != db.end() && record_count;
@@ -90,68 +119,87 @@ private:
       if (it->first.compare(0, prefix.size(), prefix) != 0)
         break;
 
-      result.push_back(get_fields(fields, field_count, it->second));
+      result.push_back(get_fields(fields, field_count, *it->second));
     }
 
     return DB::kOK;
   }
 
-  int Update(const std::string &key, int field_count, DB::FieldMap &values) {
+  int Update(const std::string &key, DB::FieldMap &values) {
+    std::lock_guard<std::mutex> lock(writer_mutex(key));
     auto val = db.Search(key);
 
     if (!val)
-      return insert(key, values);
-
-    KVPair *fields = new KVPair[field_count];
-    int num_updates = values.size();
+      return insert_record(key, values);
 
-    std::copy(*val, *val + field_count, fields);
+    auto record = std::make_unique<DB::FieldVec>(**val);
 
-    for (int i = 0; (i < field_count) && num_updates; i++) {
-      KVPair &field = fields[i];
-      auto it = values.find(field.first);
+    for (auto &value : values) {
+      auto field = std::find_if(
+          record->begin(), record->end(),
+          [&](const KVPair &field) { return field.first == value.first; });
 
-      if (it != values.end()) {
-        field.second = it->second;
-        num_updates--;
-      }
+      if (field != record->end())
+        field->second = value.second;
+      else
+        record->emplace_back(value.first, value.second);
     }
 
+    release(*db.Update(key, record.release()));
+
     return DB::kOK;
   }
 
-  KVPair *Delete(const std::string &key) {
+  bool Delete(const std::string &key) {
+    std::lock_guard<std::mutex> lock(writer_mutex(key));
     auto val = db.Delete(key);
 
-    return val ? *val : nullptr;
+    if (val)
+      release(*val);
+
+    return val.has_value();
   }
 
   template <typename Cont> int insert(const std::string &key, Cont &values) {
-    KVPair *fields = new KVPair[values.size()];
+    std::lock_guard<std::mutex> lock(writer_mutex(key));
+
+    return insert_record(key, values);
+  }
 
-    std::copy(std::begin(values), std::end(values), fields);
+  template <typename Cont>
+  int insert_record(const std::string &key, Cont &values) {
+    auto record =
+        std::make_unique<DB::FieldVec>(std::begin(values), std::end(values));
 
-    return db.Insert(key, fields) ? DB::kOK : DB::kErrorConflict;
+    if (!db.Insert(key, record.get()))
+      return DB::kErrorConflict;
+
+    record.release();
+
+    return DB::kOK;
   }
 
   std::vector<KVPair> get_fields(const DB::FieldSet *fields, int field_count,
-                                 const KVPair *fieldvec) {
+                                 const DB::FieldVec &record) {
     std::vector<KVPair> result;
 
-    get_fields(result, fields, field_count, fieldvec);
+    get_fields(result, fields, field_count, record);
 
     return result;
   }
 
   void get_fields(std::vector<KVPair> &result, const DB::FieldSet *fields,
-                  int field_count, const KVPair *fieldvec) {
+                  int field_count, const DB::FieldVec &record) {
+    // The record may have fewer fields than asked for
+    int num_fields = std::min(field_count, static_cast<int>(record.size()));
+
     if (!fields) {
-      result = std::vector<KVPair>{fieldvec, fieldvec + field_count};
+      result = DB::FieldVec{record.begin(), record.begin() + num_fields};
     } else {
       int num_field_reads = fields->size();
 
-      for (int i = 0; (i < field_count) && num_field_reads; i++) {
-        const KVPair &field = fieldvec[i];
+      for (int i = 0; (i < num_fields) && num_field_reads; i++) {
+        const KVPair &field = record[i];
 
         if (fields->count(field.first)) {
           result.push_back(field);
diff --git a/src/benchmark/ycsb/db/db_factory.cpp b/src/benchmark/ycsb/db/db_factory.cpp
index f6aab6a..c63c790 100644
--- a/src/benchmark/ycsb/db/db_factory.cpp
+++ b/src/benchmark/ycsb/db/db_factory.cpp
@@ -40,7 +40,7 @@ DB *DBFactory::CreateDB(utils::Properties &props) {
     return new LockedMapDB<SCAN, indexes::btree::map>;
   } else if (props["dbname"] == "concurrent_btree") {
     return new ConcurrentMapDB<
-        SCAN, indexes::btree::concurrent_map<std::string, DB::KVPair *>>;
+        SCAN, indexes::btree::concurrent_map<std::string, DB::FieldVec *>>;
   } else {
     return nullptr;
   }
-- 
2.43.0


From d8c0392c101b309a82a6e05732790c65ed6e7f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 44/48] fix: benchmark left out records and operations not
 divisible by the threads

---
 src/benchmark/ycsb/ycsb.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/benchmark/ycsb/ycsb.cpp b/src/benchmark/ycsb/ycsb.cpp
index 98b95a3..f748191 100644
--- a/src/benchmark/ycsb/ycsb.cpp
+++ b/src/benchmark/ycsb/ycsb.cpp
@@ -24,6 +24,12 @@ static bool StrStartWith(const char *str, const char *pre);
 static string ParseCommandLine(int argc, const char *argv[],
                                utils::Properties &props);
 
+// Operations of the given thread, such that all threads together perform
+// `total_ops` of them.
+static int OpsOfThread(int total_ops, int num_threads, int thread) {
+  return total_ops / num_threads + (thread < total_ops % num_threads ? 1 : 0);
+}
+
 int DelegateClient(ycsbc::DB *db, ycsbc::CoreWorkload *wl, const int num_ops,
                    bool is_loading) {
   db->Init();
@@ -60,7 +66,8 @@ int main(const int argc, const char *argv[]) {
   int total_ops = stoi(props[ycsbc::CoreWorkload::RECORD_COUNT_PROPERTY]);
   for (int i = 0; i < num_threads; ++i) {
     actual_ops.emplace_back(async(launch::async, DelegateClient, db, &wl,
-                                  total_ops / num_threads, true));
+                                  OpsOfThread(total_ops, num_threads, i),
+                                  true));
   }
   assert((int)actual_ops.size() == num_threads);
 
@@ -78,7 +85,8 @@ int main(const int argc, const char *argv[]) {
   timer.Start();
   for (int i = 0; i < num_threads; ++i) {
     actual_ops.emplace_back(async(launch::async, DelegateClient, db, &wl,
-                                  total_ops / num_threads, false));
+                                  OpsOfThread(total_ops, num_threads, i),
+                                  false));
   }
   assert((int)actual_ops.size() == num_threads);
 
-- 
2.43.0


From b2520dd9e6d0c9241556d9af9a2ec741d2c62970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 45/48] Undo the changes under src/benchmark: recorded as
 findings instead

---
 src/benchmark/utils/utils.h               |   2 +-
 src/benchmark/utils/zipfian_generator.h   |   9 +-
 src/benchmark/ycsb/core/client.h          |   6 +-
 src/benchmark/ycsb/db/concurrent_map_db.h | 147 +++++++---------------
 src/benchmark/ycsb/db/db_factory.cpp      |   2 +-
 src/benchmark/ycsb/db/locked_map_db.h     | 102 +++++++--------
 src/benchmark/ycsb/ycsb.cpp               |  12 +-
 7 files changed, 102 insertions(+), 178 deletions(-)

diff --git a/src/benchmark/utils/utils.h b/src/benchmark/utils/utils.h
index e278f5d..ac2b0d7 100644
--- a/src/benchmark/utils/utils.h
+++ b/src/benchmark/utils/utils.h
@@ -37,7 +37,7 @@ inline uint64_t Hash(uint64_t val) { return FNVHash64(val); }
 
 inline double RandomDouble(double min = 0.0, double max = 1.0) {
   static thread_local std::default_random_engine generator;
-  std::uniform_real_distribution<double> uniform(min, max);
+  static thread_local std::uniform_real_distribution<double> uniform(min, max);
   return uniform(generator);
 }
 
diff --git a/src/benchmark/utils/zipfian_generator.h b/src/benchmark/utils/zipfian_generator.h
index ef695f0..e96ccb9 100644
--- a/src/benchmark/utils/zipfian_generator.h
+++ b/src/benchmark/utils/zipfian_generator.h
@@ -60,7 +60,7 @@ private:
   }
 
   double Eta() {
-    return (1 - std::pow(2.0 / n_for_zeta_, 1 - theta_)) /
+    return (1 - std::pow(2.0 / num_items_, 1 - theta_)) /
            (1 - zeta_2_ / zeta_n_);
   }
 
@@ -105,15 +105,14 @@ inline uint64_t ZipfianGenerator::NextUnlocked(uint64_t num) {
   double uz = u * zeta_n_;
 
   if (uz < 1.0) {
-    return last_value_ = base_;
+    return last_value_ = 0;
   }
 
   if (uz < 1.0 + std::pow(0.5, theta_)) {
-    return last_value_ = base_ + 1;
+    return last_value_ = 1;
   }
 
-  return last_value_ = base_ + static_cast<uint64_t>(
-                                   num * std::pow(eta_ * u - eta_ + 1, alpha_));
+  return last_value_ = base_ + num * std::pow(eta_ * u - eta_ + 1, alpha_);
 }
 
 inline uint64_t ZipfianGenerator::Next(uint64_t num) {
diff --git a/src/benchmark/ycsb/core/client.h b/src/benchmark/ycsb/core/client.h
index 71ae8bd..e1956cd 100644
--- a/src/benchmark/ycsb/core/client.h
+++ b/src/benchmark/ycsb/core/client.h
@@ -74,7 +74,7 @@ inline int Client::TransactionRead() {
 
   if (!workload_.read_all_fields()) {
     DB::FieldSet fields;
-    fields.insert(workload_.NextFieldName());
+    fields.insert("field" + workload_.NextFieldName());
     return db_.Read(table, key, &fields, workload_.field_count(), result);
   } else {
     return db_.Read(table, key, NULL, workload_.field_count(), result);
@@ -88,7 +88,7 @@ inline int Client::TransactionReadModifyWrite() {
 
   if (!workload_.read_all_fields()) {
     DB::FieldSet fields;
-    fields.insert(workload_.NextFieldName());
+    fields.insert("field" + workload_.NextFieldName());
     db_.Read(table, key, &fields, workload_.field_count(), result);
   } else {
     db_.Read(table, key, NULL, workload_.field_count(), result);
@@ -110,7 +110,7 @@ inline int Client::TransactionScan() {
   std::vector<DB::FieldVec> result;
   if (!workload_.read_all_fields()) {
     DB::FieldSet fields;
-    fields.insert(workload_.NextFieldName());
+    fields.insert("field" + workload_.NextFieldName());
     return db_.Scan(table, key, len, &fields, workload_.field_count(), result);
   } else {
     return db_.Scan(table, key, len, NULL, workload_.field_count(), result);
diff --git a/src/benchmark/ycsb/db/concurrent_map_db.h b/src/benchmark/ycsb/db/concurrent_map_db.h
index b564595..9f4ee74 100644
--- a/src/benchmark/ycsb/db/concurrent_map_db.h
+++ b/src/benchmark/ycsb/db/concurrent_map_db.h
@@ -1,14 +1,9 @@
 #pragma once
 
 #include "core/db.h"
-#include "indexes/utils/EpochManager.h"
 #include "sync_prim/ThreadRegistry.h"
 #include "utils/properties.h"
 
-#include <algorithm>
-#include <array>
-#include <memory>
-#include <mutex>
 #include <string>
 #include <vector>
 
@@ -21,7 +16,7 @@ public:
   int Read(const std::string &table, const std::string &key,
            const DB::FieldSet *fields, int field_count,
            std::vector<KVPair> &result) {
-    std::string keyind = record_key(table, key);
+    std::string keyind = table + key;
 
     return Read(keyind, fields, field_count, result);
   }
@@ -30,176 +25,122 @@ public:
            const DB::FieldSet *fields, int field_count,
            std::vector<std::vector<KVPair>> &result) {
     if constexpr (ScanSupported) {
-      std::string keyind = record_key(table, key);
+      std::string keyind = table + key;
 
-      return Scan(record_key(table, ""), keyind, record_count, fields,
-                  field_count, result);
+      return Scan(keyind, record_count, fields, field_count, result);
     } else {
       throw "Scan: function not implemented!";
     }
   }
 
-  int Update(const std::string &table, const std::string &key,
-             int /* field_count */, DB::FieldMap &values) {
-    std::string keyind = record_key(table, key);
+  int Update(const std::string &table, const std::string &key, int field_count,
+             DB::FieldMap &values) {
+    std::string keyind = table + key;
 
-    return Update(keyind, values);
+    return Update(keyind, field_count, values);
   }
 
   int Insert(const std::string &table, const std::string &key,
              std::vector<KVPair> &values) {
-    return insert(record_key(table, key), values);
+    return insert(table + key, values);
   }
 
   int Delete(const std::string &table, const std::string &key) {
-    std::string keyind = record_key(table, key);
-    return Delete(keyind) ? DB::kOK : DB::kErrorNoData;
-  }
+    std::string keyind = table + key;
+    KVPair *fields = nullptr;
 
-  ~ConcurrentMapDB() {
-    if constexpr (ScanSupported) {
-      for (auto it = db.begin(); it != db.end(); ++it)
-        delete it->second;
-    }
-  }
+    fields = Delete(key);
 
-private:
-  MapType db;
-  // Records are replaced, never modified, so that they can be read at any time.
-  // Those no longer in `db` are released, when nobody reads them.
-  indexes::utils::EpochManager<uint64_t, DB::FieldVec> gc;
-  // Replacing a record takes more than one operation of `db`
-  std::array<std::mutex, 64> writer_mutexes;
-
-  struct ReadGuard {
-    ConcurrentMapDB &db;
-
-    ReadGuard(ConcurrentMapDB &a_db) : db(a_db) { db.gc.enter_epoch(); }
-    ~ReadGuard() { db.gc.exit_epoch(); }
-  };
-
-  std::mutex &writer_mutex(const std::string &key) {
-    return writer_mutexes[std::hash<std::string>{}(key) %
-                          writer_mutexes.size()];
-  }
+    if (fields)
+      delete[] fields;
 
-  void release(DB::FieldVec *record) {
-    gc.retire_in_new_epoch([](DB::FieldVec *record) { delete record; }, record);
+    return fields ? DB::kOK : DB::kErrorNoData;
   }
 
-  static std::string record_key(const std::string &table,
-                                const std::string &key) {
-    return table + '\0' + key;
-  }
+private:
+  MapType db;
 
   int Read(std::string &key, const DB::FieldSet *fields, int field_count,
            std::vector<KVPair> &result) {
-    ReadGuard guard{*this};
     auto val = db.Search(key);
 
     if (!val)
       return DB::kErrorNoData;
 
     result.clear();
-    get_fields(result, fields, field_count, **val);
+    get_fields(result, fields, field_count, *val);
 
     return DB::kOK;
   }
 
-  int Scan(const std::string &prefix, std::string &key, int record_count,
-           const DB::FieldSet *fields, int field_count,
-           std::vector<std::vector<KVPair>> &result) {
-    ReadGuard guard{*this};
-
+  int Scan(std::string &key, int record_count, const DB::FieldSet *fields,
+           int field_count, std::vector<std::vector<KVPair>> &result) {
     result.clear();
 
     for (auto it = db.lower_bound(key); it != db.end() && record_count;
          ++it, --record_count) {
-      // The table ends here
-      if (it->first.compare(0, prefix.size(), prefix) != 0)
-        break;
-
-      result.push_back(get_fields(fields, field_count, *it->second));
+      result.push_back(get_fields(fields, field_count, it->second));
     }
 
     return DB::kOK;
   }
 
-  int Update(const std::string &key, DB::FieldMap &values) {
-    std::lock_guard<std::mutex> lock(writer_mutex(key));
+  int Update(const std::string &key, int field_count, DB::FieldMap &values) {
     auto val = db.Search(key);
 
     if (!val)
-      return insert_record(key, values);
+      return insert(key, values);
 
-    auto record = std::make_unique<DB::FieldVec>(**val);
+    KVPair *fields = new KVPair[field_count];
+    int num_updates = values.size();
 
-    for (auto &value : values) {
-      auto field = std::find_if(
-          record->begin(), record->end(),
-          [&](const KVPair &field) { return field.first == value.first; });
+    std::copy(*val, *val + field_count, fields);
 
-      if (field != record->end())
-        field->second = value.second;
-      else
-        record->emplace_back(value.first, value.second);
-    }
+    for (int i = 0; (i < field_count) && num_updates; i++) {
+      KVPair &field = fields[i];
+      auto it = values.find(field.first);
 
-    release(*db.Update(key, record.release()));
+      if (it != values.end()) {
+        field.second = it->second;
+        num_updates--;
+      }
+    }
 
     return DB::kOK;
   }
 
-  bool Delete(const std::string &key) {
-    std::lock_guard<std::mutex> lock(writer_mutex(key));
+  KVPair *Delete(const std::string &key) {
     auto val = db.Delete(key);
 
-    if (val)
-      release(*val);
-
-    return val.has_value();
+    return val ? *val : nullptr;
   }
 
   template <typename Cont> int insert(const std::string &key, Cont &values) {
-    std::lock_guard<std::mutex> lock(writer_mutex(key));
+    KVPair *fields = new KVPair[values.size()];
 
-    return insert_record(key, values);
-  }
-
-  template <typename Cont>
-  int insert_record(const std::string &key, Cont &values) {
-    auto record =
-        std::make_unique<DB::FieldVec>(std::begin(values), std::end(values));
-
-    if (!db.Insert(key, record.get()))
-      return DB::kErrorConflict;
+    std::copy(std::begin(values), std::end(values), fields);
 
-    record.release();
-
-    return DB::kOK;
+    return db.Insert(key, fields) ? DB::kOK : DB::kErrorConflict;
   }
 
   std::vector<KVPair> get_fields(const DB::FieldSet *fields, int field_count,
-                                 const DB::FieldVec &record) {
+                                 const KVPair *fieldvec) {
     std::vector<KVPair> result;
 
-    get_fields(result, fields, field_count, record);
+    get_fields(result, fields, field_count, fieldvec);
 
     return result;
   }
 
   void get_fields(std::vector<KVPair> &result, const DB::FieldSet *fields,
-                  int field_count, const DB::FieldVec &record) {
-    // The record may have fewer fields than asked for
-    int num_fields = std::min(field_count, static_cast<int>(record.size()));
-
+                  int field_count, const KVPair *fieldvec) {
     if (!fields) {
-      result = DB::FieldVec{record.begin(), record.begin() + num_fields};
+      result = std::vector<KVPair>{fieldvec, fieldvec + field_count};
     } else {
       int num_field_reads = fields->size();
 
-      for (int i = 0; (i < num_fields) && num_field_reads; i++) {
-        const KVPair &field = record[i];
+      for (int i = 0; (i < field_count) && num_field_reads; i++) {
+        const KVPair &field = fieldvec[i];
 
         if (fields->count(field.first)) {
           result.push_back(field);
diff --git a/src/benchmark/ycsb/db/db_factory.cpp b/src/benchmark/ycsb/db/db_factory.cpp
index c63c790..f6aab6a 100644
--- a/src/benchmark/ycsb/db/db_factory.cpp
+++ b/src/benchmark/ycsb/db/db_factory.cpp
@@ -40,7 +40,7 @@ DB *DBFactory::CreateDB(utils::Properties &props) {
     return new LockedMapDB<SCAN, indexes::btree::map>;
   } else if (props["dbname"] == "concurrent_btree") {
     return new ConcurrentMapDB<
-        SCAN, indexes::btree::concurrent_map<std::string, DB::FieldVec *>>;
+        SCAN, indexes::btree::concurrent_map<std::string, DB::KVPair *>>;
   } else {
     return nullptr;
   }
diff --git a/src/benchmark/ycsb/db/locked_map_db.h b/src/benchmark/ycsb/db/locked_map_db.h
index 75e23ba..0af626e 100644
--- a/src/benchmark/ycsb/db/locked_map_db.h
+++ b/src/benchmark/ycsb/db/locked_map_db.h
@@ -3,7 +3,6 @@
 #include "core/db.h"
 #include "utils/properties.h"
 
-#include <algorithm>
 #include <mutex>
 #include <string>
 #include <vector>
@@ -20,7 +19,7 @@ public:
   int Read(const std::string &table, const std::string &key,
            const DB::FieldSet *fields, int field_count,
            std::vector<KVPair> &result) {
-    std::string keyind = record_key(table, key);
+    std::string keyind = table + key;
     std::lock_guard<std::mutex> lock(mutex);
 
     return Read(keyind, fields, field_count, result);
@@ -30,45 +29,45 @@ public:
            const DB::FieldSet *fields, int field_count,
            std::vector<std::vector<KVPair>> &result) {
     if constexpr (ScanSupported) {
-      std::string keyind = record_key(table, key);
+      std::string keyind = table + key;
       std::lock_guard<std::mutex> lock(mutex);
 
-      return Scan(record_key(table, ""), keyind, record_count, fields,
-                  field_count, result);
+      return Scan(keyind, record_count, fields, field_count, result);
     } else {
       throw "Scan: function not implemented!";
     }
   }
 
-  int Update(const std::string &table, const std::string &key,
-             int /* field_count */, DB::FieldMap &values) {
-    std::string keyind = record_key(table, key);
+  int Update(const std::string &table, const std::string &key, int field_count,
+             DB::FieldMap &values) {
+    std::string keyind = table + key;
     std::lock_guard<std::mutex> lock(mutex);
 
-    return Update(keyind, values);
+    return Update(keyind, field_count, values);
   }
 
   int Insert(const std::string &table, const std::string &key,
              std::vector<KVPair> &values) {
-    return insert(record_key(table, key), values, false);
+    return insert(table + key, values, false);
   }
 
   int Delete(const std::string &table, const std::string &key) {
-    std::string keyind = record_key(table, key);
+    std::string keyind = table + key;
+    KVPair *fields = nullptr;
     std::lock_guard<std::mutex> lock(mutex);
 
-    return Delete(keyind) ? DB::kOK : DB::kErrorNoData;
+    fields = Delete(key);
+
+    if (fields)
+      delete[] fields;
+
+    return fields ? DB::kOK : DB::kErrorNoData;
   }
 
 private:
-  MapType<std::string, DB::FieldVec> db;
+  MapType<std::string, KVPair *> db;
   std::mutex mutex;
 
-  static std::string record_key(const std::string &table,
-                                const std::string &key) {
-    return table + '\0' + key;
-  }
-
   int Read(std::string &key, const DB::FieldSet *fields, int field_count,
            std::vector<KVPair> &result) {
     auto it = db.find(key);
@@ -82,93 +81,86 @@ private:
     return DB::kOK;
   }
 
-  int Scan(const std::string &prefix, std::string &key, int record_count,
-           const DB::FieldSet *fields, int field_count,
-           std::vector<std::vector<KVPair>> &result) {
+  int Scan(std::string &key, int record_count, const DB::FieldSet *fields,
+           int field_count, std::vector<std::vector<KVPair>> &result) {
     result.clear();
 
     for (auto it = db.lower_bound(key); it != db.end() && record_count;
          ++it, --record_count) {
-      // The table ends here
-      if (it->first.compare(0, prefix.size(), prefix) != 0)
-        break;
-
       result.push_back(get_fields(fields, field_count, it->second));
     }
 
     return DB::kOK;
   }
 
-  int Update(const std::string &key, DB::FieldMap &values) {
+  int Update(const std::string &key, int field_count, DB::FieldMap &values) {
     auto it = db.find(key);
 
     if (it == db.end())
       return insert(key, values, true);
 
-    // Not all maps let an iterator modify the value
-    DB::FieldVec &record = db[key];
+    KVPair *fields = it->second;
+    int num_updates = values.size();
 
-    for (auto &value : values) {
-      auto field =
-          std::find_if(record.begin(), record.end(), [&](const KVPair &field) {
-            return field.first == value.first;
-          });
+    for (int i = 0; (i < field_count) && num_updates; i++) {
+      KVPair &field = fields[i];
+      auto it = values.find(field.first);
 
-      if (field != record.end())
-        field->second = value.second;
-      else
-        record.emplace_back(value.first, value.second);
+      if (it != values.end()) {
+        field.second = it->second;
+        num_updates--;
+      }
     }
 
     return DB::kOK;
   }
 
-  bool Delete(const std::string &key) {
+  KVPair *Delete(const std::string &key) {
+    KVPair *fields = nullptr;
     auto it = db.find(key);
 
-    if (it == db.end())
-      return false;
-
-    db.erase(it);
+    if (it != db.end()) {
+      fields = it->second;
+      db.erase(it);
+    }
 
-    return true;
+    return fields;
   }
 
   template <typename Cont>
   int insert(const std::string &key, Cont &values, bool locked) {
-    DB::FieldVec fields(std::begin(values), std::end(values));
+    KVPair *fields = new KVPair[values.size()];
+
+    std::copy(std::begin(values), std::end(values), fields);
 
     if (locked) {
-      db[key] = std::move(fields);
+      db[key] = fields;
     } else {
       std::lock_guard<std::mutex> lock(mutex);
-      db[key] = std::move(fields);
+      db[key] = fields;
     }
 
     return DB::kOK;
   }
 
   std::vector<KVPair> get_fields(const DB::FieldSet *fields, int field_count,
-                                 const DB::FieldVec &record) {
+                                 const KVPair *fieldvec) {
     std::vector<KVPair> result;
 
-    get_fields(result, fields, field_count, record);
+    get_fields(result, fields, field_count, fieldvec);
 
     return result;
   }
 
   void get_fields(std::vector<KVPair> &result, const DB::FieldSet *fields,
-                  int field_count, const DB::FieldVec &record) {
-    // The record may have fewer fields than asked for
-    int num_fields = std::min(field_count, static_cast<int>(record.size()));
-
+                  int field_count, const KVPair *fieldvec) {
     if (!fields) {
-      result = DB::FieldVec{record.begin(), record.begin() + num_fields};
+      result = std::vector<KVPair>{fieldvec, fieldvec + field_count};
     } else {
       int num_field_reads = fields->size();
 
-      for (int i = 0; (i < num_fields) && num_field_reads; i++) {
-        const KVPair &field = record[i];
+      for (int i = 0; (i < field_count) && num_field_reads; i++) {
+        const KVPair &field = fieldvec[i];
 
         if (fields->count(field.first)) {
           result.push_back(field);
diff --git a/src/benchmark/ycsb/ycsb.cpp b/src/benchmark/ycsb/ycsb.cpp
index f748191..98b95a3 100644
--- a/src/benchmark/ycsb/ycsb.cpp
+++ b/src/benchmark/ycsb/ycsb.cpp
@@ -24,12 +24,6 @@ static bool StrStartWith(const char *str, const char *pre);
 static string ParseCommandLine(int argc, const char *argv[],
                                utils::Properties &props);
 
-// Operations of the given thread, such that all threads together perform
-// `total_ops` of them.
-static int OpsOfThread(int total_ops, int num_threads, int thread) {
-  return total_ops / num_threads + (thread < total_ops % num_threads ? 1 : 0);
-}
-
 int DelegateClient(ycsbc::DB *db, ycsbc::CoreWorkload *wl, const int num_ops,
                    bool is_loading) {
   db->Init();
@@ -66,8 +60,7 @@ int main(const int argc, const char *argv[]) {
   int total_ops = stoi(props[ycsbc::CoreWorkload::RECORD_COUNT_PROPERTY]);
   for (int i = 0; i < num_threads; ++i) {
     actual_ops.emplace_back(async(launch::async, DelegateClient, db, &wl,
-                                  OpsOfThread(total_ops, num_threads, i),
-                                  true));
+                                  total_ops / num_threads, true));
   }
   assert((int)actual_ops.size() == num_threads);
 
@@ -85,8 +78,7 @@ int main(const int argc, const char *argv[]) {
   timer.Start();
   for (int i = 0; i < num_threads; ++i) {
     actual_ops.emplace_back(async(launch::async, DelegateClient, db, &wl,
-                                  OpsOfThread(total_ops, num_threads, i),
-                                  false));
+                                  total_ops / num_threads, false));
   }
   assert((int)actual_ops.size() == num_threads);
 
-- 
2.43.0


From 97bad0cc4f384a6a0f701d8e00d64a74d643430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 46/48] fix: concurrent B+tree never merged inner nodes

Merging two children changes their parent, so that the snapshot of the parent
was always stale when the parent itself had become underfull. Emptied inner
nodes stayed forever, and a queue-like use made the tree grow without bound.
---
 include/indexes/btree/concurrent_map.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 6748d9c..dc73f39 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -1763,12 +1763,12 @@ protected:
 
   template <typename Node>
   void merge_node(update_ops_t ops, int node_idx,
-                  const NodeSnapshotVector &snapshots, const key_type &key) {
+                  NodeSnapshotVector &snapshots, const key_type &key) {
     if (node_idx == 1)
       return;
 
     const NodeSnapshot &node_snapshot = snapshots[node_idx];
-    const NodeSnapshot &parent_snapshot = snapshots[node_idx - 1];
+    NodeSnapshot &parent_snapshot = snapshots[node_idx - 1];
     auto node = static_cast<Node *>(node_snapshot.node);
     auto parent = static_cast<inner_node_t *>(parent_snapshot.node);
     std::optional<MergeInfo> mergeinfo = get_merge_info(ops, node, parent, key);
@@ -1798,6 +1798,8 @@ protected:
         BTREE_UPDATE_STAT_NODE_BASED(merge);
 
         ops.update_inner_for_merge(parent, sibilingpos, mergednode);
+        // Our own change must not keep the parent from being merged
+        parent_snapshot = {parent, parent->getState()};
 
         sibiling->setState(
             sibiling->getState().set_deleted().increment_version());
-- 
2.43.0


From 2d0dc5f16fba4d924fa871384287e54c7f2988b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 47/48] fix: concurrent B+tree dump() did not compile

---
 include/indexes/btree/btree_dump.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/indexes/btree/btree_dump.h b/include/indexes/btree/btree_dump.h
index d84da28..ea5ebd4 100644
--- a/include/indexes/btree/btree_dump.h
+++ b/include/indexes/btree/btree_dump.h
@@ -63,10 +63,10 @@
                                                                                \
   void dump(std::ostream &ostr) const {                                        \
     std::deque<node_t *> children;                                             \
-    int current_height = m_height;                                             \
+    int current_height = this->m_height;                                       \
                                                                                \
-    if (m_root)                                                                \
-      children.push_back(m_root);                                              \
+    if (this->m_root)                                                          \
+      children.push_back(this->m_root);                                        \
                                                                                \
     while (children.size()) {                                                  \
       node_t *node = children[0];                                              \
-- 
2.43.0


From e546646299cefde2c1eaafd768beb3dca0007a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 48/48] fix: concurrent radix tree dump() did not compile

---
 include/indexes/art/art_dump.h       | 8 ++++----
 include/indexes/art/concurrent_map.h | 2 +-
 include/indexes/art/map.h            | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/indexes/art/art_dump.h b/include/indexes/art/art_dump.h
index ad9c745..b5709a8 100644
--- a/include/indexes/art/art_dump.h
+++ b/include/indexes/art/art_dump.h
@@ -4,7 +4,7 @@
 
 #include <iostream>
 
-#define ART_NODE_DUMP_METHODS                                                  \
+#define ART_NODE_DUMP_METHODS(len)                                             \
   template <typename Cont> void get_children(Cont &nodes, int depth) const {   \
     if (!is_leaf()) {                                                          \
       for (int i = 0; i < MAX_CHILDREN; i++) {                                 \
@@ -21,10 +21,10 @@
     ostr << static_cast<const void *>(this) << "=";                            \
     if (is_leaf()) {                                                           \
       auto leaf = static_cast<const leaf_t *>(this);                           \
-      ostr << "|" << itoa_hex(key) << ", " << static_cast<int>(keylen);        \
+      ostr << "|" << itoa_hex(key) << ", " << static_cast<int>(len);           \
       ostr << " {" << itoa_hex(leaf->key) << ", " << leaf->value << "}|";      \
     } else {                                                                   \
-      ostr << "|" << itoa_hex(key) << ", " << static_cast<int>(keylen) << " "; \
+      ostr << "|" << itoa_hex(key) << ", " << static_cast<int>(len) << " ";    \
                                                                                \
       for (int i = 0, j = 0; i < MAX_CHILDREN; i++) {                          \
         node_t *child = find(i);                                               \
@@ -106,6 +106,6 @@
   }                                                                            \
   void dump() const { dump(std::cout); }
 #else
-#define ART_NODE_DUMP_METHODS
+#define ART_NODE_DUMP_METHODS(len)
 #define ART_DUMP_METHODS
 #endif
diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 7066258..7ca35f0 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -370,7 +370,7 @@ private:
       }
     }
 
-    ART_NODE_DUMP_METHODS
+    ART_NODE_DUMP_METHODS(level)
   };
 
   struct node4_t;
diff --git a/include/indexes/art/map.h b/include/indexes/art/map.h
index f77d4df..f59cb7d 100644
--- a/include/indexes/art/map.h
+++ b/include/indexes/art/map.h
@@ -256,7 +256,7 @@ private:
       }
     }
 
-    ART_NODE_DUMP_METHODS
+    ART_NODE_DUMP_METHODS(keylen)
   };
 
   struct node4_t;
-- 
2.43.0

