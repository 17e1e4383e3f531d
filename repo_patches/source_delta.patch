From 538ee96502657c327838eea773bc586b1c729f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 01/26] fix: pcas no longer leaks the dirty flag or fails
 spuriously

A failed compare-and-swap returned the value it found with the dirty flag
still set, and failed when the only difference from the expected value was
that flag. A racing insert of the same key then claimed a second slot.
---
 include/persistence.hpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/persistence.hpp b/include/persistence.hpp
index 9ab0f17..a25679e 100644
--- a/include/persistence.hpp
+++ b/include/persistence.hpp
@@ -95,12 +95,30 @@ template <class U>
 static bool pcas(std::atomic<U> *address, U &oldVal, U newVal)
 {
     U oldValCopy = oldVal;
-    // Ensure the field is persisted.
-    pcas_read<U>(address);
-    // Attempt to CAS.
-    bool ret = address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag));
-    assert((ret && oldValCopy == oldVal) || (!ret && oldValCopy != oldVal));
-    return ret;
+    while (true)
+    {
+        // Ensure the field is persisted.
+        pcas_read<U>(address);
+        // Attempt to CAS.
+        U actual = oldValCopy;
+        if (address->compare_exchange_strong(actual, (U)((uintptr_t)newVal | DirtyFlag)))
+        {
+            return true;
+        }
+        // The field may have been made dirty again by another thread.
+        // Persist what we found, and never expose the dirty flag to the caller.
+        if (((uintptr_t)actual & DirtyFlag) != 0)
+        {
+            persist(address, actual);
+            actual = (U)((uintptr_t)actual & ~DirtyFlag);
+        }
+        // Only fail if the logical value really differs. Otherwise, try again.
+        if (actual != oldValCopy)
+        {
+            oldVal = actual;
+            return false;
+        }
+    }
 }
 
 #endif
-- 
2.43.0


From 575053db385eb3d72bee4d2d263b60f47a0e21de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 02/26] fix: persist a value written by pcas before returning

A completed update stayed in the cache until some later reader flushed it,
so a crash could lose acknowledged operations, or persist a migrated copy
without the migration mark it depends on.
---
 include/persistence.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/persistence.hpp b/include/persistence.hpp
index a25679e..e0ad996 100644
--- a/include/persistence.hpp
+++ b/include/persistence.hpp
@@ -103,6 +103,8 @@ static bool pcas(std::atomic<U> *address, U &oldVal, U newVal)
         U actual = oldValCopy;
         if (address->compare_exchange_strong(actual, (U)((uintptr_t)newVal | DirtyFlag)))
         {
+            // Persist the new value before the operation takes any further step.
+            persist(address, (U)((uintptr_t)newVal | DirtyFlag));
             return true;
         }
         // The field may have been made dirty again by another thread.
-- 
2.43.0


From ade6d053e29939205200a0f9f484d00171d2c433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 03/26] fix: keep the caller's update function when retrying in
 a new table

update() and increment() fell back to a plain store of the placeholder
value when the table was being resized.
---
 containers/cliffMap/hashMap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index d97a9a3..c514964 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -1125,7 +1125,7 @@ public:
                 }
                 // Try again in the new table.
                 // This is a recursive call.
-                return putIfMatch(newTable, key, newVal, oldVal);
+                return putIfMatch(newTable, key, newVal, oldVal, CAS);
 #else
                 // The key is not present.
                 return VINITIAL;
@@ -1161,7 +1161,7 @@ public:
         {
             // Copy the slot and retry in the new table.
             // This is a recursive call to the new table.
-            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);
+            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
         }
 #endif
         // Update the existing table.
@@ -1222,7 +1222,7 @@ public:
             // If a primed value was is present (placed by us or someone else), re-run put on the new table.
             if (isMarked((uintptr_t)table->value(idx), MigrationFlag))
             {
-                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);
+                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
             }
 #endif
             // Otherwise retry our put.
-- 
2.43.0


From 2c58e41eed545698740077207ba3b26c87f487a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 04/26] fix: update() applies its function even if the value
 argument is already stored

---
 containers/cliffMap/hashMap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index c514964..3717159 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -1137,7 +1137,8 @@ public:
         // Now we have a key slot.
 
         // If the value we want to place is already there.
-        if (newVal == V)
+        // A custom CAS function computes its own value, so this shortcut doesn't apply to it.
+        if (newVal == V && CAS == &Table::CASvalue)
         {
             // Then we can get away with doing nothing.
             return V;
-- 
2.43.0


From dd9188186a90ab4a040db2907a7c5dfb8fa7f19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 05/26] fix: count every migrated slot exactly once

copySlot reported progress by who copied the value, not by who retired the
slot. Slots were missed or counted twice, so helpers spun forever in
helpCopyImpl (or asserted).
---
 containers/cliffMap/hashMap.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 3717159..473f94c 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -209,23 +209,24 @@ public:
                 // Only succeeds if there isn't already a value there.
                 // If there is, we say that our write "happened before" the write that placed the existing value.
                 // In that case, we don't need to do anything.
-                bool copiedIntoNew = (hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL) == VINITIAL);
+                hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL);
 
                 // Now that the value has been migrated, replace the old table value with a tombstone.
                 // This will prevent other threads from redundantly attempting to copy to the new table.
                 // If other threads attempt this redundant computation, it will waste time but not hurt correctness.
                 // They will see the value has been migrated and fail to replace.
-                // Keep trying until we succeed.
+                // Keep trying until we succeed, or until another thread has done it for us.
                 Value actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
-                while (actualVal != oldVal)
+                while (actualVal != oldVal && actualVal != TOMBPRIME)
                 {
                     oldVal = actualVal;
                     actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
                 }
-                // Return whether or not we made progress (copied a value from the old table to the new table).
+                // Return whether or not we made progress (we are the thread that retired the slot).
+                // Each slot must be counted exactly once, or the migration never appears complete (or does so too early).
                 // Note: Stalling threads may delay reporting of completed migrations.
                 // This means old tables may continue to exist for longer than we like, but it shouldn't hurt correctness.
-                return copiedIntoNew;
+                return actualVal != TOMBPRIME;
             }
 #endif
         public:
-- 
2.43.0


From c1000355150aae903beee1ad25947418f561cc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 06/26] fix: a thread stalled during migration no longer blocks
 the others

A thread that stops between retiring a slot and reporting it kept copyDone
below the table length, and every helper spun on that counter.
---
 containers/cliffMap/hashMap.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 473f94c..628a752 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -457,6 +457,14 @@ public:
                     // Move on to the next chunk of work.
                     copyIdx += MIN_COPY_WORK;
 
+                    // After a panic, stop once we have personally seen every slot retired.
+                    // A stalled thread may never report its share of the work.
+                    if (panicStart != -1 && copyIdx - panicStart >= oldLen)
+                    {
+                        hashMap->table.compare_exchange_strong(oldTable, newTable);
+                        return;
+                    }
+
                     // Stop working after just doing the bare minimum amount of work.
                     // NOTE: This can be commented out to instead keep taking on additional chunks of work until the whole resize process is complete.
                     // if (!copyAll && panicStart == -1)
-- 
2.43.0


From e06620e415749ff877d422a9c8bf151bc8576c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 07/26] fix: a late migration copy no longer resurrects a
 removed key

A copier that stalled before writing to the new table followed that table's
own migration and wrote the stale value into the next table, undoing any
removal completed in between. Re-check the source slot before each hop.
---
 containers/cliffMap/hashMap.hpp | 39 ++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 628a752..90cd7e5 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -209,7 +209,18 @@ public:
                 // Only succeeds if there isn't already a value there.
                 // If there is, we say that our write "happened before" the write that placed the existing value.
                 // In that case, we don't need to do anything.
-                hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL);
+                // If the new table can't take the key because it is itself being migrated, move on to its successor.
+                Table *target = newTable;
+                while (hashMap->putIfMatch(target, key, oldUnmarked, VINITIAL) == TOMBPRIME)
+                {
+                    // Another thread may already have completed this migration, and the key may have changed or been removed since.
+                    // In that case, a late copy would overwrite (or resurrect) it.
+                    if (oldTable->value(idx) == TOMBPRIME)
+                    {
+                        return false;
+                    }
+                    target = target->chm.resize(hashMap, target);
+                }
 
                 // Now that the value has been migrated, replace the old table value with a tombstone.
                 // This will prevent other threads from redundantly attempting to copy to the new table.
@@ -1125,13 +1136,13 @@ public:
                 // We do this by creating a new, larger table.
                 // We don't need to migrate everything yet, but all threads will use the new table in the future.
                 newTable = table->chm.resize(this, table);
-                // Help copy over an existing value.
-                // If we are attempting to replace the value without concern for the old value, we don't have to bother with this.
-                // In practice, we only ignore this within an existing migration.
-                if (oldVal != VINITIAL)
+                // If this is part of a migration, let the caller decide whether the copy is still needed.
+                if (oldVal == VINITIAL)
                 {
-                    helpCopy(newTable);
+                    return TOMBPRIME;
                 }
+                // Help copy over an existing value.
+                helpCopy(newTable);
                 // Try again in the new table.
                 // This is a recursive call.
                 return putIfMatch(newTable, key, newVal, oldVal, CAS);
@@ -1170,8 +1181,14 @@ public:
         if (newTable != nullptr)
         {
             // Copy the slot and retry in the new table.
+            newTable = table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL);
+            // If this is part of a migration, let the caller decide whether the copy is still needed.
+            if (oldVal == VINITIAL)
+            {
+                return TOMBPRIME;
+            }
             // This is a recursive call to the new table.
-            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
+            return this->putIfMatch(newTable, key, newVal, oldVal, CAS);
         }
 #endif
         // Update the existing table.
@@ -1232,7 +1249,13 @@ public:
             // If a primed value was is present (placed by us or someone else), re-run put on the new table.
             if (isMarked((uintptr_t)table->value(idx), MigrationFlag))
             {
-                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
+                newTable = table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL);
+                // If this is part of a migration, let the caller decide whether the copy is still needed.
+                if (oldVal == VINITIAL)
+                {
+                    return TOMBPRIME;
+                }
+                return putIfMatch(newTable, key, newVal, oldVal, CAS);
             }
 #endif
             // Otherwise retry our put.
-- 
2.43.0


From db452f057d14cf3d91c30b350d261bb727d9ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 08/26] fix: size() stays exact across a resize

Each table counted its own pairs and a new table started from a snapshot of
the old one, so updates made to the old table during the migration were
never reflected. Count pairs for the whole map instead.
---
 containers/cliffMap/hashMap.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 90cd7e5..8c4a957 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -241,8 +241,8 @@ public:
             }
 #endif
         public:
-            // The number of active KV pairs.
-            // If this number gets too large, consider resizing.
+            // The number of active KV pairs found in this table when it was mapped.
+            // The running total is kept for the whole map, since a pair may move between tables.
             std::atomic<size_t> size;
 
             // The number of usable slots.
@@ -320,7 +320,7 @@ public:
                 // Total capacity of the current table.
                 size_t oldLen = table->len;
                 // Current number of KV pairs stored in the table.
-                size_t size = this->size.load();
+                size_t size = hashMap->size();
                 // An initial size estimate.
                 size_t newSize = size;
 
@@ -915,8 +915,7 @@ public:
     // This number is really only meaningful if the size is not being changed by other threads.
     size_t size()
     {
-        Table *table = this->table.load();
-        return table->chm.size.load();
+        return count.load();
     }
     bool isEmpty()
     {
@@ -1221,19 +1220,19 @@ public:
             // If we succeeded.
             if (actualValue == V)
             {
-                // Adjust the size counters for the table.
+                // Adjust the size counter.
                 // If this was a table copy, do nothing.
                 if (oldVal != VINITIAL)
                 {
                     // If we removed an initial or tombstone value with a non-tombstone.
                     if ((V == VINITIAL || V == VTOMBSTONE) && newVal != VTOMBSTONE)
                     {
-                        table->chm.size.fetch_add(1);
+                        count.fetch_add(1);
                     }
                     // If we removed a non-initial and non-tombstone value with a tombstone.
                     else if (!(V == VINITIAL || V == VTOMBSTONE) && newVal == VTOMBSTONE)
                     {
-                        table->chm.size.fetch_add(-1);
+                        count.fetch_add(-1);
                     }
                 }
                 // If we replaced an initial value when we had expected a non-initial value, return the tombstone sentinel.
@@ -1355,6 +1354,8 @@ public:
 private:
     // The structure that stores the top table.
     std::atomic<Table *> table;
+    // The number of active KV pairs.
+    std::atomic<size_t> count{0};
 };
 
 // size_t keys and values.
-- 
2.43.0


From 97d7ee194cf1dd99565de39391b91e7278fe8852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 09/26] fix: munmapTable unmaps the key-value pairs rather than
 the control structure

It passed the heap-allocated Table and the wrong length to munmap (which
fails, or unmaps heap pages if the address happens to be page aligned), and
inverted the result. The destructor, its only other user, did not compile.
---
 containers/cliffMap/hashMap.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 8c4a957..665aeec 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -772,8 +772,7 @@ public:
         }
         static bool munmapTable(Table *table)
         {
-            size_t size = table->chm.size.load();
-            bool ret = (munmap(table, (sizeof(KVpair) * size)) != 0);
+            bool ret = (munmap(table->pairs, sizeof(KVpair) * table->len) == 0);
             delete table;
             return ret;
         }
@@ -901,10 +900,10 @@ public:
     ~ConcurrentHashMap()
     {
         // TODO: Unmap all mapped files, I guess.
-        Table *table = table.load();
+        Table *table = this->table.load();
         // Unmap the file.
         // TODO: What about the other files?
-        if (!munmapTable(table))
+        if (!Table::munmapTable(table))
         {
             // Error.
             fprintf(stderr, "Failed to unmap the file from memory.\n");
-- 
2.43.0


From e1a19d5e8c76dee46ef21a3aab6a46d5ba810eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 10/26] fix: numFromName reads out of bounds and leaks

It walked off the front of a name without a directory, never terminated the
copied digits, and never freed the copy.
---
 containers/cliffMap/hashMap.hpp | 41 ++++-----------------------------
 1 file changed, 5 insertions(+), 36 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 665aeec..0e55988 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -49,6 +49,7 @@
 #include <sys/mman.h>
 #include <cstdio>
 #include <cstdlib>
+#include <cstring>
 #include <sys/stat.h>
 #include <fcntl.h>
 #include <unistd.h>
@@ -572,43 +573,11 @@ public:
         // Take a full table name with path and keep only the associated number.
         static size_t numFromName(const char *source)
         {
-            // Get the length of the string.
-            size_t len = 0;
-            while (source[len] != '\0')
-            {
-                len++;
-            }
-            // Work our way to the last ".", which comes just after the num.
-            size_t end;
-            for (size_t i = len - 1; i >= 0; i--)
-            {
-                if (source[i] == '.')
-                {
-                    end = i;
-                    break;
-                }
-            }
-            // Work our way to the last "/", which comes just before the num.
-            size_t start;
-            for (size_t i = len - 1; i >= 0; i--)
-            {
-                if (source[i] == '/')
-                {
-                    start = i;
-                    break;
-                }
-            }
-            // Copy the characters over to an appropriately sized space, say 30.
-            char *dest = (char *)malloc(sizeof(char *) * 30);
-            size_t idx = 0;
-            for (size_t i = start + 1; i < end; i++)
-            {
-                dest[idx] = source[i];
-                idx++;
-            }
-            dest[idx] = '\n';
+            // The number comes just after the last "/" (if any) and just before the ".".
+            const char *start = strrchr(source, '/');
+            start = (start == NULL) ? source : start + 1;
             // Convert the string to an integer.
-            size_t ret = atoi(dest);
+            size_t ret = strtoull(start, NULL, 10);
             // Return the integer.
             return ret;
         }
-- 
2.43.0


From d6475db5f816e4fe7ae93598c0661040f189222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 11/26] fix: a new table never adopts a leftover file, and
 appears on disk only when complete

The branches for new and existing files were swapped: a fresh table opened
whatever was there, and recovery never opened anything. A crash while a
table was being made left an empty or zero-filled file, which recovery could
not map or took for a table full of key 0.
---
 containers/cliffMap/hashMap.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 0e55988..d4c4b2d 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -611,15 +611,15 @@ public:
             // If we want to map a new file.
             if (newTable)
             {
-                // Try to open an existing hash table.
-                fd = open(fileName, O_RDWR);
+                // Never adopt the contents of a leftover file.
+                // Report table doesn't exist.
+                fd = -1;
             }
             // If we want to map an existing file.
             else
             {
                 // We will open the existing file.
-                // Report table doesn't exist.
-                fd = -1;
+                fd = open(fileName, O_RDWR);
             }
 
             // If we opened an existing file, just map the data.
@@ -691,7 +691,9 @@ public:
             else
             {
                 // Create and open the file.
-                fd = open(fileName, O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);
+                // Use a temporary name until the contents are valid and persistent, so that recovery never finds a half-made table.
+                const std::string tempName = std::string(fileName) + ".tmp";
+                fd = open(tempName.c_str(), O_RDWR | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR);
                 if (fd == -1)
                 {
                     // Error.
@@ -728,6 +730,13 @@ public:
                 // Persist all keys and values.
                 // Everything else can be inferred upon recovery.
                 PERSIST(pairs, sizeof(KVpair) * tableCapacity);
+                // The table is complete. Give it its real name.
+                if (rename(tempName.c_str(), fileName) != 0)
+                {
+                    // Error.
+                    std::cerr << "Failed to rename the file." << std::endl;
+                    throw std::runtime_error("cannot create or open file");
+                }
                 // Allocate our table.
                 // We pass in the location of our KV pairs to assign them to the structure.
                 // We pass in the size of the table to assign the length.
-- 
2.43.0


From aa698a3b3628cd8925360d94f3dda1a340e70ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 12/26] fix: recovery loses a key whose migration was
 interrupted

A claimed key without a value was always turned into a tombstone. If the key
was being copied from an older table, the copy then looked complete and the
value in the older table was discarded.
---
 containers/cliffMap/hashMap.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index d4c4b2d..77d941f 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -662,18 +662,8 @@ public:
                     Value V = table->value(i);
                     Key K = table->key(i);
 
-                    // While we're at it, check for inconsistent table entries.
-                    // THis is the only situation I've come up with where we could have a problem with partial persists.
-                    if (K != KINITIAL && V == VINITIAL)
-                    {
-                        // If the key has been set but the value hasn't, then we have an incomplete insert on our hands.
-                        // Just make it a tombstone since we don't know what value it should have been.
-                        Table::CASvalue(table, i, VINITIAL, VTOMBSTONE);
-                        // Update the replaced value for subsequent use in this loop.
-                        V = table->value(i);
-                        // We should always succeed. We are running sequentially, after all.
-                        assert(V == VTOMBSTONE);
-                    }
+                    // NOTE: A key without a value is an incomplete insert, or an incomplete copy from an older table.
+                    // It must stay as it is. A tombstone would make the copy look complete, and lose the older table's value.
 
                     // Anything that's not a sentinel.
                     if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME)
-- 
2.43.0


From b4d133d8893aa3dfff6572e54dec41ace43ee8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 13/26] fix: recovery rebuilds the map from its table files

File names lacked their directory and were sorted as text; a table was
unmapped and then used; an empty directory indexed an empty vector; the file
counter pointed at the newest existing table, which the next resize then
reused; a table caught mid-migration had no successor; the size was zero.
---
 containers/cliffMap/hashMap.hpp | 60 ++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 77d941f..dded19a 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -760,18 +760,19 @@ public:
             std::filesystem::path path = fileDir;
             for (auto &p : std::filesystem::directory_iterator(path))
             {
-                const std::string filenameStr = p.path().filename().string();
-                if (p.is_regular_file())
+                const std::string filenameStr = p.path().string();
+                // Skip anything else, such as a table that was never completed.
+                if (p.is_regular_file() && p.path().extension() == ".dat")
                 {
                     tableNames.push_back(filenameStr);
                 }
             }
 
-            // Sort the tables by name.
+            // Sort the tables by number, oldest first.
             std::sort(tableNames.begin(), tableNames.end(),
                       [](std::string a, std::string b)
                       {
-                          return a.compare(b) < 0;
+                          return Table::numFromName(a.c_str()) < Table::numFromName(b.c_str());
                       });
 
             // For each table.
@@ -782,12 +783,6 @@ public:
                 // Allocate an mmapped table.
                 Table *table = Table::mmapTable(!reconstruct, size, 0, (*it).c_str());
 
-                // If the table is empty, deallocate it and continue.
-                if (table->chm.size.load() == 0)
-                {
-                    Table::munmapTable(table);
-                }
-
                 // If the table is fully migrated, deallocate it and continue.
                 bool migrationDone = true;
                 // Check for non-migrated values.
@@ -843,12 +838,53 @@ public:
                     assert(CASSucceed);
                 }
             }
+            // Ensure we use unique file names.
+            fileNameCounter.store(tableNames.empty() ? 0 : Table::numFromName(lastTableName.c_str()) + 1);
+
+            // If nothing was left to recover, start with an empty table.
+            if (tables.empty())
+            {
+                tables.push_back(Table::mmapTable(reconstruct, size, 0));
+            }
             // Store the lowest table with an incomplete migration, as the base.
             // Might as well not migrate during recovery, since we lose out on parallel migration performance.
             this->table.store(tables[0]);
 
-            // Ensure we use unique file names.
-            fileNameCounter.store(Table::numFromName(lastTableName.c_str()));
+            // If the migration of the newest table had begun, but nothing reached the table it was migrating to, then that table is gone.
+            // Marked values need somewhere to go.
+            Table *lastTable = tables.back();
+            for (size_t i = 0; i < lastTable->len; i++)
+            {
+                if (isMarked((uintptr_t)lastTable->value(i), MigrationFlag))
+                {
+                    lastTable->chm.resize(this, lastTable);
+                    break;
+                }
+            }
+            // Complete the copies that were in progress. Otherwise, we could find the same pair in two tables.
+            for (Table *table : tables)
+            {
+                for (size_t i = 0; i < table->len; i++)
+                {
+                    Value V = table->value(i);
+                    if (isMarked((uintptr_t)V, MigrationFlag) && V != TOMBPRIME)
+                    {
+                        table->chm.copySlotAndCheck(this, table, i, true);
+                    }
+                }
+            }
+            // Count the pairs we recovered.
+            for (Table *table = tables[0]; table != nullptr; table = table->chm.newTable.load())
+            {
+                for (size_t i = 0; i < table->len; i++)
+                {
+                    Value V = table->value(i);
+                    if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME)
+                    {
+                        count.fetch_add(1);
+                    }
+                }
+            }
         }
         else
         {
-- 
2.43.0


From 7785cd32b79bb6fdca364db2bce790490bad2596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 14/26] fix: remove(key) reports whether the key was present

---
 containers/cliffMap/hashMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index dded19a..80bb9c0 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -938,7 +938,7 @@ public:
     }
     bool remove(Key key)
     {
-        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD);
+        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD) != VINITIAL;
     }
     // Remove key with specified value.
     bool remove(Key key, Value value)
-- 
2.43.0


From bd1cb50792687bd7faefe902a9e9cdbd1b14e8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 15/26] fix: ucf insert() reports whether the element was newly
 inserted, as the other containers do

---
 containers/ucfMap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/containers/ucfMap.hpp b/containers/ucfMap.hpp
index 78a07f5..709689d 100644
--- a/containers/ucfMap.hpp
+++ b/containers/ucfMap.hpp
@@ -17,7 +17,8 @@ namespace ucf
             //assert((shiftedEl >> ConcurrentHashMap<KeyT, ValT>::BITS_MARKED) == el);
 
             ValT x = c->put(shiftedEl, shiftedEl);
-            return x == shiftedEl;
+            // Nothing was there before, so the element was newly inserted.
+            return (ConcurrentHashMap<KeyT, ValT>::isValueReserved(x));
         }
 
         bool erase(ValT el)
-- 
2.43.0


From 83baf049708ef753e19fa48a8d288645084150e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 16/26] fix: stl get() and count() read the map without holding
 its lock

---
 containers/stlMap.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/containers/stlMap.hpp b/containers/stlMap.hpp
index 9d10f83..ec38759 100644
--- a/containers/stlMap.hpp
+++ b/containers/stlMap.hpp
@@ -38,6 +38,7 @@ namespace stl
 
         ValT get(KeyT el)
         {
+            guard_type g(global_lock);
             try
             {
                 return c->at(el);
@@ -50,6 +51,7 @@ namespace stl
 
         size_t count()
         {
+            guard_type g(global_lock);
             return c->size();
         }
 
-- 
2.43.0


From e94d25740b3ce7ba7b360daaf23ae2eea099b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 17/26] fix: a few colliding keys no longer grow the table
 without bound

slots counts claimed key slots, but started at the table capacity, so the
load test in tableFull always passed: eleven keys that share their low bits
doubled the table until memory ran out.
---
 containers/cliffMap/hashMap.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 80bb9c0..87d0333 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -246,7 +246,7 @@ public:
             // The running total is kept for the whole map, since a pair may move between tables.
             std::atomic<size_t> size;
 
-            // The number of usable slots.
+            // The number of claimed key slots.
             // If this number gets too large, consider resizing.
             std::atomic<size_t> slots;
 
@@ -282,7 +282,7 @@ public:
             CHM(size_t tableCapacity = Table::MIN_SIZE, size_t existingSize = 0, size_t id = 0)
             {
                 this->size.store(existingSize);
-                slots.store(tableCapacity);
+                slots.store(0);
                 this->id = id;
 #ifdef RESIZE
                 newTable.store(nullptr);
@@ -670,8 +670,8 @@ public:
                     {
                         table->chm.size.fetch_add(1);
                     }
-                    // Anything left that's not a tombstone.
-                    else if (V != VTOMBSTONE && V != TOMBPRIME)
+                    // Anything that's been claimed.
+                    if (K != KINITIAL)
                     {
                         table->chm.slots.fetch_add(1);
                     }
-- 
2.43.0


From ab3c115750c2d931d50ac0b7833c9a803054414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 18/26] fix: clevel inserts used staging entries outside the
 one-entry array, shared with the expansion thread

---
 containers/levelMap.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/containers/levelMap.hpp b/containers/levelMap.hpp
index f9e2dae..c6eb9cf 100644
--- a/containers/levelMap.hpp
+++ b/containers/levelMap.hpp
@@ -45,7 +45,8 @@ namespace clevel
             assert(map != nullptr);
 
             // NOTE: id appears unused. Just pass in the key.
-            auto r = map->insert(value_type(val, val), localThreadNum, static_cast<size_t>(val));
+            // Thread id 0 belongs to the container's own expansion thread.
+            auto r = map->insert(value_type(val, val), localThreadNum + 1, static_cast<size_t>(val));
             return (!r.found);
         }
 
@@ -111,7 +112,8 @@ namespace clevel
                 pmem::obj::transaction::manual tx(pop);
 
                 proot->cons = pmem::obj::make_persistent<root::map_type>();
-                proot->cons->set_thread_num(1);
+                // One entry for each worker thread and one for the expansion thread.
+                proot->cons->set_thread_num(opt.numthreads + 1);
 
                 pmem::obj::transaction::commit();
             }
-- 
2.43.0


From 06a25330b01b559131fecdd15af9d9bc42a4aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 19/26] fix: return the assigned state from the xxHash
 streaming assignment operators

---
 hashing/xxhash.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hashing/xxhash.hpp b/hashing/xxhash.hpp
index 91f22fc..cbbb295 100644
--- a/hashing/xxhash.hpp
+++ b/hashing/xxhash.hpp
@@ -1920,6 +1920,7 @@ namespace xxh
 		hash_state_t operator=(hash_state_t<bit_mode> &other)
 		{
 			memcpy(this, &other, sizeof(hash_state_t<bit_mode>));
+			return *this;
 		}
 
 		void reset(uint_t<bit_mode> seed = 0)
@@ -2096,6 +2097,7 @@ namespace xxh
 		hash3_state_t operator=(hash3_state_t &other)
 		{
 			memcpy(this, &other, sizeof(hash3_state_t));
+			return *this;
 		}
 
 		hash3_state_t(uint64_t seed = 0)
-- 
2.43.0


From 5853f093310f3736bf3e40da8f5aa5d6e0a01206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 20/26] fix: keep the bytes before a short last stripe when
 XXH3 streaming skips its buffer

---
 hashing/xxhash.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hashing/xxhash.hpp b/hashing/xxhash.hpp
index cbbb295..7bc70f5 100644
--- a/hashing/xxhash.hpp
+++ b/hashing/xxhash.hpp
@@ -2055,6 +2055,8 @@ namespace xxh
 					consume_stripes(acc, nbStripesSoFar, internal_buffer_stripes, input, accWidth);
 					input += internal_buffer_size;
 				} while (input <= limit);
+				/* the last stripe of a digest may need the bytes just consumed */
+				memcpy(buffer + sizeof(buffer) - detail3::stripe_len, input - detail3::stripe_len, detail3::stripe_len);
 			}
 
 			if (input < bEnd)
-- 
2.43.0


From 38a1aa5a9d29898e63403afdf2b340db9c2d6622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 21/26] fix: help a stalled clevel expansion with the capacity
 of the new level

---
 include/libpmemobj++/experimental/clevel_hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 1bdde1f..714e649 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -1379,7 +1379,7 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::expand(
 
 		if (meta == m_copy)
 		{
-			size_type new_capacity = cl->capacity;
+			size_type new_capacity = cl->up.get_address(my_pool_uuid)->capacity;
 
 			// Update the first_level and is_resizing in the metadata.
 			while (true)
-- 
2.43.0


From ef0c14831b95cdec9b18c7caba687fc31b50a90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 22/26] fix: clevel erase freed an entry twice when two slots
 referred to it

---
 .../libpmemobj++/experimental/clevel_hash.hpp | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 714e649..1813f7c 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -1107,6 +1107,7 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 	partial_t partial = get_partial(hv);
 	difference_type expand_bucket_old;
 	bool succ_deletion = false;
+	uint64_t freed = 0;
 
 	while(true)
 	{
@@ -1138,8 +1139,14 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 							pop.persist(&(f_b.slots[j].p.off), sizeof(uint64_t));
 							succ_deletion = true;
 
-							PMEMoid oid = tmp.p.raw_ptr(my_pool_uuid);
-							pmemobj_free(&oid);
+							// An entry can be in two slots (a re-insertion, or
+							// a movement to another level cut by a crash).
+							if (tmp.p.get_offset() != freed)
+							{
+								freed = tmp.p.get_offset();
+								PMEMoid oid = tmp.p.raw_ptr(my_pool_uuid);
+								pmemobj_free(&oid);
+							}
 
 
 				// Instead of redoing the delete to guarantee the deletion is
@@ -1178,8 +1185,14 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 							pop.persist(&(s_b.slots[j].p.off), sizeof(uint64_t));
 							succ_deletion = true;
 
-							PMEMoid oid = tmp.p.raw_ptr(my_pool_uuid);
-							pmemobj_free(&oid);
+							// An entry can be in two slots (a re-insertion, or
+							// a movement to another level cut by a crash).
+							if (tmp.p.get_offset() != freed)
+							{
+								freed = tmp.p.get_offset();
+								PMEMoid oid = tmp.p.raw_ptr(my_pool_uuid);
+								pmemobj_free(&oid);
+							}
 
 
 				// Instead of redoing the delete to guarantee the deletion is
-- 
2.43.0


From 08794766b16b0a8fed9d00a6200dbf5084d60dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 23/26] fix: clevel erase compared with an uninitialised bucket
 number

---
 include/libpmemobj++/experimental/clevel_hash.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 1813f7c..4b0f5b5 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -1112,6 +1112,7 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 	while(true)
 	{
 		level_meta_ptr_t m_copy(meta);
+		expand_bucket_old = expand_bucket;
 		level_meta *m = static_cast<level_meta *>(m_copy(my_pool_uuid));
 
 		difference_type f_idx, s_idx;
-- 
2.43.0


From 601524fd31262e190d43996f7003d9b22cf3a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 24/26] fix: clevel search looked at a slot twice and
 dereferenced null when it was emptied between

---
 include/libpmemobj++/experimental/clevel_hash.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 4b0f5b5..86ff6c1 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -570,11 +570,12 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::search(
 			bucket &f_b = cl->buckets[f_idx];
 			for (size_type j = 0; j < assoc_num; j++)
 			{
-				if (f_b.slots[j].x.partial == partial
-					&& f_b.slots[j].p.get_offset() != 0)
+				KV_entry_ptr_u tmp(f_b.slots[j].p.off);
+				if (tmp.x.partial == partial
+					&& tmp.p.get_offset() != 0)
 				{
 					if (key_equal{}(
-						f_b.slots[j].p.get_address(my_pool_uuid)->first, key))
+						tmp.p.get_address(my_pool_uuid)->first, key))
 					{
 						return ret(i, f_idx, j);
 					}
@@ -584,11 +585,12 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::search(
 			bucket &s_b = cl->buckets[s_idx];
 			for (size_type j = 0; j < assoc_num; j++)
 			{
-				if (s_b.slots[j].x.partial == partial
-					&& s_b.slots[j].p.get_offset() != 0)
+				KV_entry_ptr_u tmp(s_b.slots[j].p.off);
+				if (tmp.x.partial == partial
+					&& tmp.p.get_offset() != 0)
 				{
 					if (key_equal{}(
-						s_b.slots[j].p.get_address(my_pool_uuid)->first, key))
+						tmp.p.get_address(my_pool_uuid)->first, key))
 					{
 						return ret(i, s_idx, j);
 					}
-- 
2.43.0


From fa98cc0e137f3e92f3f335b04d0fba63a7fab40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 25/26] fix: clevel erase frees an entry only when no slot
 refers to it anymore

---
 .../libpmemobj++/experimental/clevel_hash.hpp | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 86ff6c1..1722f98 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -27,6 +27,7 @@
 #include <cassert>
 #include <cmath>
 #include <cstddef>
+#include <algorithm>
 #include <cstdint>
 #include <cstdlib>
 #include <functional>
@@ -1109,7 +1110,7 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 	partial_t partial = get_partial(hv);
 	difference_type expand_bucket_old;
 	bool succ_deletion = false;
-	uint64_t freed = 0;
+	std::vector<uint64_t> erased;
 
 	while(true)
 	{
@@ -1144,12 +1145,10 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 
 							// An entry can be in two slots (a re-insertion, or
 							// a movement to another level cut by a crash).
-							if (tmp.p.get_offset() != freed)
-							{
-								freed = tmp.p.get_offset();
-								PMEMoid oid = tmp.p.raw_ptr(my_pool_uuid);
-								pmemobj_free(&oid);
-							}
+							// Free it once, when no slot refers to it anymore.
+							if (std::find(erased.begin(), erased.end(),
+								tmp.p.get_offset()) == erased.end())
+								erased.push_back(tmp.p.get_offset());
 
 
 				// Instead of redoing the delete to guarantee the deletion is
@@ -1190,12 +1189,10 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 
 							// An entry can be in two slots (a re-insertion, or
 							// a movement to another level cut by a crash).
-							if (tmp.p.get_offset() != freed)
-							{
-								freed = tmp.p.get_offset();
-								PMEMoid oid = tmp.p.raw_ptr(my_pool_uuid);
-								pmemobj_free(&oid);
-							}
+							// Free it once, when no slot refers to it anymore.
+							if (std::find(erased.begin(), erased.end(),
+								tmp.p.get_offset()) == erased.end())
+								erased.push_back(tmp.p.get_offset());
 
 
 				// Instead of redoing the delete to guarantee the deletion is
@@ -1224,7 +1221,14 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 
 		// Context checking.
 		if (m_copy == meta)
+		{
+			for (uint64_t off : erased)
+			{
+				PMEMoid oid{my_pool_uuid, off};
+				pmemobj_free(&oid);
+			}
 			return ret(succ_deletion);
+		}
 	} // end while(true)
 
 }
-- 
2.43.0


From f341de1ff896f3ad16a85628e159a9a357fd6aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:12 +0000
Subject: [PATCH 26/26] fix: clevel insert lost its element when its level was
 moved or dropped before the element was stored

---
 .../libpmemobj++/experimental/clevel_hash.hpp | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 1722f98..249e313 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -1064,8 +1064,26 @@ RETRY_INSERT:
 		{
 			if (CAS(&(e->off), old_e.raw(), created.p.raw()))
 			{
-				if (!m->is_resizing && meta(my_pool_uuid)->is_resizing &&
-					level_num == 0)
+				bool redo = false;
+				if (m_copy != meta)
+				{
+					// Levels may have been added or dropped during the insert.
+					// Our level keeps the new item unless it is the one that
+					// is moved now, or it is gone.
+					level_ptr_t level = m->last_level;
+					for (uint64_t i = 0; i < level_num; i++)
+						level = level.get_address(my_pool_uuid)->up;
+
+					level_meta *now = meta(my_pool_uuid);
+					level_ptr_t li = now->last_level;
+					redo = li == level && now->is_resizing;
+					while (li != level && !redo)
+					{
+						redo = li == now->first_level;
+						li = li.get_address(my_pool_uuid)->up;
+					}
+				}
+				if (redo)
 				{
 					// Resizing may occur during the insert. Hence, redo the
 					// insertion to avoid missing the new item. The possible
-- 
2.43.0

