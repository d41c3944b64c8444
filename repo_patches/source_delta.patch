From e35687861a96c370a054e6446b4790167af1abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 01/18] fix: mask store offsets with the rounded chunk size

---
 .../com/bytefacets/collections/store/KeyChunkMatrixStore.ftl    | 2 +-
 .../com/bytefacets/collections/store/KeyChunkStore.ftl          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
index 2c10cc9..54a8dfd 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
@@ -36,7 +36,7 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
     public ${type.name}ChunkMatrixStore(final int initialSize, final int chunkSize, final int numFields) {
         assertValidConfig(initialSize, chunkSize, numFields);
         this.chunkSize = NumUtils.nextPowerOf2(chunkSize);
-        this.chunkMask = chunkSize - 1;
+        this.chunkMask = this.chunkSize - 1;
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         this.numFields = numFields;
         final int rawSize = initialSize * numFields;
diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
index dc18933..1f585f7 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
@@ -24,7 +24,7 @@ public final class ${type.name}ChunkStore${generics} implements ${type.name}Stor
 
     public ${type.name}ChunkStore(final int initialSize, final int chunkSize) {
         this.chunkSize = NumUtils.nextPowerOf2(chunkSize);
-        this.chunkMask = chunkSize - 1;
+        this.chunkMask = this.chunkSize - 1;
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         final int requiredChunks = (int) Math.ceil((double)initialSize / (double)this.chunkSize);
         this.chunks = new ${type.arrayType}[requiredChunks][this.chunkSize];
-- 
2.43.0


From 15614ec4712019c9ed955ccbe3074d31c73f9f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 02/18] fix: size relation links for the first association of a
 key too

---
 .../src/main/java/com/bytefacets/collections/bi/Side.java       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/Side.java b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
index 3f542f0..2fe1d72 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/Side.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
@@ -35,9 +35,9 @@ public final class Side {
 
     void insertEntry(final int key, final int entry) {
         ensureKey(key);
+        ensureEntry(entry);
         final int oldHead = heads[key];
         if (oldHead != UNSET) {
-            ensureEntry(entry);
             nexts[entry] = oldHead; // prepend
             prevs[oldHead] = entry;
         }
-- 
2.43.0


From b4a7077d3d6edc993ce491061b54e4a3ea63ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 03/18] fix: enumerate nothing for a relation key never seen

---
 .../src/main/java/com/bytefacets/collections/bi/Side.java | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/Side.java b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
index 2fe1d72..e7def46 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/Side.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
@@ -30,7 +30,7 @@ public final class Side {
         if (count == null) {
             throw new IllegalStateException("Counts are not tracked in this collection");
         }
-        return key < count.length ? count[key] : 0;
+        return key >= 0 && key < count.length ? count[key] : 0;
     }
 
     void insertEntry(final int key, final int entry) {
@@ -131,7 +131,11 @@ public final class Side {
         }
 
         public void reset() {
-            this.entry = heads[key];
+            if (key >= 0 && key < heads.length) {
+                this.entry = heads[key];
+            } else {
+                this.entry = UNSET;
+            }
         }
 
         @Override
-- 
2.43.0


From eede6db640f076cf0fb00fca1e0434c7091f6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 04/18] fix: report exactly the live entries as valid heap
 entries

---
 .../java/com/bytefacets/collections/heap/BaseHeap.java     | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
index da46966..60a98e1 100755
--- a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
+++ b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
@@ -40,7 +40,7 @@ abstract class BaseHeap {
     }
 
     public void forEachEntry(final IntConsumer entryConsumer) {
-        for (int entry = 0; entry < size; entry++) {
+        for (int entry = 0; entry < inverse.length; entry++) {
             if (isValidEntry(entry)) {
                 entryConsumer.accept(entry);
             }
@@ -48,7 +48,10 @@ abstract class BaseHeap {
     }
 
     public boolean isValidEntry(final int entry) {
-        return (entry < inverse.length && inverse[entry] >= 0 && inverse[entry] < size);
+        return (entry >= 0
+                && entry < inverse.length
+                && inverse[entry] < size
+                && tree[inverse[entry]] == entry);
     }
 
     protected void growHeap(final int capacity) {
-- 
2.43.0


From 5d7831ff62455e2f51dc59d37a81f7f7aa7d1d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 05/18] fix: reject removal of a heap entry that was never
 handed out

---
 .../templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
index de2fcf6..04cc0e7 100644
--- a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
@@ -105,7 +105,7 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
         final int node = inverse[entry];
 
         // the node is unknown or somehow outside the limits of the heap
-        if(node == -1 || node >= size) {
+        if(node == -1 || node >= size || tree[node] != entry) {
             throw new InvalidEntryException(
                 String.format("Tried to remove entry that does not exist: entry=%d, node=%d, size=%d",
                               size, entry, node, size));
-- 
2.43.0


From 1767a450981d37b7a3c4bd735107d51171156e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 06/18] fix: clear the keys and values of every heap entry

---
 .../templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl   | 2 +-
 .../templates/com/bytefacets/collections/heap/KeyValueHeap.ftl  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
index 04cc0e7..b6a0c30 100644
--- a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
@@ -74,7 +74,7 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
     public void clear() {
         IntArray.fill(tree, IntType.DEFAULT);
         IntArray.fill(inverse, IntType.DEFAULT);
-        ${type.name}Array.fill(keys, defaultKey, 0, size);
+        ${type.name}Array.fill(keys, defaultKey);
         clearValues();
         freeCount = 0;
         size = 0;
diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
index 35be3a9..6554e1b 100755
--- a/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
@@ -91,6 +91,6 @@ public class ${key.name}${value.name}Heap${generics} extends Base${key.name}Heap
 
     @Override
     protected void clearValues() {
-        ${value.name}Array.fill(values, defaultValue, 0, size);
+        ${value.name}Array.fill(values, defaultValue);
     }
 }
-- 
2.43.0


From b90a94c398399e78481db97f3d201f95ef544d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 07/18] fix: reuse hydra deque entries after clear

---
 .../templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl b/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
index cedf239..9bf6746 100644
--- a/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
@@ -192,6 +192,7 @@ public final class ${type.name}HydraDeque${generics} {
         ${type.name}Array.fill(values, ${type.name}Type.DEFAULT);
         freeList = -1;
         size = 0;
+        maxEntry = -1;
     }
 
     /** Creates an iterator over the given list id. */
-- 
2.43.0


From b35153889ce0e81fb620df1dfbd547b761d5c611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 08/18] fix: copy the hash and equality methods in copyFrom

---
 .../com/bytefacets/collections/hash/BaseKeyIndex.ftl          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index 55a4517..f094f06 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -26,7 +26,9 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
 
     protected void copyFrom(final Base${type.name}Index${generics} source) {
         super.copyFrom(source);
-        
+        hashFunc = source.hashFunc;
+        equalFunc = source.equalFunc;
+
         // keys array should be big enough
         if(keys.length < source.keys.length ) {
             keys = ${type.name}Array.create(source.keys.length);
-- 
2.43.0


From d70400da67a00f61b3aceabb5d9454c9d88fdc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 09/18] fix: keep the free list when rehashing

---
 .../templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index f094f06..74c69bd 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -259,7 +259,7 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
         calculateNewCapacity();
 
         heads = IntArray.create(capacity, -1);
-        nexts = IntArray.create(capacity, -1);
+        nexts = IntArray.copyOf(oldNexts, capacity, -1); // keeps the links of the free list
 
         // rebuild
         growKeys(capacity);
-- 
2.43.0


From e2d86fd234195b9ca9de84572105a7327f555b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 10/18] fix: detect a clear in entry iterators

---
 .../src/main/java/com/bytefacets/collections/hash/BaseHash.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index 3fb6e77..2021a2c 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -85,7 +85,7 @@ abstract class BaseHash {
             clearValues();
             size = 0;
         }
-        modificationCount = 0;
+        modificationCount++;
         nextUnusedEntry = 0;
         freeList = -1;
         maxHead = 0;
-- 
2.43.0


From 1b97e820643f0b493067f5f478c59adf74cfd431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 11/18] fix: release the key removed through an entry iterator

---
 .../main/java/com/bytefacets/collections/hash/BaseHash.java  | 3 +++
 .../com/bytefacets/collections/hash/BaseKeyIndex.ftl         | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index 2021a2c..ef4b072 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -114,6 +114,8 @@ abstract class BaseHash {
         }
     }
 
+    protected abstract void removeKey(int entry);
+
     protected abstract void removeValue(int entry);
 
     protected abstract void growValues(int size);
@@ -258,6 +260,7 @@ abstract class BaseHash {
             freeList = entry;
             size--;
 
+            removeKey(entry);
             removeValue(entry);
             isRemoved = true;
 
diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index 74c69bd..ed40f09 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -150,6 +150,11 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
         removeValue(entry);
     }
 
+    @Override
+    protected void removeKey(final int entry) {
+        keys[entry] = ${type.name}Type.DEFAULT;
+    }
+
     protected int remove(final ${type.javaType} key, final boolean free) {
         final int head = computeHead(key);
         final int headEntry = heads[head];
-- 
2.43.0


From 94e625b31c0042175c87a31d18c58df427b9fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 12/18] fix: release reserved keys and values when clearing an
 empty collection

---
 .../src/main/java/com/bytefacets/collections/hash/BaseHash.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index ef4b072..d806ce6 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -72,7 +72,7 @@ abstract class BaseHash {
     }
 
     public void clear() {
-        if (size > 0) {
+        if (nextUnusedEntry > 0) {
             int lim;
 
             lim = Math.min(heads.length, maxHead + 1);
-- 
2.43.0


From 8199eeb31999cc67ee08994c2e251e9fa8e4d09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 13/18] fix: compare ints and longs without overflow

---
 .../java/com/bytefacets/collections/types/IntType.java | 10 ++++++----
 .../com/bytefacets/collections/types/LongType.java     |  6 ++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/IntType.java b/collections/src/main/java/com/bytefacets/collections/types/IntType.java
index 5e155d6..a279782 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/IntType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/IntType.java
@@ -21,10 +21,12 @@ public final class IntType {
         int compare(int a, int b);
     }
 
-    public static final Cmp Asc = (a, b) -> a - b;
-    public static final Cmp Desc = (a, b) -> b - a;
-    public static final Cmp AbsAsc = (a, b) -> Math.abs(a) - Math.abs(b);
-    public static final Cmp AbsDesc = (a, b) -> Math.abs(b) - Math.abs(a);
+    public static final Cmp Asc = Integer::compare;
+    public static final Cmp Desc = (a, b) -> Integer.compare(b, a);
+    public static final Cmp AbsAsc =
+            (a, b) -> Integer.compareUnsigned(Math.abs(a), Math.abs(b));
+    public static final Cmp AbsDesc =
+            (a, b) -> Integer.compareUnsigned(Math.abs(b), Math.abs(a));
 
     public static Cmp comparatorFor(final CompareMethod method) {
         return switch (method) {
diff --git a/collections/src/main/java/com/bytefacets/collections/types/LongType.java b/collections/src/main/java/com/bytefacets/collections/types/LongType.java
index 8bb56e7..34d50cd 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/LongType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/LongType.java
@@ -19,8 +19,10 @@ public final class LongType {
 
     public static final Cmp Asc = Long::compare;
     public static final Cmp Desc = (a, b) -> Long.compare(b, a);
-    public static final Cmp AbsAsc = (a, b) -> Long.compare(Math.abs(a), Math.abs(b));
-    public static final Cmp AbsDesc = (a, b) -> Long.compare(Math.abs(b), Math.abs(a));
+    public static final Cmp AbsAsc =
+            (a, b) -> Long.compareUnsigned(Math.abs(a), Math.abs(b));
+    public static final Cmp AbsDesc =
+            (a, b) -> Long.compareUnsigned(Math.abs(b), Math.abs(a));
 
     public static Cmp comparatorFor(final CompareMethod method) {
         return switch (method) {
-- 
2.43.0


From c2cacdfe6fbd14f1e8fb6845f9689560b89bcdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 14/18] fix: order NaN consistently in the double comparators

---
 .../java/com/bytefacets/collections/types/DoubleType.java     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
index bfa5c45..8be0e2c 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
@@ -18,8 +18,8 @@ public final class DoubleType {
         int compare(double a, double b);
     }
 
-    public static final Cmp Asc = (a, b) -> (int) Math.signum(a - b);
-    public static final Cmp Desc = (a, b) -> (int) Math.signum(b - a);
+    public static final Cmp Asc = Double::compare;
+    public static final Cmp Desc = (a, b) -> Double.compare(b, a);
     public static final Cmp AbsAsc = (a, b) -> Asc.compare(Math.abs(a), Math.abs(b));
     public static final Cmp AbsDesc = (a, b) -> Desc.compare(Math.abs(a), Math.abs(b));
 
-- 
2.43.0


From 1ebba9e4719acf88ff0d6396f69363a441175b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 15/18] fix: compare a non-null string or object with null

---
 .../java/com/bytefacets/collections/types/GenericType.java     | 3 +++
 .../main/java/com/bytefacets/collections/types/StringType.java | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/GenericType.java b/collections/src/main/java/com/bytefacets/collections/types/GenericType.java
index d711da1..58cba2e 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/GenericType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/GenericType.java
@@ -34,6 +34,9 @@ public final class GenericType {
         if (a == null) {
             return 1;
         }
+        if (b == null) {
+            return -1;
+        }
         final Comparable aCmp = (Comparable) a;
         return aCmp.compareTo(b);
     }
diff --git a/collections/src/main/java/com/bytefacets/collections/types/StringType.java b/collections/src/main/java/com/bytefacets/collections/types/StringType.java
index 618619a..23740db 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/StringType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/StringType.java
@@ -40,6 +40,9 @@ public final class StringType {
         if (a == null) {
             return 1;
         }
+        if (b == null) {
+            return -1;
+        }
         return method.compare(a, b);
     }
 
-- 
2.43.0


From 96aa435a1bcf8b9081b19f50a3a4dcc43167df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 16/18] fix: keep waiting when the snowflake clock moves
 backward

---
 .../src/main/java/com/bytefacets/collections/id/Snowflake.java  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
index 1cf6cc7..f5fe850 100644
--- a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
+++ b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
@@ -94,7 +94,7 @@ public final class Snowflake {
     // Block and wait till next millisecond
     private long waitNextMillis(final long currentTimestamp) {
         long nextTimestamp = currentTimestamp;
-        while (nextTimestamp == lastTimestamp) {
+        while (nextTimestamp <= lastTimestamp) {
             nextTimestamp = timestamp();
         }
         return nextTimestamp;
-- 
2.43.0


From 3b1d82549795ef71d8a216f843327a887e4d93f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 17/18] fix: terminate array growth beyond 2^30 elements

---
 .../templates/com/bytefacets/collections/arrays/KeyArray.ftl   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
index 66c14fc..95fd910 100644
--- a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
@@ -143,6 +143,9 @@ public final class ${type.name}Array {
         }
         while(newLength < necessarySize) {
             newLength <<= 1;
+            if(newLength <= 0) { // overflow
+                return necessarySize;
+            }
         }
         return newLength;
     }
-- 
2.43.0


From 755562f56a8bb8c400358f7fdddcb12daf7b102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 18/18] fix: reject a sort range whose end overflows

---
 .../com/bytefacets/collections/sort/KeyValueCompanionSort.ftl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl b/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
index db0f7bc..1bd4bcc 100644
--- a/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
@@ -17,10 +17,10 @@ public final class ${key.name}${value.name}CompanionSort {
      */
     public static void sort(${key.arrayType}[] pri, ${value.arrayType}[] sec, int off, int len, ${key.name}Type.Cmp cmp) {
         // Insertion sort on smallest arrays
-        if( off + len > pri.length )
+        if( (long) off + len > pri.length )
             throw new IllegalArgumentException(
                 "offset+len > primary.length: offset="+off+" len="+len+" array.length="+pri.length);
-        if( off + len > sec.length )
+        if( (long) off + len > sec.length )
             throw new IllegalArgumentException(
                 "offset+len > secondary.length: offset="+off+" len="+len+" array.length="+sec.length);
         if( off < 0 || len < 0 )
-- 
2.43.0

