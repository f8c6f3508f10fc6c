From ad97429b54026e2f70dd02c51b16191afca72a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 01/33] fix: not-equal on floats must hold when an operand is
 not a number

---
 Sources/Spp/LlvmCodeGen/TargetGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Spp/LlvmCodeGen/TargetGenerator.cpp b/Sources/Spp/LlvmCodeGen/TargetGenerator.cpp
index f6962c1..4f7c040 100644
--- a/Sources/Spp/LlvmCodeGen/TargetGenerator.cpp
+++ b/Sources/Spp/LlvmCodeGen/TargetGenerator.cpp
@@ -1980,7 +1980,7 @@ Bool TargetGenerator::generateNotEqual(
     result = newSrdObj<Value>(llvmResult, false);
     return true;
   } else if (tgType->isDerivedFrom<FloatType>()) {
-    auto llvmResult = block->getIrBuilder()->CreateFCmpONE(srcValBox1->getLlvmValue(), srcValBox2->getLlvmValue());
+    auto llvmResult = block->getIrBuilder()->CreateFCmpUNE(srcValBox1->getLlvmValue(), srcValBox2->getLlvmValue());
     result = newSrdObj<Value>(llvmResult, false);
     return true;
   } else {
-- 
2.43.0


From 9efa88c4478aaf2c9690efec60b453c111b1b473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 02/33] fix: string assignment and appending must allow the
 string's own characters as the source

---
 Sources/Srt/Srl/String.alusus | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index b074adb..4e0d6eb 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -76,11 +76,16 @@ import "Array";
         };
 
         handler this._release() {
-            if this.refCount~ptr != 0 {
-                --this.refCount;
-                if this.refCount == 0 Memory.free(this.refCount~ptr);
-            };
+            def currentRefCount: ptr[Int[32]] = this.refCount~ptr;
             this._init();
+            _releaseBuffer(currentRefCount);
+        };
+
+        func _releaseBuffer(bufRefCount: ptr[Int[32]]) {
+            if bufRefCount != 0 {
+                --bufRefCount~cnt;
+                if bufRefCount~cnt == 0 Memory.free(bufRefCount);
+            };
         };
 
         handler this.getLength ():ArchInt {
@@ -103,27 +108,35 @@ import "Array";
         }
 
         handler this.assign (str: ref[StringBase[T]]) {
-            this._release();
+            // Take the other string's buffer before releasing the current one, as they may be the same.
+            def currentRefCount: ptr[Int[32]] = this.refCount~ptr;
             this.refCount~ptr = str.refCount~ptr;
             this.buf = str.buf;
             if this.refCount~ptr != 0 {
                 ++this.refCount;
             };
+            _releaseBuffer(currentRefCount);
         };
 
         handler this.assign (buf: ptr[array[T]]) {
-            this._release();
+            // The given buffer may be part of the current buffer, so that one is released last.
+            def currentRefCount: ptr[Int[32]] = this.refCount~ptr;
+            this._init();
             if buf != 0 {
                 this._alloc(getLength(buf));
                 copy(this.buf, buf);
             }
+            _releaseBuffer(currentRefCount);
         };
 
         handler this.assign (buf: ptr[array[T]], n: ArchInt) {
-            this._release();
+            // The given buffer may be part of the current buffer, so that one is released last.
+            def currentRefCount: ptr[Int[32]] = this.refCount~ptr;
+            this._init();
             this._alloc(n);
             copy(this.buf, buf, n);
             this.buf~cnt(n) = 0;
+            _releaseBuffer(currentRefCount);
         };
 
         handler this.append (buf: ptr[array[T]]) {
@@ -144,7 +157,11 @@ import "Array";
                 copy(this.buf, currentBuf);
                 copy(this.buf + currentLen, buf, bufLen);
             } else {
+                // The given buffer may be part of the current buffer, which moves when reallocated.
+                def offset: ArchInt = buf~cast[ArchInt] - this.buf~cast[ArchInt];
+                def isOwnBuffer: Bool = offset >= 0 && offset <= currentLen * T~size;
                 this._realloc(newLength);
+                if isOwnBuffer buf = (this.buf~cast[ArchInt] + offset)~cast[ptr[array[T]]];
                 copy(this.buf + currentLen, buf, bufLen);
             };
             this.buf~cnt(newLength) = 0;
-- 
2.43.0


From 3375dc83f67faf7a46ef0b99f0570eea355657d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 03/33] fix: assigning an array to itself must keep its
 contents

---
 Sources/Srt/Srl/Array.alusus | 10 ++++++----
 Sources/Srt/Srl/Array.h      | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/Sources/Srt/Srl/Array.alusus b/Sources/Srt/Srl/Array.alusus
index 9be913f..d8409ee 100644
--- a/Sources/Srt/Srl/Array.alusus
+++ b/Sources/Srt/Srl/Array.alusus
@@ -67,11 +67,13 @@ import "Memory";
         };
 
         handler this.assign (ary: ref[Array[T]]) {
-            this._release();
-            this.data~no_deref = ary.data;
-            if this.data~ptr != 0 {
-                ++this.refCount;
+            // Take the other array's data before releasing the current data, as they may be the same.
+            def newData: ref[ArrayData[T]](ary.data);
+            if newData~ptr != 0 {
+                ++newData.refCount;
             };
+            this._release();
+            this.data~no_deref = newData;
         };
 
         handler this._prepareToModify (enlarge: Bool) {
diff --git a/Sources/Srt/Srl/Array.h b/Sources/Srt/Srl/Array.h
index fe31513..4959896 100644
--- a/Sources/Srt/Srl/Array.h
+++ b/Sources/Srt/Srl/Array.h
@@ -117,11 +117,13 @@ template <class T> class Array
   }
 
   public: void assign (Array<T> const &ary) {
-    this->_release();
-    this->data = ary.data;
-    if (this->data != 0) {
-      ++this->data->refCount;
+    // Take the other array's data before releasing the current data, as they may be the same.
+    ArrayData<T> *newData = ary.data;
+    if (newData != 0) {
+      ++newData->refCount;
     }
+    this->_release();
+    this->data = newData;
   }
 
   private: void _prepareToModify (Bool enlarge) {
-- 
2.43.0


From 246177817c7b27e545857e0ad0cdd86be8bba325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 04/33] fix: setting an array item must not affect the arrays
 sharing its buffer

---
 Sources/Srt/Srl/Array.alusus | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sources/Srt/Srl/Array.alusus b/Sources/Srt/Srl/Array.alusus
index d8409ee..63ea30a 100644
--- a/Sources/Srt/Srl/Array.alusus
+++ b/Sources/Srt/Srl/Array.alusus
@@ -112,6 +112,7 @@ import "Memory";
             if index < 0 || index >= this.getLength() {
                 this.add(item);
             } else {
+                this._prepareToModify(false);
                 this.buf(index)~no_deref = item;
             };
         }
-- 
2.43.0


From 14896f4fb46545ffc1957b489d1dc1ed3f4a6019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 05/33] fix: reserving array space must not free a buffer
 shared with another array

---
 Sources/Srt/Srl/Array.alusus | 5 ++++-
 Sources/Srt/Srl/Array.h      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Sources/Srt/Srl/Array.alusus b/Sources/Srt/Srl/Array.alusus
index 63ea30a..99f1eac 100644
--- a/Sources/Srt/Srl/Array.alusus
+++ b/Sources/Srt/Srl/Array.alusus
@@ -53,7 +53,10 @@ import "Memory";
 
         handler this.reserve(size: ArchInt) {
             if this.data~ptr == 0 this.data~no_deref = ArrayData[T].alloc(size)
-            else if size > this.bufSize this.data~no_deref = ArrayData[T].realloc(this.data, size);
+            else if size > this.bufSize {
+                this._prepareToModify(false); // A buffer shared with another array must not be moved.
+                if size > this.bufSize this.data~no_deref = ArrayData[T].realloc(this.data, size);
+            };
         }
 
         handler this.getLength (): ArchInt {
diff --git a/Sources/Srt/Srl/Array.h b/Sources/Srt/Srl/Array.h
index 4959896..41685ce 100644
--- a/Sources/Srt/Srl/Array.h
+++ b/Sources/Srt/Srl/Array.h
@@ -103,7 +103,10 @@ template <class T> class Array
 
   public: void reserve(ArchInt size) {
     if (this->data == 0) this->data = ArrayData<T>::alloc(size);
-    else if (size > this->data->bufSize) this->data = ArrayData<T>::realloc(this->data, size);
+    else if (size > this->data->bufSize) {
+      this->_prepareToModify(false); // A buffer shared with another array must not be moved.
+      if (size > this->data->bufSize) this->data = ArrayData<T>::realloc(this->data, size);
+    }
   }
 
   public: ArchInt getLength() const {
-- 
2.43.0


From 9bd20c41d5a72526773018a78e54a956b8b72a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 06/33] fix: inserting into a map at a position must compile
 and use that position

---
 Sources/Srt/Srl/Map.alusus | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sources/Srt/Srl/Map.alusus b/Sources/Srt/Srl/Map.alusus
index b80994c..3c4af9d 100644
--- a/Sources/Srt/Srl/Map.alusus
+++ b/Sources/Srt/Srl/Map.alusus
@@ -122,8 +122,8 @@ import "System";
         }
 
         handler this.insert(i: ArchInt, key: T1, value: T2) {
-            this.keys.insert(key);
-            this.values.insert(value);
+            this.keys.insert(i, key);
+            this.values.insert(i, value);
             if this.keysIndex~ptr != 0 this.keysIndex.add(i);
         }
 
-- 
2.43.0


From c1ee1eb0ab3e409b2f222dc2fd6d17f1c42048c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 07/33] fix: setting a map value by position must not affect
 the maps sharing its storage

---
 Sources/Srt/Srl/Map.alusus | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Srt/Srl/Map.alusus b/Sources/Srt/Srl/Map.alusus
index 3c4af9d..f664cff 100644
--- a/Sources/Srt/Srl/Map.alusus
+++ b/Sources/Srt/Srl/Map.alusus
@@ -117,7 +117,7 @@ import "System";
             if i < 0 || i >= this.keys.getLength() {
                 System.fail(1, "Argument `i` is out of range.");
             }
-            this.values(i) = value;
+            this.values.set(i, value);
             return this;
         }
 
-- 
2.43.0


From 895082b33ab43b6c8017d99a0733e516f686e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 08/33] fix: updating an array index must not affect the
 indices sharing its storage

---
 Sources/Srt/Srl/ArrayIndex.alusus | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sources/Srt/Srl/ArrayIndex.alusus b/Sources/Srt/Srl/ArrayIndex.alusus
index c7d590b..14f04a5 100644
--- a/Sources/Srt/Srl/ArrayIndex.alusus
+++ b/Sources/Srt/Srl/ArrayIndex.alusus
@@ -53,7 +53,7 @@ import "Memory";
                 // First update the existing indices.
                 def j: ArchInt;
                 for j = 0, j < this.indices.getLength(), ++j {
-                    if this.indices(j) >= i { ++this.indices(j) };
+                    if this.indices(j) >= i { this.indices.set(j, this.indices(j) + 1) };
                 }
                 // Now insert the new value.
                 def pos: ArchInt;
@@ -74,7 +74,7 @@ import "Memory";
                     this.indices.remove(j);
                     --j;
                 } else if this.indices(j) > i {
-                    --this.indices(j);
+                    this.indices.set(j, this.indices(j) - 1);
                 }
             }
         }
-- 
2.43.0


From a43f99b1da33eb84b2ed64b57654efdf92a5cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 09/33] fix: assigning to a shared reference must allow an
 object owned by the current one

---
 Sources/Srt/Srl/refs.h           | 7 ++++---
 Sources/Srt/Srl/refs_base.alusus | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/Sources/Srt/Srl/refs.h b/Sources/Srt/Srl/refs.h
index 3972523..07ef97c 100644
--- a/Sources/Srt/Srl/refs.h
+++ b/Sources/Srt/Srl/refs.h
@@ -212,11 +212,12 @@ template<class T> class SrdRef
 
   public: void assign(RefCounter *c, T *r) {
     if (c != this->refCounter) {
+      // Count the new reference before releasing the current object, which may own the new one.
+      if (c != 0) {
+        ++c->count;
+      }
       this->release();
       this->refCounter = c;
-      if (this->refCounter != 0) {
-        ++this->refCounter->count;
-      }
     }
     this->obj = r;
   }
diff --git a/Sources/Srt/Srl/refs_base.alusus b/Sources/Srt/Srl/refs_base.alusus
index 4c35c9d..a0c9a5c 100644
--- a/Sources/Srt/Srl/refs_base.alusus
+++ b/Sources/Srt/Srl/refs_base.alusus
@@ -170,11 +170,12 @@ import "Spp";
 
         handler this.assign (c: ref[RefCounter], r: ref[T]) {
             if c~ptr != this.refCounter~ptr {
+                // Count the new reference before releasing the current object, which may own the new one.
+                if c~ptr != 0 {
+                    ++c.count;
+                };
                 this.release();
                 this.refCounter~ptr = c~ptr;
-                if this.refCounter~ptr != 0 {
-                    ++this.refCounter.count;
-                };
             }
             this.obj~ptr = r~ptr;
         };
-- 
2.43.0


From 08c653140ac3770172af3ecccba1b0557bb2a12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:11 +0000
Subject: [PATCH 10/33] fix: Possible.success and failure must work when the
 value type has members named like their arguments

---
 Sources/Srt/Srl/Possible.alusus | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Sources/Srt/Srl/Possible.alusus b/Sources/Srt/Srl/Possible.alusus
index e10803a..55a7f90 100644
--- a/Sources/Srt/Srl/Possible.alusus
+++ b/Sources/Srt/Srl/Possible.alusus
@@ -30,10 +30,15 @@ import "refs";
         handler this~cast[Bool] return this.error.isNull();
 
         func success (v: DataType): Possible[DataType] {
-            return Possible[DataType]().{ value = v };
+            // Members of DataType must not hide the argument, so no `.{ }` here.
+            def result: Possible[DataType];
+            result.value = v;
+            return result;
         }
         func failure (err: SrdRef[Error]): Possible[DataType] {
-            return Possible[DataType]().{ error = err };
+            def result: Possible[DataType];
+            result.error = err;
+            return result;
         }
     }
 }
-- 
2.43.0


From 2ca8e72d412597e43651c552456c485ae4b406f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:26 +0000
Subject: [PATCH 11/33] fix: String.remove must compile and must not copy
 between overlapping ranges

---
 Sources/Srt/Srl/String.alusus | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index 4e0d6eb..d414c13 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -416,11 +416,16 @@ import "Array";
         };
 
         func remove(chrs: ptr[array[T]], chr: T): ptr[array[T]] {
-            def pointer: ptr[array[T]] = find(chrs, chr);
-            while pointer != 0 {
-                copy(pointer, pointer~cnt(1)~ptr~cast[ptr[array[T]]]);
-                pointer = find(pointer, chr);
+            def readPos: ArchInt = 0;
+            def writePos: ArchInt = 0;
+            while chrs~cnt(readPos) != 0 {
+                if chrs~cnt(readPos) != chr {
+                    chrs~cnt(writePos) = chrs~cnt(readPos);
+                    ++writePos;
+                };
+                ++readPos;
             };
+            chrs~cnt(writePos) = 0;
             return chrs;
         };
 
-- 
2.43.0


From 014caef6dcd485856c667b704c359d6d5c2a8f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:27 +0000
Subject: [PATCH 12/33] fix: replacing or splitting by an empty text must
 terminate

---
 Sources/Srt/Srl/String.alusus | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index d414c13..be67161 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -260,7 +260,8 @@ import "Array";
             def matchLength: ArchInt = getLength(match);
             def buf: ptr[array[T]] = this.buf;
             while 1 {
-                def found: ptr[array[T]] = find(buf, match)~cast[ptr[array[T]]];
+                def found: ptr[array[T]] = 0;
+                if matchLength != 0 found = find(buf, match)~cast[ptr[array[T]]];
                 if found == 0 {
                     str.append(buf);
                     return str;
@@ -336,7 +337,8 @@ import "Array";
             def matchLength: ArchInt = getLength(separator);
             def buf: ptr[array[T]] = this.buf;
             while 1 {
-                def found: ptr[array[T]] = find(buf, separator)~cast[ptr[array[T]]];
+                def found: ptr[array[T]] = 0;
+                if matchLength != 0 found = find(buf, separator)~cast[ptr[array[T]]];
                 if found == 0 {
                     str.assign(buf);
                     ary.add(str);
-- 
2.43.0


From e1189691620607e9f6e04442aa2430620ed7452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 13/33] fix: String.slice must not access memory outside the
 string

---
 Sources/Srt/Srl/String.alusus | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index be67161..15d368b 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -326,7 +326,8 @@ import "Array";
         handler this.slice (begin: ArchInt, count: ArchInt): StringBase[T] {
             def str: StringBase[T];
             def l: ArchInt = this.getLength();
-            if begin >= l return str;
+            if begin < 0 or begin >= l or count <= 0 return str;
+            if count > l - begin count = l - begin;
             str.assign(this.buf~cnt(begin)~ptr~cast[ptr[array[T]]], count);
             return str;
         };
-- 
2.43.0


From ec897d4e7e9ac521627954f8cefcd5a04eb1b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 14/33] fix: trimming a string of spaces must not read before
 its start

---
 Sources/Srt/Srl/String.alusus | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index 15d368b..78c1297 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -291,7 +291,7 @@ import "Array";
             def begin: ArchInt = 0;
             def end: ArchInt = this.getLength() - 1;
             if trimStart while isSpace(this.buf~cnt(begin)) { ++begin };
-            if trimEnd while isSpace(this.buf~cnt(end)) { --end };
+            if trimEnd while end >= begin && isSpace(this.buf~cnt(end)) { --end };
             if end >= begin {
                 def str: StringBase[T];
                 str.assign(this.buf~cnt(begin)~ptr~cast[ptr[array[T]]], end - begin + 1);
-- 
2.43.0


From 3dded266100b2f28d683e3775607161906698c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 15/33] fix: String.realloc must keep what fits of the contents
 and stay within the new buffer

---
 Sources/Srt/Srl/String.alusus | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index 78c1297..58e3429 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -98,13 +98,14 @@ import "Array";
         };
 
         handler this.realloc (newLength: ArchInt) {
-            if this.refCount~ptr == 0 this._alloc(newLength)
-            else if this.refCount == 1 this._realloc(newLength)
+            if newLength < 0 newLength = 0;
+            if this.refCount~ptr != 0 && this.refCount == 1 this._realloc(newLength)
             else {
                 def currentBuf: ptr[array[T]] = this.buf;
                 this.alloc(newLength);
-                copy(this.buf, currentBuf);
+                copy(this.buf, currentBuf, newLength);
             }
+            this.buf~cnt(newLength) = 0;
         }
 
         handler this.assign (str: ref[StringBase[T]]) {
-- 
2.43.0


From 62d7ed11f5e74b0c4259831cfe3cedab8c39ba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 16/33] fix: string positions must be in characters, not in
 bytes

---
 Sources/Srt/Srl/String.alusus | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index 58e3429..6791766 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -215,14 +215,14 @@ import "Array";
             if startPos > 0 return -1;
             def pos: ptr = find(startBuf, buf);
             if pos == 0 return -1;
-            return pos~cast[ArchInt] - this.buf~cast[ArchInt];
+            return (pos~cast[ArchInt] - this.buf~cast[ArchInt]) / T~size;
         };
 
         handler this.findLast (buf: ptr[array[T]]): ArchInt {
             if this.buf == 0 return -1;
             def pos: ptr = findLast(this.buf, buf);
             if pos == 0 return -1;
-            return pos~cast[ArchInt] - this.buf~cast[ArchInt];
+            return (pos~cast[ArchInt] - this.buf~cast[ArchInt]) / T~size;
         };
 
         handler this.find (c: T): ArchInt {
@@ -238,14 +238,14 @@ import "Array";
             if startPos > 0 return -1;
             def pos: ptr = find(startBuf, c);
             if pos == 0 return -1;
-            return pos~cast[ArchInt] - this.buf~cast[ArchInt];
+            return (pos~cast[ArchInt] - this.buf~cast[ArchInt]) / T~size;
         };
 
         handler this.findLast (c: T): ArchInt {
             if this.buf == 0 return -1;
             def pos: ptr = findLast(this.buf, c);
             if pos == 0 return -1;
-            return pos~cast[ArchInt] - this.buf~cast[ArchInt];
+            return (pos~cast[ArchInt] - this.buf~cast[ArchInt]) / T~size;
         };
 
         handler this.compare (s: ptr[array[T]]): Int {
@@ -267,7 +267,7 @@ import "Array";
                     str.append(buf);
                     return str;
                 };
-                def n: ArchInt = found~cast[ArchInt] - buf~cast[ArchInt];
+                def n: ArchInt = (found~cast[ArchInt] - buf~cast[ArchInt]) / T~size;
                 str.append(buf, n);
                 str.append(replacement);
                 buf = found~cnt(matchLength)~ptr~cast[ptr[array[T]]];
@@ -346,7 +346,7 @@ import "Array";
                     ary.add(str);
                     return ary;
                 };
-                def n: ArchInt = found~cast[ArchInt] - buf~cast[ArchInt];
+                def n: ArchInt = (found~cast[ArchInt] - buf~cast[ArchInt]) / T~size;
                 if n == 0 str = StringBase[T]() else str.assign(buf, n);
                 ary.add(str);
                 buf = found~cnt(matchLength)~ptr~cast[ptr[array[T]]];
-- 
2.43.0


From b0a30a27e5e16233b63558a70debef7d615277fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:59 +0000
Subject: [PATCH 17/33] fix: formatting must not read past a format that ends
 with a percent mark

---
 Sources/Srt/Srl/String.alusus        | 1 +
 Sources/Srt/Srl/StringBuilder.alusus | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index 6791766..2eefb7c 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -566,6 +566,7 @@ import "Array";
                 } else {
                     str.append(format, pos~cast[ArchInt] - format~cast[ArchInt]);
                     def c: Char = (pos + 1)~cnt;
+                    if c == 0 break;
                     if c == 's' str += args~next_arg[ptr[array[Char]]]
                     else if c == 'c' str += args~next_arg[Char]
                     else if c == 'i' str += args~next_arg[Int]
diff --git a/Sources/Srt/Srl/StringBuilder.alusus b/Sources/Srt/Srl/StringBuilder.alusus
index 9cd940c..e81b946 100644
--- a/Sources/Srt/Srl/StringBuilder.alusus
+++ b/Sources/Srt/Srl/StringBuilder.alusus
@@ -153,6 +153,7 @@ import "Spp/Ast";
                     pos = pos + 1; // Move to the character after the % mark.
                     preprocess { _insertFormattingCalls() };
                     def c: Char = pos~cnt;
+                    if c == 0 break;
                     if c == 's' this += args~next_arg[ptr[array[Char]]]
                     else if c == 'c' this += args~next_arg[Char]
                     else if c == 'i' this += args~next_arg[Int]
-- 
2.43.0


From eba93da311dcaff408326a6180424cf01cfa0daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:59 +0000
Subject: [PATCH 18/33] fix: appending an integer to a string must work for the
 largest and smallest integers

---
 Sources/Srt/Srl/String.alusus        | 12 +++++-------
 Sources/Srt/Srl/StringBuilder.alusus | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index 2eefb7c..5c02670 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -477,16 +477,14 @@ import "Array";
 
         handler this._append (i: Int[64], minDigits: Int) {
             def buf: array[Char, 22];
-            def strptr: ptr[Char] = buf(19)~ptr;
+            def strptr: ptr[Char] = buf(21)~ptr;
             strptr~cnt = 0;
             def negative: Bool = 0;
-            if i < 0 {
-                negative = 1;
-                i = -i;
-            }
-            while minDigits-- > 0 || i > 0 {
+            // Digits are taken from the negative value, since the smallest integer has no positive counterpart.
+            if i < 0 negative = 1 else i = -i;
+            while minDigits-- > 0 || i < 0 {
                 strptr = strptr - 1;
-                strptr~cnt = '0' + i % 10;
+                strptr~cnt = '0' - i % 10;
                 i /= 10;
             }
             if negative {
diff --git a/Sources/Srt/Srl/StringBuilder.alusus b/Sources/Srt/Srl/StringBuilder.alusus
index e81b946..8bfff0c 100644
--- a/Sources/Srt/Srl/StringBuilder.alusus
+++ b/Sources/Srt/Srl/StringBuilder.alusus
@@ -112,16 +112,14 @@ import "Spp/Ast";
 
         handler this._append (i: Int[64], minDigits: Int) {
             def buf: array[Char, 22];
-            def strptr: ptr[Char] = buf(19)~ptr;
+            def strptr: ptr[Char] = buf(21)~ptr;
             strptr~cnt = 0;
             def negative: Bool = 0;
-            if i < 0 {
-                negative = 1;
-                i = -i;
-            }
-            while minDigits-- > 0 || i > 0 {
+            // Digits are taken from the negative value, since the smallest integer has no positive counterpart.
+            if i < 0 negative = 1 else i = -i;
+            while minDigits-- > 0 || i < 0 {
                 strptr = strptr - 1;
-                strptr~cnt = '0' + i % 10;
+                strptr~cnt = '0' - i % 10;
                 i /= 10;
             }
             if negative {
-- 
2.43.0


From d9a66b019319455b9e17bb2bbe27771bb05b2183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:59 +0000
Subject: [PATCH 19/33] fix: appending a float to a string must carry a
 fraction that rounds up to one

---
 Sources/Srt/Srl/String.alusus        | 11 ++++++++---
 Sources/Srt/Srl/StringBuilder.alusus | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index 5c02670..14cc923 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -499,10 +499,15 @@ import "Array";
                 f *= -1;
                 this.append('-');
             }
-            this.append(f~cast[Int[64]]);
-            def fractions: Float[64] = f - f~cast[Int[64]];
+            def whole: Int[64] = f~cast[Int[64]];
+            def fractions: Int[64] = ((f - whole) * 1000000.0f64 + 0.5f64)~cast[Int[64]];
+            if fractions >= 1000000 {
+                ++whole;
+                fractions -= 1000000;
+            }
+            this.append(whole);
             this.append('.');
-            this._append((fractions * 1000000.0f64 + 0.5f64)~cast[Int[64]], 6);
+            this._append(fractions, 6);
         };
 
         @expname[strchr]
diff --git a/Sources/Srt/Srl/StringBuilder.alusus b/Sources/Srt/Srl/StringBuilder.alusus
index 8bfff0c..508f9aa 100644
--- a/Sources/Srt/Srl/StringBuilder.alusus
+++ b/Sources/Srt/Srl/StringBuilder.alusus
@@ -134,10 +134,15 @@ import "Spp/Ast";
                 f *= -1;
                 this.append('-');
             }
-            this.append(f~cast[Int[64]]);
-            def fractions: Float[64] = f - f~cast[Int[64]];
+            def whole: Int[64] = f~cast[Int[64]];
+            def fractions: Int[64] = ((f - whole) * 1000000.0f64 + 0.5f64)~cast[Int[64]];
+            if fractions >= 1000000 {
+                ++whole;
+                fractions -= 1000000;
+            }
+            this.append(whole);
             this.append('.');
-            this._append((fractions * 1000000.0f64 + 0.5f64)~cast[Int[64]], 6);
+            this._append(fractions, 6);
         };
 
         handler this.format(fmt: ptr[array[Char]], args: ...any) {
-- 
2.43.0


From 3f34ea298a004e44b03e0c710d560d88ab75b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:32 +0000
Subject: [PATCH 20/33] fix: appending a string builder's own characters must
 not read a buffer that moved

---
 Sources/Srt/Srl/StringBuilder.alusus | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sources/Srt/Srl/StringBuilder.alusus b/Sources/Srt/Srl/StringBuilder.alusus
index 508f9aa..0a6ac74 100644
--- a/Sources/Srt/Srl/StringBuilder.alusus
+++ b/Sources/Srt/Srl/StringBuilder.alusus
@@ -94,8 +94,12 @@ import "Spp/Ast";
                 this.bufferSize = newBufSize;
                 String.copy(this.string.buf, currentBuf);
             } else if newBufSize > this.bufferSize {
+                // The given buffer may be part of the current buffer, which moves when reallocated.
+                def offset: ArchInt = buf~cast[ArchInt] - this.string.buf~cast[ArchInt];
+                def isOwnBuffer: Bool = offset >= 0 && offset <= this.length;
                 this.string.realloc(newBufSize);
                 this.bufferSize = newBufSize;
+                if isOwnBuffer buf = (this.string.buf~cast[ArchInt] + offset)~cast[CharsPtr];
             }
             String.copy(this.string.buf + this.length, buf, bufLen);
             this.string.buf~cnt(newLength) = 0;
-- 
2.43.0


From e7d4c5d982ee30429731fac59365228b98004b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:15 +0000
Subject: [PATCH 21/33] fix: owning an object through getSharedPtr must record
 the owner in the object

---
 Sources/Core/Basic/SharedPtr.h | 26 +++++++++++++++++++++-----
 Sources/Core/Basic/TiObject.h  |  2 ++
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/Sources/Core/Basic/SharedPtr.h b/Sources/Core/Basic/SharedPtr.h
index cd4dc5b..9a9f136 100644
--- a/Sources/Core/Basic/SharedPtr.h
+++ b/Sources/Core/Basic/SharedPtr.h
@@ -250,6 +250,21 @@ template <class T, class T2> SharedPtr<T> ti_cast(Srl::SrdRef<T2> const &src)
 }
 
 
+/**
+ * @brief Own the given object and record the ownership in the object itself.
+ * The given object must not already be owned by any shared pointer. Recording
+ * the ownership makes later calls to getSharedPtr share that ownership rather
+ * than create a second owner.
+ */
+inline SrdRef<TiObject> ownTiObject(TiObject *obj)
+{
+  SrdRef<TiObject> r;
+  r.own(obj);
+  obj->wkThis = r;
+  return r;
+}
+
+
 /**
  * @brief Get a shared pointer to the given TiObject based pointer.
  * The function will get a shared pointer that shares ownership with existing
@@ -267,7 +282,7 @@ SharedPtr<T> getSharedPtr(T *obj, Bool ownIfUnowned=false)
 {
   if (obj == 0) return SharedPtr<T>();
   else if (obj->getWkThis() != 0) return SharedPtr<T>(obj->getWkThis().getRefCounter(), obj);
-  else if (ownIfUnowned) return SharedPtr<T>::ownToNew(obj);
+  else if (ownIfUnowned) return SharedPtr<T>(ownTiObject(obj).getRefCounter(), obj);
   else return SharedPtr<T>();
 }
 
@@ -277,7 +292,7 @@ SharedPtr<T const> getSharedPtr(T const *obj, Bool ownIfUnowned=false)
 {
   if (obj == 0) return SharedPtr<T const>();
   else if (obj->getWkThis() != 0) return SharedPtr<T const>(obj->getWkThis().getRefCounter(), obj);
-  else if (ownIfUnowned) return SharedPtr<T const>::ownToNew(obj);
+  else if (ownIfUnowned) return SharedPtr<T const>(ownTiObject(const_cast<T*>(obj)).getRefCounter(), obj);
   else return SharedPtr<T const>();
 }
 
@@ -288,7 +303,7 @@ SharedPtr<T> getSharedPtr(T *obj, Bool ownIfUnowned=false)
   if (obj == 0) return SharedPtr<T>();
   else if (obj->getTiObject()->getWkThis() != 0) {
     return SharedPtr<T>(obj->getTiObject()->getWkThis().getRefCounter(), obj);
-  } else if (ownIfUnowned) return SharedPtr<T>::ownToNew(obj);
+  } else if (ownIfUnowned) return SharedPtr<T>(ownTiObject(obj->getTiObject()).getRefCounter(), obj);
   else return SharedPtr<T>();
 }
 
@@ -299,8 +314,9 @@ SharedPtr<T const> getSharedPtr(T const *obj, Bool ownIfUnowned=false)
   if (obj == 0) return SharedPtr<T const>();
   else if (obj->getTiObject()->getWkThis() != 0) {
     return SharedPtr<T const>(obj->getTiObject()->getWkThis().getRefCounter(), obj);
-  } else if (ownIfUnowned) return SharedPtr<T const>::ownToNew(obj);
-  else return SharedPtr<T const>();
+  } else if (ownIfUnowned) {
+    return SharedPtr<T const>(ownTiObject(const_cast<T*>(obj)->getTiObject()).getRefCounter(), obj);
+  } else return SharedPtr<T const>();
 }
 
 
diff --git a/Sources/Core/Basic/TiObject.h b/Sources/Core/Basic/TiObject.h
index 8a49fb5..0fb34b4 100644
--- a/Sources/Core/Basic/TiObject.h
+++ b/Sources/Core/Basic/TiObject.h
@@ -31,6 +31,8 @@ class TiObject
             typename std::enable_if<std::is_base_of<TiObject, T>::value, int>::type>
   friend SrdRef<T> newSrdObj(ARGS... args);
 
+  friend SrdRef<TiObject> ownTiObject(TiObject *obj);
+
   //============================================================================
   // Member Variables
 
-- 
2.43.0


From ffe58cddb89b7cfbc638b1563e24a8f93988a570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 22/33] fix: AST trees with different numbers of elements must
 not be taken as equal

---
 Sources/Core/Data/Ast/ast.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Sources/Core/Data/Ast/ast.cpp b/Sources/Core/Data/Ast/ast.cpp
index 2d02940..69a9308 100644
--- a/Sources/Core/Data/Ast/ast.cpp
+++ b/Sources/Core/Data/Ast/ast.cpp
@@ -236,6 +236,9 @@ Bool isEqual(TiObject *obj1, TiObject *obj2)
   if (obj1 == 0 && obj2 == 0) return true;
   else if (obj1 == 0 || obj2 == 0) return false;
 
+  // Where the objects were written does not affect equality.
+  if (obj1->isDerivedFrom<SourceLocation>() && obj2->isDerivedFrom<SourceLocation>()) return true;
+
   if (obj1->getMyTypeInfo() != obj2->getMyTypeInfo()) return false;
 
   // Check basic types.
@@ -271,6 +274,7 @@ Bool isEqual(TiObject *obj1, TiObject *obj2)
   auto bindings1 = ti_cast<Binding>(obj1);
   auto bindings2 = ti_cast<Binding>(obj2);
   if (bindings1 != 0 && bindings2 != 0) {
+    if (bindings1->getMemberCount() != bindings2->getMemberCount()) return false;
     for (Int i = 0; i < bindings1->getMemberCount(); ++i) {
       if (!isEqual(bindings1->getMember(i), bindings2->getMember(i))) return false;
     }
@@ -279,6 +283,7 @@ Bool isEqual(TiObject *obj1, TiObject *obj2)
   auto mapContainer1 = ti_cast<MapContaining<TiObject>>(obj1);
   auto mapContainer2 = ti_cast<MapContaining<TiObject>>(obj2);
   if (mapContainer1 != 0 && mapContainer2 != 0) {
+    if (mapContainer1->getElementCount() != mapContainer2->getElementCount()) return false;
     for (Int i = 0; i < mapContainer1->getElementCount(); ++i) {
       if (mapContainer1->getElementKey(i) != mapContainer2->getElementKey(i)) return false;
     }
@@ -287,6 +292,7 @@ Bool isEqual(TiObject *obj1, TiObject *obj2)
   auto container1 = ti_cast<Containing<TiObject>>(obj1);
   auto container2 = ti_cast<Containing<TiObject>>(obj2);
   if (container1 != 0 && container2 != 0) {
+    if (container1->getElementCount() != container2->getElementCount()) return false;
     for (Int i = 0; i < container1->getElementCount(); ++i) {
       if (!isEqual(container1->getElement(i), container2->getElement(i))) return false;
     }
-- 
2.43.0


From ee7fde449fa60642009621018aed8efaa9ea34df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 23/33] fix: integer literals with a base prefix must keep
 their value in array sizes and template arguments

---
 Sources/Core/Data/Ast/ast.cpp               | 41 +++++++++++++++++++++
 Sources/Core/Data/Ast/ast.h                 |  6 +++
 Sources/Spp/Ast/ArrayType.cpp               |  3 +-
 Sources/Spp/Ast/FloatType.cpp               |  3 +-
 Sources/Spp/Ast/IntegerType.cpp             |  3 +-
 Sources/Spp/Ast/Template.cpp                |  4 +-
 Sources/Spp/CodeGen/CommandGenerator.cpp    |  6 ++-
 Sources/Spp/CodeGen/ExpressionGenerator.cpp | 36 +-----------------
 Sources/Spp/Grammar/tools.cpp               | 12 ++++--
 Sources/Spp/Handlers/handlers.cpp           |  3 +-
 10 files changed, 71 insertions(+), 46 deletions(-)

diff --git a/Sources/Core/Data/Ast/ast.cpp b/Sources/Core/Data/Ast/ast.cpp
index 69a9308..005edce 100644
--- a/Sources/Core/Data/Ast/ast.cpp
+++ b/Sources/Core/Data/Ast/ast.cpp
@@ -301,4 +301,45 @@ Bool isEqual(TiObject *obj1, TiObject *obj2)
   return true;
 }
 
+
+LongWord parseIntegerLiteral(Char const *&src)
+{
+  Int base = 10;
+  if (compareStr(src, S("0b"), 2) == 0 || compareStr(src, S("0B"), 2) == 0) {
+    base = 2;
+    src += 2;
+  } else if (compareStr(src, S("0ن"), 3) == 0) {
+    base = 2;
+    src += 3;
+  } else if (compareStr(src, S("0o"), 2) == 0 || compareStr(src, S("0O"), 2) == 0) {
+    base = 8;
+    src += 2;
+  } else if (compareStr(src, S("0م"), 3) == 0) {
+    base = 8;
+    src += 3;
+  } else if (
+    compareStr(src, S("0h"), 2) == 0 || compareStr(src, S("0H"), 2) == 0 ||
+    compareStr(src, S("0x"), 2) == 0 || compareStr(src, S("0X"), 2) == 0
+  ) {
+    base = 16;
+    src += 2;
+  }
+  LongWord value = 0;
+  while (
+    (*src >= C('0') && *src <= C('9')) ||
+    (*src >= C('a') && *src <= C('f')) ||
+    (*src >= C('A') && *src <= C('F'))
+  ) {
+    Int digit = 0;
+    if (*src >= C('0') && *src <= C('9')) digit = *src - C('0');
+    else if (*src >= C('a') && *src <= C('f')) digit = *src - C('a') + 10;
+    else if (*src >= C('A') && *src <= C('F')) digit = *src - C('A') + 10;
+    ASSERT(digit < base);
+    value *= base;
+    value += digit;
+    ++src;
+  }
+  return value;
+}
+
 } // namespace
diff --git a/Sources/Core/Data/Ast/ast.h b/Sources/Core/Data/Ast/ast.h
index 6520157..1ae519d 100644
--- a/Sources/Core/Data/Ast/ast.h
+++ b/Sources/Core/Data/Ast/ast.h
@@ -109,6 +109,12 @@ template <class T> SharedPtr<T> clone(T *obj, SourceLocation *sl = 0)
 
 Bool isEqual(TiObject *obj1, TiObject *obj2);
 
+/**
+ * @brief Parse the digits of an integer literal, considering its base prefix.
+ * On return src points to what follows the digits, i.e. the literal's suffix.
+ */
+LongWord parseIntegerLiteral(Char const *&src);
+
 } // namespace
 
 #include "MetaHaving.h"
diff --git a/Sources/Spp/Ast/ArrayType.cpp b/Sources/Spp/Ast/ArrayType.cpp
index 67c74f9..6629272 100644
--- a/Sources/Spp/Ast/ArrayType.cpp
+++ b/Sources/Spp/Ast/ArrayType.cpp
@@ -48,7 +48,8 @@ Word ArrayType::getSize(Helper *helper) const
   if (size == 0) {
     throw EXCEPTION(GenericException, S("Could not find size value."));
   }
-  return std::stol(size->getValue().get());
+  auto sizeVal = size->getValue().get();
+  return Core::Data::Ast::parseIntegerLiteral(sizeVal);
 }
 
 
diff --git a/Sources/Spp/Ast/FloatType.cpp b/Sources/Spp/Ast/FloatType.cpp
index fdac55c..853a442 100644
--- a/Sources/Spp/Ast/FloatType.cpp
+++ b/Sources/Spp/Ast/FloatType.cpp
@@ -30,7 +30,8 @@ Word FloatType::getBitCount(Helper *helper) const
   if (bitCount == 0) {
     throw EXCEPTION(GenericException, S("Could not find bitCount value."));
   }
-  return std::stol(bitCount->getValue().get());
+  auto bitCountVal = bitCount->getValue().get();
+  return Core::Data::Ast::parseIntegerLiteral(bitCountVal);
 }
 
 
diff --git a/Sources/Spp/Ast/IntegerType.cpp b/Sources/Spp/Ast/IntegerType.cpp
index 6c142a1..b50439e 100644
--- a/Sources/Spp/Ast/IntegerType.cpp
+++ b/Sources/Spp/Ast/IntegerType.cpp
@@ -32,7 +32,8 @@ Word IntegerType::getBitCount(Helper *helper) const
   if (bitCountText == 0) {
     throw EXCEPTION(GenericException, S("Could not find bitCount value."));
   }
-  return std::stol(bitCountText->getValue().get());
+  auto bitCountVal = bitCountText->getValue().get();
+  return Core::Data::Ast::parseIntegerLiteral(bitCountVal);
 }
 
 
diff --git a/Sources/Spp/Ast/Template.cpp b/Sources/Spp/Ast/Template.cpp
index 1a3e614..2428289 100644
--- a/Sources/Spp/Ast/Template.cpp
+++ b/Sources/Spp/Ast/Template.cpp
@@ -150,7 +150,9 @@ Bool Template::matchTemplateVar(
       }
       auto newVar = static_cast<Core::Data::Ast::IntegerLiteral*>(templateInput);
       ASSERT(newVar != 0);
-      return std::stol(newVar->getValue().get()) == std::stol(var->getValue().get());
+      auto newVal = newVar->getValue().get();
+      auto val = var->getValue().get();
+      return Core::Data::Ast::parseIntegerLiteral(newVal) == Core::Data::Ast::parseIntegerLiteral(val);
     }
 
     case TemplateVarType::STRING: {
diff --git a/Sources/Spp/CodeGen/CommandGenerator.cpp b/Sources/Spp/CodeGen/CommandGenerator.cpp
index 3bb72d3..b7a66ce 100644
--- a/Sources/Spp/CodeGen/CommandGenerator.cpp
+++ b/Sources/Spp/CodeGen/CommandGenerator.cpp
@@ -281,7 +281,8 @@ Bool CommandGenerator::_generateContinueStatement(
 
   // Get the steps.
   auto stepsNode = ti_cast<Core::Data::Ast::IntegerLiteral>(astNode->getSteps().get());
-  auto steps = stepsNode == 0 ? 1 : std::stoi(stepsNode->getValue().get());
+  auto stepsVal = stepsNode == 0 ? S("1") : stepsNode->getValue().get();
+  auto steps = (Int)Core::Data::Ast::parseIntegerLiteral(stepsVal);
   if (steps <= 0) {
     cmdGenerator->astHelper->getNoticeStore()->add(
       newSrdObj<Spp::Notices::InvalidContinueStepsNotice>(astNode->findSourceLocation())
@@ -329,7 +330,8 @@ Bool CommandGenerator::_generateBreakStatement(
 
   // Get the steps.
   auto stepsNode = ti_cast<Core::Data::Ast::IntegerLiteral>(astNode->getSteps().get());
-  auto steps = stepsNode == 0 ? 1 : std::stoi(stepsNode->getValue().get());
+  auto stepsVal = stepsNode == 0 ? S("1") : stepsNode->getValue().get();
+  auto steps = (Int)Core::Data::Ast::parseIntegerLiteral(stepsVal);
   if (steps <= 0) {
     cmdGenerator->astHelper->getNoticeStore()->add(
       newSrdObj<Spp::Notices::InvalidBreakStepsNotice>(astNode->findSourceLocation())
diff --git a/Sources/Spp/CodeGen/ExpressionGenerator.cpp b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
index eaca817..84ef04a 100644
--- a/Sources/Spp/CodeGen/ExpressionGenerator.cpp
+++ b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
@@ -2277,41 +2277,7 @@ Bool ExpressionGenerator::_generateIntegerLiteral(
   // TODO: Implement unsigned integers.
 
   // Parse the given value.
-  Int base = 10;
-  if (compareStr(src, S("0b"), 2) == 0 || compareStr(src, S("0B"), 2) == 0) {
-    base = 2;
-    src += 2;
-  } else if (compareStr(src, S("0ن"), 3) == 0) {
-    base = 2;
-    src += 3;
-  } else if (compareStr(src, S("0o"), 2) == 0 || compareStr(src, S("0O"), 2) == 0) {
-    base = 8;
-    src += 2;
-  } else if (compareStr(src, S("0م"), 3) == 0) {
-    base = 8;
-    src += 3;
-  } else if (
-    compareStr(src, S("0h"), 2) == 0 || compareStr(src, S("0H"), 2) == 0 ||
-    compareStr(src, S("0x"), 2) == 0 || compareStr(src, S("0X"), 2) == 0
-  ) {
-    base = 16;
-    src += 2;
-  }
-  LongWord value = 0;
-  while (
-    (*src >= C('0') && *src <= C('9')) ||
-    (*src >= C('a') && *src <= C('f')) ||
-    (*src >= C('A') && *src <= C('F'))
-  ) {
-    Int digit = 0;
-    if (*src >= C('0') && *src <= C('9')) digit = *src - C('0');
-    else if (*src >= C('a') && *src <= C('f')) digit = *src - C('a') + 10;
-    else if (*src >= C('A') && *src <= C('F')) digit = *src - C('A') + 10;
-    ASSERT(digit < base);
-    value *= base;
-    value += digit;
-    ++src;
-  }
+  LongWord value = Core::Data::Ast::parseIntegerLiteral(src);
 
   // Is it a signed number?
   Bool signedNum = true;
diff --git a/Sources/Spp/Grammar/tools.cpp b/Sources/Spp/Grammar/tools.cpp
index 964560e..e345244 100644
--- a/Sources/Spp/Grammar/tools.cpp
+++ b/Sources/Spp/Grammar/tools.cpp
@@ -125,7 +125,8 @@ Bool parseMinMax(
   resultAst = mulOp->getFirst().get();
   auto intLiteral = mulOp->getSecond().ti_cast_get<Core::Data::Ast::IntegerLiteral>();
   if (intLiteral != 0) {
-    auto num = std::stoi(intLiteral->getValue().get());
+    auto val = intLiteral->getValue().get();
+    auto num = (Int)Core::Data::Ast::parseIntegerLiteral(val);
     min = newSrdObj<TiInt>(num);
     max = newSrdObj<TiInt>(num);
     return true;
@@ -153,7 +154,8 @@ Bool parseMinMax(
       );
       return false;
     }
-    auto num = std::stoi(intLiteral->getValue().get());
+    auto val = intLiteral->getValue().get();
+    auto num = (Int)Core::Data::Ast::parseIntegerLiteral(val);
     min = newSrdObj<TiInt>(num);
   }
   auto second = list->get(1).get();
@@ -165,7 +167,8 @@ Bool parseMinMax(
       );
       return false;
     }
-    auto num = std::stoi(intLiteral->getValue().get());
+    auto val = intLiteral->getValue().get();
+    auto num = (Int)Core::Data::Ast::parseIntegerLiteral(val);
     max = newSrdObj<TiInt>(num);
   }
   return true;
@@ -314,7 +317,8 @@ Bool parseValueAst(TiObject *valueAst, Core::Notices::Store *noticeStore, TioSha
     result = PARSE_REF(qualifier);
     return true;
   } else if (valueAst->isDerivedFrom<Core::Data::Ast::IntegerLiteral>()) {
-    result = TiInt::create(std::stol(static_cast<Core::Data::Ast::IntegerLiteral*>(valueAst)->getValue().get()));
+    auto val = static_cast<Core::Data::Ast::IntegerLiteral*>(valueAst)->getValue().get();
+    result = TiInt::create((Int)Core::Data::Ast::parseIntegerLiteral(val));
     return true;
   } else if (valueAst->isDerivedFrom<Core::Data::Ast::IntegerLiteral>()) {
     result = TiStr::create(static_cast<Core::Data::Ast::StringLiteral*>(valueAst)->getValue());
diff --git a/Sources/Spp/Handlers/handlers.cpp b/Sources/Spp/Handlers/handlers.cpp
index 160ae02..263f000 100644
--- a/Sources/Spp/Handlers/handlers.cpp
+++ b/Sources/Spp/Handlers/handlers.cpp
@@ -105,7 +105,8 @@ Bool parseNumber(
 ) {
   auto metadata = ti_cast<Core::Data::Ast::MetaHaving>(ast);
   if (ast->isA<Core::Data::Ast::IntegerLiteral>()) {
-    result = std::stol(static_cast<Core::Data::Ast::IntegerLiteral*>(ast)->getValue().get());
+    auto val = static_cast<Core::Data::Ast::IntegerLiteral*>(ast)->getValue().get();
+    result = Core::Data::Ast::parseIntegerLiteral(val);
     return true;
   } else {
     if (metadata) {
-- 
2.43.0


From 2d7904d5d81a5c5a95a478a9fb458c8b684444f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 24/33] fix: an updated element after the last member of a
 subset index must be able to join the subset

---
 Sources/Core/Basic/SubsetIndex.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Sources/Core/Basic/SubsetIndex.h b/Sources/Core/Basic/SubsetIndex.h
index e6914a8..422c0c3 100644
--- a/Sources/Core/Basic/SubsetIndex.h
+++ b/Sources/Core/Basic/SubsetIndex.h
@@ -60,7 +60,10 @@ class SubsetIndex
   public: void onUpdated(Int index, Bool withinSubset)
   {
     Int pos = this->findPos(index);
-    if (pos == -1) return;
+    if (pos == -1) {
+      if (withinSubset) this->indices.add(index);
+      return;
+    }
     if (withinSubset && this->indices(pos) != index) this->indices.insert(pos, index);
     else if (!withinSubset && this->indices(pos) == index) this->indices.remove(pos);
   }
-- 
2.43.0


From 523b8c06d874d06e4e67b22b4b07edda904e2657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 25/33] fix: re-adding an overriding map entry must not use the
 key of the removed entry

---
 Sources/Core/Basic/PlainMapBase.h  | 3 ++-
 Sources/Core/Basic/SharedMapBase.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Sources/Core/Basic/PlainMapBase.h b/Sources/Core/Basic/PlainMapBase.h
index eedcdb5..dd53926 100644
--- a/Sources/Core/Basic/PlainMapBase.h
+++ b/Sources/Core/Basic/PlainMapBase.h
@@ -241,7 +241,8 @@ template<class CTYPE, class PTYPE> class PlainMapBase : public PTYPE, public Dyn
       this->inherited->remove(index);
       this->onRemoved(index);
     } else {
-      auto key = this->getKey(index).getBuf();
+      // Copy the key since removing the entry releases the entry's own copy.
+      Str key = this->getKey(index).getBuf();
       CTYPE *obj = this->get(index);
       this->prepareForUnset(key, index, obj, false);
       this->map.removeAt(index);
diff --git a/Sources/Core/Basic/SharedMapBase.h b/Sources/Core/Basic/SharedMapBase.h
index debc8b3..51bd667 100644
--- a/Sources/Core/Basic/SharedMapBase.h
+++ b/Sources/Core/Basic/SharedMapBase.h
@@ -246,7 +246,8 @@ template<class CTYPE, class PTYPE> class SharedMapBase : public PTYPE, public Dy
       this->inherited->remove(index);
       this->onRemoved(index);
     } else {
-      auto key = this->getKey(index).getBuf();
+      // Copy the key since removing the entry releases the entry's own copy.
+      Str key = this->getKey(index).getBuf();
       SharedPtr<CTYPE> obj = this->get(index);
       this->prepareForUnset(key, index, obj, false);
       this->map.removeAt(index);
-- 
2.43.0


From 59f59065ba7c661f8547f187270d97a9be690329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 26/33] fix: slots must be disconnected from all of their
 signals, also while a signal is firing

---
 Sources/Core/Basic/signals.h | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/Sources/Core/Basic/signals.h b/Sources/Core/Basic/signals.h
index 2081d46..c27812e 100644
--- a/Sources/Core/Basic/signals.h
+++ b/Sources/Core/Basic/signals.h
@@ -51,7 +51,7 @@ template<class RT, class ...ARGS> class Slot
 
   public: ~Slot()
   {
-    for (auto signal : this->signals) signal->disconnect(*this);
+    this->disconnect();
   }
 
 
@@ -78,8 +78,10 @@ template<class RT, class ...ARGS> class Slot
 
   public: void disconnect()
   {
-    for (auto signal : this->signals) signal->disconnect(*this);
-    this->signals.clear();
+    // Disconnecting removes elements from this->signals, so we need to loop on a separate list.
+    std::vector<_Signal<RT, ARGS...>*> connectedSignals;
+    connectedSignals.swap(this->signals);
+    for (auto signal : connectedSignals) signal->disconnect(*this);
   }
 
   public: void init(RT(*f)(ARGS...))
@@ -181,12 +183,14 @@ template<class RT, class ...ARGS> class _Signal
     for (Int i = 0; i < this->slotsEntries.size(); ++i) {
       if (this->slotsEntries[i].slot == &slot) {
         if (this->firing > 0) {
+          // Keep the entry until firing is done, but not the slot since it may be destroyed before then.
+          this->slotsEntries[i].slot = 0;
           this->slotsEntries[i].enabled = false;
           this->scheduledDelete = true;
         } else {
           this->slotsEntries.erase(this->slotsEntries.begin() + i);
-          slot.removeSignal(this);
         }
+        slot.removeSignal(this);
         return;
       }
     }
@@ -194,8 +198,8 @@ template<class RT, class ...ARGS> class _Signal
 
   public: virtual void disconnectAll()
   {
-    while (this->slotsEntries.size() > 0) {
-      this->disconnect(*this->slotsEntries[0].slot);
+    for (Int i = (Int)this->slotsEntries.size() - 1; i >= 0; --i) {
+      if (this->slotsEntries[i].slot != 0) this->disconnect(*this->slotsEntries[i].slot);
     }
   }
 
@@ -205,9 +209,7 @@ template<class RT, class ...ARGS> class _Signal
     if (!this->scheduledDelete || this->firing > 0) return;
     for (Int i = 0; i < this->slotsEntries.size(); ++i) {
       if (!this->slotsEntries[i].enabled) {
-        auto slot = this->slotsEntries[i].slot;
         this->slotsEntries.erase(this->slotsEntries.begin() + i);
-        slot->removeSignal(this);
         --i;
       }
     }
@@ -228,7 +230,9 @@ template<class ...ARGS> class Signal<void, ARGS...> : public _Signal<void, ARGS.
     });
 
     ++this->firing;
-    for (auto slotEntry : this->slotsEntries) {
+    // Slots connected while firing are not called until the next emission.
+    for (Int i = 0, slotCount = (Int)this->slotsEntries.size(); i < slotCount; ++i) {
+      auto slotEntry = this->slotsEntries[i];
       if (slotEntry.enabled) {
         if (slotEntry.slot->isInitialized()) slotEntry.slot->call(args...);
       }
@@ -247,7 +251,9 @@ template<class ...ARGS> class Signal<Bool, ARGS...> : public _Signal<Bool, ARGS.
 
     ++this->firing;
     Word count = 0;
-    for (auto slotEntry : this->slotsEntries) {
+    // Slots connected while firing are not called until the next emission.
+    for (Int i = 0, slotCount = (Int)this->slotsEntries.size(); i < slotCount; ++i) {
+      auto slotEntry = this->slotsEntries[i];
       if (slotEntry.enabled) {
         if (slotEntry.slot->isInitialized()) {
           if (slotEntry.slot->call(args...)) ++count;
@@ -266,7 +272,9 @@ template<class ...ARGS> class Signal<Bool, ARGS...> : public _Signal<Bool, ARGS.
 
     Bool result = false;
     ++this->firing;
-    for (auto slotEntry : this->slotsEntries) {
+    // Slots connected while firing are not called until the next emission.
+    for (Int i = 0, slotCount = (Int)this->slotsEntries.size(); i < slotCount; ++i) {
+      auto slotEntry = this->slotsEntries[i];
       if (slotEntry.enabled) {
         if (slotEntry.slot->isInitialized()) {
           if (slotEntry.slot->call(args...)) {
@@ -320,14 +328,14 @@ template<class RT, class ...ARGS> class SignalRelay : public _Signal<RT, ARGS...
   {
     signal.connect(this->linkSlot);
     for (auto slotEntry : this->slotsEntries) {
-      signal.connect(*slotEntry.slot);
+      if (slotEntry.slot != 0) signal.connect(*slotEntry.slot);
     }
   }
 
   public: void unrelay(_Signal<RT, ARGS...> &signal)
   {
     for (auto slotEntry : this->slotsEntries) {
-      signal.disconnect(*slotEntry.slot);
+      if (slotEntry.slot != 0) signal.disconnect(*slotEntry.slot);
     }
     signal.disconnect(this->linkSlot);
   }
-- 
2.43.0


From a32b686583691d2c4c6471640ffd7cfc444ad201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 27/33] fix: inserting in a derived list must not break the
 base's sequence

---
 Sources/Core/Basic/PlainListBase.h  | 4 ++++
 Sources/Core/Basic/SharedListBase.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Sources/Core/Basic/PlainListBase.h b/Sources/Core/Basic/PlainListBase.h
index 9c64789..6ea70db 100644
--- a/Sources/Core/Basic/PlainListBase.h
+++ b/Sources/Core/Basic/PlainListBase.h
@@ -272,6 +272,10 @@ template<class CTYPE, class PTYPE> class PlainListBase : public PTYPE, public Dy
     if (static_cast<Word>(index) > this->list.getLength()) {
       throw EXCEPTION(InvalidArgumentException, S("index"), S("Out of range"), index);
     }
+    if (static_cast<Word>(index) < this->getBaseDefCount()) {
+      throw EXCEPTION(InvalidArgumentException, S("index"),
+                      S("Cannot insert at a position that breaks base's sequence."), index);
+    }
     auto obj = this->prepareForSet(index, val, false, true);
     this->list.insert(index, obj);
     if (this->inherited != 0) this->inherited->insert(index, false);
diff --git a/Sources/Core/Basic/SharedListBase.h b/Sources/Core/Basic/SharedListBase.h
index 4f18368..d1f286b 100644
--- a/Sources/Core/Basic/SharedListBase.h
+++ b/Sources/Core/Basic/SharedListBase.h
@@ -273,6 +273,10 @@ template<class CTYPE, class PTYPE> class SharedListBase : public PTYPE, public D
     if (static_cast<Word>(index) > this->list.getLength()) {
       throw EXCEPTION(InvalidArgumentException, S("index"), S("Out of range"), index);
     }
+    if (static_cast<Word>(index) < this->getBaseDefCount()) {
+      throw EXCEPTION(InvalidArgumentException, S("index"),
+                      S("Cannot insert at a position that breaks base's sequence."), index);
+    }
     auto obj = this->prepareForSet(index, val, false, true);
     this->list.insert(index, obj);
     if (this->inherited != 0) this->inherited->insert(index, false);
-- 
2.43.0


From 71259fce40adce35a113cc24bb26b8f10b938a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 28/33] fix: a derived map must not announce an element it did
 not add

---
 Sources/Core/Basic/PlainMapBase.h  | 3 +++
 Sources/Core/Basic/SharedMapBase.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/Sources/Core/Basic/PlainMapBase.h b/Sources/Core/Basic/PlainMapBase.h
index dd53926..c3ff8cb 100644
--- a/Sources/Core/Basic/PlainMapBase.h
+++ b/Sources/Core/Basic/PlainMapBase.h
@@ -211,6 +211,9 @@ template<class CTYPE, class PTYPE> class PlainMapBase : public PTYPE, public Dyn
       this->map.insert(index, key, obj);
       this->inherited->insert(index, true);
       this->finalizeSet(key, index, obj, true, true);
+    } else {
+      // Our own definition is already in the right position, so nothing is added.
+      return;
     }
     this->onAdded(index);
   }
diff --git a/Sources/Core/Basic/SharedMapBase.h b/Sources/Core/Basic/SharedMapBase.h
index 51bd667..fd27e73 100644
--- a/Sources/Core/Basic/SharedMapBase.h
+++ b/Sources/Core/Basic/SharedMapBase.h
@@ -216,6 +216,9 @@ template<class CTYPE, class PTYPE> class SharedMapBase : public PTYPE, public Dy
       this->map.insert(index, key, obj);
       this->inherited->insert(index, true);
       this->finalizeSet(key, index, obj, true, true);
+    } else {
+      // Our own definition is already in the right position, so nothing is added.
+      return;
     }
     this->onAdded(index);
   }
-- 
2.43.0


From a44506686de0c05b4557e47083d6c4275027ac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 29/33] fix: inserting after the end of a map must be refused

---
 Sources/Core/Basic/PlainMapBase.h  | 3 +++
 Sources/Core/Basic/SharedMapBase.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/Sources/Core/Basic/PlainMapBase.h b/Sources/Core/Basic/PlainMapBase.h
index c3ff8cb..ec6b20f 100644
--- a/Sources/Core/Basic/PlainMapBase.h
+++ b/Sources/Core/Basic/PlainMapBase.h
@@ -306,6 +306,9 @@ template<class CTYPE, class PTYPE> class PlainMapBase : public PTYPE, public Dyn
     if (this->findIndex(key) != -1) {
       throw EXCEPTION(InvalidArgumentException, S("key"), S("Already exists."), key);
     }
+    if (static_cast<Word>(index) > this->map.getLength()) {
+      throw EXCEPTION(InvalidArgumentException, S("index"), S("Out of range"), index);
+    }
     if (static_cast<Word>(index) < this->getBaseDefCount()) {
       throw EXCEPTION(InvalidArgumentException, S("index"),
                       S("Cannot insert at a position that breaks base's sequence."), index);
diff --git a/Sources/Core/Basic/SharedMapBase.h b/Sources/Core/Basic/SharedMapBase.h
index fd27e73..cefcaee 100644
--- a/Sources/Core/Basic/SharedMapBase.h
+++ b/Sources/Core/Basic/SharedMapBase.h
@@ -311,6 +311,9 @@ template<class CTYPE, class PTYPE> class SharedMapBase : public PTYPE, public Dy
     if (this->findIndex(key) != -1) {
       throw EXCEPTION(InvalidArgumentException, S("key"), S("Already exists."), key);
     }
+    if (static_cast<Word>(index) > this->map.getLength()) {
+      throw EXCEPTION(InvalidArgumentException, S("index"), S("Out of range"), index);
+    }
     if (static_cast<Word>(index) < this->getBaseDefCount()) {
       throw EXCEPTION(InvalidArgumentException, S("index"),
                       S("Cannot insert at a position that breaks base's sequence."), index);
-- 
2.43.0


From 90ec1cb9ca422f0f4470a47ceedd157307ba7323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 30/33] fix: remove every emptied character group from the
 lexer's input buffer

InputBuffer::remove left the last of the groups it had counted as removed in
place, so later positions were wrong and the next removal could run past the
end of the group array.
---
 Sources/Core/Processing/InputBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Core/Processing/InputBuffer.cpp b/Sources/Core/Processing/InputBuffer.cpp
index be1d945..d3d55b2 100644
--- a/Sources/Core/Processing/InputBuffer.cpp
+++ b/Sources/Core/Processing/InputBuffer.cpp
@@ -152,7 +152,7 @@ void InputBuffer::remove(Int count)
 
     // Remove the marked character groups.
     if (gc > 0) {
-      this->charGroups.erase(this->charGroups.begin(), this->charGroups.begin()+(gc-1));
+      this->charGroups.erase(this->charGroups.begin(), this->charGroups.begin()+gc);
     }
 
     // There should be at least two entires in the charGroups array at this
-- 
2.43.0


From c959df9504c7e0837f2eee6c955de1a4b5c1de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 31/33] fix: clear the keyword flag of tokens that have no
 tokenizing handler

---
 Sources/Core/Processing/Lexer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sources/Core/Processing/Lexer.cpp b/Sources/Core/Processing/Lexer.cpp
index e619163..2d586bb 100644
--- a/Sources/Core/Processing/Lexer.cpp
+++ b/Sources/Core/Processing/Lexer.cpp
@@ -355,6 +355,7 @@ Int Lexer::process()
         this->lastToken.setId(def->getId());
         this->lastToken.setText(this->inputBuffer.getChars(), this->states[i]->getTokenLength());
         this->lastToken.setSourceLocation(this->inputBuffer.getSourceLocation());
+        this->lastToken.setAsKeyword(false);
       } else {
         handler->prepareToken(&this->lastToken, def->getId(), this->inputBuffer.getChars(),
                               this->states[i]->getTokenLength(), this->inputBuffer.getSourceLocation());
-- 
2.43.0


From b413df651e2deb55c8719de227e34fb63ff1aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 32/33] fix: report an unterminated literal or comment instead
 of dropping the rest of the file

The end-of-input mark was matched by the 'any character' groups, so a string,
character literal or multi-line comment left open at the end of the input was
discarded silently together with everything in it, and so were the errors and
the state of the lexer when the last line was a comment without a newline.
---
 Sources/Core/Processing/Engine.cpp | 4 ++++
 Sources/Core/Processing/Lexer.cpp  | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/Sources/Core/Processing/Engine.cpp b/Sources/Core/Processing/Engine.cpp
index 80c54b1..2533b29 100644
--- a/Sources/Core/Processing/Engine.cpp
+++ b/Sources/Core/Processing/Engine.cpp
@@ -50,6 +50,8 @@ SharedPtr<TiObject> Engine::processString(Char const *str, Char const *name)
   auto endLine = sourceLocation.line;
   auto endColumn = sourceLocation.column;
 
+  // End the last line, so that a line comment there is complete, then the input.
+  lexer.handleNewChar('\n', sourceLocation);
   lexer.handleNewChar(FILE_TERMINATOR, sourceLocation);
 
   sourceLocation.line = endLine;
@@ -95,6 +97,8 @@ SharedPtr<TiObject> Engine::processStream(CharInStreaming *is, Char const *strea
   auto endLine = sourceLocation.line;
   auto endColumn = sourceLocation.column;
 
+  // End the last line, so that a line comment there is complete, then the input.
+  lexer.handleNewChar('\n', sourceLocation);
   lexer.handleNewChar(FILE_TERMINATOR, sourceLocation);
 
   sourceLocation.line = endLine;
diff --git a/Sources/Core/Processing/Lexer.cpp b/Sources/Core/Processing/Lexer.cpp
index 2d586bb..3d466b3 100644
--- a/Sources/Core/Processing/Lexer.cpp
+++ b/Sources/Core/Processing/Lexer.cpp
@@ -687,7 +687,8 @@ Lexer::NextAction Lexer::processCharGroupTerm(LexerState *state, WChar inputChar
       excMsg += S("). The definition formula is not set yet.");
       throw EXCEPTION(GenericException, excMsg);
     }
-    if (Data::Grammar::matchCharGroup(inputChar, def->getCharGroupUnit().get())) {
+    // The end of the input is not a character that a group can match.
+    if (inputChar != FILE_TERMINATOR && Data::Grammar::matchCharGroup(inputChar, def->getCharGroupUnit().get())) {
       state->refLevel(currentLevel).posId = 1;
       return CONTINUE_NEW_CHAR;
     } else {
-- 
2.43.0


From 96bc18b8156d299586eb75db64571fd6b4ae0424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 33/33] fix: let a lexer repetition go on when the first part
 of its term is empty

Adjacent string literals with nothing between them ("a""b") were not joined
although the grammar allows any number of spaces there, zero included.
---
 Sources/Core/Processing/Lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Core/Processing/Lexer.cpp b/Sources/Core/Processing/Lexer.cpp
index 3d466b3..69abb4a 100644
--- a/Sources/Core/Processing/Lexer.cpp
+++ b/Sources/Core/Processing/Lexer.cpp
@@ -744,7 +744,7 @@ Lexer::NextAction Lexer::processMultiplyTerm(LexerState *state, WChar inputChar,
     state->refLevel(currentLevel).posId++;
     // Try the inner route.
     state->pushTermLevel(0, term);
-    NextAction ret = this->processState(state, inputChar, currentLevel+1);
+    NextAction ret = this->processState(state, inputChar, currentLevel);
     if (ret == CONTINUE_NEW_CHAR) {
       if (tryOuter) {
         // If we need to try the outer route as well, then we need to duplicate the state.
-- 
2.43.0

