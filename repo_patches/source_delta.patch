From 02ea07fcefd345dc96810b72850ec5f61ec21188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:08 +0000
Subject: [PATCH 01/59] fix: deque keeps the wrapped part when it grows or
 shrinks

The tail part of a wrapped buffer was copied over the head part, and Shrink
shadowed its result.
---
 stl/deque.gp_int.go | 8 ++++----
 stl/gp/deque.gp     | 8 ++++----
 stl/gp/deque.gp.go  | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/stl/deque.gp_int.go b/stl/deque.gp_int.go
index 92f337f..79389a7 100644
--- a/stl/deque.gp_int.go
+++ b/stl/deque.gp_int.go
@@ -81,7 +81,7 @@ func (this *IntDeque) PushFront(v int) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -101,7 +101,7 @@ func (this *IntDeque) PushBack(v int) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -147,7 +147,7 @@ func (this *IntDeque) Back() (back int, ok bool) {
 func (this *IntDeque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
@@ -156,7 +156,7 @@ func (this *IntDeque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/deque.gp b/stl/gp/deque.gp
index eddd2c8..0296e60 100644
--- a/stl/gp/deque.gp
+++ b/stl/gp/deque.gp
@@ -85,7 +85,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) PushFront(v <VALUE_TYPE>) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -105,7 +105,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) PushBack(v <VALUE_TYPE>) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -151,7 +151,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) Back() (back <VALUE_TYPE>, ok bool) {
 func (this *<GLOBAL_NAME_PREFIX>Deque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
@@ -160,7 +160,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/deque.gp.go b/stl/gp/deque.gp.go
index e1b76af..c0434be 100644
--- a/stl/gp/deque.gp.go
+++ b/stl/gp/deque.gp.go
@@ -85,7 +85,7 @@ func (this *GOGPGlobalNamePrefixDeque) PushFront(v GOGPValueType) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -105,7 +105,7 @@ func (this *GOGPGlobalNamePrefixDeque) PushBack(v GOGPValueType) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -151,7 +151,7 @@ func (this *GOGPGlobalNamePrefixDeque) Back() (back GOGPValueType, ok bool) {
 func (this *GOGPGlobalNamePrefixDeque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
@@ -160,7 +160,7 @@ func (this *GOGPGlobalNamePrefixDeque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
-- 
2.43.0


From 87c8f02da98b4995af9b03310c520c48e28fb374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:07 +0000
Subject: [PATCH 02/59] fix: queue grows whenever it is full and shrinks by
 capacity

Push only noticed a full buffer when the tail wrapped to index 0, so a rotated
queue overwrote itself; the wrapped part was copied over the head part; Shrink
sized the new buffer from the element count and shadowed its result.
---
 stl/gp/queue.gp     | 22 +++++++++++-----------
 stl/gp/queue.gp.go  | 22 +++++++++++-----------
 stl/queue.gp_int.go | 22 +++++++++++-----------
 3 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/stl/gp/queue.gp b/stl/gp/queue.gp
index 23094be..9caef41 100644
--- a/stl/gp/queue.gp
+++ b/stl/gp/queue.gp
@@ -78,14 +78,14 @@ func (this *<GLOBAL_NAME_PREFIX>Queue) Push(v <VALUE_TYPE>) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
@@ -126,16 +126,16 @@ func (this *<GLOBAL_NAME_PREFIX>Queue) Back() (back <VALUE_TYPE>, ok bool) {
 func (this *<GLOBAL_NAME_PREFIX>Queue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/queue.gp.go b/stl/gp/queue.gp.go
index 1a4fc92..89860a2 100644
--- a/stl/gp/queue.gp.go
+++ b/stl/gp/queue.gp.go
@@ -175,14 +175,14 @@ func (this *GOGPGlobalNamePrefixQueue) Push(v GOGPValueType) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
@@ -223,16 +223,16 @@ func (this *GOGPGlobalNamePrefixQueue) Back() (back GOGPValueType, ok bool) {
 func (this *GOGPGlobalNamePrefixQueue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/queue.gp_int.go b/stl/queue.gp_int.go
index 6e1c95e..514955b 100644
--- a/stl/queue.gp_int.go
+++ b/stl/queue.gp_int.go
@@ -72,14 +72,14 @@ func (this *IntQueue) Push(v int) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
@@ -120,16 +120,16 @@ func (this *IntQueue) Back() (back int, ok bool) {
 func (this *IntQueue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
-- 
2.43.0


From f36f0ae706f4d6ac3b6bdb61e2a93ce4cd5dc3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:16 +0000
Subject: [PATCH 03/59] fix: heap Reverse accepts an empty slice

---
 stl/gp/heap.gp     | 2 +-
 stl/gp/heap.gp.go  | 2 +-
 stl/heap.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/heap.gp b/stl/gp/heap.gp
index b98a3d5..e76aa14 100644
--- a/stl/gp/heap.gp
+++ b/stl/gp/heap.gp
@@ -140,7 +140,7 @@ func (this *<GLOBAL_NAME_PREFIX>Heap) MakeHeap(b []<VALUE_TYPE>) {
 //reverse order of b
 func (this *<GLOBAL_NAME_PREFIX>Heap) Reverse(b []<VALUE_TYPE>) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := 0; i < l-i; i++ {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
diff --git a/stl/gp/heap.gp.go b/stl/gp/heap.gp.go
index 90dd76d..d9f34a4 100644
--- a/stl/gp/heap.gp.go
+++ b/stl/gp/heap.gp.go
@@ -237,7 +237,7 @@ func (this *GOGPGlobalNamePrefixHeap) MakeHeap(b []GOGPValueType) {
 //reverse order of b
 func (this *GOGPGlobalNamePrefixHeap) Reverse(b []GOGPValueType) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := 0; i < l-i; i++ {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
diff --git a/stl/heap.gp_int.go b/stl/heap.gp_int.go
index 92eff7a..1eb3100 100644
--- a/stl/heap.gp_int.go
+++ b/stl/heap.gp_int.go
@@ -123,7 +123,7 @@ func (this *IntHeap) MakeHeap(b []int) {
 //reverse order of b
 func (this *IntHeap) Reverse(b []int) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := 0; i < l-i; i++ {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
-- 
2.43.0


From 396a99d7775b83223cdd14cb39b3d902767d6129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:24 +0000
Subject: [PATCH 04/59] fix: list InsertAfter links the following node back

---
 stl/gp/list.gp     | 3 ++-
 stl/gp/list.gp.go  | 3 ++-
 stl/list.gp_int.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index d6f28f6..7beaa97 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -244,9 +244,10 @@ func (this *<GLOBAL_NAME_PREFIX>List) InsertBefore(node, mark *<GLOBAL_NAME_PREF
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) InsertAfter(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (n *<GLOBAL_NAME_PREFIX>ListNode) {
-	if n = node; node != nil && mark != nil {
+	if n = node; node != nil && mark != nil && node != mark {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index ca7275a..3a4fc3d 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -341,9 +341,10 @@ func (this *GOGPGlobalNamePrefixList) InsertBefore(node, mark *GOGPGlobalNamePre
 }
 
 func (this *GOGPGlobalNamePrefixList) InsertAfter(node, mark *GOGPGlobalNamePrefixListNode) (n *GOGPGlobalNamePrefixListNode) {
-	if n = node; node != nil && mark != nil {
+	if n = node; node != nil && mark != nil && node != mark {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index 7009afe..32de7e1 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -238,9 +238,10 @@ func (this *IntList) InsertBefore(node, mark *IntListNode) (n *IntListNode) {
 }
 
 func (this *IntList) InsertAfter(node, mark *IntListNode) (n *IntListNode) {
-	if n = node; node != nil && mark != nil {
+	if n = node; node != nil && mark != nil && node != mark {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
-- 
2.43.0


From 71d346775e8e544c2a52a6a46d2c329108eb0c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:24 +0000
Subject: [PATCH 05/59] fix: list InsertFrontList puts the whole list in front

It rotated by one element whatever the length of the inserted list.
---
 stl/gp/list.gp     | 6 +++---
 stl/gp/list.gp.go  | 6 +++---
 stl/list.gp_int.go | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index 7beaa97..87e71c8 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -191,9 +191,9 @@ func (this *<GLOBAL_NAME_PREFIX>List) PopBack() (v <VALUE_TYPE>, ok bool) {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) InsertFrontList(other *<GLOBAL_NAME_PREFIX>List) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	front := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = front
 	}
 	return
 }
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index 3a4fc3d..c123621 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -288,9 +288,9 @@ func (this *GOGPGlobalNamePrefixList) PopBack() (v GOGPValueType, ok bool) {
 }
 
 func (this *GOGPGlobalNamePrefixList) InsertFrontList(other *GOGPGlobalNamePrefixList) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	front := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = front
 	}
 	return
 }
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index 32de7e1..b624eb2 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -185,9 +185,9 @@ func (this *IntList) PopBack() (v int, ok bool) {
 }
 
 func (this *IntList) InsertFrontList(other *IntList) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	front := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = front
 	}
 	return
 }
-- 
2.43.0


From 0eeae756fe6bdc9e2101a49d749e5f25b1c3ff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:24 +0000
Subject: [PATCH 06/59] fix: list Reachable walks the list

The loop ended before its first step.
---
 stl/gp/list.gp     | 2 +-
 stl/gp/list.gp.go  | 2 +-
 stl/list.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index 87e71c8..ce695c1 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -278,7 +278,7 @@ func (this *<GLOBAL_NAME_PREFIX>List) Remove(node *<GLOBAL_NAME_PREFIX>ListNode)
 
 func (this *<GLOBAL_NAME_PREFIX>List) Reachable(node, dest *<GLOBAL_NAME_PREFIX>ListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index c123621..3d85243 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -375,7 +375,7 @@ func (this *GOGPGlobalNamePrefixList) Remove(node *GOGPGlobalNamePrefixListNode)
 
 func (this *GOGPGlobalNamePrefixList) Reachable(node, dest *GOGPGlobalNamePrefixListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index b624eb2..a41d8bf 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -272,7 +272,7 @@ func (this *IntList) Remove(node *IntListNode) (n *IntListNode) {
 
 func (this *IntList) Reachable(node, dest *IntListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
-- 
2.43.0


From 00c89c958bc069215d33ec717ebe535736cec67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:24 +0000
Subject: [PATCH 07/59] fix: list MoveBack and MoveFront handle the front and
 back nodes

---
 stl/gp/list.gp     | 18 +++++++++++-------
 stl/gp/list.gp.go  | 18 +++++++++++-------
 stl/list.gp_int.go | 18 +++++++++++-------
 3 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index ce695c1..a6c2430 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -299,13 +299,17 @@ func (this *<GLOBAL_NAME_PREFIX>List) MoveFront(node *<GLOBAL_NAME_PREFIX>ListNo
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveBack(node *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
-	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
-		node.next.prev = node.prev
-		node.prev.next = node.next
-		node.next = this.head
-		node.prev = this.head.prev
-		this.head.prev.next = node
-		this.head.prev = node
+	if node != nil && node.next != nil && node.prev != nil && node.next != node {
+		if node == this.head {
+			this.RotateForward()
+		} else if node != this.head.prev {
+			node.next.prev = node.prev
+			node.prev.next = node.next
+			node.next = this.head
+			node.prev = this.head.prev
+			this.head.prev.next = node
+			this.head.prev = node
+		}
 		r = node
 	}
 	return
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index 3d85243..dc71c9a 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -396,13 +396,17 @@ func (this *GOGPGlobalNamePrefixList) MoveFront(node *GOGPGlobalNamePrefixListNo
 }
 
 func (this *GOGPGlobalNamePrefixList) MoveBack(node *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
-	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
-		node.next.prev = node.prev
-		node.prev.next = node.next
-		node.next = this.head
-		node.prev = this.head.prev
-		this.head.prev.next = node
-		this.head.prev = node
+	if node != nil && node.next != nil && node.prev != nil && node.next != node {
+		if node == this.head {
+			this.RotateForward()
+		} else if node != this.head.prev {
+			node.next.prev = node.prev
+			node.prev.next = node.next
+			node.next = this.head
+			node.prev = this.head.prev
+			this.head.prev.next = node
+			this.head.prev = node
+		}
 		r = node
 	}
 	return
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index a41d8bf..6740ba9 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -293,13 +293,17 @@ func (this *IntList) MoveFront(node *IntListNode) (r *IntListNode) {
 }
 
 func (this *IntList) MoveBack(node *IntListNode) (r *IntListNode) {
-	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
-		node.next.prev = node.prev
-		node.prev.next = node.next
-		node.next = this.head
-		node.prev = this.head.prev
-		this.head.prev.next = node
-		this.head.prev = node
+	if node != nil && node.next != nil && node.prev != nil && node.next != node {
+		if node == this.head {
+			this.RotateForward()
+		} else if node != this.head.prev {
+			node.next.prev = node.prev
+			node.prev.next = node.next
+			node.next = this.head
+			node.prev = this.head.prev
+			this.head.prev.next = node
+			this.head.prev = node
+		}
 		r = node
 	}
 	return
-- 
2.43.0


From ee846ec033ecceb13cd47a5e35314e68f0d10c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:24 +0000
Subject: [PATCH 08/59] fix: list MoveBefore and MoveAfter work across the ends

A node moved before the front did not become the front, and the back node
(front node) was taken to be in place already because the links are circular.
---
 stl/gp/list.gp     | 8 ++++++--
 stl/gp/list.gp.go  | 8 ++++++--
 stl/list.gp_int.go | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index a6c2430..c0ce095 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -316,19 +316,23 @@ func (this *<GLOBAL_NAME_PREFIX>List) MoveBack(node *<GLOBAL_NAME_PREFIX>ListNod
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveBefore(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
+		toFront := mark == this.head
 		if r = this.Remove(node); r != nil {
 			node.next = mark.prev.next
 			node.prev = mark.prev
 			mark.prev.next = node
 			mark.prev = node
+			if toFront {
+				this.head = node
+			}
 		}
 	}
 	return
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveAfter(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index dc71c9a..45a6d8e 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -413,19 +413,23 @@ func (this *GOGPGlobalNamePrefixList) MoveBack(node *GOGPGlobalNamePrefixListNod
 }
 
 func (this *GOGPGlobalNamePrefixList) MoveBefore(node, mark *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
+		toFront := mark == this.head
 		if r = this.Remove(node); r != nil {
 			node.next = mark.prev.next
 			node.prev = mark.prev
 			mark.prev.next = node
 			mark.prev = node
+			if toFront {
+				this.head = node
+			}
 		}
 	}
 	return
 }
 
 func (this *GOGPGlobalNamePrefixList) MoveAfter(node, mark *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index 6740ba9..c05f4b2 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -310,19 +310,23 @@ func (this *IntList) MoveBack(node *IntListNode) (r *IntListNode) {
 }
 
 func (this *IntList) MoveBefore(node, mark *IntListNode) (r *IntListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
+		toFront := mark == this.head
 		if r = this.Remove(node); r != nil {
 			node.next = mark.prev.next
 			node.prev = mark.prev
 			mark.prev.next = node
 			mark.prev = node
+			if toFront {
+				this.head = node
+			}
 		}
 	}
 	return
 }
 
 func (this *IntList) MoveAfter(node, mark *IntListNode) (r *IntListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
-- 
2.43.0


From 77f226b191f6549d349771b5d5d8a069cc055b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:24 +0000
Subject: [PATCH 09/59] fix: list Reverse keeps every element

The visitor followed links that InsertFront had already rewritten.
---
 stl/gp/list.gp     | 8 ++++----
 stl/gp/list.gp.go  | 8 ++++----
 stl/list.gp_int.go | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index c0ce095..254c511 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -348,11 +348,11 @@ func (this *<GLOBAL_NAME_PREFIX>List) Empty() bool {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) Reverse() {
-	v := this.Visitor()
-	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	var r <GLOBAL_NAME_PREFIX>List
+	for n := this.RemoveFront(); n != nil; n = this.RemoveFront() {
+		r.InsertFront(n)
 	}
+	*this = r
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) Sort() {
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index 45a6d8e..8380b16 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -445,11 +445,11 @@ func (this *GOGPGlobalNamePrefixList) Empty() bool {
 }
 
 func (this *GOGPGlobalNamePrefixList) Reverse() {
-	v := this.Visitor()
-	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	var r GOGPGlobalNamePrefixList
+	for n := this.RemoveFront(); n != nil; n = this.RemoveFront() {
+		r.InsertFront(n)
 	}
+	*this = r
 }
 
 func (this *GOGPGlobalNamePrefixList) Sort() {
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index c05f4b2..8fa32a6 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -342,11 +342,11 @@ func (this *IntList) Empty() bool {
 }
 
 func (this *IntList) Reverse() {
-	v := this.Visitor()
-	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	var r IntList
+	for n := this.RemoveFront(); n != nil; n = this.RemoveFront() {
+		r.InsertFront(n)
 	}
+	*this = r
 }
 
 func (this *IntList) Sort() {
-- 
2.43.0


From 02d1502f6038a88701248cea6c005bfcbdb0119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:00 +0000
Subject: [PATCH 10/59] fix: slist visitor reports the elements it finds

Next always returned false, so nothing could be visited and Len was 0.
---
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 1a85b5a..2c487ba 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -79,7 +79,7 @@ func (this *<GLOBAL_NAME_PREFIX>SListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SListNodeVisitor) Get() *<GLOBAL_NAME_PREFIX>SListNode {
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 361b1d0..719391c 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -176,7 +176,7 @@ func (this *GOGPGlobalNamePrefixSListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *GOGPGlobalNamePrefixSListNodeVisitor) Get() *GOGPGlobalNamePrefixSListNode {
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index af27744..ec1b712 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -73,7 +73,7 @@ func (this *IntSListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *IntSListNodeVisitor) Get() *IntSListNode {
-- 
2.43.0


From 45cf727f17b44b4b2daff12ab4bb72afe2c8cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:00 +0000
Subject: [PATCH 11/59] fix: slist Empty is true for an empty list

It was inverted, which also made Sort panic.
---
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 2c487ba..8cb9103 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -103,7 +103,7 @@ func New<GLOBAL_NAME_PREFIX>SList() *<GLOBAL_NAME_PREFIX>SList {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Len() (n int) {
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 719391c..4074e90 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -200,7 +200,7 @@ func NewGOGPGlobalNamePrefixSList() *GOGPGlobalNamePrefixSList {
 }
 
 func (this *GOGPGlobalNamePrefixSList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *GOGPGlobalNamePrefixSList) Len() (n int) {
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index ec1b712..6e1977f 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -94,7 +94,7 @@ func NewIntSList() *IntSList {
 }
 
 func (this *IntSList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *IntSList) Len() (n int) {
-- 
2.43.0


From 24c28c72d11c77777d9ef527848b792abff0cc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:00 +0000
Subject: [PATCH 12/59] fix: slist PushFrontList takes the nodes over

The other list kept sharing them, and pushing a list onto itself made a cycle.
---
 stl/gp/slist.gp     | 3 ++-
 stl/gp/slist.gp.go  | 3 ++-
 stl/slist.gp_int.go | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 8cb9103..29f724c 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -181,7 +181,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) PushFrontList(other *<GLOBAL_NAME_PREFIX>
 	//#GOGP_ELSE
 	t, _ = other.head.next.Tail()
 	//#GOGP_ENDIF
-	if t != nil {
+	if t != nil && other != this {
 		t.next = this.head.next
 		this.head.next = other.head.next
 		//#GOGP_IFDEF GOGP_HasTail
@@ -189,6 +189,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) PushFrontList(other *<GLOBAL_NAME_PREFIX>
 			this.tail = t
 		} //
 		//#GOGP_ENDIF
+		other.Clear()
 	}
 }
 
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 4074e90..9b42749 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -278,7 +278,7 @@ func (this *GOGPGlobalNamePrefixSList) PushFrontList(other *GOGPGlobalNamePrefix
 	//#GOGP_ELSE
 	t, _ = other.head.next.Tail()
 	//#GOGP_ENDIF
-	if t != nil {
+	if t != nil && other != this {
 		t.next = this.head.next
 		this.head.next = other.head.next
 		//#GOGP_IFDEF GOGP_HasTail
@@ -286,6 +286,7 @@ func (this *GOGPGlobalNamePrefixSList) PushFrontList(other *GOGPGlobalNamePrefix
 			this.tail = t
 		} //
 		//#GOGP_ENDIF
+		other.Clear()
 	}
 }
 
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index 6e1977f..fa66c47 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -136,10 +136,10 @@ func (this *IntSList) PushFrontList(other *IntSList) {
 
 	t, _ = other.head.next.Tail()
 
-	if t != nil {
+	if t != nil && other != this {
 		t.next = this.head.next
 		this.head.next = other.head.next
-
+		other.Clear()
 	}
 }
 
-- 
2.43.0


From 54d696861232a0341556badd0e8fa4b8b4811558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:00 +0000
Subject: [PATCH 13/59] fix: slist Reachable walks the list

The loop ended before its first step.
---
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 29f724c..9e67a56 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -352,7 +352,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) HasCycle(head *<GLOBAL_NAME_PREFIX>SListN
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Reachable(node, dest *<GLOBAL_NAME_PREFIX>SListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 9b42749..043b0c8 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -449,7 +449,7 @@ func (this *GOGPGlobalNamePrefixSList) HasCycle(head *GOGPGlobalNamePrefixSListN
 
 func (this *GOGPGlobalNamePrefixSList) Reachable(node, dest *GOGPGlobalNamePrefixSListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index fa66c47..5511f3a 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -260,7 +260,7 @@ func (this *IntSList) HasCycle(head *IntSListNode) (ok bool) {
 
 func (this *IntSList) Reachable(node, dest *IntSListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
-- 
2.43.0


From 5fe9ca99ba4d0ec97c058d105a25f6637811e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:00 +0000
Subject: [PATCH 14/59] fix: slist HasCycle advances the two pointers once per
 round

It stepped twice, dereferenced nil at the end of a list and could report a
cycle for a straight list.
---
 stl/gp/slist.gp     | 9 ++-------
 stl/gp/slist.gp.go  | 9 ++-------
 stl/slist.gp_int.go | 9 ++-------
 3 files changed, 6 insertions(+), 21 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 9e67a56..94c34b9 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -330,13 +330,8 @@ func (this *<GLOBAL_NAME_PREFIX>SList) Reverse() {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) HasCycle(head *<GLOBAL_NAME_PREFIX>SListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
-		fast = fast.next
-		if ok = fast != nil; !ok {
-			break
-		}
-		fast = fast.next
-		slow = slow.next
+	for slow, fast := head, head; fast != nil && fast.next != nil; {
+		slow, fast = slow.next, fast.next.next
 		if ok = fast == slow; ok {
 			break
 		}
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 043b0c8..3847b63 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -427,13 +427,8 @@ func (this *GOGPGlobalNamePrefixSList) Reverse() {
 }
 
 func (this *GOGPGlobalNamePrefixSList) HasCycle(head *GOGPGlobalNamePrefixSListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
-		fast = fast.next
-		if ok = fast != nil; !ok {
-			break
-		}
-		fast = fast.next
-		slow = slow.next
+	for slow, fast := head, head; fast != nil && fast.next != nil; {
+		slow, fast = slow.next, fast.next.next
 		if ok = fast == slow; ok {
 			break
 		}
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index 5511f3a..e845f9d 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -238,13 +238,8 @@ func (this *IntSList) Reverse() {
 }
 
 func (this *IntSList) HasCycle(head *IntSListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
-		fast = fast.next
-		if ok = fast != nil; !ok {
-			break
-		}
-		fast = fast.next
-		slow = slow.next
+	for slow, fast := head, head; fast != nil && fast.next != nil; {
+		slow, fast = slow.next, fast.next.next
 		if ok = fast == slow; ok {
 			break
 		}
-- 
2.43.0


From e7489cf26caca6900cf99196943428cf4b6cb074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:07 +0000
Subject: [PATCH 15/59] fix: sort slice Insert inserts

It replaced the element at idx.
---
 fs/sort_slice.gp_#filehashtreenodef199.go | 6 +++---
 stl/gp/sort_slice.gp                      | 6 +++---
 stl/gp/sort_slice.gp.go                   | 6 +++---
 stl/sort_slice.gp_#inttreenodeb60b.go     | 6 +++---
 stl/sort_slice.gp_int.go                  | 6 +++---
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/fs/sort_slice.gp_#filehashtreenodef199.go b/fs/sort_slice.gp_#filehashtreenodef199.go
index 2c83af8..0b34498 100644
--- a/fs/sort_slice.gp_#filehashtreenodef199.go
+++ b/fs/sort_slice.gp_#filehashtreenodef199.go
@@ -70,9 +70,9 @@ func (this *FileHashSortSlice) Push(v *FileHashTreeNode) int {
 //insert
 func (this *FileHashSortSlice) Insert(v *FileHashTreeNode, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
diff --git a/stl/gp/sort_slice.gp b/stl/gp/sort_slice.gp
index 35e2942..1601ae9 100644
--- a/stl/gp/sort_slice.gp
+++ b/stl/gp/sort_slice.gp
@@ -76,9 +76,9 @@ func (this *<GLOBAL_NAME_PREFIX>SortSlice) Push(v <VALUE_TYPE>) int {
 //insert
 func (this *<GLOBAL_NAME_PREFIX>SortSlice) Insert(v <VALUE_TYPE>, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
diff --git a/stl/gp/sort_slice.gp.go b/stl/gp/sort_slice.gp.go
index ac6a660..d0c1010 100644
--- a/stl/gp/sort_slice.gp.go
+++ b/stl/gp/sort_slice.gp.go
@@ -173,9 +173,9 @@ func (this *GOGPGlobalNamePrefixSortSlice) Push(v GOGPValueType) int {
 //insert
 func (this *GOGPGlobalNamePrefixSortSlice) Insert(v GOGPValueType, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
diff --git a/stl/sort_slice.gp_#inttreenodeb60b.go b/stl/sort_slice.gp_#inttreenodeb60b.go
index 8700512..2318223 100644
--- a/stl/sort_slice.gp_#inttreenodeb60b.go
+++ b/stl/sort_slice.gp_#inttreenodeb60b.go
@@ -70,9 +70,9 @@ func (this *IntTreeNodeSortSlice) Push(v *IntTreeNode) int {
 //insert
 func (this *IntTreeNodeSortSlice) Insert(v *IntTreeNode, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
diff --git a/stl/sort_slice.gp_int.go b/stl/sort_slice.gp_int.go
index 65e0f3c..c7e8bb2 100644
--- a/stl/sort_slice.gp_int.go
+++ b/stl/sort_slice.gp_int.go
@@ -70,9 +70,9 @@ func (this *IntSortSlice) Push(v int) int {
 //insert
 func (this *IntSortSlice) Insert(v int, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
-- 
2.43.0


From 7a37c47a7114ee0bf9b0fa9e6704f93f35fc0f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:07 +0000
Subject: [PATCH 16/59] fix: sort slice Pop on an empty slice reports false

---
 fs/sort_slice.gp_#filehashtreenodef199.go | 2 +-
 stl/gp/sort_slice.gp                      | 2 +-
 stl/gp/sort_slice.gp.go                   | 2 +-
 stl/sort_slice.gp_#inttreenodeb60b.go     | 2 +-
 stl/sort_slice.gp_int.go                  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/fs/sort_slice.gp_#filehashtreenodef199.go b/fs/sort_slice.gp_#filehashtreenodef199.go
index 0b34498..5f81b1e 100644
--- a/fs/sort_slice.gp_#filehashtreenodef199.go
+++ b/fs/sort_slice.gp_#filehashtreenodef199.go
@@ -92,8 +92,8 @@ func (this *FileHashSortSlice) Remove(idx int) (r *FileHashTreeNode, ok bool) {
 func (this *FileHashSortSlice) Pop() (r *FileHashTreeNode, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/gp/sort_slice.gp b/stl/gp/sort_slice.gp
index 1601ae9..caf9a03 100644
--- a/stl/gp/sort_slice.gp
+++ b/stl/gp/sort_slice.gp
@@ -98,8 +98,8 @@ func (this *<GLOBAL_NAME_PREFIX>SortSlice) Remove(idx int) (r <VALUE_TYPE>, ok b
 func (this *<GLOBAL_NAME_PREFIX>SortSlice) Pop() (r <VALUE_TYPE>, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/gp/sort_slice.gp.go b/stl/gp/sort_slice.gp.go
index d0c1010..dc608e2 100644
--- a/stl/gp/sort_slice.gp.go
+++ b/stl/gp/sort_slice.gp.go
@@ -195,8 +195,8 @@ func (this *GOGPGlobalNamePrefixSortSlice) Remove(idx int) (r GOGPValueType, ok
 func (this *GOGPGlobalNamePrefixSortSlice) Pop() (r GOGPValueType, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/sort_slice.gp_#inttreenodeb60b.go b/stl/sort_slice.gp_#inttreenodeb60b.go
index 2318223..95d20e4 100644
--- a/stl/sort_slice.gp_#inttreenodeb60b.go
+++ b/stl/sort_slice.gp_#inttreenodeb60b.go
@@ -92,8 +92,8 @@ func (this *IntTreeNodeSortSlice) Remove(idx int) (r *IntTreeNode, ok bool) {
 func (this *IntTreeNodeSortSlice) Pop() (r *IntTreeNode, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/sort_slice.gp_int.go b/stl/sort_slice.gp_int.go
index c7e8bb2..d6b02bb 100644
--- a/stl/sort_slice.gp_int.go
+++ b/stl/sort_slice.gp_int.go
@@ -92,8 +92,8 @@ func (this *IntSortSlice) Remove(idx int) (r int, ok bool) {
 func (this *IntSortSlice) Pop() (r int, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
-- 
2.43.0


From 196e6b24cd3c1dd845adce3cd60129df0426833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:27 +0000
Subject: [PATCH 17/59] fix: ranged integers report out-of-range results

The error returns had been commented out with the old errors package, so
overflow wrapped silently, invalid ranges were accepted and Div/Mod by zero
panicked.
---
 math/range_uint32.go | 18 +++++++++---------
 math/range_uint64.go | 20 ++++++++++----------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/math/range_uint32.go b/math/range_uint32.go
index 21be19c..36096b3 100644
--- a/math/range_uint32.go
+++ b/math/range_uint32.go
@@ -41,7 +41,7 @@ func (me *RangeUint32) Init(_val, _min, _max uint32) (err error) {
 
 func (me *RangeUint32) Add(other uint32) (r uint32, err error) {
 	if math.MaxUint32-other < me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Add(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Add(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val + other
 	r, err = v, me.verify(v)
@@ -49,7 +49,7 @@ func (me *RangeUint32) Add(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Sub(other uint32) (r uint32, err error) {
 	if me.val < other {
-		//return me.min, aerr.Newf(errid_ru32_full, "Sub(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Sub(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val - other
 	r, err = v, me.verify(v)
@@ -58,7 +58,7 @@ func (me *RangeUint32) Sub(other uint32) (r uint32, err error) {
 
 func (me *RangeUint32) Mul(other uint32) (r uint32, err error) {
 	if other > 0 && math.MaxUint32/other < me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Mul(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Mul(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val * other
 	r, err = v, me.verify(v)
@@ -66,7 +66,7 @@ func (me *RangeUint32) Mul(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Div(other uint32) (r uint32, err error) {
 	if 0 == other {
-		//return me.min, aerr.Newf(errid_ru32_full, "Div(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Div(%d) error:%s", other, me.Info())
 	}
 	v := me.val / other
 	r, err = v, me.verify(v)
@@ -82,14 +82,14 @@ func (me *RangeUint32) Mod(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Inc() (r uint32, err error) {
 	if math.MaxUint32 == me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Inc() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Inc() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val + 1)
 	return
 }
 func (me *RangeUint32) Dec(other uint32) (r uint32, err error) {
 	if 0 == me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Dec() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Dec() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val - 1)
 	return
@@ -135,16 +135,16 @@ func (me *RangeUint32) Info() string {
 
 func (me *RangeUint32) verify(_val uint32) (err error) {
 	if !me.InRange(_val) {
-		//err = aerr.Newf(errid_ru32_full, "val(%d) out of range[%d,%d]", _val, me.min, me.max)
+		err = fmt.Errorf("[RangeUint32] out of range: val(%d) out of range[%d,%d]", _val, me.min, me.max)
 	}
 	return
 }
 
 func verifyRangeUint32(_val, _min, _max uint32) (err error) {
 	if _min > _max {
-		//err = aerr.New(errid_min_max_error)
+		err = fmt.Errorf("[RangeUint32] min(%d) > max(%d)", _min, _max)
 	} else if _val < _min || _val > _max {
-		//err = aerr.Newf(errid_ru32_full, "val(%d) out of range[%d,%d]", _val, _min, _max)
+		err = fmt.Errorf("[RangeUint32] out of range: val(%d) out of range[%d,%d]", _val, _min, _max)
 	}
 	return
 }
diff --git a/math/range_uint64.go b/math/range_uint64.go
index 4fb12fe..943033d 100644
--- a/math/range_uint64.go
+++ b/math/range_uint64.go
@@ -47,7 +47,7 @@ func (me *RangeUInt64) Init(_val, _min, _max uint64) (err error) {
 
 func (me *RangeUInt64) Add(other uint64) (r uint64, err error) {
 	if math.MaxUint64-other < me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Add(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Add(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val + other
 	r, err = v, me.verify(v)
@@ -55,7 +55,7 @@ func (me *RangeUInt64) Add(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Sub(other uint64) (r uint64, err error) {
 	if me.val < other {
-		//return me.min, aerr.Newf(errid_ru64_full, "Sub(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Sub(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val - other
 	r, err = v, me.verify(v)
@@ -64,7 +64,7 @@ func (me *RangeUInt64) Sub(other uint64) (r uint64, err error) {
 
 func (me *RangeUInt64) Mul(other uint64) (r uint64, err error) {
 	if other > 0 && math.MaxUint64/other < me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Mul(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Mul(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val * other
 	r, err = v, me.verify(v)
@@ -72,7 +72,7 @@ func (me *RangeUInt64) Mul(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Div(other uint64) (r uint64, err error) {
 	if 0 == other {
-		//return me.min, aerr.Newf(errid_ru64_full, "Div(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Div(%d) error:%s", other, me.Info())
 	}
 	v := me.val / other
 	r, err = v, me.verify(v)
@@ -80,7 +80,7 @@ func (me *RangeUInt64) Div(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Mod(other uint64) (r uint64, err error) {
 	if 0 == other {
-		//return me.min, fmt.Errorf("[RangeUInt64] Mod(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Mod(%d) error:%s", other, me.Info())
 	}
 	v := me.val % other
 	r, err = v, me.verify(v)
@@ -88,14 +88,14 @@ func (me *RangeUInt64) Mod(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Inc() (r uint64, err error) {
 	if math.MaxUint64 == me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Inc() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Inc() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val + 1)
 	return
 }
 func (me *RangeUInt64) Dec(other uint64) (r uint64, err error) {
 	if 0 == me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Dec() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Dec() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val - 1)
 	return
@@ -136,16 +136,16 @@ func (me *RangeUInt64) Info() string {
 
 func (me *RangeUInt64) verify(_val uint64) (err error) {
 	if !me.InRange(_val) {
-		//err = aerr.Newf(errid_ru64_full, "val(%d) out of range[%d,%d]", _val, me.min, me.max)
+		err = fmt.Errorf("[RangeUInt64] out of range: val(%d) out of range[%d,%d]", _val, me.min, me.max)
 	}
 	return
 }
 
 func verifyRangeUInt64(_val, _min, _max uint64) (err error) {
 	if _min > _max {
-		//err = aerr.New(errid_min_max_error)
+		err = fmt.Errorf("[RangeUInt64] min(%d) > max(%d)", _min, _max)
 	} else if _val < _min || _val > _max {
-		//err = aerr.Newf(errid_ru64_full, "val(%d) out of range[%d,%d]", _val, _min, _max)
+		err = fmt.Errorf("[RangeUInt64] out of range: val(%d) out of range[%d,%d]", _val, _min, _max)
 	}
 	return
 }
-- 
2.43.0


From 00fb327e34e6391a2bd6e30fa5774efde9d756e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:10 +0000
Subject: [PATCH 18/59] fix: IsPrime tests the primes up to the square root

The limit was 0, so every number coprime to 6 was called prime.
---
 math/prime/prime.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/math/prime/prime.go b/math/prime/prime.go
index 9889ddf..2c474b4 100644
--- a/math/prime/prime.go
+++ b/math/prime/prime.go
@@ -11,10 +11,9 @@ func IsPrime(num uint32) bool {
 	if mod != 1 && mod != 5 {
 		return false
 	}
-	max := uint32(0) //uint64(math.Floor(math.Sqrt(float64(num))))
 	for i := 2; i < len(g_primes); i++ {
 		prime := g_primes[i]
-		if prime > max {
+		if uint64(prime)*uint64(prime) > uint64(num) {
 			break
 		}
 		if num%prime == 0 {
-- 
2.43.0


From abcf1aeac872848f998580881e8509a65996523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:08 +0000
Subject: [PATCH 19/59] fix: Copys gives every destination the data of a
 WriterTo source

---
 io/io.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/io/io.go b/io/io.go
index 19d3567..03d6bf0 100644
--- a/io/io.go
+++ b/io/io.go
@@ -13,12 +13,7 @@ func Copys(src io.Reader, dsts ...io.Writer) (written int64, err error) {
 //copy src to multi dsts
 func CopysBuffer(src io.Reader, buf []byte, dsts ...io.Writer) (written int64, err error) {
 	if wt, ok := src.(io.WriterTo); ok {
-		for _, dst := range dsts {
-			if written, err = wt.WriteTo(dst); err != nil {
-				break
-			}
-		}
-		return
+		return wt.WriteTo(io.MultiWriter(dsts...))
 	}
 
 	if buf == nil {
-- 
2.43.0


From 3871f99822747695c4d0a97b7b297fb95842998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:08 +0000
Subject: [PATCH 20/59] fix: Copys reports a short write of any destination

---
 io/io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/io.go b/io/io.go
index 03d6bf0..4b6258a 100644
--- a/io/io.go
+++ b/io/io.go
@@ -29,6 +29,9 @@ ReadAll:
 					err = ew
 					break ReadAll
 				}
+				if nw < nr { //short write
+					break
+				}
 			}
 			if nw > 0 {
 				written += int64(nw)
-- 
2.43.0


From 2faf0555d664d5e98c408f30eb7306469c8fc414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:35 +0000
Subject: [PATCH 21/59] fix: fingerprint Sum appends to its argument

---
 hash/finger_print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/finger_print.go b/hash/finger_print.go
index f0b3859..0de934b 100644
--- a/hash/finger_print.go
+++ b/hash/finger_print.go
@@ -48,7 +48,7 @@ func (this *Fingerprint) Write(p []byte) (n int, err error) {
 }
 
 func (this *Fingerprint) Sum(b []byte) []byte {
-	buf := bytes.NewBuffer(nil)
+	buf := bytes.NewBuffer(b[:len(b):len(b)])
 	size := uint64(this.size & 0xFFFFFFFFFFFF)
 	for i := uint(6); i > 0; i-- {
 		buf.WriteByte(byte(size >> ((i - 1) * 8) & 0xff))
-- 
2.43.0


From d5990bc2fb2554893322f8a7c1cae787e959645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:35 +0000
Subject: [PATCH 22/59] fix: fingerprint Reset forgets the size written

---
 hash/finger_print.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hash/finger_print.go b/hash/finger_print.go
index 0de934b..3de1030 100644
--- a/hash/finger_print.go
+++ b/hash/finger_print.go
@@ -63,6 +63,7 @@ func (this *Fingerprint) Reset() {
 	this.hs1.Reset()
 	this.hs2.Reset()
 	this.hs3.Reset()
+	this.size = 0
 }
 
 func (this *Fingerprint) Size() int {
-- 
2.43.0


From 9d9946ee885fe854ab36b979c48560e24d921969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:35 +0000
Subject: [PATCH 23/59] fix: fingerprint Size is the number of bytes Sum
 returns

---
 hash/finger_print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/finger_print.go b/hash/finger_print.go
index 3de1030..23eec0a 100644
--- a/hash/finger_print.go
+++ b/hash/finger_print.go
@@ -67,7 +67,7 @@ func (this *Fingerprint) Reset() {
 }
 
 func (this *Fingerprint) Size() int {
-	return int(this.size)
+	return 24
 }
 
 func (this *Fingerprint) BlockSize() int {
-- 
2.43.0


From f04e9ed7067e3ed5bcf23f9733dca3940038248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:35 +0000
Subject: [PATCH 24/59] fix: the none hash keeps the hash.Hash contract

---
 hash/none_hash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash/none_hash.go b/hash/none_hash.go
index 7c08ca2..1b52b79 100644
--- a/hash/none_hash.go
+++ b/hash/none_hash.go
@@ -24,11 +24,11 @@ func (this *NoneHash) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 func (this *NoneHash) Write(p []byte) (n int, err error) {
-	return
+	return len(p), nil
 }
 
 func (this *NoneHash) Sum(b []byte) []byte {
-	buf := bytes.NewBuffer(nil)
+	buf := bytes.NewBuffer(b[:len(b):len(b)])
 	id := this.id
 	for i := uint(4); i > 0; i-- {
 		buf.WriteByte(byte(id >> ((i - 1) * 8) & 0xff))
@@ -40,7 +40,7 @@ func (this *NoneHash) Reset() {
 }
 
 func (this *NoneHash) Size() int {
-	return 0
+	return 4
 }
 
 func (this *NoneHash) BlockSize() int {
-- 
2.43.0


From dae9fadf199f94b1035b5a8cb64b480b5e6ac28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:35 +0000
Subject: [PATCH 25/59] fix: padding does not write into the caller's spare
 capacity

---
 crypto/padding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/padding.go b/crypto/padding.go
index 798ffe1..bfa1090 100644
--- a/crypto/padding.go
+++ b/crypto/padding.go
@@ -5,7 +5,7 @@ import "bytes"
 func ZeroPadding(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{0}, padding)
-	return append(ciphertext, padtext...)
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func ZeroUnPadding(origData []byte) []byte {
@@ -17,7 +17,7 @@ func ZeroUnPadding(origData []byte) []byte {
 func PKCS5Padding(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(ciphertext, padtext...)
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func PKCS5UnPadding(origData []byte) []byte {
-- 
2.43.0


From 69ba12888900aefe212a2e884066526b7f195305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:07 +0000
Subject: [PATCH 26/59] fix: factories remember and forget their creaters

---
 factory/factoryi.go | 2 ++
 factory/factorys.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/factory/factoryi.go b/factory/factoryi.go
index 0febb58..e525c00 100644
--- a/factory/factoryi.go
+++ b/factory/factoryi.go
@@ -9,10 +9,12 @@ type FactoryI struct {
 }
 
 func (me *FactoryI) AddCreater(nType int, creater Creater) error {
+	me.cmap[nType] = creater
 	return nil
 }
 
 func (me *FactoryI) RemoveCreater(nType int) error {
+	delete(me.cmap, nType)
 	return nil
 }
 
diff --git a/factory/factorys.go b/factory/factorys.go
index a66e9a6..575a06d 100644
--- a/factory/factorys.go
+++ b/factory/factorys.go
@@ -9,10 +9,12 @@ type FactoryS struct {
 }
 
 func (me *FactoryS) AddCreater(typename string, creater Creater) error {
+	me.cmap[typename] = creater
 	return nil
 }
 
 func (me *FactoryS) RemoveCreater(typename string) error {
+	delete(me.cmap, typename)
 	return nil
 }
 
-- 
2.43.0


From e0816c496deda87c878459766bc4b0b814af2b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:07 +0000
Subject: [PATCH 27/59] fix: time: remove the duplicate method that kept the
 package from building

---
 time/time_sys.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/time/time_sys.go b/time/time_sys.go
index 3154fde..6226460 100644
--- a/time/time_sys.go
+++ b/time/time_sys.go
@@ -55,11 +55,6 @@ func (this *timeSys) UpdateAdjust(_unix_time int64) error {
 	return nil
 }
 
-//auto update local time
-func (this *timeSys) autoUpdate() {
-
-}
-
 //autoUpdate is autoUpdateTime duration
 func StartSys(autoUpdate Duration) {
 }
-- 
2.43.0


From 543f8b7025bf15c5349846f9f03cb99166e9c624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:19 +0000
Subject: [PATCH 28/59] fix: rand covers the whole range without dividing by
 zero

---
 math/rand/rand.gp       | 3 +++
 math/rand/rand.gp_32.go | 3 +++
 math/rand/rand.gp_64.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/math/rand/rand.gp b/math/rand/rand.gp
index e958077..bb743df 100644
--- a/math/rand/rand.gp
+++ b/math/rand/rand.gp
@@ -67,6 +67,9 @@ func (me *Rand<BITS>T) RandRange(min, max <SEED_TYPE>) <SEED_TYPE> {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //the whole range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
diff --git a/math/rand/rand.gp_32.go b/math/rand/rand.gp_32.go
index 4d3cfbd..7eca438 100644
--- a/math/rand/rand.gp_32.go
+++ b/math/rand/rand.gp_32.go
@@ -87,6 +87,9 @@ func (me *Rand32T) RandRange(min, max uint32) uint32 {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //the whole range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
diff --git a/math/rand/rand.gp_64.go b/math/rand/rand.gp_64.go
index b286e57..668c6b8 100644
--- a/math/rand/rand.gp_64.go
+++ b/math/rand/rand.gp_64.go
@@ -87,6 +87,9 @@ func (me *Rand64T) RandRange(min, max uint64) uint64 {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //the whole range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
-- 
2.43.0


From b3401b37373d4ae44a68e3641b840670b43367b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:41 +0000
Subject: [PATCH 29/59] fix: RWSpinLock keeps readers and writers apart and
 lets go of both

---
 sync/spinrwlock.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sync/spinrwlock.go b/sync/spinrwlock.go
index 3d5e8c0..97e7288 100644
--- a/sync/spinrwlock.go
+++ b/sync/spinrwlock.go
@@ -17,6 +17,11 @@ type RWSpinLock struct {
 func (this *RWSpinLock) Lock() {
 	this.w.Lock()                                             //get writer lock first
 	atomic.AddInt32(&this.readerCount, -rwSpinLockMaxReaders) //tell readers there is a writer
+	for i := 0; atomic.LoadInt32(&this.readerCount) != -rwSpinLockMaxReaders; i++ { //wait for the readers inside
+		if i > spinLockMaxLoop {
+			panic("[sync] maybe dead lock on RWSpinLock.Lock")
+		}
+	}
 }
 
 func (this *RWSpinLock) Unlock() {
@@ -33,10 +38,9 @@ func (this *RWSpinLock) RLock() {
 		}
 
 		if r := atomic.LoadInt32(&this.readerCount); r >= 0 { // A writer is pending, wait for it.
-			if atomic.AddInt32(&this.readerCount, 1) == 1 {
-				this.w.Lock() //first waiter reader, block writer
+			if atomic.CompareAndSwapInt32(&this.readerCount, r, r+1) {
+				break
 			}
-			break
 		}
 	}
 }
@@ -45,9 +49,5 @@ func (this *RWSpinLock) RUnlock() {
 		if r+1 == 0 || r+1 == -rwSpinLockMaxReaders {
 			panic("sync: RUnlock of unlocked RWSpinLock")
 		}
-		if r == 0 {
-			// The last reader unblocks the writer.
-			this.w.Unlock()
-		}
 	}
 }
-- 
2.43.0


From 9c19bfa00026e2a8affa7ef7c649c396be919f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:41 +0000
Subject: [PATCH 30/59] fix: ecb imports the package of this repository

---
 crypto/ecb/ecb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/ecb/ecb.go b/crypto/ecb/ecb.go
index ca2a0af..ba50a61 100644
--- a/crypto/ecb/ecb.go
+++ b/crypto/ecb/ecb.go
@@ -4,7 +4,7 @@ import (
 	"crypto/des"
 	"errors"
 
-	"gitee.com/vipally/gx/crypto"
+	"github.com/vipally/gx/crypto"
 )
 
 // 3DES加密
-- 
2.43.0


From 316a5e63ae4c1ba535327513e2017b2017557c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:41 +0000
Subject: [PATCH 31/59] fix: rsa imports the package of this repository

---
 crypto/rsa/code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/rsa/code.go b/crypto/rsa/code.go
index e1f5981..ce43d83 100644
--- a/crypto/rsa/code.go
+++ b/crypto/rsa/code.go
@@ -5,7 +5,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 
-	"gitee.com/vipally/gx/crypto/ecb"
+	"github.com/vipally/gx/crypto/ecb"
 )
 
 var key = []byte("ac643718-9730-e711-59210")
-- 
2.43.0


From 23ae797f51e03ad6f03d4de2921369bc32f6503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:41 +0000
Subject: [PATCH 32/59] fix: GenRsaKeys returns no keys on error

---
 crypto/rsa/rsa.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crypto/rsa/rsa.go b/crypto/rsa/rsa.go
index 805b891..f53bb75 100644
--- a/crypto/rsa/rsa.go
+++ b/crypto/rsa/rsa.go
@@ -104,7 +104,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	//generate private key
 	priKey, _err := rsa.GenerateKey(rand.Reader, bits)
 	if _err != nil {
-		return "", "", _err
+		return nil, nil, _err
 	}
 	derStream := x509.MarshalPKCS1PrivateKey(priKey)
 	block := &pem.Block{
@@ -115,7 +115,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	var bufPri bytes.Buffer
 	err = pem.Encode(&bufPri, block)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	privateKey = bufPri.Bytes()
 
@@ -123,7 +123,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	pubKey := &priKey.PublicKey
 	derPkix, err := x509.MarshalPKIXPublicKey(pubKey)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	block = &pem.Block{
 		Type:  "public key",
@@ -132,7 +132,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	var bufPub bytes.Buffer
 	err = pem.Encode(&bufPub, block)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	publicKey = bufPub.Bytes()
 	return
-- 
2.43.0


From b35d3dcacb40e57c91fb01c6f68e25cc99506fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:09 +0000
Subject: [PATCH 33/59] fix: fs builds: tree nodes keep their hash in val and
 sort through FileHashSortSlice

---
 fs/file_path.go            | 26 +++++++++++++-------------
 fs/tree.gp_filehash38b3.go |  2 +-
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index d353667..efe3334 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -415,21 +415,21 @@ func (me FilePathObject) Fingerprint() (root *FileHashTreeNode, err error) {
 					}
 					root.SortChildren()
 					for _, v := range root.Children() {
-						r := strings.NewReader(v.Hash)
+						r := strings.NewReader(v.val.Hash)
 						io.Copy(h, r)
-						root.Size += v.Size
+						root.val.Size += v.val.Size
 					}
-					root.IsDir = true
+					root.val.IsDir = true
 				}
 			} else {
 				r := io.Reader(f)
 				io.Copy(h, r)
-				root.Size = FileSize(fi.Size())
+				root.val.Size = FileSize(fi.Size())
 			}
-			h.Resetsize(int64(root.Size))
+			h.Resetsize(int64(root.val.Size))
 			p := h.String()
-			root.Path = me.String()
-			root.Hash = p
+			root.val.Path = me.String()
+			root.val.Hash = p
 		}
 	}
 	return
@@ -464,20 +464,20 @@ func (me FilePathObject) Hash(method xhash.HashMethod, salt string) (root *FileH
 					}
 					root.SortChildren()
 					for _, v := range root.Children() {
-						r := strings.NewReader(v.Hash)
+						r := strings.NewReader(v.val.Hash)
 						io.Copy(h, r)
-						root.Size += v.Size
+						root.val.Size += v.val.Size
 					}
-					root.IsDir = true
+					root.val.IsDir = true
 				}
 			} else {
 				r := io.Reader(f)
 				io.Copy(h, r)
-				root.Size = FileSize(fi.Size())
+				root.val.Size = FileSize(fi.Size())
 			}
 			p := fmt.Sprintf("%x", h.Sum(nil))
-			root.Path = me.String()
-			root.Hash = p
+			root.val.Path = me.String()
+			root.val.Hash = p
 		}
 	}
 	return
diff --git a/fs/tree.gp_filehash38b3.go b/fs/tree.gp_filehash38b3.go
index 8b17bd3..b54c1b1 100644
--- a/fs/tree.gp_filehash38b3.go
+++ b/fs/tree.gp_filehash38b3.go
@@ -38,7 +38,7 @@ func NewFileHashTree() *FileHashTree {
 //tree node
 type FileHashTreeNode struct {
 	val      FileHash
-	children FileHashTreeNodeSortSlice
+	children FileHashSortSlice
 }
 
 func (this *FileHashTreeNode) Less(right *FileHashTreeNode) (ok bool) {
-- 
2.43.0


From 06b04c158b61841350a4287cf3fb4de0c0fbd988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:09 +0000
Subject: [PATCH 34/59] fix: SplitAll keeps the root and does not panic on
 relative paths

---
 fs/file_path.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index efe3334..25bc550 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -188,12 +188,14 @@ func (me FilePathObject) HasPrefix(prefix string) bool {
 //split all path elments
 func (me FilePathObject) SplitAll() []string {
 	s := me.String()
-	maxn := strings.Count(s, "/") + 1
+	maxn := strings.Count(s, "/") + 2 //one more for the root
 	b := make([]string, maxn, maxn)
 	i := maxn - 1
 	for ; i >= 0; i-- {
 		p, f := filepath.Split(s)
-		s = strings.TrimSuffix(p, "/")
+		if s = strings.TrimSuffix(p, "/"); s == "" { //keep the root
+			s = p
+		}
 		if f != "" {
 			b[i] = f
 		} else {
-- 
2.43.0


From df1b3d942309e8b22b7b7f05fbbf542905223f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:09 +0000
Subject: [PATCH 35/59] fix: fs Rename, Link and Symlink take absolute names as
 they are

---
 fs/file_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index 25bc550..0a145d7 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -341,7 +341,7 @@ func (me FilePathObject) Stat() (os.FileInfo, error) {
 //if _destPath is related path, then calculate from me.Dir
 func (me FilePathObject) relateThisPath(_destPath string) FilePathObject {
 	n := FilePath(_destPath)
-	if n.VolumeName() == "" { //related path, then calculate from me.Dir
+	if n.VolumeName() == "" && !filepath.IsAbs(n.String()) { //related path, then calculate from me.Dir
 		n.Set(Joins(me.Dir(), n.String()))
 	}
 	return n
-- 
2.43.0


From 2bf74506a938044157d1dedc64ea467e111ff86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:09 +0000
Subject: [PATCH 36/59] fix: fs Move resolves a relative destination once

---
 fs/file_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index 0a145d7..e70f343 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -495,7 +495,7 @@ func (me FilePathObject) Copy(destPath string) (FilePathObject, error) {
 func (me FilePathObject) Move(destPath string) (FilePathObject, error) {
 	n := me.relateThisPath(destPath)
 	if me.VolumeName() == n.VolumeName() { //not cross disk,use rename operation
-		return me.Rename(n.String())
+		return me.Rename(destPath)
 	}
 	return "", nil
 }
-- 
2.43.0


From 6381631c45b1ce1d8b900257aa2e4a88360b96eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:36 +0000
Subject: [PATCH 37/59] fix: CollectSubs reports the directories it cannot open
 or list

---
 fs/fs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fs/fs.go b/fs/fs.go
index 82de1d0..f0aa364 100644
--- a/fs/fs.go
+++ b/fs/fs.go
@@ -55,9 +55,11 @@ func GetDeepFiles(dir string) (subs []string, err error) {
 }
 
 func CollectSubs(dir string, opt FsOption) (subs []string, err error) {
-	if _f, err := os.Open(dir); err == nil {
+	var _f *os.File
+	if _f, err = os.Open(dir); err == nil {
 		defer _f.Close()
-		if _subs, err := _f.Readdir(0); err == nil {
+		var _subs []os.FileInfo
+		if _subs, err = _f.Readdir(0); err == nil {
 			_has_sub_dir := false
 			for _, _v := range _subs {
 				_sub_name := _v.Name()
-- 
2.43.0


From 54b70287600f38ff8eb7374a4c9bfd80b4af67c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:36 +0000
Subject: [PATCH 38/59] fix: fs Fingerprint and Hash report read errors

---
 fs/file_path.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index e70f343..04014f3 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -425,7 +425,9 @@ func (me FilePathObject) Fingerprint() (root *FileHashTreeNode, err error) {
 				}
 			} else {
 				r := io.Reader(f)
-				io.Copy(h, r)
+				if _, err = io.Copy(h, r); err != nil {
+					return
+				}
 				root.val.Size = FileSize(fi.Size())
 			}
 			h.Resetsize(int64(root.val.Size))
@@ -474,7 +476,9 @@ func (me FilePathObject) Hash(method xhash.HashMethod, salt string) (root *FileH
 				}
 			} else {
 				r := io.Reader(f)
-				io.Copy(h, r)
+				if _, err = io.Copy(h, r); err != nil {
+					return
+				}
 				root.val.Size = FileSize(fi.Size())
 			}
 			p := fmt.Sprintf("%x", h.Sum(nil))
-- 
2.43.0


From 2ca7d3065bde6daf24dde5ff8053b35e5988e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:32 +0000
Subject: [PATCH 39/59] fix: Bts and CallStackList name the calls, not what
 follows them

---
 debug/backtrace.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/debug/backtrace.go b/debug/backtrace.go
index 59a99e5..317f33d 100644
--- a/debug/backtrace.go
+++ b/debug/backtrace.go
@@ -60,12 +60,12 @@ func Bts() (bts string) {
 	var buf bytes.Buffer
 	var __pcs [maxBtListLen]uintptr
 	n := runtime.Callers(BtMe, __pcs[0:])
-	for i := 0; i < n; i++ {
-		_pc := __pcs[i]
-		_f := runtime.FuncForPC(_pc)
-		_file, _line := _f.FileLine(_pc)
+	_frames := runtime.CallersFrames(__pcs[:n])
+	for i, _more := 0, n > 0; _more; i++ {
+		var _f runtime.Frame
+		_f, _more = _frames.Next()
 		s := fmt.Sprintf("#%d Func{%s} File{%s : %d} pc{%0X}\n",
-			i, _f.Name(), _file, _line, _pc)
+			i, _f.Function, _f.File, _f.Line, _f.PC)
 		buf.WriteString(s)
 	}
 
@@ -97,12 +97,12 @@ func CallStackList(nDepth int) []string {
 	var __pcs [maxBtListLen]uintptr
 	n := runtime.Callers(nDepth, __pcs[0:])
 	cs := make([]string, 0, n)
-	for i := 0; i < n; i++ {
-		_pc := __pcs[i]
-		_f := runtime.FuncForPC(_pc)
-		_file, _line := _f.FileLine(_pc)
+	_frames := runtime.CallersFrames(__pcs[:n])
+	for _more := n > 0; _more; {
+		var _f runtime.Frame
+		_f, _more = _frames.Next()
 		s := fmt.Sprintf("Func{%s} FileLine{%s : %d} pc{%0X}",
-			_f.Name(), _file, _line, _pc)
+			_f.Function, _f.File, _f.Line, _f.PC)
 		cs = append(cs, s)
 	}
 	return cs
-- 
2.43.0


From 3e329901006adf06da984f9c8b391591d6801fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:32 +0000
Subject: [PATCH 40/59] fix: GoPath is the first directory of GOPATH on every
 system

---
 fs/file_line.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs/file_line.go b/fs/file_line.go
index aa0e1ec..ef1e971 100644
--- a/fs/file_line.go
+++ b/fs/file_line.go
@@ -45,7 +45,7 @@ func Func() (f string) {
 func goPath() (p string) {
 	//get GoPath
 	s := os.Getenv("GOPATH")
-	if ss := strings.Split(s, ";"); ss != nil && len(ss) > 0 {
+	if ss := strings.Split(s, string(os.PathListSeparator)); ss != nil && len(ss) > 0 {
 		p = FormatPath(ss[0] + "/src/")
 	}
 	return
-- 
2.43.0


From 53d2065cc5fae7b773998f5adb3f0b16dab7f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:45 +0000
Subject: [PATCH 41/59] fix: none hashes made by several goroutines at once are
 unique

---
 hash/none_hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hash/none_hash.go b/hash/none_hash.go
index 1b52b79..08081eb 100644
--- a/hash/none_hash.go
+++ b/hash/none_hash.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"hash"
 	"io"
+	"sync/atomic"
 )
 
 var (
@@ -15,8 +16,7 @@ type NoneHash struct {
 }
 
 func NewNoneHash() hash.Hash {
-	gId++
-	return &NoneHash{id: gId}
+	return &NoneHash{id: atomic.AddUint32(&gId, 1)}
 }
 
 func (this *NoneHash) ReadFrom(r io.Reader) (n int64, err error) {
-- 
2.43.0


From 76b1bb99eaead27466419db9720aa452498a05b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:43 +0000
Subject: [PATCH 42/59] fix: ini.New reports a file that cannot be read

---
 encoding/ini/ini.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/encoding/ini/ini.go b/encoding/ini/ini.go
index 3129f01..1718428 100644
--- a/encoding/ini/ini.go
+++ b/encoding/ini/ini.go
@@ -41,11 +41,19 @@ func New(path string) (*IniFile, error) {
 	defer func() {
 		f.Close()
 	}()
-	r := Load(f)
+	r, err := load(f)
+	if err != nil {
+		return nil, err
+	}
 	return r, nil
 }
 
 func Load(f io.Reader) *IniFile {
+	r, _ := load(f)
+	return r
+}
+
+func load(f io.Reader) (*IniFile, error) {
 	m := make(map[string]section)
 	r := bufio.NewReader(f)
 	sec := ""
@@ -83,7 +91,10 @@ func Load(f io.Reader) *IniFile {
 		}
 		m[sec][key] = val
 	}
-	return &IniFile{m}
+	if err == io.EOF { //the whole text is read
+		err = nil
+	}
+	return &IniFile{m}, err
 }
 
 func (p *IniFile) Sections() []string {
-- 
2.43.0


From dcc99f3544292e4d82353bf6b7acd2eebf54a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:56 +0000
Subject: [PATCH 43/59] fix: errors builds: remove the second, empty Reg

---
 errors/interface.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/errors/interface.go b/errors/interface.go
index 35f5d87..dfd2bbd 100644
--- a/errors/interface.go
+++ b/errors/interface.go
@@ -15,11 +15,6 @@ type ErrorObj struct {
 	Para []interface{}
 }
 
-//regist an error
-func Reg(moduleId uint16, name, content string, handle Handler) ErrorId {
-	return 0
-}
-
 type ErrorInfo struct {
 	content string
 	name    string
-- 
2.43.0


From 06b6d3fe7f498da9b271b7c2a6d7395dbb6bfb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:56 +0000
Subject: [PATCH 44/59] fix: the standard error has an id and a name of its own

---
 errors/errors.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index f5d496d..e84cb34 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -37,10 +37,6 @@ type ErrorDef struct {
 //}
 
 //-------------------------------------------------------------------
-func init() {
-	g_id2err = []string{"unknown error"}
-}
-
 const (
 	//unknown error id
 	ERRID_UNKNOWN = errId(g_id_min)
@@ -52,9 +48,9 @@ var (
 
 var (
 	//registered error mapping
-	g_id2err      = make([]string, 0, g_init_err)
+	g_id2err      = append(make([]string, 0, g_init_err), "unknown error") //ERRID_UNKNOWN
 	g_id2err_lock sync.RWMutex
-	g_id_cur_max  errId = g_id_invalid
+	g_id_cur_max  errId = ERRID_UNKNOWN
 )
 
 const (
-- 
2.43.0


From e1eb6d0bc17fc5541e80b98e3f80dd30174bf13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:56 +0000
Subject: [PATCH 45/59] fix: StdErr keeps the text of the error

---
 errors/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors/errors.go b/errors/errors.go
index e84cb34..fcb5573 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -132,5 +132,5 @@ func (cp errId) String() string {
 }
 
 func StdErr(e error) (err WithIdErr) {
-	return Newf(ERRID_STD, e.Error())
+	return Newf(ERRID_STD, "%s", e.Error())
 }
-- 
2.43.0


From bfc5f3cd3f7493fde9aa55ed1d28bd5a9ac0a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:56 +0000
Subject: [PATCH 46/59] fix: errors.ShowAll shows as many errors as it counts

---
 errors/errors.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index fcb5573..73e9fba 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -95,9 +95,12 @@ func Reg(_err_name string) (id errId, err error) {
 
 func ShowAll() string {
 	var buf bytes.Buffer
-	s := fmt.Sprintf("[errors] Count:%d", g_id_cur_max-g_id_min+1)
+	g_id2err_lock.RLock()
+	last := g_id_cur_max
+	g_id2err_lock.RUnlock()
+	s := fmt.Sprintf("[errors] Count:%d", last-g_id_min+1)
 	buf.WriteString(s)
-	for id := errId(g_id_min); id <= g_id_cur_max; id++ {
+	for id := errId(g_id_min); id <= last; id++ {
 		buf.WriteString(consts.NewLine)
 		buf.WriteString(id.String())
 	}
-- 
2.43.0


From d2ff02a42d4b48f5750fad52c19bae0f76a38811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:56 +0000
Subject: [PATCH 47/59] fix: regable imports the packages of this repository

---
 regable/reg.go     | 4 ++--
 regable/reg.gp     | 4 ++--
 regable/regable.go | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 01dce47..43fe26b 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -25,8 +25,8 @@ import (
 	"fmt"
 	"sync"
 	"github.com/vipally/gx/consts"
-	"github.com/vipally/gx/errors"
-	xmath "github.com/vipally/gx/math"
+	aerr "github.com/vipally/gx/errors"
+	amath "github.com/vipally/gx/math"
 )
 
 const (
diff --git a/regable/reg.gp b/regable/reg.gp
index 96c711d..6b1063f 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -5,8 +5,8 @@ import (
 	"fmt"
 	<LOCK_COMMENT>"sync"
 	"github.com/vipally/gx/consts"
-	"github.com/vipally/gx/errors"
-	xmath "github.com/vipally/gx/math"
+	aerr "github.com/vipally/gx/errors"
+	amath "github.com/vipally/gx/math"
 )
 
 const (
diff --git a/regable/regable.go b/regable/regable.go
index 8a15053..43a9452 100644
--- a/regable/regable.go
+++ b/regable/regable.go
@@ -8,8 +8,8 @@ import (
 	"bytes"
 	"fmt"
 
-	acst "vipally.gmail.com/basic/consts"
-	aerr "vipally.gmail.com/basic/errors"
+	"github.com/vipally/gx/consts"
+	aerr "github.com/vipally/gx/errors"
 )
 
 const (
@@ -48,7 +48,7 @@ func ShowAllRegs() string {
 	var buf bytes.Buffer
 	buf.WriteString(str_head)
 	for _, f := range g_show_reg_funcs {
-		buf.WriteString(acst.NEW_LINE)
+		buf.WriteString(consts.NewLine)
 		buf.WriteString(f())
 	}
 	return buf.String()
-- 
2.43.0


From c15dca708929c852845ce2d51ebad97bbb34b057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:56 +0000
Subject: [PATCH 48/59] fix: regable reports ids that were not given out

---
 regable/reg.go | 2 ++
 regable/reg.gp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/regable/reg.go b/regable/reg.go
index 43fe26b..4503496 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -191,10 +191,12 @@ func (cp Uint32Id) get() (rg *Uint32Reger, r *_uint32Record, err error) {
 	idregidx, idx := idrgr-g_invalid_id-1, id-g_invalid_id-1
 	if idrgr == g_invalid_id || !g_u32_rgr_id_gen.InCurrentRange(idrgr) {
 		err = aerr.New(errid_u32_id)
+		return
 	}
 	rg = g_u32_reger_list[idregidx]
 	if id == g_invalid_id || !rg.id_gen.InCurrentRange(id) {
 		err = aerr.New(errid_u32_id)
+		return
 	}
 	r = rg.reg_list[idx]
 	return
diff --git a/regable/reg.gp b/regable/reg.gp
index 6b1063f..1fcb610 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -171,10 +171,12 @@ func (cp <TYPENAME_U>Id) get() (rg *<TYPENAME_U>Reger, r *_<TYPENAME_L>Record, e
 	idregidx, idx := idrgr-g_invalid_id-1, id-g_invalid_id-1
 	if idrgr == g_invalid_id || !g_<TYPENAME_L_SHORT>_rgr_id_gen.InCurrentRange(idrgr) {
 		err = aerr.New(errid_<TYPENAME_L_SHORT>_id)
+		return
 	}
 	rg = g_<TYPENAME_L_SHORT>_reger_list[idregidx]
 	if id == g_invalid_id || !rg.id_gen.InCurrentRange(id) {
 		err = aerr.New(errid_<TYPENAME_L_SHORT>_id)
+		return
 	}
 	r = rg.reg_list[idx]
 	return
-- 
2.43.0


From 09cb1d34e38454f30d6cf8ef74169705815a6385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:56 +0000
Subject: [PATCH 49/59] fix: a reger takes as many values as its maximum, and
 only their ids are valid

---
 regable/reg.go | 12 ++++++------
 regable/reg.gp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index 4503496..e7d47ee 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -34,7 +34,7 @@ const (
 )
 
 var (
-	g_u32_rgr_id_gen, _         = amath.NewRangeUint32(g_invalid_id+1, g_invalid_id, g_max_reger_id)
+	g_u32_rgr_id_gen, _         = amath.NewRangeUint32(g_invalid_id, g_invalid_id, g_max_reger_id)
 	errid_u32_id, _  = aerr.Reg("Uint32Id error")
 	errid_u32_obj, _ = aerr.Reg("Uint32 object error")
 )
@@ -57,10 +57,10 @@ func NewUint32Reger(name string) (r *Uint32Reger, err error) {
 	if err = check_lock(); err != nil {
 		return
 	}
-	id := g_invalid_id
-	if id, err = g_u32_rgr_id_gen.Inc(); err != nil {
+	if _, err = g_u32_rgr_id_gen.Inc(); err != nil {
 		return
 	}
+	id := g_u32_rgr_id_gen.Val()
 	p := new(Uint32Reger)
 	if err = p.init(name); err == nil {
 		p.reger_id = uint8(id)
@@ -101,7 +101,7 @@ type Uint32Reger struct {
 
 func (me *Uint32Reger) init(name string) (err error) {
 	me.name = name
-	if err = me.id_gen.Init(g_invalid_id+1, g_invalid_id,
+	if err = me.id_gen.Init(g_invalid_id, g_invalid_id,
 		g_invalid_id+default_u32_reg_cnt); err != nil {
 		return
 	}
@@ -130,13 +130,13 @@ func (me *Uint32Reger) Reg(name string, val uint32) (r Uint32Id, err error) {
 			panic(err)
 		}
 	}()
-	id := g_invalid_id
 	if err = check_lock(); err != nil {
 		return
 	}
-	if id, err = me.id_gen.Inc(); err != nil {
+	if _, err = me.id_gen.Inc(); err != nil {
 		return
 	}
+	id := me.id_gen.Val()
 	p := me.new_rec(name, val)
 	p.id = id
 	me.reg_list = append(me.reg_list, p)
diff --git a/regable/reg.gp b/regable/reg.gp
index 1fcb610..4c28501 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -14,7 +14,7 @@ const (
 )
 
 var (
-	g_<TYPENAME_L_SHORT>_rgr_id_gen, _         = amath.NewRangeUint32(g_invalid_id+1, g_invalid_id, g_max_reger_id)
+	g_<TYPENAME_L_SHORT>_rgr_id_gen, _         = amath.NewRangeUint32(g_invalid_id, g_invalid_id, g_max_reger_id)
 	errid_<TYPENAME_L_SHORT>_id, _  = aerr.Reg("<TYPENAME_U>Id error")
 	errid_<TYPENAME_L_SHORT>_obj, _ = aerr.Reg("<TYPENAME_U> object error")
 )
@@ -37,10 +37,10 @@ func New<TYPENAME_U>Reger(name string) (r *<TYPENAME_U>Reger, err error) {
 	if err = check_lock(); err != nil {
 		return
 	}
-	id := g_invalid_id
-	if id, err = g_<TYPENAME_L_SHORT>_rgr_id_gen.Inc(); err != nil {
+	if _, err = g_<TYPENAME_L_SHORT>_rgr_id_gen.Inc(); err != nil {
 		return
 	}
+	id := g_<TYPENAME_L_SHORT>_rgr_id_gen.Val()
 	p := new(<TYPENAME_U>Reger)
 	if err = p.init(name); err == nil {
 		p.reger_id = uint8(id)
@@ -81,7 +81,7 @@ type <TYPENAME_U>Reger struct {
 
 func (me *<TYPENAME_U>Reger) init(name string) (err error) {
 	me.name = name
-	if err = me.id_gen.Init(g_invalid_id+1, g_invalid_id,
+	if err = me.id_gen.Init(g_invalid_id, g_invalid_id,
 		g_invalid_id+default_<TYPENAME_L_SHORT>_reg_cnt); err != nil {
 		return
 	}
@@ -110,13 +110,13 @@ func (me *<TYPENAME_U>Reger) Reg(<NAME_COMMENT_B>name string,<NAME_COMMENT_E> va
 			panic(err)
 		}
 	}()
-	id := g_invalid_id
 	if err = check_lock(); err != nil {
 		return
 	}
-	if id, err = me.id_gen.Inc(); err != nil {
+	if _, err = me.id_gen.Inc(); err != nil {
 		return
 	}
+	id := me.id_gen.Val()
 	p := me.new_rec(<NAME_COMMENT_B>name,<NAME_COMMENT_E> val)
 	p.id = id
 	me.reg_list = append(me.reg_list, p)
-- 
2.43.0


From 393de0c3539df273e4fc99fdfcc3a281cea49333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:56 +0000
Subject: [PATCH 50/59] fix: a registered value knows its whole id

---
 regable/reg.go | 2 +-
 regable/reg.gp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regable/reg.go b/regable/reg.go
index e7d47ee..64ec8df 100644
--- a/regable/reg.go
+++ b/regable/reg.go
@@ -138,7 +138,7 @@ func (me *Uint32Reger) Reg(name string, val uint32) (r Uint32Id, err error) {
 	}
 	id := me.id_gen.Val()
 	p := me.new_rec(name, val)
-	p.id = id
+	p.id = MakeRegedId(uint32(me.reger_id), id)
 	me.reg_list = append(me.reg_list, p)
 	r = Uint32Id(MakeRegedId(uint32(me.reger_id), id))
 	return
diff --git a/regable/reg.gp b/regable/reg.gp
index 4c28501..4377413 100644
--- a/regable/reg.gp
+++ b/regable/reg.gp
@@ -118,7 +118,7 @@ func (me *<TYPENAME_U>Reger) Reg(<NAME_COMMENT_B>name string,<NAME_COMMENT_E> va
 	}
 	id := me.id_gen.Val()
 	p := me.new_rec(<NAME_COMMENT_B>name,<NAME_COMMENT_E> val)
-	p.id = id
+	p.id = MakeRegedId(uint32(me.reger_id), id)
 	me.reg_list = append(me.reg_list, p)
 	r = <TYPENAME_U>Id(MakeRegedId(uint32(me.reger_id), id))
 	return
-- 
2.43.0


From 3fe7d285e69fd7e573f3b7ecd6d4832f9ac5e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:56 +0000
Subject: [PATCH 51/59] fix: the conversions of protocol integers have the
 types they are named after

---
 proto/integer.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/proto/integer.go b/proto/integer.go
index d17ae53..5fc12f0 100644
--- a/proto/integer.go
+++ b/proto/integer.go
@@ -7,30 +7,30 @@ func (me Integer) Int64() int64 {
 	return int64(me)
 }
 
-func (me Integer) Int32() int64 {
+func (me Integer) Int32() int32 {
 	return int32(me)
 }
 
-func (me Integer) Int16() int64 {
+func (me Integer) Int16() int16 {
 	return int16(me)
 }
 
-func (me Integer) Int8() int64 {
+func (me Integer) Int8() int8 {
 	return int8(me)
 }
 
-func (me UInteger) Uint64() int64 {
-	return int64(me)
+func (me UInteger) Uint64() uint64 {
+	return uint64(me)
 }
 
-func (me Uinteger) Uint32() int64 {
-	return int32(me)
+func (me UInteger) Uint32() uint32 {
+	return uint32(me)
 }
 
-func (me Uinteger) Uint16() int64 {
-	return int16(me)
+func (me UInteger) Uint16() uint16 {
+	return uint16(me)
 }
 
-func (me Uinteger) Uint8() int64 {
-	return int8(me)
+func (me UInteger) Uint8() uint8 {
+	return uint8(me)
 }
-- 
2.43.0


From 9dcc274e3c976253017330f269fa41c586bc7dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:15 +0000
Subject: [PATCH 52/59] fix: rsa.NewClient refuses public keys that are not RSA
 keys

---
 crypto/rsa/rsa.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/rsa/rsa.go b/crypto/rsa/rsa.go
index f53bb75..a650faf 100644
--- a/crypto/rsa/rsa.go
+++ b/crypto/rsa/rsa.go
@@ -36,7 +36,10 @@ func NewClient(publicKey []byte) (*RsaClient, error) {
 	if err != nil {
 		return nil, err
 	}
-	pub := pubInterface.(*rsa.PublicKey)
+	pub, ok := pubInterface.(*rsa.PublicKey)
+	if !ok {
+		return nil, errPublicKey
+	}
 	c := &RsaClient{publicKey: pub}
 	return c, nil
 }
-- 
2.43.0


From 4b6fa100e9cd986dbcf88edffc43a4e9a63f8575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:57 +0000
Subject: [PATCH 53/59] fix: a list with a tail knows its tail after inserting
 and removing

---
 stl/gp/slist.gp    | 12 ++++++++++++
 stl/gp/slist.gp.go | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 94c34b9..0ce9989 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -224,6 +224,11 @@ func (this *<GLOBAL_NAME_PREFIX>SList) InsertAfter(node, mark *<GLOBAL_NAME_PREF
 		node.next = mark.next
 		mark.next = node
 		n = node
+		//#GOGP_IFDEF GOGP_HasTail
+		if this.tail == nil || this.tail == mark {
+			this.tail = node
+		} //
+		//#GOGP_ENDIF
 	}
 	return
 }
@@ -245,6 +250,13 @@ func (this *<GLOBAL_NAME_PREFIX>SList) Remove(node *<GLOBAL_NAME_PREFIX>SListNod
 				b.next = node.next
 				node.next = nil
 				r = node
+				//#GOGP_IFDEF GOGP_HasTail
+				if this.tail == node {
+					if this.tail = b; b == &this.head {
+						this.tail = nil
+					}
+				} //
+				//#GOGP_ENDIF
 				break
 			}
 		}
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 3847b63..28159ad 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -321,6 +321,11 @@ func (this *GOGPGlobalNamePrefixSList) InsertAfter(node, mark *GOGPGlobalNamePre
 		node.next = mark.next
 		mark.next = node
 		n = node
+		//#GOGP_IFDEF GOGP_HasTail
+		if this.tail == nil || this.tail == mark {
+			this.tail = node
+		} //
+		//#GOGP_ENDIF
 	}
 	return
 }
@@ -342,6 +347,13 @@ func (this *GOGPGlobalNamePrefixSList) Remove(node *GOGPGlobalNamePrefixSListNod
 				b.next = node.next
 				node.next = nil
 				r = node
+				//#GOGP_IFDEF GOGP_HasTail
+				if this.tail == node {
+					if this.tail = b; b == &this.head {
+						this.tail = nil
+					}
+				} //
+				//#GOGP_ENDIF
 				break
 			}
 		}
-- 
2.43.0


From 2bb2aa359d86371fa0e86b8c456d44ab70f77191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:57 +0000
Subject: [PATCH 54/59] fix: moving nodes of a list with a tail moves the front
 node and the tail

---
 stl/gp/slist.gp    | 4 +++-
 stl/gp/slist.gp.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 0ce9989..efdd1bd 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -287,7 +287,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) MoveFront(node *<GLOBAL_NAME_PREFIX>SList
 //#GOGP_IFDEF GOGP_HasTail
 func (this *<GLOBAL_NAME_PREFIX>SList) MoveBack(node *<GLOBAL_NAME_PREFIX>SListNode) (r *<GLOBAL_NAME_PREFIX>SListNode) {
 	if node != nil && node.next != nil {
-		for b := this.head.next; b != nil; b = b.next {
+		for b := &this.head; b != nil; b = b.next {
 			if b.next == node {
 				b.next = node.next
 				node.next = nil
@@ -318,6 +318,8 @@ func (this *<GLOBAL_NAME_PREFIX>SList) MoveAfter(node, mark *<GLOBAL_NAME_PREFIX
 					//#GOGP_IFDEF GOGP_HasTail
 					if this.tail == node {
 						this.tail = b
+					} else if this.tail == mark {
+						this.tail = node
 					} //
 					//#GOGP_ENDIF
 				}
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 28159ad..f02952a 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -384,7 +384,7 @@ func (this *GOGPGlobalNamePrefixSList) MoveFront(node *GOGPGlobalNamePrefixSList
 //#GOGP_IFDEF GOGP_HasTail
 func (this *GOGPGlobalNamePrefixSList) MoveBack(node *GOGPGlobalNamePrefixSListNode) (r *GOGPGlobalNamePrefixSListNode) {
 	if node != nil && node.next != nil {
-		for b := this.head.next; b != nil; b = b.next {
+		for b := &this.head; b != nil; b = b.next {
 			if b.next == node {
 				b.next = node.next
 				node.next = nil
@@ -415,6 +415,8 @@ func (this *GOGPGlobalNamePrefixSList) MoveAfter(node, mark *GOGPGlobalNamePrefi
 					//#GOGP_IFDEF GOGP_HasTail
 					if this.tail == node {
 						this.tail = b
+					} else if this.tail == mark {
+						this.tail = node
 					} //
 					//#GOGP_ENDIF
 				}
-- 
2.43.0


From 4903ed0bb91d19d3d4705fcd4987d83a28af6957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:57 +0000
Subject: [PATCH 55/59] fix: merging lists with a tail keeps the tail, a list
 is not pushed to itself

---
 stl/gp/slist.gp    | 4 ++--
 stl/gp/slist.gp.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index efdd1bd..2b083e5 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -195,7 +195,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) PushFrontList(other *<GLOBAL_NAME_PREFIX>
 
 //#GOGP_IFDEF GOGP_HasTail
 func (this *<GLOBAL_NAME_PREFIX>SList) PushBackList(other *<GLOBAL_NAME_PREFIX>SList) {
-	if other.tail != nil {
+	if other.tail != nil && other != this {
 		if this.tail != nil {
 			this.tail.next = other.head.next
 			this.tail = other.tail
@@ -428,10 +428,10 @@ func (this *<GLOBAL_NAME_PREFIX>SList) merge(other *<GLOBAL_NAME_PREFIX>SList) {
 	}
 	if po != nil {
 		p.next = po
-		other.Clear()
 		//#GOGP_IFDEF GOGP_HasTail
 		this.tail = other.tail //
 		//#GOGP_ENDIF
+		other.Clear()
 	}
 }
 
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index f02952a..9f67fc8 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -292,7 +292,7 @@ func (this *GOGPGlobalNamePrefixSList) PushFrontList(other *GOGPGlobalNamePrefix
 
 //#GOGP_IFDEF GOGP_HasTail
 func (this *GOGPGlobalNamePrefixSList) PushBackList(other *GOGPGlobalNamePrefixSList) {
-	if other.tail != nil {
+	if other.tail != nil && other != this {
 		if this.tail != nil {
 			this.tail.next = other.head.next
 			this.tail = other.tail
@@ -525,10 +525,10 @@ func (this *GOGPGlobalNamePrefixSList) merge(other *GOGPGlobalNamePrefixSList) {
 	}
 	if po != nil {
 		p.next = po
-		other.Clear()
 		//#GOGP_IFDEF GOGP_HasTail
 		this.tail = other.tail //
 		//#GOGP_ENDIF
+		other.Clear()
 	}
 }
 
-- 
2.43.0


From ab4fdef9708de26280b37d4fb4f0c3684868482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:54 +0000
Subject: [PATCH 56/59] fix: the lock-free ring goes back from its first place

---
 stl/gp/lfdeque.gp    | 2 +-
 stl/gp/lfdeque.gp.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl/gp/lfdeque.gp b/stl/gp/lfdeque.gp
index f7c5b8d..6814339 100644
--- a/stl/gp/lfdeque.gp
+++ b/stl/gp/lfdeque.gp
@@ -212,7 +212,7 @@ func (this *<GLOBAL_NAME_PREFIX>LFDeque) next(idx uint32) (r uint32) {
 
 //prev buff
 func (this *<GLOBAL_NAME_PREFIX>LFDeque) prev(idx uint32) (r uint32) {
-	if r = idx - 1; r < 0 {
+	if r = idx - 1; idx == 0 {
 		r = this.Cap() - 1
 	}
 	return
diff --git a/stl/gp/lfdeque.gp.go b/stl/gp/lfdeque.gp.go
index 5566815..767d220 100644
--- a/stl/gp/lfdeque.gp.go
+++ b/stl/gp/lfdeque.gp.go
@@ -212,7 +212,7 @@ func (this *GOGPGlobalNamePrefixLFDeque) next(idx uint32) (r uint32) {
 
 //prev buff
 func (this *GOGPGlobalNamePrefixLFDeque) prev(idx uint32) (r uint32) {
-	if r = idx - 1; r < 0 {
+	if r = idx - 1; idx == 0 {
 		r = this.Cap() - 1
 	}
 	return
-- 
2.43.0


From 054f6ba3e878b2e532ac0d70a545602b5a9a2e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:54 +0000
Subject: [PATCH 57/59] fix: popping nothing off a lock-free list does not
 change its size

---
 stl/gp/lfqueue.gp    | 2 +-
 stl/gp/lfqueue.gp.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl/gp/lfqueue.gp b/stl/gp/lfqueue.gp
index be666a6..6e39a3a 100644
--- a/stl/gp/lfqueue.gp
+++ b/stl/gp/lfqueue.gp
@@ -97,11 +97,11 @@ func (this *<GLOBAL_NAME_PREFIX>LFQueue) PopFront() (v <VALUE_TYPE>, ok bool) {
 			next := n.next
 			if atomic.CompareAndSwapPointer(&this.head.next, t, next) {
 				v, ok = n.val, true
+				atomic.AddInt32(&this.size, -1)
 				break
 			}
 		}
 	}
-	atomic.AddInt32(&this.size, -1)
 	return
 }
 
diff --git a/stl/gp/lfqueue.gp.go b/stl/gp/lfqueue.gp.go
index d95984d..86d3086 100644
--- a/stl/gp/lfqueue.gp.go
+++ b/stl/gp/lfqueue.gp.go
@@ -97,11 +97,11 @@ func (this *GOGPGlobalNamePrefixLFQueue) PopFront() (v GOGPValueType, ok bool) {
 			next := n.next
 			if atomic.CompareAndSwapPointer(&this.head.next, t, next) {
 				v, ok = n.val, true
+				atomic.AddInt32(&this.size, -1)
 				break
 			}
 		}
 	}
-	atomic.AddInt32(&this.size, -1)
 	return
 }
 
-- 
2.43.0


From 1b1f25fa8f5841e87ec182402f43b42f70931ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:54 +0000
Subject: [PATCH 58/59] fix: clearing a lock-free list sets its size

---
 stl/gp/lfqueue.gp    | 4 +++-
 stl/gp/lfqueue.gp.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/stl/gp/lfqueue.gp b/stl/gp/lfqueue.gp
index 6e39a3a..7370726 100644
--- a/stl/gp/lfqueue.gp
+++ b/stl/gp/lfqueue.gp
@@ -106,7 +106,9 @@ func (this *<GLOBAL_NAME_PREFIX>LFQueue) PopFront() (v <VALUE_TYPE>, ok bool) {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>LFQueue) Clear() {
-	atomic.StorePointer(&this.head.next, nil)
+	for p := atomic.SwapPointer(&this.head.next, nil); p != nil; p = (*<GLOBAL_NAME_PREFIX>LFQueueNode)(p).next {
+		atomic.AddInt32(&this.size, -1)
+	}
 	//atomic.StorePointer(&this.tail, nil)
 }
 
diff --git a/stl/gp/lfqueue.gp.go b/stl/gp/lfqueue.gp.go
index 86d3086..abaf58c 100644
--- a/stl/gp/lfqueue.gp.go
+++ b/stl/gp/lfqueue.gp.go
@@ -106,7 +106,9 @@ func (this *GOGPGlobalNamePrefixLFQueue) PopFront() (v GOGPValueType, ok bool) {
 }
 
 func (this *GOGPGlobalNamePrefixLFQueue) Clear() {
-	atomic.StorePointer(&this.head.next, nil)
+	for p := atomic.SwapPointer(&this.head.next, nil); p != nil; p = (*GOGPGlobalNamePrefixLFQueueNode)(p).next {
+		atomic.AddInt32(&this.size, -1)
+	}
 	//atomic.StorePointer(&this.tail, nil)
 }
 
-- 
2.43.0


From 389e95a506536dc6d3c398b73fcb67efff0ca763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:54 +0000
Subject: [PATCH 59/59] fix: the heap template's STL algorithm does not move
 values above the subtree it adjusts

---
 stl/gp/heap.gp    | 10 +++++++++-
 stl/gp/heap.gp.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/stl/gp/heap.gp b/stl/gp/heap.gp
index e76aa14..69ee1ec 100644
--- a/stl/gp/heap.gp
+++ b/stl/gp/heap.gp
@@ -105,6 +105,7 @@ func (this *<GLOBAL_NAME_PREFIX>Heap) adjustDown(b []<VALUE_TYPE>, hole int, v <
 	//#GOGP_ELSE
 	//C++ stl's adjust down algorithm
 	//it seems to cost more move, to get probably less cmpare
+	top := hole
 	for l := this.lchild(hole); l < size; l = this.lchild(hole) {
 		c := l                                              //index that need to be new root
 		if r := l + 1; r < size && !this.cmpV(b[r], b[l]) { //let the most proper child to compare with v
@@ -112,7 +113,14 @@ func (this *<GLOBAL_NAME_PREFIX>Heap) adjustDown(b []<VALUE_TYPE>, hole int, v <
 		}
 		b[hole], hole = b[c], c
 	}
-	this.adjustUp(b, hole, v) //adjust up from leaf hole
+	for hole > top { //adjust up from leaf hole, but not above the first one
+		if parent := this.parent(hole); !this.cmpV(v, b[parent]) {
+			b[hole], hole = b[parent], parent
+		} else {
+			break
+		}
+	}
+	b[hole] = v //put v to last hole
 	//#GOGP_ENDIF
 }
 
diff --git a/stl/gp/heap.gp.go b/stl/gp/heap.gp.go
index d9f34a4..c755a5a 100644
--- a/stl/gp/heap.gp.go
+++ b/stl/gp/heap.gp.go
@@ -202,6 +202,7 @@ func (this *GOGPGlobalNamePrefixHeap) adjustDown(b []GOGPValueType, hole int, v
 	//#GOGP_ELSE
 	//C++ stl's adjust down algorithm
 	//it seems to cost more move, to get probably less cmpare
+	top := hole
 	for l := this.lchild(hole); l < size; l = this.lchild(hole) {
 		c := l                                              //index that need to be new root
 		if r := l + 1; r < size && !this.cmpV(b[r], b[l]) { //let the most proper child to compare with v
@@ -209,7 +210,14 @@ func (this *GOGPGlobalNamePrefixHeap) adjustDown(b []GOGPValueType, hole int, v
 		}
 		b[hole], hole = b[c], c
 	}
-	this.adjustUp(b, hole, v) //adjust up from leaf hole
+	for hole > top { //adjust up from leaf hole, but not above the first one
+		if parent := this.parent(hole); !this.cmpV(v, b[parent]) {
+			b[hole], hole = b[parent], parent
+		} else {
+			break
+		}
+	}
+	b[hole] = v //put v to last hole
 	//#GOGP_ENDIF
 }
 
-- 
2.43.0

