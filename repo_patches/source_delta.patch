From 87f70bafeed265174fac66bbfa285e9f1fa71b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 1/4] fix: do not let garbage collector free objects while
 SortSlice() sorts pointers

Slices of pointers were sorted as slices of integers, that is, without write
barriers. A concurrent garbage collection could miss moving pointers and free
objects that were still referenced by the slice.
---
 sorty.go      |  7 +++++--
 sortySlice.go | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/sorty.go b/sorty.go
index 0ca4b2b..c4d4f3a 100644
--- a/sorty.go
+++ b/sorty.go
@@ -149,8 +149,11 @@ func extractSK(ar any) (slc sixb.Slice, kind reflect.Kind) {
 	kind = tipe.Kind()
 
 	switch kind {
-	// map int/uint/pointer types to hardware type
-	case reflect.Uintptr, reflect.Pointer, reflect.UnsafePointer:
+	// pointers must be moved as pointers, see sortP
+	case reflect.Pointer, reflect.UnsafePointer:
+		kind = reflect.UnsafePointer
+	// map int/uint types to hardware type
+	case reflect.Uintptr:
 		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uintptr(0))>>3)
 	case reflect.Uint:
 		kind = reflect.Uint32 + reflect.Kind(unsafe.Sizeof(uint(0))>>3)
diff --git a/sortySlice.go b/sortySlice.go
index 6b3cf81..83a65ac 100644
--- a/sortySlice.go
+++ b/sortySlice.go
@@ -48,6 +48,9 @@ func IsSortedSlice(ar any) int {
 	case reflect.String:
 		s := *(*[]string)(unsafe.Pointer(&slc))
 		return isSortedS(s)
+	case reflect.UnsafePointer:
+		p := *(*[]unsafe.Pointer)(unsafe.Pointer(&slc))
+		return isSortedP(p)
 	}
 	panic("sorty: IsSortedSlice: invalid input type")
 }
@@ -88,7 +91,36 @@ func SortSlice(ar any) {
 	case reflect.String:
 		s := *(*[]string)(unsafe.Pointer(&slc))
 		sortS(s)
+	case reflect.UnsafePointer:
+		p := *(*[]unsafe.Pointer)(unsafe.Pointer(&slc))
+		sortP(p)
 	default:
 		panic("sorty: SortSlice: invalid input type")
 	}
 }
+
+// isSortedP returns 0 if ar is sorted in ascending
+// order, otherwise it returns i > 0 with ar[i] < ar[i-1]
+func isSortedP(ar []unsafe.Pointer) int {
+	for i := len(ar) - 1; i > 0; i-- {
+		if uintptr(ar[i]) < uintptr(ar[i-1]) {
+			return i
+		}
+	}
+	return 0
+}
+
+// sortP concurrently sorts ar in ascending order. Pointers cannot be sorted as integers:
+// without write barriers a concurrent garbage collection can miss moving pointers and
+// free objects that are still referenced by ar.
+func sortP(ar []unsafe.Pointer) {
+	Sort(len(ar), func(i, k, r, s int) bool {
+		if uintptr(ar[i]) < uintptr(ar[k]) {
+			if r != s {
+				ar[r], ar[s] = ar[s], ar[r]
+			}
+			return true
+		}
+		return false
+	})
+}
-- 
2.43.0


From 81c29a471da7e0d4aa9d8fcbff0f553bad0d42cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 2/4] fix: reading MaxGor at the start of Sort*() calls is a
 data race

MaxGor can be changed live, even during ongoing Sort*() calls. Read it like
gorFull() does.
---
 sorty.go     | 7 +++++++
 sortyB.go    | 2 +-
 sortyF4.go   | 2 +-
 sortyF8.go   | 2 +-
 sortyI4.go   | 2 +-
 sortyI8.go   | 2 +-
 sortyLenB.go | 2 +-
 sortyLenS.go | 2 +-
 sortyLsw.go  | 2 +-
 sortyS.go    | 2 +-
 sortyU4.go   | 2 +-
 sortyU8.go   | 2 +-
 12 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/sorty.go b/sorty.go
index c4d4f3a..7e7efda 100644
--- a/sorty.go
+++ b/sorty.go
@@ -83,6 +83,13 @@ type syncVar struct {
 	done chan int // end signal
 }
 
+// maxGor returns MaxGor, which can be changed live by user, inlined
+//
+//go:norace
+func maxGor() uint64 {
+	return MaxGor
+}
+
 // gorFull returns true if goroutine quota is full, inlined
 //
 //go:norace
diff --git a/sortyB.go b/sortyB.go
index e5f93d0..87a8510 100644
--- a/sortyB.go
+++ b/sortyB.go
@@ -315,7 +315,7 @@ start:
 // sortB concurrently sorts ar in ascending lexicographic order.
 func sortB(ar [][]byte) {
 
-	if len(ar) < 2*(MaxLenRecFC+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRecFC+1) || maxGor() <= 1 {
 
 		if len(ar) > MaxLenRecFC { // single-goroutine sorting
 			longB(ar, nil)
diff --git a/sortyF4.go b/sortyF4.go
index 48355a8..0b6adc7 100644
--- a/sortyF4.go
+++ b/sortyF4.go
@@ -364,7 +364,7 @@ func sortF4(ar []float32) {
 		ar = ar[l:]
 	}
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRec+1) || maxGor() <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longF4(ar, nil)
diff --git a/sortyF8.go b/sortyF8.go
index 7afe6af..0dd3e61 100644
--- a/sortyF8.go
+++ b/sortyF8.go
@@ -364,7 +364,7 @@ func sortF8(ar []float64) {
 		ar = ar[l:]
 	}
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRec+1) || maxGor() <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longF8(ar, nil)
diff --git a/sortyI4.go b/sortyI4.go
index 0476f29..b7fc79f 100644
--- a/sortyI4.go
+++ b/sortyI4.go
@@ -321,7 +321,7 @@ start:
 //go:nosplit
 func sortI4(ar []int32) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRec+1) || maxGor() <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longI4(ar, nil)
diff --git a/sortyI8.go b/sortyI8.go
index c546035..b27a35a 100644
--- a/sortyI8.go
+++ b/sortyI8.go
@@ -321,7 +321,7 @@ start:
 //go:nosplit
 func sortI8(ar []int64) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRec+1) || maxGor() <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longI8(ar, nil)
diff --git a/sortyLenB.go b/sortyLenB.go
index e8d4874..2f4086d 100644
--- a/sortyLenB.go
+++ b/sortyLenB.go
@@ -322,7 +322,7 @@ start:
 //go:nosplit
 func sortLenB(ar [][]byte) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRec+1) || maxGor() <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longLenB(ar, nil)
diff --git a/sortyLenS.go b/sortyLenS.go
index d9f590e..90005cc 100644
--- a/sortyLenS.go
+++ b/sortyLenS.go
@@ -322,7 +322,7 @@ start:
 //go:nosplit
 func sortLenS(ar []string) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRec+1) || maxGor() <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longLenS(ar, nil)
diff --git a/sortyLsw.go b/sortyLsw.go
index 7612f92..cdfb0c6 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -337,7 +337,7 @@ start:
 func Sort(n int, lsw Lesswap) {
 
 	n-- // high index
-	if n <= 2*MaxLenRecFC || MaxGor <= 1 {
+	if n <= 2*MaxLenRecFC || maxGor() <= 1 {
 
 		if n >= MaxLenRecFC { // single-goroutine sorting
 			long(lsw, 0, n, nil)
diff --git a/sortyS.go b/sortyS.go
index 621df0d..dcbdb14 100644
--- a/sortyS.go
+++ b/sortyS.go
@@ -315,7 +315,7 @@ start:
 // sortS concurrently sorts ar in ascending lexicographic order.
 func sortS(ar []string) {
 
-	if len(ar) < 2*(MaxLenRecFC+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRecFC+1) || maxGor() <= 1 {
 
 		if len(ar) > MaxLenRecFC { // single-goroutine sorting
 			longS(ar, nil)
diff --git a/sortyU4.go b/sortyU4.go
index 8b222f7..b36ad29 100644
--- a/sortyU4.go
+++ b/sortyU4.go
@@ -321,7 +321,7 @@ start:
 //go:nosplit
 func sortU4(ar []uint32) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRec+1) || maxGor() <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longU4(ar, nil)
diff --git a/sortyU8.go b/sortyU8.go
index 906f041..cd8d82e 100644
--- a/sortyU8.go
+++ b/sortyU8.go
@@ -321,7 +321,7 @@ start:
 //go:nosplit
 func sortU8(ar []uint64) {
 
-	if len(ar) < 2*(MaxLenRec+1) || MaxGor <= 1 {
+	if len(ar) < 2*(MaxLenRec+1) || maxGor() <= 1 {
 
 		if len(ar) > MaxLenRec { // single-goroutine sorting
 			longU8(ar, nil)
-- 
2.43.0


From 7b8ff148858f6c0097144f195214805b2e707ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 3/4] fix: Sort*() calls can use more than MaxGor goroutines

Goroutine quota was checked and then increased in two separate steps, and the
partitioning goroutine was not counted, so concurrent goroutines of a call could
exceed MaxGor. Take from quota atomically, including partitioning goroutine.
---
 sorty.go     | 20 +++++++++++++-------
 sortyB.go    | 21 +++++++++++----------
 sortyF4.go   | 21 +++++++++++----------
 sortyF8.go   | 21 +++++++++++----------
 sortyI4.go   | 21 +++++++++++----------
 sortyI8.go   | 21 +++++++++++----------
 sortyLenB.go | 21 +++++++++++----------
 sortyLenS.go | 21 +++++++++++----------
 sortyLsw.go  | 21 +++++++++++----------
 sortyS.go    | 21 +++++++++++----------
 sortyU4.go   | 21 +++++++++++----------
 sortyU8.go   | 21 +++++++++++----------
 12 files changed, 134 insertions(+), 117 deletions(-)

diff --git a/sorty.go b/sorty.go
index 7e7efda..eb946c3 100644
--- a/sorty.go
+++ b/sorty.go
@@ -19,6 +19,7 @@ package sorty
 
 import (
 	"reflect"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/jfcg/sixb"
@@ -79,7 +80,7 @@ func Search(n int, fn func(int) bool) int {
 
 // synchronization variables for [g]long*()
 type syncVar struct {
-	nGor uint64   // number of sorting goroutines
+	nGor uint64   // number of sorting/partitioning goroutines
 	done chan int // end signal
 }
 
@@ -90,12 +91,17 @@ func maxGor() uint64 {
 	return MaxGor
 }
 
-// gorFull returns true if goroutine quota is full, inlined
-//
-//go:norace
-func gorFull(sv *syncVar) bool {
-	mg := MaxGor
-	return sv.nGor >= mg
+// gorTake takes a goroutine from quota, returns false if quota is full
+func gorTake(sv *syncVar) bool {
+	for {
+		n := atomic.LoadUint64(&sv.nGor)
+		if n >= maxGor() {
+			return false
+		}
+		if atomic.CompareAndSwapUint64(&sv.nGor, n, n+1) {
+			return true
+		}
+	}
 }
 
 const (
diff --git a/sortyB.go b/sortyB.go
index 87a8510..4ce9858 100644
--- a/sortyB.go
+++ b/sortyB.go
@@ -298,15 +298,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines? take one from quota otherwise
+	if sv == nil || !gorTake(sv) {
 		longB(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongB(ar, sv)
 	ar = aq
 	goto start
@@ -328,7 +327,7 @@ func sortB(ar [][]byte) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -345,17 +344,19 @@ func sortB(ar [][]byte) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongB(aq, &sv)
+			go gLongB(aq, &sv) // replaces partitioning goroutine in quota
 
-		} else if len(aq) > MaxLenInsFC {
-			shortB(aq)
 		} else {
-			insertionB(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+			if len(aq) > MaxLenInsFC {
+				shortB(aq)
+			} else {
+				insertionB(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRecFC+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRecFC+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyF4.go b/sortyF4.go
index 0b6adc7..aec6e34 100644
--- a/sortyF4.go
+++ b/sortyF4.go
@@ -313,15 +313,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines? take one from quota otherwise
+	if sv == nil || !gorTake(sv) {
 		longF4(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongF4(ar, sv)
 	ar = aq
 	goto start
@@ -377,7 +376,7 @@ func sortF4(ar []float32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -394,17 +393,19 @@ func sortF4(ar []float32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongF4(aq, &sv)
+			go gLongF4(aq, &sv) // replaces partitioning goroutine in quota
 
-		} else if len(aq) > MaxLenIns {
-			shortF4(aq)
 		} else {
-			insertionF4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+			if len(aq) > MaxLenIns {
+				shortF4(aq)
+			} else {
+				insertionF4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyF8.go b/sortyF8.go
index 0dd3e61..2a78341 100644
--- a/sortyF8.go
+++ b/sortyF8.go
@@ -313,15 +313,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines? take one from quota otherwise
+	if sv == nil || !gorTake(sv) {
 		longF8(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongF8(ar, sv)
 	ar = aq
 	goto start
@@ -377,7 +376,7 @@ func sortF8(ar []float64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -394,17 +393,19 @@ func sortF8(ar []float64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongF8(aq, &sv)
+			go gLongF8(aq, &sv) // replaces partitioning goroutine in quota
 
-		} else if len(aq) > MaxLenIns {
-			shortF8(aq)
 		} else {
-			insertionF8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+			if len(aq) > MaxLenIns {
+				shortF8(aq)
+			} else {
+				insertionF8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyI4.go b/sortyI4.go
index b7fc79f..632eb98 100644
--- a/sortyI4.go
+++ b/sortyI4.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines? take one from quota otherwise
+	if sv == nil || !gorTake(sv) {
 		longI4(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongI4(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortI4(ar []int32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,19 @@ func sortI4(ar []int32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongI4(aq, &sv)
+			go gLongI4(aq, &sv) // replaces partitioning goroutine in quota
 
-		} else if len(aq) > MaxLenIns {
-			shortI4(aq)
 		} else {
-			insertionI4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+			if len(aq) > MaxLenIns {
+				shortI4(aq)
+			} else {
+				insertionI4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyI8.go b/sortyI8.go
index b27a35a..7beaee0 100644
--- a/sortyI8.go
+++ b/sortyI8.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines? take one from quota otherwise
+	if sv == nil || !gorTake(sv) {
 		longI8(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongI8(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortI8(ar []int64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,19 @@ func sortI8(ar []int64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongI8(aq, &sv)
+			go gLongI8(aq, &sv) // replaces partitioning goroutine in quota
 
-		} else if len(aq) > MaxLenIns {
-			shortI8(aq)
 		} else {
-			insertionI8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+			if len(aq) > MaxLenIns {
+				shortI8(aq)
+			} else {
+				insertionI8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLenB.go b/sortyLenB.go
index 2f4086d..c80eaa3 100644
--- a/sortyLenB.go
+++ b/sortyLenB.go
@@ -303,15 +303,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines? take one from quota otherwise
+	if sv == nil || !gorTake(sv) {
 		longLenB(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongLenB(ar, sv)
 	ar = aq
 	goto start
@@ -335,7 +334,7 @@ func sortLenB(ar [][]byte) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -352,17 +351,19 @@ func sortLenB(ar [][]byte) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongLenB(aq, &sv)
+			go gLongLenB(aq, &sv) // replaces partitioning goroutine in quota
 
-		} else if len(aq) > MaxLenIns {
-			shortLenB(aq)
 		} else {
-			insertionLenB(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+			if len(aq) > MaxLenIns {
+				shortLenB(aq)
+			} else {
+				insertionLenB(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLenS.go b/sortyLenS.go
index 90005cc..ba827ed 100644
--- a/sortyLenS.go
+++ b/sortyLenS.go
@@ -303,15 +303,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines? take one from quota otherwise
+	if sv == nil || !gorTake(sv) {
 		longLenS(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongLenS(ar, sv)
 	ar = aq
 	goto start
@@ -335,7 +334,7 @@ func sortLenS(ar []string) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -352,17 +351,19 @@ func sortLenS(ar []string) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongLenS(aq, &sv)
+			go gLongLenS(aq, &sv) // replaces partitioning goroutine in quota
 
-		} else if len(aq) > MaxLenIns {
-			shortLenS(aq)
 		} else {
-			insertionLenS(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+			if len(aq) > MaxLenIns {
+				shortLenS(aq)
+			} else {
+				insertionLenS(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyLsw.go b/sortyLsw.go
index cdfb0c6..62577cb 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -299,15 +299,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines? take one from quota otherwise
+	if sv == nil || !gorTake(sv) {
 		long(lsw, l, h, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLong(lsw, lo, hi, sv)
 	lo, hi = l, h
 	goto start
@@ -350,7 +349,7 @@ func Sort(n int, lsw Lesswap) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	lo, hi := 0, n
 	for {
@@ -368,17 +367,19 @@ func Sort(n int, lsw Lesswap) {
 
 		// handle shorter range
 		if n >= MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLong(lsw, l, h, &sv)
+			go gLong(lsw, l, h, &sv) // replaces partitioning goroutine in quota
 
-		} else if n >= MaxLenInsFC {
-			short(lsw, l, h)
 		} else {
-			insertion(lsw, l, h)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+			if n >= MaxLenInsFC {
+				short(lsw, l, h)
+			} else {
+				insertion(lsw, l, h)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if no <= 2*MaxLenRecFC || gorFull(&sv) {
+		if no <= 2*MaxLenRecFC || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyS.go b/sortyS.go
index dcbdb14..35acfbb 100644
--- a/sortyS.go
+++ b/sortyS.go
@@ -298,15 +298,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines? take one from quota otherwise
+	if sv == nil || !gorTake(sv) {
 		longS(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongS(ar, sv)
 	ar = aq
 	goto start
@@ -328,7 +327,7 @@ func sortS(ar []string) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -345,17 +344,19 @@ func sortS(ar []string) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRecFC {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongS(aq, &sv)
+			go gLongS(aq, &sv) // replaces partitioning goroutine in quota
 
-		} else if len(aq) > MaxLenInsFC {
-			shortS(aq)
 		} else {
-			insertionS(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+			if len(aq) > MaxLenInsFC {
+				shortS(aq)
+			} else {
+				insertionS(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRecFC+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRecFC+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyU4.go b/sortyU4.go
index b36ad29..82173ee 100644
--- a/sortyU4.go
+++ b/sortyU4.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines? take one from quota otherwise
+	if sv == nil || !gorTake(sv) {
 		longU4(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongU4(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortU4(ar []uint32) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,19 @@ func sortU4(ar []uint32) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongU4(aq, &sv)
+			go gLongU4(aq, &sv) // replaces partitioning goroutine in quota
 
-		} else if len(aq) > MaxLenIns {
-			shortU4(aq)
 		} else {
-			insertionU4(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+			if len(aq) > MaxLenIns {
+				shortU4(aq)
+			} else {
+				insertionU4(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
diff --git a/sortyU8.go b/sortyU8.go
index cd8d82e..a7e904e 100644
--- a/sortyU8.go
+++ b/sortyU8.go
@@ -302,15 +302,14 @@ start:
 		return
 	}
 
-	// max goroutines? not atomic but good enough
-	if sv == nil || gorFull(sv) {
+	// max goroutines? take one from quota otherwise
+	if sv == nil || !gorTake(sv) {
 		longU8(aq, sv) // recurse on the shorter range
 		goto start
 	}
 
 	// new-goroutine sort on the longer range only when
 	// both ranges are big and max goroutines is not exceeded
-	atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
 	go gLongU8(ar, sv)
 	ar = aq
 	goto start
@@ -334,7 +333,7 @@ func sortU8(ar []uint64) {
 	}
 
 	// create channel only when concurrent partitioning & sorting
-	sv := syncVar{1, // number of goroutines including this
+	sv := syncVar{2, // number of goroutines including this & partitioning one
 		make(chan int)} // end signal
 	for {
 		// concurrent dual partitioning with done
@@ -351,17 +350,19 @@ func sortU8(ar []uint64) {
 
 		// handle shorter range
 		if len(aq) > MaxLenRec {
-			atomic.AddUint64(&sv.nGor, 1) // increase goroutine counter
-			go gLongU8(aq, &sv)
+			go gLongU8(aq, &sv) // replaces partitioning goroutine in quota
 
-		} else if len(aq) > MaxLenIns {
-			shortU8(aq)
 		} else {
-			insertionU8(aq)
+			atomic.AddUint64(&sv.nGor, ^uint64(0)) // partitioning goroutine is done
+			if len(aq) > MaxLenIns {
+				shortU8(aq)
+			} else {
+				insertionU8(aq)
+			}
 		}
 
 		// longer range big enough? max goroutines?
-		if len(ar) < 2*(MaxLenRec+1) || gorFull(&sv) {
+		if len(ar) < 2*(MaxLenRec+1) || !gorTake(&sv) {
 			break
 		}
 		// dual partition longer range
-- 
2.43.0


From fe057f69ebbfc592adabd8600b62df2ade144337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 4/4] fix: Sort() takes quadratic time on collections with a
 few distinct elements

---
 sortyLsw.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/sortyLsw.go b/sortyLsw.go
index 62577cb..f4e1b6f 100644
--- a/sortyLsw.go
+++ b/sortyLsw.go
@@ -80,8 +80,13 @@ func pivot(lsw Lesswap, lo, hi int, n uint) int {
 	return sixb.MeanI(first, last)
 }
 
+// number of consecutive elements for which a partition looks for a strictly misplaced
+// one to swap. Then it also swaps with elements that are equal to pivot, otherwise inputs
+// with a few distinct elements are partitioned very unevenly.
+const maxSkip = 8
+
 // partition slc, returns k with slc[:k] ≤ pivot ≤ slc[k:]
-// swap: slc[h] < pv < slc[l]
+// swap: slc[h] < pv < slc[l], also slc[h] < pv = slc[l] & slc[h] = pv < slc[l] after maxSkip
 // next: slc[l] ≤ pv ≤ slc[h]
 //
 //go:nosplit
@@ -90,17 +95,21 @@ func partOne(lsw Lesswap, l, pv, h int) int {
 	for ; l < h; l, h = l+1, h-1 {
 
 		if lsw(h, pv, h, h) { // 3rd=4th disables swap
-			for {
+			for m := l + maxSkip; ; {
 				if lsw(pv, l, h, l) {
 					break
 				}
+				if l >= m && l != pv && !lsw(l, pv, l, l) {
+					lsw(h, pv, h, l) // slc[h] < pv = slc[l]
+					break
+				}
 				l++
 				if l >= h {
 					return l + 1
 				}
 			}
 		} else if lsw(pv, l, l, l) { // 3rd=4th disables swap
-			for {
+			for m := h - maxSkip; ; {
 				h--
 				if l >= h {
 					return l
@@ -108,6 +117,10 @@ func partOne(lsw Lesswap, l, pv, h int) int {
 				if lsw(h, pv, h, l) {
 					break
 				}
+				if h < m && h != pv && !lsw(pv, h, h, h) {
+					lsw(pv, l, h, l) // slc[h] = pv < slc[l]
+					break
+				}
 			}
 		}
 	}
@@ -120,7 +133,7 @@ func partOne(lsw Lesswap, l, pv, h int) int {
 
 // swaps elements to get slc[lo..l] ≤ pivot ≤ slc[h..hi]
 // Gap (l,h) expands until one of the intervals is fully consumed.
-// swap: slc[h] < pv < slc[l]
+// swap: slc[h] < pv < slc[l], also slc[h] < pv = slc[l] & slc[h] = pv < slc[l] after maxSkip
 // next: slc[l] ≤ pv ≤ slc[h]
 //
 //go:nosplit
@@ -128,17 +141,21 @@ func partTwo(lsw Lesswap, lo, l, pv, h, hi int) int {
 	// avoid unnecessary comparisons, extend ranges in balance
 	for {
 		if lsw(h, pv, h, h) { // 3rd=4th disables swap
-			for {
+			for m := l - maxSkip; ; {
 				if lsw(pv, l, h, l) {
 					break
 				}
+				if l <= m && !lsw(l, pv, l, l) {
+					lsw(h, pv, h, l) // slc[h] < pv = slc[l]
+					break
+				}
 				l--
 				if l < lo {
 					return h
 				}
 			}
 		} else if lsw(pv, l, l, l) { // 3rd=4th disables swap
-			for {
+			for m := h + maxSkip; ; {
 				h++
 				if h > hi {
 					return l
@@ -146,6 +163,10 @@ func partTwo(lsw Lesswap, lo, l, pv, h, hi int) int {
 				if lsw(h, pv, h, l) {
 					break
 				}
+				if h > m && !lsw(pv, h, h, h) {
+					lsw(pv, l, h, l) // slc[h] = pv < slc[l]
+					break
+				}
 			}
 		}
 		l--
-- 
2.43.0

