//go:build linux

package main

import (
	"math"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"unsafe"

	"github.com/jfcg/sorty/v2"
)

var pageSize = os.Getpagesize()

// region is page aligned memory outside of Go heap with inaccessible pages around
type region struct {
	all  []byte
	data []byte
}

func newRegion(size int) *region {
	n := (size + pageSize - 1) / pageSize * pageSize
	if n == 0 {
		n = pageSize
	}
	all, err := syscall.Mmap(-1, 0, n+2*pageSize, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		harness("mmap: %v", err)
	}
	g := &region{all, all[pageSize : pageSize+n]}
	g.prot(syscall.PROT_READ | syscall.PROT_WRITE)
	return g
}

func (g *region) prot(p int) {
	if err := syscall.Mprotect(g.data, p); err != nil {
		harness("mprotect: %v", err)
	}
}

func (g *region) free() { syscall.Munmap(g.all) }

func harness(format string, a ...any) {
	println("HARNESS", sprintf(format, a...))
	os.Exit(4)
}

// place returns n elements of T flush with the end (or start) of the region; the rest of
// the pages is filled with canary bytes.
func place[T any](g *region, n int, atEnd bool, can byte) []T {
	for i := range g.data {
		g.data[i] = can
	}
	var t T
	o := 0
	if atEnd {
		o = len(g.data) - n*int(unsafe.Sizeof(t))
	}
	if n == 0 { // nothing may be accessed
		if atEnd {
			return unsafe.Slice((*T)(unsafe.Pointer(&g.all[pageSize+len(g.data)])), 1)[:0:1]
		}
		return unsafe.Slice((*T)(unsafe.Pointer(&g.data[0])), 0)
	}
	return unsafe.Slice((*T)(unsafe.Pointer(&g.data[o])), n)
}

// verify canaries in the rest of the region
func (g *region) checkCanary(n int, atEnd bool, can byte) {
	lo, hi := n, len(g.data)
	if atEnd {
		lo, hi = 0, len(g.data)-n
	}
	for i := lo; i < hi; i++ {
		if g.data[i] != can {
			viol("byte %d of slice neighbourhood is written", i)
		}
	}
}

// longer capacity over inaccessible memory
func capped[T any](r *rng, s []T, atEnd bool) []T {
	if atEnd && len(s) > 0 && r.p(2, 3) {
		return unsafe.Slice(unsafe.SliceData(s), len(s)+r.in(1, 40))[:len(s)]
	}
	return s
}

const rw = syscall.PROT_READ | syscall.PROT_WRITE

// sort & IsSorted a slice between guard pages. freeze/thaw protect memory referred to.
func guardRun[T any](r *rng, name string, n int, d *def[T], byLen bool, mk func(dst []T), freeze, thaw func()) {
	var t T
	sz := int(unsafe.Sizeof(t))
	atEnd := r.p(3, 4)
	g := newRegion(n * sz)
	defer g.free()
	can := byte(r.u64())
	s := place[T](g, n, atEnd, can)
	mk(s[:n])
	s = capped(r, s[:n:n], atEnd)
	before := digest(d, s)
	ar := d.wrap(s)
	mg := pickMG(r)
	noise := pickNoise(r)
	w.describe("guard: %s n=%d atEnd=%v cap=%d MaxGor=%s noise=%d NaN=%d/%d %s", name, n, atEnd, cap(s), mgName(mg), noise, nanMode, nanDensity, tuneString())
	if freeze != nil {
		freeze()
	}
	// read only slice for IsSorted
	g.prot(syscall.PROT_READ)
	k := &kind{len: byLen}
	begin(r, mg, noise)
	i1 := isSorted(k, ar)
	g.prot(rw)
	doCall(k, ar)
	g.prot(syscall.PROT_READ)
	i2 := isSorted(k, ar)
	end()
	g.prot(rw)
	if thaw != nil {
		thaw()
	}
	v := reflect.ValueOf(ar)
	if v.Len() != n || v.Cap() != cap(s) || v.UnsafePointer() != unsafe.Pointer(unsafe.SliceData(s)) {
		viol("slice header is changed")
	}
	g.checkCanary(n*sz, atEnd, can)
	if digest(d, s) != before {
		viol("elements changed")
	}
	_, _ = i1, i2
	w.count["guarded-calls"] += 3
	w.count["elements"] += int64(n)
	c := uint64(0)
	for i := range s {
		a, _ := elemHash(d, s[i])
		c += mix(a + uint64(i))
	}
	w.seen(n > 1, strHash(name), mg, uint64(n), c)
	if n > 600 {
		w.sample("%s", w.desc)
	}
}

func guardNum[T any](name string, d def[T]) func(r *rng, n int) {
	fixDef(&d)
	return func(r *rng, n int) {
		rk, m, _ := pattern(r, n)
		guardRun(r, name, n, &d, false, func(dst []T) {
			v := d.vals(r, m)
			for i, x := range rk {
				dst[i] = d.fresh(r, v[x])
			}
		}, nil, nil)
	}
}

func fixDef[T any](d *def[T]) {
	if d.fresh == nil {
		d.fresh = func(_ *rng, v T) T { return v }
	}
	if d.wrap == nil {
		d.wrap = func(s []T) any { return s }
	}
}

// bodies: byte strings inside a region, some flush with its end
type bodies struct {
	g    *region
	list [][]byte
	sum  []byte
}

func newBodies(r *rng, m int, long bool) *bodies {
	total := 0
	vals := strVals(r, m)
	if len(vals) > 60 {
		vals = vals[:60]
	}
	for _, s := range vals {
		total += len(s)
	}
	b := &bodies{g: newRegion(total + 64)}
	for i := range b.g.data {
		b.g.data[i] = byte(r.n(3)) * 127
	}
	o := len(b.g.data) - total
	for _, i := range perm(r, len(vals)) {
		s := vals[i]
		copy(b.g.data[o:], s)
		x := unsafe.Slice((*byte)(unsafe.Add(unsafe.Pointer(&b.g.all[0]), pageSize+o)), len(s))
		b.list = append(b.list, x)
		o += len(s)
	}
	b.sum = append(b.sum, b.g.data...)
	return b
}

func guardStr(name string, byBytes, byLen bool) func(r *rng, n int) {
	ds := strDef[string](nil)
	db := bytesDef[[]byte](nil)
	dl := lenStrDef[string](nil)
	dbl := lenSlcDef[byte](1, nil)
	fixDef(&ds)
	fixDef(&db)
	fixDef(&dl)
	fixDef(&dbl)
	return func(r *rng, n int) {
		b := newBodies(r, r.in(1, 60), byLen)
		defer b.g.free()
		p := syscall.PROT_READ
		if byLen {
			p = syscall.PROT_NONE // never read
		}
		freeze := func() { b.g.prot(p) }
		thaw := func() {
			b.g.prot(rw)
			if string(b.sum) != string(b.g.data) {
				viol("contents are written")
			}
		}
		pick := func() []byte {
			x := b.list[r.n(len(b.list))]
			if len(x) > 0 && r.p(1, 8) {
				x = x[r.n(len(x)):] // suffix
			}
			return x
		}
		if byBytes {
			d := &db
			if byLen {
				d = &dbl
			}
			guardRun(r, name, n, d, byLen, func(dst [][]byte) {
				for i := range dst {
					dst[i] = pick()
				}
			}, freeze, thaw)
			return
		}
		d := &ds
		if byLen {
			d = &dl
		}
		guardRun(r, name, n, d, byLen, func(dst []string) {
			for i := range dst {
				x := pick()
				dst[i] = unsafe.String(unsafe.SliceData(x), len(x))
			}
		}, freeze, thaw)
	}
}

// inner slices or pointers to memory that must not be read
func guardRef[T any](name string, d def[T], byLen bool, mk func(r *rng, base unsafe.Pointer, size int) T) func(r *rng, n int) {
	fixDef(&d)
	return func(r *rng, n int) {
		b := newRegion(4 * pageSize)
		defer b.free()
		guardRun(r, name, n, &d, byLen, func(dst []T) {
			m := r.in(1, 2*n+1)
			s := r.u64()
			for i := range dst {
				q := newRng(s, uint64(r.n(m)))
				dst[i] = mk(q, unsafe.Pointer(&b.data[0]), len(b.data))
			}
		}, func() { b.prot(syscall.PROT_NONE) }, func() { b.prot(rw) })
	}
}

func guardCases() (l []func(r *rng, n int)) {
	add := func(f func(r *rng, n int)) { l = append(l, f) }
	add(guardNum("int", intDef[int](nil)))
	add(guardNum("int32", intDef[int32](nil)))
	add(guardNum("int64", intDef[int64](nil)))
	add(guardNum("uint", intDef[uint](nil)))
	add(guardNum("uint32", intDef[uint32](nil)))
	add(guardNum("uint64", intDef[uint64](nil)))
	add(guardNum("uintptr", intDef[uintptr](nil)))
	add(guardNum("float32", floatDef[float32](nil)))
	add(guardNum("float64", floatDef[float64](nil)))
	add(guardStr("string", false, false))
	add(guardStr("[]byte", true, false))
	add(guardStr("string by length", false, true))
	add(guardStr("[]byte by length", true, true))
	off := func(r *rng, base unsafe.Pointer, size int) unsafe.Pointer {
		return unsafe.Add(base, r.n(size/8)*8)
	}
	pd := ptrDef(func(p *node) unsafe.Pointer { return unsafe.Pointer(p) }, func(p unsafe.Pointer) unsafe.Pointer { return p }, nil)
	add(guardRef("unsafe.Pointer", pd, false, off))
	nd := ptrDef(func(p *node) *node { return p }, func(p *node) unsafe.Pointer { return unsafe.Pointer(p) }, nil)
	add(guardRef("*node", nd, false, func(r *rng, b unsafe.Pointer, size int) *node { return (*node)(off(r, b, size)) }))
	sd := lenSlcDef[string](1, nil)
	add(guardRef("[]string by length", sd, true, func(r *rng, b unsafe.Pointer, size int) []string {
		k := r.n(size / 16)
		return unsafe.Slice((*string)(b), size/16)[k : k+r.n(size/16-k+1)]
	}))
	id := lenSlcDef[int](1, nil)
	add(guardRef("[]int by length", id, true, func(r *rng, b unsafe.Pointer, size int) []int {
		k := r.n(size / 8)
		return unsafe.Slice((*int)(b), size/8)[k : k+r.n(size/8-k+1)]
	}))
	return
}

// neighbours are written by another goroutine meanwhile
func neighbourCase(maxN int) func(i int, r *rng) {
	return func(i int, r *rng) { neighbours(i, r, pickLarge(r, 1, maxN)) }
}

func neighbours(i int, r *rng, n int) {
	pickTune(r)
	setNaN(r)
	k := kinds[r.n(len(kinds))]
	if n > 4000 {
		k = kinds[i%len(kinds)]
	} else {
		n = pickN(r, 4000)
	}
	pre, post := r.in(1, 3), r.in(1, 3)
	rk, m, pat := pattern(r, n+pre+post)
	p := k.build(r, rk, m)
	q := p.sub(pre, pre+n)
	mg := pickMG(r)
	noise := pickNoise(r)
	w.describe("neighbours: %s n=%d pattern=%s MaxGor=%s noise=%d", k.name, n, pat, mgName(mg), noise)
	before := q.digest()
	a, b := p.sub(0, pre), p.sub(pre+n, n+pre+post)
	da, db := a.digest(), b.digest()
	var stop atomic.Bool
	done := make(chan int64)
	go func() {
		c := int64(0)
		for !stop.Load() || c == 0 {
			a.swap(0, pre-1)
			b.swap(0, post-1)
			c++
			if c&63 == 0 {
				runtime.Gosched()
			}
		}
		done <- c
	}()
	begin(r, mg, noise)
	doCall(k, q.ar)
	isSorted(k, q.ar)
	end()
	stop.Store(true)
	w.count["neighbour-writes"] += <-done
	if q.digest() != before || a.digest() != da || b.digest() != db {
		viol("elements changed")
	}
	note(k.id, mg, rk, k.long(n) && mg > 1)
	w.sample("%s", w.desc)
}

// heap memory of exact size, for address sanitizer
func asanCase(i int, r *rng) {
	setNaN(r)
	k := kinds[r.n(len(kinds))]
	n := pickN(r, 4000)
	rk, m, pat := pattern(r, n)
	p := k.build(r, rk, m)
	mg := pickMG(r)
	w.describe("asan: %s n=%d pattern=%s MaxGor=%s", k.name, n, pat, mgName(mg))
	before := p.digest()
	begin(r, mg, 0)
	isSorted(k, p.ar)
	doCall(k, p.ar)
	isSorted(k, p.ar)
	end()
	if p.digest() != before {
		viol("elements changed")
	}
	note(k.id, mg, rk, k.long(n) && mg > 1)
	w.sample("%s", w.desc)
}

// C13: allocations
func allocCase(concurrent bool, pats []int, lo, hi int) func(i int, r *rng) {
	return func(i int, r *rng) {
		if i == 0 || w.evals%16 == 0 {
			debug.SetGCPercent(-1)
			runtime.GC()
		}
		pickTune(r)
		n := r.in(lo, hi)
		if !concurrent && lo < 1e6 && r.p(1, 2) {
			n = pickN(r, 8000)
		}
		mg := uint64(r.n(2))
		if concurrent {
			mg = pickMGm(r)
		}
		setNaN(r)
		pat, sd := pats[r.n(len(pats))], r.u64()
		var j *job
		var by, objs, lim int64
		var c int64
		for try := 0; try < 4; try++ { // runtime may allocate on its own, what counts is repeatable
			j = newJobPat(newRng(sd), n, pat, true)
			w.describe("allocations: %s MaxGor=%s %s", j.name, mgName(mg), tuneString())
			setMG(mg)
			debug.FreeOSMemory()
			var a, b runtime.MemStats
			c = created()
			runtime.ReadMemStats(&a)
			j.call()
			runtime.ReadMemStats(&b)
			c = created() - c
			by, objs = int64(b.TotalAlloc-a.TotalAlloc), int64(b.Mallocs-a.Mallocs)
			live := int64(math.MaxInt32)
			if mg < 1<<20 {
				live = int64(mg)
			}
			// goroutine descriptors are reused, start of one has a constant cost
			lim = 4096 + 1024*min(c, 4*live) + 256*c
			if mg <= 1 {
				lim = 1024
			}
			if by <= lim {
				break
			}
			w.count["repeated-measurements"]++
		}
		if by > lim {
			viol("%d bytes (%d objects) are allocated for %d elements, limit is %d (%d goroutines started)", by, objs, n, lim, c)
		}
		w.count["bytes-allocated"] += by
		w.count["bytes-allowed"] += lim
		w.count["goroutines-started"] += c
		if c == 0 && by > w.count["max-bytes-single"] {
			w.count["max-bytes-single"] = by
		}
		note(j.id, mg, j.rk, c > 0)
		w.sample("%s: %d bytes, %d goroutines", w.desc, by, c)
	}
}

// stack limit of a new goroutine that sorts
func stackLimit() int {
	if strings.HasSuffix(w.variant, "inst") {
		return 1 << 16
	}
	return 1 << 14
}

// C13: stack depth with inputs that unbalance partitions
func stackCase(i int, r *rng) {
	stackRun(r, kinds[r.n(len(kinds))], r.p(1, 3), r.p(1, 4), r.p(1, 2), r.p(2, 3), r.n(6))
}

// C13: inputs that make every partition of the kind peel off a range of just enough
// length to be recursed on
func peelCase(i int, r *rng) {
	k := peelKinds()[i%16]
	sel := i / 16 % 4 // long ranges in single-goroutine, in concurrent sorting, short ranges
	stackRun(r, k, i%16 > 13, sel == 3, sel == 3, sel != 3, 2+sel)
}

// one or more of each implementation
func peelKinds() (l []*kind) {
	for _, name := range []string{"int32", "int64", "uint32", "uint64", "float32", "float64", "string", "[]byte", "string",
		"[]byte", "len-string", "len-[]byte", "len-[]struct{}", "*node", "int", "int"} {
		for _, k := range kinds {
			if k.name == name {
				l = append(l, k)
				break
			}
		}
	}
	return
}

func stackRun(r *rng, k *kind, lesswap, longer, pi, pr bool, sel int) {
	if tunable {
		longRanges = longer // not-long ranges are recursive too
		hk.budget = 4e9
	}
	pickTune(r)
	longRanges = false
	if longer && tunable && r.p(2, 3) {
		x := r.in(9, 14)
		tune(x+r.n(3), x, 40000, 39000)
	} else if pr && tunable && r.p(1, 2) {
		tune(10, 9, 25, 21)
	}
	n := r.in(6000, 20000)
	if tunable {
		n = r.in(3000, 8000)
	}
	t := thresholds()
	if pi || pr {
		n *= 2
	}
	if sel == 3 && tunable && t[2] < 80 { // both halves
		n *= 2
	}
	mg := quotaMGs[r.n(len(quotaMGs))]
	mean, fc := k.grp == "num" && !k.fc || k.grp == "len", k.fc // the model of the kind
	if sel < 2 && r.p(1, 3) {
		mean, fc = r.p(1, 2), r.p(1, 2)
	}
	setNaN(r)
	nanDensity = 0
	kill := func(n int, small ...int) []int {
		if lesswap {
			return lswPeeler(n, pi, pr, false)
		}
		return peeler(n, mean, fc, pi, pr, small)
	}
	var rk []int
	m, pat := n, "killer"
	if pi {
		pat += "-ins"
	}
	if pr {
		pat += "-rec"
	}
	switch sel {
	case 0:
		rk, m, pat = pattern(r, n)
	case 1: // killer upside down
		rk = kill(n)
		for i := range rk {
			rk[i] = n - 1 - rk[i]
		}
		pat = "reverse " + pat
	case 3: // concurrent partitioning splits in halves
		pat += "/2"
		m = 2*n + 2
		if lesswap {
			rk = lswPeeler(n, pi, pr, true)
		} else {
			ns := 7
			if mean {
				ns = 8
			}
			first, step := sampling(n, ns)
			h := first + ns/2*step
			var small []int
			for i := ns / 2; i < ns; i++ {
				small = append(small, first+i*step-h)
			}
			rk = kill(h)
			for _, x := range kill(n-h, small...) {
				rk = append(rk, x+n)
			}
		}
		if r.p(3, 4) {
			mg = 2
		}
	default:
		rk = kill(n)
		if r.p(1, 2) {
			mg = 1
		}
	}
	w.describe("stack: %s n=%d %s mean=%v fc=%v MaxGor=%s %s", k.name, n, pat, mean, fc, mgName(mg), tuneString())
	var call func()
	maxDepth := 0
	var pcs [2048]uintptr
	if lesswap {
		v := append([]int(nil), rk...)
		cnt := 0
		w.describe("stack: lesswap n=%d %s mean=%v fc=%v MaxGor=%s %s", n, pat, mean, fc, mgName(mg), tuneString())
		lsw := func(i, k, r, s int) bool {
			if v[i] < v[k] {
				if r != s {
					v[r], v[s] = v[s], v[r]
				}
				return true
			}
			if mg <= 1 {
				if cnt++; cnt&4095 == 0 {
					maxDepth = max(maxDepth, runtime.Callers(0, pcs[:]))
				}
			}
			return false
		}
		call = func() { sorty.Sort(n, lsw) }
	} else {
		p := k.build(r, rk, m)
		call = func() { doCall(k, p.ar) }
	}
	begin(r, mg, 0)
	old := debug.SetMaxStack(stackLimit())
	done := make(chan any)
	go func() {
		defer func() { done <- recover() }()
		call()
	}()
	x := <-done
	debug.SetMaxStack(old)
	if x != nil {
		panic(x)
	}
	end()
	if lim := 4*int(math.Log2(float64(n))) + 40; maxDepth > lim {
		viol("call depth is %d for %d elements", maxDepth, n)
	}
	if int64(maxDepth) > w.count["max-call-depth"] {
		w.count["max-call-depth"] = int64(maxDepth)
	}
	note(k.id, mg, rk, mg > 1)
	w.sample("%s", w.desc)
}

func init() {
	props["C07"] = func() {
		gc := guardCases()
		f := func(i int, r *rng) {
			pickTune(r)
			setNaN(r)
			gc[i%len(gc)](r, pickN(r, 5000))
		}
		fs := func(i int, r *rng) {
			pickTune(r)
			setNaN(r)
			gc[i%len(gc)](r, i/len(gc)%700)
		}
		switch w.variant {
		case "plain":
			each("small", 140*len(gc), fs)
			each("guard", 16000, f)
			each("guard-large", 10*len(gc), func(i int, r *rng) {
				setNaN(r)
				gc[i%len(gc)](r, pickLarge(r, 20000, 400000))
			})
			each("neighbours", 2000, neighbourCase(4000))
		case "inst":
			each("guard-schedules", 6000, f)
		case "tune":
			each("tuned-guard", 10000, f)
		case "race":
			each("neighbours", 1600, neighbourCase(4000))
			each("neighbours-large", 3*len(kinds), neighbourCase(200000))
		case "asan":
			each("asan", 3000, asanCase)
			each("asan-guard", 1500, f)
		}
	}
	props["C13"] = func() {
		some := []int{0, 1, 2, 3, 5, 6, 7, 9, 10, 13, 14, 18, 19, 21}
		switch w.variant {
		case "plain":
			each("allocations-single", 1200, allocCase(false, some, 20000, 300000))
			each("allocations-concurrent", 900, allocCase(true, some, 20000, 300000))
			each("allocations-large", 64, allocCase(false, []int{0, 1, 2, 3, 5}, 2e6, 6e6))
			each("stack", 1000, stackCase)
		case "tune":
			each("tuned-allocations-concurrent", 500, allocCase(true, some, 20000, 300000))
			each("tuned-stack", 300, stackCase)
			each("tuned-peels", 16*4*10, peelCase)
		case "inst":
			each("stack-schedules", 200, stackCase)
		}
	}
}
