package main

import (
	"math"
	"math/bits"

	"github.com/jfcg/sorty/v2"
)

// reorder gives access to reference order of a probe: sorts it by an independent
// heap sort
func (p *probe) heapSort() {
	n := p.n
	down := func(i, n int) {
		for {
			c := 2*i + 1
			if c >= n {
				return
			}
			if c+1 < n && p.less(c, c+1) {
				c++
			}
			if !p.less(i, c) {
				return
			}
			p.swap(i, c)
			i = c
		}
	}
	for i := n/2 - 1; i >= 0; i-- {
		down(i, n)
	}
	for i := n - 1; i > 0; i-- {
		p.swap(0, i)
		down(0, i)
	}
}

// checkIss compares a reported index to the reference order
func checkIss(got, n int, less func(i, k int) bool, nan func(i int) bool) {
	sorted := true
	for i := 1; i < n; i++ {
		if less(i, i-1) {
			sorted = false
			break
		}
	}
	if sorted {
		if got != 0 {
			viol("%d is returned for a sorted collection of %d elements", got, n)
		}
		return
	}
	if got == 0 {
		viol("an unsorted collection of %d elements is reported sorted", n)
	}
	if got < 0 || got >= n {
		viol("index %d is returned for %d elements", got, n)
	}
	if !less(got, got-1) && !(nan != nil && (nan(got) || nan(got-1))) {
		viol("index %d is returned, but element %d is not less than element %d (n=%d)", got, got, got-1, n)
	}
	w.count["unsorted-inputs"]++
}

// arrange prepares ranks for IsSorted tests: sorted, or almost
func issRanks(r *rng, n int) ([]int, int, string) {
	var rk []int
	m := n
	name := "sorted"
	switch r.n(4) {
	case 0:
		rk, m, name = pattern(r, n)
		return rk, m, name
	case 1: // distinct
		rk = make([]int, n)
		for i := range rk {
			rk[i] = i
		}
	default: // ties
		d := r.in(1, 6)
		rk = make([]int, n)
		for i := range rk {
			rk[i] = i / d
		}
	}
	if m < 1 {
		m = 1
	}
	if n > 1 {
		switch r.n(6) {
		case 0:
		case 1:
			name = "first pair swapped"
			rk[0], rk[1] = rk[1], rk[0]
		case 2:
			name = "last pair swapped"
			rk[n-1], rk[n-2] = rk[n-2], rk[n-1]
		case 3:
			name = "a pair swapped"
			i := r.in(1, n-1)
			rk[i], rk[i-1] = rk[i-1], rk[i]
		case 4:
			name = "last is smallest"
			rk[n-1] = 0
		case 5:
			name = "first is largest"
			rk[0] = rk[n-1]
		}
	}
	return rk, m, name
}

// many elements, a few out of order or none
func issLarge(i int, r *rng) {
	setNaN(r)
	nanDensity = 0
	n := pickLarge(r, 30000, 3<<20)
	rk, m, pat := bigRanks(r, n), n/3+1, "ordered"
	if r.p(1, 2) {
		rk, m, pat = issRanks(r, n)
	}
	if x := i % 11; x < len(bigKinds) {
		k := bigKinds[x]
		p := k.build(r, rk, m)
		w.describe("large: %s n=%d pattern=%s", k.name, n, pat)
		before := p.digest()
		begin(r, pickMG(r), 0)
		got := isSorted(k, p.ar)
		end()
		if p.digest() != before {
			viol("the collection is modified")
		}
		checkIss(got, n, p.less, p.nan)
		w.seen(true, k.id, ranksHash(rk))
	} else {
		c := newColl(r, rk, m)
		w.describe("large: %s n=%d pattern=%s", c.name, n, pat)
		lsw := c.lsw()
		begin(r, pickMG(r), 0)
		got := sorty.IsSorted(n, lsw)
		end()
		checkIss(got, n, c.less, nil)
		w.seen(true, strHash(c.name), ranksHash(rk))
	}
	w.sample("%s", w.desc)
}

func issCase(name string, maxN int) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		k := kinds[r.n(len(kinds))]
		n := r.n(40)
		switch r.n(400) {
		case 0:
			n = pickLarge(r, maxN, 60*maxN)
		default:
			if r.p(1, 3) {
				n = r.n(maxN)
			}
		}
		rk, m, pat := issRanks(r, n)
		if r.p(1, 2) && nanDensity > 50 {
			nanDensity = 5
		}
		p := k.build(r, rk, m)
		if r.p(1, 3) { // NaNs are at random places, put all in order
			p.heapSort()
			if n > 1 && r.p(1, 2) {
				a := r.n(n)
				b := r.n(n)
				if r.p(1, 2) {
					b = a ^ 1
				}
				if b < n {
					p.swap(a, b)
				}
			}
		}
		mg := pickMG(r)
		w.describe("%s: %s n=%d pattern=%s MaxGor=%s NaN=%d/%d", name, k.name, n, pat, mgName(mg), nanMode, nanDensity)
		setMG(mg)
		h := p.seq()
		got := isSorted(k, p.ar)
		if p.seq() != h {
			viol("collection is modified")
		}
		checkIss(got, n, p.less, p.nan)
		nt := uint64(0)
		if got != 0 {
			nt = 1
		}
		w.seen(n > 1, k.id, uint64(n), nt, ranksHash(rk), h)
		w.sample("%s -> %d", w.desc, got)
		if r.p(1, 4) {
			doCall(k, p.ar)
			if got := isSorted(k, p.ar); got != 0 {
				viol("%d is returned right after sorting", got)
			}
			w.count["after-sort"]++
		}
	}
}

// issAll moves one pair out of order, at every position in turn
func issAll(i int, r *rng) {
	setNaN(r)
	k := kinds[i%len(kinds)]
	n := []int{r.in(2, 40), r.in(2, 300), r.in(200, 1500), r.in(1000, 4200)}[i/len(kinds)%4]
	rk := make([]int, n)
	d := 1
	if r.p(1, 3) {
		d = r.in(2, 5)
	}
	for j := range rk {
		rk[j] = j / d
	}
	p := k.build(r, rk, n)
	p.heapSort()
	setMG(pickMG(r))
	w.describe("every pair: %s n=%d d=%d NaN=%d/%d", k.name, n, d, nanMode, nanDensity)
	if got := isSorted(k, p.ar); got != 0 {
		viol("%d is returned for a sorted collection of %d elements", got, n)
	}
	for j := 1; j < n; j++ {
		if !p.less(j-1, j) {
			continue
		}
		p.swap(j-1, j)
		got := isSorted(k, p.ar)
		if got == 0 {
			viol("a collection of %d elements is reported sorted, element %d is less than element %d", n, j, j-1)
		}
		if got < 0 || got >= n || !p.less(got, got-1) && !p.nan(got) && !p.nan(got-1) {
			viol("index %d is returned for %d elements, only element %d is less than its predecessor", got, n, j)
		}
		p.swap(j-1, j)
		w.count["pairs-out-of-order"]++
	}
	w.seen(true, k.id, uint64(n), uint64(d), p.seq())
	w.sample("%s", w.desc)
}

func issColl(name string, maxN int) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		n := r.n(40)
		switch r.n(400) {
		case 0:
			n = pickLarge(r, maxN, 60*maxN)
		default:
			if r.p(1, 3) {
				n = r.n(maxN)
			}
		}
		rk, m, pat := issRanks(r, n)
		c := newColl(r, rk, m)
		w.describe("%s: %s n=%d pattern=%s NaN=%d/%d", name, c.name, n, pat, nanMode, nanDensity)
		h := c.digest()
		lsw := c.lsw()
		calls := 0
		got := sorty.IsSorted(n, func(i, k, r, s int) bool {
			calls++
			if r != s {
				viol("IsSorted calls lesswap(%d,%d,%d,%d) with different third and fourth arguments", i, k, r, s)
			}
			if i < 0 || i >= n || k < 0 || k >= n || r < 0 || r >= n {
				viol("IsSorted calls lesswap(%d,%d,%d,%d) with n=%d", i, k, r, s, n)
			}
			return lsw(i, k, r, s)
		})
		if c.digest() != h {
			viol("collection is modified")
		}
		checkIss(got, n, c.less, nil)
		w.count["lesswap-calls"] += int64(calls)
		w.seen(n > 1, strHash(c.name), uint64(n), ranksHash(rk), h[0])
		w.sample("%s -> %d", w.desc, got)
		if r.p(1, 4) {
			setMG(pickMG(r))
			sorty.Sort(n, lsw)
			if got := sorty.IsSorted(n, lsw); got != 0 {
				viol("%d is returned right after sorting", got)
			}
			w.count["after-sort"]++
		}
	}
}

type giveUp struct{}

// issHuge checks IsSorted for collections which exist only as a rule, with inversions
// close to both ends so that any scan finds one early
func issHuge(i int, r *rng) {
	n := int(r.u64()>>1)>>uint(r.n(bits.UintSize-8)) + 100
	switch r.n(4) {
	case 0:
		n = math.MaxInt - r.n(3)
	case 1:
		n = 1<<uint(r.in(8, bits.UintSize-2)) + r.in(-1, 1)
	}
	if n < 100 {
		n = math.MaxInt
	}
	lo := r.in(1, 40)
	hi := n - r.in(1, 40)
	w.describe("huge: IsSorted n=%d inversions at %d, %d", n, lo, hi)
	setMG(pickMG(r))
	at := func(x int) int { // increasing except at lo & hi
		if x >= hi {
			return x - 4
		}
		if x >= lo {
			return x - 2
		}
		return x
	}
	calls, got := 0, 0
	defer func() {
		if e := recover(); e != nil && e != any(giveUp{}) {
			panic(e)
		}
	}()
	got = sorty.IsSorted(n, func(i, k, r, s int) bool {
		if i < 0 || i >= n || k < 0 || k >= n || r != s || r < 0 || r >= n {
			viol("IsSorted calls lesswap(%d,%d,%d,%d) with n=%d", i, k, r, s, n)
		}
		if calls++; calls > 50e6 { // not a scan from an end
			w.count["huge-given-up"]++
			panic(giveUp{})
		}
		return at(i) < at(k)
	})
	if got != lo && got != hi {
		viol("IsSorted(%d) returns %d, only elements %d and %d are less than their predecessors", n, got, lo, hi)
	}
	w.count["huge-collections"]++
	w.seen(true, uint64(n), uint64(lo), uint64(hi))
	w.sample("%s -> %d", w.desc, got)
}

func search(n, k int) {
	calls := 0
	got := sorty.Search(n, func(i int) bool {
		calls++
		if i < 0 || i >= n {
			viol("Search(%d) evaluates predicate at %d", n, i)
		}
		if calls > bits.Len(uint(n))+1 {
			viol("Search(%d) evaluates predicate more than %d times", n, bits.Len(uint(n))+1)
		}
		return i >= k
	})
	if got != k {
		viol("Search(%d) returns %d for a predicate that is true from index %d on", n, got, k)
	}
	w.count["searches"]++
	w.count["predicate-calls"] += int64(calls)
	w.seen(true, uint64(n), uint64(k))
}

func searchCase(i int, r *rng) {
	w.describe("search %d", i)
	if i < 200 {
		for k := 0; k <= i; k++ {
			search(i, k)
		}
		return
	}
	n := int(r.u64()>>1) >> uint(r.n(bits.UintSize-1))
	if n < 0 {
		n = math.MaxInt
	}
	switch r.n(5) {
	case 0:
		n = math.MaxInt - r.n(3)
	case 1:
		n = 1<<uint(r.n(bits.UintSize-1)) + r.in(-1, 1)
	}
	if n < 0 {
		n = 0
	}
	k := 0
	switch r.n(4) {
	case 0:
		k = n - r.n(4)
	case 1:
		k = r.n(4)
	case 2:
		k = n/2 + r.in(-2, 2)
	default:
		k = int(r.u64() >> 1)
		if n < math.MaxInt {
			k %= n + 1
		}
	}
	if k < 0 {
		k = 0
	}
	if k > n {
		k = n
	}
	w.describe("search n=%d k=%d", n, k)
	search(n, k)
	w.sample("%s", w.desc)
}

// stateful & data backed predicates
func searchData(i int, r *rng) {
	n := r.n(3000)
	a := make([]int, n)
	x := 0
	for j := range a {
		x += r.n(3)
		a[j] = x
	}
	v := r.n(x + 2)
	want := 0
	for want < n && a[want] < v {
		want++
	}
	w.describe("search value %d among %d sorted numbers", v, n)
	if got := sorty.Search(n, func(i int) bool { return a[i] >= v }); got != want {
		viol("Search returns %d, not %d", got, want)
	}
	w.count["searches"]++
	w.seen(true, uint64(n), uint64(want), 9)
}

func init() {
	props["C15"] = func() {
		each("native", 120000, issCase("native", 3000))
		pickBigKinds()
		each("large", 44, issLarge)
		each("every-pair", 8*len(kinds), issAll)
		each("huge", 3000, issHuge)
		each("aliased", 8, issAliased)
		each("lesswap", 60000, issColl("lesswap", 3000))
	}
	props["C16"] = func() {
		each("monotone", 1500000, searchCase)
		each("data", 20000, searchData)
	}
}
