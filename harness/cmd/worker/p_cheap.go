package main

import (
	"math/bits"
	"runtime"

	"github.com/jfcg/sorty/v2"
)

// C25: IsSorted* & Search work in the goroutine of the caller, allocate nothing & need
// few evaluations.

const cheapBytes = 1024 // of a whole call

// quiet measures goroutines created & memory allocated by f, the least of a few runs
// because of activities of the runtime
func quiet(f func()) (gors int64, bytes, objs uint64) {
	var x, y runtime.MemStats
	gors, bytes, objs = 1<<40, 1<<60, 1<<60
	for try := 0; try < 5; try++ {
		c := created()
		runtime.ReadMemStats(&x)
		f()
		runtime.ReadMemStats(&y)
		gors = min(gors, created()-c)
		bytes = min(bytes, y.TotalAlloc-x.TotalAlloc)
		objs = min(objs, y.Mallocs-x.Mallocs)
		if gors <= 0 && bytes == 0 {
			break
		}
	}
	return
}

func cheap(what string, f func()) {
	g, b, o := quiet(f)
	if needCreated() && g > 0 {
		viol("%d goroutines are created by %s", g, what)
	}
	if b > cheapBytes {
		viol("%d bytes (%d objects) are allocated by %s", b, o, what)
	}
	w.count["calls-measured"]++
	if hasHook && evc[evGo].Load()+evc[evMake].Load()+evc[evChan].Load() > 0 {
		viol("%s uses %d go statements, %d channel operations", what, evc[evGo].Load(), evc[evChan].Load())
	}
}

func cheapN(r *rng, maxN int) int {
	if r.p(1, 40) {
		return pickLarge(r, maxN, 50*maxN)
	}
	if r.p(1, 3) {
		return r.n(60)
	}
	return pickN(r, maxN)
}

func cheapCase(maxN int, big bool) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		mg := pickMGm(r)
		n := cheapN(r, maxN)
		what := r.n(3)
		if big {
			n, nanDensity = r.in(1e6+1, 1<<21+1e5), 0
			if what = 0; i%11 == 10 {
				what = 1
			}
		}
		switch what {
		case 0:
			k := kinds[r.n(len(kinds))]
			if big {
				k = bigKinds[i%11%len(bigKinds)]
			}
			var rk []int
			m, pat := n/3+1, "ordered"
			if big {
				rk = bigRanks(r, n)
			} else {
				rk, m, pat = issRanks(r, n)
			}
			p := k.build(r, rk, m)
			if !big && r.p(1, 2) {
				p.heapSort()
			}
			w.describe("predicates: %s n=%d pattern=%s MaxGor=%s", k.name, n, pat, mgName(mg))
			begin(r, mg, 0)
			got := 0
			cheap("IsSorted of "+k.name, func() { got = isSorted(k, p.ar) })
			end()
			checkIss(got, n, p.less, p.nan)
			w.seen(n > 1, k.id, mg, ranksHash(rk))
		case 1:
			var rk []int
			m, pat := n/3+1, "ordered"
			if big {
				rk = bigRanks(r, n)
			} else {
				rk, m, pat = issRanks(r, n)
			}
			c := newColl(r, rk, m)
			lsw := c.lsw()
			w.describe("predicates: IsSorted %s n=%d pattern=%s MaxGor=%s", c.name, n, pat, mgName(mg))
			calls := 0
			me := getg()
			f := func(i, k, r, s int) bool {
				if calls++; calls > n {
					viol("IsSorted makes more than %d comparisons for %d elements", calls-1, n)
				}
				if getg() != me {
					viol("IsSorted calls lesswap in another goroutine")
				}
				return lsw(i, k, r, s)
			}
			begin(r, mg, 0)
			got := 0
			cheap("IsSorted", func() { calls = 0; got = sorty.IsSorted(n, f) })
			end()
			checkIss(got, n, c.less, nil)
			w.count["comparisons"] += int64(calls)
			w.seen(n > 1, strHash(c.name), mg, ranksHash(rk))
		default:
			k := r.n(n + 1)
			w.describe("predicates: Search n=%d k=%d MaxGor=%s", n, k, mgName(mg))
			calls := 0
			me := getg()
			f := func(i int) bool {
				if calls++; calls > bits.Len(uint(n))+1 {
					viol("Search makes more than %d evaluations for %d elements", calls-1, n)
				}
				if getg() != me {
					viol("Search evaluates predicate in another goroutine")
				}
				return i >= k
			}
			begin(r, mg, 0)
			got := 0
			cheap("Search", func() { calls = 0; got = sorty.Search(n, f) })
			end()
			if got != k {
				viol("Search returns %d, not %d", got, k)
			}
			w.seen(n > 1, 77, mg, uint64(n), uint64(k))
		}
		w.sample("%s", w.desc)
	}
}

// one kind for each predicate of the package
var bigKinds []*kind

func pickBigKinds() {
	for _, want := range []string{"int32", "uint32", "int64", "uint64", "float32", "float64", "string", "[]byte", "len-string", "len-[]int"} {
		for _, k := range kinds {
			if k.name == want {
				bigKinds = append(bigKinds, k)
			}
		}
	}
}

// many elements in order, sometimes with a single one out of it
func bigRanks(r *rng, n int) []int {
	rk := make([]int, n)
	for i := range rk {
		rk[i] = i / 3
	}
	if r.p(1, 2) {
		rk[r.n(n)] = r.n(n) / 3
	}
	return rk
}

func init() {
	props["C25"] = func() {
		switch w.variant {
		case "plain":
			each("predicates", 30000, cheapCase(5000, false))
			pickBigKinds()
			each("large", 66, cheapCase(5000, true))
		case "inst":
			each("predicate-events", 8000, cheapCase(3000, false))
		}
	}
}
