package main

import (
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/jfcg/sorty/v2"
)

// C08
func disciplineCase(name string, maxN int) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		n := pickNq(r, maxN, true)
		if minN == 0 && r.p(1, 3) {
			n = r.n(40)
		}
		cl := n
		if r.p(1, 40) {
			n, cl = 0, -r.in(0, 5) // nothing to do for negative lengths
		}
		rk, m, pat := pattern(r, n)
		mg := pickMG(r)
		c := newColl(r, rk, m)
		noise := pickNoise(r)
		pickSpeeds(r)
		w.describe("%s: %s n=%d pattern=%s MaxGor=%s noise=%d %s", name, c.name, cl, pat, mgName(mg), noise, tuneString())
		lsw := c.lsw()
		if identOK {
			lsw = idLsw(lsw, r.u64())
		}
		iss := false
		var open atomic.Bool
		var calls atomic.Int64
		f := func(i, k, r, s int) bool {
			calls.Add(1)
			if !open.Load() {
				viol("lesswap(%d,%d,%d,%d) is called after the call returned", i, k, r, s)
			}
			if uint(i) >= uint(n) || uint(k) >= uint(n) || uint(r) >= uint(n) || uint(s) >= uint(n) {
				viol("lesswap(%d,%d,%d,%d) is called with a collection of %d elements", i, k, r, s, n)
			}
			if iss && r != s {
				viol("IsSorted calls lesswap(%d,%d,%d,%d)", i, k, r, s)
			}
			return lsw(i, k, r, s)
		}
		begin(r, mg, noise)
		if identOK {
			newEpoch()
		}
		iss = true
		open.Store(true)
		sorty.IsSorted(cl, f)
		open.Store(false)
		w.count["lesswap-calls-IsSorted"] += calls.Load()
		if n < 2 && calls.Load() != 0 {
			viol("IsSorted calls lesswap %d times for %d elements", calls.Load(), cl)
		}
		iss = false
		calls.Store(0)
		open.Store(true)
		sorty.Sort(cl, f)
		open.Store(false)
		end()
		if n < 2 && calls.Load() != 0 {
			viol("Sort calls lesswap %d times for %d elements", calls.Load(), cl)
		}
		if longFC(n) && mg > 1 { // late calls?
			if r.p(1, 8) {
				time.Sleep(time.Duration(r.n(300)) * time.Microsecond)
			} else {
				runtime.Gosched()
			}
		}
		w.count["lesswap-calls-Sort"] += calls.Load()
		note(strHash(c.name), mg, rk, longFC(n) && mg > 1)
		w.sample("%s", w.desc)
	}
}

// C14: effort
// see DESIGN.md for the measured values
const (
	cmpRatio  = 3.5
	stepRatio = 14
)

// patterns of the property: number of patternNo & variants
const constant = -1

var benign = [...]int{0, 2, 5, 6, constant, 3, 7, 9, 10, 16, 8, 12, 22, 25, 26, 27}

func benignRanks(r *rng, n int) ([]int, int, string) {
	p := benign[r.n(len(benign))]
	if p == constant {
		return make([]int, n), 1, "constant"
	}
	return patternNo(r, n, p)
}

func nlog(n int) float64 { return float64(n) * math.Log2(float64(n)+2) }

func effort(what string, got int64, n int, per float64, pat string) {
	ratio := float64(got) / nlog(n)
	if key := "max-1000*" + what + "/(n*log2(n))"; n > 250 && int64(ratio*1000) > w.count[key] {
		w.count[key] = int64(ratio * 1000)
	}
	if n > 250 {
		if ratio > per {
			viol("%d %ss for n=%d (%s): %.1f times n*log2(n), limit is %.1f", got, what, n, pat, ratio, per)
		}
	} else if got > int64(n*n+20*n+20) {
		viol("%d %ss for n=%d (%s)", got, what, n, pat)
	}
}

func pickEffN(r *rng, maxN int) int {
	if maxN > 100000 {
		return pickLarge(r, maxN/10, maxN)
	}
	if r.p(1, 2) {
		return pickN(r, maxN)
	}
	return r.in(maxN/10, maxN)
}

func effortLsw(name string, maxN int, per float64) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		n := pickEffN(r, maxN)
		rk, m, pat := benignRanks(r, n)
		no := r.n(5)
		c := newCollNo(r, rk, m, no)
		mg := pickMG(r)
		if r.p(1, 2) {
			mg = 1
		}
		w.describe("%s: %s n=%d pattern=%s MaxGor=%s %s", name, c.name, n, pat, mgName(mg), tuneString())
		lsw := c.lsw()
		var calls atomic.Int64
		lim := int64(n)*int64(n)*3 + 100000
		f := func(i, k, r, s int) bool {
			if calls.Add(1) > lim {
				viol("%d comparisons and going on (%s)", lim, pat)
			}
			return lsw(i, k, r, s)
		}
		begin(r, mg, 0)
		sorty.Sort(n, f)
		end()
		effort("comparison", calls.Load(), n, per, pat)
		note(strHash(c.name), mg, rk, longFC(n) && mg > 1)
		w.sample("%s: %d comparisons", w.desc, calls.Load())
	}
}

func effortSteps(name string, maxN int, per float64) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		n := pickEffN(r, maxN)
		rk, m, pat := benignRanks(r, n)
		k := kinds[r.n(len(kinds))]
		if maxN > 100000 {
			k = peelKinds()[i%16]
		}
		p := k.build(r, rk, m)
		mg := pickMG(r)
		if r.p(1, 2) {
			mg = 1
		}
		w.describe("%s: %s n=%d pattern=%s MaxGor=%s NaN=%d/%d %s", name, k.name, n, pat, mgName(mg), nanMode, nanDensity, tuneString())
		begin(r, mg, 0)
		hk.budgetOn, hk.budget = true, int64(n)*int64(n)*3+1000000
		doCall(k, p.ar)
		end()
		effort("step", evc[evLoop].Load(), n, per, pat)
		note(k.id, mg, rk, k.long(n) && mg > 1)
		w.sample("%s: %d steps", w.desc, evc[evLoop].Load())
	}
}

// quadratic bound on anything, killers included
func quadratic(name string, lsws bool, maxN int) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		n := pickNq(r, maxN, r.p(1, 2))
		rk, m, pat := pattern(r, n)
		if r.p(1, 2) {
			rk, m, pat = patternNo(r, n, 20)
		}
		mg := pickMG(r)
		if lsws {
			c := newCollNo(r, rk, m, r.n(5))
			w.describe("%s: %s n=%d pattern=%s MaxGor=%s %s", name, c.name, n, pat, mgName(mg), tuneString())
			lsw := c.lsw()
			var calls atomic.Int64
			lim := int64(2*n*n) + int64(40*nlog(n)) + 1000
			f := func(i, k, r, s int) bool {
				if calls.Add(1) > lim {
					viol("more than %d comparisons for n=%d (%s)", lim, n, pat)
				}
				return lsw(i, k, r, s)
			}
			begin(r, mg, 0)
			sorty.Sort(n, f)
			end()
			w.count["comparisons"] += calls.Load()
			note(strHash(c.name), mg, rk, longFC(n) && mg > 1)
			return
		}
		k := kinds[r.n(len(kinds))]
		p := k.build(r, rk, m)
		w.describe("%s: %s n=%d pattern=%s MaxGor=%s %s", name, k.name, n, pat, mgName(mg), tuneString())
		begin(r, mg, 0)
		hk.budgetOn, hk.budget = true, int64(2*n*n)+int64(40*nlog(n))+1000
		doCall(k, p.ar)
		end()
		w.count["steps"] += evc[evLoop].Load()
		note(k.id, mg, rk, k.long(n) && mg > 1)
	}
}

// adversary answers comparisons as badly as it can (McIlroy), for any implementation
func adversary(name string, maxN int) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		n := r.in(10, maxN)
		w.describe("%s: n=%d %s", name, n, tuneString())
		gas := n
		val := make([]int, n) // by element
		at := make([]int, n)  // element at position
		for i := range val {
			val[i], at[i] = gas, i
		}
		solid, cand, calls := 0, 0, 0
		lim := int(2*n*n) + int(40*nlog(n)) + 1000
		lsw := func(i, k, r, s int) bool {
			if calls++; calls > lim {
				viol("more than %d comparisons for n=%d", lim, n)
			}
			a, b := at[i], at[k]
			if a != b && val[a] == gas && val[b] == gas {
				if a == cand {
					val[a] = solid
				} else {
					val[b] = solid
				}
				solid++
			}
			if val[a] == gas {
				cand = a
			} else if val[b] == gas {
				cand = b
			}
			if val[a] < val[b] {
				if r != s {
					at[r], at[s] = at[s], at[r]
				}
				return true
			}
			return false
		}
		begin(r, 1, 0)
		sorty.Sort(n, lsw)
		end()
		for i := 1; i < n; i++ {
			if val[at[i]] < val[at[i-1]] {
				viol("not sorted")
			}
		}
		w.count["adversary-comparisons"] += int64(calls)
		w.seen(true, uint64(n), uint64(calls))
		w.sample("%s: %d comparisons", w.desc, calls)
	}
}

// C09: race detector observes natural reads & writes of the caller around the call
func raceCase(name string, ks []*kind, maxN int) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		k := ks[r.n(len(ks))]
		n := pickNq(r, maxN, k.fc)
		if maxN > 100000 {
			k = peelKinds()[i%16]
			n = r.in(maxN/3, maxN)
		}
		rk, m, pat := pattern(r, n)
		if len(rk) > 0 && pat == "killer" {
			rk, m, pat = patternNo(r, n, 13)
		}
		mg := quotaMGs[2+r.n(len(quotaMGs)-2)]
		noise := pickNoise(r)
		w.describe("%s: %s n=%d pattern=%s MaxGor=%s NaN=%d/%d noise=%d %s", name, k.name, n, pat, mgName(mg), nanMode, nanDensity, noise, tuneString())
		wt := want{canary: true, wipe: true, pre: func() { begin(r, mg, noise) }, post: end}
		if msg := k.run(k, r, rk, m, &wt); msg != "" {
			viol("%s", msg)
		}
		note(k.id, mg, rk, k.long(n) && mg > 1)
		if k.long(n) {
			w.sample("%s", w.desc)
		}
	}
}

func raceColl(name string, maxN int) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		n := pickNq(r, maxN, true)
		rk, m, pat := pattern(r, n)
		c := newCollNo(r, rk, m, r.n(nColl-1)) // native models are read & written in full below
		mg := quotaMGs[2+r.n(len(quotaMGs)-2)]
		noise := pickNoise(r)
		w.describe("%s: %s n=%d pattern=%s MaxGor=%s noise=%d %s", name, c.name, n, pat, mgName(mg), noise, tuneString())
		before := c.digest()
		lsw := c.lsw()
		begin(r, mg, noise)
		sorty.Sort(n, lsw)
		for i := 0; i+1 < n; i += 2 { // overwrite right away & restore
			c.swap(i, i+1)
		}
		end()
		for i := 0; i+1 < n; i += 2 {
			c.swap(i, i+1)
		}
		if msg := c.verify(before); msg != "" {
			viol("%s", msg)
		}
		note(strHash(c.name), mg, rk, longFC(n) && mg > 1)
		w.sample("%s", w.desc)
	}
}

// C18: MaxGor is changed meanwhile
var flipVals = [...]uint64{0, 1, 2, 3, 4, 5, 8, 100, 1 << 33, ^uint64(0)}

func liveCase(name string, maxN int) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		top := r.in(2, len(flipVals))
		vals := append([]uint64(nil), flipVals[:top]...)
		hi := maxGor1(vals[top-1])
		base := runtime.NumGoroutine()
		jobs := r.in(1, 3)
		if hk.ident {
			jobs = 1 // goroutines are counted for a single call
		}
		setNaN(r)
		var js []*job
		for x := 0; x < jobs; x++ {
			n := pickNq(r, maxN, r.p(1, 2))
			if maxN > 100000 {
				n = pickLarge(r, maxN/20, maxN)
			}
			js = append(js, newJobPat(r, n, []int{0, 1, 2, 3, 7, 9, 13, 14, 18, 21}[r.n(10)], !hk.ident || hasHook))
		}
		noise := pickNoise(r)
		pickSpeeds(r)
		w.describe("%s: %d calls, first is %s; MaxGor changes among %v noise=%d %s", name, jobs, js[0].name, vals, noise, tuneString())
		var stop atomic.Bool
		fin := make(chan int)
		s := r.u64()
		pause := r.n(3)
		begin(r, vals[r.n(top)], noise)
		go func() {
			q := newRng(s)
			c := 0
			for !stop.Load() {
				sorty.MaxGor = vals[q.n(top)]
				c++
				switch pause {
				case 0:
					runtime.Gosched()
				case 1:
					spin(q.n(2000))
					if c&15 == 0 {
						runtime.Gosched()
					}
				case 2:
					time.Sleep(time.Duration(q.n(20)) * time.Microsecond)
				}
			}
			fin <- c
		}()
		var wg sync.WaitGroup
		for _, j := range js[1:] {
			wg.Add(1)
			go func() {
				j.call()
				wg.Done()
			}()
		}
		js[0].call()
		wg.Wait()
		end()
		stop.Store(true)
		w.count["MaxGor-changes"] += int64(<-fin)
		if hk.ident {
			pk, g := peak()
			if uint64(pk) > hi {
				viol("%d goroutines worked at the same time, MaxGor never exceeded %d", pk, hi)
			}
			w.count["goroutines-observed"] += int64(g)
		}
		for _, j := range js {
			if msg := j.ok(); msg != "" {
				viol("%s: %s", j.name, msg)
			}
			note(j.id, uint64(top), j.rk, j.long)
		}
		settle(base)
		w.sample("%s", w.desc)
	}
}

// lesswap driven changes: lowered at a point of the call, no goroutine starts later
func lowerCase(i int, r *rng) {
	pickTune(r)
	n := thresholds()[3] * r.in(20, 60)
	setNaN(r)
	rk, m, pat := patternNo(r, n, []int{0, 1, 2, 3, 7, 9, 18}[r.n(7)])
	c := newCollNo(r, rk, m, r.n(nColl))
	before := c.digest()
	mg := uint64(r.in(2, 6))
	at := int64(1 + r.n(n*int(math.Log2(float64(n)))/2))
	low := uint64(r.n(2))
	pickSpeeds(r)
	w.describe("lower: %s n=%d pattern=%s MaxGor=%d lowered to %d at lesswap call %d %s", c.name, n, pat, mg, low, at, tuneString())
	var calls atomic.Int64
	var seenAt, lowered atomic.Int64
	lsw := idLsw(c.lsw(), r.u64())
	f := func(i, k, r, s int) bool {
		if calls.Add(1) == at {
			sorty.MaxGor = low
			lowered.Store(1)
			gorMu.Lock()
			seenAt.Store(int64(len(gors)))
			gorMu.Unlock()
		}
		return lsw(i, k, r, s)
	}
	begin(r, mg, 0)
	newEpoch()
	sorty.Sort(n, f)
	end()
	pk, g := peak()
	if uint64(pk) > mg {
		viol("%d goroutines worked at the same time, MaxGor was at most %d", pk, mg)
	}
	if msg := c.verify(before); msg != "" {
		viol("%s", msg)
	}
	if lowered.Load() == 1 {
		// those not yet seen: started but not running yet, and being started. Both are
		// within quota or by a goroutine that is.
		if late := int64(g) - seenAt.Load(); late > int64(2*mg) {
			viol("%d goroutines start after MaxGor is lowered from %d to %d", late, mg, low)
		} else {
			w.count["late-goroutines"] += late
		}
		w.count["lowered-calls"]++
	}
	note(strHash(c.name), uint64(at), rk, true)
	w.sample("%s", w.desc)
}

// exact version: go statements are observed
func lowerInst(i int, r *rng) {
	pickTune(r)
	k := kinds[r.n(len(kinds))]
	t := thresholds()[2]
	if k.fc {
		t = thresholds()[3]
	}
	n := t * r.in(20, 60)
	j := kindJob(r, k, n, []int{0, 1, 2, 3, 7, 9, 18}[r.n(7)])
	mg := uint64(r.in(2, 6))
	at := int64(1 + r.n(n*4))
	low := uint64(r.n(2))
	noise := r.n(3)
	w.describe("lower: %s MaxGor=%d lowered to %d at step %d noise=%d %s", j.name, mg, low, at, noise, tuneString())
	begin(r, mg, noise)
	gosAt := int64(-1)
	hk.onLoop = func(c int64) {
		if c == at {
			sorty.MaxGor = low
			gosAt = evc[evGo].Load()
		}
	}
	j.call()
	hk.onLoop = nil
	end()
	if gosAt >= 0 {
		if late := evc[evGo].Load() - gosAt; late > int64(mg) {
			viol("%d goroutines start after MaxGor is lowered from %d to %d", late, mg, low)
		} else {
			w.count["late-goroutines"] += late
		}
		w.count["lowered-calls"]++
		w.count["goroutines-before"] += gosAt
	}
	if msg := j.ok(); msg != "" {
		viol("%s", msg)
	}
	note(j.id, uint64(at), j.rk, true)
	w.sample("%s", w.desc)
}

// raised at a point of the call: additional goroutines are used in some of a few calls
func raiseCase(i int, r *rng) {
	if !identOK {
		return
	}
	pickTune(r)
	k := kinds[i%len(kinds)]
	t := thresholds()[2]
	if k.fc {
		t = thresholds()[3]
	}
	n := 250 * (t + 1)
	hi := uint64(r.in(4, 9))
	best, tries := 0, 0
	slowOf = func(id int) int { return 1 }
	for ; tries < 8 && best < 4; tries++ {
		setNaN(r)
		nanDensity = 0
		rk, m, _ := patternNo(r, n, 2)
		p := k.build(r, rk, m)
		at := int64(1 + r.n(2*n))
		w.describe("raise: %s n=%d MaxGor=2 raised to %d at step %d %s", k.name, n, hi, at, tuneString())
		begin(r, 2, 1)
		hk.onLoop = func(c int64) {
			if c == at {
				atomic.StoreUint64(&sorty.MaxGor, hi)
			}
		}
		doCall(k, p.ar)
		hk.onLoop = nil
		end()
		pk, _ := peak()
		best = max(best, pk)
		w.count["raised-calls"]++
		note(k.id, hi, rk, true)
	}
	w.count[sprintf("peak-%d-after-raise", best)]++
	if best < 3 {
		viol("at most %d goroutines worked at the same time in %d calls with large random inputs, though MaxGor is raised from 2 to %d early", best, tries, hi)
	}
	w.sample("%s", w.desc)
}

// C19: simultaneous calls on parts of one array
func partsCase(name string, maxN int, large bool) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		k := kinds[r.n(len(kinds))]
		parts := r.in(2, 6)
		if large {
			k, parts = kinds[i%len(kinds)], 2
		}
		n := 0
		var cut []int
		for x := 0; x < parts; x++ {
			cut = append(cut, n)
			if large {
				n += r.in(maxN/8, maxN)
			} else {
				n += pickNq(r, maxN, k.fc)
			}
		}
		cut = append(cut, n)
		rk, m, pat := patternNo(r, n, []int{0, 1, 2, 3, 7, 9, 13, 14, 18, 21}[r.n(10)])
		p := k.build(r, rk, m)
		mg := pickMGm(r)
		if large {
			mg = uint64(r.n(4))
		}
		noise := pickNoise(r)
		w.describe("%s: %s parts=%v pattern=%s MaxGor=%s noise=%d %s", name, k.name, cut, pat, mgName(mg), noise, tuneString())
		var subs []probe
		var ds [][2]uint64
		for x := 0; x < parts; x++ {
			s := p.sub(cut[x], cut[x+1])
			subs = append(subs, s)
			ds = append(ds, s.digest())
		}
		begin(r, mg, noise)
		start := make(chan int)
		bad := make([]string, parts)
		var wg sync.WaitGroup
		seeds := r.u64()
		for x := range subs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				q := newRng(seeds, uint64(x))
				<-start
				s := &subs[x]
				switch q.n(5) {
				case 0: // through lesswap
					less, swap := s.less, s.swap
					sorty.Sort(s.n, func(i, k, r, s int) bool {
						if less(i, k) {
							if r != s {
								swap(r, s)
							}
							return true
						}
						return false
					})
				default:
					doCall(k, s.ar)
				}
				if q.p(1, 2) {
					if g := isSorted(k, s.ar); g != 0 {
						bad[x] = sprintf("%d reported unsorted at %d right after sorting", x, g)
					}
				}
				v := q.n(s.n + 1)
				if g := sorty.Search(s.n, func(i int) bool { return i >= v }); g != v {
					bad[x] = sprintf("Search returns %d, not %d", g, v)
				}
			}()
		}
		close(start)
		wg.Wait()
		end()
		for x := range subs {
			s := &subs[x]
			for i := 1; i < s.n; i++ {
				if s.less(i, i-1) {
					bad[x] = sprintf("not sorted at %d of %d", i, s.n)
				}
			}
			if s.digest() != ds[x] {
				bad[x] = "elements changed"
			}
			if bad[x] != "" {
				viol("part %d: %s", x, bad[x])
			}
		}
		w.count["simultaneous-calls"] += int64(parts)
		note(k.id, mg, rk, true)
		w.sample("%s", w.desc)
	}
}

// nestedSort sorts a with a slice of another type, without shared state of the harness
func nestedSort(q *rng, a []int) {
	switch q.n(11) {
	case 0:
		sorty.SortSlice(a)
	case 1:
		nestedAs(a, sorty.SortSlice, func(x int) int32 { return int32(x) - 50 }, func(y int32) int { return int(y) + 50 })
	case 2:
		nestedAs(a, sorty.SortSlice, func(x int) uint32 { return uint32(x) << 20 }, func(y uint32) int { return int(y >> 20) })
	case 3:
		nestedAs(a, sorty.SortSlice, func(x int) uint64 { return uint64(x) << 50 }, func(y uint64) int { return int(y >> 50) })
	case 4:
		nestedAs(a, sorty.SortSlice, func(x int) float32 { return float32(x) - 50 }, func(y float32) int { return int(y) + 50 })
	case 5:
		nestedAs(a, sorty.SortSlice, func(x int) float64 { return float64(x) / 8 }, func(y float64) int { return int(y * 8) })
	case 6:
		nestedAs(a, sorty.SortSlice, func(x int) string { return sprintf("%09d", x) }, func(y string) (x int) { fmt.Sscan("1"+y, &x); return x - 1e9 })
	case 7:
		nestedAs(a, sorty.SortSlice, func(x int) []byte { return []byte{byte(x >> 16), byte(x >> 8), byte(x)} },
			func(y []byte) int { return int(y[0])<<16 | int(y[1])<<8 | int(y[2]) })
	case 8:
		nestedAs(a, sorty.SortLen, func(x int) []struct{} { return make([]struct{}, x) }, func(y []struct{}) int { return len(y) })
	case 9:
		var space [1 << 14]byte
		nestedAs(a, sorty.SortLen, func(x int) string { return string(space[:min(x, len(space))]) }, func(y string) int { return len(y) })
	default:
		p := make([]int, len(a))
		nestedAs(a, sorty.SortSlice, func(x int) *int { return &p[x] }, func(y *int) int {
			return int(uintptr(unsafe.Pointer(y))-uintptr(unsafe.Pointer(&p[0]))) / int(unsafe.Sizeof(p[0]))
		})
	}
}

func nestedAs[T any](a []int, do func(any), to func(int) T, from func(T) int) {
	b := make([]T, len(a))
	for i := range a {
		b[i] = to(a[i])
	}
	do(b)
	for i := range b {
		a[i] = from(b[i])
	}
}

// calls from inside a lesswap
func nestedCase(name string, maxN int) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		n := pickNq(r, maxN, true)
		setNaN(r)
		rk, m, pat := pattern(r, n)
		c := newCollNo(r, rk, m, r.n(nColl))
		before := c.digest()
		mg := pickMG(r)
		w.describe("%s: %s n=%d pattern=%s MaxGor=%s %s", name, c.name, n, pat, mgName(mg), tuneString())
		lsw := c.lsw()
		var calls, nested atomic.Int64
		seed := r.u64()
		every := int64(r.in(20, 400)) * int64(n/200+1)
		lim := 3 * (thresholds()[3] + 1)
		f := func(i, k, r, s int) bool {
			if x := calls.Add(1); x%every == 0 {
				q := newRng(seed, uint64(x))
				nn := q.n(lim)
				a := make([]int, nn)
				for i := range a {
					a[i] = q.n(nn)
				}
				if q.p(1, 2) {
					nestedSort(q, a)
				} else {
					sorty.Sort(nn, func(i, k, r, s int) bool {
						if a[i] < a[k] {
							if r != s {
								a[r], a[s] = a[s], a[r]
							}
							return true
						}
						return false
					})
				}
				if sorty.IsSortedSlice(a) != 0 {
					viol("nested IsSortedSlice is not 0 after sorting")
				}
				for i := 1; i < nn; i++ {
					if a[i] < a[i-1] {
						viol("nested call does not sort")
					}
				}
				v := q.n(nn + 1)
				if sorty.Search(nn, func(i int) bool { return i >= v }) != v {
					viol("nested Search is wrong")
				}
				nested.Add(1)
			}
			return lsw(i, k, r, s)
		}
		begin(r, mg, pickNoise(r))
		sorty.Sort(n, f)
		end()
		if msg := c.verify(before); msg != "" {
			viol("%s", msg)
		}
		w.count["nested-calls"] += nested.Load()
		note(strHash(c.name), mg, rk, longFC(n) && mg > 1)
		w.sample("%s", w.desc)
	}
}

// every one of simultaneous calls has its own quota: goroutines of a call are identified
// by the collection they touch
// C19: a call starts its own goroutines while other calls are held up within lesswap
func heldQuota(i int, r *rng) {
	pickTune(r)
	setNaN(r)
	nanDensity = 0
	mg := uint64(r.in(2, 9))
	t := thresholds()
	outer := r.in(1, 4)
	n := t[0]*2 + t[2]*int(mg)*r.in(5, 10)
	w.describe("held: %d calls are held, n=%d MaxGor=%d %s", outer, n, mg, tuneString())
	begin(r, mg, 0)
	var inside, arrived atomic.Int64
	gate := make(chan bool)
	var wg sync.WaitGroup
	var cs []*coll
	var before [][2]uint64
	for x := 0; x < outer; x++ {
		rk, m, _ := patternNo(r, t[3]*int(mg)*r.in(5, 10), 0)
		c := newCollNo(r, rk, m, r.n(5))
		before = append(before, c.digest())
		cs = append(cs, c)
		if x == 0 {
			note(strHash(c.name), mg, rk, true)
		}
	}
	for _, c := range cs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			lsw := c.lsw()
			var cnt atomic.Int64
			late := int64(c.n) * 3 // in the middle
			sorty.Sort(c.n, func(i, k, r, s int) bool {
				if cnt.Add(1) > late {
					inside.Add(1)
					arrived.Add(1)
					<-gate
					inside.Add(-1)
				}
				return lsw(i, k, r, s)
			})
		}()
	}
	// until each goroutine is held
	for last, same := int64(-1), 0; same < 12 && last < int64(outer)*int64(mg); {
		if c := inside.Load(); c >= int64(outer) && c == last {
			same++
		} else {
			last, same = c, 0
		}
		time.Sleep(50 * time.Microsecond)
	}
	held := inside.Load()
	most := int64(0)
	want := int64(mg) - 1
	name := ""
	var viols string
	for try := 0; try < 6 && most < want && viols == ""; try++ {
		k := peelKinds()[i%16]
		j := kindJob(r, k, n, 0)
		name = k.name
		c := created()
		j.call()
		most = max(most, created()-c)
		viols = j.ok()
	}
	close(gate)
	wg.Wait()
	end()
	if viols != "" {
		viol("%s", viols)
	}
	for x, c := range cs {
		if msg := c.verify(before[x]); msg != "" {
			viol("%s", msg)
		}
	}
	if most < want {
		viol("a call on %s with n=%d starts %d goroutines while %d goroutines of other calls are held, MaxGor is %d", name, n, most, held, mg)
	}
	w.count["goroutines-held"] += held
	w.count["goroutines-started-meanwhile"] += most
	w.sample("%s: %s %d held, %d started", w.desc, name, held, most)
}

func ownQuota(i int, r *rng) {
	pickTune(r)
	calls := r.in(2, 4)
	mg := uint64(r.in(2, 4))
	n := thresholds()[3] * r.in(12, 30)
	w.describe("own-quota: %d calls n=%d MaxGor=%d %s", calls, n, mg, tuneString())
	pickSpeeds(r)
	type span struct{ first, last int64 }
	type mon struct {
		mu sync.Mutex
		m  map[*gor]*span
	}
	mons := make([]*mon, calls)
	var cs []*coll
	var before [][2]uint64
	for x := range mons {
		mons[x] = &mon{m: map[*gor]*span{}}
		rk, m, _ := patternNo(r, n, []int{0, 1, 2, 7}[r.n(4)])
		c := newCollNo(r, rk, m, r.n(5))
		cs = append(cs, c)
		before = append(before, c.digest())
		note(strHash(c.name), mg, rk, true)
	}
	begin(r, mg, 0)
	newEpoch()
	var wg sync.WaitGroup
	salt := r.u64()
	for x := range cs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mo := mons[x]
			lsw := cs[x].lsw()
			sorty.Sort(n, func(i, k, r, s int) bool {
				g := touch()
				c := g.last
				mo.mu.Lock()
				sp := mo.m[g]
				if sp == nil {
					sp = &span{first: c}
					mo.m[g] = sp
				}
				sp.last = c
				mo.mu.Unlock()
				perturb(g, salt)
				return lsw(i, k, r, s)
			})
		}()
	}
	wg.Wait()
	end()
	for x, mo := range mons {
		pk := 0
		for _, a := range mo.m {
			c := 0
			for _, b := range mo.m {
				if b.first <= a.first && a.first <= b.last {
					c++
				}
			}
			pk = max(pk, c)
		}
		if pk > int(mg) {
			viol("%d goroutines worked for call %d at the same time, MaxGor is %d", pk, x, mg)
		}
		if len(mo.m) < 2 {
			viol("call %d was not shared by goroutines though MaxGor is %d and n=%d", x, mg, n)
		}
		w.count["goroutines-observed"] += int64(len(mo.m))
		if msg := cs[x].verify(before[x]); msg != "" {
			viol("call %d: %s", x, msg)
		}
	}
	w.count["simultaneous-calls"] += int64(calls)
	w.sample("%s", w.desc)
}

func init() {
	props["C08"] = func() {
		switch w.variant {
		case "plain":
			each("discipline", 20000, disciplineCase("discipline", 6000))
			each("discipline-large", 32, largeN(100000, disciplineCase("discipline-large", 800000)))
		case "inst":
			hk.sched = true
			each("discipline-schedules", 8000, disciplineCase("discipline-schedules", 6000))
		case "tune":
			each("tuned-discipline", 20000, disciplineCase("tuned-discipline", 1500))
		case "tuneinst":
			hk.sched = true
			each("tuned-discipline-schedules", 8000, disciplineCase("tuned-discipline-schedules", 1500))
		}
	}
	props["C09"] = func() {
		switch w.variant {
		case "race":
			each("native", 2400, raceCase("native", kinds, 12000))
			each("lesswap", 1000, raceColl("lesswap", 6000))
			each("native-large", 32, raceCase("native-large", kinds, 600000))
		case "tunerace":
			each("tuned-native", 3600, raceCase("tuned-native", kinds, 1200))
			each("tuned-lesswap", 1600, raceColl("tuned-lesswap", 1200))
		}
	}
	props["C14"] = func() {
		switch w.variant {
		case "plain":
			each("comparisons", 3000, effortLsw("comparisons", 40000, cmpRatio))
			each("comparisons-large", 24, effortLsw("comparisons-large", 1000000, cmpRatio))
			each("quadratic-lesswap", 1500, quadratic("quadratic-lesswap", true, 5000))
			each("adversary", 300, adversary("adversary", 3000))
		case "inst":
			each("steps", 5000, effortSteps("steps", 40000, stepRatio))
			each("steps-large", 64, effortSteps("steps-large", 800000, stepRatio))
			each("quadratic", 1500, quadratic("quadratic", false, 5000))
		}
	}
	props["C18"] = func() {
		switch w.variant {
		case "plain":
			each("live", 6000, liveCase("live", 8000))
			each("live-large", 30, liveCase("live-large", 400000))
			each("lower", 600, lowerCase)
		case "inst":
			hk.sched, hk.ident = true, identOK
			each("live-quota", 4000, liveCase("live-quota", 8000))
			each("lower", 1200, lowerInst)
			each("raise", 2*len(kinds), raiseCase)
		case "tune":
			each("tuned-lower", 3000, lowerCase)
		case "tuneinst":
			hk.sched, hk.ident = true, identOK
			each("tuned-live-quota", 4000, liveCase("tuned-live-quota", 1500))
			each("tuned-lower", 3000, lowerInst)
			each("tuned-raise", 6*len(kinds), raiseCase)
		case "race":
			each("live-race", 1200, liveCase("live-race", 6000))
		}
	}
	props["C19"] = func() {
		switch w.variant {
		case "plain":
			each("parts", 3000, partsCase("parts", 4000, false))
			each("nested", 2000, nestedCase("nested", 4000))
			each("own-quota", 500, ownQuota)
			if needCreated() {
				each("held", 240, heldQuota)
			}
		case "tune":
			each("tuned-parts", 4000, partsCase("tuned-parts", 900, false))
			each("tuned-nested", 3000, nestedCase("tuned-nested", 1200))
			each("tuned-own-quota", 1500, ownQuota)
			if needCreated() {
				each("tuned-held", 400, heldQuota)
			}
		case "race":
			each("parts-race", 500, partsCase("parts-race", 3000, false))
			each("large-race", len(kinds), partsCase("large-race", 80000, true))
			each("nested-race", 300, nestedCase("nested-race", 3000))
		case "tunerace":
			each("tuned-parts-race", 900, partsCase("tuned-parts-race", 800, false))
		}
	}
}
