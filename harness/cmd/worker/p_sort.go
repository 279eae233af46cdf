package main

import (
	"github.com/jfcg/sorty/v2"
)

// total picks the number of cases of the tier
func total(quick int) int { return quick }

// begin prepares for a monitored call
func begin(r *rng, mg uint64, noise int) {
	setMG(mg)
	if hasHook {
		if !raceBuild {
			resetEvents()
			if hk.ident || hk.sched {
				newEpoch()
			}
		}
		nz.reset(r, noise)
	}
	returned.Store(false)
}

// end of a monitored call
func end() {
	if hasHook {
		nz.level = 0
		if hk.sched && !raceBuild {
			endSched()
		}
	}
}

func mgName(mg uint64) string {
	if mg > 1<<20 {
		return sprintf("%#x", mg)
	}
	return sprintf("%d", mg)
}

func setNaN(r *rng) {
	nanMode, nanDensity = r.n(3)-1, 0
	if nanMode != 0 {
		nanDensity = []int{0, 1, 5, 50, 300, 500, 900, 999, 1000}[r.n(9)]
	}
	switch nanMode {
	case -1:
		sorty.NaNoption = sorty.NaNsmall
	case 0:
		sorty.NaNoption = sorty.NaNignore
	case 1:
		sorty.NaNoption = sorty.NaNlarge
	}
}

// noise level for a case
func pickNoise(r *rng) int {
	if !hasHook {
		return 0
	}
	return r.n(3)
}

// sortCase returns a case that sorts one slice of given kinds & checks everything about
// the result.
func sortCase(name string, ks []*kind, maxN int, wipe bool) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		k := ks[r.n(len(ks))]
		n := pickN(r, maxN)
		rk, m, pat := pattern(r, n)
		mg := pickMG(r)
		noise := pickNoise(r)
		w.describe("%s: %s n=%d pattern=%s MaxGor=%s NaN=%d/%d noise=%d %s", name, k.name, n, pat, mgName(mg), nanMode, nanDensity, noise, tuneString())
		wt := want{canary: true, wipe: wipe, pre: func() { begin(r, mg, noise) }, post: end}
		if msg := k.run(k, r, rk, m, &wt); msg != "" {
			viol("%s", msg)
		}
		note(k.id, mg, rk, k.long(n) && mg > 1)
		if k.long(n) && mg > 1 {
			w.sample("%s", w.desc)
		}
	}
}

// note registers coverage of a case
func note(id, mg uint64, rk []int, conc bool) {
	w.seen(unsortedRanks(rk), id, mg, ranksHash(rk))
	if conc {
		w.count["concurrent-cases"]++
	}
	w.count["elements"] += int64(len(rk))
}

// large inputs, every kind once in a while
func largeCase(name string, ks []*kind, lo, hi int) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		k := ks[(i+r.n(2)*len(ks)/2)%len(ks)]
		n := pickLarge(r, lo, hi)
		rk, m, pat := pattern(r, n)
		mg := pickMGl(r)
		noise := 0
		w.describe("%s: %s n=%d pattern=%s MaxGor=%s NaN=%d/%d %s", name, k.name, n, pat, mgName(mg), nanMode, nanDensity, tuneString())
		wt := want{canary: true, pre: func() { begin(r, mg, noise) }, post: end}
		if msg := k.run(k, r, rk, m, &wt); msg != "" {
			viol("%s", msg)
		}
		note(k.id, mg, rk, true)
	}
}

// every length up to a limit, so that no small length is left to chance
func smallCase(name string, ks []*kind) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		k := ks[i%len(ks)]
		n := i / len(ks) % 1300
		mg := pickMG(r)
		noise := pickNoise(r)
		for _, p := range []int{r.n(nPat), 3, 0} {
			rk, m, pat := patternNo(r, n, p)
			w.describe("%s: %s n=%d pattern=%s MaxGor=%s NaN=%d/%d noise=%d %s", name, k.name, n, pat, mgName(mg), nanMode, nanDensity, noise, tuneString())
			wt := want{canary: true, pre: func() { begin(r, mg, noise) }, post: end}
			if msg := k.run(k, r, rk, m, &wt); msg != "" {
				viol("%s", msg)
			}
			note(k.id, mg, rk, k.long(n) && mg > 1)
		}
	}
}

// sorts with a full 0-1 sweep: all 2-valued inputs of tiny lengths
func zeroOneCase(name string, ks []*kind, maxLen int) func(i int, r *rng) {
	return func(i int, r *rng) {
		setNaN(r)
		nanDensity = 0
		k := ks[i%len(ks)]
		n := i / len(ks) % (maxLen + 1)
		setMG(1)
		w.describe("%s: %s n=%d all 2-valued inputs", name, k.name, n)
		for x := 0; x < 1<<n; x++ {
			rk := make([]int, n)
			for j := range rk {
				rk[j] = x >> j & 1
			}
			if msg := k.run(k, r, rk, 2, &want{canary: true}); msg != "" {
				viol("ranks %v: %s", rk, msg)
			}
			note(k.id, 1, rk, false)
		}
	}
}

// few strings with very long common prefixes
func longCase(name string, ks []*kind) func(i int, r *rng) {
	f := sortCase(name, ks, 45, false)
	return func(i int, r *rng) {
		longStrings = true
		f(i, r)
		longStrings = false
	}
}

func nativeProp(ks []*kind, quick int) func() {
	return func() {
		switch w.variant {
		case "plain":
			each("two-valued", 13*len(ks), zeroOneCase("two-valued", ks, 12))
			each("small", 160*len(ks), smallCase("small", ks))
			each("mixed", quick, sortCase("mixed", ks, 6000, false))
			each("large", 48, largeCase("large", ks, 50000, 400000))
			each("huge", 4, largeCase("huge", ks, 1000000, 3000000))
			if ks[0].grp == "str" {
				each("long-strings", 40, longCase("long-strings", ks))
			}
		case "inst":
			hk.sched = true
			each("schedules", quick*2/5, sortCase("schedules", ks, 6000, true))
		case "tune":
			each("tuned", quick, sortCase("tuned", ks, 1500, false))
			if ks[0].grp == "str" {
				each("tuned-long-strings", 40, longCase("tuned-long-strings", ks))
			}
		case "tuneinst":
			hk.sched = true
			each("tuned-schedules", quick/2, sortCase("tuned-schedules", ks, 1500, true))
		}
	}
}

func init() {
	num, fl, st, ln := grp("num"), grp("float"), grp("str"), grp("len")
	props["C01"] = nativeProp(num, 16000)
	props["C02"] = nativeProp(st, 12000)
	props["C03"] = nativeProp(fl, 16000)
	props["C04"] = nativeProp(ln, 16000)
	props["C05"] = func() {
		switch w.variant {
		case "plain":
			each("small", 160*nColl, collSmall)
			each("mixed", 16000, collCase("mixed", 6000, false))
			each("large", 32, collCase("large", 300000, true))
		case "inst":
			hk.sched = true
			each("schedules", 8000, collCase("schedules", 6000, false))
		case "tune":
			each("tuned", 16000, collCase("tuned", 1500, false))
		case "tuneinst":
			hk.sched = true
			each("tuned-schedules", 8000, collCase("tuned-schedules", 1500, false))
		}
	}
	props["C06"] = func() {
		all := kinds
		switch w.variant {
		case "plain":
			each("small", 130*len(all), smallCase("small", all))
			each("mixed", 12000, sortCase("mixed", all, 6000, false))
			each("equal", 6000, equalCase(all))
			each("lesswap", 6000, collCase("lesswap", 6000, false))
			each("large", 30, largeCase("large", all, 50000, 400000))
			each("huge", 4, largeCase("huge", all, 1000000, 3000000))
		case "inst":
			hk.sched = true
			each("schedules", 5000, sortCase("schedules", all, 6000, true))
			each("schedules-lesswap", 2500, collCase("schedules-lesswap", 6000, false))
		case "tune":
			each("tuned", 12000, sortCase("tuned", all, 1500, false))
			each("tuned-lesswap", 4000, collCase("tuned-lesswap", 1500, false))
		case "tuneinst":
			hk.sched = true
			each("tuned-schedules", 5000, sortCase("tuned-schedules", all, 1500, true))
			each("tuned-schedules-lesswap", 2500, collCase("tuned-schedules-lesswap", 1500, false))
		}
	}
	props["C20"] = func() {
		all := kinds
		switch w.variant {
		case "plain": // defaults are reported
			each("defaults", 8, func(i int, r *rng) { feasible() })
		case "tune":
			each("defaults", 8, func(i int, r *rng) { feasible() })
			each("tuned", 14000, sortCase("tuned", all, 1500, false))
			each("tuned-lesswap", 5000, collCase("tuned-lesswap", 1500, false))
			each("tuned-large", 24, largeCase("tuned-large", all, 20000, 200000))
			each("tuned-long-ranges", 90, longRanged(largeCase("tuned-long-ranges", all, 5000, 400000)))
			each("tuned-sorted", 3000, issCase("tuned-sorted", 1500))
		case "tuneinst":
			hk.sched, hk.ident = true, identOK
			hk.budgetOn = true
			each("tuned-schedules", 6000, quotaCase("tuned-schedules", all, 1500, true))
			each("tuned-long-schedules", 50, longRanged(quotaCase("tuned-long-schedules", all, 60000, true)))
			each("tuned-schedules-lesswap", 2500, quotaColl("tuned-schedules-lesswap", 1500, true))
		}
	}
	props["C21"] = func() {
		if tunable {
			each("tuned", 8000, sortCase("tuned", kinds, 1500, false))
			each("tuned-lesswap", 4000, collCase("tuned-lesswap", 1500, false))
			return
		}
		each("search", 60000, searchCase)
		each("types", 1, typesCase)
		each("two-valued", 11*len(kinds), zeroOneCase("two-valued", kinds, 10))
		each("small", 130*len(kinds), smallCase("small", kinds))
		each("mixed", 14000, sortCase("mixed", kinds, 6000, false))
		each("lesswap", 6000, collCase("lesswap", 6000, false))
		each("sorted", 8000, issCase("sorted", 3000))
		each("sorted-lesswap", 3000, issColl("sorted-lesswap", 3000))
		each("large", 24, largeCase("large", kinds, 50000, 200000))
		each("huge", 2, largeCase("huge", kinds, 1000000, 5000000))
	}
}

func feasible() {
	d := defaults
	if !(d[2] >= d[3] && d[3] > 2*d[0] && d[0] >= d[1] && d[1] > 8) {
		viol("default thresholds are not feasible: %v", d)
	}
	w.seen(true, uint64(d[0]), uint64(w.shard))
}

func equalCase(ks []*kind) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		k := ks[r.n(len(ks))]
		n := pickN(r, 6000)
		rk, m, pat := patternNo(r, n, []int{3, 4, 11, 21, 13, 3}[r.n(6)])
		mg := pickMG(r)
		w.describe("equal: %s n=%d pattern=%s MaxGor=%s NaN=%d/%d", k.name, n, pat, mgName(mg), nanMode, nanDensity)
		wt := want{canary: true, pre: func() { begin(r, mg, 0) }, post: end}
		if msg := k.run(k, r, rk, m, &wt); msg != "" {
			viol("%s", msg)
		}
		note(k.id+1, mg, rk, k.long(n) && mg > 1)
	}
}

func collRun(name string, r *rng, no, n, pat int, mg uint64, noise int) {
	rk, m, pn := patternNo(r, n, pat)
	setNaN(r)
	w.describe("%s: collection %d n=%d pattern=%s MaxGor=%s noise=%d %s", name, no, n, pn, mgName(mg), noise, tuneString())
	c := newCollNo(r, rk, m, no)
	before := c.digest()
	w.describe("%s: %s n=%d pattern=%s MaxGor=%s noise=%d %s", name, c.name, n, pn, mgName(mg), noise, tuneString())
	lsw := c.lsw()
	begin(r, mg, noise)
	sorty.Sort(n, lsw)
	end()
	if msg := c.verify(before); msg != "" {
		viol("%s", msg)
	}
	note(strHash(c.name), mg, rk, longFC(n) && mg > 1)
	if longFC(n) && mg > 1 {
		w.sample("%s", w.desc)
	}
}

func longFC(n int) bool { return n >= 2*(thresholds()[3]+1) }

func collCase(name string, maxN int, large bool) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		n := pickN(r, maxN)
		mg := pickMG(r)
		if large {
			n = pickLarge(r, maxN/20, maxN)
			mg = pickMGl(r)
		}
		collRun(name, r, r.n(nColl), n, r.n(nPat), mg, pickNoise(r))
	}
}

func collSmall(i int, r *rng) {
	for _, p := range []int{r.n(nPat), 3, 0} {
		collRun("small", r, i%nColl, i/nColl%1300, p, pickMG(r), 0)
	}
}
