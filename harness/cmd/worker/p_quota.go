package main

import (
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sync/atomic"
	"time"

	"github.com/jfcg/sorty/v2"
)

func maxGor1(mg uint64) uint64 {
	if mg < 1 {
		return 1
	}
	return mg
}

// idLsw wraps a lesswap, to identify & perturb the calling goroutines. slow ones yield
// at some calls.
func idLsw(lsw sorty.Lesswap, salt uint64) sorty.Lesswap {
	return func(i, k, r, s int) bool {
		g := touch()
		perturb(g, salt)
		return lsw(i, k, r, s)
	}
}

func perturb(g *gor, salt uint64) {
	x := mix(uint64(g.events)*0x9e37 + uint64(g.id) + salt)
	switch {
	case g.slow == 1 && x&63 == 0, x&1023 == 0:
		runtime.Gosched()
	case g.slow == 2 && x&31 == 0:
		for i := 0; i < 4; i++ {
			runtime.Gosched()
		}
	case g.slow == 3 && x&2047 == 7:
		time.Sleep(time.Duration(x>>40&31) * time.Microsecond)
	}
}

// speeds of goroutines for a case
func pickSpeeds(r *rng) {
	mode := r.n(5)
	salt := r.u64()
	slowOf = func(id int) int {
		switch mode {
		case 0:
			return 0
		case 1:
			return int(mix(salt+uint64(id)) & 3)
		case 2: // early ones slow
			if id < 3 {
				return 3
			}
			return 0
		case 3: // caller fast, others slow
			if id == 0 {
				return 0
			}
			return 2
		}
		return 1
	}
}

var quotaMGs = [...]uint64{0, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 5, 5, 6, 7, 8, 9, 12, 16, 20, 33, 64}

// quotaMG returns a quota, and a length that suffices to use all of it if that is high
func quotaMG(r *rng, n, maxN int, fc bool) (uint64, int) {
	mg := quotaMGs[r.n(len(quotaMGs))]
	if r.p(1, 6) {
		mg = uint64(r.in(2, 12+r.n(50)))
	}
	if t := thresholds()[2]; mg > 7 && (mg < 14 && r.p(1, 3) || r.p(1, 8)) {
		if fc {
			t = thresholds()[3]
		}
		n = min(int(mg)*(t+1)*r.in(2, 9), 8*maxN)
	}
	return mg, n
}

// checkQuota compares observed goroutines to MaxGor
func checkQuota(mg uint64) {
	pk, n := peak()
	if uint64(pk) > maxGor1(mg) {
		viol("%d goroutines worked on the collection at the same time, MaxGor is %s (%d goroutines seen)", pk, mgName(mg), n)
	}
	w.count["goroutines-observed"] += int64(n)
	if pk > 1 {
		w.count["concurrent-calls-observed"]++
	}
	if uint64(pk) == mg {
		w.count["calls-that-reached-quota"]++
	}
}

// now and then an input is large
func pickNl(r *rng, maxN int, fc bool, den int) int {
	if r.p(1, den) {
		return pickLarge(r, maxN, 40*maxN)
	}
	return pickNq(r, maxN, fc)
}

func pickNq(r *rng, maxN int, fc bool) int {
	if minN > 0 || r.p(1, 3) {
		return pickN(r, maxN)
	}
	t := thresholds()[2]
	if fc {
		t = thresholds()[3]
	}
	n := r.in(2*(t+1), 12*(t+1))
	if n > maxN {
		n = r.n(maxN + 1)
	}
	return n
}

// collection sorting with observed goroutines
func quotaColl(name string, maxN int, correct bool) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		n := pickNq(r, maxN, true)
		if r.p(1, 12) {
			n = pickLarge(r, maxN/2, 5*maxN)
		}
		mg, n := quotaMG(r, n, maxN, true)
		rk, m, pat := pattern(r, n)
		c := newColl(r, rk, m)
		before := c.digest()
		noise := pickNoise(r)
		pickSpeeds(r)
		w.describe("%s: %s n=%d pattern=%s MaxGor=%s noise=%d %s", name, c.name, n, pat, mgName(mg), noise, tuneString())
		lsw := idLsw(c.lsw(), r.u64())
		begin(r, mg, noise)
		newEpoch()
		sorty.Sort(n, lsw)
		end()
		checkQuota(mg)
		if correct {
			if msg := c.verify(before); msg != "" {
				viol("%s", msg)
			}
		}
		note(strHash(c.name), mg, rk, longFC(n) && mg > 1)
		w.sample("%s", w.desc)
	}
}

// native sorting with goroutines observed by instrumentation
func quotaCase(name string, ks []*kind, maxN int, correct bool) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		k := ks[r.n(len(ks))]
		n := pickNq(r, maxN, k.fc)
		if r.p(1, 12) {
			n = pickLarge(r, maxN/2, 5*maxN)
		}
		mg, n := quotaMG(r, n, maxN, k.fc)
		rk, m, pat := pattern(r, n)
		noise := pickNoise(r)
		pickSpeeds(r)
		w.describe("%s: %s n=%d pattern=%s MaxGor=%s noise=%d %s", name, k.name, n, pat, mgName(mg), noise, tuneString())
		wt := want{pre: func() { begin(r, mg, noise) }, post: end}
		if msg := k.run(k, r, rk, m, &wt); msg != "" && correct {
			viol("%s", msg)
		}
		checkQuota(mg)
		note(k.id, mg, rk, k.long(n) && mg > 1)
		w.sample("%s", w.desc)
	}
}

func quotaLarge(i int, r *rng) {
	setNaN(r)
	nanDensity = 0
	k := peelKinds()[i%16]
	n := r.in(400000, 1200000)
	mg := uint64(r.in(2, 8))
	rk, m, pat := benignRanks(r, n)
	w.describe("large: %s n=%d pattern=%s MaxGor=%s", k.name, n, pat, mgName(mg))
	wt := want{pre: func() { begin(r, mg, r.n(2)) }, post: end}
	k.run(k, r, rk, m, &wt)
	checkQuota(mg)
	note(k.id, mg, rk, true)
	w.sample("%s", w.desc)
}

var metricGors = []metrics.Sample{{Name: "/sched/goroutines-created:goroutines"}}

// goroutines created since start of process
func created() int64 {
	metrics.Read(metricGors)
	if metricGors[0].Value.Kind() != metrics.KindUint64 {
		return -1
	}
	return int64(metricGors[0].Value.Uint64())
}

func needCreated() bool { return created() >= 0 }

// any kind or collection, prepared for a call
type job struct {
	nans int
	name string
	n    int
	long bool
	id   uint64
	rk   []int
	call func()
	ok   func() string
}

func newJob(r *rng, n int, anyKind bool) *job {
	setNaN(r)
	return newJobPat(r, n, r.n(nPat), anyKind)
}

func newJobPat(r *rng, n, pt int, anyKind bool) *job {
	if r.p(1, 4) || !anyKind {
		rk, m, pat := patternNo(r, n, pt)
		c := newColl(r, rk, m)
		before := c.digest()
		lsw := c.lsw()
		return &job{0, sprintf("%s n=%d pattern=%s", c.name, n, pat), n, longFC(n), strHash(c.name), rk,
			func() { sorty.Sort(n, lsw) }, func() string { return c.verify(before) }}
	}
	k := kinds[r.n(len(kinds))]
	return kindJob(r, k, n, pt)
}

func kindJob(r *rng, k *kind, n, pt int) *job {
	rk, m, pat := patternNo(r, n, pt)
	p := k.build(r, rk, m)
	before := p.digest()
	nans := 0
	for i := 0; i < n && k.grp == "float"; i++ {
		if p.nan(i) {
			nans++
		}
	}
	return &job{nans, sprintf("%s n=%d pattern=%s NaNs=%d", k.name, n, pat, nans), n, k.long(n - nans), k.id, rk,
		func() { doCall(k, p.ar) }, func() string {
			for i := 1; i < n; i++ {
				if p.less(i, i-1) {
					return sprintf("not sorted: element %d is less than element %d (n=%d)", i, i-1, n)
				}
			}
			if p.digest() != before {
				return sprintf("elements changed: result is not a permutation of the input (n=%d)", n)
			}
			return ""
		}}
}

// length just below the concurrency limit, or anything below it
func pickShort(r *rng, lim int) int {
	switch r.n(4) {
	case 0:
		return lim - 1
	case 1:
		return lim - 1 - r.n(5)
	}
	return r.n(lim)
}

// job for about n elements, sometimes floats with NaNs added, which do not count
func shortJob(r *rng, n int) *job {
	if r.p(7, 8) {
		return newJob(r, n, true)
	}
	setNaN(r)
	if nanMode != 0 {
		nanDensity = []int{2, 10, 50, 200, 500, 800}[r.n(6)]
		n += n * nanDensity / (1000 - nanDensity)
		n += r.n(n>>4 + 8)
	}
	fl := grp("float")
	return kindJob(r, fl[r.n(len(fl))], n, r.n(nPat))
}

// C11 with instrumentation
func noGorInst(i int, r *rng) {
	pickTune(r)
	mg := pickMG(r)
	t := thresholds()
	n := 0
	switch r.n(3) {
	case 0:
		n = pickShort(r, 2*(t[3]+1))
	case 1:
		n = pickShort(r, 2*(t[2]+1))
	default:
		n = pickNl(r, 8000, r.p(1, 2), 40)
		if r.p(1, 2) {
			mg = uint64(r.n(2))
		}
	}
	j := shortJob(r, n)
	noise := r.n(3)
	w.describe("events: %s MaxGor=%s noise=%d %s", j.name, mgName(mg), noise, tuneString())
	begin(r, mg, noise)
	j.call()
	end()
	gos, mk := evc[evGo].Load(), evc[evMake].Load()
	allowed := mg > 1 && j.long
	if !allowed && gos != 0 {
		viol("%d goroutines started though MaxGor is %s and the input has %d elements", gos, mgName(mg), n)
	}
	if !allowed && mk != 0 {
		viol("%d channels made though MaxGor is %s and the input has %d elements", mk, mgName(mg), n)
	}
	if mk > 1 {
		viol("%d channels made by a single call", mk)
	}
	if allowed {
		w.count["calls-allowed-to-use-goroutines"]++
	} else {
		w.count["calls-that-must-not-use-goroutines"]++
	}
	w.count["goroutines-started"] += gos
	w.count["channels-made"] += mk
	note(j.id, mg, j.rk, allowed)
	w.sample("%s", w.desc)
}

// C11 without instrumentation
func noGorPlain(i int, r *rng) {
	if i == 0 {
		debug.SetGCPercent(-1)
		runtime.GC()
	}
	if w.evals%200 == 199 {
		runtime.GC()
	}
	pickTune(r)
	mg := pickMG(r)
	t := thresholds()
	s := r.u64()
	var j *job
	allowed := false
	for try := 0; ; try++ { // runtime may start its own goroutines, very rarely
		q := newRng(s)
		n := 0
		switch q.n(3) {
		case 0:
			n = pickShort(q, 2*(t[3]+1))
		case 1:
			n = pickShort(q, 2*(t[2]+1))
		default:
			n = pickNl(q, 8000, q.p(1, 2), 12)
			mg = uint64(q.n(2))
		}
		j = shortJob(q, n)
		allowed = mg > 1 && j.long
		w.describe("metrics: %s MaxGor=%s %s", j.name, mgName(mg), tuneString())
		setMG(mg)
		var a, b runtime.MemStats
		if try == 0 {
			runtime.ReadMemStats(&a)
		}
		c := created()
		j.call()
		d := created() - c
		if try == 0 {
			runtime.ReadMemStats(&b)
		}
		w.count["calls-measured"]++
		if allowed || d == 0 {
			break
		}
		if try == 4 {
			viol("goroutines started though MaxGor is %s and the input has %d elements", mgName(mg), n)
		}
	}
	note(j.id, mg, j.rk, allowed)
	w.sample("%s", w.desc)
}

// many elements, sorted by the caller alone
func noGorLarge(i int, r *rng) {
	n := pickLarge(r, 500000, 3000000)
	mg := uint64(r.n(2))
	k := kinds[(i*5+r.n(5))%len(kinds)]
	setNaN(r)
	nanDensity = min(nanDensity, 50)
	j := kindJob(r, k, n, r.n(4))
	w.describe("metrics-large: %s MaxGor=%s", j.name, mgName(mg))
	setMG(mg)
	for try := 0; ; try++ { // runtime may start its own goroutines, very rarely
		c := created()
		j.call()
		w.count["calls-measured"]++
		if c = created() - c; c == 0 {
			break
		}
		if try == 4 {
			viol("goroutines started though MaxGor is %s", mgName(mg))
		}
	}
	note(j.id, mg, j.rk, false)
	w.sample("%s", w.desc)
}

// C23: work is shared
func sharedCase(i int, r *rng) {
	pickTune(r)
	t := thresholds()
	setNaN(r)
	if nanDensity > 500 { // NaNs are set aside by the caller
		nanDensity = r.n(3)
	}
	k := kinds[r.n(len(kinds))]
	if nanDensity > 0 && r.p(1, 4) {
		fl := grp("float")
		k = fl[r.n(len(fl))]
	}
	lim := 2 * (t[2] + 1)
	if k.fc {
		lim = 2 * (t[3] + 1)
	}
	n := lim + []int{0, 0, 1, 2, 5, r.n(lim), r.n(8 * lim)}[r.n(7)]
	if r.p(1, 30) {
		n = pickLarge(r, 10*lim, 300*lim)
	}
	if nanDensity > 0 && k.grp == "float" {
		n += n*nanDensity/(1000-nanDensity) + r.n(30)
	}
	mg := pickMGm(r)
	j := kindJob(r, k, n, r.n(nPat))
	noise := r.n(2)
	w.describe("shared: %s MaxGor=%s %s", j.name, mgName(mg), tuneString())
	begin(r, mg, noise)
	c := created()
	j.call()
	c = created() - c
	end()
	if j.nans > 0 {
		w.count["cases-with-NaNs"]++
	}
	if n-j.nans < lim {
		return
	}
	if c == 0 {
		viol("a single goroutine did all the work, though MaxGor is %s and the input has %d elements (limit is %d)", mgName(mg), n, lim)
	}
	if hasHook && hk.ident {
		if _, g := peak(); g < 2 {
			viol("only the caller worked on the collection, though MaxGor is %s and the input has %d elements (limit is %d)", mgName(mg), n, lim)
		} else {
			w.count["goroutines-observed"] += int64(g)
		}
	}
	w.count["goroutines-created"] += c
	note(j.id, mg, j.rk, true)
	w.sample("%s", w.desc)
}

// shared for Sort(n, lesswap)
func sharedColl(i int, r *rng) {
	pickTune(r)
	lim := 2 * (thresholds()[3] + 1)
	n := lim + []int{0, 0, 1, 2, 5, r.n(lim), r.n(8 * lim)}[r.n(7)]
	if r.p(1, 40) {
		n = pickLarge(r, 10*lim, 200*lim)
	}
	mg := pickMGm(r)
	setNaN(r)
	rk, m, pat := pattern(r, n)
	c := newColl(r, rk, m)
	pickSpeeds(r)
	w.describe("shared-lesswap: %s n=%d pattern=%s MaxGor=%s %s", c.name, n, pat, mgName(mg), tuneString())
	lsw := idLsw(c.lsw(), r.u64())
	begin(r, mg, 0)
	newEpoch()
	sorty.Sort(n, lsw)
	end()
	_, g := peak()
	if g < 2 {
		viol("only the caller called lesswap, though MaxGor is %s and the collection has %d elements (limit is %d)", mgName(mg), n, lim)
	}
	w.count["goroutines-observed"] += int64(g)
	note(strHash(c.name), mg, rk, true)
	w.sample("%s", w.desc)
}

var fewGors, manyGors = []uint64{2, 3, 4, 5, 6, 7, 8}, []uint64{10, 12, 16, 20, 24}

// quota is reached on large random inputs
func reachCase(ks []*kind, lsws bool, mgs []uint64) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		t := thresholds()
		mg := mgs[i%len(mgs)]
		mul := 250
		if mg > 8 {
			mul = int(40 * mg)
		}
		best := 0
		s := r.u64()
		slowOf = func(id int) int { return 1 }
		for try := 0; try < 6 && best < int(mg); try++ {
			q := newRng(s, uint64(try))
			setNaN(q)
			if lsws {
				n := mul * (t[3] + 1)
				rk, m, _ := patternNo(q, n, 0)
				c := newCollNo(q, rk, m, q.n(3))
				lsw := idLsw(c.lsw(), q.u64())
				w.describe("reach-lesswap: %s n=%d MaxGor=%d %s", c.name, n, mg, tuneString())
				begin(q, mg, 0)
				newEpoch()
				sorty.Sort(n, lsw)
				end()
				note(strHash(c.name), mg, rk, true)
			} else {
				k := ks[i/len(fewGors)%len(ks)]
				if mg > 8 {
					k = ks[i%len(ks)]
				}
				n := mul * (t[2] + 1)
				nanDensity = min(nanDensity, 5)
				rk, m, _ := patternNo(q, n, 2)
				p := k.build(q, rk, m)
				w.describe("reach: %s n=%d MaxGor=%d %s", k.name, n, mg, tuneString())
				begin(q, mg, 1)
				doCall(k, p.ar)
				end()
				note(k.id, mg, rk, true)
			}
			pk, _ := peak()
			if pk > best {
				best = pk
			}
			w.count["calls-observed"]++
		}
		w.count[sprintf("peak-%d-of-%d", best, mg)]++
		if best < int(mg) {
			viol("at most %d goroutines worked at the same time in 6 calls with large random inputs, MaxGor is %d", best, mg)
		}
		w.sample("%s", w.desc)
	}
}

// C23: goroutines are started for very large inputs too
func reachLarge(i int, r *rng) {
	k := peelKinds()[i%16]
	mg := uint64(r.in(2, 8))
	n := r.in(1, 5) * r.in(600000, 1000000)
	setNaN(r)
	nanDensity = min(nanDensity, 5)
	j := kindJob(r, k, n, 2)
	w.describe("reach-large: %s MaxGor=%d", j.name, mg)
	begin(r, mg, 0)
	c := created()
	j.call()
	c = created() - c
	end()
	if c < int64(mg)-1 {
		viol("%d goroutines are started for a large random input, MaxGor is %d", c, mg)
	}
	w.count["goroutines-started"] += c
	note(j.id, mg, j.rk, true)
	w.sample("%s: %d goroutines", w.desc, c)
}

var endsLarge bool

// C12
func endsCase(name string, maxN int) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		n := pickN(r, maxN)
		mg := pickMG(r)
		if r.p(2, 3) {
			n = pickNq(r, maxN, r.p(1, 2))
			mg = quotaMGs[2+r.n(len(quotaMGs)-2)]
		}
		if endsLarge {
			n = pickLarge(r, maxN, 20*maxN)
		}
		noise := pickNoise(r)
		j := newJob(r, n, true)
		w.describe("%s: %s MaxGor=%s noise=%d %s", name, j.name, mgName(mg), noise, tuneString())
		base := runtime.NumGoroutine()
		begin(r, mg, noise)
		hk.budget = int64(4*n*n + 100000)
		j.call()
		returned.Store(hk.budgetOn)
		end()
		settle(base)
		w.count["steps"] += evc[evLoop].Load()
		w.count["goroutines-ended"] += evc[evGo].Load()
		note(j.id, mg, j.rk, j.long && mg > 1)
		w.sample("%s", w.desc)
	}
}

// settle waits for goroutines to end
func settle(base int) {
	if yieldUntil(func() bool { return runtime.NumGoroutine() <= base }, 300) {
		return
	}
	for i := 0; i < 1000; i++ {
		time.Sleep(time.Duration(i+1) * 50 * time.Microsecond)
		if runtime.NumGoroutine() <= base {
			return
		}
	}
	b := make([]byte, 1<<16)
	b = b[:runtime.Stack(b, true)]
	viol("%d goroutines are left over long after the call returned:\n%s", runtime.NumGoroutine()-base, b)
}

// C12 through lesswap: slow & perturbed goroutines, collection closed after return
func endsColl(name string, maxN int) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		n := pickNq(r, maxN, true)
		rk, m, pat := pattern(r, n)
		mg := quotaMGs[2+r.n(len(quotaMGs)-2)]
		c := newColl(r, rk, m)
		pickSpeeds(r)
		w.describe("%s: %s n=%d pattern=%s MaxGor=%s %s", name, c.name, n, pat, mgName(mg), tuneString())
		lsw := idLsw(c.lsw(), r.u64())
		var open atomic.Bool
		var calls atomic.Int64
		lim := int64(4*n*n + 10000)
		hk.budget = int64(4*n*n + 100000)
		f := func(i, k, r, s int) bool {
			if !open.Load() {
				viol("lesswap is called after Sort returned")
			}
			if calls.Add(1) > lim {
				viol("no end after %d lesswap calls", lim)
			}
			return lsw(i, k, r, s)
		}
		base := runtime.NumGoroutine()
		begin(r, mg, pickNoise(r))
		newEpoch()
		open.Store(true)
		sorty.Sort(n, f)
		open.Store(false)
		end()
		settle(base)
		_, g := peak()
		w.count["goroutines-observed"] += int64(g)
		w.count["lesswap-calls"] += calls.Load()
		note(strHash(c.name), mg, rk, longFC(n) && mg > 1)
		w.sample("%s", w.desc)
	}
}

func init() {
	props["C10"] = func() {
		switch w.variant {
		case "plain":
			each("lesswap", 12000, quotaColl("lesswap", 8000, false))
		case "inst":
			hk.sched, hk.ident = true, identOK
			each("native", 14000, quotaCase("native", kinds, 9000, false))
			each("native-large", 48, quotaLarge)
			each("native-long", 500, quotaCase("native-long", kinds, 60000, false))
		case "tune":
			each("tuned-lesswap", 25000, quotaColl("tuned-lesswap", 1500, false))
		case "tuneinst":
			hk.sched, hk.ident = true, identOK
			each("tuned", 14000, quotaCase("tuned", kinds, 1500, false))
		}
	}
	props["C11"] = func() {
		switch w.variant {
		case "plain":
			each("metrics", 12000, noGorPlain)
			each("metrics-large", 24, noGorLarge)
		case "inst":
			each("events", 16000, noGorInst)
		case "tuneinst":
			each("tuned-events", 16000, noGorInst)
		}
	}
	props["C12"] = func() {
		switch w.variant {
		case "plain":
			each("census", 12000, endsCase("census", 6000))
			each("census-large", 24, func(i int, r *rng) {
				endsLarge = true
				endsCase("census-large", 100000)(i, r)
				endsLarge = false
			})
			each("lesswap", 6000, endsColl("lesswap", 8000))
		case "inst":
			hk.sched, hk.budgetOn = true, true
			each("steps", 12000, endsCase("steps", 6000))
		case "tuneinst":
			hk.sched, hk.budgetOn = true, true
			each("tuned-steps", 12000, endsCase("tuned-steps", 1500))
			each("tuned-lesswap", 6000, endsColl("tuned-lesswap", 1500))
		case "race": // another instruction timing
			each("race-timing", 1500, endsCase("race-timing", 5000))
		}
	}
	props["C23"] = func() {
		switch w.variant {
		case "plain":
			each("shared", 8000, sharedCase)
			each("shared-lesswap", 4000, sharedColl)
			each("reach-lesswap", 84, reachCase(nil, true, fewGors))
			each("reach-lesswap-many", 12, reachCase(nil, true, manyGors))
			if needCreated() {
				each("reach-large", 24, reachLarge)
			}
		case "tune":
			each("tuned-shared", 12000, sharedCase)
			each("tuned-shared-lesswap", 8000, sharedColl)
		case "inst":
			hk.sched, hk.ident, hk.identAll = true, identOK, true
			each("shared", 6000, sharedCase)
			each("reach", 7*len(kinds), reachCase(kinds, false, fewGors))
			each("reach-many", len(kinds), reachCase(kinds, false, manyGors))
		}
	}
}
