package main

import (
	"reflect"
	"runtime"
	"time"
	"unsafe"
	"weak"

	"github.com/jfcg/sorty/v2"
)

// C24: calls leave no state behind. Settings are only read, a panic or exit in a user
// function passes through and has no consequence later, nothing is kept reachable.

type settings struct {
	mg  uint64
	nan int
	th  [4]int
}

func readSettings() settings {
	return settings{sorty.MaxGor, int(sorty.NaNoption), thresholds()}
}

func (s *settings) check(after string) {
	if x := readSettings(); x != *s {
		viol("settings {MaxGor NaNoption MaxLen*} are %v after %s, they were %v", x, after, *s)
	}
	w.count["settings-compared"]++
}

// token is the value of a panic, its identity must survive
type token struct{ id uint64 }

const (
	byPanic = iota
	byError
	byExit
)

// outcome of a call that is left by a panic or exit at the at'th call of a user function
type leaver struct {
	at, n int
	how   int
	tok   *token
	left  bool
}

func (l *leaver) step() {
	l.n++
	if l.n != l.at {
		return
	}
	l.left = true
	switch l.how {
	case byPanic:
		panic(l.tok)
	case byError: // an ordinary run time error
		var m map[token]int
		m[*l.tok] = 1
	case byExit:
		runtime.Goexit()
	}
}

// leave makes a call in its own goroutine and checks how it ends
func (l *leaver) leave(what string, call func()) {
	var val any
	ended, panicked := false, false
	done := make(chan int)
	go func() {
		defer close(done)
		defer func() {
			if !ended {
				val = recover()
				panicked = val != nil
			}
		}()
		call()
		ended = true
	}()
	<-done
	if !l.left {
		if !ended {
			viol("%s ends abnormally (%v) though user function does not", what, val)
		}
		return
	}
	w.count["abandoned-calls"]++
	if ended {
		viol("%s returns normally though user function is left by a panic or exit in its call %d", what, l.at)
	}
	switch l.how {
	case byPanic:
		if t, ok := val.(*token); !ok || t != l.tok {
			viol("%s: panic value of user function is %p, %v arrives", what, l.tok, val)
		}
	case byError:
		if _, ok := val.(runtime.Error); !ok {
			viol("%s: run time error of user function arrives as %v", what, val)
		}
	case byExit:
		if panicked {
			viol("%s: exit in user function arrives as panic %v", what, val)
		}
	}
}

// abandon runs a call that is left from inside of a user function
func abandon(r *rng, maxN int) {
	l := &leaver{how: r.n(3), tok: &token{r.u64()}}
	switch r.n(4) {
	case 0: // Search
		n := r.n(maxN)
		k := r.n(n + 1)
		l.at = r.in(1, 12)
		w.describe("abandon: Search n=%d k=%d at=%d how=%d", n, k, l.at, l.how)
		l.leave("Search", func() {
			if got := sorty.Search(n, func(i int) bool { l.step(); return i >= k }); got != k {
				viol("Search returns %d, not %d", got, k)
			}
		})
		w.seen(l.left, 1, uint64(n), uint64(k), uint64(l.at), uint64(l.how))
	case 1: // IsSorted
		n := r.n(300)
		rk, m, pat := issRanks(r, n)
		c := newColl(r, rk, m)
		before := c.digest()
		l.at = r.in(1, n+1)
		lsw := c.lsw()
		w.describe("abandon: IsSorted %s n=%d pattern=%s at=%d how=%d", c.name, n, pat, l.at, l.how)
		l.leave("IsSorted", func() {
			checkIss(sorty.IsSorted(n, func(i, k, r, s int) bool { l.step(); return lsw(i, k, r, s) }), n, c.less, nil)
		})
		if c.digest() != before {
			viol("collection is modified")
		}
		w.seen(l.left, 2, ranksHash(rk), uint64(l.at), uint64(l.how))
	default: // Sort in a single goroutine
		n := pickN(r, maxN)
		mg := sorty.MaxGor
		if longFC(n) {
			sorty.MaxGor = uint64(r.n(2))
		}
		set := readSettings()
		rk, m, pat := pattern(r, n)
		c := newColl(r, rk, m)
		before := c.digest()
		l.at = 1 + r.n(1+r.n(1+int(nlog(n)*2)))
		lsw := c.lsw()
		w.describe("abandon: Sort %s n=%d pattern=%s at=%d how=%d MaxGor=%s %s", c.name, n, pat, l.at, l.how, mgName(sorty.MaxGor), tuneString())
		l.leave("Sort", func() {
			sorty.Sort(n, func(i, k, r, s int) bool { l.step(); return lsw(i, k, r, s) })
		})
		set.check("an abandoned Sort")
		sorty.MaxGor = mg
		if c.digest() != before {
			viol("elements changed: collection is not a permutation after lesswap was left in its call %d", l.at)
		}
		if r.p(1, 2) || !l.left { // call again
			if l.left {
				sorty.Sort(n, lsw)
			}
			if msg := c.verify(before); msg != "" {
				viol("after an abandoned call: %s", msg)
			}
		}
		w.seen(l.left && n > 1, 3, ranksHash(rk), uint64(l.at), uint64(l.how), strHash(c.name))
	}
	w.sample("%s", w.desc)
}

func abandonCase(maxN int) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		setMG(pickMG(r))
		set := readSettings()
		base := runtime.NumGoroutine()
		abandon(r, maxN)
		set.check("an abandoned call")
		settle(base)
	}
}

// badCall makes a call that must panic
func badCall(r *rng) {
	args := []any{nil, 5, "text", []int8{3, 2, 1}, []uint16{3, 1}, [3]int{3, 2, 1}, []bool{true, false}, map[int]int{}, &[]int{2, 1}, []any{2, 1}, [][]int{{1, 2}, {3}}}
	a := args[r.n(len(args))]
	defer func() {
		if recover() == nil {
			viol("SortSlice accepts %T", a)
		}
	}()
	if r.p(1, 2) {
		sorty.IsSortedSlice(a)
	} else {
		sorty.SortSlice(a)
	}
}

// a sequence of different calls under changing settings
func historyCase(maxN int) func(i int, r *rng) {
	return func(i int, r *rng) {
		steps := r.in(4, 12)
		base := runtime.NumGoroutine()
		h := uint64(0)
		for x := 0; x < steps; x++ {
			pickTune(r)
			setNaN(r)
			setMG(pickMG(r))
			set := readSettings()
			what := ""
			switch y := r.n(9); y {
			case 0:
				abandon(r, maxN)
				what = "an abandoned call"
			case 1:
				w.describe("history: step %d, bad argument", x)
				badCall(r)
				what = "a bad argument"
			case 2:
				n := r.n(maxN)
				k := r.n(n + 1)
				w.describe("history: step %d, Search n=%d k=%d", x, n, k)
				if got := sorty.Search(n, func(i int) bool { return i >= k }); got != k {
					viol("Search returns %d, not %d", got, k)
				}
				what = "Search"
			default:
				j := newJob(r, pickNq(r, maxN, r.p(1, 2)), true)
				set = readSettings() // NaNoption is drawn again
				noise := pickNoise(r)
				w.describe("history: step %d, %s MaxGor=%s noise=%d NaN=%d/%d %s", x, j.name, mgName(sorty.MaxGor), noise, nanMode, nanDensity, tuneString())
				begin(r, sorty.MaxGor, noise)
				if hasHook { // not even for a while
					hk.onLoop = func(int64) {
						if x := readSettings(); x != set {
							viol("settings {MaxGor NaNoption MaxLen*} are %v during a call, they were %v before it", x, set)
						}
					}
				}
				j.call()
				end()
				hk.onLoop = nil
				if msg := j.ok(); msg != "" {
					viol("%s", msg)
				}
				what = "a Sort* call"
				h = mix(h + ranksHash(j.rk) + j.id)
			}
			h = mix(h*3 + strHash(what))
			set.check(what)
			w.count["history-steps"]++
		}
		settle(base)
		w.seen(true, h)
	}
}

// againCase sorts the same slice several times, changed a little or a lot in between, other
// calls may come in between
func againCase(maxN int) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		var k *kind
		var p probe
		var c *coll
		n := pickNq(r, maxN, r.p(1, 2))
		name, pat := "", ""
		var h uint64
		if r.p(1, 5) {
			rk, m, pt := pattern(r, n)
			c = newColl(r, rk, m)
			name, pat, h = c.name, pt, ranksHash(rk)
		} else {
			k = kinds[r.n(len(kinds))]
			rk, m, pt := pattern(r, n)
			p = k.build(r, rk, m)
			name, pat, h = k.name, pt, ranksHash(rk)
		}
		swap := func(a, b int) {
			if c != nil {
				c.swap(a, b)
			} else {
				p.swap(a, b)
			}
		}
		before := [2]uint64{}
		if c != nil {
			before = c.digest()
		} else {
			before = p.digest()
		}
		lo, hi := 0, n // whole or part
		steps := r.in(2, 6)
		for x := 0; x < steps; x++ {
			mg, noise := pickMG(r), pickNoise(r)
			how := "unchanged"
			if x > 0 && n > 1 {
				switch r.n(5) {
				case 0:
				case 1:
					how = "a pair swapped"
					a, b := r.n(n), r.n(n)
					swap(a, b)
				case 2:
					how = "neighbours swapped"
					a := r.in(1, n-1)
					swap(a, a-1)
				case 3:
					how = "reversed"
					for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
						swap(a, b)
					}
				default:
					how = "some swapped"
					for y := r.n(40); y > 0; y-- {
						swap(r.n(n), r.n(n))
					}
				}
			}
			if c == nil && r.p(1, 4) && n > 0 {
				lo = r.n(n)
				hi = lo + r.n(n-lo) + 1
			} else {
				lo, hi = 0, n
			}
			w.describe("again: %s [%d:%d] of n=%d pattern=%s, %s before call %d, MaxGor=%s noise=%d NaN=%d/%d %s", name, lo, hi, n, pat, how, x, mgName(mg), noise, nanMode, nanDensity, tuneString())
			q := p
			if hi-lo < n {
				q = p.sub(lo, hi)
			}
			begin(r, mg, noise)
			if c != nil {
				sorty.Sort(n, c.lsw())
			} else {
				doCall(k, q.ar)
			}
			end()
			if c != nil {
				if msg := c.verify(before); msg != "" {
					viol("%s", msg)
				}
			} else {
				for y := 1; y < hi-lo; y++ {
					if q.less(y, y-1) {
						viol("not sorted: element %d is less than element %d (n=%d) in call %d on the same slice", y, y-1, hi-lo, x+1)
					}
				}
				if p.digest() != before {
					viol("elements changed: result is not a permutation of the input (n=%d) in call %d on the same slice", n, x+1)
				}
			}
			w.count["repeated-calls"]++
			if r.p(1, 4) {
				abandon(r, 500)
			}
		}
		w.seen(n > 1, strHash(name), h, uint64(steps))
		w.sample("%s", w.desc)
	}
}

// held is what must become unreachable after a call
type held struct {
	what string
	p    weak.Pointer[byte]
}

func hold(what string, p *byte) held { return held{what, weak.Make(p)} }

func holdSlice(ar any) []held {
	v := reflect.ValueOf(ar)
	if v.Len() == 0 || v.Type().Elem().Size()*uintptr(v.Len()) < 64 {
		return nil
	}
	return []held{hold("collection", (*byte)(v.Index(0).Addr().UnsafePointer()))}
}

var zeros [64]byte

type ctx200 struct {
	calls int
	pad   [200]byte
}

// retainRun makes a call and returns weak references to what it was given
//
//go:noinline
func retainRun(r *rng, maxN, what int) (hs []held) {
	n := pickNq(r, maxN, r.p(1, 2))
	mg := pickMG(r)
	noise := pickNoise(r)
	var run func()
	name := ""
	switch what {
	case 0, 1: // slices
		k := kinds[r.n(len(kinds))]
		rk, m, pat := pattern(r, n)
		p := k.build(r, rk, m)
		hs = holdSlice(p.ar)
		name = sprintf("%s n=%d pattern=%s", k.name, n, pat)
		run = func() { doCall(k, p.ar) }
		if what == 1 {
			name = "is-sorted " + name
			run = func() { isSorted(k, p.ar) }
		}
		w.seen(n > 1, k.id, mg, ranksHash(rk), uint64(what))
	case 2: // objects of elements
		g := &gcCases[r.n(len(gcCases))]
		ar, _, lsw := g.mk(r, n)
		name = sprintf("objects %s n=%d", g.name, n)
		if ar != nil {
			hs = holdSlice(ar)
			switch s := ar.(type) {
			case []*obj:
				for i := range s {
					hs = append(hs, hold("an element", (*byte)(reflect.ValueOf(s[i]).UnsafePointer())))
				}
			case []string: // an object for each, not a tiny one
				for i := range s {
					s[i] = string(append([]byte(s[i]), zeros[:24+r.n(8)]...))
					hs = append(hs, hold("an element", unsafe.StringData(s[i])))
				}
			case [][]byte:
				for i := range s {
					s[i] = append(append(make([]byte, 0, len(s[i])+32), s[i]...), zeros[:24+r.n(8)]...)
					hs = append(hs, hold("an element", &s[i][0]))
				}
			}
		}
		run = func() {
			switch {
			case ar == nil:
				sorty.Sort(n, lsw)
			case g.byLen:
				sorty.SortLen(ar)
			default:
				sorty.SortSlice(ar)
			}
		}
		w.seen(n > 1, strHash(g.name), mg, uint64(n), r.u64())
	default: // lesswap & what it refers to
		rk, m, pat := pattern(r, n)
		c := newColl(r, rk, m)
		x := new(ctx200)
		lsw := c.lsw()
		f := func(i, k, r, s int) bool {
			x.pad[i&127] = 1
			return lsw(i, k, r, s)
		}
		if c.data != nil {
			hs = holdSlice(c.data)
		}
		hs = append(hs, hold("memory of lesswap", &x.pad[0]))
		name = sprintf("lesswap %s n=%d pattern=%s", c.name, n, pat)
		run = func() { sorty.Sort(n, f) }
		if what == 4 {
			name = "is-sorted " + name
			run = func() { sorty.IsSorted(n, f) }
		}
		w.seen(n > 1, strHash(c.name), mg, ranksHash(rk), uint64(what))
	}
	w.describe("retained: %s MaxGor=%s noise=%d %s", name, mgName(mg), noise, tuneString())
	begin(r, mg, noise)
	run()
	end()
	return
}

func retainCase(maxN int) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		setNaN(r)
		base := runtime.NumGoroutine()
		var hs []held
		for x := r.in(3, 8); x > 0; x-- {
			hs = append(hs, retainRun(r, maxN, r.n(5))...)
		}
		settle(base)
		left := ""
		for try := 0; try < 12; try++ {
			runtime.GC()
			left = ""
			for x := range hs {
				if hs[x].p.Value() != nil {
					left = hs[x].what
					break
				}
			}
			if left == "" {
				break
			}
			time.Sleep(time.Duration(try*try) * time.Millisecond)
		}
		w.count["references-checked"] += int64(len(hs))
		if left != "" {
			viol("%s is kept reachable after calls returned", left)
		}
		w.sample("%s", w.desc)
	}
}

func init() {
	props["C24"] = func() {
		switch w.variant {
		case "plain":
			each("abandoned", 20000, abandonCase(4000))
			each("history", 1500, historyCase(5000))
			each("again", 9000, againCase(5000))
			each("retained", 1200, retainCase(4000))
			each("abandoned-large", 64, largeN(40000, abandonCase(300000)))
			each("again-large", 64, largeN(40000, againCase(300000)))
			each("retained-large", 16, largeN(20000, retainCase(200000)))
		case "inst":
			hk.sched = true
			each("history-schedules", 700, historyCase(4000))
			each("again-schedules", 2500, againCase(4000))
			each("retained-schedules", 500, retainCase(3000))
		case "tune":
			each("tuned-abandoned", 16000, abandonCase(1200))
			each("tuned-history", 2500, historyCase(1200))
			each("tuned-again", 8000, againCase(1200))
			each("tuned-retained", 800, retainCase(1000))
		}
	}
}
