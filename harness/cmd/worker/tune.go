package main

// pickTune sets random feasible parameters (tunable builds only), biased to small ones
// so that short inputs reach concurrent sorting.
func pickTune(r *rng) {
	if !tunable {
		return
	}
	insFC := r.in(9, 12)
	ins := insFC + r.n(4)
	if r.p(1, 4) {
		insFC, ins = 9, 9 // as set by the tuning procedure, one value for both
	}
	recFC := 2*ins + 1 + r.n(8)
	rec := recFC + r.n(6)
	if r.p(1, 6) {
		insFC = r.in(9, 80)
		ins = insFC + r.n(60)
		recFC = 2*ins + 1 + r.n(300)
		rec = recFC + r.n(300)
	}
	if r.p(1, 20) {
		insFC, ins, recFC, rec = 9, 200, 401, 1000
	}
	if r.p(1, 40) { // large ones, also very different for function calling comparisons
		insFC = r.in(9, 1+9<<uint(r.n(8)))
		ins = insFC + r.n(1<<uint(r.n(10)))
		recFC = 2*ins + 1 + r.n(1<<uint(r.n(10)))
		rec = recFC + r.n(1<<uint(r.n(12)))
	}
	if longRanges {
		insFC = r.in(9, 9<<uint(r.n(6)))
		ins = insFC + r.n(1<<uint(r.n(9)))
		recFC = 2*ins + 1 + r.n(1<<uint(r.n(17)))
		rec = recFC + r.n(1<<uint(r.in(8, 18)))
		if r.p(1, 4) {
			rec = max(rec, 1<<uint(r.in(12, 18))+r.in(-2, 3))
		}
	}
	tune(ins, insFC, rec, recFC)
}

// whether to set maximum lengths much larger than defaults
var longRanges bool

// longRanged modifies a case
func longRanged(f func(i int, r *rng)) func(i int, r *rng) {
	return func(i int, r *rng) {
		longRanges = true
		hk.budget = 4e9
		f(i, r)
		longRanges = false
	}
}

func tuneString() string {
	t := thresholds()
	return sprintf("MaxLenIns=%d MaxLenInsFC=%d MaxLenRec=%d MaxLenRecFC=%d", t[0], t[1], t[2], t[3])
}
