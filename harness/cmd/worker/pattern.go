package main

import (
	"fmt"
	"math/bits"

	"github.com/jfcg/sorty/v2"
)

// length thresholds of the build, read at run time (variables with tuneparam)
func thresholds() [4]int {
	return [4]int{int(sorty.MaxLenIns), int(sorty.MaxLenInsFC), int(sorty.MaxLenRec), int(sorty.MaxLenRecFC)}
}

// pickN selects a length, interesting ones near the thresholds most of the time.
func pickN(r *rng, max int) int {
	if minN > 0 && max > minN {
		return pickLarge(r, minN, max)
	}
	if r.p(1, 150) { // far larger now and then
		return pickLarge(r, max, 20*max)
	}
	t := thresholds()
	n := 0
	switch x := r.n(100); {
	case x < 8:
		n = r.n(13)
	case x < 30:
		n = t[r.n(4)] + r.in(-3, 4)
	case x < 50:
		n = 2*(t[2+r.n(2)]+1) + r.in(-4, 6)
	case x < 62:
		n = r.in(2, 8)*(t[2+r.n(2)]+1) + r.in(-3, 3)
	case x < 75:
		n = r.n(2*t[2] + 2)
	case x < 96:
		n = r.n(6*t[2] + 2)
	default:
		n = r.n(max + 1)
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = max
	}
	return n
}

var (
	maxGors = [...]uint64{0, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 16}
	rareMGs = [...]uint64{12, 15, 17, 20, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 258, 1000, 4096, 32768, 65535, 65536, 65537, 1 << 20,
		1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 3, 1 << 40, 1<<63 - 1, 1 << 63, 1<<63 + 1, ^uint64(0) - 1, ^uint64(0)}
)

func pickMG(r *rng) uint64 {
	if r.p(1, 7) {
		return pickMGm(r)
	}
	return maxGors[r.n(len(maxGors))]
}

// multi-goroutine MaxGor
func pickMGm(r *rng) uint64 {
	if r.p(1, 4) {
		return rareMGs[r.n(len(rareMGs))]
	}
	return maxGors[2+r.n(len(maxGors)-2)]
}

// length of the last arrangement, bounds lengths of its strings
var lastN int

const nPat = 28

// pattern returns n ranks in [0,m).
func pattern(r *rng, n int) (rk []int, m int, name string) {
	return patternNo(r, n, r.n(nPat))
}

func patternNo(r *rng, n, pat int) (rk []int, m int, name string) {
	lastN = n
	rk = make([]int, n)
	m = n
	if m < 1 {
		m = 1
	}
	switch pat {
	case 0, 1:
		name = "random"
		for i := range rk {
			rk[i] = r.n(m)
		}
	case 2:
		name = "permutation"
		for i := range rk {
			rk[i] = i
		}
		shuffle(r, rk)
	case 3, 4:
		m = []int{1, 2, 2, 3, 3, 4, 5, 7, 16}[r.n(9)]
		name = fmt.Sprint("few-", m)
		for i := range rk {
			rk[i] = r.n(m)
		}
	case 5:
		name = "ascending"
		for i := range rk {
			rk[i] = i
		}
	case 6:
		name = "descending"
		for i := range rk {
			rk[i] = n - 1 - i
		}
	case 7:
		name = "organ-pipe"
		for i := range rk {
			rk[i] = min(i, n-1-i)
		}
	case 8:
		name = "v-shape"
		for i := range rk {
			rk[i] = max(i, n-1-i)
		}
	case 9:
		k := r.in(2, 20)
		name = fmt.Sprint("sawtooth-", k)
		for i := range rk {
			rk[i] = i % k * (n/k + 1) % m
		}
	case 10:
		k := r.in(1, 8)
		name = fmt.Sprint("swaps-", k)
		for i := range rk {
			rk[i] = i
		}
		for ; k > 0 && n > 1; k-- {
			i, j := r.n(n), r.n(n)
			rk[i], rk[j] = rk[j], rk[i]
		}
	case 11:
		m = 3
		name = "outlier"
		for i := range rk {
			rk[i] = 1
		}
		if n > 0 {
			rk[r.n(n)] = 2 * r.n(2)
		}
	case 12:
		k := 0
		if n > 0 {
			k = r.n(n)
		}
		name = "rotated"
		for i := range rk {
			rk[i] = (i + k) % m
		}
	case 13, 14, 15:
		// zones of low/high values with random densities, forces partition gaps
		z := []int{4, 4, 8, 3, 5}[r.n(5)]
		den := make([]int, z)
		for i := range den {
			den[i] = []int{0, 0, 1, 10, 50, 90, 99, 100, 100}[r.n(9)]
		}
		h := []int{1, 2, 50, m/2 + 1}[r.n(4)]
		name = fmt.Sprint("zones-", den, "-", h)
		m = 2 * h
		for i := range rk {
			rk[i] = r.n(h)
			if r.n(100) < den[i*z/n] {
				rk[i] += h
			}
		}
	case 16:
		name = "ascending-tail"
		k := r.in(1, 10)
		for i := range rk {
			if i < n-k {
				rk[i] = i
			} else {
				rk[i] = r.n(m)
			}
		}
	case 17:
		name = "interleaved"
		for i := range rk {
			if i&1 == 0 {
				rk[i] = i / 2
			} else {
				rk[i] = n - 1 - i/2
			}
		}
	case 18:
		name = "runs"
		k := r.in(2, 40)
		b := r.n(m)
		for i := range rk {
			if i%k == 0 {
				b = r.n(m)
			}
			rk[i] = min(b+i%k, m-1)
		}
	case 19:
		name = "skewed"
		for i := range rk {
			x := r.n(m)
			for k := r.n(20); k > 0; k-- {
				x = x * 2 / 3
			}
			rk[i] = x
		}
	case 20:
		name = "killer"
		k := n
		if k > 4000 {
			k = 4000
		}
		q := killer(k, r.p(1, 2), r.p(1, 2))
		copy(rk, q)
		for i := k; i < n; i++ {
			rk[i] = r.n(m)
		}
	case 22:
		k := r.in(2, 5)
		name = fmt.Sprint("sorted-runs-", k)
		l := n/k + 1
		for i := range rk {
			rk[i] = i % l * k % m
		}
	case 23:
		// ascending blocks in another order
		k := r.in(2, 9)
		name = fmt.Sprint("blocks-", k)
		l := n/k + 1
		o := perm(r, k)
		for i := range rk {
			rk[i] = min(o[i/l]*l+i%l, m-1)
		}
	case 24:
		name = "bit-reversal"
		b := bits.Len(uint(n))
		for i := range rk {
			rk[i] = int(bits.Reverse32(uint32(i))>>(32-uint(b))) % m
		}
	case 25:
		name = "alternating"
		for i := range rk {
			rk[i] = i / 2
			if i&1 != 0 {
				rk[i] = m - 1 - i/2
			}
		}
		if r.p(1, 2) {
			m = 2
			for i := range rk {
				rk[i] = i & 1
			}
		}
	case 26:
		// descending with a constant part
		name = "descending-plateau"
		a, b := r.n(n+1), r.n(n+1)
		for i := range rk {
			rk[i] = n - 1 - i
			if a <= i && i < b {
				rk[i] = n - 1 - a
			}
		}
	case 27:
		// neighbours out of order only
		d := r.in(1, 9)
		name = fmt.Sprint("near-", d)
		for i := range rk {
			rk[i] = i
		}
		for i := 0; i+d < n; i++ {
			if j := i + r.n(d+1); j < n {
				rk[i], rk[j] = rk[j], rk[i]
			}
		}
	case 21:
		// mostly one value, some others anywhere
		name = "dominant"
		m = r.in(2, 6)
		d := r.n(m)
		q := r.in(1, 30)
		for i := range rk {
			rk[i] = d
			if r.n(100) < q {
				rk[i] = r.n(m)
			}
		}
	}
	return
}

func shuffle(r *rng, a []int) {
	for i := len(a) - 1; i > 0; i-- {
		j := r.n(i + 1)
		a[i], a[j] = a[j], a[i]
	}
}

// large inputs only
var minN int

func largeN(n int, f func(i int, r *rng)) func(i int, r *rng) {
	return func(i int, r *rng) {
		minN = n
		f(i, r)
		minN = 0
	}
}

// killer builds a permutation that makes a samples based quicksort (equidistant
// samples, two-way partition from both ends) peel off only a few elements per partition.
// mean: pivot is the mean of middle two samples, else the middle sample.
// It is a workload only, no oracle depends on it.
func killer(n int, mean, fc bool) []int { return peeler(n, mean, fc, false, false, nil) }

// peeler: partitions peel off just over MaxLenIns elements (ins) or MaxLenRec elements (rec)
// of short and long ranges respectively, so that peeled part is recursed on. Given
// positions have the smallest values.
func peeler(n int, mean, fc, peelIns, peelRec bool, small []int) []int {
	const gas = 1 << 30
	t := thresholds()
	ins, rec := t[0], t[2]
	if fc {
		ins, rec = t[1], t[3]
	}
	isSample := map[int]bool{}
	val := make([]int, n)
	ar := make([]int, n)
	for i := range ar {
		ar[i] = i
		val[i] = gas
	}
	next := 0
	for _, id := range small {
		val[id] = next
		next++
	}
	for len(ar) > ins {
		k := 3
		if mean {
			k = 4
		}
		if len(ar) > rec {
			k += 2
		}
		first, step := sampling(len(ar), k)
		sm := make([]int, k)
		more := 0
		if len(ar) > rec {
			if peelRec {
				more = rec + 1
			}
		} else if peelIns {
			more = ins + 1
		}
		if 2*more >= len(ar) {
			more = 0
		}
		if more > 0 {
			clear(isSample)
			for i := range sm {
				isSample[first+i*step] = true
			}
			for i, id := range ar {
				if val[id] != gas && !isSample[i] {
					more--
				}
			}
			for i := 0; more > 0 && i < len(ar); i++ {
				if val[ar[i]] == gas && !isSample[i] {
					val[ar[i]] = next
					next++
					more--
				}
			}
		}
		for i := range sm {
			id := ar[first+i*step]
			if val[id] == gas {
				val[id] = next
				next++
			}
			sm[i] = val[id]
		}
		for i := 1; i < k; i++ {
			for j := i; j > 0 && sm[j] < sm[j-1]; j-- {
				sm[j], sm[j-1] = sm[j-1], sm[j]
			}
		}
		pv := sm[k/2]
		if mean {
			pv = (sm[k/2-1] + sm[k/2]) / 2
		}
		c := modelPart(ar, val, pv)
		if c <= 0 || c >= len(ar) {
			break
		}
		if c < len(ar)-c {
			ar = ar[c:]
		} else {
			ar = ar[:c]
		}
	}
	for _, id := range ar {
		if val[id] == gas {
			val[id] = next
			next++
		}
	}
	for i := range val { // ranges left out
		if val[i] == gas {
			val[i] = next
			next++
		}
	}
	return val
}

func sampling(slen, n int) (first, step int) {
	step = slen / n
	n--
	span := n * step
	tail := slen - span
	if tail > n && tail>>1 > (step+1)>>1 {
		step++
		tail -= n
	}
	return tail >> 1, step
}

func modelPart(ar, val []int, pv int) int {
	l, h := 0, len(ar)-1
	for l < h {
		switch {
		case pv <= val[ar[h]] && pv < val[ar[l]]:
			for {
				h--
				if h <= l {
					return l
				}
				if val[ar[h]] <= pv {
					break
				}
			}
			ar[l], ar[h] = ar[h], ar[l]
		case pv <= val[ar[h]]:
		default:
			for pv > val[ar[l]] {
				l++
				if h <= l {
					return l + 1
				}
			}
			ar[l], ar[h] = ar[h], ar[l]
		}
		l++
		h--
	}
	if l == h && val[ar[h]] < pv {
		l++
	}
	return l
}

func perm(r *rng, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	shuffle(r, p)
	return p
}

// lengths of large inputs, around powers of two as well
func pickLarge(r *rng, lo, hi int) int {
	if r.p(1, 3) {
		for try := 0; try < 20; try++ {
			if n := 1<<uint(r.in(10, 24)) + r.in(-2, 3); lo <= n && n <= hi {
				return n
			}
		}
	}
	x := lo // smaller ones more frequently
	for span := hi - lo; span > 0 && r.p(2, 3); {
		span /= 2
		x += r.n(span + 1)
	}
	return min(x, hi)
}

// MaxGor of large inputs
func pickMGl(r *rng) uint64 {
	if r.p(1, 3) {
		return uint64(r.n(2))
	}
	return pickMGm(r)
}
