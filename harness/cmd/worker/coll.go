package main

import (
	"math"

	"github.com/jfcg/sorty/v2"
)

// coll is a collection sorted through Sort(n, lesswap)
type coll struct {
	name   string
	n      int
	less   func(i, k int) bool
	swap   func(i, k int)
	digest func() [2]uint64
	data   any // slice to overwrite after return, may be nil
}

func (c *coll) lsw() sorty.Lesswap {
	less, swap := c.less, c.swap
	return func(i, k, r, s int) bool {
		if less(i, k) {
			if r != s {
				swap(r, s)
			}
			return true
		}
		return false
	}
}

type rec struct {
	a, b int
	id   uint64
}

func recDigest(s []rec) (g [2]uint64) {
	for _, x := range s {
		h := mix(mix(uint64(x.a)+digA)+uint64(x.b)) ^ mix(x.id*3+1)
		g[0] += mix(h)
		g[1] += mix(h ^ digB)
	}
	return
}

const nColl = 11

func newColl(r *rng, rk []int, m int) *coll { return newCollNo(r, rk, m, r.n(nColl)) }

func newCollNo(r *rng, rk []int, m, no int) *coll {
	n := len(rk)
	recs := make([]rec, n)
	for i, x := range rk {
		recs[i] = rec{x, r.n(4), uint64(i)}
	}
	c := &coll{n: n, data: recs, digest: func() [2]uint64 { return recDigest(recs) },
		swap: func(i, k int) { recs[i], recs[k] = recs[k], recs[i] }}
	switch no {
	case 0:
		c.name = "records ascending"
		c.less = func(i, k int) bool { return recs[i].a < recs[k].a }
	case 1:
		c.name = "records descending"
		c.less = func(i, k int) bool { return recs[i].a > recs[k].a }
	case 2:
		c.name = "parallel arrays"
		ks, ids := make([]int, n), make([]uint64, n)
		for i := range recs {
			ks[i], ids[i] = recs[i].a, recs[i].id
		}
		c.data = ks
		c.less = func(i, k int) bool { return ks[i] < ks[k] }
		c.swap = func(i, k int) { ks[i], ks[k] = ks[k], ks[i]; ids[i], ids[k] = ids[k], ids[i] }
		c.digest = func() (g [2]uint64) {
			for i := range ks {
				h := mix(uint64(ks[i])+digA) ^ mix(ids[i]*3+1)
				g[0] += mix(h)
				g[1] += mix(h ^ digB)
			}
			return
		}
	case 3:
		c.name = "all equivalent"
		c.less = func(i, k int) bool { return false }
	case 4:
		c.name = "two keys, second descending"
		c.less = func(i, k int) bool {
			x, y := &recs[i], &recs[k]
			return x.a/3 < y.a/3 || x.a/3 == y.a/3 && x.b > y.b
		}
	case 5:
		c.name = "residue classes"
		c.less = func(i, k int) bool { return recs[i].a%7 < recs[k].a%7 }
	case 6:
		c.name = "strings ignoring case"
		ss := make([]string, n)
		v := strVals(r, m)
		for i, x := range rk {
			ss[i] = v[x]
		}
		low := func(b byte) byte {
			if 'A' <= b && b <= 'Z' {
				b += 32
			}
			return b
		}
		c.data = ss
		c.less = func(i, k int) bool {
			a, b := ss[i], ss[k]
			for j := 0; j < len(a) && j < len(b); j++ {
				if x, y := low(a[j]), low(b[j]); x != y {
					return x < y
				}
			}
			return len(a) < len(b)
		}
		c.swap = func(i, k int) { ss[i], ss[k] = ss[k], ss[i] }
		c.digest = func() (g [2]uint64) {
			for _, s := range ss {
				x, y := strBits(s)
				h := mix(x) ^ mix(y+7)
				g[0] += mix(h)
				g[1] += mix(h ^ digB)
			}
			return
		}
	case 7:
		c.name = "floats with NaNs large"
		fs := make([]float64, n)
		for i, x := range rk {
			fs[i] = float64(x) - float64(m/2)
			if r.p(1, 10) {
				fs[i] = math.Float64frombits(0x7ff8000000000000 + uint64(i))
			}
		}
		c.data = fs
		c.less = func(i, k int) bool {
			x, y := fs[i], fs[k]
			return x < y || x == x && y != y
		}
		c.swap = func(i, k int) { fs[i], fs[k] = fs[k], fs[i] }
		c.digest = func() (g [2]uint64) {
			for _, x := range fs {
				g[0] += mix(math.Float64bits(x) + digA)
				g[1] += mix(math.Float64bits(x) ^ digB)
			}
			return
		}
	case 8:
		c.name = "matrix columns"
		var mt [3][]int
		for j := range mt {
			mt[j] = make([]int, n)
			for i := range rk {
				mt[j][i] = []int{rk[i], i, -rk[i]}[j]
			}
		}
		c.data = mt[0]
		c.less = func(i, k int) bool { return mt[0][i] < mt[0][k] }
		c.swap = func(i, k int) {
			for j := range mt {
				mt[j][i], mt[j][k] = mt[j][k], mt[j][i]
			}
		}
		c.digest = func() (g [2]uint64) {
			for i := range mt[0] {
				h := mix(uint64(mt[0][i])) ^ mix(uint64(mt[1][i])+5) ^ mix(uint64(mt[2][i])+11)
				g[0] += mix(h)
				g[1] += mix(h ^ digB)
			}
			return
		}
	case 9:
		c.name = "index into keys, descending"
		idx := make([]int, n)
		for i := range idx {
			idx[i] = i
		}
		keys := append([]int(nil), rk...)
		c.data = idx
		c.less = func(i, k int) bool { return keys[idx[i]] > keys[idx[k]] }
		c.swap = func(i, k int) { idx[i], idx[k] = idx[k], idx[i] }
		c.digest = func() (g [2]uint64) {
			for _, x := range idx {
				g[0] += mix(uint64(x) + digA)
				g[1] += mix(uint64(x) ^ digB)
			}
			return
		}
	default:
		k := kinds[r.n(len(kinds))]
		c.name = "native " + k.name
		p := k.build(r, rk, m)
		c.less, c.swap, c.digest, c.data = p.less, p.swap, p.digest, nil
	}
	return c
}

func (c *coll) verify(before [2]uint64) string {
	for i := 1; i < c.n; i++ {
		if c.less(i, i-1) {
			return sprintf("not sorted: element %d is less than element %d (n=%d)", i, i-1, c.n)
		}
	}
	if c.digest() != before {
		return sprintf("elements changed: result is not a permutation of the input (n=%d)", c.n)
	}
	return ""
}
