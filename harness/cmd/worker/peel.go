package main

// lswPeeler builds an input for Sort(n, lsw) whose partitions peel off only a few elements,
// or just over the shortest length of recursion. If halves, first partition is even &
// both halves are so. Models the algorithm, it is a workload only.
func lswPeeler(n int, peelIns, peelRec, halves bool) []int {
	const gasL, gasR = 1 << 29, 1 << 30
	p := &peel{make([]int, n), make([]int, n)}
	for i := range p.ar {
		p.ar[i], p.val[i] = i, gasL
	}
	if !halves || n < 16 {
		p.run(0, n-1, gasL, 0, peelIns, peelRec)
		return p.val
	}
	first, step := sampling(n, 7)
	b := first + 3*step
	for i := b; i < n; i++ {
		p.val[i] = gasR
	}
	nl, nr := 0, gasL+1
	for i := 0; i < 7; i++ {
		if id := first + i*step; i < 3 {
			p.val[id] = nl
			nl++
		} else {
			p.val[id] = nr
			nr++
		}
	}
	pv := p.pivot(0, n-1, 7)
	k := p.part((1+pv)/2+1, pv, (pv+n-2)/2-1)
	p.run(0, k-1, gasL, nl, peelIns, peelRec)
	p.run(k, n-1, gasR, nr, peelIns, peelRec)
	for i, v := range p.val { // compact
		if v > gasL {
			p.val[i] = v - gasL + n
		}
	}
	return p.val
}

type peel struct{ ar, val []int }

func (p *peel) lsw(i, k, r, s int) bool {
	if p.val[p.ar[i]] < p.val[p.ar[k]] {
		if r != s {
			p.ar[r], p.ar[s] = p.ar[s], p.ar[r]
		}
		return true
	}
	return false
}

func (p *peel) run(lo, hi, gas, next int, peelIns, peelRec bool) {
	t := thresholds()
	ins, rec := t[1], t[3]
	isSample := map[int]bool{}
	from := lo
	to := hi
	give := func(pos int) {
		if p.val[p.ar[pos]] == gas {
			p.val[p.ar[pos]] = next
			next++
		}
	}
	for hi-lo+1 > ins {
		k, more := 3, 0
		if hi-lo+1 > rec {
			k = 5
			if peelRec {
				more = rec + 2
			}
		} else if peelIns {
			more = ins + 2
		}
		if 2*more >= hi-lo {
			more = 0
		}
		first, step := sampling(hi+1-lo, k)
		first += lo
		clear(isSample)
		for i := 0; i < k; i++ {
			isSample[first+i*step] = true
		}
		if more > 0 {
			for i := lo; i <= hi; i++ {
				if p.val[p.ar[i]] != gas && !isSample[i] {
					more--
				}
			}
			for i := lo; more > 0 && i <= hi; i++ {
				if p.val[p.ar[i]] == gas && !isSample[i] {
					give(i)
					more--
				}
			}
		}
		for i := 0; i < k; i++ {
			give(first + i*step)
		}
		pv := p.pivot(lo, hi, k)
		l := p.part(lo+1, pv, hi-1)
		if l <= lo || l > hi {
			break
		}
		if l-lo < hi+1-l {
			lo = l
		} else {
			hi = l - 1
		}
	}
	for i := from; i <= to; i++ {
		give(i)
	}
}

func (p *peel) pivot(lo, hi, n int) int {
	first, step := sampling(hi+1-lo, n)
	first += lo
	last := first + (n-1)*step
	if n == 3 {
		pv := first + step
		p.lsw(pv, first, pv, first)
		if p.lsw(last, pv, last, pv) {
			p.lsw(pv, first, pv, first)
		}
	} else {
		for h := first + step; h <= last; h += step {
			for l := h; p.lsw(l, l-step, l, l-step); {
				l -= step
				if l <= first {
					break
				}
			}
		}
	}
	p.lsw(first, lo, first, lo)
	p.lsw(hi, last, hi, last)
	return (first + last) / 2
}

func (p *peel) part(l, pv, h int) int {
	for ; l < h; l, h = l+1, h-1 {
		if p.lsw(h, pv, h, h) {
			for !p.lsw(pv, l, h, l) {
				l++
				if l >= h {
					return l + 1
				}
			}
		} else if p.lsw(pv, l, l, l) {
			for {
				h--
				if l >= h {
					return l
				}
				if p.lsw(h, pv, h, l) {
					break
				}
			}
		}
	}
	if l == h && h != pv && p.lsw(h, pv, h, h) {
		l++
	}
	return l
}
