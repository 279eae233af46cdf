package main

import (
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"unsafe"

	"github.com/jfcg/sorty/v2"
)

// C22: objects reachable only through the elements, while garbage is collected & freed
// memory is overwritten (GODEBUG=clobberfree=1).

const magic = 0x5ca1ab1e0ddba11

type obj struct {
	id, sum uint64
	next    *obj // second object, reachable through this one
}

func (o *obj) set(id uint64) {
	o.id, o.sum = id, mix(id+magic)
}

func (o *obj) ok() bool { return o != nil && o.sum == mix(o.id+magic) }

type gcCase struct {
	name  string
	fc    bool
	byLen bool
	// make returns the slice, its check (id multiset digest of intact objects, ok) and
	// a lesswap
	mk func(r *rng, n int) (ar any, chk func() (uint64, int), lsw sorty.Lesswap)
}

func body(r *rng, id uint64) string {
	b := make([]byte, 8+r.n(30))
	for i := range b {
		b[i] = byte(mix(id+uint64(i)) >> 11)
	}
	for i := 0; i < 8; i++ {
		b[i] = byte(id >> (8 * (7 - i)))
	}
	return unsafe.String(&b[0], len(b))
}

func bodyOK(b []byte) (id uint64, ok bool) {
	if len(b) < 8 {
		return 0, false
	}
	for i := 0; i < 8; i++ {
		id = id<<8 | uint64(b[i])
	}
	for i := 8; i < len(b); i++ {
		if b[i] != byte(mix(id+uint64(i))>>11) {
			return id, false
		}
	}
	return id, true
}

func lswOf[T any](s []T, less func(a, b *T) bool) sorty.Lesswap {
	return func(i, k, r, t int) bool {
		if less(&s[i], &s[k]) {
			if r != t {
				s[r], s[t] = s[t], s[r]
			}
			return true
		}
		return false
	}
}

func gather[T any](s []T, f func(x *T) (uint64, bool)) (g uint64, bad int) {
	for i := range s {
		id, ok := f(&s[i])
		if !ok {
			bad++
		}
		g += mix(id + 99)
	}
	return
}

var garbage [16]any

func litter(r *rng, i int) {
	if i&7 == 0 {
		garbage[r.n(16)] = make([]byte, 16+r.n(100))
	}
}

var gcCases = []gcCase{
	{"[]*obj", true, false, func(r *rng, n int) (any, func() (uint64, int), sorty.Lesswap) {
		s := make([]*obj, n)
		for i := range s {
			s[i] = new(obj)
			s[i].set(r.u64())
			s[i].next = new(obj)
			s[i].next.set(s[i].id)
			litter(r, i)
		}
		return s, func() (uint64, int) {
			return gather(s, func(x **obj) (uint64, bool) { o := *x; return o.id, o.ok() && o.next.ok() && o.next.id == o.id })
		}, lswOf(s, func(a, b **obj) bool { return (*a).id < (*b).id })
	}},
	{"[]unsafe.Pointer", true, false, func(r *rng, n int) (any, func() (uint64, int), sorty.Lesswap) {
		s := make([]unsafe.Pointer, n)
		for i := range s {
			o := new(obj)
			o.set(r.u64())
			o.next = new(obj)
			o.next.set(o.id)
			s[i] = unsafe.Pointer(o)
			litter(r, i)
		}
		return s, func() (uint64, int) {
			return gather(s, func(x *unsafe.Pointer) (uint64, bool) {
				o := (*obj)(*x)
				return o.id, o.ok() && o.next.ok() && o.next.id == o.id
			})
		}, nil
	}},
	{"[]string", true, false, func(r *rng, n int) (any, func() (uint64, int), sorty.Lesswap) {
		s := make([]string, n)
		for i := range s {
			s[i] = body(r, r.u64())
			litter(r, i)
		}
		return s, func() (uint64, int) {
			return gather(s, func(x *string) (uint64, bool) { return bodyOK([]byte(*x)) })
		}, lswOf(s, func(a, b *string) bool { return len(*a) < len(*b) })
	}},
	{"[][]byte", true, false, func(r *rng, n int) (any, func() (uint64, int), sorty.Lesswap) {
		s := make([][]byte, n)
		for i := range s {
			s[i] = []byte(body(r, r.u64()))
			litter(r, i)
		}
		return s, func() (uint64, int) { return gather(s, func(x *[]byte) (uint64, bool) { return bodyOK(*x) }) }, nil
	}},
	{"[]string by length", false, true, func(r *rng, n int) (any, func() (uint64, int), sorty.Lesswap) {
		s := make([]string, n)
		for i := range s {
			s[i] = body(r, r.u64())
			litter(r, i)
		}
		return s, func() (uint64, int) {
			return gather(s, func(x *string) (uint64, bool) { return bodyOK([]byte(*x)) })
		}, nil
	}},
	{"[][]byte by length", false, true, func(r *rng, n int) (any, func() (uint64, int), sorty.Lesswap) {
		s := make([][]byte, n)
		for i := range s {
			s[i] = []byte(body(r, r.u64()))
			litter(r, i)
		}
		return s, func() (uint64, int) { return gather(s, func(x *[]byte) (uint64, bool) { return bodyOK(*x) }) }, nil
	}},
	{"[][]*obj by length", false, true, func(r *rng, n int) (any, func() (uint64, int), sorty.Lesswap) {
		s := make([][]*obj, n)
		for i := range s {
			s[i] = make([]*obj, 1+r.n(6))
			id := r.u64()
			for j := range s[i] {
				s[i][j] = new(obj)
				s[i][j].set(id)
			}
			litter(r, i)
		}
		return s, func() (uint64, int) {
			return gather(s, func(x *[]*obj) (uint64, bool) {
				if len(*x) == 0 {
					return 0, false
				}
				id := (*x)[0].id
				for _, o := range *x {
					if !o.ok() || o.id != id {
						return id, false
					}
				}
				return id, true
			})
		}, nil
	}},
	{"[][]string by length", false, true, func(r *rng, n int) (any, func() (uint64, int), sorty.Lesswap) {
		s := make([][]string, n)
		for i := range s {
			s[i] = make([]string, 1+r.n(5))
			id := r.u64()
			for j := range s[i] {
				s[i][j] = body(r, id)
			}
			litter(r, i)
		}
		return s, func() (uint64, int) {
			return gather(s, func(x *[]string) (uint64, bool) {
				if len(*x) == 0 {
					return 0, false
				}
				id, _ := bodyOK([]byte((*x)[0]))
				for _, o := range *x {
					if k, ok := bodyOK([]byte(o)); !ok || k != id {
						return id, false
					}
				}
				return id, true
			})
		}, nil
	}},
	{"[]any through lesswap", true, false, func(r *rng, n int) (any, func() (uint64, int), sorty.Lesswap) {
		s := make([]any, n)
		for i := range s {
			o := new(obj)
			o.set(r.u64())
			s[i] = o
			litter(r, i)
		}
		return nil, func() (uint64, int) {
			return gather(s, func(x *any) (uint64, bool) { o := (*x).(*obj); return o.id, o.ok() })
		}, lswOf(s, func(a, b *any) bool { return (*a).(*obj).id < (*b).(*obj).id })
	}},
}

// collect garbage all the time during a call
func gcRun(name string, lo, hi int) func(i int, r *rng) {
	return func(i int, r *rng) {
		pickTune(r)
		g := &gcCases[i%len(gcCases)]
		n := r.in(lo, hi)
		mg := uint64([]int{0, 1, 2, 3, 4, 8}[r.n(6)])
		noise := 0
		if r.p(1, 3) {
			noise = pickNoise(r)
		}
		w.describe("%s: %s n=%d MaxGor=%s noise=%d %s", name, g.name, n, mgName(mg), noise, tuneString())
		debug.SetGCPercent(-1)
		ar, chk, lsw := g.mk(r, n)
		before, bad := chk()
		if bad != 0 {
			harness2("bad objects before sorting")
		}
		var stop atomic.Bool
		fin := make(chan int)
		ready := make(chan int)
		churn := r.n(3)
		go func() {
			c := 0
			close(ready)
			for {
				runtime.GC()
				c++
				if stop.Load() {
					break
				}
				if churn == 1 { // reuse freed memory right away
					for i := 0; i < 2000; i++ {
						garbage[i&15] = new(obj)
						garbage[i*7&15] = make([]byte, 8+i%40)
					}
				}
			}
			fin <- c
		}()
		<-ready
		for k := r.n(4); k > 0; k-- { // different phases of a collection cycle
			runtime.Gosched()
			spin(r.n(20000))
		}
		begin(r, mg, noise)
		reps := 1
		if n < 50000 {
			reps = 4
		}
		for x := 0; x < reps; x++ {
			switch {
			case lsw != nil && (ar == nil || (i/len(gcCases)+x)%3 == 2):
				sorty.Sort(n, lsw)
			case g.byLen:
				sorty.SortLen(ar)
			default:
				sorty.SortSlice(ar)
			}
		}
		end()
		stop.Store(true)
		w.count["gc-cycles-during-calls"] += int64(<-fin)
		runtime.GC()
		if after, bad := chk(); bad != 0 || after != before {
			viol("%d of %d elements refer to lost or damaged objects after sorting (%s)", bad, n, g.name)
		}
		w.count["objects-checked"] += int64(n)
		w.seen(true, strHash(g.name), mg, before)
		w.sample("%s", w.desc)
		runtime.KeepAlive(ar)
	}
}

func harness2(format string, a ...any) { panic("HARNESS " + sprintf(format, a...)) }

func init() {
	props["C22"] = func() {
		switch w.variant {
		case "plain":
			each("gc", 900, gcRun("gc", 5000, 60000))
			each("gc-large", 36, gcRun("gc-large", 100000, 400000))
		case "inst":
			each("gc-schedules", 500, gcRun("gc-schedules", 3000, 30000))
		case "tune":
			each("tuned-gc", 900, gcRun("tuned-gc", 1000, 20000))
		}
	}
}
