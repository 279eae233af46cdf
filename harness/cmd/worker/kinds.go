package main

import (
	"encoding/json"
	"math"
	"math/bits"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/jfcg/sorty/v2"
)

// what to verify around a sort call
type want struct {
	canary bool // surround with canary slots
	call   func(k *kind, ar any)
	pre    func() // right before the call
	post   func() // right after the call
	wipe   bool   // move contents away and clear the slots right after the call
}

// kind is an element kind together with the API that sorts it.
type kind struct {
	name string
	id   uint64
	len  bool // SortLen
	fc   bool // thresholds for function calling comparisons (strings, pointers)
	grp  string
	// run builds a slice from ranks, sorts it and returns a problem or ""
	run func(k *kind, r *rng, rk []int, m int, w *want) string
	// probe builds a slice, for checks of their own
	build func(r *rng, rk []int, m int) probe
}

// probe gives type erased access to a built slice
type probe struct {
	ar     any
	n      int
	less   func(i, k int) bool // reference order
	swap   func(i, k int)
	digest func() [2]uint64     // multiset digest
	seq    func() uint64        // sequence digest
	sub    func(a, b int) probe // sub-slice
	nan    func(i int) bool     // is it a NaN?
}

type def[T any] struct {
	vals  func(r *rng, m int) []T // m values, non-decreasing by less
	less  func(a, b T) bool
	bits  func(a T) (uint64, uint64)
	fresh func(r *rng, v T) T // clone with another identity
	wrap  func(s []T) any
	nan   func(a T) bool
}

func doCall(k *kind, ar any) {
	if k.len {
		sorty.SortLen(ar)
	} else {
		sorty.SortSlice(ar)
	}
}

func isSorted(k *kind, ar any) int {
	if k.len {
		return sorty.IsSortedLen(ar)
	}
	return sorty.IsSortedSlice(ar)
}

var kinds []*kind

const digA, digB = 0x1234567deadbeef1, 0x7777aaaa5555cccd

func elemHash[T any](d *def[T], a T) (uint64, uint64) {
	x, y := d.bits(a)
	return mix(mix(x^digA) + y), mix(mix(x+digB)*3 ^ mix(y))
}

func digest[T any](d *def[T], s []T) (g [2]uint64) {
	for _, a := range s {
		x, y := elemHash(d, a)
		g[0] += x
		g[1] += y
	}
	return
}

func reg[T any](name, grp string, byLen, fc bool, d def[T]) {
	if d.fresh == nil {
		d.fresh = func(_ *rng, v T) T { return v }
	}
	if d.wrap == nil {
		d.wrap = func(s []T) any { return s }
	}
	k := &kind{name: name, id: strHash(name), len: byLen, fc: fc, grp: grp}
	fill := func(r *rng, rk []int, m int, dst []T) {
		v := d.vals(r, m)
		for i, x := range rk {
			dst[i] = d.fresh(r, v[x])
		}
	}
	k.run = func(k *kind, r *rng, rk []int, m int, w *want) string {
		n := len(rk)
		pre, post := 0, 0
		if w.canary {
			pre, post = r.in(1, 4), r.in(1, 4)
		}
		buf := make([]T, pre+n+post)
		fill(r, rk, m, buf[pre:pre+n])
		if w.canary {
			// out of order canaries: largest before, smallest after
			c := d.vals(r, 5)
			for i := 0; i < pre; i++ {
				buf[i] = d.fresh(r, c[4-i%2])
			}
			for i := 0; i < post; i++ {
				buf[pre+n+i] = d.fresh(r, c[i%2])
			}
		}
		s := buf[pre : pre+n]
		var can []T
		if w.canary {
			can = append(append(can, buf[:pre]...), buf[pre+n:]...)
		}
		before := digest(&d, s)
		ar := d.wrap(s)
		if w.pre != nil {
			w.pre()
		}
		if w.call != nil {
			w.call(k, ar)
		} else {
			doCall(k, ar)
		}
		if w.post != nil {
			w.post()
		}
		if w.wipe {
			s = append(make([]T, 0, n), s...)
			clear(buf[pre : pre+n])
		}
		for i := 1; i < n; i++ {
			if d.less(s[i], s[i-1]) {
				return sprintf("not sorted: element %d is less than element %d (n=%d)", i, i-1, n)
			}
		}
		if digest(&d, s) != before {
			return sprintf("elements changed: result is not a permutation of the input (n=%d)", n)
		}
		if w.canary {
			for i := range can {
				j := i
				if i >= pre {
					j += n
				}
				a, b := d.bits(can[i])
				x, y := d.bits(buf[j])
				if a != x || b != y {
					return sprintf("slot %d outside of the slice [%d,%d) changed", j, pre, pre+n)
				}
			}
		}
		return ""
	}
	var mk func(s []T) probe
	mk = func(s []T) probe {
		return probe{ar: d.wrap(s), n: len(s),
			less:   func(i, k int) bool { return d.less(s[i], s[k]) },
			swap:   func(i, k int) { s[i], s[k] = s[k], s[i] },
			digest: func() [2]uint64 { return digest(&d, s) },
			seq: func() (h uint64) {
				for i, a := range s {
					x, _ := elemHash(&d, a)
					h += mix(x + uint64(i)*digB)
				}
				return
			},
			sub: func(a, b int) probe { return mk(s[a:b]) },
			nan: func(i int) bool { return d.nan != nil && d.nan(s[i]) },
		}
	}
	k.build = func(r *rng, rk []int, m int) probe {
		s := make([]T, len(rk))
		fill(r, rk, m, s)
		return mk(s)
	}
	kinds = append(kinds, k)
}

type integer interface {
	~int | ~int32 | ~int64 | ~uint | ~uint32 | ~uint64 | ~uintptr
}

func intVals[T integer](r *rng, m int) []T {
	v := make([]T, m)
	bts := uint(unsafe.Sizeof(v[0]) * 8)
	var zero T
	signed := zero-1 < zero
	lo := zero // smallest
	if signed {
		lo = T(1) << (bts - 1)
	}
	hi := lo - 1 // largest
	switch r.n(8) {
	case 6: // two far away groups
		d := T(r.u64())
		for i := range v {
			v[i] = T(r.n(5))
			if r.p(1, 2) {
				v[i] += d
			}
		}
	case 7: // both ends
		for i := range v {
			v[i] = lo + T(r.n(m))
			if r.p(1, 2) {
				v[i] = hi - T(r.n(m))
			}
		}
	case 0: // consecutive from some base
		b := T(r.u64())
		if r.p(1, 2) {
			b = lo
		}
		if r.p(1, 4) {
			b = hi - T(m) + 1
		}
		for i := range v {
			v[i] = b + T(i)
		}
	case 1: // random
		for i := range v {
			v[i] = T(r.u64())
		}
	case 2: // near the ends and zero
		for i := range v {
			x := T(r.n(4))
			switch r.n(4) {
			case 0:
				v[i] = lo + x
			case 1:
				v[i] = hi - x
			case 2:
				v[i] = x
			case 3:
				v[i] = 0 - x
			}
		}
	case 3: // powers of two
		for i := range v {
			v[i] = T(1) << uint(r.n(int(bts)))
			v[i] += T(r.n(3)) - 1
			if r.p(1, 2) {
				v[i] = 0 - v[i]
			}
		}
	case 4: // consecutive around zero
		for i := range v {
			v[i] = T(i) - T(m/2)
		}
	case 5: // same high part or same low part
		sh := uint(r.n(int(bts)))
		for i := range v {
			v[i] = T(r.u64()) << sh
		}
	}
	sort.Slice(v, func(i, k int) bool { return v[i] < v[k] })
	return v
}

func intDef[T integer](wrap func([]T) any) def[T] {
	return def[T]{vals: intVals[T], less: func(a, b T) bool { return a < b },
		bits: func(a T) (uint64, uint64) { return uint64(a), 0 }, wrap: wrap}
}

// NaN placement in use: -1 small, 0 ignore (no NaNs generated), 1 large
var nanMode = 1

type float interface{ ~float32 | ~float64 }

func isNaN[T float](a T) bool { return a != a }

func floatLess[T float](a, b T) bool {
	an, bn := isNaN(a), isNaN(b)
	if an || bn {
		if nanMode > 0 {
			return !an && bn
		}
		return an && !bn
	}
	return a < b
}

func fBits[T float](a T) uint64 {
	if unsafe.Sizeof(a) == 4 {
		return uint64(*(*uint32)(unsafe.Pointer(&a)))
	}
	return *(*uint64)(unsafe.Pointer(&a))
}

func fFrom[T float](b uint64) (a T) {
	if unsafe.Sizeof(a) == 4 {
		*(*uint32)(unsafe.Pointer(&a)) = uint32(b)
	} else {
		*(*uint64)(unsafe.Pointer(&a)) = b
	}
	return
}

// random NaN, quiet or signaling, any payload and sign
func nanOf[T float](r *rng) T {
	var a T
	b := r.u64()
	if r.p(1, 2) {
		b &= 1 << 63 // few payload bits
		b |= 1 << 31
		b |= uint64(r.n(3)) + 1
	}
	if unsafe.Sizeof(a) == 4 {
		x := uint32(b)&0x807fffff | 0x7f800000
		if x&0x7fffff == 0 {
			x |= 1 << 22
		}
		return fFrom[T](uint64(x))
	}
	x := b&0x800fffffffffffff | 0x7ff0000000000000
	if x&0xfffffffffffff == 0 {
		x |= 1 << 51
	}
	return fFrom[T](x)
}

func floatVals[T float](r *rng, m int) []T {
	v := make([]T, m)
	inf := T(math.Inf(1))
	var zero T
	mode := r.n(8)
	huge := fFrom[T](uint64(1)<<(unsafe.Sizeof(inf)*8-1) - 1 - uint64(1)<<map[uintptr]uint{4: 23, 8: 52}[unsafe.Sizeof(inf)]) // largest finite
	base := T(math.Ldexp(1, r.in(-100, 100)))
	for i := range v {
		switch mode {
		case 5: // largest ones, sums & differences overflow
			v[i] = fFrom[T](fBits(huge) - uint64(r.n(4)))
			if r.p(1, 2) {
				v[i] = -v[i]
			}
		case 6: // neighbours
			v[i] = fFrom[T](fBits(base) + uint64(i))
		case 7: // nearly all are infinite or zero
			if x := r.n(20); x < 10 {
				v[i] = inf
			} else if x < 18 {
				v[i] = -inf
			} else {
				v[i] = T(x) - 18
			}
		case 0:
			v[i] = T(i) - T(m/2)
		case 1:
			v[i] = fFrom[T](r.u64())
		case 2:
			v[i] = []T{inf, -inf, 0, fFrom[T](1), -fFrom[T](1), 1, -1, -zero}[r.n(8)]
		case 3:
			v[i] = T(int64(r.u64())) / T(float64(uint64(1)<<62))
		case 4: // subnormals
			v[i] = fFrom[T](uint64(r.n(1 << 12)))
			if r.p(1, 2) {
				v[i] = -v[i]
			}
		}
		if isNaN(v[i]) {
			v[i] = T(i)
		}
	}
	sort.Slice(v, func(i, k int) bool { return v[i] < v[k] })
	return v
}

// density of NaNs in 1/1000, set per case
var nanDensity int

func floatDef[T float](wrap func([]T) any) def[T] {
	return def[T]{vals: floatVals[T], less: floatLess[T], nan: isNaN[T],
		bits: func(a T) (uint64, uint64) { return fBits(a), 0 }, wrap: wrap,
		fresh: func(r *rng, v T) T {
			if nanMode != 0 && nanDensity > 0 && r.n(1000) < nanDensity {
				return nanOf[T](r)
			}
			if v == 0 && r.p(1, 2) {
				return -v
			}
			return v
		}}
}

// whether to have strings with very long common prefixes only
var longStrings bool

func strVals(r *rng, m int) []string {
	v := make([]string, m)
	mode := r.n(11)
	pre := ""
	if longStrings {
		mode = []int{2, 5, 10}[r.n(3)]
	}
	if mode == 2 || mode == 5 || mode == 10 {
		l := []int{0, 1, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129}[r.n(20)]
		if m <= 4000 && r.p(1, 4) {
			l = []int{254, 255, 256, 257, 511, 512, 513, 600}[r.n(8)]
		}
		if m <= 300 && r.p(1, 4) {
			l = []int{1000, 1023, 1024, 1025, 4095, 4096, 5000, 65535, 65536}[r.n(9)]
		}
		if longStrings {
			l = 1<<uint(r.in(16, 23)) + r.in(-20, 20)
			l = min(l, 64<<20/(lastN+1))
		} else {
			l = min(l, 10000000/(lastN+1))
		}
		pre = strings.Repeat(string([]byte{byte(r.n(256))}), l)
	}
	rb := func(n int, al string) string {
		b := make([]byte, n)
		for i := range b {
			if al != "" {
				b[i] = al[r.n(len(al))]
			} else {
				b[i] = byte(r.u64())
			}
		}
		return string(b)
	}
	shared := ""
	if mode == 8 || mode == 9 {
		shared = rb(r.in(1, 200), []string{"ab", "a", "", "\x00\x01", "\xff\xfe\x00"}[r.n(5)])
	}
	for i := range v {
		switch mode {
		case 0:
			v[i] = rb(r.n(6), "\x00a\xff")
		case 1:
			v[i] = rb(r.n(20), "")
		case 2:
			v[i] = pre + rb(r.n(4), "ab\x00\xff")
		case 3:
			v[i] = rb(12, "")
		case 4:
			v[i] = strings.Repeat("a", i%100)
		case 5:
			l := len(pre) + 5
			v[i] = (pre + "xyzw")[:r.n(l)]
			if l > 200 {
				v[i] = (pre + "xyzw")[:l-1-r.n(9)]
			}
		case 6:
			v[i] = rb(r.in(0, 3), "\x7f\x80\x81") // signedness of bytes
		case 7: // UTF-8 & mixed case
			v[i] = []string{"", "a", "A", "b", "B", "z", "Z", "\u00e9", "\u4e16\u754c", "\U0001F600", "\xed\xa0\x80", " "}[r.n(12)] + rb(r.n(3), "aZ\xc3\xa9")
		case 8: // parts of one string
			a := r.n(len(shared))
			v[i] = shared[a : a+r.n(len(shared)-a+1)]
		case 9: // prefixes or suffixes of one string
			if v[i] = shared[:r.n(len(shared)+1)]; i&1 == 0 {
				v[i] = shared[r.n(len(shared)+1):]
			}
		case 10: // same except a byte
			b := []byte(pre + "endofstring")
			for c := r.n(3); c > 0; c-- {
				b[r.n(len(b))] += byte(r.n(3))
			}
			v[i] = string(b)
		}
	}
	sort.Slice(v, func(i, k int) bool { return bytesLess(v[i], v[k]) })
	return v
}

// contents without a copy
func asStr[E ~byte](a []E) string {
	return unsafe.String((*byte)(unsafe.Pointer(unsafe.SliceData(a))), len(a))
}

// independent lexicographic order
func bytesLess(a, b string) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	i := 0
	for ; i+32 <= n; i += 32 { // skip a common part
		x := *(*[32]byte)(unsafe.Add(unsafe.Pointer(unsafe.StringData(a)), i))
		y := *(*[32]byte)(unsafe.Add(unsafe.Pointer(unsafe.StringData(b)), i))
		if x != y {
			break
		}
	}
	for ; i < n; i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func strBits[T ~string](a T) (uint64, uint64) {
	return uint64(uintptr(unsafe.Pointer(unsafe.StringData(string(a))))), uint64(len(a))
}

func cloneStr(r *rng, s string) string {
	if r.p(1, 3) || len(s) > 2000 && !r.p(1, 40) {
		return s
	}
	return string(append(make([]byte, 0, len(s)+1), s...))
}

func slcBits[T any](a []T) (uint64, uint64) {
	return uint64(uintptr(unsafe.Pointer(unsafe.SliceData(a)))), uint64(len(a))<<32 ^ uint64(cap(a))
}

func toBytes(r *rng, s string) []byte {
	if len(s) == 0 {
		if r.p(1, 3) {
			return nil
		}
		return make([]byte, 0, r.n(3))
	}
	return append(make([]byte, 0, len(s)+r.n(4)), s...)
}

func bytesDef[T ~[]byte](wrap func([]T) any) def[T] {
	return def[T]{
		vals: func(r *rng, m int) []T {
			s := strVals(r, m)
			v := make([]T, m)
			for i := range v {
				v[i] = T(toBytes(r, s[i]))
			}
			return v
		},
		less: func(a, b T) bool { return bytesLess(asStr(a), asStr(b)) },
		bits: func(a T) (uint64, uint64) { return slcBits([]byte(a)) },
		fresh: func(r *rng, v T) T {
			if r.p(1, 3) || len(v) > 2000 && !r.p(1, 40) {
				return v
			}
			return T(toBytes(r, string(v)))
		}, wrap: wrap}
}

func strDef[T ~string](wrap func([]T) any) def[T] {
	return def[T]{
		vals: func(r *rng, m int) []T {
			s := strVals(r, m)
			v := make([]T, m)
			for i := range v {
				v[i] = T(s[i])
			}
			return v
		},
		less:  func(a, b T) bool { return bytesLess(string(a), string(b)) },
		bits:  strBits[T],
		fresh: func(r *rng, v T) T { return T(cloneStr(r, string(v))) }, wrap: wrap}
}

type node struct {
	a, b uint64
	p    *node
}

func ptrDef[T any](conv func(p *node) T, back func(T) unsafe.Pointer, wrap func([]T) any) def[T] {
	return def[T]{
		vals: func(r *rng, m int) []T {
			blk := make([]node, m/2+1)
			v := make([]T, m)
			for i := range v {
				if r.p(1, 2) {
					v[i] = conv(&blk[r.n(len(blk))])
				} else {
					v[i] = conv(new(node))
				}
				if r.p(1, 50) {
					v[i] = conv(nil)
				}
			}
			sort.Slice(v, func(i, k int) bool { return uintptr(back(v[i])) < uintptr(back(v[k])) })
			return v
		},
		less: func(a, b T) bool { return uintptr(back(a)) < uintptr(back(b)) },
		bits: func(a T) (uint64, uint64) { return uint64(uintptr(back(a))), 0 }, wrap: wrap}
}

// lengths for by-length sorting, max is the largest allowed
func lenVals(r *rng, m, max int) []int {
	v := make([]int, m)
	mode := r.n(9)
	base := r.n(max + 1)
	for i := range v {
		switch mode {
		case 0:
			v[i] = i
		case 1:
			v[i] = r.n(max + 1)
		case 2:
			v[i] = r.n(3)
		case 3:
			v[i] = max - r.n(4)
		case 4:
			v[i] = 1 << uint(r.n(bits.UintSize-2))
		case 5: // both ends
			v[i] = r.n(3)
			if r.p(1, 2) {
				v[i] = max - v[i]
			}
		case 6: // around powers of two
			v[i] = 1<<uint(r.n(bits.UintSize-1)) + r.n(3) - 1
		case 7: // close to each other
			v[i] = base - r.n(5)
		case 8: // same low bits
			v[i] = r.n(max>>8+1)<<8 + base&255
		}
		if v[i] > max {
			v[i] = max - r.n(2)
		}
		if v[i] < 0 {
			v[i] = max
		}
	}
	sort.Ints(v)
	return v
}

var blob = string(make([]byte, 1<<20))

func lenStrDef[T ~string](wrap func([]T) any) def[T] {
	return def[T]{
		vals: func(r *rng, m int) []T {
			v := make([]T, m)
			for i, l := range lenVals(r, m, 1<<19) {
				v[i] = T(blob[:l])
			}
			return v
		},
		less: func(a, b T) bool { return len(a) < len(b) },
		bits: strBits[T],
		fresh: func(r *rng, v T) T {
			o := r.n(1 << 19)
			return T(blob[o : o+len(v)])
		}, wrap: wrap}
}

// max: largest length (T of zero size allows huge ones)
func lenSlcDef[T any](max int, wrap func([][]T) any) def[[]T] {
	var back []T
	get := func() []T {
		if back == nil {
			back = make([]T, max)
		}
		return back
	}
	var t T
	zs := unsafe.Sizeof(t) == 0
	return def[[]T]{
		vals: func(r *rng, m int) [][]T {
			b := get()
			v := make([][]T, m)
			for i, l := range lenVals(r, m, max) {
				v[i] = b[:l]
			}
			return v
		},
		less: func(a, b []T) bool { return len(a) < len(b) },
		bits: func(a []T) (uint64, uint64) {
			x, _ := slcBits(a)
			return x + mix(uint64(cap(a))), uint64(len(a))
		},
		fresh: func(r *rng, v []T) []T {
			b := get()
			if len(v) == 0 && r.p(1, 2) {
				return nil
			}
			o := 0
			if !zs {
				o = r.n(max - len(v) + 1)
			}
			c := min(r.n(3), max-o-len(v))
			return b[o : o+len(v) : o+len(v)+c]
		}, wrap: wrap}
}

type (
	myInt     int
	myInts    []myInt
	myI32     int32
	myU64     uint64
	myU32s    []uint32
	myF32     float32
	myF64s    []float64
	myStr     string
	myStrs    []myStr
	myByte    byte
	myBytes   []myByte
	myIP      []byte
	myBB      [][]byte
	myPtr     *node
	myPtrs    []*node
	myUP      unsafe.Pointer
	myUintptr uintptr
	celsius   float64
)

func init() {
	reg("int", "num", false, false, intDef[int](nil))
	reg("int32", "num", false, false, intDef[int32](nil))
	reg("int64", "num", false, false, intDef[int64](nil))
	reg("uint", "num", false, false, intDef[uint](nil))
	reg("uint32", "num", false, false, intDef[uint32](nil))
	reg("uint64", "num", false, false, intDef[uint64](nil))
	reg("uintptr", "num", false, false, intDef[uintptr](nil))
	reg("named-int-slice", "num", false, false, intDef(func(s []myInt) any { return myInts(s) }))
	reg("duration", "num", false, false, intDef[time.Duration](nil))
	reg("named-int32", "num", false, false, intDef[myI32](nil))
	reg("named-uint64", "num", false, false, intDef[myU64](nil))
	reg("named-uint32-slice", "num", false, false, intDef(func(s []uint32) any { return myU32s(s) }))
	reg("named-uintptr", "num", false, false, intDef[myUintptr](nil))
	id := func(p *node) *node { return p }
	reg("*node", "num", false, true, ptrDef(id, func(p *node) unsafe.Pointer { return unsafe.Pointer(p) }, nil))
	reg("named-ptr-slice", "num", false, true, ptrDef(id, func(p *node) unsafe.Pointer { return unsafe.Pointer(p) },
		func(s []*node) any { return myPtrs(s) }))
	reg("named-ptr", "num", false, true, ptrDef(func(p *node) myPtr { return p }, func(p myPtr) unsafe.Pointer { return unsafe.Pointer(p) }, nil))
	reg("unsafe.Pointer", "num", false, true, ptrDef(func(p *node) unsafe.Pointer { return unsafe.Pointer(p) },
		func(p unsafe.Pointer) unsafe.Pointer { return p }, nil))
	reg("**node", "num", false, true, ptrDef(func(p *node) **node {
		if p == nil {
			return nil
		}
		return &p.p
	}, func(p **node) unsafe.Pointer { return unsafe.Pointer(p) }, nil))

	reg("float32", "float", false, false, floatDef[float32](nil))
	reg("float64", "float", false, false, floatDef[float64](nil))
	reg("named-float32", "float", false, false, floatDef[myF32](nil))
	reg("named-float64-slice", "float", false, false, floatDef(func(s []float64) any { return myF64s(s) }))
	reg("celsius", "float", false, false, floatDef[celsius](nil))

	reg("string", "str", false, true, strDef[string](nil))
	reg("named-string-slice", "str", false, true, strDef(func(s []myStr) any { return myStrs(s) }))
	reg("[]byte", "str", false, true, bytesDef[[]byte](nil))
	reg("named-byte-slice-slice", "str", false, true, bytesDef(func(s [][]byte) any { return myBB(s) }))
	reg("RawMessage", "str", false, true, bytesDef[json.RawMessage](nil))
	reg("named-bytes", "str", false, true, bytesDef[myIP](nil))
	reg("named-byte", "str", false, true, def[myBytes]{
		vals: func(r *rng, m int) []myBytes {
			v := make([]myBytes, m)
			for i, s := range strVals(r, m) {
				v[i] = make(myBytes, len(s))
				for j := range v[i] {
					v[i][j] = myByte(s[j])
				}
			}
			return v
		},
		less: func(a, b myBytes) bool {
			return bytesLess(asStr(a), asStr(b))
		},
		bits: func(a myBytes) (uint64, uint64) { return slcBits(a) },
	})

	reg("len-string", "len", true, false, lenStrDef[string](nil))
	reg("len-named-string", "len", true, false, lenStrDef(func(s []myStr) any { return myStrs(s) }))
	reg("len-[]byte", "len", true, false, lenSlcDef[byte](1<<16, nil))
	reg("len-[]int", "len", true, false, lenSlcDef[int](1<<12, nil))
	reg("len-[]struct{}", "len", true, false, lenSlcDef[struct{}](math.MaxInt, nil))
	reg("len-[]string", "len", true, false, lenSlcDef[string](1<<10, nil))
	reg("len-[]any", "len", true, false, lenSlcDef[any](1<<10, nil))
	reg("len-[]*node", "len", true, false, lenSlcDef[*node](1<<10, nil))
	reg("len-[][]int", "len", true, false, lenSlcDef[[]int](1<<10, nil))
	reg("len-[]func()", "len", true, false, lenSlcDef[func()](1<<10, nil))
	reg("len-[]bool", "len", true, false, lenSlcDef[bool](1<<12, nil))
	reg("len-[][4]int16", "len", true, false, lenSlcDef[[4]int16](1<<10, nil))
}

// kinds of the given groups
func grp(names ...string) (l []*kind) {
	for _, k := range kinds {
		for _, n := range names {
			if k.grp == n {
				l = append(l, k)
			}
		}
	}
	return
}

// multiGor tells whether a call with n elements is long enough for goroutines
func (k *kind) long(n int) bool {
	t := thresholds()
	if k.fc {
		return n >= 2*(t[3]+1)
	}
	return n >= 2*(t[2]+1)
}
