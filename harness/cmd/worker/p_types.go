package main

import (
	"reflect"
	"unsafe"

	"github.com/jfcg/sorty/v2"
)

type fixture struct {
	name string
	v    any
	ok   bool // accepted by SortSlice
	okL  bool // accepted by SortLen
}

func panics(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// element types to derive slice types from
func elemTypes() (l []reflect.Type) {
	add := func(v ...any) {
		for _, x := range v {
			l = append(l, reflect.TypeOf(x))
		}
	}
	type st struct{ A, B int }
	type (
		nBool  bool
		nI8    int8
		nI16   int16
		nInt   int
		nI32   int32
		nI64   int64
		nU8    uint8
		nU16   uint16
		nUint  uint
		nU32   uint32
		nU64   uint64
		nUptr  uintptr
		nF32   float32
		nF64   float64
		nC64   complex64
		nStr   string
		nBytes []byte
		nByte2 []nU8
		nI8s   []int8
		nInts  []int
		nStrs  []string
		nPtr   *int
		nUP    unsafe.Pointer
		nMap   map[string]int
		nChan  chan int
		nFunc  func()
		nArr   [3]int
		nArrB  [3]byte
		nBools []bool
	)
	add(false, int8(0), int16(0), int(0), int32(0), int64(0), uint8(0), uint16(0), uint(0), uint32(0), uint64(0), uintptr(0),
		float32(0), float64(0), complex64(0), complex128(0), "", st{}, struct{}{}, [3]int{}, [0]int{}, [4]byte{},
		[]byte{}, []int8{}, []int{}, []string{}, []bool{}, [][]byte{}, []any{}, []float64{}, []uint16{}, []struct{}{},
		(*int)(nil), (*st)(nil), (**int)(nil), (*string)(nil), (*[]int)(nil), (*[]byte)(nil), (*[4]int)(nil), (*func())(nil), (*any)(nil),
		unsafe.Pointer(nil), map[string]int{}, map[int][]byte{}, make(chan int), make(<-chan string), func() {}, func(int) string { return "" },
		nBool(false), nI8(0), nI16(0), nInt(0), nI32(0), nI64(0), nU8(0), nU16(0), nUint(0), nU32(0), nU64(0), nUptr(0), nF32(0), nF64(0), nC64(0),
		nStr(""), nBytes{}, nByte2{}, nI8s{}, nInts{}, nStrs{}, nPtr(nil), nUP(nil), nMap{}, nChan(nil), nFunc(nil), nArr{}, nArrB{}, nBools{},
		[][]int{}, [][][]byte{}, []nStr{}, []*int{}, []func(){}, []chan int{}, []map[int]int{}, []error{})
	l = append(l, reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf((*interface{ Len() int })(nil)).Elem())
	return
}

func acceptSlice(e reflect.Type) bool {
	switch e.Kind() {
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64, reflect.String, reflect.UnsafePointer, reflect.Pointer:
		return true
	case reflect.Slice:
		return e.Elem().Kind() == reflect.Uint8
	}
	return false
}

func acceptLen(e reflect.Type) bool { return e.Kind() == reflect.String || e.Kind() == reflect.Slice }

// fill a slice with random contents
func randFill(r *rng, v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.p(1, 2))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.u64()) >> uint(r.n(64)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(r.u64() >> uint(r.n(64)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(int64(r.u64())) / 1e3)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(r.n(100)), float64(r.n(100))))
	case reflect.String:
		v.SetString(blobStr(r, r.n(9)))
	case reflect.Slice:
		s := reflect.MakeSlice(v.Type(), r.n(5), 5)
		for i := 0; i < s.Len(); i++ {
			randFill(r, s.Index(i))
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			randFill(r, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				randFill(r, v.Field(i))
			}
		}
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
	case reflect.UnsafePointer:
		v.SetPointer(unsafe.Pointer(new(int)))
	}
}

func blobStr(r *rng, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + r.n(4))
	}
	return string(b)
}

// memory of a slice as bytes
func rawBytes(v reflect.Value) []byte {
	if v.Kind() != reflect.Slice || v.Len() == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(v.UnsafePointer()), v.Len()*int(v.Type().Elem().Size()))
}

func natLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.String:
		return bytesLess(a.String(), b.String())
	case reflect.Slice:
		n := min(a.Len(), b.Len())
		for i := 0; i < n; i++ {
			if x, y := a.Index(i).Uint(), b.Index(i).Uint(); x != y {
				return x < y
			}
		}
		return a.Len() < b.Len()
	case reflect.Pointer, reflect.UnsafePointer:
		return a.Pointer() < b.Pointer()
	}
	panic("natLess")
}

func typeCheck(name string, ar any, byLen bool, accept bool) {
	w.describe("%s byLen=%v accept=%v", name, byLen, accept)
	sortF, issF := sorty.SortSlice, sorty.IsSortedSlice
	fn := "SortSlice"
	if byLen {
		sortF, issF, fn = sorty.SortLen, sorty.IsSortedLen, "SortLen"
	}
	v := reflect.ValueOf(ar)
	before := append([]byte(nil), rawBytes(v)...)
	same := func() bool { return string(before) == string(rawBytes(v)) }
	var got int
	p := panics(func() { got = issF(ar) })
	w.count["calls"]++
	if accept && p != nil {
		viol("Is%s panics for %s: %v", "Sorted"+fn[4:], name, p)
	}
	if !accept && p == nil {
		viol("Is%s accepts %s (returns %d)", "Sorted"+fn[4:], name, got)
	}
	if !same() {
		viol("Is%s modifies %s", "Sorted"+fn[4:], name)
	}
	p = panics(func() { sortF(ar) })
	w.count["calls"]++
	if accept && p != nil {
		viol("%s panics for %s: %v", fn, name, p)
	}
	if !accept && p == nil {
		viol("%s accepts %s", fn, name)
	}
	if !accept && !same() {
		viol("%s panics for %s but modifies it", fn, name)
	}
	if accept {
		for i := 1; i < v.Len(); i++ {
			a, b := v.Index(i), v.Index(i-1)
			if byLen && a.Len() < b.Len() || !byLen && natLess(a, b) {
				viol("%s does not sort %s", fn, name)
			}
		}
		w.count["accepted"]++
	} else {
		w.count["rejected"]++
	}
	b := uint64(0)
	if byLen {
		b = 1
	}
	w.seen(true, strHash(name), b)
	w.sample("%s byLen=%v accept=%v", name, byLen, accept)
}

type namedAny any

func typesCase(i int, r *rng) {
	setNaN(r)
	nanMode, nanDensity = 1, 0
	sorty.NaNoption = sorty.NaNlarge
	setMG(pickMG(r))
	ln := []int{-1, 0, 1, 2, 5, 70, 300, 700, 1300}
	for _, e := range elemTypes() {
		t := reflect.SliceOf(e)
		for _, n := range ln {
			if n > 100 && r.p(2, 3) {
				continue
			}
			s := reflect.Zero(t)
			if n >= 0 {
				s = reflect.MakeSlice(t, n, n+r.n(3))
				for i := 0; i < n; i++ {
					randFill(r, s.Index(i))
				}
			}
			name := sprintf("%v (element kind %v) of length %d", t, e.Kind(), n)
			typeCheck(name, s.Interface(), false, acceptSlice(e))
			s2 := s
			if n > 0 && r.p(1, 2) {
				s2 = reflect.MakeSlice(t, n, n)
				for i := 0; i < n; i++ {
					randFill(r, s2.Index(i))
				}
			}
			typeCheck(name, s2.Interface(), true, acceptLen(e))
			// not slices of the kind
			if n >= 0 && n < 10 {
				pv := reflect.New(t)
				pv.Elem().Set(s)
				typeCheck("pointer to "+name, pv.Interface(), false, false)
				typeCheck("pointer to "+name, pv.Interface(), true, false)
				av := reflect.New(reflect.ArrayOf(n, e)).Elem()
				typeCheck("array "+av.Type().String(), av.Interface(), false, false)
				typeCheck("array "+av.Type().String(), av.Interface(), true, false)
			}
		}
		if r.p(1, 1) {
			x := reflect.New(e).Elem()
			if x.Kind() != reflect.Interface && x.Kind() != reflect.Slice {
				typeCheck("value of "+e.String(), x.Interface(), false, false)
				typeCheck("value of "+e.String(), x.Interface(), true, false)
			}
		}
	}
	for _, x := range []any{nil, error(nil), namedAny(nil), 5, "abc", &struct{}{}, reflect.ValueOf([]int{2, 1}), any([3]string{}), func() {}} {
		typeCheck(sprintf("%T", x), x, false, false)
		typeCheck(sprintf("%T", x), x, true, false)
	}
	// every kind known, empty and nil included
	for _, k := range kinds {
		for _, n := range []int{0, 1, 2, 3, 50} {
			rk, m, _ := pattern(r, n)
			w.describe("%s n=%d", k.name, n)
			if p := panics(func() {
				if msg := k.run(k, r, rk, m, &want{canary: true}); msg != "" {
					viol("%s: %s", k.name, msg)
				}
				q := k.build(r, rk, m)
				isSorted(k, q.ar)
			}); p != nil {
				viol("panic for accepted %s: %v", k.name, p)
			}
			w.count["calls"] += 2
		}
	}
}

func init() {
	props["C17"] = func() { each("types", 400, typesCase) }
}
