package main

import (
	"math/bits"
	"syscall"
	"unsafe"

	"github.com/jfcg/sorty/v2"
)

const aliasPart = 64 << 20

// aliased gives size bytes of address space whose parts between the first & last one are
// the same memory, nil if not available
func aliased(size int) (buf []byte, free func()) {
	name := append([]byte("part"), 0)
	nr := uintptr(319) // memfd_create
	if bits.UintSize == 32 {
		nr = 356
	}
	fd, _, e := syscall.Syscall(nr, uintptr(unsafe.Pointer(&name[0])), 0, 0)
	if e != 0 {
		return
	}
	defer syscall.Close(int(fd))
	if syscall.Ftruncate(int(fd), aliasPart) != nil {
		return
	}
	buf, err := syscall.Mmap(-1, 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		return nil, nil
	}
	free = func() { syscall.Munmap(buf) }
	for o := aliasPart; o+2*aliasPart <= size; o += aliasPart {
		_, _, e = syscall.Syscall6(syscall.SYS_MMAP, uintptr(unsafe.Pointer(&buf[o])), aliasPart, syscall.PROT_READ|syscall.PROT_WRITE,
			syscall.MAP_SHARED|syscall.MAP_FIXED, fd, 0)
		if e != 0 {
			free()
			return nil, nil
		}
	}
	return
}

// issAliased checks IsSortedSlice for slices with more than 2^31 or 2^32 elements,
// most of which share the same memory
func issAliased(i int, r *rng) {
	if bits.UintSize == 32 {
		return
	}
	n := 1<<uint(31+r.n(2)) + r.in(1, 3000) + 40000000
	if i > 1 { // a few are enough to see that index is not truncated
		n = 1<<uint(r.in(25, 28)) + r.in(1, 3000) + 40000000
	}
	buf, free := aliased(4*n + 4096)
	if buf == nil {
		w.count["aliased-not-available"]++
		return
	}
	defer free()
	a := unsafe.Slice((*int32)(unsafe.Pointer(&buf[0])), n)
	at := 0 // out of order
	switch r.n(4) {
	case 0:
		at = n - r.in(1, 4000)
		a[at] = -5
		for x := at + 1; x < n; x++ {
			a[x] = 7
		}
	case 1:
		at = r.in(1, 4000)
		a[at-1] = 9
	case 2: // last is the largest
		a[n-1] = 3
		a[0] = -3
	}
	w.describe("aliased: IsSortedSlice of %d elements, %d is out of order", n, at)
	setMG(pickMG(r))
	got := 0
	got = sorty.IsSortedSlice(a)
	if got != at {
		viol("IsSortedSlice returns %d for %d elements, only element %d is out of order", got, n, at)
	}
	w.count["aliased-slices"]++
	w.seen(true, uint64(n), uint64(at))
	w.sample("%s", w.desc)
}
