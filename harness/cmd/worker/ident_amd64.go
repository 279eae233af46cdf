package main

import (
	"sync"
	"sync/atomic"
	"unsafe"
)

// getg returns the address of the current goroutine descriptor, unique among
// goroutines alive at the same time.
func getg() uintptr

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(unsafe.Pointer)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

// gor identifies a goroutine. It is stored in the profiler label slot of the goroutine,
// which is inherited by new goroutines: a goroutine is new iff its label belongs to
// another descriptor.
type gor struct {
	lab         [6]uintptr // reads as an empty label set
	g           uintptr
	epoch       int64
	id          int
	first, last int64 // first & last event times
	events      int64
	slow        int
	min, max    int // range of touched indices, when known
}

var (
	gorMu sync.Mutex
	gors  []*gor
	epoch int64
	clk   atomic.Int64
)

// newEpoch starts a new observation, called when no sorting goroutine runs.
func newEpoch() {
	gorMu.Lock()
	gors = nil
	epoch++
	gorMu.Unlock()
	clk.Store(0)
}

var slowOf func(id int) int

func me() *gor {
	l := (*gor)(getLabel())
	g := getg()
	if l == nil || l.g != g || l.epoch != epoch {
		l = &gor{g: g, epoch: epoch}
		gorMu.Lock()
		l.id = len(gors)
		gors = append(gors, l)
		gorMu.Unlock()
		if slowOf != nil {
			l.slow = slowOf(l.id)
		}
		setLabel(unsafe.Pointer(l))
	}
	return l
}

// touch registers an event of the current goroutine.
func touch() *gor {
	l := me()
	c := clk.Add(1)
	if l.first == 0 {
		l.first = c
	}
	l.last = c
	l.events++
	return l
}

// peak returns the largest number of goroutines with overlapping [first,last] intervals,
// and the number of goroutines seen.
func peak() (pk, n int) {
	gorMu.Lock()
	defer gorMu.Unlock()
	for _, x := range gors {
		if x.first == 0 {
			continue
		}
		n++
		c := 0
		for _, y := range gors {
			if y.first != 0 && y.first <= x.first && x.first <= y.last {
				c++
			}
		}
		if c > pk {
			pk = c
		}
	}
	return
}
