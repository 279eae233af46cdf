package main

import (
	"runtime"
	"time"
)

// noise perturbs schedules at injected events. It is free of synchronization so that it
// does not hide races from the race detector.
type noiseT struct {
	s     uint64
	level int
	salt  uint64
}

var nz noiseT

//go:norace
func (z *noiseT) reset(r *rng, level int) {
	z.s = r.u64() | 1
	z.salt = r.u64()
	z.level = level
}

//go:norace
func (z *noiseT) next() uint64 {
	x := z.s // racy on purpose
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	z.s = x | 1
	return mix(x)
}

var sink uint64

//go:norace
func spin(n int) {
	x := sink
	for i := 0; i < n; i++ {
		x = x*3 + 1
	}
	if x == 7 {
		sink = x
	}
}

// event kinds, see package instr
const (
	evEntry = iota
	evLoop
	evGo
	evChan
	evAfterC
	evMake
	evAtomic
)

//go:norace
func (z *noiseT) at(kind int, g uintptr) {
	if z.level == 0 {
		return
	}
	x := z.next()
	slow := mix(uint64(g)^z.salt)&3 == 0
	switch kind {
	case evLoop:
		if slow && x&255 == 0 || x&2047 == 0 {
			runtime.Gosched()
		} else if slow && z.level > 1 && x&511 == 1 {
			spin(int(x >> 40 & 0xfff))
		}
	case evEntry:
		if slow && x&7 == 0 || x&31 == 0 {
			runtime.Gosched()
		}
	default:
		switch x & 7 {
		case 0, 1:
			runtime.Gosched()
		case 2:
			spin(int(x >> 40 & 0x3fff))
		case 3:
			if z.level > 1 && (slow || x>>8&3 == 0) {
				time.Sleep(time.Duration(x>>40&0x3f) * time.Microsecond)
			}
		case 4:
			for i := 0; i < 3; i++ {
				runtime.Gosched()
			}
		}
	}
}
