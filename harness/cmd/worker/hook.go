package main

import (
	"sync"
	"sync/atomic"
)

// hook configuration of the current call (instrumented builds)
var hk struct {
	ident    bool // identify goroutines that touch the collection
	identAll bool // identify goroutines at any function entry & loop step
	sched    bool // hash the sequence of synchronization events
	budget   int64
	budgetOn bool
	onLoop   func(n int64)
}

var (
	evTotal  [7]atomic.Int64 // events of the process
	evNames  = [...]string{"function-entry", "loop-step", "go", "channel-op", "channel-op-done", "make-chan", "atomic-op"}
	evc      [7]atomic.Int64 // events of the call
	returned atomic.Bool     // call returned
	schedMu  sync.Mutex
	schedH   uint64
	schedN   int
	scheds   = map[uint64]struct{}{}
)

func resetEvents() {
	for i := range evc {
		evTotal[i].Add(evc[i].Swap(0))
	}
	schedH, schedN = 0, 0
}

// endSched registers the observed sequence of synchronization events
func endSched() {
	schedMu.Lock()
	if schedN > 0 && len(scheds) < setCap {
		scheds[schedH] = struct{}{}
	}
	schedMu.Unlock()
}

func hookFn(site int) {
	s := &w.sites[site]
	k := s.Kind
	c := evc[k].Add(1)
	touches := s.Touch && k <= evLoop
	if touches && returned.Load() {
		viol("collection is accessed at %s (%s) after the call returned", s.Pos, s.Func)
	}
	if k <= evLoop {
		if hk.budgetOn && k == evLoop && c > hk.budget {
			viol("no end after %d steps (%s, %s)", c, s.Pos, s.Func)
		}
		if hk.onLoop != nil && k == evLoop {
			hk.onLoop(c)
		}
	}
	if hk.ident && (touches || hk.identAll && k <= evLoop) {
		touch()
	}
	if hk.sched && k != evLoop && k != evEntry {
		id := me().id
		schedMu.Lock()
		schedH = mix(schedH*5 + uint64(id)<<20 + uint64(site))
		schedN++
		schedMu.Unlock()
	}
	if nz.level != 0 {
		nz.at(k, getg())
	}
}

// racy counter, race detector builds must not be disturbed by synchronization
var raceEv [7]int64

//go:norace
func hookRace(site int) {
	k := w.sites[site].Kind
	raceEv[k]++
	if nz.level != 0 {
		nz.at(k, getg())
	}
}

// hooksOn installs the hook of the build.
func hooksOn() {
	if raceBuild {
		setHook(hookRace)
	} else {
		setHook(hookFn)
	}
}

//go:norace
func raceTotals() {
	for k, c := range raceEv {
		evTotal[k].Add(c)
	}
}
