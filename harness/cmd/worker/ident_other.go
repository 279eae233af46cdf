//go:build !amd64

package main

import "sync"

var gorMu sync.Mutex

const identOK = false

func getg() uintptr { return 0 }

type gor struct {
	id, slow, min, max  int
	first, last, events int64
}

var slowOf func(id int) int
var gors []*gor

func newEpoch()        {}
func me() *gor         { panic("goroutine identity is not available") }
func touch() *gor      { return me() }
func peak() (int, int) { return 0, 0 }
