//go:build tuneparam

package main

import "github.com/jfcg/sorty/v2"

const tunable = true

func tune(ins, insFC, rec, recFC int) {
	sorty.MaxLenIns, sorty.MaxLenInsFC, sorty.MaxLenRec, sorty.MaxLenRecFC = ins, insFC, rec, recFC
}
