//go:build verifinst

package main

import "github.com/jfcg/sorty/v2"

const hasHook = true

func setHook(f func(site int)) { sorty.VerifHook = f }
