// worker runs the monitored workload of one property in one build variant.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jfcg/sorty/v2"
)

var sprintf = fmt.Sprintf

type siteInfo struct {
	Kind  int
	Touch bool
	Func  string
	Pos   string
}

// W is the state of a worker run.
type W struct {
	prop, variant, tier string
	seed                uint64
	shard, shards       int
	only                int
	scale               float64
	prog                *os.File
	sites               []siteInfo

	evals   int
	classes map[uint64]struct{}
	count   map[string]int64
	samples []string
	desc    string
	cur     int
	next    int
}

var w = &W{classes: map[uint64]struct{}{}, count: map[string]int64{}}

type result struct {
	Evals   int              `json:"evals"`
	Classes []uint64         `json:"classes"`
	Count   map[string]int64 `json:"count"`
	Samples []string         `json:"samples"`
	Scheds  []uint64         `json:"scheds"`
	Defs    [4]int           `json:"defs"` // default thresholds
}

var violOnce sync.Mutex

// viol reports a violation and ends the process.
func viol(format string, a ...any) {
	violOnce.Lock()
	b, _ := json.Marshal(map[string]any{"case": w.cur, "desc": w.desc, "what": fmt.Sprintf(format, a...)})
	fmt.Printf("\nVIOL %s\n", b)
	os.Exit(3)
}

// each runs f for every case of this shard among total cases.
func each(name string, total int, f func(i int, r *rng)) {
	total = int(float64(total)*w.scale + 0.5)
	if total < 1 {
		total = 1
	}
	base := w.next
	w.next += total
	for i := 0; i < total; i++ {
		id := base + i
		if w.only >= 0 {
			if id != w.only {
				continue
			}
		} else if int(mix(uint64(id)+77)%uint64(w.shards)) != w.shard {
			continue
		}
		w.cur = id
		w.describe("%s", name)
		resetGlobals()
		t0 := time.Now()
		f(i, newRng(w.seed, strHash(w.prop), strHash(name), uint64(i)))
		if slowLog > 0 {
			if d := time.Since(t0); d > slowLog {
				fmt.Println("slow", d, w.cur, w.desc)
			}
		}
		w.count["cases/"+name]++
	}
}

// describe tells what the current case does, to be known even if the process dies
func (w *W) describe(format string, a ...any) {
	w.desc = fmt.Sprintf(format, a...)
	if w.prog != nil {
		b := make([]byte, 0, 400)
		b = append(b, fmt.Sprintf("%d %s", w.cur, w.desc)...)
		for len(b) < 300 {
			b = append(b, ' ')
		}
		w.prog.WriteAt(b[:300], 0)
	}
}

// seen registers the input class of a case
func (w *W) seen(nontrivial bool, parts ...uint64) {
	w.evals++
	if !nontrivial {
		return
	}
	h := uint64(0)
	for _, p := range parts {
		h = mix(h*3 + p)
	}
	if len(w.classes) < setCap {
		w.classes[h] = struct{}{}
	}
}

// sets of a worker are limited, what is reported is a lower bound then
const setCap = 150000

func (w *W) sample(format string, a ...any) {
	if len(w.samples) < 3 {
		w.samples = append(w.samples, fmt.Sprintf("case %d: ", w.cur)+fmt.Sprintf(format, a...))
	}
}

var defaults = thresholds()

var props = map[string]func(){}

var slowLog time.Duration

// GOMAXPROCS of shards
var procs = [...]int{8, 2, 4, 1, 3, 8, 16, 2}

func main() {
	out := flag.String("out", "", "")
	sitesFile := flag.String("sites", "", "")
	prog := flag.String("progress", "", "")
	flag.StringVar(&w.prop, "prop", "", "")
	flag.StringVar(&w.variant, "variant", "plain", "")
	flag.StringVar(&w.tier, "tier", "quick", "")
	flag.Uint64Var(&w.seed, "seed", 1, "")
	flag.IntVar(&w.shard, "shard", 0, "")
	flag.IntVar(&w.shards, "shards", 1, "")
	flag.IntVar(&w.only, "only", -1, "")
	flag.Float64Var(&w.scale, "scale", 1, "")
	flag.DurationVar(&slowLog, "slow", 0, "")
	flag.Parse()
	if *sitesFile != "" {
		b, err := os.ReadFile(*sitesFile)
		if err == nil {
			err = json.Unmarshal(b, &w.sites)
		}
		if err != nil {
			fmt.Println("sites:", err)
			os.Exit(4)
		}
	}
	if *prog != "" {
		f, err := os.OpenFile(*prog, os.O_RDWR|os.O_CREATE, 0o644)
		if err != nil {
			fmt.Println(err)
			os.Exit(4)
		}
		w.prog = f
	}
	debug.SetTraceback("all")
	runtime.GOMAXPROCS(procs[w.shard%len(procs)])
	f := props[w.prop]
	if f == nil {
		fmt.Println("no such property", w.prop)
		os.Exit(4)
	}
	if s := quickScale[w.prop]; s > 0 {
		w.scale *= s
	}
	if w.tier == "thorough" {
		w.scale *= thoroughScale
	}
	if hasHook {
		hooksOn()
	}
	f()
	setHook(nil)
	if raceBuild {
		raceTotals()
	}
	resetEvents()
	if w.only >= 0 {
		fmt.Println("case held:", w.only, w.desc)
	}
	res := result{Evals: w.evals, Count: w.count, Samples: w.samples, Defs: defaults}
	for c := range w.classes {
		res.Classes = append(res.Classes, c)
	}
	for c := range scheds {
		res.Scheds = append(res.Scheds, c)
	}
	for k, x := range evNames {
		if c := evTotal[k].Load(); c > 0 {
			w.count["events/"+x] = c
		}
	}
	sort.Slice(res.Classes, func(i, k int) bool { return res.Classes[i] < res.Classes[k] })
	if *out != "" {
		b, _ := json.Marshal(res)
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Println(err)
			os.Exit(4)
		}
	}
	os.Exit(0)
}

const thoroughScale = 12

// multiplies numbers of cases, so that a quick check takes about half a minute on 8 cores
var quickScale = map[string]float64{
	"C01": 7, "C02": 4, "C03": 12, "C04": 12, "C05": 8, "C06": 8, "C07": 3.5, "C08": 4.5, "C09": 6,
	"C10": 2.5, "C11": 3.5, "C12": 3.5, "C13": 1.5, "C14": 4, "C15": 4.5, "C16": 8, "C17": 5, "C18": 2,
	"C19": 4, "C20": 15, "C21": 7, "C22": 2, "C23": 1.5,
}

func ranksHash(rk []int) (h uint64) {
	for i, x := range rk {
		h += mix(uint64(x)*0x9e3779b97f4a7c15 + uint64(i))
	}
	return
}

func unsortedRanks(rk []int) bool {
	for i := 1; i < len(rk); i++ {
		if rk[i] < rk[i-1] {
			return true
		}
	}
	return false
}

// atomicMax sets a to max(a,v)
func atomicMax(a *atomic.Int64, v int64) {
	for {
		o := a.Load()
		if v <= o || a.CompareAndSwap(o, v) {
			return
		}
	}
}

// same state before every case, so that a case can be repeated alone
func resetGlobals() {
	lastN = 0
	nanMode, nanDensity = 1, 0
	minN = 0
	longRanges, longStrings, endsLarge = false, false, false
	sorty.NaNoption = sorty.NaNlarge
	sorty.MaxGor = 3
	slowOf = nil
	returned.Store(false)
	hk.onLoop = nil
	hk.budget = 1 << 40
	if w.prop == "C20" {
		hk.budget = 80e6
	}
	nz.level = 0
	if tunable {
		tune(defaults[0], defaults[1], defaults[2], defaults[3])
	}
}

func setMG(v uint64) { sorty.MaxGor = v }

func yieldUntil(f func() bool, rounds int) bool {
	for i := 0; i < rounds; i++ {
		if f() {
			return true
		}
		runtime.Gosched()
	}
	return f()
}
