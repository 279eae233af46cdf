// check decides one property: builds variants of the code under test, runs monitored
// workloads & reports. Usage:
//
//	check ID quick|thorough
//	check replay FILE
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"sortyverif/instr"
)

var (
	repo  = "/repo"
	verif = "/verif"
	tmp   string
)

const shards = 8

// variants of a property, in order
var plan = map[string][]string{
	"C01": {"plain", "inst", "tune", "tuneinst"},
	"C02": {"plain", "inst", "tune", "tuneinst"},
	"C03": {"plain", "inst", "tune", "tuneinst"},
	"C04": {"plain", "inst", "tune", "tuneinst"},
	"C05": {"plain", "inst", "tune", "tuneinst"},
	"C06": {"plain", "inst", "tune", "tuneinst"},
	"C07": {"plain", "inst", "tune", "race", "asan"},
	"C08": {"plain", "inst", "tune", "tuneinst"},
	"C09": {"race", "tunerace"},
	"C10": {"plain", "inst", "tune", "tuneinst"},
	"C11": {"plain", "inst", "tuneinst"},
	"C12": {"plain", "inst", "tuneinst", "race"},
	"C13": {"plain", "tune", "inst"},
	"C14": {"plain", "inst"},
	"C15": {"plain"},
	"C16": {"plain"},
	"C17": {"plain"},
	"C18": {"plain", "inst", "tune", "tuneinst", "race"},
	"C19": {"plain", "tune", "race", "tunerace"},
	"C20": {"plain", "tune", "tuneinst"},
	"C21": {"386", "386tune"},
	"C22": {"plain", "inst", "tune"},
	"C23": {"plain", "tune", "inst"},
	"C24": {"plain", "tune", "inst"},
	"C25": {"plain", "inst"},
}

type variant struct {
	name    string
	bin     string
	sites   string
	nsites  int
	err     error
	overlay bool
}

func has(v, s string) bool { return strings.Contains(v, s) }

func env(extra ...string) []string {
	e := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=", "GOSUMDB=off", "CGO_ENABLED=1", "GOARCH=amd64", "GOOS=linux")
	if os.Getenv("HOME") == "" {
		e = append(e, "HOME=/root")
	}
	return append(e, extra...)
}

// build a variant of the worker
func (v *variant) build() {
	dir := filepath.Join(tmp, v.name)
	if v.err = os.MkdirAll(dir, 0o755); v.err != nil {
		return
	}
	tags := []string{}
	if has(v.name, "tune") {
		tags = append(tags, "tuneparam")
	}
	inst := has(v.name, "inst") || has(v.name, "race")
	if inst {
		tags = append(tags, "verifinst")
	}
	mod := filepath.Join(dir, "go.mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(verif, "harness", f))
		if err != nil {
			v.err = err
			return
		}
		b = bytes.ReplaceAll(b, []byte("=> /repo"), []byte("=> "+repo))
		if v.err = os.WriteFile(filepath.Join(dir, f), b, 0o644); v.err != nil {
			return
		}
	}
	args := []string{"build", "-buildvcs=false", "-mod=mod", "-modfile", mod, "-o", filepath.Join(dir, "worker")}
	if inst || v.name == "asan" {
		src := filepath.Join(dir, "src")
		if v.err = os.MkdirAll(src, 0o755); v.err != nil {
			return
		}
		repl, sites, err := instr.Overlay(repo, src, tags, inst)
		if err != nil {
			v.err = err
			return
		}
		ov := filepath.Join(dir, "overlay.json")
		if v.err = instr.WriteJSON(ov, repl); v.err != nil {
			return
		}
		args = append(args, "-overlay", ov)
		if inst {
			v.sites = filepath.Join(dir, "sites.json")
			v.nsites = len(sites)
			b, _ := json.Marshal(sites)
			if v.err = os.WriteFile(v.sites, b, 0o644); v.err != nil {
				return
			}
		}
	}
	if len(tags) > 0 {
		args = append(args, "-tags", strings.Join(tags, ","))
	}
	e := env()
	switch {
	case has(v.name, "race"):
		args = append(args, "-race", noCheckptr)
	case v.name == "asan":
		args = append(args, "-asan", noCheckptr)
	case has(v.name, "386"):
		e = env("GOARCH=386", "CGO_ENABLED=0")
	default:
		e = env("CGO_ENABLED=0")
	}
	cmd := exec.Command("go", append(args, "./cmd/worker")...)
	cmd.Dir = filepath.Join(verif, "harness")
	cmd.Env = e
	b, err := cmd.CombinedOutput()
	if err != nil {
		v.err = fmt.Errorf("%v: %s", err, b)
		return
	}
	v.bin = filepath.Join(dir, "worker")
}

type job struct {
	v     *variant
	shard int
	only  int

	cls   string // "", "violation", "error"
	what  string
	cas   int
	desc  string
	log   string
	res   *result
	start time.Time
}

type result struct {
	Evals   int              `json:"evals"`
	Classes []uint64         `json:"classes"`
	Count   map[string]int64 `json:"count"`
	Samples []string         `json:"samples"`
	Scheds  []uint64         `json:"scheds"`
	Defs    [4]int           `json:"defs"`
}

var (
	prop, tier string
	seed       uint64
	deadline   time.Time
	ctx        context.Context
	cancel     context.CancelFunc
)

// the package is compiled without pointer conversion checks in its go:nosplit functions,
// which are not go:nosplit in rewritten sources
const noCheckptr = "-gcflags=github.com/jfcg/sorty/v2=-d=checkptr=0"

const stall = 60 * time.Second

// states of goroutines that are blocked by each other
var waits = regexp.MustCompile(`\[(chan |select|semacquire|sync\.)`)

func readProg(p string) (int, string) {
	b, _ := os.ReadFile(p)
	s := strings.TrimSpace(string(b))
	f, d, _ := strings.Cut(s, " ")
	n, err := strconv.Atoi(f)
	if err != nil {
		n = -1
	}
	return n, d
}

// cpu time of a child of ours
func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	s = s[strings.LastIndexByte(s, ')')+1:]
	f := strings.Fields(s)
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.Atoi(f[11])
	k, _ := strconv.Atoi(f[12])
	return time.Duration(u+k) * 10 * time.Millisecond
}

func (j *job) run() {
	base := filepath.Join(tmp, fmt.Sprintf("%s-%d-%d", j.v.name, j.shard, j.only))
	out, prog, lg := base+".json", base+".prog", base+".log"
	os.Remove(prog)
	args := []string{"-prop", prop, "-variant", j.v.name, "-tier", tier, "-seed", fmt.Sprint(seed),
		"-shard", fmt.Sprint(j.shard), "-shards", fmt.Sprint(shards), "-out", out, "-progress", prog, "-only", fmt.Sprint(j.only)}
	if j.v.sites != "" {
		args = append(args, "-sites", j.v.sites)
	}
	cmd := exec.Command(j.v.bin, args...)
	e := env("GORACE=halt_on_error=1 exitcode=66 history_size=3 atexit_sleep_ms=0", "ASAN_OPTIONS=detect_leaks=0", "GOTRACEBACK=all")
	if prop == "C22" {
		e = append(e, "GODEBUG=clobberfree=1")
	}
	if has(j.v.name, "race") || j.v.name == "asan" {
		e = append(e, "GOGC=200")
	} else {
		e = append(e, "GOMEMLIMIT=3GiB")
	}
	cmd.Env = e
	f, err := os.Create(lg)
	if err != nil {
		j.cls, j.what = "error", err.Error()
		return
	}
	defer f.Close()
	cmd.Stdout, cmd.Stderr = f, f
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		j.cls, j.what = "error", err.Error()
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	lastCase, lastDesc := -2, ""
	lastT, lastCPU := time.Now(), time.Duration(0)
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	hung := ""
	kill := func() error {
		cmd.Process.Kill()
		return <-done
	}
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-ctx.Done():
			kill()
			j.cls, j.what = "stopped", ""
			return
		case <-tick.C:
			c, d := readProg(prog)
			if c != lastCase || d != lastDesc {
				lastCase, lastDesc, lastT, lastCPU = c, d, time.Now(), cpuTime(cmd.Process.Pid)
			}
			if time.Since(lastT) > stall {
				used := cpuTime(cmd.Process.Pid) - lastCPU
				cmd.Process.Signal(syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(5 * time.Second):
					kill()
				}
				hung = fmt.Sprintf("no progress for %v, %v of processor time used meanwhile", stall, used)
				j.cas, j.desc = c, d
				b, _ := os.ReadFile(lg)
				j.log = string(b)
				blocked := strings.Contains(j.log, "jfcg/sorty")
				if used > 10*time.Second && blocked {
					j.cls, j.what = "violation", "call does not end: "+hung
				} else if blocked && waits.MatchString(j.log) {
					j.cls, j.what = "violation", "call is blocked forever: "+hung
				} else {
					j.cls, j.what = "error", "inconclusive: "+hung
				}
				return
			}
			if time.Now().After(deadline) {
				kill()
				j.cls, j.what = "error", "inconclusive: out of time"
				return
			}
		}
	}
	b, _ := os.ReadFile(lg)
	if len(b) > 1<<20 {
		b = append(b[:1<<19:1<<19], b[len(b)-1<<19:]...)
	}
	j.log = string(b)
	j.cas, j.desc = readProg(prog)
	code := cmd.ProcessState.ExitCode()
	if i := strings.Index(j.log, "VIOL {"); i >= 0 {
		line, _, _ := strings.Cut(j.log[i+5:], "\n")
		var v struct {
			Case       int
			Desc, What string
		}
		if json.Unmarshal([]byte(line), &v) == nil {
			j.cas, j.desc, j.what = v.Case, v.Desc, v.What
		} else {
			j.what = line
		}
		j.cls = "violation"
		return
	}
	sig := syscall.Signal(0)
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		sig = ws.Signal()
	}
	switch {
	case code == 0:
		var r result
		b, err := os.ReadFile(out)
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			j.cls, j.what = "error", err.Error()
			return
		}
		os.Remove(out)
		os.Remove(lg)
		j.res = &r
	case strings.Contains(j.log, "WARNING: DATA RACE"):
		if strings.Contains(j.log, "jfcg/sorty") {
			j.cls, j.what = "violation", "data race: "+raceSummary(j.log)
		} else {
			j.cls, j.what = "error", "data race in the harness"
		}
	case code == 4 || sig == syscall.SIGKILL || strings.Contains(j.log, "HARNESS") || strings.Contains(j.log, "out of memory") ||
		strings.Contains(j.log, "cannot allocate") || strings.Contains(j.log, "newosproc"):
		j.cls, j.what = "error", fmt.Sprintf("worker ended with %v %v", code, sig)
	case harnessPanic(j.log):
		j.cls, j.what = "error", "panic in the harness: "+crashSummary(j.log)
	default:
		j.cls, j.what = "violation", "crash: "+crashSummary(j.log)
	}
}

func raceSummary(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	var l []string
	for _, x := range strings.Split(s[i:], "\n") {
		x = strings.TrimSpace(x)
		if strings.Contains(x, "jfcg/sorty") || strings.HasPrefix(x, "Write at") || strings.HasPrefix(x, "Read at") || strings.HasPrefix(x, "Previous") {
			l = append(l, x)
		}
		if len(l) >= 8 {
			break
		}
	}
	return strings.Join(l, " | ")
}

// an ordinary panic of a goroutine which is not inside the package
func harnessPanic(s string) bool {
	i := strings.Index(s, "panic: ")
	if i < 0 || strings.Contains(s, "unexpected fault") || strings.Contains(s, "fatal error") {
		return false
	}
	s = s[i:]
	if k := strings.Index(s, "\ngoroutine "); k >= 0 {
		s = s[k+1:]
		if k = strings.Index(s, "\n\n"); k >= 0 {
			s = s[:k]
		}
	}
	return !strings.Contains(s, "jfcg/sorty") && !strings.Contains(s, "SIGSEGV") && strings.Contains(s, "main.")
}

func crashSummary(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		y := strings.TrimSpace(x)
		if strings.HasPrefix(y, "panic:") || strings.HasPrefix(y, "fatal error:") || strings.HasPrefix(y, "runtime:") || strings.HasPrefix(y, "unexpected fault") ||
			strings.HasPrefix(y, "SIG") || strings.HasPrefix(y, "[signal") || strings.Contains(y, "ERROR: AddressSanitizer") || strings.HasPrefix(y, "github.com/jfcg/sorty") {
			l = append(l, y)
		}
		if len(l) >= 6 {
			break
		}
	}
	return strings.Join(l, " | ")
}

type replayFile struct {
	Property string `json:"property"`
	Variant  string `json:"variant"`
	Tier     string `json:"tier"`
	Seed     uint64 `json:"seed"`
	Shard    int    `json:"shard"`
	Case     int    `json:"case"`
	Desc     string `json:"desc"`
	What     string `json:"what"`
	Command  string `json:"command"`
	Log      string `json:"log"`
}

func die(format string, a ...any) {
	fmt.Printf("ERROR "+format+"\n", a...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if tmp != "" {
		os.RemoveAll(tmp)
	}
}

func buildAll(names []string) map[string]*variant {
	vs := map[string]*variant{}
	var wg sync.WaitGroup
	for _, n := range names {
		v := &variant{name: n}
		vs[n] = v
		wg.Add(1)
		go func() { v.build(); wg.Done() }()
	}
	wg.Wait()
	return vs
}

func main() {
	if r := os.Getenv("SORTY_REPO"); r != "" {
		repo = r
	}
	if d, err := os.Getwd(); err == nil {
		if _, err := os.Stat(filepath.Join(d, "harness", "go.mod")); err == nil {
			verif = d
		}
	}
	par := flag.Int("p", runtime.NumCPU(), "")
	only := flag.String("variants", "", "")
	flag.Parse()
	if flag.Arg(0) == "setup" {
		setup()
		return
	}
	if flag.NArg() < 2 {
		fmt.Println("usage: check ID quick|thorough | check replay FILE")
		os.Exit(2)
	}
	seed = 1
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	var err error
	tmp, err = os.MkdirTemp("", "sortyverif")
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	ctx, cancel = context.WithCancel(context.Background())
	if flag.Arg(0) == "replay" {
		replay(flag.Arg(1))
		return
	}
	prop, tier = flag.Arg(0), flag.Arg(1)
	names := plan[prop]
	if names == nil || tier != "quick" && tier != "thorough" {
		die("unknown property or tier: %s %s", prop, tier)
	}
	if *only != "" {
		names = strings.Split(*only, ",")
	}
	t0 := time.Now()
	deadline = t0.Add(800 * time.Second)
	if tier == "thorough" {
		deadline = t0.Add(6 * time.Hour)
	}
	vs := buildAll(names)
	buildT := time.Since(t0)
	var notes []string
	var jobs []*job
	built := 0
	for _, n := range names {
		v := vs[n]
		if v.err != nil {
			fmt.Printf("NOTE variant %s is not built: %v\n", n, v.err)
			notes = append(notes, fmt.Sprintf("variant %s could not be built: %.300s", n, v.err))
			continue
		}
		built++
		for s := 0; s < shards; s++ {
			jobs = append(jobs, &job{v: v, shard: s, only: -1})
		}
	}
	if built == 0 {
		die("nothing could be built")
	}
	runAll(jobs, *par)

	// an inconclusive stall may hide a violation, look at the case alone
	for _, j := range jobs {
		if j.cls == "error" && strings.Contains(j.what, "no progress") {
			q := &job{v: j.v, shard: j.shard, only: j.cas}
			q.run()
			if q.cls != "" {
				if strings.Contains(q.what, "no progress") {
					q.cls = "violation"
				}
				*j = *q
			}
		}
	}
	bad, errs := pickBad(jobs)
	ev, merged := evidence(jobs, names, vs, notes, buildT)
	if prop == "C20" && bad == nil {
		a, b := merged["plain"], merged["tune"]
		if a != nil && b != nil && *a != *b {
			bad = &job{v: vs["tune"], cas: 0, cls: "violation", desc: "defaults",
				what: fmt.Sprintf("default thresholds differ: %v, with tuneparam %v", *a, *b)}
		}
	}
	ev["wall_s"] = time.Since(t0).Seconds()
	viols := 0
	for _, j := range jobs {
		if j.cls == "violation" {
			viols++
		}
	}
	if bad != nil && viols == 0 {
		viols = 1
	}
	ev["violations"] = viols
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	if bad != nil {
		p := writeReplay(bad)
		fmt.Printf("%s: %s\n  case: %s\n", bad.v.name, bad.what, bad.desc)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		cleanup()
		os.Exit(1)
	}
	if len(errs) > 0 {
		for _, j := range errs {
			fmt.Printf("variant %s shard %d case %d (%s): %s\n%.3000s\n", j.v.name, j.shard, j.cas, j.desc, j.what, j.log)
		}
		die("%d workers gave no answer", len(errs))
	}
	cov := ev["coverage"].(map[string]any)
	if cov["distinct_nontrivial"].(int) < 2 {
		die("nothing was observed")
	}
	fmt.Printf("%s held: %d evaluations, %d distinct non-trivial, %.1f s (build %.1f s)\n", prop, cov["evaluations"], cov["distinct_nontrivial"], time.Since(t0).Seconds(), buildT.Seconds())
	cleanup()
}

// setup fills the build cache
func setup() {
	var err error
	if tmp, err = os.MkdirTemp("", "sortyverif"); err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	m := map[string]bool{}
	for _, l := range plan {
		for _, n := range l {
			m[n] = true
		}
	}
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	for n, v := range buildAll(names) {
		if v.err != nil {
			die("%s: %v", n, v.err)
		}
	}
	fmt.Println("built", names)
	cleanup()
}

func runAll(jobs []*job, par int) {
	sem := make(chan int, par)
	var wg sync.WaitGroup
	for _, j := range jobs {
		sem <- 1
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			if ctx.Err() != nil {
				j.cls = "stopped"
				return
			}
			j.run()
			if j.cls == "violation" {
				cancel() // enough
			}
		}()
	}
	wg.Wait()
}

func pickBad(jobs []*job) (bad *job, errs []*job) {
	for _, j := range jobs {
		switch j.cls {
		case "violation":
			if bad == nil {
				bad = j
			}
		case "error":
			errs = append(errs, j)
		}
	}
	return
}

func writeReplay(j *job) string {
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, j.v.name, j.cas))
	lg := j.log
	if len(lg) > 20000 {
		lg = lg[:20000]
	}
	b, _ := json.MarshalIndent(replayFile{prop, j.v.name, tier, seed, j.shard, j.cas, j.desc, j.what,
		"cd /verif && bash run.sh replay " + p, lg}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func replay(file string) {
	var r replayFile
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		die("%v", err)
	}
	prop, tier, seed = r.Property, r.Tier, r.Seed
	deadline = time.Now().Add(time.Hour)
	v := buildAll([]string{r.Variant})[r.Variant]
	if v.err != nil {
		die("%v", v.err)
	}
	for i := 0; i < 30; i++ {
		j := &job{v: v, shard: r.Shard, only: r.Case}
		j.run()
		if j.cls == "violation" {
			fmt.Printf("run %d: %s\n  case: %s\n%.6000s\n", i+1, j.what, j.desc, j.log)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
			cleanup()
			os.Exit(1)
		}
		if j.cls == "error" {
			die("%s %s", j.what, j.log)
		}
	}
	fmt.Println("not reproduced in 30 runs of case", r.Case, "(it may depend on the schedule)")
	cleanup()
}

func evidence(jobs []*job, names []string, vs map[string]*variant, notes []string, buildT time.Duration) (map[string]any, map[string]*[4]int) {
	classes := map[uint64]struct{}{}
	scheds := map[uint64]struct{}{}
	evals := 0
	obs := map[string]map[string]int64{}
	per := map[string]any{}
	defs := map[string]*[4]int{}
	var samples []string
	for _, n := range names {
		ve := 0
		c := map[string]int64{}
		sch := map[uint64]struct{}{}
		took := 0
		for _, j := range jobs {
			if j.v.name != n || j.res == nil {
				continue
			}
			ve += j.res.Evals
			for _, h := range j.res.Classes {
				classes[h] = struct{}{}
			}
			for _, h := range j.res.Scheds {
				scheds[h] = struct{}{}
				sch[h] = struct{}{}
			}
			for k, x := range j.res.Count {
				if strings.HasPrefix(k, "max-") {
					c[k] = max(c[k], x)
				} else {
					c[k] += x
				}
			}
			for _, s := range j.res.Samples {
				if took < 4 {
					samples = append(samples, n+" "+s)
					took++
				}
			}
			d := j.res.Defs
			defs[n] = &d
		}
		evals += ve
		obs[n] = c
		m := map[string]any{"evaluations": ve, "observed": c}
		if len(sch) > 0 {
			m["distinct_schedules"] = len(sch)
		}
		if vs[n].nsites > 0 {
			m["instrumented_sites"] = vs[n].nsites
		}
		per[n] = m
	}
	sort.Strings(samples)
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(classes), // lower bound, sets of workers are limited
		"rule":                rules[prop],
		"samples":             samples,
		"variants":            per,
		"build_s":             buildT.Seconds(),
	}
	if len(scheds) > 0 {
		cov["distinct_schedules"] = len(scheds)
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	return map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"held on the executions counted here, other inputs & schedules were not observed",
			"Go toolchain, race detector, address sanitizer & the reference orders of the harness are trusted",
		},
	}, defs
}
