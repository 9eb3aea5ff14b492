//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"btrsim/simrt"
)

// ------------------------------------------------------------- messages

type wreport struct {
	Kind     string // start, stats, fail, done
	Seed     uint64
	Hash     uint64
	Failure  string
	FailKind string
	Choices  map[string][]uint32
	Runs     int
	Evals    int
	Nontriv  int
	Worlds   int
	Procs    int
	SimNS    int64
	Steps    uint64
	Switches int
	Syscalls int
	Injected map[string]int
	Notes    map[string]int
	States   []uint64
	Hashes   []uint64
	Known    map[string]int
	Trace    []string
	Sample   map[string]interface{}
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func envInt(name string, def int) int {
	n, err := strconv.Atoi(os.Getenv(name))
	if err != nil {
		return def
	}
	return n
}

var realStderr = os.Stderr

// quiet keeps the real standard streams away from simulated code.
func quiet() *os.File {
	out := os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	os.Stdout, os.Stdin = null, null
	os.Stderr = null // the progress bar writes there
	return out
}

// ------------------------------------------------------------- worker

// worker PROPERTY: reads one job as JSON from standard input.
type job struct {
	Mode     string // search, one, shrink
	Property string
	Base     uint64
	Index    int
	Stride   int
	Seconds  float64
	MaxRuns  int
	Seed     uint64
	Choices  map[string][]uint32
	FailKind string
	KeepLog  bool
	Deep     bool
}

func worker() {
	var j job
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		fmt.Fprintln(realStderr, "worker:", err)
		os.Exit(3)
	}
	out := quiet()
	enc := json.NewEncoder(out)
	ck := checks[j.Property]
	if ck == nil {
		fmt.Fprintln(realStderr, "worker: no check", j.Property)
		os.Exit(3)
	}
	debug.SetMemoryLimit(3 << 30)
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(2)
	// Watchdog: a run that takes this long in real time is stuck.
	limit := time.Duration(envInt("SIM_STUCK", 150)) * time.Second
	var started atomic.Int64
	started.Store(time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(time.Second)
			if time.Since(time.Unix(0, started.Load())) > limit {
				buf := make([]byte, 1<<18)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(realStderr, "worker: stuck\n%s\n", buf[:n])
				os.Exit(4)
			}
		}
	}()
	switch j.Mode {
	case "one":
		c := execute(ck, j.Seed, j.Choices, j.KeepLog, j.Deep)
		enc.Encode(oneReport(c, j.KeepLog))
	case "shrink":
		best := shrink(ck, &j, func() { started.Store(time.Now().UnixNano()) })
		enc.Encode(best)
	default:
		search(ck, &j, enc, func() { started.Store(time.Now().UnixNano()) })
	}
	os.Exit(0)
}

func oneReport(c *Ctx, log bool) *wreport {
	r := &wreport{Kind: "fail", Seed: c.Seed, Hash: c.Hash, Failure: c.Failure, FailKind: c.FailKind, Choices: c.C.Record(), Known: map[string]int{}}
	if c.Failure == "" {
		r.Kind = "done"
	}
	for _, k := range c.Known {
		r.Known[k]++
	}
	if log {
		r.Trace = c.Trace
	}
	return r
}

func mix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 + b + 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return (z ^ (z >> 31)) >> 8 // fits a float exactly enough for JSON readers
}

func search(ck *Check, j *job, enc *json.Encoder, tick func()) {
	t0 := time.Now()
	n := 0
	agg := newAgg()
	states := map[uint64]bool{}
	hashes := map[uint64]bool{}
	for i := j.Index; ; i += j.Stride {
		if n > 0 && time.Since(t0).Seconds() > j.Seconds && i >= ck.MinRuns {
			break
		}
		if j.MaxRuns > 0 && n >= j.MaxRuns {
			break
		}
		tick()
		seed := mix(j.Base, uint64(i))
		enc.Encode(&wreport{Kind: "start", Seed: seed})
		c := execute(ck, seed, nil, false, j.Deep)
		n++
		agg.addCtx(c, states, hashes)
		if c.Failure != "" {
			enc.Encode(oneReport(c, false))
			break
		}
		// Every so often, run a seed again: it must do exactly the same.
		if n%40 == 1 {
			tick()
			d := execute(ck, seed, nil, n == 1, j.Deep)
			if n == 1 {
				enc.Encode(&wreport{Kind: "sample", Sample: sampleOf(d)})
			}
			if d.Hash != c.Hash || d.Failure != c.Failure {
				enc.Encode(&wreport{Kind: "nondet", Seed: seed})
			}
			agg.Notes["determinism_reruns"]++
		}
	}
	agg.Kind = "stats"
	for k := range states {
		agg.States = append(agg.States, k)
	}
	for k := range hashes {
		agg.Hashes = append(agg.Hashes, k)
	}
	enc.Encode(agg)
}

// sampleOf describes a run.
func sampleOf(c *Ctx) map[string]interface{} {
	var l []string
	for _, t := range c.Trace {
		if strings.HasPrefix(t, "spawn ") || strings.HasPrefix(t, "exit ") || strings.HasPrefix(t, "kill") || strings.HasPrefix(t, "powerloss") {
			if len(t) > 200 {
				t = t[:200]
			}
			l = append(l, t)
		}
	}
	if len(l) > 16 {
		l = append(l[:16:16], fmt.Sprintf("... %d more", len(l)-16))
	}
	return map[string]interface{}{"seed": c.Seed, "execution": fmt.Sprintf("%016x", c.Hash), "commands": l,
		"checks": c.Evals, "system_calls": c.Syscalls, "statements": c.Steps, "faults": c.Injected, "notes": c.Notes}
}

func newAgg() *wreport {
	return &wreport{Injected: map[string]int{}, Notes: map[string]int{}, Known: map[string]int{}}
}

func (a *wreport) addCtx(c *Ctx, states, hashes map[uint64]bool) {
	a.Runs++
	a.Evals += c.Evals
	if c.Nontriv {
		a.Nontriv++
	}
	a.Worlds += c.Worlds
	a.Procs += c.Procs
	a.SimNS += c.SimNS
	a.Steps += c.Steps
	a.Switches += c.Switches
	a.Syscalls += c.Syscalls
	for k, n := range c.Injected {
		a.Injected[k] += n
	}
	for k, n := range c.Notes {
		a.Notes[k] += n
	}
	for _, k := range c.Known {
		a.Known[k]++
	}
	for k := range c.States {
		states[k] = true
	}
	if c.Nontriv {
		hashes[c.Hash] = true
	}
}

// ------------------------------------------------------------- shrinking

func shrink(ck *Check, j *job, tick func()) *wreport {
	best := execute(ck, j.Seed, j.Choices, false, j.Deep)
	tries := 0
	t0 := time.Now()
	rep := oneReport(best, false)
	if best.Failure == "" {
		return rep
	}
	cur := best.C.Record()
	try := func(cand map[string][]uint32) bool {
		if time.Since(t0).Seconds() > j.Seconds {
			return false
		}
		tries++
		tick()
		c := execute(ck, j.Seed, cand, false, j.Deep)
		if c.Failure != "" && c.FailKind == best.FailKind {
			cur = c.C.Record()
			rep = oneReport(c, false)
			return true
		}
		return false
	}
	clone := func() map[string][]uint32 {
		m := map[string][]uint32{}
		for k, v := range cur {
			m[k] = append([]uint32{}, v...)
		}
		return m
	}
	names := func() []string {
		var l []string
		for k := range cur {
			l = append(l, k)
		}
		sort.Strings(l)
		return l
	}
	over := func() bool { return time.Since(t0).Seconds() > j.Seconds }
	for round := 0; round < 4 && !over(); round++ {
		before := size(cur)
		// drop whole streams
		for _, n := range names() {
			if len(cur[n]) > 0 {
				c := clone()
				delete(c, n)
				try(c)
			}
		}
		// truncate streams
		for _, n := range names() {
			for lo, hi := 0, len(cur[n]); lo < hi && !over(); {
				m := (lo + hi) / 2
				c := clone()
				if m > len(c[n]) {
					break
				}
				c[n] = c[n][:m]
				if try(c) {
					hi = len(cur[n])
					if hi > m {
						hi = m
					}
				} else {
					lo = m + 1
				}
			}
		}
		// zero and delete spans
		for _, n := range names() {
			for sp := len(cur[n]); sp >= 1 && !over(); sp /= 2 {
				for o := 0; o < len(cur[n]) && !over(); o += sp {
					e := o + sp
					if e > len(cur[n]) {
						e = len(cur[n])
					}
					nz := false
					for _, v := range cur[n][o:e] {
						if v != 0 {
							nz = true
						}
					}
					c := clone()
					c[n] = append(c[n][:o:o], c[n][e:]...)
					if try(c) {
						o -= sp
						continue
					}
					if nz {
						c = clone()
						for k := o; k < e; k++ {
							c[n][k] = 0
						}
						try(c)
					}
				}
			}
		}
		// lower values
		for _, n := range names() {
			for o := 0; o < len(cur[n]) && !over(); o++ {
				for cur[n][o] > 0 {
					c := clone()
					c[n][o] /= 2
					if !try(c) || o >= len(cur[n]) {
						break
					}
				}
			}
		}
		if size(cur) >= before {
			break
		}
	}
	rep.Runs = tries
	return rep
}

func size(m map[string][]uint32) int {
	n := 0
	for _, v := range m {
		n += len(v)
		for _, x := range v {
			if x != 0 {
				n++
			}
		}
	}
	return n
}

// ------------------------------------------------------------- master

var scratch string

func startWorker(j *job) (*exec.Cmd, io.ReadCloser, *bytes.Buffer, error) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "worker")
	b, _ := json.Marshal(j)
	cmd.Stdin = bytes.NewReader(b)
	errb := &bytes.Buffer{}
	cmd.Stderr = errb
	cmd.Dir = scratch
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + scratch, "TMPDIR=" + scratch, "TZ=UTC", "LANG=C", "GOTRACEBACK=single", "SIM_KNOWN_TEXT=" + knownText()}
	if v := os.Getenv("SIM_STUCK"); v != "" {
		cmd.Env = append(cmd.Env, "SIM_STUCK="+v)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if os.Getuid() == 0 {
		// Whatever escapes the simulation can reach nothing real.
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534}
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, nil, nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, nil, nil, err
	}
	return cmd, out, errb, nil
}

// runJob runs a job that gives one report.
func runJob(j *job) (*wreport, string) {
	// Pdeathsig is tied to the starting thread.
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	cmd, out, errb, err := startWorker(j)
	if err != nil {
		return nil, err.Error()
	}
	var r wreport
	derr := json.NewDecoder(out).Decode(&r)
	io.Copy(io.Discard, out)
	werr := cmd.Wait()
	if derr != nil || werr != nil {
		return nil, fmt.Sprintf("%v: %s", werr, tail2(errb.String(), 3000))
	}
	return &r, ""
}

func tail2(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

type replayDoc struct {
	Property string
	Message  string
	Kind     string
	Seed     uint64
	Deep     bool
	FromSeed bool `json:",omitempty"` // the choices are those of the seed
	Choices  map[string][]uint32
	Hash     uint64
	Shrunk   int
	Trace    []string
}

func master(prop, outDir string) int {
	ck := checks[prop]
	if ck == nil {
		fmt.Fprintf(os.Stderr, "no check for %s in this build\n", prop)
		return 2
	}
	tier := env("SIM_TIER", env("VERIF_TIER", "quick"))
	base, _ := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	secs := 35.0
	deep := tier == "thorough"
	if deep {
		secs = 600
	}
	if v := os.Getenv("SIM_BUDGET"); v != "" {
		secs, _ = strconv.ParseFloat(v, 64)
	}
	nw := envInt("SIM_WORKERS", runtime.NumCPU())
	scratch, _ = os.MkdirTemp("", "btrsim-run-")
	defer os.RemoveAll(scratch)
	os.Chmod(scratch, 0777)

	t0 := time.Now()
	type res struct {
		r    *wreport
		died string
		last uint64
	}
	ch := make(chan res, 1024)
	var cmds []*exec.Cmd
	stop := func() {
		for _, c := range cmds {
			c.Process.Kill()
		}
	}
	running := 0
	for i := 0; i < nw; i++ {
		j := &job{Mode: "search", Property: prop, Base: base, Index: i, Stride: nw, Seconds: secs, Deep: deep, MaxRuns: envInt("SIM_MAXRUNS", 0)}
		started := make(chan error)
		go func() {
			runtime.LockOSThread()
			cmd, out, errb, err := startWorker(j)
			if err == nil {
				cmds = append(cmds, cmd)
			}
			started <- err
			if err != nil {
				return
			}
			sc := bufio.NewReaderSize(out, 1<<20)
			dec := json.NewDecoder(sc)
			last := uint64(0)
			ended := false
			for {
				var r wreport
				if err := dec.Decode(&r); err != nil {
					break
				}
				if r.Kind == "start" {
					last = r.Seed
					continue
				}
				if r.Kind == "stats" {
					ended = true
				}
				ch <- res{r: &r, last: last}
			}
			werr := cmd.Wait()
			if !ended {
				ch <- res{died: fmt.Sprintf("%v: %s", werr, tail2(errb.String(), 4000)), last: last}
			}
			ch <- res{last: ^uint64(0)}
		}()
		if err := <-started; err != nil {
			fmt.Fprintln(os.Stderr, "cannot start worker:", err)
			stop()
			return 2
		}
		running++
	}
	agg := newAgg()
	states, hashes := map[uint64]bool{}, map[uint64]bool{}
	var fail *wreport
	samples := []interface{}{}
	nondet := 0
	died := map[uint64]string{}
	deadline := time.After(time.Duration(secs)*time.Second + 300*time.Second)
	killed := false
	for running > 0 {
		select {
		case x := <-ch:
			switch {
			case x.r == nil && x.died == "" && x.last == ^uint64(0):
				running--
			case x.died != "":
				if !killed {
					died[x.last] = x.died
				}
			case x.r.Kind == "fail":
				if fail == nil || fail.FailKind == "harness" && x.r.FailKind != "harness" {
					fail = x.r
				}
				if !killed {
					killed = true
					// give the others a moment to report statistics? no: stop
					stop()
				}
			case x.r.Kind == "sample":
				if len(samples) < 4 {
					samples = append(samples, x.r.Sample)
				}
			case x.r.Kind == "nondet":
				nondet++
				fmt.Fprintf(os.Stderr, "seed %d does not repeat exactly\n", x.r.Seed)
			case x.r.Kind == "stats":
				merge(agg, x.r, states, hashes)
			}
		case <-deadline:
			killed = true
			stop()
			fmt.Fprintln(os.Stderr, "workers did not end in time")
		}
	}
	searchS := time.Since(t0).Seconds()
	replayDir := env("SIM_REPLAYS", filepath.Join(outDir, "replays"))
	os.MkdirAll(replayDir, 0755)
	code := 0
	msg := ""
	if fail == nil {
		// A worker that died: does its seed do it again?
		for seed, why := range died {
			r, e := runJob(&job{Mode: "one", Property: prop, Seed: seed, Deep: deep})
			if r != nil && r.Kind == "fail" {
				fail = r
			} else if r == nil {
				fail = &wreport{Kind: "fail", Seed: seed, FailKind: "died", Failure: "died: the process under simulation took the simulator down: " + firstLines(e, 12)}
			} else {
				fmt.Fprintf(os.Stderr, "a worker died (%s) but its seed %d runs\n", firstLines(why, 6), seed)
			}
		}
	}
	if fail != nil {
		doc := &replayDoc{Property: prop, Message: fail.Failure, Kind: fail.FailKind, Seed: fail.Seed, Deep: deep, Choices: fail.Choices}
		if fail.FailKind == "died" {
			doc.FromSeed = true
		} else {
			sh := 25.0
			if deep {
				sh = 120
			}
			r, e := runJob(&job{Mode: "shrink", Property: prop, Seed: fail.Seed, Choices: fail.Choices, Seconds: float64(envInt("SIM_SHRINK", int(sh))), Deep: deep})
			if r != nil && r.Kind == "fail" {
				doc.Message, doc.Kind, doc.Choices, doc.Shrunk = r.Failure, r.FailKind, r.Choices, r.Runs
			} else if e != "" {
				fmt.Fprintln(os.Stderr, "shrinking failed:", e)
			}
			// The replay file must show it again, twice and identically.
			a, e1 := runJob(&job{Mode: "one", Property: prop, Seed: doc.Seed, Choices: doc.Choices, KeepLog: true, Deep: deep})
			b, _ := runJob(&job{Mode: "one", Property: prop, Seed: doc.Seed, Choices: doc.Choices, KeepLog: true, Deep: deep})
			if a == nil || a.Kind != "fail" {
				// fall back to the unshrunk choices
				fmt.Fprintln(os.Stderr, "the shrunk replay does not fail again", e1)
				doc.Choices, doc.Message, doc.Kind, doc.Shrunk = fail.Choices, fail.Failure, fail.FailKind, 0
				a, _ = runJob(&job{Mode: "one", Property: prop, Seed: doc.Seed, Choices: doc.Choices, KeepLog: true, Deep: deep})
			}
			if a != nil {
				doc.Hash = a.Hash
				doc.Trace = a.Trace
				if len(doc.Trace) > 4000 {
					doc.Trace = append(doc.Trace[:2000:2000], doc.Trace[len(doc.Trace)-2000:]...)
				}
				if b != nil && (b.Hash != a.Hash || b.Failure != a.Failure) {
					nondet++
				}
			}
		}
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", prop, doc.Seed))
		b, _ := json.MarshalIndent(doc, "", " ")
		os.WriteFile(path, b, 0644)
		msg = doc.Message
		fmt.Println(msg)
		if doc.Kind == "harness" {
			fmt.Fprintln(os.Stderr, "the harness itself failed; this says nothing about the property")
			return 2
		}
		fmt.Printf("seed %d, %d shrinking runs, replay: %s\n", doc.Seed, doc.Shrunk, "check.sh replay "+path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		code = 1
	}
	var kf []string
	for k := range knownFindings() {
		kf = append(kf, k)
	}
	sort.Strings(kf)
	for _, k := range kf {
		if strings.HasPrefix(k, prop+"/") {
			id := k[len(prop)+1:]
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (met %d times in this run)\n", prop, id, knownFindings()[k], agg.Known[id])
		}
	}
	writeEvidence(ck, tier, base, agg, samples, len(states), len(hashes), searchS, time.Since(t0).Seconds(), code, nondet, msg)
	fmt.Printf("%s %s: %d runs, %d worlds, %d processes, %d checks, %.0f s simulated, %d distinct executions, %d states, %.1f s, faults %v, notes %v\n",
		prop, tier, agg.Runs, agg.Worlds, agg.Procs, agg.Evals, float64(agg.SimNS)/1e9, len(hashes), len(states), searchS, agg.Injected, agg.Notes)
	if code == 0 && agg.Runs == 0 {
		fmt.Fprintln(os.Stderr, "nothing was run")
		return 2
	}
	return code
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func sortedKeys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func merge(a, r *wreport, states, hashes map[uint64]bool) {
	a.Runs += r.Runs
	a.Evals += r.Evals
	a.Nontriv += r.Nontriv
	a.Worlds += r.Worlds
	a.Procs += r.Procs
	a.SimNS += r.SimNS
	a.Steps += r.Steps
	a.Switches += r.Switches
	a.Syscalls += r.Syscalls
	for k, n := range r.Injected {
		a.Injected[k] += n
	}
	for k, n := range r.Notes {
		a.Notes[k] += n
	}
	for k, n := range r.Known {
		a.Known[k] += n
	}
	for _, k := range r.States {
		states[k] = true
	}
	for _, k := range r.Hashes {
		hashes[k] = true
	}
}

// assumptions all checks share.
var assumptions = []string{
	"the simulated operating system does what Linux does for the calls btrfscue makes",
	"the simulator's rewriting of the sources (scheduling points, sorted or seeded map iteration, shims for os, syscall, time, sync, signal and FUSE mounting) keeps their meaning",
	"the Go compiler and runtime, cobra, pflag and pb are not under test",
}

func level(ck *Check) string {
	if ck.Faults {
		return "fault_enumeration"
	}
	return "exploration"
}

func writeEvidence(ck *Check, tier string, seed uint64, a *wreport, samples []interface{}, states, hashes int, searchS, wall float64, code, nondet int, msg string) {
	path := os.Getenv("SIM_EVIDENCE")
	if path == "" {
		return
	}
	viol := 0
	if code == 1 {
		viol = 1
	}
	perHour := 0.0
	if searchS > 0 {
		perHour = float64(a.Runs) / searchS * 3600
	}
	ev := map[string]interface{}{
		"property": ck.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    level(ck),
		"coverage": map[string]interface{}{
			"evaluations":            a.Runs,
			"distinct_nontrivial":    hashes,
			"rule":                   "An evaluation is one simulated run: one seed decides world, inputs, schedule and faults. Runs are distinct if their hashes over every system call, result and output (and scheduled task, where tasks are interleaved) differ. " + ck.Rule,
			"samples":                samples,
			"oracle_checks":          a.Evals,
			"seeds_per_hour":         int(perHour),
			"simulated_worlds":       a.Worlds,
			"simulated_processes":    a.Procs,
			"simulated_seconds":      float64(a.SimNS) / 1e9,
			"statements_executed":    a.Steps,
			"simulated_syscalls":     a.Syscalls,
			"task_switches":          a.Switches,
			"distinct_states":        states,
			"distinct_state_rule":    "abstract states marked by the check: shape of the world, outcome of the commands, faults met",
			"faults_injected":        a.Injected,
			"events":                 a.Notes,
			"determinism_mismatches": nondet,
			"real_components":        "all of btrfscue's packages (cmd, internal, pkg), bbolt and go-fuse's nodefs layer, compiled from the working tree with scheduling points; cobra, pflag and pb from the module cache",
			"stubbed_components":     "operating system (files, locks, mmap over a memfd, signals, clock, randomness, scheduler, exit) and the FUSE kernel interface with go-fuse's server loop",
		},
		"assumptions": append(append([]string{}, assumptions...), ck.Assume...),
		"wall_s":      wall,
		"violations":  viol,
		"violation":   msg,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0755)
	os.WriteFile(path, append(b, '\n'), 0644)
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var doc replayDoc
	if err := json.Unmarshal(b, &doc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	scratch, _ = os.MkdirTemp("", "btrsim-run-")
	defer os.RemoveAll(scratch)
	os.Chmod(scratch, 0777)
	ch := doc.Choices
	if doc.FromSeed {
		ch = nil
	} else if ch == nil {
		ch = map[string][]uint32{}
	}
	r, e := runJob(&job{Mode: "one", Property: doc.Property, Seed: doc.Seed, Choices: ch, KeepLog: true, Deep: doc.Deep})
	if r == nil {
		if doc.FromSeed {
			fmt.Println(firstLines(e, 20))
			fmt.Printf("VIOLATION property=%s replay=%s\n", doc.Property, path)
			return 1
		}
		fmt.Fprintln(os.Stderr, e)
		return 2
	}
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	if r.Kind != "fail" {
		fmt.Println("the replay does not fail")
		return 0
	}
	fmt.Println(r.Failure)
	if r.Hash == doc.Hash {
		fmt.Println("identical to the recorded execution")
	} else if doc.Hash != 0 {
		fmt.Printf("execution %x, recorded %x\n", r.Hash, doc.Hash)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", doc.Property, path)
	return 1
}

// runOne runs one seed in this process, for development.
func runOne(prop string, seed uint64) int {
	ck := checks[prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no check", prop)
		return 2
	}
	out := quiet()
	if v := os.Getenv("SIM_PROF"); v != "" { // development only
		f, _ := os.Create(v)
		pprof.StartCPUProfile(f)
		for i := uint64(0); i < 100; i++ {
			execute(ck, seed+i, nil, false, false)
		}
		pprof.StopCPUProfile()
		f.Close()
	}
	t0 := time.Now()
	c := execute(ck, seed, nil, true, os.Getenv("SIM_TIER") == "thorough")
	if os.Getenv("SIM_TRACE") != "" {
		for _, l := range c.Trace {
			fmt.Fprintln(out, l)
		}
	}
	fmt.Fprintf(out, "seed %d hash %x: %s\n%v worlds %d procs %d steps %d evals %d sim %.3f s states %d injected %v notes %v known %v\n", seed, c.Hash, c.Failure,
		time.Since(t0), c.Worlds, c.Procs, c.Steps, c.Evals, float64(c.SimNS)/1e9, len(c.States), c.Injected, c.Notes, c.Known)
	if c.Failure != "" {
		return 1
	}
	return 0
}

var _ = simrt.Steps
