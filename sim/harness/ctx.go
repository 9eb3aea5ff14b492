//go:build go1.22

package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"btrsim/simrt"
)

// Check is the simulation that decides one property.
type Check struct {
	ID     string
	Run    func(c *Ctx)
	Rule   string
	Faults bool // the faults of a run are what is enumerated
	Assume []string
	// Weight is how many seeds a quick run is expected to need at least.
	MinRuns int
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Ctx is one seeded execution of a check.
type Ctx struct {
	Check   *Check
	Seed    uint64
	C       *simrt.Choices
	S       *simrt.Sim
	Deep    bool
	KeepLog bool
	Trace   []string
	Worlds  int
	// results
	Failure   string
	FailKind  string
	Known     []string
	Injected  map[string]int
	States    map[uint64]bool
	SimNS     int64
	Steps     uint64
	Switches  int
	Hash      uint64
	Evals     int
	Nontriv   bool
	Procs     int
	Notes     map[string]int
	Syscalls  int
	lastNotes []string
}

type failAbort struct{}

// Gen returns a named stream of choices.
func (c *Ctx) Gen(name string) simrt.Gen { return simrt.Gen{C: c.C, Name: name} }

// Fail reports a violation and ends the run.
func (c *Ctx) Fail(kind, format string, a ...interface{}) {
	if c.Failure == "" { // the first one counts
		c.FailKind = kind
		c.Failure = kind + ": " + fmt.Sprintf(format, a...)
	}
	panic(failAbort{})
}

// Go runs part of a check as a process of the simulation, which may call Fail.
// Whoever runs the simulation has to call Settle.
func (c *Ctx) Go(name string, fn func()) *simrt.Proc {
	return c.S.SpawnFunc(name, func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(failAbort); !ok && c.Failure == "" {
					c.FailKind = "harness"
					c.Failure = fmt.Sprintf("harness: %v\n%s", r, trimStack(string(debug.Stack())))
				}
			}
		}()
		fn()
	})
}

// Settle ends the run if a process of the check has failed.
func (c *Ctx) Settle() {
	if c.Failure != "" {
		panic(failAbort{})
	}
}

// IsKnown tells whether a violation is listed as a known finding; if so, it is
// counted and must not be reported.
func (c *Ctx) IsKnown(id string) bool {
	if knownFindings()[c.Check.ID+"/"+id] == "" {
		return false
	}
	c.Known = append(c.Known, id)
	return true
}

// knownText is the file of known findings; workers get it from their master.
func knownText() string {
	if t := os.Getenv("SIM_KNOWN_TEXT"); t != "" {
		return t
	}
	b, _ := os.ReadFile(os.Getenv("SIM_KNOWN"))
	return string(b)
}

var knownList map[string]string

// knownFindings reads the list of defects that are not repaired.
func knownFindings() map[string]string {
	if knownList == nil {
		knownList = map[string]string{}
		for _, l := range strings.Split(knownText(), "\n") {
			var prop, id string
			if n, _ := fmt.Sscanf(l, "known: property=%s id=%s", &prop, &id); n == 2 {
				f := strings.SplitN(l, " ", 4)
				knownList[prop+"/"+id] = f[3]
			}
		}
	}
	return knownList
}

// Count counts an event for the coverage statistics.
func (c *Ctx) Count(name string) { c.Notes[name]++ }

// NewSim starts a new world; the previous one ends.
func (c *Ctx) NewSim() *simrt.Sim {
	c.EndSim()
	s := simrt.NewSim(c.C)
	s.KeepLog = c.KeepLog
	s.SetHeapBase()
	c.S = s
	c.Worlds++
	return s
}

// EndSim finishes the current world and collects its statistics.
func (c *Ctx) EndSim() {
	s := c.S
	if s == nil {
		return
	}
	c.S = nil
	for _, p := range s.Procs {
		c.Syscalls += p.SysN
	}
	c.Procs += len(s.Procs)
	c.SimNS += s.Now - s.Start
	c.Steps += simrt.Steps()
	c.Switches += s.Switches
	s.End()
	c.Hash = c.Hash*31 + s.EventHash
	for k, n := range s.Injected {
		c.Injected[k] += n
	}
	for k := range s.States {
		c.States[k] = true
	}
	if s.KeepLog {
		c.Trace = append(c.Trace, s.Events...)
	}
}

// execute runs one seed of a check.
func execute(ck *Check, seed uint64, replay map[string][]uint32, keepLog, deep bool) (c *Ctx) {
	c = &Ctx{Check: ck, Seed: seed, C: simrt.NewChoices(seed, replay), KeepLog: keepLog, Deep: deep,
		Injected: map[string]int{}, States: map[uint64]bool{}, Notes: map[string]int{}}
	defer func() {
		r := recover()
		if r != nil {
			if _, ok := r.(failAbort); !ok {
				c.FailKind = "harness"
				c.Failure = fmt.Sprintf("harness: %v\n%s", r, trimStack(string(debug.Stack())))
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil && c.Failure == "" {
					c.FailKind = "harness"
					c.Failure = fmt.Sprintf("harness: %v\n%s", r, trimStack(string(debug.Stack())))
				}
			}()
			c.EndSim()
		}()
	}()
	ck.Run(c)
	return c
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

// ------------------------------------------------------------- running

// Run runs the world until nothing can go on, and fails on races if tracked.
func (c *Ctx) Run() { c.S.Run() }

// Exec runs one command to its end in slot 0 and returns the process.
func (c *Ctx) Exec(name string, args ...string) *simrt.Proc {
	p := c.S.Spawn(0, name, append([]string{"btrfscue"}, args...)...)
	c.S.Run()
	return p
}

// MustEnd fails if a process crashed, hangs or is still running.
func (c *Ctx) MustEnd(p *simrt.Proc, what string) {
	if p.Crash != "" {
		c.Fail("crash", "%s (%s) crashed: %s; stderr %q", p.Name, what, p.Outcome(), tail(p.Stderr.String()))
	}
	if !p.Exited {
		c.Fail("hang", "%s (%s) hangs: %s", p.Name, what, c.S.Blocked(p))
	}
}

// MustSucceed fails unless a process exited with status 0.
func (c *Ctx) MustSucceed(p *simrt.Proc, what string) {
	c.MustEnd(p, what)
	if p.Code != 0 || p.Killed != "" {
		c.Fail("status", "%s (%s) failed: %s; stderr %q", p.Name, what, p.Outcome(), tail(p.Stderr.String()))
	}
}

func tail(s string) string {
	if len(s) > 300 {
		s = "..." + s[len(s)-300:]
	}
	return s
}

func u(n int) string { return fmt.Sprint(n) }
