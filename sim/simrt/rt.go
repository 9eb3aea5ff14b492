// Package simrt is the simulator: one world of simulated processes, whose
// tasks run one at a time under a seeded scheduler, with a simulated clock,
// file system, signals and FUSE kernel interface.
package simrt

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"unsafe"
)

var (
	steps     uint64
	nextEvent uint64 = ^uint64(0)
	cur       *Task
	raceOn    bool

	// S is the current world.
	S *Sim
)

const never = ^uint64(0)

// Step is called before every statement of simulated code.
func Step() {
	steps++
	if steps >= nextEvent {
		slowStep()
	}
}

// Boot functions of the copies of the program, by slot.
var Slots []func()

type taskState int

const (
	tRunnable taskState = iota
	tBlocked
	tDone
)

type Task struct {
	ID       int
	Proc     *Proc
	Name     string
	wake     chan struct{}
	state    taskState
	ready    func() bool
	deadline int64 // simulated ns, 0 = none
	why      string
	vc       vclock
	prio     int
	skipped  int // times it could run and did not
	fn       func()
}

// How a process ended.
type Proc struct {
	ID      int
	Slot    int
	Name    string
	Args    []string
	Env     map[string]string
	Cwd     *Inode
	CwdPath string
	Stdout  bytes.Buffer
	Stderr  bytes.Buffer
	// OnOutput, if set, sees every write to stdout (1) or stderr (2).
	Started  bool
	Exited   bool
	Code     int
	Killed   string // signal or power loss
	Crash    string // unrecovered panic, fatal error, deadlock, hang
	Stack    string
	dead     bool
	live     int
	fds      map[int]*OFD
	nextFD   int
	FDLimit  int // 0: no limit
	MaxFDs   int // highest number of descriptors in use
	notify   []*sigReg
	ignored  map[int]bool
	Umask    uint32
	SysN     int // number of effectful or readable system calls so far
	StepFrom uint64
	KillSys  int // kill before (or inside) this system call; 0 = never
	KillPart int // for a write: how much of it reaches the file, in 1/8
	KillStep uint64
	OutErrno map[int]int // errno for writes to stdout/stderr
	// OutFault, if set, decides how much of a write to stdout is taken, and
	// whether the write fails.
	OutFault func(n int) (int, syscall.Errno)
	Log      []*SysEvent
	mmaps    map[uintptr]*mapping
	Harness  bool
	rand     *rand.Rand
}

type sigReg struct {
	send func(sig int) // delivers to the channel without blocking
	sigs map[int]bool  // nil = all
	key  unsafe.Pointer
}

type Sim struct {
	C       *Choices
	FS      *FS
	Now     int64
	tasks   []*Task
	Procs   []*Proc
	nextTID int
	driver  chan struct{}
	// StopWhen, if set, ends Run at the next scheduling point when true.
	StopWhen  func() bool
	StepLimit uint64
	// OnProbe is called when a process has found that there is no such entry
	// in a directory, and may create one.
	OnProbe func(p *Proc, dir *Inode, name string)
	runStart  uint64
	Switches  int
	Deadlock  string
	Races     []string
	raceSeen  map[string]bool
	RaceTrack bool
	shadow    map[uintptr]*shadowCell
	rootVC    vclock
	chans     map[unsafe.Pointer]*chanState
	Faults    []*Fault
	Injected  map[string]int
	EventHash uint64
	Events    []string
	KeepLog   bool
	mode      int
	sticky    int
	quantBits int
	prioLow   int
	prioHigh  int
	heapBase  uint64
	rng       uint64
	Fuse      *FuseKernel
	nextCheck uint64
	States    map[uint64]bool
	HeapLimit uint64
	MaxHeap   uint64
	ClockStep int64
	Latency   int64 // simulated ns a system call takes
	Reads     int64
	Start     int64
	TimeLimit int64
	atomics   map[unsafe.Pointer]*SyncVar
	// SingleRun: when true only blocking operations switch tasks.
}

var devNull *os.File

// NewSim starts a world.
func NewSim(c *Choices) *Sim {
	if devNull == nil {
		devNull, _ = os.OpenFile(os.DevNull, os.O_RDWR, 0)
	}
	s := &Sim{C: c, driver: make(chan struct{}), StepLimit: 4e8, Latency: 20e3, Injected: map[string]int{},
		raceSeen: map[string]bool{}, shadow: map[uintptr]*shadowCell{}, chans: map[unsafe.Pointer]*chanState{},
		States: map[uint64]bool{}, HeapLimit: 1 << 30, ClockStep: 1000}
	s.EventHash = 14695981039346656037
	s.Now = 1700000000 * 1e9
	s.Start = s.Now
	s.TimeLimit = 48 * 3600 * 1e9
	s.atomics = map[unsafe.Pointer]*SyncVar{}
	s.rng = c.Seed*2 + 1
	s.FS = newFS(s)
	s.Fuse = &FuseKernel{s: s, mounts: map[string]*FuseMount{}}
	S = s
	steps = 0
	nextEvent = never
	cur = nil
	raceOn = false
	return s
}

func (s *Sim) Gen(name string) Gen { return Gen{s.C, name} }

// ChooseSched draws the scheduling policy of this world.
func (s *Sim) ChooseSched() {
	g := s.Gen("sched")
	s.mode = g.Pick(1, 1, 2, 0)
	s.sticky = g.Pick(2, 4, 1, 16)
	s.quantBits = g.Range(1, 14)
}

// Sequential makes the scheduler switch tasks only when one blocks.
func (s *Sim) Sequential() { s.mode = 0 }

func (s *Sim) event(format string, a ...interface{}) {
	str := fmt.Sprintf(format, a...)
	s.eventStr(str)
}

func (s *Sim) eventStr(str string) {
	h := s.EventHash
	for i := 0; i < len(str); i++ {
		h = (h ^ uint64(str[i])) * 1099511628211
	}
	h = (h ^ 10) * 1099511628211
	s.EventHash = h
	if s.KeepLog {
		s.Events = append(s.Events, str)
	}
}

// Note adds a harness event to the history.
func (s *Sim) Note(format string, a ...interface{}) { s.event("# "+format, a...) }

// Mark records an abstract state for the coverage measure.
func (s *Sim) Mark(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	s.States[h.Sum64()] = true
}

func (s *Sim) Inject(kind string) { s.Injected[kind]++ }

// ------------------------------------------------------------- processes

// Spawn creates a process; it starts when Run gets to it.
func (s *Sim) Spawn(slot int, name string, args ...string) *Proc {
	p := s.newProc(name)
	p.Slot = slot
	p.Args = args
	p.StepFrom = steps
	s.spawnTask(p, name, nil, func() {
		p.Started = true
		for _, f := range OnBoot {
			f()
		}
		Slots[slot]()
		p.exit(0)
	})
	s.event("spawn %s %q", name, args)
	return p
}

// SpawnFunc creates a process that runs a harness function (a client, or code
// driving an exported API).
func (s *Sim) SpawnFunc(name string, fn func()) *Proc {
	p := s.newProc(name)
	p.Slot = -1
	p.StepFrom = steps
	s.spawnTask(p, name, nil, func() {
		p.Started = true
		fn()
		p.exit(0)
	})
	return p
}

func (s *Sim) newProc(name string) *Proc {
	p := &Proc{ID: len(s.Procs) + 1, Name: name, Env: map[string]string{}, fds: map[int]*OFD{}, nextFD: 3,
		Umask: 022, Cwd: s.FS.Root, CwdPath: "/", OutErrno: map[int]int{}, mmaps: map[uintptr]*mapping{}, ignored: map[int]bool{}}
	s.Procs = append(s.Procs, p)
	return p
}

func (s *Sim) spawnTask(p *Proc, name string, parent *Task, fn func()) *Task {
	s.nextTID++
	t := &Task{ID: s.nextTID, Proc: p, Name: name, wake: make(chan struct{}), fn: fn}
	p.live++
	if parent != nil {
		t.vc = parent.vc.clone()
		parent.vc = parent.vc.tick(parent.ID)
	} else {
		t.vc = s.rootVC.clone()
	}
	t.vc = t.vc.tick(t.ID)
	if s.mode == 2 {
		t.prio = s.Gen("sched").N(1000) + 1000
	}
	s.tasks = append(s.tasks, t)
	go t.main()
	return t
}

func (t *Task) main() {
	<-t.wake
	t.state = tRunnable
	cur = t
	t.setArgs()
	raceOn = S.RaceTrack && t.Proc.live > 1
	S.setEvent(t)
	debug.SetPanicOnFault(true)
	normal := false
	defer func() {
		if !normal {
			if r := recover(); r != nil {
				if !t.Proc.dead {
					t.Proc.Crash = fmt.Sprintf("panic: %v", r)
					t.Proc.Stack = cleanStack(string(debug.Stack()))
					t.Proc.end(2)
				}
			}
		}
		t.finish()
	}()
	if !t.Proc.dead {
		t.fn()
	}
	normal = true
}

func cleanStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "btrsim/slot") || strings.Contains(l, "btrsim/dep") {
			if strings.HasPrefix(l, "btrsim/") {
				if i := strings.LastIndex(l, "("); i > 0 {
					l = l[:i]
				}
				out = append(out, l)
			}
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, " < ")
}

func (t *Task) finish() {
	s := S
	t.state = tDone
	t.Proc.live--
	if t.Proc.live == 0 {
		t.Proc.unmapAll()
		if !t.Proc.dead {
			t.Proc.end(0)
		}
	}
	s.rootVC = s.rootVC.join(t.vc)
	for i, x := range s.tasks {
		if x == t {
			s.tasks = append(s.tasks[:i:i], s.tasks[i+1:]...)
			break
		}
	}
	s.next(nil)
}

// exit ends the current process with a status and does not return.
func (p *Proc) exit(code int) {
	if !p.dead {
		p.end(code)
	}
	runtime.Goexit()
}

func (p *Proc) end(code int) {
	p.dead = true
	p.Exited = true
	p.Code = code
	p.releaseAll()
	nextEvent = 0
	S.event("exit %s %d %s%s", p.Name, code, p.Killed, p.Crash)
}

// Kill ends a process from outside, as SIGKILL does.
func (p *Proc) Kill(why string) {
	if p.dead {
		return
	}
	p.Killed = why
	p.end(137)
}

func (p *Proc) Running() bool { return p.Started && !p.Exited }

// Fatal ends the current process like a runtime fatal error.
func fatalProc(msg string) {
	p := cur.Proc
	if !p.dead {
		p.Crash = msg
		p.Stack = cleanStack(string(debug.Stack()))
		p.end(2)
	}
	runtime.Goexit()
}

// Exit implements os.Exit.
func Exit(code int) {
	if cur == nil {
		os.Exit(code)
	}
	enter("exit")
	cur.Proc.exit(code)
}

func Cur() *Proc {
	if cur == nil {
		return nil
	}
	return cur.Proc
}

func CurTask() *Task { return cur }

// ------------------------------------------------------------- scheduling

func slowStep() {
	t := cur
	if t == nil {
		nextEvent = never
		return
	}
	if t.Proc.dead {
		runtime.Goexit()
	}
	s := S
	p := t.Proc
	if p.KillStep != 0 && steps-p.StepFrom >= p.KillStep {
		s.Inject("kill_at_step")
		p.Killed = "SIGKILL"
		p.end(137)
		runtime.Goexit()
	}
	if steps >= s.nextCheck {
		s.nextCheck = steps + 1<<16
		s.health()
	}
	if steps-s.runStart > s.StepLimit {
		fatalProc("hang: no end after the step budget")
	}
	if s.mode != 0 && len(s.tasks) > 1 {
		s.yield(t, true)
		return
	}
	s.setEvent(t)
}

var pcbuf [60000]uintptr

func (s *Sim) health() {
	if n := runtime.Callers(2, pcbuf[:]); n >= 50000 {
		fatalProc("stack overflow: unbounded recursion")
	}
	h := heapNow()
	if h > s.heapBase+s.HeapLimit {
		runtime.GC()
		h = heapNow()
	}
	if h > s.heapBase+s.HeapLimit {
		fatalProc(fmt.Sprintf("out of memory: more than %d MiB in use", s.HeapLimit>>20))
	}
	if h > s.MaxHeap {
		s.MaxHeap = h
	}
}

func heapNow() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// SetHeapBase records the heap in use before a run.
func (s *Sim) SetHeapBase() {
	runtime.GC()
	s.heapBase = heapNow()
}

// setEvent computes when the running task has to look up from its work.
func (s *Sim) setEvent(t *Task) {
	if t.Proc.dead {
		nextEvent = 0
		return
	}
	if s.nextCheck < steps || s.nextCheck > steps+1<<16 {
		s.nextCheck = steps + 1<<16
	}
	e := s.nextCheck
	if s.mode != 0 && s.others(t) {
		q := uint64(1) << uint(s.quantBits)
		if s.quantBits > 3 {
			q = 1 + uint64(s.Gen("sched").N(1<<uint(s.quantBits)))
		}
		if steps+q < e {
			e = steps + q
		}
	}
	if k := t.Proc.KillStep; k != 0 && t.Proc.StepFrom+k < e {
		e = t.Proc.StepFrom + k
	}
	nextEvent = e
}

func (s *Sim) others(t *Task) bool {
	for _, x := range s.tasks {
		if x != t && (x.state == tRunnable || x.state == tBlocked && (x.deadline != 0 && x.deadline <= s.Now || x.ready != nil && x.ready())) {
			return true
		}
	}
	return false
}

// Yield lets another task run, if the scheduler wants to.
func Yield() {
	t := cur
	if t == nil {
		return
	}
	if t.Proc.dead {
		runtime.Goexit()
	}
	s := S
	if s.mode == 0 || len(s.tasks) <= 1 {
		return
	}
	if s.mode == 1 && s.sticky > 1 && s.others(t) && s.Gen("sched").N(s.sticky) != s.sticky-1 {
		return
	}
	s.yield(t, false)
}

// Gosched always offers the processor.
func Gosched() {
	t := cur
	if t == nil {
		return
	}
	if t.Proc.dead {
		runtime.Goexit()
	}
	if t.prio > 0 {
		S.prioLow--
		t.prio = S.prioLow
	}
	S.yield(t, true)
}

func (s *Sim) yield(t *Task, force bool) {
	if s.mode == 2 && t.prio > 0 && force && s.others(t) && s.Gen("sched").N(8) == 7 {
		s.prioLow--
		t.prio = s.prioLow
	}
	s.next(t)
}

// block suspends the current task until ready() holds (or deadline passes).
func block(why string, deadline int64, ready func() bool) {
	t := cur
	if t.Proc.dead {
		runtime.Goexit()
	}
	t.state = tBlocked
	t.ready = ready
	t.deadline = deadline
	t.why = why
	S.next(t)
	t.ready = nil
	t.deadline = 0
}

func (s *Sim) pick() *Task {
	for {
		for _, t := range s.tasks {
			if t.Proc.dead {
				return t
			}
		}
		if s.StopWhen != nil && s.StopWhen() {
			return nil
		}
		var c []*Task
		for _, t := range s.tasks {
			if t.state == tRunnable || t.state == tBlocked && (t.deadline != 0 && t.deadline <= s.Now || t.ready != nil && t.ready()) {
				c = append(c, t)
			}
		}
		if len(c) == 1 {
			return c[0]
		}
		if len(c) > 1 {
			if s.mode == 2 {
				best := c[0]
				for _, t := range c[1:] {
					if t.prio > best.prio {
						best = t
					}
				}
				// Priorities are strict, but not for ever: processes that
				// poll must not keep the one they wait for from running.
				for _, t := range c {
					if t.skipped++; t.skipped > 500 && t != best {
						s.prioHigh++
						t.prio = 2000 + s.prioHigh
						best = t
					}
				}
				best.skipped = 0
				return best
			}
			if s.mode == 0 {
				// Goes on until it blocks, then it is the next one's turn.
				for _, t := range c {
					if cur != nil && t.ID >= cur.ID {
						return t
					}
				}
				return c[0]
			}
			return c[s.Gen("sched").N(len(c))]
		}
		var min int64
		for _, t := range s.tasks {
			if t.state == tBlocked && t.deadline != 0 && (min == 0 || t.deadline < min) {
				min = t.deadline
			}
		}
		if min == 0 || min > s.Start+s.TimeLimit {
			return nil
		}
		s.Now = min
	}
}

// next hands the processor to the next task; self is the task giving it up
// (nil if it ended).
func (s *Sim) next(self *Task) {
	n := s.pick()
	if n == nil {
		cur = nil
		nextEvent = never
		s.driver <- struct{}{}
		if self != nil {
			<-self.wake
			self.resume()
		}
		return
	}
	if n == self {
		self.resume()
		return
	}
	s.Switches++
	if n.Proc.live > 0 && s.mode != 0 {
		s.EventHash = (s.EventHash ^ uint64(n.ID)) * 1099511628211
	}
	cur = nil
	n.wake <- struct{}{}
	if self != nil {
		<-self.wake
		self.resume()
	}
}

func (t *Task) resume() {
	t.state = tRunnable
	cur = t
	t.setArgs()
	raceOn = S.RaceTrack && t.Proc.live > 1
	S.setEvent(t)
	if t.Proc.dead {
		runtime.Goexit()
	}
}

// Run runs the world until nothing can run any more (every process has ended
// or is blocked for good), or StopWhen holds.
func (s *Sim) Run() {
	s.runStart = steps
	s.Deadlock = ""
	n := s.pick()
	if n != nil {
		go func() { n.wake <- struct{}{} }()
		<-s.driver
	}
	cur = nil
	nextEvent = never
	raceOn = false
	os.Args = []string{"sim"}
}

// FDs is the number of descriptors in use, Tasks that of goroutines.
func (p *Proc) FDs() int { return len(p.fds) }
func (p *Proc) Tasks() (n int) {
	for _, t := range S.tasks {
		if t.Proc == p {
			n++
		}
	}
	return
}

// Blocked describes the blocked tasks of a process.
func (s *Sim) Blocked(p *Proc) string {
	var l []string
	for _, t := range s.tasks {
		if t.Proc == p {
			l = append(l, t.Name+": "+t.why)
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// End kills everything that is left.
func (s *Sim) End() {
	s.StopWhen = nil
	for _, p := range s.Procs {
		if !p.Exited {
			p.Kill("end of simulation")
		}
	}
	s.Run()
	s.FS.free()
	S = nil
}

func Steps() uint64 { return steps }

// Go starts a task in the current process.
func Go(fn func()) {
	if cur == nil {
		return // package initialiser outside a simulation
	}
	if cur.Proc.dead {
		runtime.Goexit()
	}
	S.spawnTask(cur.Proc, "goroutine", cur, fn)
	raceOn = S.RaceTrack && cur.Proc.live > 1
	S.setEvent(cur)
	Yield()
}

// GoNamed starts a named task in process p (used by the FUSE server).
func (s *Sim) GoNamed(p *Proc, name string, fn func()) *Task {
	var parent *Task
	if cur != nil && cur.Proc == p {
		parent = cur
	}
	t := s.spawnTask(p, name, parent, fn)
	if cur != nil {
		raceOn = S.RaceTrack && cur.Proc.live > 1
		S.setEvent(cur)
	}
	return t
}

func Zero[T any](p *T) {
	var z T
	*p = z
}

// Recovered sees the value of every recover() call.
func Recovered(v interface{}) interface{} { return v }

// MakeLen guards the length of a slice about to be allocated: what a real
// machine could not give ends the process as running out of memory does.
func MakeLen[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T, size int) T {
	if cur != nil && n > 0 && uint64(n) < 1<<47 && uint64(n) > allocLimit/uint64(size+1) {
		fatalProc(fmt.Sprintf("out of memory: allocating %d elements of %d bytes", uint64(n), size))
	}
	return n
}

var allocLimit uint64 = 512 << 20

func NumTasks() int {
	if cur == nil {
		return 1
	}
	return cur.Proc.live
}

// ------------------------------------------------------------- time

func NowNS() int64 {
	if S == nil {
		return 1700000000 * 1e9
	}
	if cur != nil {
		S.Now += S.ClockStep
	}
	return S.Now
}

func Sleep(ns int64) {
	if cur == nil {
		return
	}
	enter("sleep")
	if ns <= 0 {
		Yield()
		return
	}
	d := S.Now + ns
	block("sleep", d, func() bool { return S.Now >= d })
}

// Timer runs fn as a new task at the given time unless stopped.
type Timer struct {
	when    int64
	stopped bool
	fired   bool
	gen     int
	p       *Proc
	fn      func()
}

func NewTimer(d int64, fn func()) *Timer {
	t := &Timer{fn: fn}
	if cur == nil {
		return t
	}
	t.p = cur.Proc
	t.start(d)
	return t
}

func (t *Timer) start(d int64) {
	t.gen++
	gen := t.gen
	t.stopped, t.fired = false, false
	t.when = S.Now + d
	task := S.spawnTask(t.p, "timer", cur, func() {
		if t.stopped || t.gen != gen {
			return
		}
		t.fired = true
		t.fn()
	})
	task.state = tBlocked
	task.why = "timer"
	task.deadline = t.when
	if d <= 0 {
		task.deadline = S.Now
	}
	task.ready = func() bool { return t.stopped || t.gen != gen }
}

func (t *Timer) Stop() bool {
	was := !t.stopped && !t.fired
	t.stopped = true
	return was
}

func (t *Timer) Reset(d int64) bool {
	was := !t.stopped && !t.fired
	if t.p != nil {
		t.start(d)
	}
	return was
}

// ------------------------------------------------------------- signals

func Notify(key unsafe.Pointer, sigs []int, send func(sig int)) {
	if cur == nil {
		return
	}
	enter("notify")
	p := cur.Proc
	var r *sigReg
	for _, x := range p.notify {
		if x.key == key {
			r = x
		}
	}
	if r == nil {
		r = &sigReg{key: key, send: send, sigs: map[int]bool{}}
		p.notify = append(p.notify, r)
	}
	if len(sigs) == 0 {
		r.sigs = nil
	} else if r.sigs != nil {
		for _, n := range sigs {
			r.sigs[n] = true
		}
	}
	S.event("%s notify %v", p.Name, sigs)
	Yield()
}

func StopNotify(key unsafe.Pointer) {
	if cur == nil {
		return
	}
	enter("notify")
	p := cur.Proc
	for i, x := range p.notify {
		if x.key == key {
			p.notify = append(p.notify[:i:i], p.notify[i+1:]...)
			return
		}
	}
}

// ResetSignals undoes Notify and Ignore for the given signals (all if none).
func ResetSignals(sigs []int, ignore bool) {
	if cur == nil {
		return
	}
	enter("notify")
	p := cur.Proc
	if len(sigs) == 0 {
		p.notify = nil
		p.ignored = map[int]bool{}
		if ignore {
			p.ignored[2], p.ignored[15], p.ignored[1] = true, true, true
		}
		return
	}
	for _, n := range sigs {
		for _, r := range p.notify {
			if r.sigs != nil {
				delete(r.sigs, n)
			}
		}
		p.ignored[n] = ignore
	}
}

// Signal sends a signal to a process from outside.
func (p *Proc) Signal(sig int) string {
	if p.Exited {
		return "gone"
	}
	S.event("signal %s %d", p.Name, sig)
	got := false
	for _, r := range p.notify {
		if r.sigs == nil || r.sigs[sig] {
			got = true
			r.send(sig)
		}
	}
	if got {
		return "delivered"
	}
	if p.ignored[sig] {
		return "ignored"
	}
	p.Killed = fmt.Sprintf("signal %d", sig)
	p.end(128 + sig)
	return "killed"
}

// ------------------------------------------------------------- watchdog

var CurrentSeed atomic.Uint64

// ParsePanic is what a simulated process printed when it crashed.
func (p *Proc) Outcome() string {
	switch {
	case !p.Exited:
		return "running"
	case p.Crash != "":
		s := p.Crash
		if p.Stack != "" {
			s += " at " + p.Stack
		}
		return s
	case p.Killed != "":
		return "killed by " + p.Killed
	}
	return fmt.Sprintf("exit %d", p.Code)
}

// ------------------------------------------------------------- odds and ends

// OnBoot functions run at the start of every simulated process.
var OnBoot []func()

// ArgPtrs are the os.Args variables of the shims.
var ArgPtrs []*[]string

func (t *Task) setArgs() {
	os.Args = t.Proc.Args
	for _, p := range ArgPtrs {
		*p = t.Proc.Args
	}
}

// EnterNoYield only ends the task if its process is dead.
func EnterNoYield() {
	if cur != nil && cur.Proc.dead {
		runtime.Goexit()
	}
}

// FatalProc ends the process like an unrecoverable runtime error.
func FatalProc(msg string) { fatalProc(msg) }

// Choose draws from a named stream.
func Choose(stream string, n int) int { return S.C.N(stream, n) }

// GlobalRand is the global math/rand source of the current process.
func GlobalRand() *rand.Rand {
	if cur == nil {
		return rand.New(rand.NewSource(1))
	}
	p := cur.Proc
	if p.rand == nil {
		p.rand = rand.New(rand.NewSource(int64(S.Gen("rand").Seed64())))
	}
	return p.rand
}

func SeedRand(seed int64) {
	if cur != nil {
		cur.Proc.rand = rand.New(rand.NewSource(seed))
	}
}

func RandU64() uint64 { return GlobalRand().Uint64() }

// AtomicPoint is a scheduling point with the ordering of an atomic access.
func AtomicPoint(p unsafe.Pointer) {
	if cur == nil {
		return
	}
	enter("atomic")
	if raceOn {
		v := S.atomics[p]
		if v == nil {
			v = &SyncVar{}
			S.atomics[p] = v
		}
		v.Acquire()
		v.Release()
	}
}

// NewDaemonTimer is NewTimer; the name marks recurring timers.
func NewDaemonTimer(d int64, fn func()) *Timer { return NewTimer(d, fn) }
