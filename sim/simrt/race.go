package simrt

import (
	"fmt"
	"runtime"
	"strings"
	"unsafe"
)

// Happens-before race detection over the accesses simgen marks.

type vclock []uint32

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

func (v vclock) grow(n int) vclock {
	for len(v) <= n {
		v = append(v, 0)
	}
	return v
}

func (v vclock) tick(id int) vclock {
	v = v.grow(id)
	v[id]++
	return v
}

func (v vclock) join(o vclock) vclock {
	v = v.grow(len(o) - 1)
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}

func (v vclock) at(id int) uint32 {
	if id < len(v) {
		return v[id]
	}
	return 0
}

type access struct {
	task  int
	clock uint32
	pc    uintptr
}

type shadowCell struct {
	keep  unsafe.Pointer // keeps the object alive, so that its address is not reused
	write access
	reads []access
}

func callerPC() uintptr {
	var pc [1]uintptr
	runtime.Callers(5, pc[:])
	return pc[0]
}

func where(pc uintptr) string {
	f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	fn := f.Function
	if i := strings.Index(fn, "/slot"); i >= 0 {
		fn = fn[i+7:]
	}
	return fn
}

func raceCheck(p unsafe.Pointer, size uintptr, write bool) {
	if size == 0 {
		return
	}
	a := uintptr(p)
	n := size
	if n > 256 {
		n = 256
	}
	if size < 4 {
		raceCell(a, p, write)
		return
	}
	for o := uintptr(0); o < n; o += 4 {
		raceCell(a+o, p, write)
	}
}

func raceCell(a uintptr, p unsafe.Pointer, write bool) {
	s, t := S, cur
	c := s.shadow[a]
	if c == nil {
		c = &shadowCell{keep: p}
		s.shadow[a] = c
	}
	if c.write.task != 0 && c.write.task != t.ID && t.vc.at(c.write.task) < c.write.clock {
		s.reportRace("write", c.write, write)
	}
	if write {
		for _, r := range c.reads {
			if r.task != t.ID && t.vc.at(r.task) < r.clock {
				s.reportRace("read", r, true)
			}
		}
		if c.write.task != t.ID || c.write.clock != t.vc.at(t.ID) {
			c.write = access{t.ID, t.vc.at(t.ID), callerPC()}
		}
		c.reads = c.reads[:0]
		return
	}
	for i := range c.reads {
		if c.reads[i].task == t.ID {
			c.reads[i].clock = t.vc.at(t.ID)
			return
		}
	}
	c.reads = append(c.reads, access{t.ID, t.vc.at(t.ID), callerPC()})
}

func (s *Sim) reportRace(prev string, a access, write bool) {
	kind := "read"
	if write {
		kind = "write"
	}
	var pc [1]uintptr
	runtime.Callers(5, pc[:])
	msg := fmt.Sprintf("%s in %s races with earlier %s in %s", kind, where(pc[0]), prev, where(a.pc))
	if !s.raceSeen[msg] {
		s.raceSeen[msg] = true
		s.Races = append(s.Races, msg)
	}
}

// R marks a read of *p.
func R[T any](p *T) *T {
	if raceOn {
		raceR(unsafe.Pointer(p), unsafe.Sizeof(*p))
	}
	return p
}

// W marks a write of *p.
func W[T any](p *T) *T {
	if raceOn {
		raceW(unsafe.Pointer(p), unsafe.Sizeof(*p))
	}
	return p
}

//go:noinline
func raceR(p unsafe.Pointer, n uintptr) {
	if p != nil {
		raceCheck(p, n, false)
	}
}

//go:noinline
func raceW(p unsafe.Pointer, n uintptr) {
	if p != nil {
		raceCheck(p, n, true)
	}
}

func mapPtr[M any](m M) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&m)) }

func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if raceOn {
		raceR(mapPtr(m), 1)
	}
	return m
}

func MapW[M ~map[K]V, K comparable, V any](m M) M {
	if raceOn {
		raceW(mapPtr(m), 1)
	}
	return m
}

// SyncVar carries happens-before edges for shimmed synchronisation.
type SyncVar struct{ vc vclock }

// Acquire joins the history of v into the current task.
func (v *SyncVar) Acquire() {
	if cur != nil {
		cur.vc = cur.vc.join(v.vc)
	}
}

// Release publishes the current task's history into v.
func (v *SyncVar) Release() {
	if cur != nil {
		v.vc = v.vc.join(cur.vc)
		cur.vc = cur.vc.tick(cur.ID)
	}
}
