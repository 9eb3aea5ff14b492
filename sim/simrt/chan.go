package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Channels keep their identity (the real channel value) but their contents
// live here, so that the simulator decides who proceeds.

type selState struct {
	task *Task
	done bool
	idx  int
	val  interface{}
	ok   bool
	vc   vclock
}

type waiter struct {
	sel *selState
	idx int
	val interface{} // for senders
}

type chanState struct {
	ref    interface{}
	cap    int
	buf    []interface{}
	bufVC  []vclock
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	vc     vclock
}

func chanOf[C any](ch C, capacity int) *chanState {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	if p == nil {
		return nil
	}
	c := S.chans[p]
	if c == nil {
		c = &chanState{ref: ch, cap: capacity}
		S.chans[p] = c
	}
	return c
}

func live(q []*waiter) []*waiter {
	for len(q) > 0 && q[0].sel.done {
		q = q[1:]
	}
	return q
}

// trySend delivers v if that is possible without waiting.
func (c *chanState) trySend(v interface{}) bool {
	if c.closed {
		panic("send on closed channel")
	}
	c.recvq = live(c.recvq)
	if len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, true
		if cur != nil {
			w.sel.vc = cur.vc.clone()
			if c.cap == 0 {
				cur.vc = cur.vc.join(w.sel.task.vc)
			}
			cur.vc = cur.vc.tick(cur.ID)
		}
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		var vc vclock
		if cur != nil {
			vc = cur.vc.clone()
			cur.vc = cur.vc.join(c.vc)
			cur.vc = cur.vc.tick(cur.ID)
		}
		c.bufVC = append(c.bufVC, vc)
		return true
	}
	return false
}

func (c *chanState) tryRecv() (v interface{}, ok, got bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		cur.vc = cur.vc.join(c.bufVC[0])
		c.bufVC = c.bufVC[1:]
		c.vc = c.vc.join(cur.vc)
		cur.vc = cur.vc.tick(cur.ID)
		c.sendq = live(c.sendq)
		if len(c.sendq) > 0 {
			w := c.sendq[0]
			c.sendq = c.sendq[1:]
			c.buf = append(c.buf, w.val)
			c.bufVC = append(c.bufVC, w.sel.task.vc.clone())
			w.sel.done, w.sel.idx = true, w.idx
		}
		return v, true, true
	}
	c.sendq = live(c.sendq)
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		w.sel.done, w.sel.idx = true, w.idx
		cur.vc = cur.vc.join(w.sel.task.vc)
		w.sel.vc = cur.vc.clone()
		cur.vc = cur.vc.tick(cur.ID)
		return w.val, true, true
	}
	if c.closed {
		cur.vc = cur.vc.join(c.vc)
		return nil, false, true
	}
	return nil, false, false
}

func enterChan() {
	if cur.Proc.dead {
		enter("chan")
	}
	Yield()
}

func Send[T any](ch chan<- T, v T) {
	if cur == nil {
		ch <- v
		return
	}
	enterChan()
	c := chanOf(ch, cap(ch))
	if c == nil {
		block("send on nil channel", 0, func() bool { return false })
	}
	if c.trySend(v) {
		return
	}
	sel := &selState{task: cur}
	c.sendq = append(c.sendq, &waiter{sel, 0, v})
	block("chan send", 0, func() bool { return sel.done || c.closed })
	if sel.done {
		cur.vc = cur.vc.join(sel.vc).tick(cur.ID)
		return
	}
	sel.done = true
	panic("send on closed channel")
}

func conv[T any](v interface{}) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

func RecvOK[T any](ch <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-ch
		return v, ok
	}
	enterChan()
	c := chanOf(ch, cap(ch))
	if c == nil {
		block("receive from nil channel", 0, func() bool { return false })
	}
	if v, ok, got := c.tryRecv(); got {
		return conv[T](v), ok
	}
	select {
	case v, ok := <-ch:
		return v, ok
	default:
	}
	sel := &selState{task: cur}
	c.recvq = append(c.recvq, &waiter{sel, 0, nil})
	var rv T
	var rok, rgot bool
	block("chan receive", 0, func() bool {
		if !rgot && !sel.done && !c.closed {
			// A channel that code outside the simulator closes or sends to,
			// such as a context's.
			select {
			case rv, rok = <-ch:
				rgot = true
			default:
			}
		}
		return sel.done || c.closed || rgot
	})
	if rgot {
		sel.done = true
		return rv, rok
	}
	if sel.done {
		cur.vc = cur.vc.join(sel.vc).tick(cur.ID)
		return conv[T](sel.val), sel.ok
	}
	sel.done = true
	cur.vc = cur.vc.join(c.vc)
	var z T
	return z, false
}

func Recv[T any](ch <-chan T) T {
	v, _ := RecvOK(ch)
	return v
}

func CloseChan[T any](ch chan<- T) {
	if cur == nil {
		close(ch)
		return
	}
	enterChan()
	c := chanOf(ch, cap(ch))
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	c.vc = c.vc.join(cur.vc)
	cur.vc = cur.vc.tick(cur.ID)
}

func ChanLen[T any](ch <-chan T) int {
	if cur == nil {
		return len(ch)
	}
	if c := chanOf(ch, cap(ch)); c != nil {
		return len(c.buf)
	}
	return 0
}

// PostSend delivers a value from outside any task without blocking.
func PostSend[T any](ch chan<- T, v T) bool {
	c := chanOf(ch, cap(ch))
	if c == nil || c.closed {
		return false
	}
	return c.trySend(v)
}

// ------------------------------------------------------------- select

type Case interface {
	state() *chanState
	try() bool
	enqueue(sel *selState, idx int)
	finish(sel *selState)
	closedNow()
	poll() bool
}

type RecvCase[T any] struct {
	ch  <-chan T
	c   *chanState
	Val T
	OK  bool
	got bool
}

func CaseRecv[T any](ch <-chan T) *RecvCase[T] {
	r := &RecvCase[T]{ch: ch}
	if cur != nil {
		r.c = chanOf(ch, cap(ch))
	}
	return r
}

func (r *RecvCase[T]) state() *chanState { return r.c }
func (r *RecvCase[T]) try() bool {
	if r.c == nil {
		return false
	}
	if v, ok, got := r.c.tryRecv(); got {
		r.Val, r.OK = conv[T](v), ok
		return true
	}
	select {
	case v, ok := <-r.ch:
		r.Val, r.OK = v, ok
		return true
	default:
	}
	return false
}
func (r *RecvCase[T]) poll() bool {
	if r.ch == nil || r.c != nil && r.c.closed {
		return false
	}
	if !r.got {
		select {
		case v, ok := <-r.ch:
			r.Val, r.OK, r.got = v, ok, true
		default:
		}
	}
	return r.got
}
func (r *RecvCase[T]) enqueue(sel *selState, idx int) {
	if r.c != nil {
		r.c.recvq = append(r.c.recvq, &waiter{sel, idx, nil})
	}
}
func (r *RecvCase[T]) finish(sel *selState) { r.Val, r.OK = conv[T](sel.val), sel.ok }
func (r *RecvCase[T]) closedNow()           { cur.vc = cur.vc.join(r.c.vc) }

type SendCase[T any] struct {
	c *chanState
	v T
}

func CaseSend[T any](ch chan<- T, v T) *SendCase[T] {
	r := &SendCase[T]{v: v}
	if cur != nil {
		r.c = chanOf(ch, cap(ch))
	}
	return r
}

func (r *SendCase[T]) state() *chanState { return r.c }
func (r *SendCase[T]) poll() bool        { return false }
func (r *SendCase[T]) try() bool         { return r.c != nil && r.c.trySend(r.v) }
func (r *SendCase[T]) enqueue(sel *selState, idx int) {
	if r.c != nil {
		r.c.sendq = append(r.c.sendq, &waiter{sel, idx, r.v})
	}
}
func (r *SendCase[T]) finish(sel *selState) {}
func (r *SendCase[T]) closedNow()           { panic("send on closed channel") }

// Select picks a ready case, or waits; -1 is the default case.
func Select(hasDefault bool, cases ...Case) int {
	if cur == nil {
		panic("simrt: select outside a simulation")
	}
	enterChan()
	// Poll in a seeded order.
	order := perm(len(cases))
	for _, i := range order {
		if cases[i].try() {
			return i
		}
	}
	if hasDefault {
		return -1
	}
	sel := &selState{task: cur}
	for i, c := range cases {
		c.enqueue(sel, i)
	}
	closedIdx := func() int {
		for i, c := range cases {
			if st := c.state(); st != nil && st.closed {
				return i
			}
		}
		return -1
	}
	polled := -1
	block("select", 0, func() bool {
		if sel.done || closedIdx() >= 0 || polled >= 0 {
			return true
		}
		for i, c := range cases {
			if c.poll() {
				polled = i
				return true
			}
		}
		return false
	})
	if polled >= 0 && !sel.done {
		sel.done = true
		return polled
	}
	if sel.done {
		cur.vc = cur.vc.join(sel.vc).tick(cur.ID)
		cases[sel.idx].finish(sel)
		return sel.idx
	}
	sel.done = true
	i := closedIdx()
	cases[i].closedNow()
	return i
}

func perm(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	if n > 1 {
		if r := S.Gen("sched").N(n); r > 0 {
			o = append(o[r:], o[:r]...)
		}
	}
	return o
}

// ------------------------------------------------------------- maps

type MapIt[K comparable, V any] struct {
	M    map[K]V
	K    K
	keys []K
	i    int
}

func (it *MapIt[K, V]) Next() bool {
	if it.i >= len(it.keys) {
		return false
	}
	it.K = it.keys[it.i]
	it.i++
	return true
}

// MapIter iterates over a snapshot of the keys in an order the simulator
// chooses.
func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] {
	MapR(m)
	it := &MapIt[K, V]{M: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) < 2 {
		return it
	}
	sortKeys(it.keys)
	if cur != nil {
		if r := S.C.N("map", 1<<12); r > 0 {
			x := uint64(r)
			for i := len(it.keys) - 1; i > 0; i-- {
				j := int(splitmix(&x) % uint64(i+1))
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return it
}

func sortKeys[K comparable](k []K) {
	switch x := interface{}(k).(type) {
	case []string:
		sort.Strings(x)
		return
	case []uint64:
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
		return
	case []int:
		sort.Ints(x)
		return
	case []byte:
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
		return
	}
	kind := reflect.TypeOf(k).Elem().Kind()
	if kind >= reflect.Int && kind <= reflect.Int64 {
		sort.Slice(k, func(i, j int) bool {
			return reflect.ValueOf(k[i]).Int() < reflect.ValueOf(k[j]).Int()
		})
		return
	}
	s := make(map[K]string, len(k))
	for _, x := range k {
		s[x] = fmt.Sprintf("%v", x)
	}
	sort.Slice(k, func(i, j int) bool { return s[k[i]] < s[k[j]] })
}
