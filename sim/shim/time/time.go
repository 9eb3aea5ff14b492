// Package simtime is package time on the simulated clock.
package simtime

import (
	real "time"

	"btrsim/simrt"
)

func Now() real.Time                         { return real.Unix(0, simrt.NowNS()).UTC() }
func Since(t real.Time) real.Duration        { return Now().Sub(t) }
func Until(t real.Time) real.Duration        { return t.Sub(Now()) }
func Sleep(d real.Duration)                  { simrt.Sleep(int64(d)) }
func After(d real.Duration) <-chan real.Time { return NewTimer(d).C }
func Tick(d real.Duration) <-chan real.Time  { return NewTicker(d).C }

type Timer struct {
	C <-chan real.Time
	t *simrt.Timer
}

func NewTimer(d real.Duration) *Timer {
	ch := make(chan real.Time, 1)
	return &Timer{C: ch, t: simrt.NewTimer(int64(d), func() { simrt.PostSend(ch, Now()) })}
}

func AfterFunc(d real.Duration, f func()) *Timer {
	return &Timer{t: simrt.NewTimer(int64(d), f)}
}

func (t *Timer) Stop() bool                 { return t.t.Stop() }
func (t *Timer) Reset(d real.Duration) bool { return t.t.Reset(int64(d)) }

type Ticker struct {
	C    <-chan real.Time
	t    *simrt.Timer
	d    real.Duration
	done bool
}

func NewTicker(d real.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan real.Time, 1)
	k := &Ticker{C: ch, d: d}
	k.t = simrt.NewDaemonTimer(int64(d), func() {
		if !k.done {
			simrt.PostSend(ch, Now())
			k.t.Reset(int64(k.d))
		}
	})
	return k
}

func (k *Ticker) Stop()                 { k.done = true; k.t.Stop() }
func (k *Ticker) Reset(d real.Duration) { k.d = d; k.done = false; k.t.Reset(int64(d)) }
