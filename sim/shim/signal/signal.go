// Package simsignal is package os/signal inside a simulated process.
package simsignal

import (
	"context"
	"os"
	"syscall"
	"unsafe"

	simcontext "btrsim/shim/context"
	"btrsim/simrt"
)

func nums(sig []os.Signal) []int {
	var l []int
	for _, s := range sig {
		if n, ok := s.(syscall.Signal); ok {
			l = append(l, int(n))
		}
	}
	return l
}

func key(c chan<- os.Signal) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	if len(sig) > 0 && len(nums(sig)) == 0 {
		return
	}
	simrt.Notify(key(c), nums(sig), func(n int) {
		if !simrt.PostSend(c, os.Signal(syscall.Signal(n))) {
			simrt.Event("signal %d dropped: nobody receives", n)
		}
	})
}

func Stop(c chan<- os.Signal)    { simrt.StopNotify(key(c)) }
func Reset(sig ...os.Signal)     { simrt.ResetSignals(nums(sig), false) }
func Ignore(sig ...os.Signal)    { simrt.ResetSignals(nums(sig), true) }
func Ignored(sig os.Signal) bool { return false }

func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := simcontext.WithCancel(parent)
	k := new(int)
	simrt.Notify(unsafe.Pointer(k), nums(sig), func(int) { cancel() })
	return ctx, func() { simrt.StopNotify(unsafe.Pointer(k)); cancel() }
}
