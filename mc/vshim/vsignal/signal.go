// Package vsignal replaces os/signal: the harness sends the signals.
package vsignal

import (
	"context"
	"os"
	"unsafe"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
)

type reg struct {
	c    chan<- os.Signal
	sigs []os.Signal
	f    func()
}

type state struct {
	regs    []reg
	ignored []os.Signal
	all     bool // all signals are ignored
}
type key struct{}

func get() *state { return vsched.Obj(key{}, func() any { return &state{} }).(*state) }

func (r reg) wants(s os.Signal) bool {
	if len(r.sigs) == 0 {
		return true
	}
	for _, k := range r.sigs {
		if k == s {
			return true
		}
	}
	return false
}

func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	vsched.Point("signal notify")
	s := get()
	drop(sigs, &s.ignored)
	s.all = s.all && len(sigs) > 0
	s.regs = append(s.regs, reg{c: c, sigs: sigs})
}

func drop(sigs []os.Signal, from *[]os.Signal) {
	var l []os.Signal
	for _, x := range *from {
		if !(reg{sigs: sigs}).wants(x) {
			l = append(l, x)
		}
	}
	*from = l
}

// forget removes the signals, or all, from every registration.
func forget(sigs []os.Signal) {
	s := get()
	drop(sigs, &s.ignored)
	if len(sigs) == 0 {
		s.regs, s.all = nil, false
		return
	}
	var l []reg
	for _, r := range s.regs {
		if len(r.sigs) == 0 {
			panic("signal registration for all signals reset in part")
		}
		drop(sigs, &r.sigs)
		if len(r.sigs) > 0 {
			l = append(l, r)
		}
	}
	s.regs = l
}

func Reset(sigs ...os.Signal) {
	vsched.Point("signal reset")
	forget(sigs)
}

func Ignore(sigs ...os.Signal) {
	vsched.Point("signal ignore")
	forget(sigs)
	s := get()
	s.ignored = append(s.ignored, sigs...)
	s.all = s.all || len(sigs) == 0
}

func Ignored(sig os.Signal) bool {
	s := get()
	return s.all || len(s.ignored) > 0 && (reg{sigs: s.ignored}).wants(sig)
}

func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	vsched.Point("signal notify")
	c, cancel := context.WithCancel(parent)
	s := get()
	drop(sigs, &s.ignored)
	ch := make(chan os.Signal)
	s.regs = append(s.regs, reg{c: ch, sigs: sigs, f: cancel})
	return c, func() { Stop(ch); cancel() }
}

func Stop(c chan<- os.Signal) {
	s := get()
	var l []reg
	for _, r := range s.regs {
		if r.c != c {
			l = append(l, r)
		}
	}
	s.regs = l
}

// Handled tells whether the program asked for the signal.
func Handled(s os.Signal) bool {
	for _, r := range get().regs {
		if r.wants(s) {
			return true
		}
	}
	return false
}

// Send delivers a signal as the runtime does: without waiting. A signal the
// program did not ask for ends it.
func Send(s os.Signal) {
	if Ignored(s) {
		return
	}
	if !Handled(s) {
		vsched.Exit(2)
	}
	for _, r := range get().regs {
		if r.wants(s) && r.f != nil {
			r.f()
		} else if r.wants(s) {
			c := *(*chan os.Signal)(unsafe.Pointer(&r.c))
			vsched.TrySend(c, s)
		}
	}
}
