// Package vtime replaces package time: the clock is virtual.
package vtime

import (
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
)

var base = time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)

// Base is the wall-clock time at which every execution starts.
func Base() time.Time { return base }

func Now() time.Time                        { return base.Add(vsched.Now()) }
func Since(t time.Time) time.Duration       { return Now().Sub(t) }
func Until(t time.Time) time.Duration       { return t.Sub(Now()) }
func Sleep(d time.Duration)                 { vsched.Sleep(d) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time  { return NewTicker(d).C }

type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	h *vsched.Timer
}

func NewTimer(d time.Duration) *Timer {
	c := vsched.MakeChan(make(chan time.Time, 1))
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}
func (t *Timer) start(d time.Duration) {
	if vsched.Dead() {
		return
	}
	t.h = vsched.AddTimer(d, func() {
		if t.f != nil {
			f := t.f
			vsched.GoTimer(f)
			return
		}
		vsched.TrySend(t.c, Now())
	})
}
func (t *Timer) Stop() bool {
	if t.h == nil {
		return false
	}
	return t.h.Stop()
}
func (t *Timer) Reset(d time.Duration) bool {
	r := t.Stop()
	t.start(d)
	return r
}

type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	h *vsched.Timer
	d time.Duration
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := vsched.MakeChan(make(chan time.Time, 1))
	t := &Ticker{C: c, c: c, d: d}
	t.start()
	return t
}
func (t *Ticker) start() {
	if vsched.Dead() {
		return
	}
	t.h = vsched.AddTimer(t.d, func() {
		vsched.TrySend(t.c, Now())
		t.start()
	})
}
func (t *Ticker) Stop() {
	if t.h != nil {
		t.h.Stop()
	}
}
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.Stop()
	t.d = d
	t.start()
}
