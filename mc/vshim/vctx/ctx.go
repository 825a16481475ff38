// Package vctx replaces the timing part of package context.
package vctx

import (
	"context"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vtime"
)

type tctx struct {
	context.Context
	dl  time.Time
	exp *bool
}

func (t tctx) Deadline() (time.Time, bool) { return t.dl, true }
func (t tctx) Err() error {
	e := t.Context.Err()
	if e != nil && *t.exp {
		return context.DeadlineExceeded
	}
	return e
}

func WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(p, vtime.Now().Add(d), nil)
}

func WithTimeoutCause(p context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(p, vtime.Now().Add(d), cause)
}

func WithDeadline(p context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(p, t, nil)
}

func WithDeadlineCause(p context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	if pd, ok := p.Deadline(); ok && pd.Before(t) {
		c, cancel := context.WithCancel(p)
		return c, cancel
	}
	c, cancel := context.WithCancelCause(p)
	exp := false
	h := vtime.AfterFunc(vtime.Until(t), func() {
		if c.Err() == nil {
			exp = true
		}
		if cause == nil {
			cause = context.DeadlineExceeded
		}
		cancel(cause)
	})
	return tctx{c, t, &exp}, func() { h.Stop(); cancel(context.Canceled) }
}

// AfterFunc runs f in its own thread once the context is done.
func AfterFunc(p context.Context, f func()) (stop func() bool) {
	var started, stopped bool
	vsched.DaemonGo(func() {
		vsched.Block("context.AfterFunc", func() bool { return stopped || p.Err() != nil })
		if stopped {
			return
		}
		started = true
		vsched.Go(f)
	})
	return func() bool {
		if started || stopped {
			return false
		}
		stopped = true
		return true
	}
}
