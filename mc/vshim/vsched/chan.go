package vsched

import (
	"fmt"
	"reflect"
	"runtime"
	"unsafe"
)

// Channels are emulated: the native channel is only an identity. Channels
// that were not made by instrumented code (a context's Done channel, for
// example) are polled natively.
type chanState struct {
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	keep   any
}

type waiter struct {
	sel  *selState
	idx  int
	val  any
	ok   bool
	send bool
	st   *chanState
}

type selState struct {
	done *waiter
}

func cptr[T any](ch T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))) }

// MakeChan registers a channel made by instrumented code.
func MakeChan[T any](ch chan T) chan T {
	if x != nil && !x.dead {
		x.chans[cptr(ch)] = &chanState{cap: cap(ch), keep: ch}
	}
	return ch
}

func look[T any](ch T) *chanState {
	if x == nil {
		return nil
	}
	return x.chans[cptr(ch)]
}

func (q *chanState) canRecv() bool { return len(q.buf) > 0 || len(liveq(&q.sendq)) > 0 || q.closed }
func (q *chanState) canSend() bool {
	return q.closed || len(liveq(&q.recvq)) > 0 || len(q.buf) < q.cap
}

func liveq(q *[]*waiter) []*waiter {
	for len(*q) > 0 && (*q)[0].sel.done != nil {
		*q = (*q)[1:]
	}
	return *q
}

// doRecv must be called with canRecv.
func (q *chanState) doRecv() (any, bool) {
	if len(q.buf) > 0 {
		v := q.buf[0]
		q.buf = q.buf[1:]
		if s := liveq(&q.sendq); len(s) > 0 {
			w := s[0]
			q.sendq = s[1:]
			q.buf = append(q.buf, w.val)
			w.ok = true
			w.sel.done = w
		}
		return v, true
	}
	if s := liveq(&q.sendq); len(s) > 0 {
		w := s[0]
		q.sendq = s[1:]
		w.ok = true
		w.sel.done = w
		return w.val, true
	}
	return nil, false
}

func (q *chanState) doSend(v any) {
	if q.closed {
		panic("send on closed channel")
	}
	if r := liveq(&q.recvq); len(r) > 0 {
		w := r[0]
		q.recvq = r[1:]
		w.val = v
		w.ok = true
		w.sel.done = w
		return
	}
	q.buf = append(q.buf, v)
}

// TrySendTimer performs a non-blocking send from the runtime (timers).
func TrySend[T any](ch chan T, v T) bool {
	q := look(ch)
	if q == nil {
		select {
		case ch <- v:
			return true
		default:
			return false
		}
	}
	if q.closed || !q.canSend() {
		return false
	}
	q.doSend(v)
	return true
}

func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		Select(false, &SendCase[T]{ch: ch, v: v})
	}
}

func Recv[T any](ch <-chan T) T {
	c := &RecvCase[T]{ch: ch}
	Select(false, c)
	return c.Val
}

func Recv2[T any](ch <-chan T) (T, bool) {
	c := &RecvCase[T]{ch: ch}
	Select(false, c)
	return c.Val, c.Ok
}

func CloseChan[T any](ch chan<- T) {
	q := look(ch)
	if Dead() {
		if x != nil {
			runtime.Goexit()
		}
		close(ch)
		return
	}
	if q == nil {
		close(ch)
		return
	}
	Point("close")
	if q.closed {
		panic("close of closed channel")
	}
	q.closed = true
	for _, w := range q.recvq {
		if w.sel.done == nil {
			w.ok = false
			w.sel.done = w
		}
	}
	q.recvq = nil
	for _, w := range q.sendq {
		if w.sel.done == nil {
			w.ok = false
			w.sel.done = w
		}
	}
	q.sendq = nil
	Point("closed")
}

func LenChan[T any](ch T) int {
	if q := look(ch); q != nil {
		return len(q.buf)
	}
	return reflect.ValueOf(ch).Len()
}

type Case interface {
	state() *chanState
	isNil() bool
	isSend() bool
	value() any
	set(v any, ok bool)
	pollForeign(do bool) bool
}

type RecvCase[T any] struct {
	ch  <-chan T
	Val T
	Ok  bool
	got bool
}
type SendCase[T any] struct {
	ch chan<- T
	v  T
}

func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }
func CaseSendTo[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: ch, v: v} }
}

func (c *RecvCase[T]) state() *chanState { return look(c.ch) }
func (c *RecvCase[T]) isNil() bool       { return c.ch == nil }
func (c *RecvCase[T]) isSend() bool      { return false }
func (c *RecvCase[T]) value() any        { return nil }
func (c *RecvCase[T]) set(v any, ok bool) {
	c.Ok = ok
	if v != nil {
		c.Val = v.(T)
	}
}
func (c *RecvCase[T]) pollForeign(do bool) bool {
	if c.got {
		return true
	}
	select {
	case v, ok := <-c.ch:
		c.Val, c.Ok, c.got = v, ok, true
		return true
	default:
		return false
	}
}
func (c *SendCase[T]) state() *chanState   { return look(c.ch) }
func (c *SendCase[T]) isNil() bool         { return c.ch == nil }
func (c *SendCase[T]) isSend() bool        { return true }
func (c *SendCase[T]) value() any          { return c.v }
func (c *SendCase[T]) set(v any, ok bool)  {}
func (c *SendCase[T]) pollForeign(do bool) bool {
	if !do {
		return len(c.ch) < cap(c.ch)
	}
	select {
	case c.ch <- c.v:
		return true
	default:
		return false
	}
}

// Select performs a select over the cases and returns the index of the one
// that was carried out, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	if x != nil && x.dead {
		runtime.Goexit()
	}
	if x == nil {
		return nativeSelect(hasDefault, cases)
	}
	Point("select")
	try := func() int {
		var en [16]int
		k := 0
		for i, c := range cases {
			if c.isNil() {
				continue
			}
			q := c.state()
			ok := false
			if q == nil {
				ok = c.pollForeign(false)
			} else if c.isSend() {
				ok = q.canSend()
			} else {
				ok = q.canRecv()
			}
			if ok && k < len(en) {
				en[k] = i
				k++
			}
		}
		if k == 0 {
			return -1
		}
		p := 0
		if k > 1 && !x.freeSw && !x.cur.daemon && x.dev < x.opt.Bound {
			p = x.pick(k, false, "select")
		}
		i := en[p]
		c := cases[i]
		q := c.state()
		if q == nil {
			c.pollForeign(true)
		} else if c.isSend() {
			q.doSend(c.value())
		} else {
			c.set(q.doRecv())
		}
		return i
	}
	if i := try(); i >= 0 {
		return i
	}
	if hasDefault {
		return -1
	}
	sel := &selState{}
	foreign := false
	for i, c := range cases {
		if c.isNil() {
			continue
		}
		q := c.state()
		if q == nil {
			foreign = true
			continue
		}
		w := &waiter{sel: sel, idx: i, val: c.value(), send: c.isSend(), st: q}
		if c.isSend() {
			liveq(&q.sendq)
			q.sendq = append(q.sendq, w)
		} else {
			liveq(&q.recvq)
			q.recvq = append(q.recvq, w)
		}
	}
	what := "channel"
	if len(cases) == 1 {
		if cases[0].isSend() {
			what = "channel send"
		} else {
			what = "channel receive"
		}
	} else {
		what = "select"
	}
	fi := -1
	Block(what, func() bool {
		if sel.done != nil {
			return true
		}
		if foreign {
			for i, c := range cases {
				if !c.isNil() && c.state() == nil && c.pollForeign(false) {
					fi = i
					return true
				}
			}
		}
		return false
	})
	if sel.done == nil {
		// a foreign channel became ready
		sel.done = &waiter{}
		cases[fi].pollForeign(true)
		return fi
	}
	w := sel.done
	c := cases[w.idx]
	if w.send {
		if !w.ok {
			panic("send on closed channel")
		}
	} else {
		c.set(w.val, w.ok)
	}
	return w.idx
}

func nativeSelect(hasDefault bool, cases []Case) int {
	var sc []reflect.SelectCase
	for _, c := range cases {
		sc = append(sc, c.(interface{ native() reflect.SelectCase }).native())
	}
	if hasDefault {
		sc = append(sc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(sc)
	if hasDefault && i == len(sc)-1 {
		return -1
	}
	if !cases[i].isSend() {
		if v.IsValid() {
			cases[i].set(v.Interface(), ok)
		} else {
			cases[i].set(nil, ok)
		}
	}
	return i
}

func (c *RecvCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *SendCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(c.v)}
}

var _ = fmt.Sprint
