// Package vsync replaces package sync under the controlled scheduler.
package vsync

import (
	"fmt"
	"sync"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
)

type Locker = sync.Locker

type Mutex struct {
	ex     int
	locked bool
}

func (m *Mutex) fix() {
	if id := vsched.ID(); m.ex != id {
		*m = Mutex{ex: id}
	}
}

func (m *Mutex) Lock() {
	m.fix()
	vsched.Block("mutex", func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	m.fix()
	vsched.Point("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.fix()
	if !m.locked {
		if vsched.Dead() {
			return
		}
		vsched.Fatal("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	if !vsched.Dead() {
		vsched.Point("unlock")
	}
}

type RWMutex struct {
	ex      int
	writer  bool
	readers int
	waiting int
}

func (m *RWMutex) fix() {
	if id := vsched.ID(); m.ex != id {
		*m = RWMutex{ex: id}
	}
}
func (m *RWMutex) Lock() {
	m.fix()
	m.waiting++
	vsched.Block("rwmutex", func() bool { return !m.writer && m.readers == 0 })
	m.waiting--
	m.writer = true
}
func (m *RWMutex) TryLock() bool {
	m.fix()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}
func (m *RWMutex) Unlock() {
	m.fix()
	if !m.writer {
		if vsched.Dead() {
			return
		}
		vsched.Fatal("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	if !vsched.Dead() {
		vsched.Point("unlock")
	}
}
func (m *RWMutex) RLock() {
	m.fix()
	// A waiting writer blocks new readers, as in the real implementation.
	vsched.Block("rwmutex(r)", func() bool { return !m.writer && m.waiting == 0 })
	m.readers++
}
func (m *RWMutex) TryRLock() bool {
	m.fix()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) RUnlock() {
	m.fix()
	if m.readers == 0 {
		if vsched.Dead() {
			return
		}
		vsched.Fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if !vsched.Dead() {
		vsched.Point("runlock")
	}
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	ex   int
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if id := vsched.ID(); o.ex != id {
		*o = Once{ex: id}
	}
	if o.done {
		vsched.Point("once")
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	ex int
	n  int
}

func (w *WaitGroup) fix() {
	if id := vsched.ID(); w.ex != id {
		*w = WaitGroup{ex: id}
	}
}
func (w *WaitGroup) Add(d int) {
	w.fix()
	w.n += d
	if w.n < 0 && !vsched.Dead() {
		panic("sync: negative WaitGroup counter")
	}
	if !vsched.Dead() {
		vsched.Point("wg")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	w.fix()
	vsched.Block("waitgroup", func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L    Locker
	wait []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	f := false
	c.wait = append(c.wait, &f)
	c.L.Unlock()
	vsched.Block("cond", func() bool { return f })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
	vsched.Point("signal")
}
func (c *Cond) Broadcast() {
	for _, w := range c.wait {
		*w = true
	}
	c.wait = nil
	vsched.Point("broadcast")
}

type Pool struct {
	New func() any
}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(any) {}

// Map is sync.Map with a deterministic Range (insertion order).
type Map struct {
	ex   int
	m    map[any]any
	keys []any
}

func (m *Map) fix(op string) {
	if id := vsched.ID(); m.ex != id || m.m == nil {
		*m = Map{ex: id, m: map[any]any{}}
	}
	if !vsched.Dead() {
		vsched.Point("syncmap " + op)
	}
}
func (m *Map) del(k any) {
	delete(m.m, k)
	for i, o := range m.keys {
		if o == k {
			m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
			return
		}
	}
}
func (m *Map) put(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) Load(k any) (any, bool) { m.fix("load"); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.fix("store"); m.put(k, v) }
func (m *Map) Delete(k any)           { m.fix("delete"); m.del(k) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.fix("loadorstore")
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.fix("loadanddelete")
	v, ok := m.m[k]
	if ok {
		m.del(k)
	}
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.fix("swap")
	o, ok := m.m[k]
	m.put(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.fix("cas")
	if o, ok := m.m[k]; ok && o == old {
		m.put(k, new)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.fix("cad")
	if o, ok := m.m[k]; ok && o == old {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.fix("clear"); m.m = map[any]any{}; m.keys = nil }
func (m *Map) Range(f func(k, v any) bool) {
	m.fix("range")
	for _, k := range append([]any{}, m.keys...) {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}

var _ = fmt.Sprint
