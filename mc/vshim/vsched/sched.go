// Package vsched is the controlled runtime the instrumented code runs on: a
// cooperative scheduler in which exactly one thread runs at a time, a virtual
// clock, and a recorded sequence of choices that a depth-first explorer
// enumerates. Every choice other than the first alternative of a scheduling
// point is a deviation; executions with more deviations than the bound are
// not explored. Data choices (Choose) are always enumerated completely.
package vsched

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Packages with statement-level scheduling points.
const (
	PkgServer = 1 << iota
	PkgWebRTC
	PkgLiveKit
	PkgRecorder
	PkgUtils
	PkgPubSub
	PkgRedis
	PkgOther
	PkgApp
)

type Options struct {
	Bound       int  // deviations allowed
	Fine        int  // mask of packages with statement-level points
	EarlyTimers bool // a timer may fire early as a deviation
	MaxSteps    int  // statement budget per execution (0: default)
	NoSyncPts   bool // no points at sync operations
	Horizon     time.Duration // virtual time after which the execution counts as hung
}

type choice struct {
	n     int
	pick  int
	data  bool
	label string
}

type Thread struct {
	id     int
	name   string
	daemon bool
	env    bool
	wake   chan struct{}
	ready  func() bool // nil: runnable
	what   string      // what it is blocked on
	exited chan struct{}
	done   bool
	mapAcc map[uintptr]bool // map accesses in progress: pointer -> write
	exec   *Exec
}

type timer struct {
	when   time.Duration
	seq    int
	fire   func()
	active bool
	env    bool
}

// Exec is one execution.
type Exec struct {
	id       int
	opt      Options
	threads  []*Thread
	cur      *Thread
	live     []*Thread
	now      time.Duration
	timers   []*timer
	tseq     int
	prefix   []byte
	trace    []choice
	dev      int
	dead     bool
	over     bool // execution has ended, teardown pending
	finish   chan struct{}
	steps    int
	lastAdv  int
	Crash    string // non-empty: the process would have died
	CrashBy  string
	Deadlock string
	Hang     string
	Diverged string
	Exited   bool
	ExitCode int
	onExit   func(int)
	Events   []string
	chans    map[uintptr]*chanState
	mainDone bool
	freeSw   bool // no choices: run deterministically
	objs     map[any]any
	fail     string
	outcome  string
	seq      int
}

var x *Exec
var execCount int

// Cur returns the running execution (nil outside one).
func Cur() *Exec { return x }

// Active reports whether an execution is running and not being torn down.
func Active() bool { return x != nil && !x.dead }

// Dead reports whether the execution is being torn down (shims do nothing).
func Dead() bool { return x == nil || x.dead }

func ID() int {
	if x == nil {
		return 0
	}
	return x.id
}

// Obj returns a per-execution singleton.
func Obj(key any, mk func() any) any {
	if x == nil {
		return mk()
	}
	if o, ok := x.objs[key]; ok {
		return o
	}
	o := mk()
	x.objs[key] = o
	return o
}

var resets []func()

// RegisterReset registers a function that restores a package's variables.
func RegisterReset(f func()) { resets = append(resets, f) }

// Run performs one execution of body as the environment thread under the
// given choice prefix and returns it.
func Run(opt Options, prefix []byte, body func()) *Exec {
	execCount++
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 400000
	}
	if opt.Horizon == 0 {
		opt.Horizon = 120 * time.Second
	}
	e := &Exec{id: execCount, opt: opt, prefix: prefix, finish: make(chan struct{}),
		chans: map[uintptr]*chanState{}, objs: map[any]any{}}
	x = e
	for _, r := range resets {
		r()
	}
	t := e.newThread("env", body)
	t.env = true
	e.cur = t
	t.wake <- struct{}{}
	<-e.finish
	// Teardown: end every remaining thread, one at a time.
	e.dead = true
	for _, t := range e.threads {
		if !t.done {
			e.cur = t
			t.wake <- struct{}{}
			<-t.exited
		}
	}
	x = nil
	return e
}

func (e *Exec) newThread(name string, f func()) *Thread {
	t := &Thread{id: len(e.threads), name: name, wake: make(chan struct{}, 1), exited: make(chan struct{}), exec: e}
	e.threads = append(e.threads, t)
	e.live = append(e.live, t)
	go func() {
		<-t.wake
		defer func() {
			r := recover()
			t.done = true
			if r != nil && !e.dead && !e.over {
				e.Crash = fmt.Sprintf("panic: %v", r)
				e.CrashBy = trimStack(string(debug.Stack()))
				e.end()
			}
			close(t.exited)
			if e.dead {
				return
			}
			if e.over {
				return
			}
			e.unlive(t)
			if t.id == 0 {
				e.mainDone = true
				e.end()
				return
			}
			e.next(t, false)
		}()
		if e.dead {
			return
		}
		f()
	}()
	return t
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	seen := false
	for _, l := range lines {
		if strings.Contains(l, "panic(") {
			seen = true
			out = out[:0]
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") {
			if seen && len(out) > 0 && strings.HasPrefix(l, "\t") {
				f := strings.TrimSpace(l)
				if i := strings.LastIndex(f, "/"); i >= 0 {
					f = f[i+1:]
				}
				if i := strings.Index(f, " "); i >= 0 {
					f = f[:i]
				}
				out[len(out)-1] += " " + f
			}
			continue
		}
		if i := strings.LastIndex(l, "/"); i >= 0 {
			l = l[i+1:]
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		out = append(out, l)
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, " < ")
}

func (e *Exec) unlive(t *Thread) {
	for i, o := range e.live {
		if o == t {
			e.live = append(e.live[:i], e.live[i+1:]...)
			return
		}
	}
}

func (e *Exec) end() {
	if !e.over {
		e.over = true
		close(e.finish)
	}
}

// Stop ends the execution from the running thread (which does not return).
func (e *Exec) stop() {
	t := e.cur // before the end: the teardown changes it
	e.end()
	<-t.wake
	runtime.Goexit()
}

// Crash ends the execution as a process death.
func Fatal(what string) {
	if Dead() {
		runtime.Goexit()
	}
	x.Crash = what
	x.CrashBy = trimStack("panic(\n" + string(debug.Stack()))
	x.stop()
}

// Exit models os.Exit / log.Fatal.
func Exit(code int) {
	if Dead() {
		runtime.Goexit()
	}
	if f := x.onExit; f != nil {
		x.onExit = nil
		f(code)
		x.stop()
	}
	x.Exited = true
	x.ExitCode = code
	x.stop()
}

// OnExit makes an exit of the process the good end of the execution: f judges
// it at that moment.
func OnExit(f func(code int)) { x.onExit = f }

// Fail ends the execution with a property violation found by the harness.
func Fail(format string, a ...any) {
	if Dead() {
		runtime.Goexit()
	}
	x.fail = fmt.Sprintf(format, a...)
	x.stop()
}

func (e *Exec) Failure() string { return e.fail }

// Outcome of the execution, in order of precedence; empty when clean.
func (e *Exec) Problem() string {
	switch {
	case e.fail != "":
		return e.fail
	case e.Crash != "":
		return "crash: " + e.Crash + " at " + e.CrashBy
	case e.Deadlock != "":
		return "stuck: " + e.Deadlock
	case e.Hang != "":
		return "hang: " + e.Hang
	case e.Exited:
		return fmt.Sprintf("process exit with code %d", e.ExitCode)
	}
	return ""
}

// Choice is one recorded choice point.
type Choice = choice

func (c choice) N() int        { return c.n }
func (c choice) Pick() int     { return c.pick }
func (c choice) Data() bool    { return c.data }
func (c choice) Label() string { return c.label }

func (e *Exec) Trace() []Choice { return e.trace }
func (e *Exec) Steps() int      { return e.steps }
func (e *Exec) Threads() int    { return len(e.threads) }
func (e *Exec) Devs() int       { return e.dev }

// SetOutcome sets the string that distinguishes what was observed.
func SetOutcome(s string) {
	if Active() {
		x.outcome = s
	}
}
func (e *Exec) Outcome() string { return e.outcome }

// Advance moves the clock of an execution that has only its own thread.
func Advance(d time.Duration) {
	x.now += d
}

// Logf records an observable event of the execution.
func Logf(format string, a ...any) {
	if Active() {
		x.Events = append(x.Events, fmt.Sprintf("%v t%d %s", x.now, x.cur.id, fmt.Sprintf(format, a...)))
	}
}

// Choose enumerates 0..n-1.
func Choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	return x.pick(n, true, label)
}

func (e *Exec) pick(n int, data bool, label string) int {
	i := len(e.trace)
	p := 0
	if i < len(e.prefix) {
		p = int(e.prefix[i])
		if p >= n {
			e.Diverged = fmt.Sprintf("choice %d: %d of %d (%s)", i, p, n, label)
			p = 0
		}
	}
	e.trace = append(e.trace, choice{n: n, pick: p, data: data, label: label})
	if p != 0 && !data {
		e.dev++
	}
	return p
}

func (t *Thread) enabled() bool { return t.ready == nil || t.ready() }

// P is a statement-level scheduling point.
func P(pkg int) {
	e := x
	if e == nil {
		return
	}
	if e.dead {
		runtime.Goexit()
	}
	e.steps++
	if e.steps-e.lastAdv > e.opt.MaxSteps {
		e.Hang = fmt.Sprintf("thread %q runs without end", e.cur.name)
		e.stop()
	}
	if e.opt.Fine&pkg == 0 {
		return
	}
	e.point("")
}

// Point is a scheduling point at a synchronisation operation.
func Point(what string) {
	e := x
	if e == nil {
		return
	}
	if e.dead {
		runtime.Goexit()
	}
	e.steps++
	if e.steps-e.lastAdv > e.opt.MaxSteps {
		e.Hang = fmt.Sprintf("thread %q runs without end at %s", e.cur.name, what)
		e.stop()
	}
	if e.opt.NoSyncPts {
		return
	}
	e.point(what)
}

func (e *Exec) point(what string) {
	if e.cur.daemon || e.freeSw {
		return
	}
	e.next(e.cur, true)
}

// next lets the scheduler pick who runs. t is the thread that reached the
// point; runnable tells whether it may continue.
func (e *Exec) next(t *Thread, runnable bool) {
	for {
		// Enabled threads, the current one first, then round robin.
		var en [32]*Thread
		k := 0
		var daemon *Thread
		if runnable && t.enabled() {
			en[0] = t
			k = 1
		}
		start := 0
		for i, o := range e.live {
			if o.id > t.id {
				start = i
				break
			}
			start = i + 1
		}
		n := len(e.live)
		for j := 0; j < n; j++ {
			o := e.live[(start+j)%n]
			if o == t && runnable {
				continue
			}
			if o == t && !runnable && t.done {
				continue
			}
			if !o.enabled() {
				continue
			}
			if o.daemon {
				if daemon == nil {
					daemon = o
				}
				continue
			}
			if k < len(en) {
				en[k] = o
				k++
			}
		}
		if daemon != nil && t != daemon {
			e.switchTo(t, daemon)
			return
		}
		if daemon != nil {
			e.switchTo(t, daemon)
			return
		}
		if k == 0 {
			if !e.advance() {
				e.Deadlock = e.describe()
				if t.done {
					e.end()
					return
				}
				e.stop()
			}
			continue
		}
		alts := k
		early := false
		if nt := e.nextTimer(); e.opt.EarlyTimers && !e.freeSw && nt != nil && !nt.env {
			alts++
			early = true
		}
		c := 0
		if alts > 1 && !e.freeSw {
			if e.dev < e.opt.Bound {
				c = e.pick(alts, false, e.lab(t, en[:k]))
			} else {
				// Deviations used up: no choice is recorded past here
				// (the default is taken), which keeps traces short.
				c = 0
			}
		}
		if early && c == k {
			e.advance()
			continue
		}
		e.switchTo(t, en[c])
		return
	}
}

var Verbose bool

func (e *Exec) lab(t *Thread, en []*Thread) string {
	if !Verbose {
		return ""
	}
	var s []string
	for _, o := range en {
		s = append(s, fmt.Sprintf("t%d:%s", o.id, o.name))
	}
	return caller() + " " + strings.Join(s, ",")
}

func caller() string {
	pc := make([]uintptr, 30)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.File, "/vshim/v") && f.File != "" {
			i := strings.LastIndex(f.File, "/")
			return fmt.Sprintf("%s:%d", f.File[i+1:], f.Line)
		}
		if !more {
			return "?"
		}
	}
}

func (e *Exec) switchTo(t, to *Thread) {
	to.ready = nil
	if to == t {
		return
	}
	e.cur = to
	if t.done {
		to.wake <- struct{}{}
		return
	}
	to.wake <- struct{}{}
	<-t.wake
	if e.dead {
		runtime.Goexit()
	}
}

func (e *Exec) describe() string {
	var s []string
	for _, o := range e.live {
		s = append(s, fmt.Sprintf("t%d %s waits for %s", o.id, o.name, o.what))
	}
	return strings.Join(s, "; ")
}

func (e *Exec) nextTimer() *timer {
	var b *timer
	for _, t := range e.timers {
		if b == nil || t.when < b.when || t.when == b.when && t.seq < b.seq {
			b = t
		}
	}
	return b
}

// advance moves the clock to the next timer and fires everything due then.
func (e *Exec) advance() bool {
	b := e.nextTimer()
	if b == nil || b.when > e.opt.Horizon {
		return false
	}
	if b.when > e.now {
		e.now = b.when
		e.lastAdv = e.steps
	}
	for due := b.when; b != nil && b.when <= due; b = e.nextTimer() {
		for i, t := range e.timers {
			if t == b {
				e.timers = append(e.timers[:i], e.timers[i+1:]...)
				break
			}
		}
		b.active = false
		b.fire()
		if e.freeSw {
			break
		}
	}
	return true
}

// Block waits until ready returns true.
func Block(what string, ready func() bool) {
	e := x
	if e == nil {
		if ready() {
			return
		}
		panic("vsched: blocking operation outside an execution: " + what)
	}
	if e.dead {
		runtime.Goexit()
	}
	t := e.cur
	t.what = what
	if Verbose {
		t.what = what + " at " + caller()
	}
	t.ready = ready
	if ready() && (e.freeSw || t.daemon) {
		t.ready = nil
		return
	}
	e.next(t, true)
}

// Go starts a managed goroutine.
func Go(f func()) { spawn("", f) }

// DaemonGo starts a goroutine of an auxiliary library: it runs with priority
// and without scheduling choices whenever it can.
func DaemonGo(f func()) {
	if x == nil {
		go f()
		return
	}
	if x.dead {
		runtime.Goexit()
	}
	t := x.newThread("lib", f)
	t.daemon = true
}

// GoEnv starts an environment (harness) thread with a name.
func GoEnv(name string, f func()) *Thread {
	t := x.newThread(name, f)
	t.env = true
	return t
}

func (t *Thread) Finished() bool  { return t.done }
func (t *Thread) Waiting() string { return t.what }
func (t *Thread) Name() string    { return t.name }

func spawn(name string, f func()) {
	if x == nil {
		go f()
		return
	}
	if x.dead {
		runtime.Goexit()
	}
	if name == "" {
		name = "go " + caller()
	}
	x.newThread(name, f)
	Point("go")
}

// GoCall starts a goroutine that calls f with arguments evaluated by the
// caller; the Slice variants pass the last argument as the variadic slice.
func GoCall(f any, args ...any)      { spawn("", bind(f, args, false)) }
func GoCallSlice(f any, args ...any) { spawn("", bind(f, args, true)) }

func DaemonGoCall(f any, args ...any)      { DaemonGo(bind(f, args, false)) }
func DaemonGoCallSlice(f any, args ...any) { DaemonGo(bind(f, args, true)) }

func bind(f any, args []any, slice bool) func() {
	v := reflect.ValueOf(f)
	ft := v.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1)
			if !slice {
				pt = pt.Elem()
			}
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else {
			in[i] = reflect.ValueOf(a)
			if !in[i].Type().AssignableTo(pt) {
				in[i] = in[i].Convert(pt)
			}
		}
	}
	if slice {
		return func() { v.CallSlice(in) }
	}
	return func() { v.Call(in) }
}

// LiveThreads lists managed application threads that have not finished.
func LiveThreads() []string {
	var s []string
	for _, t := range x.live {
		if !t.env && !t.done {
			w := t.what
			if t.ready == nil {
				w = "runnable"
			}
			s = append(s, t.name+" ["+w+"]")
		}
	}
	sort.Strings(s)
	return s
}

// AppThreads counts managed application threads (no env, no library ones).
func AppThreads() int {
	n := 0
	for _, t := range x.live {
		if !t.env && !t.daemon && !t.done {
			n++
		}
	}
	return n
}

// Deterministic runs f without scheduling choices.
func Deterministic(f func()) {
	if x == nil {
		f()
		return
	}
	old := x.freeSw
	x.freeSw = true
	defer func() { x.freeSw = old }()
	f()
}

// SetFree switches scheduling choices off (true) or on.
func SetFree(b bool) { x.freeSw = b }

// Step advances the virtual clock by d letting everything else run.
func Elapse(d time.Duration) { Sleep(d) }

// Settle lets all other threads run until none can without time passing.
func Settle() { Sleep(0) }

func Now() time.Duration {
	if x == nil {
		return 0
	}
	return x.now
}

// AddTimer schedules f at now+d; returns a handle.
func AddTimer(d time.Duration, f func()) *timer {
	if d < 0 {
		d = 0
	}
	if x == nil {
		return &timer{}
	}
	x.tseq++
	t := &timer{when: x.now + d, seq: x.tseq, fire: f, active: true}
	x.timers = append(x.timers, t)
	return t
}

func (t *timer) Stop() bool {
	if x == nil || !t.active {
		return false
	}
	t.active = false
	for i, o := range x.timers {
		if o == t {
			x.timers = append(x.timers[:i], x.timers[i+1:]...)
			break
		}
	}
	return true
}

type Timer = timer

// Sleep blocks the thread for d of virtual time. Sleep(0) from the harness
// waits until nothing else can run at the current instant.
func Sleep(d time.Duration) {
	if Dead() {
		runtime.Goexit()
	}
	fired := false
	AddTimer(d, func() { fired = true }).env = x.cur.env
	Block("sleep", func() bool { return fired })
}

var _ = sync.Mutex{}

// Wall-clock free map-access tracking -----------------------------------

// Map marks the start of a statement that accesses the given maps, as a
// scheduling point inside the access: if another thread gets to a conflicting
// access meanwhile, the Go runtime would detect concurrent map access and
// kill the process. Arguments alternate map, write.
func Map(pkg int, args ...any) {
	e := x
	if e == nil {
		return
	}
	if e.dead {
		runtime.Goexit()
	}
	e.steps++
	if e.steps-e.lastAdv > e.opt.MaxSteps {
		e.Hang = fmt.Sprintf("thread %q runs without end", e.cur.name)
		e.stop()
	}
	if e.opt.Fine&pkg == 0 || e.cur.daemon || e.freeSw {
		return
	}
	t := e.cur
	acc := map[uintptr]bool{}
	for i := 0; i+1 < len(args); i += 2 {
		v := reflect.ValueOf(args[i])
		if v.Kind() != reflect.Map || v.IsNil() {
			continue
		}
		p := v.Pointer()
		w := args[i+1].(bool)
		acc[p] = acc[p] || w
		for _, o := range e.live {
			if o != t && o.mapAcc != nil {
				if ow, ok := o.mapAcc[p]; ok && (ow || w) {
					e.Crash = "fatal error: concurrent map access"
					e.CrashBy = fmt.Sprintf("%s by %s while %s", caller(), t.name, o.name)
					e.stop()
				}
			}
		}
	}
	t.mapAcc = acc
	e.point("map")
	t.mapAcc = nil
}

// MapKeys returns the keys of a map in a deterministic order.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		sort.Slice(keys, func(i, j int) bool { return less(keys[i], keys[j]) })
	}
	return keys
}

func less(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.String:
		return va.String() < vb.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return va.Int() < vb.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return va.Uint() < vb.Uint()
	case reflect.Float64, reflect.Float32:
		return va.Float() < vb.Float()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// GoTimer starts a goroutine for an AfterFunc timer.
func GoTimer(f func()) {
	if x == nil || x.dead {
		return
	}
	x.newThread("timer", f)
}

// NextSeq numbers observable events of an execution.
func NextSeq() int {
	if x == nil {
		return 0
	}
	x.seq++
	return x.seq
}

// MapIter is one step of an iteration over a map.
type MapIter[M any, K any] struct {
	K K
	M M
}

// MapRange iterates over a map in a deterministic order.
func MapRange[M ~map[K]V, K comparable, V any](m M) []MapIter[M, K] {
	var r []MapIter[M, K]
	for _, k := range MapKeys(m) {
		r = append(r, MapIter[M, K]{k, m})
	}
	return r
}

// SaveVar remembers the value of a package variable (maps and slices by
// content) and restores it before every execution.
func SaveVar(ptr any) {
	v := reflect.ValueOf(ptr).Elem()
	saved := deepCopy(v, 0)
	resets = append(resets, func() { v.Set(deepCopy(saved, 0)) })
}

func deepCopy(v reflect.Value, depth int) reflect.Value {
	if depth > 6 {
		return v
	}
	switch v.Kind() {
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMapWithSize(v.Type(), v.Len())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, deepCopy(v.MapIndex(k), depth+1))
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i), depth+1))
		}
		return n
	}
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

// SetNow moves the clock of an execution without any timers (explicit-state
// searches only).
func SetNow(d time.Duration) {
	x.now = d
	x.lastAdv = x.steps
}
