// Package mc explores executions of the instrumented service exhaustively
// within stated bounds: depth-first over every choice of a scenario, in
// parallel worker processes, with replay of anything reported.
package mc

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
)

// Scenario is a closed driver whose choices are enumerated completely.
type Scenario struct {
	Name string
	Opt  vsched.Options
	Body func()
	// Post may inspect the finished execution; a non-empty result is a
	// violation.
	Post func(e *vsched.Exec) string
	// Setup runs before each execution outside it.
	Setup func()
}

// Task is an explicit-state search or another complete enumeration.
type Task struct {
	Name string
	Run  func(t *T)
}

// T collects what a task covers.
type T struct {
	States, Transitions, Traces int64
	Viol                        []string // messages with the path
	Samples                     []string
	Outcomes                    map[uint64]bool
	Deadline                    time.Time
	Incomplete                  string
}

func (t *T) Fail(format string, a ...any) bool {
	if len(t.Viol) < 5 {
		t.Viol = append(t.Viol, fmt.Sprintf(format, a...))
	}
	return len(t.Viol) >= 1
}
func (t *T) Failed() bool { return len(t.Viol) > 0 }
func (t *T) Sample(s string) {
	if len(t.Samples) < 3 {
		t.Samples = append(t.Samples, s)
	}
}
func (t *T) Expired() bool {
	if time.Now().After(t.Deadline) {
		t.Incomplete = "time limit"
		return true
	}
	return false
}

// Property groups what decides one property.
type Property struct {
	ID          string
	Scenarios   func(thorough bool) []Scenario
	Tasks       func(thorough bool) []Task
	Assumptions []string
	Bounds      func(thorough bool) string
}

var props = map[string]*Property{}

func Register(p *Property) { props[p.ID] = p }

func IDs() []string {
	var r []string
	for k := range props {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---------------------------------------------------------------------

type job struct {
	Kind     string   // run, task, one, quit
	Scen     int      `json:",omitempty"`
	Prefixes [][]byte `json:",omitempty"`
	Slice    int      `json:",omitempty"` // ms
	Donate   bool     `json:",omitempty"`
	Task     int      `json:",omitempty"`
	DeadMS   int64    `json:",omitempty"`
	Verbose  bool     `json:",omitempty"`
}

type viol struct {
	Scen    string
	Msg     string
	Choices []byte
	Events  []string
	Task    bool
	Labels  []string
}

type reply struct {
	Pending  int
	Donated  [][]byte
	Execs    int64
	Points   int64
	Steps    int64
	MaxDev   int
	MaxThr   int
	MaxTrace int
	Outcomes []uint64
	Sample   string
	Viol     []viol
	Diverged string
	NDiv     int64
	Task     *T
	Hash     uint64
	Problem  string
}

type item struct {
	parent []vsched.Choice
	i      int
	alt    int
	raw    []byte // when parent is nil
}

func (it item) prefix() []byte {
	if it.parent == nil {
		return it.raw
	}
	p := make([]byte, it.i+1)
	for k := 0; k < it.i; k++ {
		p[k] = byte(it.parent[k].Pick())
	}
	p[it.i] = byte(it.alt)
	return p
}

type worker struct {
	scen    []Scenario
	tasks   []Task
	stack   []item
	cur     int
	seen    map[uint64]bool
	journal *os.File
}

func runOne(sc *Scenario, prefix []byte) *vsched.Exec {
	if sc.Setup != nil {
		sc.Setup()
	}
	return vsched.Run(sc.Opt, prefix, sc.Body)
}

func problem(sc *Scenario, e *vsched.Exec) string {
	m := e.Problem()
	if m == "" && sc.Post != nil {
		m = sc.Post(e)
	}
	return m
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func choices(e *vsched.Exec) []byte {
	var c []byte
	for _, x := range e.Trace() {
		c = append(c, byte(x.Pick()))
	}
	// trailing zeros are defaults
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}

func (w *worker) run(j job) reply {
	var r reply
	if len(j.Prefixes) > 0 || j.Scen != w.cur {
		w.cur = j.Scen
	}
	for _, p := range j.Prefixes {
		w.stack = append(w.stack, item{raw: p})
	}
	sc := &w.scen[w.cur]
	end := time.Now().Add(time.Duration(j.Slice) * time.Millisecond)
	for len(w.stack) > 0 {
		if time.Now().After(end) {
			break
		}
		it := w.stack[len(w.stack)-1]
		w.stack = w.stack[:len(w.stack)-1]
		p := it.prefix()
		w.note(p)
		e := runOne(sc, p)
		r.Execs++
		tr := e.Trace()
		div := ""
		if e.Diverged != "" || len(tr) < len(p) {
			div = fmt.Sprintf("%s: %s (trace %d, prefix %d)", sc.Name, e.Diverged, len(tr), len(p))
		}
		for k := 0; div == "" && it.parent != nil && k < len(p); k++ {
			if tr[k].N() != it.parent[k].N() {
				div = fmt.Sprintf("%s: choice %d has %d alternatives, had %d", sc.Name, k, tr[k].N(), it.parent[k].N())
			}
		}
		if div != "" {
			// The code under test is not deterministic here: nothing can be
			// concluded from this branch.
			r.Diverged = div
			r.NDiv++
			continue
		}
		r.Points += int64(len(tr) - len(p))
		r.Steps += int64(e.Steps())
		if e.Devs() > r.MaxDev {
			r.MaxDev = e.Devs()
		}
		if e.Threads() > r.MaxThr {
			r.MaxThr = e.Threads()
		}
		if len(tr) > r.MaxTrace {
			r.MaxTrace = len(tr)
		}
		if m := problem(sc, e); m != "" {
			r.Viol = append(r.Viol, viol{Scen: sc.Name, Msg: m, Choices: choices(e), Events: tail(e.Events)})
		}
		o := hash(sc.Name + e.Outcome())
		if !w.seen[o] {
			w.seen[o] = true
			r.Outcomes = append(r.Outcomes, o)
			if r.Sample == "" {
				r.Sample = fmt.Sprintf("%s choices=%v outcome=%s", sc.Name, choices(e), short(e.Outcome(), 300))
			}
		}
		for i := len(tr) - 1; i >= len(p); i-- {
			for a := tr[i].N() - 1; a >= 1; a-- {
				w.stack = append(w.stack, item{parent: tr, i: i, alt: a})
			}
		}
		if len(r.Viol) >= 20 {
			break
		}
	}
	if j.Donate && len(w.stack) > 1 {
		n := len(w.stack) / 2
		if n > 400 {
			n = 400
		}
		for _, it := range w.stack[:n] {
			r.Donated = append(r.Donated, it.prefix())
		}
		w.stack = append([]item(nil), w.stack[n:]...)
	}
	r.Pending = len(w.stack)
	return r
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tail(s []string) []string {
	if len(s) > 60 {
		return append([]string{"..."}, s[len(s)-60:]...)
	}
	return s
}

func (w *worker) note(p []byte) {
	if w.journal == nil {
		return
	}
	b := make([]byte, 8, 8+len(p))
	for k, v := range []int{w.cur, len(p)} {
		b[4*k] = byte(v)
		b[4*k+1] = byte(v >> 8)
		b[4*k+2] = byte(v >> 16)
	}
	w.journal.WriteAt(append(b, p...), 0)
}

func readJournal(f string) (int, []byte, bool) {
	b, err := os.ReadFile(f)
	if err != nil || len(b) < 8 {
		return 0, nil, false
	}
	n := int(b[4]) | int(b[5])<<8 | int(b[6])<<16
	if len(b) < 8+n {
		return 0, nil, false
	}
	return int(b[0]) | int(b[1])<<8 | int(b[2])<<16, b[8 : 8+n], true
}

func workerMain(p *Property, thorough bool, jf string) {
	debug.SetGCPercent(400)
	debug.SetMaxStack(64 << 20)
	runtime.GOMAXPROCS(2)
	w := &worker{seen: map[uint64]bool{}}
	if jf != "" {
		w.journal, _ = os.OpenFile(jf, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
	}
	if p.Scenarios != nil {
		w.scen = p.Scenarios(thorough)
	}
	if p.Tasks != nil {
		w.tasks = p.Tasks(thorough)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.NewFile(3, "out"), 1<<20)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	for {
		var j job
		if err := dec.Decode(&j); err != nil {
			return
		}
		var r reply
		switch j.Kind {
		case "quit":
			return
		case "run":
			r = w.run(j)
		case "one":
			w.cur = j.Scen
			w.note(j.Prefixes[0])
			vsched.Verbose = j.Verbose
			sc := &w.scen[j.Scen]
			e := runOne(sc, j.Prefixes[0])
			vsched.Verbose = false
			r.Execs = 1
			r.Problem = problem(sc, e)
			r.Diverged = e.Diverged
			r.Hash = hash(strings.Join(e.Events, "\n") + r.Problem + fmt.Sprint(choices(e), e.Steps(), len(e.Trace())))
			if j.Verbose {
				v := viol{Scen: sc.Name, Msg: r.Problem, Events: e.Events}
				for i, c := range e.Trace() {
					if c.Pick() != 0 || c.Data() {
						v.Labels = append(v.Labels, fmt.Sprintf("choice %d: took %d of %d: %s", i, c.Pick(), c.N(), c.Label()))
					}
				}
				r.Viol = []viol{v}
			}
		case "task":
			t := &T{Outcomes: map[uint64]bool{}, Deadline: time.Now().Add(time.Duration(j.DeadMS) * time.Millisecond)}
			w.tasks[j.Task].Run(t)
			for o := range t.Outcomes {
				r.Outcomes = append(r.Outcomes, o)
			}
			t.Outcomes = nil
			r.Task = t
			for _, v := range t.Viol {
				r.Viol = append(r.Viol, viol{Scen: w.tasks[j.Task].Name, Msg: v, Task: true})
			}
		}
		if err := enc.Encode(&r); err != nil {
			return
		}
		out.Flush()
	}
}

// ---------------------------------------------------------------------

type proc struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	enc     *json.Encoder
	dec     *json.Decoder
	stderr  *bytes.Buffer
	journal string
	replies chan *reply
	busy    bool
	scen    int
	pending int
	task    int
}

type coord struct {
	p        *Property
	thorough bool
	args     []string
	dir      string
	n        int
}

func (c *coord) start() *proc {
	c.n++
	jf := filepath.Join(c.dir, fmt.Sprintf("journal%d", c.n))
	cmd := exec.Command(os.Args[0], append(append([]string{}, c.args...), "-worker", jf)...)
	pr := &proc{cmd: cmd, stderr: &bytes.Buffer{}, journal: jf, replies: make(chan *reply, 1)}
	cmd.Stderr = &limited{b: pr.stderr}
	cmd.Stdout = cmd.Stderr
	pr.in, _ = cmd.StdinPipe()
	rd, wr, _ := os.Pipe()
	cmd.ExtraFiles = []*os.File{wr}
	if err := cmd.Start(); err != nil {
		fatal("start worker: %v", err)
	}
	wr.Close()
	pr.enc = json.NewEncoder(pr.in)
	pr.dec = json.NewDecoder(bufio.NewReaderSize(rd, 1<<20))
	go func() {
		for {
			var r reply
			if err := pr.dec.Decode(&r); err != nil {
				cmd.Wait()
				rd.Close()
				close(pr.replies)
				return
			}
			pr.replies <- &r
		}
	}()
	return pr
}

func secs(a, b time.Time) float64 {
	if b.IsZero() {
		b = time.Now()
	}
	if a.IsZero() {
		return 0
	}
	return b.Sub(a).Seconds()
}

type limited struct {
	mu sync.Mutex
	b  *bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "mc: "+f+"\n", a...)
	os.Exit(3)
}

// KnownFinding suppresses one specific violation.
type known struct {
	scen *regexp.Regexp
	msg  *regexp.Regexp
	what string
}

func loadKnown(file, id string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var f struct{ Property, Scenario, Match, What string }
		if err := json.Unmarshal([]byte(strings.TrimSpace(strings.TrimPrefix(l, "finding:"))), &f); err != nil {
			fatal("known findings: %v: %s", err, l)
		}
		if f.Property == id {
			ks = append(ks, known{regexp.MustCompile("^(?:" + f.Scenario + ")$"), regexp.MustCompile(f.Match), f.What})
		}
	}
	return ks
}

// Main is the check's entry point.
func Main() {
	id := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	wk := flag.String("worker", "", "")
	ev := flag.String("evidence", "", "evidence file")
	kf := flag.String("known", "", "known findings")
	limit := flag.Int("limit", 0, "seconds")
	nw := flag.Int("workers", 8, "")
	replay := flag.String("replay", "", "replay file")
	only := flag.String("only", "", "regexp of scenarios/tasks")
	list := flag.Bool("list", false, "")
	bound := flag.Int("bound", -1, "override")
	flag.Parse()
	if *list {
		for _, i := range IDs() {
			fmt.Println(i)
		}
		return
	}
	p := props[*id]
	if p == nil {
		fatal("unknown property %q", *id)
	}
	th := *tier == "thorough"
	if *bound >= 0 && p.Scenarios != nil {
		f := p.Scenarios
		p.Scenarios = func(t bool) []Scenario {
			s := f(t)
			for i := range s {
				s[i].Opt.Bound = *bound
			}
			return s
		}
	}
	if *wk != "" {
		workerMain(p, th, *wk)
		return
	}
	t0 := time.Now()
	lim := *limit
	if lim == 0 {
		lim = 60
		if th {
			lim = 800
		}
	}
	dir, err := os.MkdirTemp("", "vmc")
	if err != nil {
		fatal("%v", err)
	}
	args := []string{"-prop", *id, "-tier", *tier}
	if *bound >= 0 {
		args = append(args, "-bound", strconv.Itoa(*bound))
	}
	c := &coord{p: p, thorough: th, dir: dir, args: args}
	var code int
	if *replay != "" {
		code = c.replay(*replay)
	} else {
		code = c.explore(*nw, t0, t0.Add(time.Duration(lim)*time.Second), *ev, *kf, *tier, *only)
	}
	os.RemoveAll(dir)
	os.Exit(code)
}

func (c *coord) one(scen int, prefix []byte, verbose bool) (*reply, string) {
	pr := c.start()
	defer pr.kill()
	pr.enc.Encode(job{Kind: "one", Scen: scen, Prefixes: [][]byte{prefix}, Verbose: verbose})
	select {
	case r, ok := <-pr.replies:
		if !ok {
			return nil, "process died: " + firstLines(pr.stderr.String())
		}
		return r, ""
	case <-time.After(60 * time.Second):
		return nil, "process hung"
	}
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	p.in.Close()
}

func firstLines(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > 3 {
		l = l[:3]
	}
	return strings.Join(l, " | ")
}

func (c *coord) replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var v viol
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	if v.Task {
		fmt.Println("a complete enumeration; run the check again:", v.Msg)
		return 0
	}
	for i, s := range c.p.Scenarios(c.thorough) {
		if s.Name == v.Scen {
			r, died := c.one(i, v.Choices, true)
			if died != "" {
				fmt.Println(died)
				return 1
			}
			for _, l := range r.Viol[0].Labels {
				fmt.Println(l)
			}
			for _, l := range r.Viol[0].Events {
				fmt.Println("  " + l)
			}
			fmt.Println("result:", r.Problem)
			if r.Problem != "" {
				return 1
			}
			return 0
		}
	}
	fatal("scenario %q not found", v.Scen)
	return 3
}

func (c *coord) explore(nw int, t0, deadline time.Time, evFile, knownFile, tier, only string) int {
	known := loadKnown(knownFile, c.p.ID)
	knownHit := map[string]bool{}
	var scen []Scenario
	var tasks []Task
	if c.p.Scenarios != nil {
		scen = c.p.Scenarios(c.thorough)
	}
	if c.p.Tasks != nil {
		tasks = c.p.Tasks(c.thorough)
	}
	var onlyRe *regexp.Regexp
	if only != "" {
		onlyRe = regexp.MustCompile(only)
	}
	type scState struct {
		started, done   bool
		execs, points   int64
		steps, ndiv     int64
		maxDev, maxThr  int
		maxTrace        int
		pool            [][]byte
		active          int
		outcomes        map[uint64]bool
		incomplete      string
		started_, ended time.Time
	}
	st := make([]*scState, len(scen))
	for i := range scen {
		st[i] = &scState{outcomes: map[uint64]bool{}, pool: [][]byte{{}}}
		if onlyRe != nil && !onlyRe.MatchString(scen[i].Name) {
			st[i].done = true
			st[i].pool = nil
			st[i].incomplete = "not selected"
		}
	}
	taskNext := 0
	var taskTot T
	taskInc := map[string]string{}
	taskOut := map[uint64]bool{}
	var samples []string
	var fail *viol
	isKnown := func(scen, msg string) bool {
		for _, k := range known {
			if k.scen.MatchString(scen) && k.msg.MatchString(msg) {
				knownHit[k.what] = true
				return true
			}
		}
		return false
	}
	note := func(v viol, scenIdx int) {
		if isKnown(v.Scen, v.Msg) {
			return
		}
		if fail != nil {
			return
		}
		if !v.Task {
			// Fresh replays must show a problem again.
			good := 0
			for i := 0; i < 6 && good < 2; i++ {
				r, d := c.one(scenIdx, v.Choices, false)
				switch {
				case d != "":
					good++
					v.Msg += " (" + d + ")"
				case r.Problem != "" && !isKnown(v.Scen, r.Problem):
					good++
					if r.Problem != v.Msg {
						v.Msg += " (replay: " + r.Problem + ")"
					}
				}
			}
			if good < 2 {
				st[scenIdx].incomplete = "a problem does not replay: " + short(v.Msg, 200)
				return
			}
		}
		fail = &v
	}
	procs := make([]*proc, nw)
	for i := range procs {
		procs[i] = c.start()
	}
	defer func() {
		for _, p := range procs {
			p.kill()
		}
	}()
	type ev struct {
		i  int
		r  *reply
		ok bool
	}
	evs := make(chan ev, nw)
	nbusy := 0
	expired := false
	sent := make([]time.Time, nw)
	send := func(i int, j job) {
		pr := procs[i]
		pr.busy = true
		nbusy++
		sent[i] = time.Now()
		pr.enc.Encode(j)
		go func(pr *proc) {
			lim := time.Duration(j.Slice)*time.Millisecond + 90*time.Second
			if j.Kind == "task" {
				lim = time.Duration(j.DeadMS)*time.Millisecond + 60*time.Second
			}
			select {
			case r, ok := <-pr.replies:
				evs <- ev{i, r, ok}
			case <-time.After(lim):
				pr.cmd.Process.Kill()
				<-pr.replies
				pr.stderr.WriteString("worker hung")
				evs <- ev{i, nil, false}
			}
		}(pr)
	}
	died := 0
	cont := map[int]bool{} // worker has local pending work
	for {
		if time.Now().After(deadline) {
			expired = true
		}
		if fail != nil {
			break
		}
		// assign
		idle := 0
		for i, pr := range procs {
			if pr.busy {
				continue
			}
			if expired {
				continue
			}
			if cont[i] {
				send(i, job{Kind: "run", Scen: pr.scen, Slice: 300, Donate: true})
				continue
			}
			if taskNext < len(tasks) {
				if onlyRe != nil && !onlyRe.MatchString(tasks[taskNext].Name) {
					taskInc[tasks[taskNext].Name] = "not selected"
					taskNext++
					idle++
					continue
				}
				pr.task = taskNext
				pr.scen = -1
				send(i, job{Kind: "task", Task: taskNext, DeadMS: time.Until(deadline).Milliseconds()})
				taskNext++
				continue
			}
			given := false
			for s := range scen {
				if n := len(st[s].pool); n > 0 {
					k := n/nw + 1
					if k > 64 {
						k = 64
					}
					batch := st[s].pool[n-k:]
					st[s].pool = st[s].pool[:n-k]
					if !st[s].started {
						st[s].started = true
						st[s].started_ = time.Now()
					}
					st[s].active++
					pr.scen = s
					slice := 100
					send(i, job{Kind: "run", Scen: s, Prefixes: append([][]byte{}, batch...), Slice: slice, Donate: true})
					given = true
					break
				}
			}
			if !given {
				idle++
			}
		}
		if nbusy == 0 {
			if onlyRe != nil && taskNext < len(tasks) && !expired {
				continue
			}
			break
		}
		e := <-evs
		nbusy--
		pr := procs[e.i]
		pr.busy = false
		if !e.ok {
			// The worker died: find out whether an execution kills it.
			if pr.scen < 0 {
				fail = &viol{Scen: tasks[pr.task].Name, Msg: "process died: " + firstLines(pr.stderr.String()), Task: true}
				break
			}
			s, pf, ok := readJournal(pr.journal)
			if !ok {
				fatal("worker died: %s", pr.stderr.String())
			}
			_, d := c.one(s, pf, false)
			if d == "" {
				died++
				if died > 5 {
					fatal("workers die: %s", pr.stderr.String())
				}
			} else {
				note(viol{Scen: scen[s].Name, Msg: d, Choices: pf}, s)
			}
			if fail != nil {
				break
			}
			st[pr.scen].active--
			st[pr.scen].incomplete = "a worker died: " + firstLines(pr.stderr.String())
			procs[e.i] = c.start()
			delete(cont, e.i)
			continue
		}
		r := e.r
		if r.Task != nil {
			t := r.Task
			taskTot.States += t.States
			taskTot.Transitions += t.Transitions
			taskTot.Traces += t.Traces
			for _, s := range t.Samples {
				if len(samples) < 20 {
					samples = append(samples, tasks[pr.task].Name+": "+s)
				}
			}
			for _, o := range r.Outcomes {
				taskOut[o] = true
			}
			if t.Incomplete != "" {
				taskInc[tasks[pr.task].Name] = t.Incomplete
			}
			for _, v := range r.Viol {
				note(v, -1)
			}
			continue
		}
		s := st[pr.scen]
		if r.NDiv > 0 {
			s.ndiv += r.NDiv
			s.incomplete = fmt.Sprintf("%d executions not deterministic: %s", s.ndiv, r.Diverged)
		}
		s.execs += r.Execs
		s.points += r.Points
		s.steps += r.Steps
		if r.MaxDev > s.maxDev {
			s.maxDev = r.MaxDev
		}
		if r.MaxThr > s.maxThr {
			s.maxThr = r.MaxThr
		}
		if r.MaxTrace > s.maxTrace {
			s.maxTrace = r.MaxTrace
		}
		for _, o := range r.Outcomes {
			s.outcomes[o] = true
		}
		if r.Sample != "" && len(samples) < 20 && len(s.outcomes) < 4 {
			samples = append(samples, r.Sample)
		}
		s.pool = append(s.pool, r.Donated...)
		if r.Pending > 0 {
			cont[e.i] = true
		} else {
			delete(cont, e.i)
			s.active--
			if s.active == 0 && len(s.pool) == 0 {
				s.done = true
				s.ended = time.Now()
			}
		}
		for _, v := range r.Viol {
			note(v, pr.scen)
		}
	}
	// Results.
	var states, trans, traces int64
	out := 0
	exh := true
	var inc []string
	for i, s := range st {
		states += s.points + s.execs
		trans += s.steps
		traces += s.execs
		out += len(s.outcomes)
		status := "complete"
		if !s.done || s.incomplete != "" {
			exh = false
			status = "cut at the time limit"
			if s.incomplete != "" {
				status = s.incomplete
			}
			inc = append(inc, scen[i].Name+": "+status)
		}
		fmt.Printf("scenario %-40s bound=%d executions=%d choice-points=%d steps=%d outcomes=%d threads<=%d trace<=%d %s %.1fs\n", scen[i].Name, scen[i].Opt.Bound, s.execs, s.points, s.steps, len(s.outcomes), s.maxThr, s.maxTrace, status, secs(s.started_, s.ended))
	}
	if len(tasks) > 0 {
		states += taskTot.States
		trans += taskTot.Transitions
		traces += taskTot.Traces
		out += len(taskOut)
		fmt.Printf("tasks %d states=%d transitions=%d traces=%d outcomes=%d\n", len(tasks), taskTot.States, taskTot.Transitions, taskTot.Traces, len(taskOut))
		if taskNext < len(tasks) {
			exh = false
			inc = append(inc, fmt.Sprintf("%d tasks not started", len(tasks)-taskNext))
		}
		for n, w := range taskInc {
			exh = false
			inc = append(inc, n+": "+w)
		}
	}
	sort.Strings(inc)
	nviol := 0
	if fail != nil {
		nviol = 1
		exh = false
	}
	bounds := ""
	if c.p.Bounds != nil {
		bounds = c.p.Bounds(c.thorough)
	}
	if evFile != "" {
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		smp := make([]any, 0)
		for _, s := range samples {
			smp = append(smp, s)
		}
		doc := map[string]any{
			"property": c.p.ID, "tier": tier, "seed": seed, "level": "model_checking",
			"coverage": map[string]any{
				"states": states, "transitions": trans, "traces_validated_against_impl": traces,
				"samples": smp, "exhaustive": exh, "distinct_outcomes": out,
				"scenarios": len(scen), "tasks": len(tasks), "bounds": bounds, "incomplete": inc,
				"explanation": "states: nodes of the choice tree (stateless scenarios) plus distinct hashed states (explicit-state tasks); transitions: scheduler/statement steps or operations executed; every trace is an execution of the real, instrumented code.",
			},
			"assumptions": c.p.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": nviol,
		}
		b, _ := json.MarshalIndent(doc, "", " ")
		os.MkdirAll(filepath.Dir(evFile), 0755)
		if err := os.WriteFile(evFile, append(b, '\n'), 0644); err != nil {
			fatal("%v", err)
		}
	}
	var kh []string
	for k := range knownHit {
		kh = append(kh, k)
	}
	sort.Strings(kh)
	for _, k := range kh {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.p.ID, k)
	}
	if fail != nil {
		rp := "none"
		if evFile != "" {
			rp = filepath.Join(filepath.Dir(evFile), "replay-"+c.p.ID+".json")
			b, _ := json.MarshalIndent(fail, "", " ")
			os.WriteFile(rp, append(b, '\n'), 0644)
		}
		fmt.Printf("%s: %s\n", fail.Scen, fail.Msg)
		if len(fail.Choices) > 0 {
			fmt.Printf("choices: %v\n", fail.Choices)
		}
		for _, l := range fail.Events {
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.p.ID, rp)
		return 1
	}
	fmt.Printf("property %s: held on %d executions, %d states, exhaustive within bounds: %v (%.1fs)\n", c.p.ID, traces, states, exh, time.Since(t0).Seconds())
	return 0
}
