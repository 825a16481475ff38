package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http/httptest"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"

	prom "github.com/bigbluebutton/bbb-webrtc-recorder/internal/prometheus"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vmain"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vhttp"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vlksdk"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vos"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vpion"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vredigo"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsignal"
	"github.com/pion/webrtc/v3"
	"github.com/prometheus/client_golang/prometheus"
	log "github.com/sirupsen/logrus"
)

// ---------------------------------------------------------------------
// The running program.

type prog struct {
	*lib.Bus
	in   string
	seen int
}

// start runs the program next to a redis server.
func (v invocation) start(in string) *prog {
	v.prepare()
	prom.Sessions.Set(0)
	r := prometheus.NewRegistry()
	prometheus.DefaultRegisterer, prometheus.DefaultGatherer = r, r
	p := &prog{Bus: &lib.Bus{}, in: in}
	vredigo.Redis().OnPublish = func(q vredigo.Pub) {
		m := lib.Msg{Seq: q.Seq, At: vsched.Now(), Chan: q.Channel, Raw: q.Data}
		json.Unmarshal(q.Data, &m.M)
		p.Msgs = append(p.Msgs, m)
		if vsched.Verbose {
			vsched.Logf("%8s publish %s %s", m.At, q.Channel, q.Data)
		}
	}
	vsched.GoEnv("program", vmain.VMain)
	det(vsched.Settle)
	return p
}

func subscribers(ch string) []*vredigo.FConn {
	var r []*vredigo.FConn
	for _, c := range vredigo.Redis().Conns {
		if c.Subs[ch] && c.Closed == 0 {
			r = append(r, c)
		}
	}
	return r
}

// command delivers a command.
func (p *prog) command(m any) {
	b, _ := json.Marshal(m)
	if vsched.Verbose {
		vsched.Logf("%8s command %s", vsched.Now(), b)
	}
	l := subscribers(p.in)
	if len(l) != 1 {
		fail("%d subscriptions to the command channel %s", len(l), p.in)
		return
	}
	l[0].Message(p.in, b)
}

// fresh returns the messages published since the last call.
func (p *prog) fresh() []lib.Msg {
	m := p.Msgs[p.seen:]
	p.seen = len(p.Msgs)
	return m
}

// ask delivers a command and returns what is published in reply.
func (p *prog) ask(m any) []lib.Msg {
	p.fresh()
	det(func() { p.command(m); vsched.Settle() })
	return p.fresh()
}

func conf(t tree) (string, string) { return "c.yml", t.yaml() }

func cArgs() []string { return []string{"-c", filepath.Join(home(), "c.yml")} }

// ---------------------------------------------------------------------
// G03

// plan is a configuration a recording may run under.
type plan struct {
	dir, pub      string
	fmode, dmode  string
	fbits, dbits  uint32
	ivf           bool
	ice, lkKey    string
	jitterTimeout int
	level         string
}

var plans = []plan{
	{"/rec/a", "out", "0600", "0700", 0600, 0700, false, "stun:a", "ka", 200, "PANIC"},
	{"/rec/b", "out", "0640", "0750", 0640, 0750, true, "stun:b", "kb", 200, "FATAL"},
	{"/rec/d", "out2", "0600", "0700", 0600, 0700, false, "stun:d", "kd", 200, "ERROR"}, // mostly defaults
	{"/rec/c", "out2", "0604", "0705", 0604, 0705, false, "stun:c", "kc", 300, "ERROR"},
}

func (p plan) tree() tree {
	t := tree{}
	t.set("log.level", p.level)
	t.set("pubsub.channels.subscribe", "in")
	t.set("pubsub.channels.publish", p.pub)
	t.set("recorder.directory", p.dir)
	if p.fmode != "0600" {
		t.set("recorder.fileMode", p.fmode)
	}
	if p.dmode != "0700" {
		t.set("recorder.dirFileMode", p.dmode)
	}
	if p.ivf {
		t.set("recorder.writeIVFCopy", p.ivf)
	}
	t.set("webrtc.iceServers", []any{map[string]any{"urls": []any{p.ice}}})
	t.set("webrtc.jitterBufferPktTimeout", p.jitterTimeout)
	t.set("livekit.apiKey", p.lkKey)
	return t
}

func recDirs() {
	for _, p := range plans {
		vos.Disk().AddDir(p.dir)
	}
}

// broken files cannot be loaded.
var broken = []string{"recorder: [", "recorder: {fileMode: \"0666\", writeIVFCopy: true}\nunknown: {}\nhttp: {what: 1}", "webrtc: {rtcMinPort: many}", "", "- a\n- b\n", "\x00", "pubsub: 3"}

// rec is a recording in progress.
type rec struct {
	id, path string
	p        plan
	v        *src
	frames   int
	by       string
}

// under tells which plan a recording runs under entirely, by its response,
// peer connection and files.
func (r *rec) under() string {
	p := r.p
	if want := p.dir + "/sub-" + r.id + "/f.webm"; r.path != want {
		return fmt.Sprintf("recorded to %s instead of %s", r.path, want)
	}
	if n := vos.Disk().Nodes[filepath.Dir(r.path)]; n == nil || uint32(n.Mode)&0777 != p.dbits {
		return fmt.Sprintf("its directory does not have mode %s", p.dmode)
	}
	if n := vos.Disk().Nodes[r.path]; n == nil || uint32(n.Mode) != p.fbits {
		return fmt.Sprintf("its file does not have mode %s", p.fmode)
	}
	ivf := false
	for _, q := range vos.Disk().Paths() {
		if strings.HasPrefix(q, filepath.Dir(r.path)+"/") && strings.HasSuffix(q, ".ivf") {
			ivf = true
		}
	}
	if ivf != p.ivf {
		return fmt.Sprintf("IVF copy written: %v, configured: %v", ivf, p.ivf)
	}
	return ""
}

func (r *rec) finished() {
	w, err := file(r.path)
	if err != nil {
		fail("recording %s: %v", r.id, err)
		return
	}
	n := 0
	for _, b := range w.Blocks {
		_ = b
		n++
	}
	if n != r.frames {
		fail("recording %s has %d of %d frames", r.id, n, r.frames)
	}
}

func startCmd(id string) lib.M { return lib.StartMS(id, "sub-"+id+"/f.webm", "video") }

func g03() *mc.Property {
	for _, p := range plans {
		_ = p
	}
	world := func() *prog {
		recDirs()
		n, f := conf(plans[0].tree())
		p := invocation{args: cArgs(), name: n, file: f}.start("in")
		if m := p.fresh(); len(m) != 1 || m[0].Id() != "recorderStatus" || m[0].Chan != "out" {
			fail("at the start %d messages are published", len(m))
		}
		if !vsignal.Handled(syscall.SIGHUP) {
			fail("SIGHUP is not handled")
		}
		return p
	}
	write := func(k plan) { n, f := conf(k.tree()); put(n, f) }
	begin := func(p *prog, id string, pl plan) *rec {
		m := p.ask(startCmd(id))
		if len(m) != 1 || m[0].Id() != "startRecordingResponse" || m[0].Sess() != id || m[0].Str("status") != "ok" {
			fail("the start of %s is answered with %d messages, first %s", id, len(m), first(m))
			return nil
		}
		if m[0].Chan != pl.pub {
			fail("the response is published on %s, configured is %s", m[0].Chan, pl.pub)
		}
		r := &rec{id: id, path: m[0].Str("fileName"), p: pl}
		pc := lib.LastPC()
		if l := pc.Cfg.ICEServers; len(l) != 1 || len(l[0].URLs) != 1 || l[0].URLs[0] != pl.ice {
			fail("recording %s uses the ICE servers %v, configured is %s", id, l, pl.ice)
		}
		pc.FireICE(webrtc.ICEConnectionStateConnected)
		r.v = video(pc, uint32(100+len(id)))
		settle()
		return r
	}
	media := func(r *rec) {
		for i := 0; i < 3; i++ {
			r.v.frame(i == 0)
			r.frames++
			sleep(30 * ms)
		}
	}
	seqBody := func(depth int) func() {
		return func() {
			p := world()
			eff := plans[0]
			instance := p.Msgs[0].Str("instanceId")
			var live []*rec
			n := 0
			for i := 0; i < depth; i++ {
				switch op := pick("step", "reload b", "reload d", "reload a broken file", "edit without reloading", "start", "media", "stop", "status"); op {
				case "reload b", "reload d":
					k := plans[1]
					if op == "reload d" {
						k = plans[2]
					}
					write(k)
					vsignal.Send(syscall.SIGHUP)
					settle()
					eff = k
				case "reload a broken file":
					put("c.yml", broken[i%len(broken)])
					vsignal.Send(syscall.SIGHUP)
					settle()
				case "edit without reloading":
					write(plans[i%3])
				case "start":
					n++
					r := begin(p, fmt.Sprintf("s%d", n), eff)
					media(r)
					if bad := r.under(); bad != "" {
						fail("a recording started after the configuration was loaded is not made accordingly: %s", bad)
					}
					live = append(live, r)
				case "media":
					for _, r := range live {
						media(r)
					}
				case "stop":
					if len(live) == 0 {
						continue
					}
					r := live[0]
					live = live[1:]
					m := p.ask(lib.Stop(r.id))
					if len(m) != 1 || m[0].Id() != "recordingStopped" || m[0].Sess() != r.id || m[0].Chan != eff.pub {
						fail("the stop of %s is answered with %d messages, first %s on %s", r.id, len(m), first(m), chanOf(m))
					}
					r.finished()
				default:
					m := p.ask(lib.M{"id": "getRecorderStatus"})
					if len(m) != 1 || m[0].Id() != "recorderStatus" || m[0].Chan != eff.pub || m[0].Str("instanceId") != instance || instance == "" || m[0].Str("appVersion") == "" {
						fail("a status query is answered with %d messages, first %s on %s", len(m), first(m), chanOf(m))
					}
				}
				if got := strings.ToUpper(log.GetLevel().String()); got != eff.level {
					fail("the log level is %s, configured is %s", got, eff.level)
				}
				for _, m := range p.fresh() {
					if m.Id() != "recordingRtpStatusChanged" {
						fail("%s is published without reason", m.Raw)
					}
				}
			}
			for _, r := range live {
				media(r)
				p.ask(lib.Stop(r.id))
				r.finished()
			}
			for _, r := range live {
				if len(p.By("recordingStopped", r.id)) != 1 {
					fail("recording %s ended %d times", r.id, len(p.By("recordingStopped", r.id)))
				}
			}
			if s := lib.Sessions(); s != 0 {
				fail("%v sessions remain", s)
			}
		}
	}
	return &mc.Property{ID: "G03",
		Assumptions: append([]string{"the configuration file is replaced atomically, and reading it is one step"}, assume...),
		Bounds: func(th bool) string {
			return fmt.Sprintf("every sequence of %d steps of editing, reloading (2 other configurations, broken files of %d kinds), starting, media, stopping and queries on the whole program; every single setting changed together with a reload, and back; all schedules with %d deviations of a reload next to a start, a stop and another reload (statements of app and server included)", bnd(th, 5, 6), len(broken), bnd(th, 2, 3))
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{
				seq("G03/steps", seqBody(bnd(th, 5, 6))),
				seq("G03/every broken file", func() {
					p := world()
					r := begin(p, "s1", plans[0])
					media(r)
					put("c.yml", broken[vsched.Choose(len(broken), "file")])
					for i := 0; i < 2; i++ {
						vsignal.Send(syscall.SIGHUP)
						settle()
					}
					media(r)
					q := begin(p, "s2", plans[0])
					media(q)
					write(plans[1])
					vsignal.Send(syscall.SIGHUP)
					settle()
					u := begin(p, "s3", plans[1])
					media(u)
					for _, k := range []*rec{r, q, u} {
						p.ask(lib.Stop(k.id))
						k.finished()
						if bad := k.under(); bad != "" {
							fail("recording %s: %s", k.id, bad)
						}
					}
				}),
				seq("G03/every setting", func() {
					p := world()
					r := begin(p, "s1", plans[0])
					media(r)
					var l []setting
					for _, s := range settings {
						if strings.HasPrefix(s.path, "webrtc.") || strings.HasPrefix(s.path, "livekit.") || strings.HasPrefix(s.path, "prometheus") || strings.HasPrefix(s.path, "http") || strings.HasPrefix(s.path, "pubsub.adapter") {
							l = append(l, s)
						}
					}
					k := vsched.Choose(len(l), "setting")
					t := plans[3].tree()
					t.set(l[k].path, l[k].vals[vsched.Choose(2, "value")])
					if l[k].path == "livekit.apiKey" {
						t.set(l[k].path, "x")
					}
					if vsched.Verbose {
						vsched.Logf("reloading with %s", t.yaml())
					}
					put("c.yml", t.yaml())
					vsignal.Send(syscall.SIGHUP)
					settle()
					q := begin(p, "s2", plans[3])
					media(q)
					write(plans[1])
					vsignal.Send(syscall.SIGHUP)
					settle()
					u := begin(p, "s3", plans[1])
					media(u)
					for _, k := range []*rec{r, q, u} {
						p.ask(lib.Stop(k.id))
						k.finished()
						if bad := k.under(); bad != "" {
							fail("recording %s: %s", k.id, bad)
						}
					}
				}),
				conc("G03/reload while starting", bnd(th, 2, 3), vsched.PkgApp|vsched.PkgServer, func() {
					var p *prog
					det(func() { p = world(); write(plans[1]); p.fresh() })
					vsched.GoEnv("signal", func() { vsched.Point("signal"); vsignal.Send(syscall.SIGHUP) })
					p.command(startCmd("s"))
					vsched.Sleep(time.Second)
					m := p.By("startRecordingResponse", "s")
					if len(m) != 1 || m[0].Str("status") != "ok" {
						fail("a start next to a reload is answered %d times, first %s", len(m), first(m))
						return
					}
					r := &rec{id: "s", path: m[0].Str("fileName")}
					pc := lib.LastPC()
					det(func() {
						pc.FireICE(webrtc.ICEConnectionStateConnected)
						r.v = video(pc, 7)
						vsched.Settle()
					})
					media(r)
					r.p = plans[0]
					if bad := r.under(); bad != "" {
						r.p = plans[1]
						if bad2 := r.under(); bad2 != "" {
							fail("a recording started during a reload follows neither configuration: %s; %s", bad, bad2)
						}
					}
					p.ask(lib.Stop("s"))
					r.finished()
					begin(p, "t", plans[1])
				}),
				conc("G03/reloads in a row", bnd(th, 2, 3), vsched.PkgApp, func() {
					var p *prog
					det(func() { p = world() })
					for i := 1; i < 3; i++ {
						vsched.Point("edit")
						write(plans[i])
						vsignal.Send(syscall.SIGHUP)
					}
					vsched.Sleep(time.Second)
					if m := p.ask(lib.M{"id": "getRecorderStatus"}); len(m) != 1 || m[0].Chan != plans[2].pub {
						fail("after two reloads in a row the first one is in effect")
					}
					begin(p, "s", plans[2])
				}),
				conc("G03/reload while stopping", bnd(th, 2, 3), vsched.PkgApp|vsched.PkgServer, func() {
					var p *prog
					var r *rec
					det(func() { p = world(); r = begin(p, "s", plans[0]); media(r); write(plans[3]) })
					vsched.GoEnv("signal", func() { vsched.Point("signal"); vsignal.Send(syscall.SIGHUP) })
					p.command(lib.Stop("s"))
					vsched.Sleep(time.Second)
					if m := p.By("recordingStopped", "s"); len(m) != 1 || m[0].Chan != "out" && m[0].Chan != "out2" {
						fail("a stop next to a reload is answered with %d messages", len(m))
					}
					r.finished()
					if bad := func() string { r.p = plans[0]; return r.under() }(); bad != "" {
						fail("a reload changed a running recording: %s", bad)
					}
				}),
			}
		}}
}

func first(m []lib.Msg) string {
	if len(m) == 0 {
		return "none"
	}
	return string(m[0].Raw)
}
func chanOf(m []lib.Msg) string {
	if len(m) == 0 {
		return "none"
	}
	return m[0].Chan
}

// ---------------------------------------------------------------------
// G04

func get(addr, path string) *httptest.ResponseRecorder {
	for _, s := range vhttp.Web().Servers {
		if s.Addr == addr {
			w := httptest.NewRecorder()
			s.Handler.ServeHTTP(w, httptest.NewRequest("GET", path, nil))
			return w
		}
	}
	return nil
}

func g04() *mc.Property {
	// exits runs the program and requires its exit, judged by ok.
	exits := func(v invocation, during func(p *prog), what string, ok func(code int) bool) {
		done := false
		vsched.OnExit(func(c int) {
			done = true
			if !ok(c) {
				fail("%s: exit with status %d", what, c)
			}
			vsched.SetOutcome(fmt.Sprint(what, c))
		})
		p := v.start("in")
		if during != nil {
			during(p)
		}
		sleep(100 * time.Second)
		if !done {
			fail("%s: the service goes on", what)
		}
	}
	base := func(f func(t tree)) invocation {
		t := plans[0].tree()
		if f != nil {
			f(t)
		}
		n, c := conf(t)
		return invocation{args: cArgs(), name: n, file: c}
	}
	bad := func(c int) bool { return c != 0 }
	return &mc.Property{ID: "G04",
		Assumptions: append([]string{"redis is reachable over any network and address unless the scenario says otherwise"}, assume...),
		Bounds: func(th bool) string {
			return "every combination of HTTP page and metrics on and off, 3 redis addresses with and without password, 3 pairs of channels and 3 log levels; every setting of WebRTC, LiveKit and recorder at 3 values observed where it is used; every failure at the start; interruption and connection loss after each of 5 histories, and interruption in every schedule with 2 deviations of a start; sequences of " + fmt.Sprint(bnd(th, 5, 6)) + " starts and stops with the exported metric read after each"
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{
				seq("G04/what is started", func() {
					h, m := flip("http"), flip("metrics")
					r := vsched.Choose(3, "redis")
					c := vsched.Choose(3, "channels")
					l := pick("log level", "ERROR", "FATAL", "PANIC")
					net, addr, pw := []string{"tcp", "unix", "tcp4"}[r], []string{":6379", "/run/redis", "10.0.0.1:1"}[r], []string{"", "pw", "x y"}[r]
					in, out := []string{"in", "to-x", "b"}[c], []string{"out", "from-x", "a"}[c]
					v := base(func(t tree) {
						t.set("http.enable", h)
						t.set("http.port", 1234)
						t.set("prometheus.enable", m)
						t.set("prometheus.listenAddress", "127.0.0.1:99")
						t.set("pubsub.adapters.redis", map[string]any{"network": net, "address": addr, "password": pw})
						t.set("pubsub.channels.subscribe", in)
						t.set("pubsub.channels.publish", out)
						t.set("log.level", l)
					})
					vredigo.Redis().Password = pw
					p := v.start(in)
					for _, k := range vredigo.Redis().Conns {
						if k.Network != net || k.Address != addr {
							fail("redis is connected to at %s %s, configured is %s %s", k.Network, k.Address, net, addr)
						}
					}
					if n := len(subscribers(in)); n != 1 {
						fail("%d subscriptions to the command channel %s", n, in)
					}
					want := 0
					if h {
						want = 1
					}
					if n := len(subscribers(out)); n != want {
						fail("%d subscriptions to the publish channel with the HTTP page %v", n, h)
					}
					if ms := p.By("*", "*"); len(ms) != 1 || ms[0].Id() != "recorderStatus" || ms[0].Chan != out || ms[0].Str("instanceId") == "" || ms[0].Str("appVersion") == "" {
						fail("at the start %d messages are published, first %s", len(ms), first(ms))
					}
					var addrs, exp []string
					for _, s := range vhttp.Web().Servers {
						addrs = append(addrs, s.Addr)
					}
					if h {
						exp = append(exp, ":1234")
					}
					if m {
						exp = append(exp, "127.0.0.1:99")
					}
					sort.Strings(addrs)
					sort.Strings(exp)
					if !reflect.DeepEqual(addrs, exp) {
						fail("served addresses are %v, configured are %v", addrs, exp)
					}
					if h {
						if w := get(":1234", "/"); w == nil || w.Code != 200 || !strings.Contains(w.Body.String(), "<video") {
							fail("the HTTP page is not served")
						}
					}
					if m {
						if w := get("127.0.0.1:99", "/metrics"); w == nil || w.Code != 200 || !strings.Contains(w.Body.String(), "\nrecorder_sessions 0\n") {
							fail("the metrics are not served")
						}
					}
					if got := strings.ToUpper(log.GetLevel().String()); got != l {
						fail("the log level is %s, configured is %s", got, l)
					}
					if a := p.ask(lib.M{"id": "getRecorderStatus"}); len(a) != 1 || a[0].Id() != "recorderStatus" || a[0].Chan != out {
						fail("a status query is answered with %d messages", len(a))
					}
				}),
				seq("G04/settings in use", func() {
					k := vsched.Choose(3, "values")
					lo, hi := []int{24577, 1024, 5000}[k], []int{32768, 65535, 5000}[k]
					ice := [][]any{nil, {map[string]any{"urls": []any{"stun:a:1", "stun:b"}}}, {map[string]any{"urls": []any{"turn:c"}, "username": "u", "credential": "p"}, map[string]any{"urls": []any{"stun:d"}}}}[k]
					host, key, secret := []string{"ws://a:1", "wss://b", "ws://c/x"}[k], []string{"k", "k2", "k 3"}[k], []string{"s", "s2", "s=3"}[k]
					devnull, ivf := flip("dev null"), flip("ivf")
					useEnv := flip("from the environment")
					t := plans[k].tree()
					delete(t["webrtc"].(map[string]any), "iceServers")
					if ice != nil {
						t.set("webrtc.iceServers", ice)
					}
					env := map[string]string{}
					set := func(path string, v any) {
						if useEnv {
							env[setting{path: path}.env()] = fmt.Sprint(v)
						} else {
							t.set(path, v)
						}
					}
					set("webrtc.rtcMinPort", lo)
					set("webrtc.rtcMaxPort", hi)
					set("livekit.host", host)
					set("livekit.apiKey", key)
					set("livekit.apiSecret", secret)
					set("recorder.writeToDevNull", devnull)
					set("recorder.writeIVFCopy", ivf)
					recDirs()
					vos.Disk().AddDir("/dev")
					vos.Disk().Nodes["/dev/null"] = &vos.Inode{Name: "/dev/null", Dev: true, Mode: 0666}
					n, c := conf(t)
					p := invocation{args: cArgs(), name: n, file: c, env: env}.start("in")
					lkRoom("V1")
					a := p.ask(startCmd("m"))
					b := p.ask(lib.StartLK("l", "l.webm", "room", "V1"))
					if len(a) != 1 || len(b) < 1 || a[0].Str("status") != "ok" || b[0].Str("status") != "ok" {
						fail("the recordings are answered with %s and %s", first(a), first(b))
						return
					}
					pc := vpion.Net().PCs[0]
					udp := reflect.ValueOf(pc.SE).FieldByName("ephemeralUDP")
					if g, w := udp.FieldByName("PortMin").Uint(), udp.FieldByName("PortMax").Uint(); int(g) != lo || int(w) != hi {
						fail("the ports are %d-%d, configured are %d-%d", g, w, lo, hi)
					}
					got := ""
					for _, s := range pc.Cfg.ICEServers {
						got += fmt.Sprintf("%q %q %v %v;", s.URLs, s.Username, s.Credential, s.CredentialType)
					}
					if want := []string{"", `["stun:a:1" "stun:b"] "" <nil> password;`, `["turn:c"] "u" p password;["stun:d"] "" <nil> password;`}[k]; got != want {
						fail("the ICE servers are %s, configured are %s", got, want)
					}
					room := lastRoom()
					if room.URL != host || room.Info.APIKey != key || room.Info.APISecret != secret || room.Info.RoomName != "room" {
						fail("the LiveKit room is joined at %s as %q %q", room.URL, room.Info.APIKey, room.Info.APISecret)
					}
					pc.FireICE(webrtc.ICEConnectionStateConnected)
					s := video(pc, 9)
					settle()
					for i := 0; i < 3; i++ {
						s.frame(i == 0)
						sleep(30 * ms)
					}
					p.ask(lib.Stop("m"))
					p.ask(lib.Stop("l"))
					written := ""
					for _, q := range vos.Disk().Paths() {
						if nd := vos.Disk().Nodes[q]; !nd.Dir && !nd.Dev && strings.Contains(q, "sub-m") {
							written += filepath.Ext(q)
						}
					}
					want := ".webm"
					if devnull {
						want = ""
					}
					if ivf && !devnull {
						want = ".ivf.webm"
					}
					if written != want && !(devnull && ivf) {
						fail("files %s are written with writeToDevNull %v and writeIVFCopy %v", written, devnull, ivf)
					}
				}),
				seq("G04/failures at the start", func() {
					switch pick("failure", "no redis", "wrong password", "unknown adapter", "malformed file", "malformed environment", "no redis for the subscription", "subscription refused") {
					case "no redis":
						vredigo.Redis().Fail = func(c *vredigo.FConn, step string) error {
							if step == "dial" {
								return errors.New("connection refused")
							}
							return nil
						}
						exits(base(nil), nil, "no redis", bad)
					case "wrong password":
						vredigo.Redis().Password = "right"
						exits(base(nil), nil, "wrong password", bad)
					case "unknown adapter":
						exits(base(func(t tree) { t.set("pubsub.adapter", "kafka") }), nil, "unknown adapter", bad)
					case "malformed file":
						v := base(nil)
						v.file = broken[vsched.Choose(len(broken), "file")]
						exits(v, nil, "malformed file", bad)
					case "malformed environment":
						v := base(nil)
						v.env = map[string]string{"BBBRECORDER_HTTP_PORT": "many"}
						exits(v, nil, "malformed environment", bad)
					case "no redis for the subscription":
						n := 0
						vredigo.Redis().Fail = func(c *vredigo.FConn, step string) error {
							if step == "dial" {
								if n++; n > 1 {
									return errors.New("connection refused")
								}
							}
							return nil
						}
						exits(base(nil), nil, "no redis for the subscription", bad)
					default:
						vredigo.Redis().Fail = func(c *vredigo.FConn, step string) error {
							if step == "send:SUBSCRIBE" {
								return errors.New("broken pipe")
							}
							return nil
						}
						exits(base(nil), nil, "subscription refused", bad)
					}
				}),
				seq("G04/ends", func() {
					history := vsched.Choose(5, "history")
					end := pick("end", "interrupt", "connection lost", "redis gone silent")
					recDirs()
					exits(base(func(t tree) { t.set("http.enable", flip("http")) }), func(p *prog) {
						for i := 0; i < history; i++ {
							switch i {
							case 0:
								p.ask(startCmd("a"))
							case 1:
								pc := lib.LastPC()
								pc.FireICE(webrtc.ICEConnectionStateConnected)
								s := video(pc, 3)
								settle()
								s.frame(true)
								sleep(50 * ms)
							case 2:
								vsignal.Send(syscall.SIGHUP)
								settle()
							default:
								p.ask(lib.Stop("a"))
							}
						}
						switch end {
						case "interrupt":
							vsignal.Send(os.Interrupt)
						case "connection lost":
							subscribers("in")[0].Break(errors.New("connection reset"))
						default:
							subscribers("in")[0].Mute = true
						}
						sleep(200 * time.Second)
					}, end, func(c int) bool { return (c == 0) == (end == "interrupt") })
				}),
				conc("G04/interrupted start", 2, vsched.PkgApp|vsched.PkgServer, func() {
					var p *prog
					done := false
					det(func() {
						recDirs()
						p = base(nil).start("in")
					})
					vsched.OnExit(func(c int) {
						done = true
						if c != 0 {
							fail("an interrupted service exits with status %d", c)
						}
					})
					p.command(startCmd("a"))
					vsched.Point("interrupt")
					vsignal.Send(os.Interrupt)
					vsched.Sleep(time.Second)
					if !done {
						fail("an interrupt does not end the service")
					}
				}),
				conc("G04/interrupted early", bnd(th, 2, 3), vsched.PkgApp, func() {
					done := false
					vsched.OnExit(func(c int) {
						done = true
						if c != 0 {
							fail("an interrupted service exits with status %d", c)
						}
					})
					det(func() { base(nil).prepare() })
					vredigo.Redis()
					vsched.GoEnv("program", vmain.VMain)
					vsched.Block("interrupt", func() bool { return vsignal.Handled(os.Interrupt) })
					vsched.Point("interrupt")
					vsignal.Send(os.Interrupt)
					vsched.Sleep(time.Second)
					if !done {
						fail("an interrupt does not end the service")
					}
				}),
				seq("G04/metric", func() {
					recDirs()
					v := base(func(t tree) {
						t.set("prometheus.enable", true)
						t.set("http.enable", flip("http"))
					})
					p := v.start("in")
					n := 0
					live := map[string]*vpion.PeerConnection{}
					for i := 0; i < bnd(th, 5, 6); i++ {
						id := fmt.Sprintf("s%d", i/2)
						switch pick("step", "start", "failing start", "start over livekit", "stop", "connection ends") {
						case "start":
							if m := p.ask(startCmd(id)); len(m) == 1 && m[0].Str("status") == "ok" {
								live[id] = lib.LastPC()
								n++
							}
						case "failing start":
							m := startCmd(fmt.Sprintf("f%d", i))
							m["fileName"] = "no.extension"
							p.ask(m)
						case "start over livekit":
							lkRoom("V1")
							k := fmt.Sprintf("l%d", i)
							if m := p.ask(lib.StartLK(k, k+".webm", "room", "V1")); len(m) == 1 && m[0].Str("status") == "ok" {
								live[k] = nil
								n++
							}
						case "stop", "connection ends":
							var ids []string
							for k := range live {
								ids = append(ids, k)
							}
							sort.Strings(ids)
							if len(ids) == 0 {
								continue
							}
							if pc := live[ids[0]]; pc != nil && i%2 == 1 {
								pc.FireICE(webrtc.ICEConnectionStateFailed)
								settle()
							} else {
								p.ask(lib.Stop(ids[0]))
							}
							delete(live, ids[0])
							n--
						}
						w := get("127.0.0.1:3200", "/metrics")
						if w == nil || !strings.Contains(w.Body.String(), fmt.Sprintf("\nrecorder_sessions %d\n", n)) {
							fail("the exported number of sessions is not %d", n)
						}
					}
				}),
			}
		}}
}

var _ = vlksdk.Net

func init() {
	mc.Register(g03())
	mc.Register(g04())
}
