package props

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vlksdk"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vos"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vpion"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	lk "github.com/livekit/server-sdk-go/v2"
	"github.com/pion/webrtc/v3"
)

var _ = errors.New
var _ = io.EOF

// checkResponse checks the form of the newest response to a start request.
func checkResponse(w *lib.World, id string, before int, ms bool) (ok bool) {
	rs := w.Bus.By("startRecordingResponse", id)
	if len(rs)-before != 1 {
		fail("start request %s got %d responses", id, len(rs)-before)
		return false
	}
	m := rs[len(rs)-1]
	if m.Chan != lib.Out {
		fail("response on channel %q", m.Chan)
	}
	switch m.Str("status") {
	case "ok":
		if m.Has("error") {
			fail("successful response carries an error: %s", m.Raw)
		}
		if m.Str("fileName") == "" {
			fail("successful response without a file path: %s", m.Raw)
		}
		if ms {
			typ, sdp, err := lib.Answer(m.Str("sdp"))
			pc := lib.LastPC()
			if err != nil || typ != "answer" || pc == nil || pc.Local == nil || sdp != pc.Local.SDP {
				fail("successful response without the answer of its peer connection: %s", m.Raw)
			}
		}
		return true
	case "failed":
		if m.Str("error") == "" {
			fail("failed response without an error: %s", m.Raw)
		}
		if m.Has("sdp") || m.Has("fileName") {
			fail("failed response carries an answer or a file: %s", m.Raw)
		}
	default:
		fail("response status %q", m.Str("status"))
	}
	return false
}

func a01() *mc.Property {
	shapes := func(short bool) func() {
		return func() {
			w := lib.Start(nil)
			vos.Disk().AddFile(lib.Dir+"/exists.webm", []byte("x"))
			lkRoom("V1", "A1")
			m := lib.M{"id": "startRecording", "recordingSessionId": "s1"}
			ad := pick("adapter", "", "mediasoup", "livekit", "bogus")
			if ad != "" {
				m["adapter"] = ad
			}
			good := lib.Offer("audio", "video")
			msd, lkd := "", ""
			o := lib.M{}
			msd = pick("mediasoup options", "none", "empty", "good", "notbase64", "notjson", "badsdp", "emptyobj")
			val := map[string]string{"good": good, "notbase64": "%%%", "notjson": "AAAA", "badsdp": "eyJ0eXBlIjoib2ZmZXIiLCJzZHAiOiJtPWJhZFxyXG4ifQ==", "emptyobj": "e30="}
			if msd != "none" {
				s := lib.M{}
				if msd != "empty" {
					s["sdp"] = val[msd]
				}
				o["mediasoup"] = s
			}
			lkd = pick("livekit options", "none", "empty", "room", "tracks", "full")
			switch lkd {
			case "empty":
				o["livekit"] = lib.M{}
			case "room":
				o["livekit"] = lib.M{"room": "r"}
			case "tracks":
				o["livekit"] = lib.M{"trackIds": []string{"V1"}}
			case "full":
				o["livekit"] = lib.M{"room": "r", "trackIds": []string{"V1"}}
			}
			if len(o) > 0 || flip("empty options object") {
				m["adapterOptions"] = o
			}
			legacy := pick("legacy sdp", "none", "good", "notbase64", "notjson", "badsdp", "emptyobj")
			if legacy != "none" {
				v := val[legacy]
				m["sdp"] = v
			}
			fl := pick("file", "a.webm", "", "a.mkv", "exists.webm", "../a.webm", "d/e/a.webm")
			if fl != "" {
				m["fileName"] = fl
			}
			fileOK := fl == "a.webm" || fl == "d/e/a.webm"
			want := false
			switch ad {
			case "", "mediasoup":
				eff := legacy
				if msd != "none" && msd != "empty" {
					eff = msd
				}
				want = eff == "good"
			case "livekit":
				want = lkd == "full"
			}
			want = want && fileOK
			w.Do(m)
			ok := checkResponse(w, "s1", 0, ad != "livekit")
			if ok != want {
				fail("start request %v: success %v, expected %v", m, ok, want)
			}
			if l := live(w, "s1"); l != ok {
				fail("start request %v answered with success %v but session live: %v", m, ok, l)
			}
			vsched.SetOutcome(fmt.Sprint(ad, msd, lkd, legacy, fl, ok))
		}
	}
	faults := func() {
		w := lib.Start(nil)
		lkRoom("V1", "A1")
		lk := flip("livekit")
		var m lib.M
		step := ""
		if lk {
			m = lib.StartLK("s1", "d/a.webm", "r", "V1", "A1")
			step = pick("failing step", "none", "connect", "subscribe V1", "subscribe A1", "stat", "mkdir")
			vlksdk.Net().Connect = func(string, lkInfo) error {
				if step == "connect" {
					return errors.New("refused")
				}
				return nil
			}
			old := vlksdk.Net().Fill
			vlksdk.Net().Fill = func(r *vlksdk.Room) {
				old(r)
				for _, t := range r.Participants[0].Pubs {
					if step == "subscribe "+t.SID() {
						t.SubErr = errors.New("not allowed")
					}
				}
			}
		} else {
			m = lib.StartMS("s1", "d/a.webm", "audio", "video")
			step = pick("failing step", "none", "new", "transceiver", "remote", "answer", "local", "stat", "mkdir", "close", "closed during setup")
			vpion.Net().Fail = func(pc *vpion.PeerConnection, s string) error {
				if s == step {
					return errors.New("injected")
				}
				if step == "closed during setup" && s == "answer" {
					pc.FireICE(webrtc.ICEConnectionStateFailed)
				}
				return nil
			}
		}
		second := pick("also failing", "none", "close", "file open", "file write")
		vos.Disk().Fail = func(kind, p string) error {
			if kind == step || second == "file open" && kind == "open" || second == "file write" && kind == "write" {
				return errors.New("injected")
			}
			return nil
		}
		if second == "close" {
			f := vpion.Net().Fail
			vpion.Net().Fail = func(pc *vpion.PeerConnection, s string) error {
				if s == "close" {
					return errors.New("injected")
				}
				if f != nil {
					return f(pc, s)
				}
				return nil
			}
		}
		w.Do(m)
		ok := checkResponse(w, "s1", 0, !lk)
		want := step == "none" || step == "close" || step == "closed during setup" || step == "stat" && ok
		if ok != want {
			fail("start with failing step %q: success %v", step, ok)
		}
		if step == "closed during setup" {
			sleep(time.Second)
			if n := len(w.Bus.By("recordingStopped", "s1")); n != 1 {
				fail("connection lost during set-up: %d recordingStopped", n)
			}
			ok = false
		}
		if l := live(w, "s1"); l != ok {
			fail("failing step %q: answered with success %v but live: %v", step, ok, l)
		}
		// Once nothing fails any more, the id and the path work again.
		vpion.Net().Fail, vos.Disk().Fail, vlksdk.Net().Connect = nil, nil, nil
		step = "none"
		n := len(w.Bus.By("startRecordingResponse", "s1"))
		w.Do(m)
		if !checkResponse(w, "s1", n, !lk) {
			fail("after a failed start the same request is refused: %s", w.Bus.Msgs[len(w.Bus.Msgs)-1].Raw)
		}
		if !live(w, "s1") {
			fail("no session after the second start")
		}
		w.Alive()
		outcome(w)
	}
	return &mc.Property{ID: "A01", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprint(bnd(th, 40, 200)) + " starts in a row, succeeding or failing in any one step; every combination of adapter (4), mediasoup options (7), livekit options (5), legacy sdp (6), file name (6) and empty/absent options; every single failing set-up step for both adapters combined with 4 secondary failures; candidates that take 0.1, 6 or 60 s to gather, with 6 events of the connection at 4 moments of it (deviation bound 1 or 2); start racing with loss of its own connection (deviation bound 2 or 3)"
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{
				seq("A01/shapes", shapes(!th)),
				a01lots(bnd(th, 40, 200)),
				seq("A01/faults", faults),
				seq("A01/gathering", func() {
					var w *lib.World
					var lost bool
					det(func() { w, lost = gathering() })
					gathered(w, lost)
				}),
				conc("A01/gathering, schedules", bnd(th, 1, 2), vsched.PkgServer, func() { gathered(gathering()) }),
				conc("A01/race", bnd(th, 2, 3), vsched.PkgServer, func() {
					w := lib.Start(nil)
					ev := pick("event", "failed", "closed", "track")
					vpion.Net().OnNew = func(pc *vpion.PeerConnection) {
						vsched.GoEnv("peer", func() {
							vsched.Block("handlers", func() bool { return pc.Remote != nil })
							switch ev {
							case "failed":
								pc.FireICE(webrtc.ICEConnectionStateFailed)
							case "closed":
								pc.FireICE(webrtc.ICEConnectionStateClosed)
							case "track":
								s := video(pc, 7)
								s.frame(true)
								s.t.End(io.EOF)
							}
						})
					}
					w.Send(lib.StartMS("s1", "a.webm", "video"))
					vsched.Sleep(time.Second)
					ok := checkResponse(w, "s1", 0, true)
					st := w.Bus.By("recordingStopped", "s1")
					if !ok && len(st) > 0 {
						fail("a failed start is followed by recordingStopped")
					}
					rs := w.Bus.By("startRecordingResponse", "s1")
					for _, m := range w.Bus.By("*", "s1") {
						if m.Seq < rs[0].Seq {
							fail("%s before the start response", m.Raw)
						}
					}
					l := live(w, "s1")
					if ok != (l || len(st) == 1) || l && len(st) > 0 {
						fail("success %v, live %v, %d recordingStopped", ok, l, len(st))
					}
					outcome(w)
				}),
			}
		}}
}

// gathering starts a session whose candidates take a while to gather, with the
// connection changing its state meanwhile.
func gathering() (w *lib.World, lost bool) {
	w = lib.Start(nil)
	g := []time.Duration{100 * ms, 6 * time.Second, time.Minute}[vsched.Choose(3, "gathering takes")]
	vpion.Net().Gather = func(*vpion.PeerConnection) time.Duration { return g }
	ev := pick("meanwhile", "nothing", "connected", "failed", "disconnected", "closed", "media")
	at := pick("at", "set-up", "soon", "half way", "the end")
	lost = ev == "failed" || ev == "disconnected" || ev == "closed"
	vpion.Net().OnNew = func(pc *vpion.PeerConnection) {
		vsched.GoEnv("peer", func() {
			vsched.Block("local description", func() bool { return pc.Local != nil })
			vsched.Sleep(map[string]time.Duration{"set-up": 0, "soon": 10 * ms, "half way": g / 2, "the end": g}[at])
			pc.FireICE(webrtc.ICEConnectionStateChecking)
			switch ev {
			case "failed":
				pc.FireICE(webrtc.ICEConnectionStateFailed)
			case "closed":
				pc.FireICE(webrtc.ICEConnectionStateClosed)
			case "disconnected":
				pc.FireICE(webrtc.ICEConnectionStateConnected)
				pc.FireICE(webrtc.ICEConnectionStateDisconnected)
			case "connected":
				pc.FireICE(webrtc.ICEConnectionStateConnected)
			case "media":
				pc.FireICE(webrtc.ICEConnectionStateConnected)
				video(pc, 7).frame(true)
			}
		})
	}
	w.Send(lib.StartMS("s1", "a.webm", "video"))
	vsched.Sleep(g + 2*time.Second)
	return
}

// gathered checks what came of it.
func gathered(w *lib.World, lost bool) {
	ok := checkResponse(w, "s1", 0, true)
	pc := lib.LastPC()
	if ok && !strings.HasSuffix(pc.Local.SDP, vpion.Candidates) {
		fail("the answer has no candidates")
	}
	if !lost && !ok {
		fail("a start whose candidates take long is refused")
	}
	for _, m := range w.Bus.By("*", "s1") {
		if m.Seq < w.Bus.By("startRecordingResponse", "s1")[0].Seq {
			fail("%s before the start response", m.Raw)
		}
	}
	st := len(w.Bus.By("recordingStopped", "s1"))
	switch {
	case ok && lost && st != 1:
		fail("connection lost while candidates are gathered: %d recordingStopped", st)
	case !(ok && lost) && st != 0:
		fail("recordingStopped without reason")
	case lost && !pc.Closed:
		fail("a connection lost while candidates are gathered is left open")
	}
	w.Alive()
	if live(w, "s1") != (ok && !lost) {
		fail("success %v, connection lost %v, but session live: %v", ok, lost, !(ok && !lost))
	}
	outcome(w)
}

type lkInfo = lk.ConnectInfo

// ---------------------------------------------------------------------

// sess is the model of one session id.
type sess struct {
	live  bool
	lk    bool
	pc    *vpion.PeerConnection
	room  *vlksdk.Room
	media *src
	file  string
}

// history runs depth operations over two ids and checks each against the
// model; check is called after every operation.
type history struct {
	w     *lib.World
	s     map[string]*sess
	n     int
	alive int
	files map[string]bool
	check func(h *history, op string)
}

func newHistory(mod func(*config.Config)) *history {
	h := &history{w: lib.Start(mod), s: map[string]*sess{"a": {}, "b": {}}, files: map[string]bool{}}
	lkRoom("V1", "A1")
	return h
}

var histOps = []string{"start a", "start b", "lkstart a", "badoffer a", "badfile a", "lkfail a", "stop a", "stop b", "ice a", "end a", "media a", "disconnected b"}

func (h *history) op() string {
	op := histOps[vsched.Choose(len(histOps), "operation")]
	h.run(op)
	return op
}

func (h *history) run(op string) {
	id := op[len(op)-1:]
	s := h.s[id]
	w := h.w
	h.n++
	before := len(w.Bus.Msgs)
	resp := len(w.Bus.By("startRecordingResponse", id))
	stops := len(w.Bus.By("recordingStopped", id))
	name := fmt.Sprintf("f%d.webm", h.n)
	started := false
	wantOK := false
	wantStop := false
	vlksdk.Net().Connect = nil
	switch op[:len(op)-2] {
	case "start":
		started, wantOK = true, true
		w.Do(lib.StartMS(id, name, "audio", "video"))
	case "lkstart":
		started, wantOK = true, true
		w.Do(lib.StartLK(id, name, "r", "V1", "A1"))
	case "badoffer":
		started = true
		m := lib.StartMS(id, name, "audio")
		m["adapterOptions"].(lib.M)["mediasoup"].(lib.M)["sdp"] = "AAAA"
		w.Do(m)
	case "badfile":
		started = true
		w.Do(lib.StartMS(id, "x.mkv", "audio"))
	case "lkfail":
		started = true
		vlksdk.Net().Connect = func(string, lkInfo) error { return errors.New("refused") }
		w.Do(lib.StartLK(id, name, "r", "V1", "A1"))
	case "stop":
		wantStop = s.live
		w.Do(lib.Stop(id))
	case "ice":
		wantStop = s.live && !s.lk
		if s.pc != nil {
			s.pc.FireICE(webrtc.ICEConnectionStateFailed)
		}
	case "disconnected":
		wantStop = s.live && !s.lk
		if s.pc != nil {
			s.pc.FireICE(webrtc.ICEConnectionStateConnected)
			s.pc.FireICE(webrtc.ICEConnectionStateDisconnected)
		}
	case "end":
		wantStop = s.live && !s.lk && s.media != nil
		if s.media != nil {
			s.media.t.End(io.EOF)
		}
	case "media":
		if s.live && s.media == nil {
			if s.lk {
				s.media = lkTrack(s.room, "V1", 11)
			} else {
				s.media = video(s.pc, 11)
			}
		}
		if s.media != nil {
			for i := 0; i < 3; i++ {
				s.media.frame(i == 0)
			}
		}
	}
	sleep(1500 * ms)
	newResp := len(w.Bus.By("startRecordingResponse", id)) - resp
	newStop := len(w.Bus.By("recordingStopped", id)) - stops
	if started {
		if s.live {
			wantOK = false
		}
		ok := checkResponse(w, id, resp, op[0] != 'l')
		if ok != wantOK {
			fail("operation %d %q: success %v, expected %v", h.n, op, ok, wantOK)
		}
		if ok {
			_, path := w.OK(id)
			n := &sess{live: true, file: path}
			if op[0] == 'l' {
				n.lk, n.room = true, lastRoom()
			} else {
				n.pc = lib.LastPC()
			}
			h.s[id] = n
		}
	} else if newResp != 0 {
		fail("operation %d %q produced a start response", h.n, op)
	}
	if wantStop != (newStop == 1) || newStop > 1 {
		fail("operation %d %q: %d recordingStopped, expected %v", h.n, op, newStop, wantStop)
	}
	if wantStop {
		h.s[id].live = false
	}
	for _, m := range w.Bus.Msgs[before:] {
		if m.Sess() != id && m.Id() != "recordingRtpStatusChanged" {
			fail("operation %d %q produced %s", h.n, op, m.Raw)
		}
	}
	if h.check != nil {
		h.check(h, op)
	}
}

// finish verifies by stopping that exactly the live sessions exist.
func (h *history) finish() {
	for _, id := range []string{"a", "b"} {
		if l := live(h.w, id); l != h.s[id].live {
			fail("session %s live: %v, expected %v", id, l, h.s[id].live)
		}
		h.s[id].live = false
	}
}

func (h *history) liveCount() int {
	n := 0
	for _, s := range h.s {
		if s.live {
			n++
		}
	}
	return n
}

func a02() *mc.Property {
	return &mc.Property{ID: "A02", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprintf("all sequences of %d operations from %d (starts, failing starts, stops, connection loss, track end, media) over two ids and both adapters; %d pairs of ids that look alike, %d sessions at once; duplicate starts racing with the end of the session (deviation bound %d); all sequences of %d commands sent without waiting (deviation bound 2)", bnd(th, 5, 6), len(histOps), len(alike), bnd(th, 40, 150), bnd(th, 2, 3), bnd(th, 3, 4))
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{
				seq("A02/histories", func() {
					h := newHistory(nil)
					for i := 0; i < bnd(th, 5, 6); i++ {
						h.op()
					}
					h.finish()
					outcome(h.w)
				}),
				seq("A02/undisturbed", func() {
					// A refused duplicate leaves the recording going.
					w := lib.Start(nil)
					lkRoom("V1")
					lkMode := flip("livekit")
					var s *src
					if lkMode {
						w.Do(lib.StartLK("s", "a.webm", "r", "V1"))
						s = lkTrack(lastRoom(), "V1", 5)
					} else {
						w.Do(lib.StartMS("s", "a.webm", "video"))
						s = video(lib.LastPC(), 5)
					}
					s.frame(true)
					s.frame(false)
					sleep(50 * ms)
					switch pick("duplicate", "mediasoup same file", "mediasoup other file", "livekit", "invalid", "no options") {
					case "mediasoup same file":
						w.Do(lib.StartMS("s", "a.webm", "video"))
					case "mediasoup other file":
						w.Do(lib.StartMS("s", "b.webm", "video"))
					case "livekit":
						w.Do(lib.StartLK("s", "b.webm", "r", "V1"))
					case "invalid":
						w.Do(lib.StartMS("s", "b.mkv", "video"))
					case "no options":
						w.Do(lib.M{"id": "startRecording", "recordingSessionId": "s"})
					}
					rs := w.Bus.By("startRecordingResponse", "s")
					if len(rs) != 2 || rs[1].Str("status") != "failed" {
						fail("duplicate start is not refused: %d responses", len(rs))
					}
					for i := 0; i < 3; i++ {
						s.frame(false)
					}
					sleep(50 * ms)
					if !live(w, "s") {
						fail("the session is gone after a refused duplicate start")
					}
					f, err := file(lib.Dir + "/a.webm")
					if err != nil || len(f.Blocks) != 5 {
						fail("recording disturbed by a refused duplicate: %v", err)
					}
					if vos.Disk().Nodes[lib.Dir+"/b.webm"] != nil {
						fail("the refused start created a file")
					}
					outcome(w)
				}),
				a02alike(),
				many("A02/many sessions", bnd(th, 40, 150)),
				conc("A02/back to back", 2, vsched.PkgServer, func() {
					// Commands sent without waiting for their answers.
					w := lib.Start(nil)
					lkRoom("V1")
					on := map[string]bool{}
					want := map[string]string{}
					n := bnd(th, 3, 4)
					for i := 0; i < n; i++ {
						op := pick("command", "start", "livekit start", "stop", "start other", "stop other")
						id := "s"
						if strings.HasSuffix(op, "other") {
							id = "t"
						}
						switch {
						case op[:3] == "sto":
							if on[id] {
								want[id] += "end "
							}
							on[id] = false
							w.Send(lib.Stop(id))
							continue
						case op[0] == 'l':
							w.Send(lib.StartLK(id, fmt.Sprintf("%d.webm", i), "r", "V1"))
						default:
							w.Send(lib.StartMS(id, fmt.Sprintf("%d.webm", i), "video"))
						}
						want[id] += map[bool]string{true: "failed ", false: "ok "}[on[id]]
						on[id] = true
					}
					vsched.Sleep(2 * time.Second)
					for _, id := range []string{"s", "t"} {
						got := ""
						for _, m := range w.Bus.By("*", id) {
							switch m.Id() {
							case "startRecordingResponse":
								got += m.Str("status") + " "
							case "recordingStopped":
								got += "end "
							}
						}
						if got != want[id] {
							fail("commands sent one right after the other: session %s sees %q, expected %q", id, got, want[id])
						}
						if l := live(w, id); l != on[id] {
							fail("commands sent one right after the other: session %s live: %v", id, l)
						}
					}
					outcome(w)
				}),
				conc("A02/race", bnd(th, 2, 3), vsched.PkgServer, func() {
					w := lib.Start(nil)
					w.Do(lib.StartMS("s", "a.webm", "video"))
					pc := lib.LastPC()
					var early, late bool
					w.Bus.OnMsg = func(m lib.Msg) {
						if m.Id() == "recordingStopped" && !late {
							// the end has been announced: the id is free
							late = true
							w.Send(lib.StartMS("s", "c.webm", "video"))
						}
					}
					if flip("duplicate in flight") {
						early = true
						vsched.GoEnv("dup", func() { w.Send(lib.StartMS("s", "b.webm", "video")) })
					}
					if flip("stop") {
						w.Send(lib.Stop("s"))
					} else {
						pc.FireICE(webrtc.ICEConnectionStateFailed)
					}
					vsched.Sleep(2 * time.Second)
					rs := w.Bus.By("startRecordingResponse", "s")
					st := w.Bus.By("recordingStopped", "s")
					want := 2
					if early {
						want = 3
					}
					if len(rs) != want {
						fail("%d responses for %d starts", len(rs), want)
					}
					okc := 0
					for _, r := range rs {
						if r.Str("status") == "ok" {
							okc++
						}
					}
					// If only the start sent after the announcement came
					// second, it must have been accepted.
					if !early && okc != 2 {
						fail("start after the announced end was refused: %s", rs[len(rs)-1].Raw)
					}
					if early && okc < 2 {
						fail("all starts after the announced end were refused")
					}
					l := live(w, "s")
					if !l || okc != len(st)+1 {
						fail("%d accepted starts, %d recordingStopped before the last stop, live %v", okc, len(st), l)
					}
					w.Do(lib.Stop("s"))
					if len(w.Bus.By("recordingStopped", "s")) != okc {
						fail("a stop without a session was answered")
					}
					alternate(w, "s")
					outcome(w)
				}),
			}
		}}
}

// alternate checks that accepted starts and ends of a session alternate in the
// order in which a client sees them: an id is free only once the end has been
// announced.
func alternate(w *lib.World, id string) {
	on := false
	for _, m := range w.Bus.By("*", id) {
		switch {
		case m.Id() == "startRecordingResponse" && m.Str("status") == "ok":
			if on {
				fail("start of %s accepted while its predecessor's end is not announced", id)
			}
			on = true
		case m.Id() == "recordingStopped":
			if !on {
				fail("recordingStopped of %s without an accepted start before it", id)
			}
			on = false
		}
	}
}

func init() {
	mc.Register(a01())
	mc.Register(a02())
}
