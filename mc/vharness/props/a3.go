package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/server"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vhttp"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vlksdk"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vpion"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vtime"
	"github.com/pion/webrtc/v3"
)

// variants derives messages from a valid one: every value replaced by every
// odd value, every key removed, and every key duplicated into every object.
func variants(base any) [][]byte {
	odd := []string{`null`, `1`, `-1.5e300`, `""`, `"x"`, `[]`, `[null]`, `{}`, `{"a":{}}`, `true`, `"\u0000"`, `Infinity`, `NaN`, `0x10`, `'x'`, `1e999`, `["V1",1]`}
	var out [][]byte
	const mark = "\"@@@\""
	var walk func(get func(any) []byte, v any)
	walk = func(render func(any) []byte, v any) {
		for _, o := range odd {
			out = append(out, bytes.Replace(render("@@@"), []byte(mark), []byte(o), 1))
		}
		switch t := v.(type) {
		case map[string]any:
			keys := make([]string, 0)
			for k := range t {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				c := map[string]any{}
				for q, x := range t {
					if q != k {
						c[q] = x
					}
				}
				out = append(out, render(c))
				k := k
				walk(func(n any) []byte {
					d := map[string]any{}
					for q, x := range t {
						d[q] = x
					}
					d[k] = n
					return render(d)
				}, t[k])
			}
		case []any:
			for i := range t {
				i := i
				walk(func(n any) []byte {
					d := append([]any{}, t...)
					d[i] = n
					return render(d)
				}, t[i])
			}
		}
	}
	b, _ := json.Marshal(base)
	var v any
	json.Unmarshal(b, &v)
	walk(func(n any) []byte { b, _ := json.Marshal(n); return b }, v)
	return out
}

// mutate derives byte-level damage: every prefix, every byte removed, every
// byte replaced by each of a few.
func mutate(b []byte) [][]byte {
	var out [][]byte
	for i := range b {
		out = append(out, append([]byte{}, b[:i]...))
		out = append(out, append(append([]byte{}, b[:i]...), b[i+1:]...))
		for _, c := range []byte("{}[]\":,\\0'\x00\xff") {
			x := append([]byte{}, b...)
			x[i] = c
			out = append(out, x)
		}
	}
	return out
}

var oddBytes = []byte("{}[]\":,0a'/*\\ -+.\x00\xffn")

// strings over an alphabet up to a length
func words(alpha []byte, n int) [][]byte {
	out := [][]byte{{}}
	last := out
	for i := 0; i < n; i++ {
		var next [][]byte
		for _, w := range last {
			for _, c := range alpha {
				next = append(next, append(append([]byte{}, w...), c))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func choose2(n int, label string) int {
	hi := vsched.Choose((n+199)/200, label)
	k := n - hi*200
	if k > 200 {
		k = 200
	}
	return hi*200 + vsched.Choose(k, label)
}

func a05() *mc.Property {
	commands := []any{
		lib.StartMS("n1", "x.webm", "audio", "video"),
		lib.StartLK("n1", "x.webm", "r", "V1", "A1"),
		lib.M{"id": "startRecording", "recordingSessionId": "n1", "fileName": "x.webm", "sdp": lib.Offer("video")},
		lib.Stop("s"),
		lib.M{"id": "getRecorderStatus"},
		lib.M{"id": "startRecordingResponse", "recordingSessionId": "s", "status": "ok", "sdp": "x", "fileName": "f", "error": "e", "adapter": "a"},
		lib.M{"id": "recordingStopped", "recordingSessionId": "s", "reason": "r", "timestampUTC": "2020-01-01T00:00:00Z", "timestampHR": 1},
		lib.M{"id": "recordingRtpStatusChanged", "recordingSessionId": "s", "status": "flowing", "timestampUTC": "2020-01-01T00:00:00Z", "timestampHR": 1},
		lib.M{"id": "recorderStatus", "appVersion": "1", "instanceId": "i", "timestamp": 3},
	}
	var structural, damaged, garbage [][]byte
	for _, c := range commands {
		structural = append(structural, variants(c)...)
	}
	small := []string{`{"id":"startRecording","recordingSessionId":"n1","fileName":"x.webm","sdp":"e30="}`,
		`{"id":"stopRecording","recordingSessionId":"s"}`, `{"id":"getRecorderStatus"}`}
	for _, s := range small {
		damaged = append(damaged, mutate([]byte(s))...)
	}
	b, _ := json.Marshal(lib.StartLK("n1", "x.webm", "r", "V1"))
	damaged = append(damaged, mutate(b)...)
	garbage = append(garbage, words(oddBytes, 3)...)
	for _, s := range []string{`{"id":"nope"}`, `{"id":"startrecording","recordingSessionId":"n1"}`, `{"recordingSessionId":"n1"}`, `[{"id":"getRecorderStatus"}]`, `"getRecorderStatus"`, `null`, `{"id":{"id":"getRecorderStatus"}}`, strings.Repeat("[", 2000), strings.Repeat(`{"a":`, 2000), "\xef\xbb\xbf{}", `{"id":"stopRecording","recordingSessionId":"unknown"}`, `{"id":"stopRecording"}`} {
		garbage = append(garbage, []byte(s))
	}
	// one handles one message next to a live session and checks the service.
	one := func(w *lib.World, m []byte, silent bool) {
		n := len(w.Bus.Msgs)
		st := len(w.Bus.By("recorderStatus", "*"))
		g := lib.Sessions()
		w.Do(m)
		resp, stopped := 0, 0
		for _, x := range w.Bus.Msgs[n:] {
			switch x.Id() {
			case "startRecordingResponse":
				resp++
			case "recordingStopped":
				stopped++
			}
		}
		stat := len(w.Bus.By("recorderStatus", "*")) - st
		if resp+stopped+stat > 1 || len(w.Bus.Msgs)-n > 1 {
			fail("message %q produced %d messages", m, len(w.Bus.Msgs)-n)
		}
		if silent && len(w.Bus.Msgs) != n {
			fail("message %q, not a command, produced %s", m, w.Bus.Msgs[n].Raw)
		}
		if silent && lib.Sessions() != g {
			fail("message %q, not a command, changed the sessions", m)
		}
		if resp == 1 && w.Bus.Msgs[n].Str("status") != "ok" && lib.Sessions() != g {
			fail("refused message %q changed the number of sessions", m)
		}
		if resp == 0 && stopped == 0 && lib.Sessions() != g {
			fail("unanswered message %q changed the number of sessions", m)
		}
	}
	world := func() *lib.World {
		w := lib.Start(nil)
		lkRoom("V1", "A1")
		w.Do(lib.StartMS("s", "a.webm", "video"))
		return w
	}
	run := func(name string, set [][]byte, silent func(i int) bool) mc.Scenario {
		return seq(name, func() {
			i := choose2(len(set), "message")
			w := world()
			one(w, set[i], silent(i))
			w.Alive()
			w.Do(lib.Stop("s"))
			w.Do(lib.StartMS("t", "t.webm", "video"))
			if ok, _ := w.OK("t"); !ok {
				fail("after %q a valid start is refused", set[i])
			}
			outcome(w)
		})
	}
	never := func(int) bool { return false }
	return &mc.Property{ID: "A05", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprintf("%d structural variants of all nine message kinds (every value at every depth replaced by 17 odd values, every key removed), %d byte-damaged commands (all prefixes, deletions and 12 substitutions at every position), %d garbage strings (all strings up to 3 bytes over a 20 byte alphabet); on the command channel and on the channel the HTTP helper listens to; the same message 100 times; thorough: all ordered pairs of a representative subset", len(structural), len(damaged), len(garbage))
		},
		Scenarios: func(th bool) []mc.Scenario {
			r := []mc.Scenario{
				run("A05/structural", structural, never),
				run("A05/damaged", damaged, func(i int) bool { return i%14 == 0 }),
				run("A05/garbage", garbage, func(int) bool { return true }),
				a05lots(append(append([][]byte{}, structural[:bnd(th, 60, 400)]...), garbage[len(garbage)-12:]...), 100),
				seq("A05/http listener", func() {
					all := append(append(append([][]byte{}, structural...), damaged...), garbage...)
					i := choose2(len(all), "message")
					w := lib.Start(nil)
					w.Bus.Echo = true
					hs := server.NewHTTPServer(w.Cfg, w.Bus)
					vsched.GoEnv("http", hs.Serve)
					settle()
					w.Bus.Inject(lib.Out, all[i])
					settle()
					w.Bus.Inject(lib.Out, all[(i*31+7)%len(all)])
					settle()
					code, body := post("POST", lib.Offer("video"), 5*time.Second)
					if typ, _, err := lib.Answer(body); code != 200 || err != nil || typ != "answer" {
						fail("after %q the HTTP helper answers %d %q", all[i], code, body)
					}
					w.Alive()
				}),
			}
			if th {
				var rep [][]byte
				for i := 0; i < len(structural); i += 7 {
					rep = append(rep, structural[i])
				}
				for i := 0; i < len(damaged); i += 41 {
					rep = append(rep, damaged[i])
				}
				r = append(r, seq("A05/pairs", func() {
					i, j := choose2(len(rep), "first"), choose2(len(rep), "second")
					w := world()
					one(w, rep[i], false)
					one(w, rep[j], false)
					w.Alive()
				}))
			}
			return r
		}}
}

// post sends a request to the captured HTTP handler and waits for the answer.
func post(method, body string, wait time.Duration) (int, string) {
	rec := httptest.NewRecorder()
	done := false
	vsched.GoEnv("request", func() {
		r := httptest.NewRequest(method, "/sdp", strings.NewReader(body))
		vhttp.Web().Handler.ServeHTTP(rec, r)
		done = true
	})
	sleep(wait)
	if !done {
		return 0, "no answer"
	}
	return rec.Code, rec.Body.String()
}

var _ = http.MethodPost

// ---------------------------------------------------------------------

// flowCheck judges the flow messages of a session against the times packets
// were recorded on each of its tracks.
func flowCheck(w *lib.World, id string, tracks [][]time.Duration, end time.Duration) {
	var ev []lib.Msg
	for _, m := range w.Bus.By("recordingRtpStatusChanged", id) {
		ev = append(ev, m)
		switch m.Str("status") {
		case "flowing", "not_flowing":
		default:
			fail("flow status %q", m.Str("status"))
		}
	}
	within := func(ts []time.Duration, a, b time.Duration) bool {
		for _, t := range ts {
			if t >= a && t <= b {
				return true
			}
		}
		return false
	}
	if len(tracks) == 1 {
		ts := tracks[0]
		for i, m := range ev {
			if (m.Str("status") == "flowing") != (i%2 == 0) {
				fail("flow messages do not alternate: message %d is %s", i, m.Str("status"))
			}
			if m.Str("status") == "flowing" && !within(ts, m.At-510*ms, m.At) {
				fail("flowing at %s although nothing was recorded in the half second before", m.At)
			}
			if m.Str("status") == "not_flowing" && within(ts, m.At-490*ms, m.At-1) {
				fail("not_flowing at %s although media was being recorded", m.At)
			}
		}
		// state announced at a time
		at := func(t time.Duration) bool {
			f := false
			for _, m := range ev {
				if m.At <= t {
					f = m.Str("status") == "flowing"
				}
			}
			return f
		}
		for i, t := range ts {
			// Media is announced within half a second.
			if t+500*ms < end {
				ok := false
				for d := time.Duration(0); d <= 500*ms; d += 10 * ms {
					ok = ok || at(t+d)
				}
				if !ok {
					fail("media recorded at %s but no flowing within half a second", t)
				}
			}
			var next = end
			if i+1 < len(ts) {
				next = ts[i+1]
			}
			if next-t > 2300*ms && at(t+2300*ms) {
				fail("nothing recorded after %s but no not_flowing within 2.3 s", t)
			}
		}
		return
	}
	// Several tracks: the messages must be a merge of one alternating
	// sequence per track, each truthful for its track.
	n := len(tracks)
	state := map[int]bool{}
	var match func(i int, st []bool, upto []int) bool
	match = func(i int, st []bool, upto []int) bool {
		if i == len(ev) {
			return true
		}
		m := ev[i]
		for k := 0; k < n; k++ {
			fl := m.Str("status") == "flowing"
			if st[k] == fl {
				continue
			}
			if fl && !within(tracks[k], m.At-510*ms, m.At) || !fl && within(tracks[k], m.At-490*ms, m.At-1) {
				continue
			}
			s2 := append([]bool{}, st...)
			s2[k] = fl
			if match(i+1, s2, upto) {
				return true
			}
		}
		return false
	}
	_ = state
	if !match(0, make([]bool, n), nil) {
		fail("flow messages are not truthful alternations of %d tracks", n)
	}
	// Completeness by counting: transitions certain to be announced.
	want := 0
	for _, ts := range tracks {
		fl := false
		for i, t := range ts {
			next := end
			if i+1 < len(ts) {
				next = ts[i+1]
			}
			if !fl && next-t <= 120*ms && t+500*ms < end {
				fl = true
				want++
			}
			if fl && next-t > 2300*ms {
				fl = false
				want++
			}
		}
	}
	if len(ev) < want {
		fail("%d flow messages where at least %d changes lasted long enough", len(ev), want)
	}
}

func a08() *mc.Property {
	schedule := func(lk bool, slots int, patterns [][]bool) func() {
		return func() {
			w := lib.Start(nil)
			lkRoom("V1", "A1", "A2")
			kind := pick("track", "video", "audio")
			var s *src
			if lk {
				w.Do(lib.StartLK("s", "a.webm", "r", map[string]string{"video": "V1", "audio": "A1"}[kind]))
				s = lkTrack(lastRoom(), map[string]string{"video": "V1", "audio": "A1"}[kind], 1)
			} else {
				w.Do(lib.StartMS("s", "a.webm", kind))
				if kind == "video" {
					s = video(lib.LastPC(), 1)
				} else {
					s = audio(lib.LastPC(), 1)
				}
			}
			sleep(pickD("phase", 0, 30*ms, 70*ms))
			var ts []time.Duration
			for i := 0; i < slots; i++ {
				on := flip("active")
				end := vsched.Now() + 500*ms
				for on && vsched.Now() < end {
					s.frame(s.no == 0)
					ts = append(ts, vsched.Now())
					sleep(50 * ms)
				}
				if vsched.Now() < end {
					sleep(end - vsched.Now())
				}
			}
			sleep(2500 * ms)
			flowCheck(w, "s", [][]time.Duration{ts}, vsched.Now())
			w.Do(lib.Stop("s"))
			sleep(5 * time.Second)
			checkOnce(w, "s", false)
			vsched.SetOutcome(w.Summary())
		}
	}
	return &mc.Property{ID: "A08", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprintf("every on/off schedule of %d half-second slots x 3 phases x audio/video x both adapters; two tracks with every pair of %d-slot schedules; 25 interruptions of 6 kinds; packets every 20 ms to 900 ms from any first sequence number; sessions ended by every cause at 8 phases; stop and connection loss racing with flow changes (deviation bound %d)", bnd(th, 8, 11), bnd(th, 4, 5), bnd(th, 2, 3))
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{
				seq("A08/mediasoup schedules", schedule(false, bnd(th, 8, 11), nil)),
				seq("A08/livekit schedules", schedule(true, bnd(th, 8, 11), nil)),
				seq("A08/two tracks", func() {
					lk := flip("livekit")
					w := lib.Start(nil)
					lkRoom("V1", "A1")
					var s [2]*src
					if lk {
						w.Do(lib.StartLK("s", "a.webm", "r", "V1", "A1"))
						s[0], s[1] = lkTrack(lastRoom(), "V1", 1), lkTrack(lastRoom(), "A1", 2)
					} else {
						w.Do(lib.StartMS("s", "a.webm", "audio", "video"))
						s[0], s[1] = video(lib.LastPC(), 1), audio(lib.LastPC(), 2)
					}
					settle()
					n := bnd(th, 4, 5)
					var ts [2][]time.Duration
					for i := 0; i < n; i++ {
						on := vsched.Choose(4, "active tracks")
						end := vsched.Now() + 1000*ms
						for vsched.Now() < end {
							for k := 0; k < 2; k++ {
								if on>>k&1 == 1 {
									s[k].frame(s[k].no == 0)
									ts[k] = append(ts[k], vsched.Now())
								}
							}
							sleep(50 * ms)
						}
					}
					sleep(2500 * ms)
					flowCheck(w, "s", [][]time.Duration{ts[0], ts[1]}, vsched.Now())
					w.Do(lib.Stop("s"))
					sleep(3 * time.Second)
					checkOnce(w, "s", false)
					outcome(w)
				}),
				a08lots(25),
				seq("A08/rates", func() {
					// Slow media is flowing media.
					lk := flip("livekit")
					w := lib.Start(nil)
					lkRoom("V1")
					var s *src
					if lk {
						w.Do(lib.StartLK("s", "a.webm", "r", "V1"))
						s = lkTrack(lastRoom(), "V1", 1)
					} else {
						w.Do(lib.StartMS("s", "a.webm", "video"))
						s = video(lib.LastPC(), 1)
					}
					gap := pickD("gap", 20*ms, 100*ms, 190*ms, 330*ms, 400*ms, 450*ms, 10*ms, 5*ms, 4*ms, 2*ms, 1*ms, time.Second/256, time.Second/2560)
					if gap < 20*ms {
						sleep(pickD("phase", 0, 50*ms))
					} else {
						sleep(pickD("phase", 0, 10*ms, 20*ms, 30*ms, 40*ms, 50*ms, 60*ms, 70*ms, 80*ms, 90*ms))
					}
					s.seq = []uint16{1000, 65530, 65531, 65532, 65533, 65534, 65535, 0}[vsched.Choose(8, "first sequence number")]
					var ts []time.Duration
					for i := 0; vsched.Now() < 6*time.Second; i++ {
						s.frame(i == 0)
						ts = append(ts, vsched.Now())
						sleep(gap)
					}
					n := 0
					for range w.Bus.By("recordingRtpStatusChanged", "s") {
						n++
					}
					if n != 1 {
						fail("media every %s produced %d flow messages", gap, n)
					}
					flowCheck(w, "s", [][]time.Duration{ts}, vsched.Now())
					outcome(w)
				}),
				seq("A08/ends", func() {
					w := lib.Start(nil)
					lkRoom("V1")
					lk := flip("livekit")
					var s *src
					if lk {
						w.Do(lib.StartLK("s", "a.webm", "r", "V1"))
						s = lkTrack(lastRoom(), "V1", 1)
					} else {
						w.Do(lib.StartMS("s", "a.webm", "video"))
						s = video(lib.LastPC(), 1)
					}
					cause := pick("cause", "stop", "eof", "failed")
					at := pickD("at", 0, 50*ms, 99*ms, 101*ms, 150*ms, 900*ms, 1150*ms, 2050*ms)
					on := pickD("media until", 0, 60*ms, 1000*ms)
					var ts []time.Duration
					for vsched.Now() < at {
						if vsched.Now() <= on {
							s.frame(s.no == 0)
							ts = append(ts, vsched.Now())
						}
						sleep(10 * ms)
					}
					now := vsched.Now()
					switch {
					case cause == "stop" || lk:
						w.Do(lib.Stop("s"))
					case cause == "eof":
						s.t.End(io.EOF)
					default:
						lib.LastPC().FireICE(webrtc.ICEConnectionStateFailed)
					}
					sleep(6 * time.Second)
					checkOnce(w, "s", false)
					flowCheck(w, "s", [][]time.Duration{ts}, now)
					outcome(w)
				}),
				conc("A08/race", bnd(th, 2, 3), vsched.PkgServer|vsched.PkgLiveKit, func() {
					lk := flip("livekit")
					w := lib.Start(nil)
					lkRoom("V1")
					var s *src
					if lk {
						w.Do(lib.StartLK("s", "a.webm", "r", "V1"))
						s = lkTrack(lastRoom(), "V1", 1)
					} else {
						w.Do(lib.StartMS("s", "a.webm", "video"))
						s = video(lib.LastPC(), 1)
					}
					settle()
					s.frame(true)
					// flow is announced at the next 100 ms tick, the stop
					// arrives at the same instant
					cause := pick("cause", "stop", "failed", "eof")
					vsched.GoEnv("cause", func() {
						vsched.Sleep(100 * ms)
						switch {
						case cause == "stop" || lk:
							w.Send(lib.Stop("s"))
						case cause == "failed":
							lib.LastPC().FireICE(webrtc.ICEConnectionStateFailed)
						default:
							s.t.End(io.EOF)
						}
					})
					vsched.Sleep(4 * time.Second)
					checkOnce(w, "s", false)
					f := w.Bus.By("recordingRtpStatusChanged", "s")
					for i, m := range f {
						if (m.Str("status") == "flowing") != (i%2 == 0) {
							fail("flow messages do not alternate")
						}
					}
					outcome(w)
				}),
				conc("A08/start", bnd(th, 2, 3), vsched.PkgServer, func() {
					// Media as soon as the connection can carry it.
					w := lib.Start(nil)
					vpion.Net().OnNew = func(pc *vpion.PeerConnection) {
						vsched.GoEnv("peer", func() {
							vsched.Block("handlers", func() bool { return pc.Remote != nil && pc.HasHandlers() })
							s := video(pc, 1)
							for i := 0; i < 3; i++ {
								s.frame(i == 0)
								vsched.Sleep(110 * ms)
							}
						})
					}
					slow := flip("slow set-up")
					vpion.Net().Fail = func(pc *vpion.PeerConnection, step string) error {
						if slow && step == "local" {
							vsched.Sleep(300 * ms)
						}
						return nil
					}
					w.Send(lib.StartMS("s", "a.webm", "video"))
					vsched.Sleep(2 * time.Second)
					if ok, _ := w.OK("s"); !ok {
						fail("start failed")
					}
					checkOnce(w, "s", true)
					if len(w.Bus.By("recordingRtpStatusChanged", "s")) == 0 {
						fail("no flow message")
					}
					outcome(w)
				}),
				conc("A08/livekit start", bnd(th, 2, 3), vsched.PkgServer, func() {
					w := lib.Start(nil)
					lkRoom("V1")
					old := vlksdk.Net().Fill
					vlksdk.Net().Fill = func(r *vlksdk.Room) {
						old(r)
						vsched.GoEnv("peer", func() {
							p := r.Participants[0].Pubs[0]
							vsched.Block("subscribed", func() bool { return p.Requested })
							s := lkTrack(r, "V1", 1)
							for i := 0; i < 3; i++ {
								s.frame(i == 0)
								vsched.Sleep(110 * ms)
							}
						})
					}
					w.Send(lib.StartLK("s", "a.webm", "r", "V1"))
					vsched.Sleep(2 * time.Second)
					checkOnce(w, "s", true)
					outcome(w)
				}),
			}
		}}
}

var _ = errors.New

// ---------------------------------------------------------------------

func utcOK(m lib.Msg) {
	t, err := time.Parse(time.RFC3339Nano, m.Str("timestampUTC"))
	if err != nil || !t.Equal(vtime.Base().Add(m.At)) {
		fail("%s at %s carries timestampUTC %v", m.Id(), m.At, m.M["timestampUTC"])
	}
}

// hr checks the duration of a message in whole milliseconds.
func hr(m lib.Msg, want time.Duration, tol float64) {
	var got float64
	if m.Has("timestampHR") {
		v, ok := m.M["timestampHR"].(float64)
		if !ok {
			fail("timestampHR is %v", m.M["timestampHR"])
		}
		got = v
	} else if m.Id() != "recordingStopped" {
		fail("no timestampHR: %s", m.Raw)
	}
	if got < 0 || got != float64(int64(got)) {
		fail("timestampHR %v is not a number of whole milliseconds", got)
	}
	d := got - float64(want.Milliseconds())
	if d < -tol || d > tol {
		fail("%s at %s reports %v ms, recorded are %d ms", m.Id(), m.At, got, want.Milliseconds())
	}
}

func a09() *mc.Property {
	return &mc.Property{ID: "A09", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprintf("video/audio/both x both adapters x every sequence of %d media steps (frame gaps 33 ms, 1 s, 40 s; pauses of 0/150/2500 ms; audio) x 3 ending causes; both samplers; wrap of the RTP timestamps; two tracks of different length; recordings of up to 89 days; recordings whose video never starts", bnd(th, 5, 6))
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{
				long("A09/long recordings"),
				seq("A09/durations", func() {
					lk := flip("livekit")
					builtin := flip("builtin sampler")
					w := lib.Start(func(c *configT) { c.Recorder.UseCustomSampler = !builtin })
					lkRoom("V1", "A1")
					media := pick("media", "video", "audio", "both")
					var v, a *src
					var sids, kinds []string
					if media != "audio" {
						sids, kinds = append(sids, "V1"), append(kinds, "video")
					}
					if media != "video" {
						sids, kinds = append(sids, "A1"), append(kinds, "audio")
					}
					if lk {
						w.Do(lib.StartLK("s", "a.webm", "r", sids...))
						if media != "audio" {
							v = lkTrack(lastRoom(), "V1", 1)
						}
						if media != "video" {
							a = lkTrack(lastRoom(), "A1", 2)
						}
					} else {
						w.Do(lib.StartMS("s", "a.webm", kinds...))
						if media != "audio" {
							v = video(lib.LastPC(), 1)
						}
						if media != "video" {
							a = audio(lib.LastPC(), 2)
						}
					}
					settle()
					if v != nil {
						v.ts = 0xffffffff - 9000
					}
					if a != nil {
						a.ts = 0xffffffff - 2000
					}
					// expected media time per track after each step
					var vt time.Duration
					var ve, vp []tp
					n := bnd(th, 5, 6)
					for i := 0; i < n; i++ {
						step := pick("step", "frame", "frame+1s", "frame+40s", "audio", "pause", "long pause")
						switch step {
						case "frame", "frame+1s", "frame+40s":
							if v == nil {
								continue
							}
							if len(v.log) > 0 {
								d := uint32(3000)
								if step == "frame+1s" {
									d = 90000
								} else if step == "frame+40s" {
									d = 40 * 90000
								}
								v.ts += d - 3000
								vt += time.Duration(d) * time.Second / 90000
							}
							v.frame(len(v.log) == 0)
							if builtin {
								// a sample may be complete only when the
								// next one begins
								if len(v.log) > 1 {
									vp = append(vp, tp{vsched.Now(), lastDelta(v, 1)})
								}
							}
							ve = append(ve, tp{vsched.Now(), vt})
						case "audio":
							if a == nil {
								continue
							}
							a.frame(false)
						case "pause":
							sleep(150 * ms)
						case "long pause":
							sleep(2500 * ms)
						}
						settle()
					}
					sleep(1200 * ms)
					cause := pick("cause", "stop", "failed", "eof")
					switch {
					case cause == "stop" || lk:
						w.Do(lib.Stop("s"))
					case cause == "failed":
						lib.LastPC().FireICE(webrtc.ICEConnectionStateFailed)
					default:
						if v != nil {
							v.t.End(io.EOF)
						} else {
							a.t.End(io.EOF)
						}
					}
					sleep(3 * time.Second)
					for _, m := range w.Bus.By("*", "s") {
						if m.Id() != "startRecordingResponse" {
							utcOK(m)
						}
					}
					st := w.Bus.By("recordingStopped", "s")
					if len(st) != 1 {
						fail("%d recordingStopped", len(st))
						return
					}
					// The stop message agrees with the recording itself.
					f, err := file(lib.Dir + "/a.webm")
					var rv, ra []lib.Block
					if err == nil {
						rv, ra = f.Of(1), f.Of(2)
					}
					switch {
					case len(rv) > 0:
						hr(st[0], time.Duration(rv[len(rv)-1].Time)*ms, 1)
						if !builtin {
							hr(st[0], vt, 1)
						}
					case len(ra) > 0:
						hr(st[0], time.Duration(len(a.log)-1)*20*ms, 1)
					default:
						hr(st[0], 0, 0)
					}
					// Flow messages: the time recorded on a track when they
					// were published.
					for _, m := range w.Bus.By("recordingRtpStatusChanged", "s") {
						got := m.Num("timestampHR")
						ok := got == 0 && m.At < 100*ms
						var cand []float64
						if v != nil {
							cand = append(cand, upto(ve, m.At))
							if builtin {
								cand = append(cand, upto(vp, m.At))
							}
						}
						if a != nil {
							cand = append(cand, -1)
						}
						for _, c := range cand {
							if c >= 0 && got >= c-1 && got <= c+1 {
								ok = true
							}
							if c < 0 && got >= 0 && got <= float64(20*len(a.log)) && int(got)%20 == 0 {
								ok = true
							}
						}
						hr(m, time.Duration(got)*ms, 0)
						if !ok {
							fail("flow message at %s reports %v ms; recorded times %v", m.At, got, cand)
						}
					}
					outcome(w)
				}),
				seq("A09/audio only", func() {
					lk := flip("livekit")
					w := lib.Start(nil)
					lkRoom("A1")
					var a *src
					if lk {
						w.Do(lib.StartLK("s", "a.webm", "r", "A1"))
						a = lkTrack(lastRoom(), "A1", 2)
					} else {
						w.Do(lib.StartMS("s", "a.webm", "audio"))
						a = audio(lib.LastPC(), 2)
					}
					n := vsched.Choose(8, "packets before")
					for i := 0; i < n; i++ {
						a.frame(false)
					}
					sleep(1500 * ms)
					rec := func(k int) time.Duration {
						if k == 0 {
							return 0
						}
						return time.Duration(k-1) * 20 * ms
					}
					m := w.Bus.By("recordingRtpStatusChanged", "s")
					if n > 0 && len(m) == 0 {
						fail("no flow message")
					}
					for _, x := range m {
						hr(x, rec(n), 0)
					}
					was := len(m)
					k := vsched.Choose(8, "packets after")
					sleep(1000 * ms)
					for _, x := range w.Bus.By("recordingRtpStatusChanged", "s")[was:] {
						hr(x, rec(n), 0)
					}
					was = len(w.Bus.By("recordingRtpStatusChanged", "s"))
					for i := 0; i < k; i++ {
						a.frame(false)
					}
					total := n + k
					sleep(1500 * ms)
					m = w.Bus.By("recordingRtpStatusChanged", "s")[was:]
					if k > 0 && len(m) == 0 {
						fail("no flow message for the second burst")
					}
					for _, x := range m {
						hr(x, rec(total), 0)
					}
					w.Do(lib.Stop("s"))
					sleep(time.Second)
					st := w.Bus.By("recordingStopped", "s")
					if len(st) != 1 {
						fail("%d recordingStopped", len(st))
						return
					}
					want := time.Duration(0)
					if total > 0 {
						want = time.Duration(total-1) * 20 * ms
					}
					hr(st[0], want, 0)
					outcome(w)
				}),
				seq("A09/two tracks", func() {
					// One track pauses while the other goes on: the messages
					// are about the first.
					lk := flip("livekit")
					w := lib.Start(nil)
					lkRoom("V1", "A1")
					var s [2]*src
					if lk {
						w.Do(lib.StartLK("s", "a.webm", "r", "V1", "A1"))
						s[0], s[1] = lkTrack(lastRoom(), "V1", 1), lkTrack(lastRoom(), "A1", 2)
					} else {
						w.Do(lib.StartMS("s", "a.webm", "audio", "video"))
						s[0], s[1] = video(lib.LastPC(), 1), audio(lib.LastPC(), 2)
					}
					settle()
					k := vsched.Choose(2, "track")
					var at [2][]tp
					media := func(k int) time.Duration {
						if k == 0 {
							return time.Duration(s[0].no-1) * time.Second / 30
						}
						return time.Duration(s[1].no-1) * 20 * ms
					}
					run := func(d time.Duration, on ...bool) {
						for end := vsched.Now() + d; vsched.Now() < end; sleep(50 * ms) {
							for i := range s {
								if on[i] {
									s[i].frame(s[i].no == 0)
									settle()
									at[i] = append(at[i], tp{vsched.Now(), media(i)})
								}
							}
						}
					}
					run(500*ms, true, true)
					var was int
					check := func(status string) {
						m := w.Bus.By("recordingRtpStatusChanged", "s")[was:]
						if len(m) != 1 || m[0].Str("status") != status {
							fail("%d flow messages, expected one: %s", len(m), status)
							return
						}
						// Media and the check may happen at the same instant
						cand := []time.Duration{m[0].At, m[0].At - 1}
						for i, t := range cand {
							c := upto(at[k], t)
							if lk {
								c = max(c, upto(at[1-k], t))
							}
							cand[i] = time.Duration(c) * ms
						}
						if m[0].Num("timestampHR") > float64(cand[1].Milliseconds()+1) {
							cand[1] = cand[0]
						}
						hr(m[0], cand[1], 1)
						was++
					}
					was = len(w.Bus.By("recordingRtpStatusChanged", "s"))
					if was != 2 {
						fail("%d flow messages of two tracks", was)
						return
					}
					on := []bool{k != 0, k != 1}
					run(2100*ms, on...)
					check("not_flowing")
					on[k] = true
					run(pickD("resumed for", 200*ms, 600*ms), on...)
					check("flowing")
					on[k] = false
					run(2100*ms, on...)
					check("not_flowing")
					outcome(w)
				}),
				seq("A09/no video recorded", func() {
					// Audio is being recorded when a video track comes that
					// never delivers a keyframe.
					w := lib.Start(nil)
					lkRoom("V1", "A1")
					w.Do(lib.StartMS("s", "a.webm", "audio", "video"))
					a := audio(lib.LastPC(), 2)
					n := 1 + vsched.Choose(6, "audio packets")
					for i := 0; i < n; i++ {
						a.frame(false)
						sleep(20 * ms)
					}
					v := video(lib.LastPC(), 1)
					for i := 0; i < vsched.Choose(3, "dependent frames"); i++ {
						v.frame(false)
						sleep(33 * ms)
					}
					for i := vsched.Choose(3, "more audio packets"); i > 0; i-- {
						a.frame(false)
						n++
						sleep(20 * ms)
					}
					sleep(300 * ms)
					w.Do(lib.Stop("s"))
					sleep(time.Second)
					st := w.Bus.By("recordingStopped", "s")
					if len(st) != 1 {
						fail("%d recordingStopped", len(st))
						return
					}
					hr(st[0], time.Duration(n-1)*20*ms, 0)
					outcome(w)
				}),
				seq("A09/livekit furthest track", func() {
					w := lib.Start(nil)
					lkRoom("V1", "A1")
					w.Do(lib.StartLK("s", "a.webm", "r", "V1", "A1"))
					v, a := lkTrack(lastRoom(), "V1", 1), lkTrack(lastRoom(), "A1", 2)
					settle()
					v.frame(true)
					settle()
					ahead := vsched.Choose(6, "audio packets")
					for i := 0; i < ahead; i++ {
						a.frame(false)
					}
					frames := vsched.Choose(4, "frames")
					for i := 0; i < frames; i++ {
						v.frame(false)
					}
					sleep(50 * ms)
					sleep(2950 * ms)
					mv := time.Duration(frames) * time.Second / 30
					ma := time.Duration(0)
					if ahead > 0 {
						ma = time.Duration(ahead-1) * 20 * ms
					}
					if ma > mv {
						mv = ma
					}
					ms := w.Bus.By("recordingRtpStatusChanged", "s")
					if len(ms) == 0 {
						fail("no flow message")
					}
					for _, m := range ms {
						hr(m, mv, 1)
					}
					outcome(w)
				}),
			}
		}}
}

// tp is a media time reached at a moment.
type tp struct {
	at    time.Duration
	media time.Duration
}

func upto(e []tp, at time.Duration) float64 {
	r := 0.0
	for _, x := range e {
		if x.at <= at {
			r = float64(x.media.Milliseconds())
		}
	}
	return r
}

// lastDelta is the media time of the packet k before the newest, relative to
// the first.
func lastDelta(s *src, k int) time.Duration {
	p := s.log[len(s.log)-1-k]
	return time.Duration(p.Timestamp-s.log[0].Timestamp) * time.Second / 90000
}

func init() {
	mc.Register(a05())
	mc.Register(a08())
	mc.Register(a09())
}
