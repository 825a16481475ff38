package props

import (
	"bytes"
	"errors"
	"fmt"
	lksdk "github.com/livekit/server-sdk-go/v2"
	"io"
	"strings"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vlksdk"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vos"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vpion"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vtime"
	"github.com/pion/webrtc/v3"
)

var _ = errors.New
var _ = bytes.Equal

// watchEnd checks every recordingStopped when it is published.
func watchEnd(w *lib.World) {
	old := w.Bus.OnMsg
	w.Bus.OnMsg = func(m lib.Msg) {
		if old != nil {
			old(m)
		}
		if m.Id() != "recordingStopped" {
			return
		}
		p := pathOf(w, m.Sess(), len(w.Bus.By("recordingStopped", m.Sess())))
		for _, f := range []string{p, strings.TrimSuffix(p, ".webm") + ".ivf"} {
			if n := vos.Disk().Nodes[f]; n != nil && n.Opens > 0 {
				fail("recordingStopped of %s while %s is still open", m.Sess(), f)
			}
		}
	}
}

// pathOf is the file of the k-th (1..) successful start of a session id.
func pathOf(w *lib.World, id string, k int) string {
	for _, m := range w.Bus.By("startRecordingResponse", id) {
		if m.Str("status") == "ok" {
			if k--; k == 0 {
				return m.Str("fileName")
			}
		}
	}
	return ""
}

// checkOnce requires every accepted start of id to have ended exactly once
// (but for the newest if open is set), in order, with silence after each end
// and nothing written to its file any more.
func checkOnce(w *lib.World, id string, open bool) {
	liveNow := false
	k := 0
	var lastEnd int
	for _, m := range w.Bus.By("*", id) {
		switch m.Id() {
		case "startRecordingResponse":
			if m.Str("status") == "ok" {
				if liveNow {
					fail("session %s started while live", id)
				}
				liveNow = true
				k++
			}
		case "recordingStopped":
			if !liveNow {
				fail("recordingStopped of %s without a live session (message %d)", id, m.Seq)
			}
			liveNow = false
			lastEnd = m.Seq
			p := pathOf(w, id, k)
			for _, o := range vos.Disk().Ops {
				if o.Evt > m.Seq && (o.Path == p || o.Path == strings.TrimSuffix(p, ".webm")+".ivf") {
					fail("%s of %s after its recordingStopped", o.Kind, p)
				}
			}
		default:
			if !liveNow {
				fail("%s of session %s while it is not live (last end %d): %s", m.Id(), id, lastEnd, m.Raw)
			}
		}
	}
	if liveNow != open {
		fail("session %s: live %v at the end, expected %v", id, liveNow, open)
	}
}

func foreign(w *lib.World, ids ...string) {
	for _, m := range w.Bus.Msgs {
		if m.Id() == "recorderStatus" {
			continue
		}
		ok := false
		for _, i := range ids {
			ok = ok || m.Sess() == i
		}
		if !ok {
			fail("message for another session: %s", m.Raw)
		}
	}
}

// wholeFrames checks that a closed recording parses and holds only the given
// frames, in order.
func complete(path string) *lib.WebM {
	f, err := file(path)
	if err != nil {
		fail("recording %s is not complete: %v", path, err)
		return nil
	}
	return f
}

func a03() *mc.Property {
	end := func(w *lib.World, pc *vpion.PeerConnection, s *src, what string) {
		switch what {
		case "stop":
			w.Send(lib.Stop("s"))
		case "failed":
			pc.FireICE(webrtc.ICEConnectionStateFailed)
		case "disconnected":
			pc.FireICE(webrtc.ICEConnectionStateDisconnected)
		case "eof":
			s.t.End(io.EOF)
		case "error":
			s.t.End(errors.New("read failed"))
		}
	}
	return &mc.Property{ID: "A03", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprintf("all pairs (thorough: triples) of ending causes out of stop, ICE failed, ICE disconnected, track EOF, track error, on a session with one or two tracks and media in flight, deviation bound %d at every statement of the server package; LiveKit: stops, track endings and media, same bound; histories of %d operations over two sessions", bnd(th, 2, 3), bnd(th, 4, 6))
		},
		Scenarios: func(th bool) []mc.Scenario {
			causes := []string{"stop", "failed", "disconnected", "eof", "error", "none"}
			return []mc.Scenario{
				seq("A03/histories", func() {
					h := newHistory(func(c *config.Config) { c.Recorder.WriteIVFCopy = true })
					watchEnd(h.w)
					n := bnd(th, 4, 5)
					for i := 0; i < n; i++ {
						h.op()
					}
					sleep(5 * time.Second)
					for _, id := range []string{"a", "b"} {
						checkOnce(h.w, id, h.s[id].live)
					}
					h.finish()
					foreign(h.w, "a", "b")
					outcome(h.w)
				}),
				conc("A03/mediasoup", bnd(th, 2, 3), vsched.PkgServer, func() {
					w := lib.Start(nil)
					watchEnd(w)
					two := flip("audio too")
					w.Do(lib.StartMS("s", "a.webm", "audio", "video"))
					pc := lib.LastPC()
					v := video(pc, 7)
					var a *src
					if two {
						a = audio(pc, 8)
					}
					settle()
					v.frame(true)
					if two {
						a.frame(false)
					}
					sleep(250 * ms)
					c1 := pick("first cause", causes[:5]...)
					c2 := pick("second cause", causes...)
					if !th && idx(causes, c2) < idx(causes, c1) {
						return // symmetric
					}
					if two {
						vsched.GoEnv("media", func() { a.frame(false); v.frame(false) })
					}
					vsched.GoEnv("cause2", func() { end(w, pc, v, c2) })
					end(w, pc, v, c1)
					vsched.Sleep(3 * time.Second)
					sleep(5 * time.Second)
					checkOnce(w, "s", false)
					foreign(w, "s")
					if f := complete(lib.Dir + "/a.webm"); f != nil && len(f.Of(1)) == 0 {
						fail("no video recorded")
					}
					outcome(w)
				}),
				conc("A03/livekit", bnd(th, 2, 3), vsched.PkgServer|vsched.PkgLiveKit*b2i(th), func() {
					w := lib.Start(nil)
					watchEnd(w)
					lkRoom("V1", "A1")
					w.Do(lib.StartLK("s", "a.webm", "r", "V1", "A1"))
					v := lkTrack(lastRoom(), "V1", 7)
					settle()
					v.frame(true)
					sleep(250 * ms)
					switch pick("meanwhile", "none", "media", "eof", "stop", "disconnected") {
					case "media":
						vsched.GoEnv("media", func() { v.frame(false); v.frame(false) })
					case "eof":
						vsched.GoEnv("eof", func() { v.t.End(io.EOF) })
					case "stop":
						vsched.GoEnv("stop", func() { w.Send(lib.Stop("s")) })
					case "disconnected":
						vsched.GoEnv("disconnected", func() {
							v.t.End(io.EOF)
							if f := lastRoom().CB.OnDisconnected; f != nil {
								f()
							}
						})
					}
					w.Send(lib.Stop("s"))
					vsched.Sleep(3 * time.Second)
					sleep(5 * time.Second)
					checkOnce(w, "s", false)
					foreign(w, "s")
					complete(lib.Dir + "/a.webm")
					outcome(w)
				}),
				conc("A03/audio only", bnd(th, 2, 3), vsched.PkgServer*b2i(th), func() {
					lk := flip("livekit")
					w := lib.Start(nil)
					watchEnd(w)
					var a *src
					if lk {
						lkRoom("A1")
						w.Do(lib.StartLK("s", "a.webm", "r", "A1"))
						a = lkTrack(lastRoom(), "A1", 8)
					} else {
						w.Do(lib.StartMS("s", "a.webm", "audio"))
						a = audio(lib.LastPC(), 8)
					}
					settle()
					for i := 0; i < 3; i++ {
						a.frame(false)
						sleep(20 * ms)
					}
					sleep(200 * ms)
					vsched.GoEnv("media", func() { a.frame(false); a.frame(false) })
					cause := "stop"
					if !lk {
						cause = pick("cause", "stop", "failed", "eof")
					}
					end(w, lib.LastPC(), a, cause)
					vsched.Sleep(3 * time.Second)
					sleep(5 * time.Second)
					checkOnce(w, "s", false)
					foreign(w, "s")
					if f := complete(lib.Dir + "/a.webm"); f != nil && len(f.Of(2)) < 3 {
						fail("of 3 audio packets %d are recorded", len(f.Of(2)))
					}
					outcome(w)
				}),
				conc("A03/two sessions", bnd(th, 2, 3), 0, func() {
					// Ends of different sessions at the same time.
					w := lib.Start(nil)
					watchEnd(w)
					w.Do(lib.StartMS("s", "a.webm", "video"))
					p1 := lib.LastPC()
					w.Do(lib.StartMS("t", "b.webm", "video"))
					p2 := lib.LastPC()
					v1, v2 := video(p1, 1), video(p2, 2)
					v1.frame(true)
					v2.frame(true)
					sleep(250 * ms)
					c1 := pick("cause", causes[:5]...)
					c2 := pick("cause of the other", "eof", "failed", "none")
					vsched.GoEnv("other", func() { end(w, p2, v2, c2) })
					end(w, p1, v1, c1)
					vsched.Sleep(3 * time.Second)
					checkOnce(w, "s", false)
					checkOnce(w, "t", c2 == "none")
					if l := live(w, "t"); l != (c2 == "none") {
						fail("other session live: %v", l)
					}
					foreign(w, "s", "t")
					complete(lib.Dir + "/a.webm")
					complete(lib.Dir + "/b.webm")
					outcome(w)
				}),
			}
		}}
}

func idx(a []string, s string) int {
	for i, x := range a {
		if x == s {
			return i
		}
	}
	return -1
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---------------------------------------------------------------------

func a04() *mc.Property {
	onlyFrom := func(p string, s *src, from int) {
		f := complete(p)
		if f == nil {
			return
		}
		for _, b := range f.Of(1) {
			ok := false
			for _, q := range s.log {
				ok = ok || bytes.HasSuffix(q.Payload, b.Data)
			}
			if !ok {
				fail("%s contains a frame its session did not receive", p)
			}
		}
		if len(f.Of(1)) == 0 {
			fail("%s contains no frames", p)
		}
	}
	return &mc.Property{ID: "A04", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprintf("3 causes ending the old session x 3 adapters pairings x all sequences of %d late events out of 7 against its successor; concurrently: successor started the moment the end is announced with old events in flight, deviation bound %d at every statement of the server package", bnd(th, 3, 4), bnd(th, 2, 3))
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{
				seq("A04/late events", func() {
					w := lib.Start(nil)
					watchEnd(w)
					lkRoom("V1", "A1")
					pairing := pick("adapters", "ms-ms", "lk-ms", "ms-lk", "lk-lk")
					var p1, p2 *vpion.PeerConnection
					var r1 *vlksdk.Room
					var s1, s1b, s2 *src
					if pairing[:2] == "ms" {
						w.Do(lib.StartMS("s", "a.webm", "audio", "video"))
						p1 = lib.LastPC()
						s1 = video(p1, 1)
						s1b = audio(p1, 2)
					} else {
						w.Do(lib.StartLK("s", "a.webm", "r", "V1", "A1"))
						r1 = lastRoom()
						s1 = lkTrack(r1, "V1", 1)
						s1b = lkTrack(r1, "A1", 2)
					}
					s1.frame(true)
					s1b.frame(false)
					sleep(250 * ms)
					cause := pick("end", "stop", "failed", "eof")
					switch {
					case cause == "stop" || r1 != nil:
						w.Do(lib.Stop("s"))
					case cause == "failed":
						p1.FireICE(webrtc.ICEConnectionStateFailed)
					case cause == "eof":
						s1.t.End(io.EOF)
					}
					sleep(50 * ms)
					s2kind := pairing[3:]
					s2no := 100
					if s2kind == "ms" {
						w.Do(lib.StartMS("s", "b.webm", "video"))
						p2 = lib.LastPC()
						s2 = video(p2, 3)
					} else {
						w.Do(lib.StartLK("s", "b.webm", "r", "V1"))
						s2 = lkTrack(lastRoom(), "V1", 3)
					}
					s2.no = s2no
					s2.frame(true)
					sleep(200 * ms)
					n := len(w.Bus.By("*", "s"))
					if ok, _ := w.OK("s"); !ok {
						fail("successor not started")
						return
					}
					for i := 0; i < bnd(th, 3, 4); i++ {
						switch pick("late event", "ice failed", "ice closed", "track end", "packets", "second track end", "new track", "disconnected") {
						case "ice failed":
							if p1 != nil {
								p1.FireICE(webrtc.ICEConnectionStateFailed)
							}
						case "ice closed":
							if p1 != nil {
								p1.FireICE(webrtc.ICEConnectionStateClosed)
							}
						case "track end":
							s1.t.End(io.EOF)
						case "second track end":
							s1b.t.End(errors.New("late"))
						case "packets":
							s1.frame(true)
							s1b.frame(false)
						case "new track":
							if p1 != nil {
								x := video(p1, 9)
								x.frame(true)
								x.t.End(io.EOF)
							} else {
								x := lkTrack(r1, "V1", 9)
								x.frame(true)
							}
						case "disconnected":
							if r1 != nil && r1.CB.OnDisconnected != nil {
								det(r1.CB.OnDisconnected)
							} else if p1 != nil {
								p1.FireICE(webrtc.ICEConnectionStateDisconnected)
							}
						}
						s2.frame(false)
						sleep(300 * ms)
					}
					sleep(1200 * ms)
					for _, m := range w.Bus.By("*", "s")[n:] {
						if m.Id() == "recordingStopped" {
							fail("a late event ended the successor: %s", m.Raw)
						}
					}
					if !live(w, "s") {
						fail("the successor is not stoppable")
					}
					checkOnce(w, "s", false)
					onlyFrom(lib.Dir+"/b.webm", s2, s2no)
					f := complete(lib.Dir + "/b.webm")
					if f != nil && len(f.Of(1)) != bnd(th, 3, 4)+1 {
						fail("successor recorded %d of %d frames", len(f.Of(1)), bnd(th, 3, 4)+1)
					}
					outcome(w)
				}),
				conc("A04/race", bnd(th, 2, 3), vsched.PkgServer, func() {
					w := lib.Start(nil)
					watchEnd(w)
					w.Do(lib.StartMS("s", "a.webm", "video"))
					p1 := lib.LastPC()
					s1 := video(p1, 1)
					settle()
					s1.frame(true)
					sleep(250 * ms)
					var p2 *vpion.PeerConnection
					var s2 *src
					starts := 1
					w.Bus.OnMsg = wrap(w.Bus.OnMsg, func(m lib.Msg) {
						if m.Id() == "recordingStopped" && starts == 1 {
							starts++
							w.Send(lib.StartMS("s", "b.webm", "video"))
						}
						if m.Id() == "startRecordingResponse" && starts == 2 && p2 == nil && m.Str("status") == "ok" {
							p2 = lib.LastPC()
							s2 = video(p2, 3)
							s2.no = 100
							s2.frame(true)
							s2.frame(false)
						}
					})
					late := pick("late", "failed", "eof", "disconnected", "packet")
					vsched.GoEnv("late", func() {
						switch late {
						case "failed":
							p1.FireICE(webrtc.ICEConnectionStateFailed)
						case "disconnected":
							p1.FireICE(webrtc.ICEConnectionStateDisconnected)
						case "eof":
							s1.t.End(io.EOF)
						case "packet":
							s1.frame(false)
						}
					})
					if flip("end by connection loss") {
						p1.FireICE(webrtc.ICEConnectionStateDisconnected)
					} else {
						w.Send(lib.Stop("s"))
					}
					vsched.Sleep(2 * time.Second)
					sleep(5 * time.Second)
					checkOnce(w, "s", true)
					if !live(w, "s") {
						fail("the successor is not stoppable")
					}
					checkOnce(w, "s", false)
					if s2 != nil {
						onlyFrom(lib.Dir+"/b.webm", s2, 100)
					}
					outcome(w)
				}),
			}
		}}
}

func wrap(old func(lib.Msg), f func(lib.Msg)) func(lib.Msg) {
	return func(m lib.Msg) {
		if old != nil {
			old(m)
		}
		f(m)
	}
}

// ---------------------------------------------------------------------

func a06() *mc.Property {
	check := func(w *lib.World, want int) {
		st := w.Bus.By("recorderStatus", "*")
		if len(st) != want {
			fail("%d recorderStatus, expected %d", len(st), want)
		}
		for _, m := range st {
			if m.Str("appVersion") != "1.2.3" || m.Str("instanceId") != "instance-7" || m.Chan != lib.Out {
				fail("recorderStatus %s on %s", m.Raw, m.Chan)
			}
			if m.Num("timestamp") != float64(vtime.Base().UnixMilli()+m.At.Milliseconds()) {
				fail("recorderStatus at %s carries time %v", m.At, m.M["timestamp"])
			}
		}
	}
	return &mc.Property{ID: "A06", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprintf("all sequences of %d operations out of %d (session operations of both adapters, status queries in 4 spellings, near misses); 300 queries beside 0, 2 and 4 sessions; queries racing with starts, stops and connection loss (deviation bound %d)", bnd(th, 4, 5), len(histOps)+5, bnd(th, 2, 3))
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{
				seq("A06/histories", func() {
					h := newHistory(nil)
					want := 1
					check(h.w, want)
					for i := 0; i < bnd(th, 4, 5); i++ {
						k := vsched.Choose(len(histOps)+5, "operation")
						if k < len(histOps) {
							h.run(histOps[k])
						} else {
							sleep(1234567 * time.Microsecond)
							switch k - len(histOps) {
							case 0:
								h.w.Do(lib.M{"id": "getRecorderStatus"})
								want++
							case 1:
								h.w.Do(`{"id":"getRecorderStatus","recordingSessionId":"a","x":[1]}`)
								want++
							case 2:
								h.w.Send(lib.M{"id": "getRecorderStatus"})
								h.w.Do(lib.M{"id": "getRecorderStatus"})
								want += 2
							case 3:
								h.w.Do(lib.M{"id": "recorderStatus"})
								h.w.Do(lib.M{"id": "getRecorderstatus"})
								h.w.Do(lib.M{"Id": "x", "status": "getRecorderStatus"})
								h.w.Do(lib.M{"id": []string{"getRecorderStatus"}})
							case 4:
								h.w.Do(`// c
								{id:'getRecorderStatus',}`)
								want++
							}
						}
						check(h.w, want)
					}
					sleep(10 * time.Second)
					check(h.w, want)
					outcome(h.w)
				}),
				a06lots(check),
				conc("A06/race", bnd(th, 2, 3), vsched.PkgServer, func() {
					w := lib.Start(nil)
					w.Do(lib.StartMS("s", "a.webm", "video"))
					pc := lib.LastPC()
					v := video(pc, 1)
					settle()
					v.frame(true)
					sleep(150 * ms)
					vsched.GoEnv("loss", func() { pc.FireICE(webrtc.ICEConnectionStateFailed) })
					w.Send(lib.M{"id": "getRecorderStatus"})
					w.Send(lib.StartMS("t", "b.webm", "video"))
					w.Send(lib.M{"id": "getRecorderStatus"})
					w.Send(lib.Stop("s"))
					w.Send(lib.M{"id": "getRecorderStatus"})
					vsched.Sleep(2 * time.Second)
					check(w, 4)
					outcome(w)
				}),
			}
		}}
}

// ---------------------------------------------------------------------

func a07() *mc.Property {
	// quiet checks that nothing of ended sessions is left.
	quiet := func(w *lib.World, nlive int, live map[*vpion.PeerConnection]bool, lrooms map[*vlksdk.Room]bool, what string) {
		for _, pc := range vpion.Net().PCs {
			if !live[pc] && !pc.Closed {
				fail("%s: peer connection %d is not closed", what, pc.ID)
			}
			if live[pc] && pc.Closed {
				fail("%s: peer connection %d of a live session is closed", what, pc.ID)
			}
		}
		for i, r := range vlksdk.Net().Rooms {
			if !lrooms[r] && r.Left == 0 {
				fail("%s: LiveKit room %d has not been left", what, i)
			}
		}
		if g := lib.Sessions(); g != float64(nlive) {
			fail("%s: session gauge %v with %d live sessions", what, g, nlive)
		}
		if nlive == 0 {
			if f := lib.OpenFiles(); len(f) > 0 {
				fail("%s: open files %v", what, f)
			}
			if b := w.Background(); b > 0 {
				fail("%s: %d background goroutines left: %s", what, b, strings.Join(vsched.LiveThreads(), ", "))
			}
		} else if f := lib.OpenFiles(); len(f) > 2*nlive {
			fail("%s: %d live sessions but open files %v", what, nlive, f)
		}
	}
	return &mc.Property{ID: "A07", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprintf("all sequences of %d operations out of %d over two ids and both adapters, with every session then stopped; every failing set-up step of both adapters with and without a failing close; connections that change while candidates are gathered; %d sessions at once; LiveKit rooms without, with silent and with late tracks; ends racing with each other, with media and with track arrival (deviation bound %d)", bnd(th, 4, 5), len(histOps), bnd(th, 40, 150), bnd(th, 2, 3))
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{
				seq("A07/histories", func() {
					h := newHistory(func(c *config.Config) { c.Recorder.WriteIVFCopy = true })
					h.check = func(h *history, op string) {
						l, r := map[*vpion.PeerConnection]bool{}, map[*vlksdk.Room]bool{}
						for _, s := range h.s {
							if s.live && s.pc != nil {
								l[s.pc] = true
							}
							if s.live && s.room != nil {
								r[s.room] = true
							}
						}
						quiet(h.w, h.liveCount(), l, r, op)
					}
					for i := 0; i < bnd(th, 4, 5); i++ {
						h.op()
					}
					h.finish()
					sleep(5 * time.Second)
					quiet(h.w, 0, nil, nil, "after stopping everything")
					outcome(h.w)
				}),
				many("A07/many sessions", bnd(th, 40, 150)),
				seq("A07/failing starts", func() {
					w := lib.Start(nil)
					lkRoom("V1", "A1")
					base := lib.OpenFiles()
					_ = base
					if flip("livekit") {
						step := pick("failing step", "connect", "subscribe V1", "subscribe A1", "mkdir", "exists")
						vlksdk.Net().Connect = func(string, lkInfo) error {
							if step == "connect" {
								return errors.New("refused")
							}
							return nil
						}
						old := vlksdk.Net().Fill
						deliver := flip("first track arrives")
						vlksdk.Net().Fill = func(r *vlksdk.Room) {
							old(r)
							for _, t := range r.Participants[0].Pubs {
								if step == "subscribe "+t.SID() {
									t.SubErr = errors.New("not allowed")
								} else if deliver {
									lkTrack(r, t.SID(), 5).frame(true)
								}
							}
						}
						vos.Disk().Fail = func(kind, p string) error {
							if kind == step {
								return errors.New("injected")
							}
							return nil
						}
						if step == "exists" {
							vos.Disk().AddFile(lib.Dir+"/d/a.webm", nil)
						}
						w.Do(lib.StartLK("s", "d/a.webm", "r", "V1", "A1"))
					} else {
						step := pick("failing step", "new", "transceiver", "remote", "answer", "local", "mkdir", "sdp", "exists")
						alsoClose := flip("close fails too")
						ev := pick("event during setup", "none", "failed", "track")
						vpion.Net().Fail = func(pc *vpion.PeerConnection, s string) error {
							if s == step || alsoClose && s == "close" {
								return errors.New("injected")
							}
							if s == "answer" && ev == "failed" {
								pc.FireICE(webrtc.ICEConnectionStateFailed)
							}
							if s == "answer" && ev == "track" {
								video(pc, 5).frame(true)
							}
							return nil
						}
						vos.Disk().Fail = func(kind, p string) error {
							if kind == step {
								return errors.New("injected")
							}
							return nil
						}
						if step == "exists" {
							vos.Disk().AddFile(lib.Dir+"/d/a.webm", nil)
						}
						m := lib.StartMS("s", "d/a.webm", "audio", "video")
						if step == "sdp" {
							m["adapterOptions"].(lib.M)["mediasoup"].(lib.M)["sdp"] = "e30="
						}
						w.Do(m)
					}
					if ok, _ := w.OK("s"); ok {
						fail("start succeeded in spite of the failure")
					}
					sleep(5 * time.Second)
					quiet(w, 0, nil, nil, "failed start")
					// The path is free again.
					vpion.Net().Fail, vos.Disk().Fail, vlksdk.Net().Connect, vlksdk.Net().Fill = nil, nil, nil, nil
					if vos.Disk().Nodes[lib.Dir+"/d/a.webm"] == nil {
						w.Do(lib.StartMS("t", "d/a.webm", "audio", "video"))
						if ok, _ := w.OK("t"); !ok {
							fail("the path of a failed start stays taken")
						}
						if g := lib.Sessions(); g != 1 {
							fail("gauge %v", g)
						}
						w.Do(lib.Stop("t"))
						sleep(2 * time.Second)
						quiet(w, 0, nil, nil, "after the second session")
					}
					outcome(w)
				}),
				seq("A07/gathering", func() {
					var w *lib.World
					det(func() { w, _ = gathering() })
					if live(w, "s1") { // and stopped
						w.Alive()
					}
					sleep(5 * time.Second)
					quiet(w, 0, nil, nil, "ended while or after candidates were gathered")
					outcome(w)
				}),
				seq("A07/rooms", func() {
					// Rooms that lack some or all of what is requested.
					w := lib.Start(func(c *config.Config) { c.Recorder.WriteIVFCopy = true })
					lkRoom("V1", "A1")
					want := [][]string{{"X"}, {"V1"}, {"A1"}, {"X", "V1"}, {"A1", "X"}, {"V1", "A1"}}[vsched.Choose(6, "requested")]
					old := vlksdk.Net().Fill
					switch pick("room", "as usual", "empty", "unknown codecs") {
					case "empty":
						vlksdk.Net().Fill = nil
					case "unknown codecs":
						vlksdk.Net().Fill = func(r *vlksdk.Room) {
							p := vlksdk.NewParticipant("alice")
							r.Participants = append(r.Participants, p)
							vlksdk.NewPub(p, "V1", lksdk.TrackKindVideo, "video/h264")
							vlksdk.NewPub(p, "A1", lksdk.TrackKindAudio, "audio/pcmu")
						}
					}
					_ = old
					w.Do(lib.StartLK("s", "a.webm", "r", want...))
					if ok, _ := w.OK("s"); !ok {
						outcome(w)
						quiet(w, 0, nil, nil, "failed start")
						return
					}
					room := lastRoom()
					arrives := pick("tracks", "none", "arrive", "arrive and send", "end")
					for i, sid := range want {
						if arrives == "none" {
							break
						}
						if s := lkTrack(room, sid, uint32(i+1)); s != nil {
							settle()
							if arrives != "arrive" {
								s.frame(true)
								sleep(120 * ms)
							}
							if arrives == "end" {
								s.t.End(io.EOF)
							}
						}
					}
					sleep(pickD("elapsed", 0, 150*ms, 3500*ms))
					w.Do(lib.Stop("s"))
					sleep(5 * time.Second)
					quiet(w, 0, nil, nil, "ended")
					outcome(w)
				}),
				conc("A07/race", bnd(th, 2, 3), vsched.PkgServer|vsched.PkgWebRTC*b2i(th), func() {
					w := lib.Start(func(c *config.Config) { c.Recorder.WriteIVFCopy = true })
					w.Do(lib.StartMS("s", "a.webm", "audio", "video"))
					pc := lib.LastPC()
					v := video(pc, 1)
					if flip("frame lost") {
						v.seq++
						v.frame(true)
						v.seq++
					}
					v.frame(true)
					sleep(pickD("elapsed", 50*ms, 130*ms, 3010*ms))
					other := pick("meanwhile", "track", "failed", "eof", "media", "stop")
					vsched.GoEnv("other", func() {
						switch other {
						case "track":
							audio(pc, 2).frame(false)
						case "failed":
							pc.FireICE(webrtc.ICEConnectionStateFailed)
						case "eof":
							v.t.End(io.EOF)
						case "media":
							v.frame(true)
						case "stop":
							w.Send(lib.Stop("s"))
						}
					})
					w.Send(lib.Stop("s"))
					vsched.Sleep(3 * time.Second)
					sleep(5 * time.Second)
					quiet(w, 0, nil, nil, "ended")
					outcome(w)
				}),
				conc("A07/livekit race", bnd(th, 2, 3), vsched.PkgServer, func() {
					w := lib.Start(nil)
					lkRoom("V1", "A1")
					w.Do(lib.StartLK("s", "a.webm", "r", "V1", "A1"))
					r := lastRoom()
					v := lkTrack(r, "V1", 1)
					settle()
					v.frame(true)
					sleep(pickD("elapsed", 50*ms, 130*ms, 3010*ms))
					other := pick("meanwhile", "track", "eof", "media", "stop")
					vsched.GoEnv("other", func() {
						switch other {
						case "track":
							lkTrack(r, "A1", 2).frame(false)
						case "eof":
							v.t.End(io.EOF)
						case "media":
							v.frame(true)
						case "stop":
							w.Send(lib.Stop("s"))
						}
					})
					w.Send(lib.Stop("s"))
					vsched.Sleep(3 * time.Second)
					sleep(5 * time.Second)
					quiet(w, 0, nil, nil, "ended")
					outcome(w)
				}),
			}
		}}
}

func pickD(label string, d ...time.Duration) time.Duration { return d[vsched.Choose(len(d), label)] }

func init() {
	mc.Register(a03())
	mc.Register(a04())
	mc.Register(a06())
	mc.Register(a07())
}
