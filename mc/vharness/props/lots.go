package props

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vlksdk"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vos"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vpion"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vredigo"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	lksdk "github.com/livekit/server-sdk-go/v2"
	"github.com/pion/webrtc/v3"
)

// What holds once holds the hundredth time: the same over and over.

// a05lots repeats one odd message many times, or sends them all.
func a05lots(set [][]byte, n int) mc.Scenario {
	return lasting("A05/many times", func() {
		w := lib.Start(nil)
		lkRoom("V1", "A1")
		k := vsched.Choose(len(set)+1, "message")
		if k == len(set) {
			for _, m := range set {
				w.Do(m)
				w.Do(lib.Stop("n1"))
			}
		} else {
			for i := 0; i < n; i++ {
				w.Do(set[k])
			}
		}
		w.Do(lib.Stop("n1"))
		w.Do(lib.StartMS("t", "t.webm", "video"))
		if ok, _ := w.OK("t"); !ok {
			fail("after many odd messages a valid start is refused")
		}
		w.Alive()
	})
}

// a06lots are many queries.
func a06lots(check func(w *lib.World, want int)) mc.Scenario {
	return lasting("A06/many", func() {
		w := lib.Start(nil)
		n := vsched.Choose(3, "sessions") * 2
		for i := 0; i < n; i++ {
			w.Do(lib.StartMS(fmt.Sprint(i), fmt.Sprintf("%d.webm", i), "video"))
		}
		gap := pickD("every", 0, 10*ms, time.Second)
		const q = 300
		for i := 0; i < q; i++ {
			w.Send(lib.M{"id": "getRecorderStatus"})
			sleep(gap)
		}
		settle()
		check(w, 1+q)
	})
}

// a08lots are many interruptions of the media.
func a08lots(n int) mc.Scenario {
	return lasting("A08/many interruptions", func() {
		lk := flip("livekit")
		w := lib.Start(nil)
		lkRoom("V1")
		var s *src
		if lk {
			w.Do(lib.StartLK("s", "a.webm", "r", "V1"))
			s = lkTrack(lastRoom(), "V1", 1)
		} else {
			w.Do(lib.StartMS("s", "a.webm", "video"))
			s = video(lib.LastPC(), 1)
		}
		on := pickD("media for", 50*ms, 400*ms, 1500*ms)
		off := pickD("silence for", 700*ms, 3*time.Second)
		var ts []time.Duration
		for i := 0; i < n; i++ {
			for t := vsched.Now() + on; vsched.Now() < t; sleep(50 * ms) {
				s.frame(s.no == 0)
				ts = append(ts, vsched.Now())
			}
			sleep(off)
		}
		sleep(2500 * ms)
		flowCheck(w, "s", [][]time.Duration{ts}, vsched.Now())
		w.Do(lib.Stop("s"))
		sleep(5 * time.Second)
		checkOnce(w, "s", false)
		outcome(w)
	})
}

// h01lots are many requests.
func h01lots(n int) []mc.Scenario {
	return []mc.Scenario{
		lasting("H01/many one after the other", func() {
			w := startHTTP()
			kinds := []string{"offer", "bad offer", "failing recording", "not a post", "no body"}
			a, b := vsched.Choose(len(kinds), "every other request"), vsched.Choose(len(kinds), "the others")
			gap := pickD("every", 0, 1100*ms)
			for i := 0; i < n; i++ {
				k := kinds[a]
				if i%2 == 1 {
					k = kinds[b]
				}
				vpion.Net().Fail = nil
				var r *hreq
				switch k {
				case "offer":
					r = request("POST", "/sdp", offers[i%3])
				case "bad offer":
					r = request("POST", "/sdp", "e30=")
				case "failing recording":
					vpion.Net().Fail = func(pc *vpion.PeerConnection, step string) error {
						if step == "answer" {
							return io.ErrUnexpectedEOF
						}
						return nil
					}
					r = request("POST", "/sdp", offers[i%3])
				case "not a post":
					r = request("GET", "/sdp", "")
				default:
					r = request("POST", "/sdp", "")
				}
				settle()
				if k == "offer" {
					r.answered()
				} else {
					r.refused()
				}
				sleep(gap)
			}
			w.Alive()
		}),
		lasting("H01/many at once", func() {
			b := stubHTTP()
			var reqs []*hreq
			for i := 0; i < n; i++ {
				reqs = append(reqs, request("POST", "/sdp", offers[i%3]))
			}
			settle()
			if len(b.Msgs) != n {
				fail("%d offers published %d messages", n, len(b.Msgs))
				return
			}
			seen := map[string]bool{}
			var order []int
			for i, m := range b.Msgs {
				if seen[m.Sess()] || seen[m.Str("fileName")] {
					fail("requests share session %s or file %s", m.Sess(), m.Str("fileName"))
				}
				seen[m.Sess()], seen[m.Str("fileName")] = true, true
				order = append(order, i)
			}
			switch pick("answered", "in order", "backwards", "interleaved") {
			case "backwards":
				for i := range order {
					order[i] = n - 1 - i
				}
			case "interleaved":
				for i := range order {
					order[i] = i * 7 % n
				}
			}
			times := []int{1, 2, 5}[vsched.Choose(3, "times")]
			failing := []int{0, 1, 2}[vsched.Choose(3, "which fail")] // none, all, every other
			fails := func(i int) bool { return failing == 1 || failing == 2 && i%2 == 1 }
			for _, i := range order {
				for k := 0; k < times; k++ {
					if fails(i) {
						b.Inject(lib.Out, []byte(fmt.Sprintf(`{"id":"startRecordingResponse","recordingSessionId":%q,"status":"failed","error":"for %s"}`, b.Msgs[i].Sess(), b.Msgs[i].Sess())))
						continue
					}
					b.Inject(lib.Out, []byte(fmt.Sprintf(`{"id":"startRecordingResponse","recordingSessionId":%q,"status":"ok","sdp":"for %s","fileName":"/f"}`, b.Msgs[i].Sess(), b.Msgs[i].Sess())))
				}
			}
			settle()
			got := map[string]bool{}
			nf := 0
			for i, r := range reqs {
				if r.done && r.rec.Code >= 500 {
					nf++
					continue
				}
				if !r.done || r.rec.Code != 200 || !strings.HasPrefix(r.rec.Body.String(), "for ") || got[r.rec.Body.String()] {
					fail("request %d of %d got %s", i, n, r.state())
					return
				}
				got[r.rec.Body.String()] = true
			}
			wantFail := 0
			for i := range reqs {
				wantFail += b2i(fails(i))
			}
			if nf != wantFail {
				fail("%d of %d requests failed, expected %d", nf, n, wantFail)
			}
			if !b.Idle() {
				fail("responses are no longer handled")
			}
			r := request("POST", "/sdp", offers[0])
			settle()
			if len(b.Msgs) != n+1 || r.done {
				fail("a request after %d others published %d messages and has %s", n, len(b.Msgs)-n, r.state())
			}
		}),
	}
}

// r01lots are many messages, and long silence.
func r01lots() mc.Scenario {
	return seq("R01/many", func() {
		r := listen()
		settle()
		burst := []int{1, 50, 700}[vsched.Choose(3, "at once")]
		gap := pickD("every", 0, 10*time.Second, 59*time.Second, 61*time.Second)
		r.slow = pickD("handler takes", 0, 50*ms)
		r.reply = flip("handler replies")
		for i := 0; i < 30; i++ {
			for k := 0; k < burst; k++ {
				r.send(fmt.Sprint("m", i, "-", k))
			}
			sleep(gap)
			if r.ended {
				fail("listening has ended although the connection is up")
				return
			}
		}
		sleep(time.Duration(burst)*30*50*ms + time.Second)
		r.check("many messages")
		if r.reply && len(vredigo.Redis().Published) != len(r.got) {
			fail("%d replies to %d messages", len(vredigo.Redis().Published), len(r.got))
		}
		r.conn().Break(errors.New("reset"))
		sleep(150 * time.Second)
		r.gone("many messages")
	})
}

// r02lots are many publications between failures.
func r02lots(verify func(want []string)) mc.Scenario {
	return seq("R02/many", func() {
		ps := newRedis()
		s := vredigo.Redis()
		f := pick("failure", "none", "dial", "do:PUBLISH", "no answer", "wrong password")
		every := []int{1, 2, 7}[vsched.Choose(3, "every")]
		s.Fail = func(c *vredigo.FConn, step string) error { return nil }
		var want []string
		on := false
		s.Fail = func(c *vredigo.FConn, step string) error {
			if on && step == f {
				return errors.New("refused")
			}
			return nil
		}
		for i := 0; i < 60; i++ {
			on = f != "none" && i%every == 0
			s.Mute = on && f == "no answer"
			s.Password = map[bool]string{true: "changed", false: "secret"}[on && f == "wrong password"]
			m := fmt.Sprint("message ", i)
			done := false
			vsched.GoEnv("publisher", func() { ps.Publish(chOut, []byte(m)); done = true })
			if on {
				sleep(2 * time.Minute)
			} else {
				settle()
			}
			if !done {
				fail("publication %d still waits", i)
				return
			}
			if !on {
				want = append(want, chOut+":"+m)
			}
		}
		sleep(2 * time.Minute)
		verify(want)
	})
}

// a01lots are many starts that fail, or one session after another.
func a01lots(n int) mc.Scenario {
	return lasting("A01/many", func() {
		w := lib.Start(nil)
		lkRoom("V1")
		vos.Disk().AddFile(lib.Dir+"/there.webm", []byte("x"))
		what := pick("starts", "accepted", "livekit", "bad offer", "bad file", "file there", "new", "remote", "answer", "local", "connect", "subscribe", "mkdir", "duplicate")
		same := flip("same id")
		if what == "duplicate" {
			w.Do(lib.StartMS("s", "s.webm", "video"))
		}
		vpion.Net().Fail = func(pc *vpion.PeerConnection, s string) error {
			if s == what {
				return errors.New("injected")
			}
			return nil
		}
		vos.Disk().Fail = func(kind, p string) error {
			if kind == what {
				return errors.New("injected")
			}
			return nil
		}
		if what == "connect" {
			vlksdk.Net().Connect = func(string, lkInfo) error { return errors.New("refused") }
		}
		old := vlksdk.Net().Fill
		vlksdk.Net().Fill = func(r *vlksdk.Room) {
			old(r)
			if what == "subscribe" {
				r.Participants[0].Pubs[0].SubErr = errors.New("not allowed")
			}
		}
		g := lib.Sessions()
		for i := 0; i < n; i++ {
			id := "s"
			if !same && what != "duplicate" {
				id = fmt.Sprint("s", i)
			}
			lk := what == "livekit" || what == "connect" || what == "subscribe"
			m := lib.StartMS(id, fmt.Sprintf("d%d/f%d.webm", i, i), "video")
			if lk {
				m = lib.StartLK(id, fmt.Sprintf("f%d.webm", i), "r", "V1")
			}
			switch what {
			case "bad offer":
				m["adapterOptions"].(lib.M)["mediasoup"].(lib.M)["sdp"] = "AAAA"
			case "bad file":
				m["fileName"] = "f.mkv"
			case "file there":
				m["fileName"] = "there.webm"
			}
			k := len(w.Bus.By("startRecordingResponse", id))
			w.Do(m)
			ok := checkResponse(w, id, k, !lk)
			if ok != (what == "accepted" || what == "livekit") {
				fail("start %d (%s): accepted %v", i, what, ok)
				return
			}
			if ok {
				c := len(w.Bus.By("recordingStopped", id))
				if !lk && i%2 == 1 {
					lib.LastPC().FireICE(webrtc.ICEConnectionStateFailed)
					settle()
				} else {
					w.Do(lib.Stop(id))
				}
				if len(w.Bus.By("recordingStopped", id)) != c+1 {
					fail("session %d: %d recordingStopped", i, len(w.Bus.By("recordingStopped", id))-c)
				}
			}
			if lib.Sessions() != g {
				fail("after start %d (%s) the gauge says %v", i, what, lib.Sessions())
				return
			}
		}
		sleep(10 * time.Second)
		left := w.Background()
		if what == "duplicate" {
			w.Do(lib.Stop("s"))
			sleep(10 * time.Second)
			left = w.Background()
		}
		if f := lib.OpenFiles(); left > 0 || len(f) > 0 {
			fail("%d starts (%s) leave %d goroutines and files %v", n, what, left, f)
		}
		vpion.Net().Fail, vos.Disk().Fail, vlksdk.Net().Connect, vlksdk.Net().Fill = nil, nil, nil, old
		what = ""
		w.Do(lib.StartMS("last", "last.webm", "video"))
		w.Do(lib.StartLK("lastlk", "lastlk.webm", "r", "V1"))
		for _, id := range []string{"last", "lastlk"} {
			if ok, _ := w.OK(id); !ok {
				fail("after %d starts a good one is refused", n)
			}
			if !live(w, id) {
				fail("no session after the last start")
			}
		}
		w.Alive()
	})
}

// l01lots are rooms with many tracks.
func l01lots() mc.Scenario {
	return seq("L01/many tracks", func() {
		parts := []int{1, 5, 60}[vsched.Choose(3, "participants")]
		per := []int{1, 2, 12}[vsched.Choose(3, "tracks each")]
		kind := pick("tracks", "audio", "alternating", "video first, rest audio")
		which := pick("requested", "all", "last", "every other", "all backwards")
		var sids []string
		lib.FillRooms(func(r *vlksdk.Room) {
			n := 0
			for i := 0; i < parts; i++ {
				p := vlksdk.NewParticipant(fmt.Sprint("user ", i))
				r.Participants = append(r.Participants, p)
				for j := 0; j < per; j++ {
					sid := fmt.Sprint("TR_", n)
					if kind == "alternating" && n%2 == 1 || kind == "video first, rest audio" && n == 0 {
						vlksdk.NewPub(p, sid, lksdk.TrackKindVideo, "video/vp8")
					} else {
						vlksdk.NewPub(p, sid, lksdk.TrackKindAudio, "audio/opus")
					}
					n++
				}
			}
		})
		total := parts * per
		want := map[string]bool{}
		for i := 0; i < total; i++ {
			if which == "last" && i < total-1 || which == "every other" && i%2 == 1 {
				continue
			}
			sids = append(sids, fmt.Sprint("TR_", i))
		}
		if which == "all backwards" {
			for i, j := 0, len(sids)-1; i < j; i, j = i+1, j-1 {
				sids[i], sids[j] = sids[j], sids[i]
			}
		}
		for _, s := range sids {
			want[s] = true
		}
		w := lib.Start(nil)
		w.Do(lib.StartLK("s", "a.webm", "r", sids...))
		if ok, _ := w.OK("s"); !ok {
			fail("start with %d tracks of %d is refused", len(sids), total)
			return
		}
		for _, p := range lastRoom().Participants {
			for _, t := range p.Pubs {
				if t.Requested != want[t.SID()] {
					fail("%d tracks, requested %s: track %s subscribed %v", total, which, t.SID(), t.Requested)
					return
				}
			}
		}
		if !live(w, "s") {
			fail("no session")
		}
	})
}
