package props

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vlksdk"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vpion"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	lksdk "github.com/livekit/server-sdk-go/v2"
	"github.com/livekit/server-sdk-go/v2/pkg/jitter"
	"github.com/pion/rtp/codecs"
	"github.com/pion/webrtc/v3"
)

// ---------------------------------------------------------------------
// LiveKit rooms

// lkKind is what a published track is.
type lkKind struct {
	name  string
	audio bool
	mime  string
	ok    bool // supported
}

var lkKinds = []lkKind{
	{"VP8", false, "video/VP8", true},
	{"opus", true, "audio/opus", true},
	{"H264", false, "video/H264", false},
	{"PCMU", true, "audio/PCMU", false},
	{"vp8", false, "video/vp8", true},
	{"Opus", true, "audio/OPUS", true},
}

// lkPub is one published track.
type lkPub struct {
	sid   string
	owner string
	kind  lkKind
	want  bool
	ssrc  uint32
	pub   *vlksdk.RemoteTrackPublication
	s     *src
}

type lkWorld struct {
	pubs []*lkPub
	room *vlksdk.Room
}

func (l *lkWorld) String() string {
	var s []string
	for _, p := range l.pubs {
		r := ""
		if p.want {
			r = " requested"
		}
		s = append(s, fmt.Sprintf("%s of %s: %s%s", p.sid, p.owner, p.kind.name, r))
	}
	return strings.Join(s, ", ")
}

func (l *lkWorld) fill(participants ...string) {
	lib.FillRooms(func(r *vlksdk.Room) {
		l.room = r
		by := map[string]*vlksdk.RemoteParticipant{}
		for _, p := range participants {
			by[p] = vlksdk.NewParticipant(p)
			r.Participants = append(r.Participants, by[p])
		}
		for _, p := range l.pubs {
			k := lksdk.TrackKindVideo
			if p.kind.audio {
				k = lksdk.TrackKindAudio
			}
			p.pub = vlksdk.NewPub(by[p.owner], p.sid, k, p.kind.mime)
		}
	})
}

// deliver makes the track of a publication appear.
func (l *lkWorld) deliver(p *lkPub) *src {
	s := &src{seq: 65530, ts: 1<<32 - 9000, pic: -1, audio: p.kind.audio, no: int(p.ssrc) * 1000}
	k := webrtc.RTPCodecTypeVideo
	if p.kind.audio {
		k = webrtc.RTPCodecTypeAudio
	}
	s.t = vpion.NewTrack(k, p.ssrc)
	rate := uint32(90000)
	if p.kind.audio {
		rate = 48000
	}
	s.t.SetCodec(webrtc.RTPCodecParameters{RTPCodecCapability: webrtc.RTPCodecCapability{MimeType: p.kind.mime, ClockRate: rate}})
	p.s = s
	l.room.Deliver(p.pub, s.t)
	return s
}

// recorded are the numbers of the recorded frames and audio packets.
func recorded(path string) (v, a []int, err error) {
	w, err := file(path)
	if err != nil {
		return nil, nil, err
	}
	for _, b := range w.Of(1) {
		v = append(v, frameNo(b.Data))
	}
	for _, b := range w.Of(2) {
		n := -1
		if len(b.Data) == 8 {
			n = int(b.Data[1]) | int(b.Data[2])<<8
		}
		a = append(a, n)
	}
	return
}

// frameNo is the number of a frame of one packet, below 8192.
func frameNo(b []byte) int {
	if len(b) < 12 {
		return -1
	}
	n := (int(b[len(b)-2])<<8 | int(b[len(b)-1])) >> 3
	for _, key := range []bool{true, false} {
		if string((lib.Frame{No: n, Key: key, Parts: 1}).Data()) == string(b) {
			return n
		}
	}
	return -1
}

// lkRooms explores what is published and requested.
func lkRooms(nPart, nPubs int, kinds []lkKind, extra, unsup bool) func() {
	return func() {
		l := &lkWorld{}
		var people []string
		var req []string
		nV, nA, nX := 0, 0, 0 // nX: video of unsupported codecs
		for i := 0; i < nPart; i++ {
			who := []string{"alice", "bob", "carol"}[i]
			people = append(people, who)
			for j := 0; j < nPubs; j++ {
				k := vsched.Choose(len(kinds)+1, "track")
				if k == 0 {
					break
				}
				p := &lkPub{sid: fmt.Sprintf("TR_%d%d", i, j), owner: who, kind: kinds[k-1], ssrc: uint32(1 + len(l.pubs))}
				p.want = vsched.Choose(2, "requested") == 1
				if p.want {
					req = append(req, p.sid)
					if !p.kind.ok && !p.kind.audio {
						nX++
					}
					if p.kind.ok && p.kind.audio {
						nA++
					} else if p.kind.ok {
						nV++
					}
				}
				l.pubs = append(l.pubs, p)
			}
		}
		if extra {
			switch vsched.Choose(4, "list") {
			case 1:
				req = append([]string{"TR_unknown"}, req...)
			case 2:
				req = append(req, req...)
			case 3: // the other way round, with near misses
				sort.Sort(sort.Reverse(sort.StringSlice(req)))
				req = append(req, "tr_00", "TR_0", "TR_000", "")
			}
		}
		if len(req) == 0 {
			req = []string{"TR_unknown"}
		}
		back := len(l.pubs) > 1 && vsched.Choose(2, "order of arrival") == 1
		l.fill(people...)
		w := lib.Start(nil)
		w.Do(lib.StartLK("s", "a.webm", "room-1", req...))
		ok, path := w.OK("s")
		what := l.String()
		if !ok || l.room == nil {
			fail("a start for %q failed [%s]", req, what)
			return
		}
		if n := len(vlksdk.Net().Rooms); n != 1 || l.room.Info.RoomName != "room-1" || l.room.URL != "ws://lk" || l.room.Info.APIKey != "key" || l.room.Info.APISecret != "secret" {
			fail("%d rooms were joined, the last is %s of %s", n, l.room.Info.RoomName, l.room.URL)
		}
		if l.room.Auto {
			fail("the service subscribes to everything published in the room")
		}
		for _, p := range l.pubs {
			if p.pub.Requested != p.want {
				fail("track %s: subscribed %v, requested %v [%s]", p.sid, p.pub.Requested, p.want, what)
				return
			}
		}
		var order []*lkPub
		for _, p := range l.pubs {
			if p.want {
				order = append(order, p)
			}
		}
		if back {
			for i := 0; i < len(order)/2; i++ {
				order[i], order[len(order)-1-i] = order[len(order)-1-i], order[i]
			}
		}
		for _, p := range order {
			l.deliver(p)
			settle()
		}
		for i := 0; i < 6; i++ {
			for _, p := range order {
				p.s.frame(i%3 == 0)
			}
			sleep(20 * ms)
		}
		w.Do(lib.Stop("s"))
		sleep(time.Second)
		if len(w.Bus.By("recordingStopped", "s")) != 1 || l.room.Left == 0 {
			fail("the session does not end [%s]", what)
		}
		w.Alive()
		var v, a []int
		// Audio requested together with nothing but video of unsupported
		// codecs is not recorded: a known finding with a scenario of its own.
		blocked := nX > 0 && nV == 0
		if blocked != unsup {
			if !blocked {
				return
			}
			if d, err := file(path); err == nil {
				for _, b := range d.Of(2) {
					a = append(a, int(b.Data[1])|int(b.Data[2])<<8)
				}
				if len(d.Of(1)) > 0 {
					fail("video of an unsupported codec is recorded [%s]", what)
				}
			}
		} else if nV+nA > 0 {
			var err error
			if v, a, err = recorded(path); err != nil {
				fail("no recording of %d video and %d audio tracks: %v [%s]", nV, nA, err, what)
				return
			}
		} else if d, err := file(path); err == nil && len(d.Blocks) > 0 {
			fail("%d blocks are recorded without a supported track [%s]", len(d.Blocks), what)
		}
		vsched.SetOutcome(fmt.Sprint(what, v, a))
		checkFrom := func(got []int, audio bool, n int) {
			kind := "video"
			if audio {
				kind = "audio"
			}
			for _, x := range got {
				found := false
				for _, p := range order {
					if int(p.ssrc) == x/1000 && p.kind.audio == audio && p.kind.ok {
						found = true
					}
				}
				if !found {
					fail("recorded as %s: %d, which is of no requested supported track of that kind [%s]", kind, x, what)
				}
			}
			if n == 1 && blocked == unsup {
				want := 6
				if len(got) != want && !(audio && nV > 0 && len(got) >= want-1) {
					fail("%d of %d units of the requested %s track are recorded: %v [%s]", len(got), want, kind, got, what)
				}
			} else if n == 0 && len(got) > 0 {
				fail("recorded %s without a track [%s]", kind, what)
			}
		}
		checkFrom(v, false, nV)
		checkFrom(a, true, nA)
	}
}

// lkFaults explores failing connections and subscriptions.
func lkFaults() {
	l := &lkWorld{}
	n := 1 + vsched.Choose(3, "tracks")
	var req []string
	for i := 0; i < n; i++ {
		p := &lkPub{sid: fmt.Sprint("TR_", i), owner: []string{"alice", "bob"}[i%2], kind: lkKinds[i%4], ssrc: uint32(1 + i), want: true}
		l.pubs = append(l.pubs, p)
		req = append(req, p.sid)
	}
	l.fill("alice", "bob")
	bad := vsched.Choose(n+2, "failing step")
	fill := vlksdk.Net().Fill
	vlksdk.Net().Fill = func(r *vlksdk.Room) {
		fill(r)
		if bad >= 2 {
			l.pubs[bad-2].pub.SubErr = errors.New("refused")
		}
	}
	if bad == 1 {
		vlksdk.Net().Connect = func(string, lksdk.ConnectInfo) error { return errors.New("unreachable") }
	}
	w := lib.Start(nil)
	w.Do(lib.StartLK("s", "a.webm", "room", req...))
	if ok, _ := w.OK("s"); ok != (bad == 0) {
		fail("failing step %d of %d tracks: the response is ok: %v", bad, n, ok)
	}
	for _, p := range l.pubs {
		if p.pub != nil && p.pub.Requested && vsched.Choose(2, "track appears nevertheless") == 1 {
			l.deliver(p)
			settle()
			p.s.frame(true)
			p.s.frame(true)
		}
	}
	sleep(500 * ms)
	if bad >= 2 && l.room.Left == 0 {
		fail("subscribing to track %d of %d failed and the room was not left", bad-1, n)
	}
	if live(w, "s") != (bad == 0) {
		fail("failing step %d: a session exists: %v", bad, bad != 0)
	}
	if bad == 0 && l.room.Left == 0 {
		fail("the session has ended and the room was not left")
	}
	sleep(5 * time.Second)
	if n := w.Background(); n != 0 {
		fail("failing step %d of %d tracks: %d background activities remain: %s", bad, len(l.pubs), n, strings.Join(vsched.LiveThreads(), ", "))
	}
	w.Alive()
	outcome(w)
}

// lkEager delivers tracks with media as soon as they have been subscribed to.
func lkEager(reverse bool) func() {
	return func() {
		l := &lkWorld{pubs: []*lkPub{
			{sid: "TR_v", owner: "alice", kind: lkKinds[0], ssrc: 1, want: true},
			{sid: "TR_a", owner: "bob", kind: lkKinds[1], ssrc: 2, want: true},
		}}
		if reverse {
			l.pubs[0], l.pubs[1] = l.pubs[1], l.pubs[0]
			l.pubs[0].owner, l.pubs[1].owner = "alice", "bob"
		}
		l.fill("alice", "bob")
		var w *lib.World
		done := 0
		det(func() { w = lib.Start(nil) })
		for _, p := range l.pubs {
			p := p
			vsched.GoEnv("network "+p.sid, func() {
				vsched.Block("subscription", func() bool { return p.pub != nil && p.pub.Requested })
				l.deliver(p)
				for i := 0; i < 2; i++ {
					p.s.frame(i%2 == 0)
				}
				done++
			})
		}
		w.Send(lib.StartLK("s", "a.webm", "room", "TR_v", "TR_a"))
		vsched.Block("media", func() bool { return done == 2 })
		vsched.Sleep(50 * ms)
		for i := 0; i < 3; i++ {
			det(func() {
				l.pubs[0].s.frame(true)
				l.pubs[1].s.frame(true)
				vsched.Sleep(20 * ms)
			})
		}
		w.Do(lib.Stop("s"))
		sleep(time.Second)
		_, path := w.OK("s")
		v, a, err := recorded(path)
		if err != nil {
			fail("no recording: %v", err)
			return
		}
		// All video from the first keyframe, all audio from then on.
		if len(v) != 5 {
			fail("of 5 video frames %v are recorded", v)
		}
		if len(a) < 3 {
			fail("of 5 audio packets %v are recorded", a)
		}
		vsched.SetOutcome(fmt.Sprint(v, a))
	}
}

func l01() *mc.Property {
	return &mc.Property{ID: "L01", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprintf("all rooms of 2 participants with up to 2 tracks of %d kinds each, all requested subsets, lists with unknown, repeated, reordered and similar ids; rooms of up to 720 tracks; 16 names of rooms and %d pairs of sessions that look alike; failing connection and each failing subscription of up to 3 tracks; tracks with media appearing while the start is still in progress, all schedules with 2 deviations%s", bnd(th, 4, 6), len(alike), []string{" at synchronisation and network operations", " at any statement of the adapter"}[bnd(th, 0, 1)])
		},
		Scenarios: func(th bool) []mc.Scenario {
			kinds := lkKinds[:bnd(th, 4, 6)]
			return []mc.Scenario{
				seq("L01/rooms", lkRooms(2, 2, kinds, false, false)),
				seq("L01/lists", lkRooms(2, bnd(th, 1, 2), lkKinds[:bnd(th, 6, 3)], true, false)),
				seq("L01/three participants", lkRooms(3, 1, lkKinds, false, false)),
				seq("L01/unsupported video and audio", lkRooms(2, 1, lkKinds[:3], false, true)),
				l01names(),
				l01lots(),
				seq("L01/faults", lkFaults),
				conc("L01/early media, video first", 2, bnd(th, 0, vsched.PkgLiveKit), lkEager(false)),
				conc("L01/early media, audio first", 2, bnd(th, 0, vsched.PkgLiveKit), lkEager(true)),
			}
		}}
}

// ---------------------------------------------------------------------
// L02

// lkTwo starts a session with video of alice and audio of bob.
func lkTwo(w *lib.World) *lkWorld {
	l := &lkWorld{pubs: []*lkPub{
		{sid: "TR_v", owner: "alice", kind: lkKinds[0], ssrc: 1, want: true},
		{sid: "TR_a", owner: "bob", kind: lkKinds[1], ssrc: 2, want: true},
	}}
	l.fill("alice", "bob")
	w.Do(lib.StartLK("s", "a.webm", "room", "TR_v", "TR_a"))
	return l
}

// big sends a frame that makes the clock of the track advance by 100 ms.
func (s *src) big(key bool) lib.Frame {
	f := s.frame(key)
	if s.audio {
		s.ts += 4800 - 960
	} else {
		s.ts += 9000 - 3000
	}
	return f
}

// lose loses the next frame.
func (s *src) lose() {
	s.seq++
	s.no++
	s.ts += 9000
}

// lkEnd checks that media is still recorded and the session can be stopped.
func lkEnd(w *lib.World, l *lkWorld) {
	var first int
	det(func() {
		// A loss in progress delays everything by 200 ms of media.
		for i := 0; i < 4; i++ {
			l.pubs[0].s.big(false)
			vsched.Settle()
		}
		first = l.pubs[0].s.no
		for i := 0; i < 4; i++ {
			l.pubs[0].s.big(i == 0)
			if l.pubs[1].s != nil {
				l.pubs[1].s.big(false)
			}
			vsched.Sleep(100 * ms)
		}
	})
	if len(w.Bus.By("recordingStopped", "s")) > 0 {
		fail("the session ended by itself")
		return
	}
	w.Do(lib.Stop("s"))
	sleep(time.Second)
	if len(w.Bus.By("recordingStopped", "s")) != 1 {
		fail("a stop is not answered: %s", strings.Join(vsched.LiveThreads(), ", "))
		return
	}
	_, path := w.OK("s")
	v, a, err := recorded(path)
	if err != nil {
		fail("no recording: %v", err)
		return
	}
	n := 0
	for _, x := range v {
		if x >= first {
			n++
		}
	}
	if n != 4 {
		fail("of the last 4 frames, from %d, are recorded %v", first, v)
	}
	if l.pubs[1].s != nil && (len(a) == 0 || a[len(a)-1] != l.pubs[1].s.no-1) {
		fail("the last audio packet, %d, is not recorded: %v", l.pubs[1].s.no-1, a)
	}
	lkIdle(w)
	vsched.SetOutcome(fmt.Sprint(v, len(a), len(l.pubs[0].pub.Owner.PLIs)))
}

func lkIdle(w *lib.World) {
	sleep(5 * time.Second)
	if n := w.Background(); n != 0 {
		fail("%d background activities remain: %s", n, strings.Join(vsched.LiveThreads(), ", "))
	}
	w.Alive()
}

func l02() *mc.Property {
	return &mc.Property{ID: "L02", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprintf("video and audio of a room: subscriptions, media with a loss, keyframe and flow timers coinciding, and the stop, in all schedules with %s", []string{"2 deviations, at any statement of the adapter", "2 deviations at any statement of the adapter, 3 at synchronisation and network operations"}[bnd(th, 0, 1)])
		},
		Scenarios: func(th bool) []mc.Scenario {
			var r []mc.Scenario
			both := func(name string, body func()) {
				r = append(r, conc("L02/"+name, bnd(th, 2, 3), 0, body))
				r = append(r, conc("L02/"+name+", any statement", 2, vsched.PkgLiveKit, body))
			}
			both("subscriptions and losses", func() {
				var w *lib.World
				var l *lkWorld
				det(func() { w = lib.Start(nil); l = lkTwo(w) })
				done := 0
				vsched.GoEnv("video network", func() {
					s := l.deliver(l.pubs[0])
					s.big(true)
					s.lose()
					for i := 0; i < 4; i++ {
						s.big(false)
					}
					done++
				})
				vsched.GoEnv("audio network", func() {
					s := l.deliver(l.pubs[1])
					s.big(false)
					s.big(false)
					done++
				})
				vsched.Block("networks", func() bool { return done == 2 })
				vsched.Sleep(110 * ms)
				lkEnd(w, l)
			})
			both("timers and losses", func() {
				var w *lib.World
				var l *lkWorld
				det(func() {
					w = lib.Start(nil)
					l = lkTwo(w)
					l.deliver(l.pubs[0])
					l.deliver(l.pubs[1])
					vsched.Settle()
					l.pubs[0].s.big(true)
					l.pubs[1].s.big(true)
					// Flow checks are due every second from 100 ms on, keyframe requests every 3 s.
					vsched.Sleep(2900 * ms)
					l.pubs[0].s.big(true)
					l.pubs[0].s.lose()
					l.pubs[0].s.big(false)
					l.pubs[0].s.big(false)
					vsched.Settle()
				})
				vsched.GoEnv("network", func() {
					vsched.Sleep(100 * ms)
					for i := 0; i < 3; i++ {
						l.pubs[0].s.big(false)
					}
					l.pubs[1].s.big(false)
				})
				vsched.Sleep(250 * ms)
				lkEnd(w, l)
			})
			both("stop", func() {
				var w *lib.World
				var l *lkWorld
				when := vsched.Choose(3, "stop at")
				det(func() {
					w = lib.Start(nil)
					l = lkTwo(w)
					if when > 0 {
						l.deliver(l.pubs[0])
						vsched.Settle()
						l.pubs[0].s.big(true)
						l.pubs[0].s.lose()
						if when > 1 {
							vsched.Sleep(2950 * ms)
						}
					}
				})
				vsched.GoEnv("network", func() {
					l.deliver(l.pubs[1])
					l.pubs[1].s.big(false)
					if when == 0 {
						l.deliver(l.pubs[0])
						l.pubs[0].s.big(true)
						l.pubs[0].s.lose()
					}
					for i := 0; i < 4; i++ {
						l.pubs[0].s.big(false)
					}
				})
				if when > 1 {
					vsched.Sleep(50 * ms)
				}
				w.Send(lib.Stop("s"))
				vsched.Block("stopping", w.Bus.Idle)
				sleep(time.Second)
				if len(w.Bus.By("recordingStopped", "s")) != 1 {
					fail("a stop is not answered: %s", strings.Join(vsched.LiveThreads(), ", "))
				}
				lkIdle(w)
				outcome(w)
			})
			return r
		}}
}

// ---------------------------------------------------------------------
// L03

// pli is one keyframe request.
type pli struct {
	who  string
	ssrc uint32
	at   time.Duration
	seq  int
}

func watchPLI() *[]pli {
	var r []pli
	vlksdk.Net().OnPLI = func(p *vlksdk.RemoteParticipant, ssrc uint32) {
		r = append(r, pli{p.Identity(), ssrc, vsched.Now(), vsched.NextSeq()})
	}
	return &r
}

// lkKeyframes explores ten seconds of a room: which tracks there are and when
// what is lost.
func lkKeyframes(slots int, names bool) func() {
	return func() {
		plis := watchPLI()
		l := &lkWorld{}
		people := []string{"alice", "bob", "carol"}
		room := 6
		if !names {
			room = vsched.Choose(6, "room")
		}
		switch room {
		case 6: // participants that look alike, or many
			pairs := append(alike, [][2]string{{"w_abcdef_1", "w_abcdef_2"}, {"w_abcdef_1", "W_ABCDEF_1"}, {"w_abcdef", "w_abcdef_1"}}...)
			if i := vsched.Choose(len(pairs)+1, "participants"); i < len(pairs) {
				people = append(people[:0], pairs[i][:]...)
			} else {
				people = nil
				for j := 0; j < 40; j++ {
					people = append(people, fmt.Sprint("p", j))
				}
			}
			for _, n := range people {
				l.pubs = append(l.pubs, &lkPub{owner: n, kind: lkKinds[0], want: true})
			}
		case 0:
			l.pubs = []*lkPub{{owner: "alice", kind: lkKinds[0], want: true}}
		case 1:
			l.pubs = []*lkPub{{owner: "alice", kind: lkKinds[0], want: true}, {owner: "bob", kind: lkKinds[1], want: true}}
		case 2:
			l.pubs = []*lkPub{{owner: "alice", kind: lkKinds[1], want: true}, {owner: "bob", kind: lkKinds[0], want: true}, {owner: "carol", kind: lkKinds[0]}}
		case 3:
			l.pubs = []*lkPub{{owner: "alice", kind: lkKinds[1], want: true}, {owner: "alice", kind: lkKinds[4], want: true}, {owner: "bob", kind: lkKinds[1]}}
		case 4:
			l.pubs = []*lkPub{{owner: "alice", kind: lkKinds[0], want: true}, {owner: "bob", kind: lkKinds[0], want: true}}
		case 5:
			l.pubs = []*lkPub{{owner: "alice", kind: lkKinds[1], want: true}, {owner: "bob", kind: lkKinds[0]}}
		}
		var req []string
		owner := map[string]bool{}
		var vids []*lkPub
		for i, p := range l.pubs {
			p.sid = fmt.Sprint("TR_", i)
			p.ssrc = uint32(i + 1)
			if p.want {
				req = append(req, p.sid)
				owner[p.owner] = true
				if !p.kind.audio {
					vids = append(vids, p)
				}
			}
		}
		l.fill(people...)
		w := lib.Start(nil)
		w.Do(lib.StartLK("s", "a.webm", "room", req...))
		t0 := map[uint32]time.Duration{} // when the track appeared
		var drops []time.Duration        // when the buffer reports losses
		ref := map[*lkPub]*jitter.Buffer{}
		for _, v := range vids {
			ref[v] = jitter.NewBuffer(&codecs.VP8Packet{}, 90000, 200*ms, jitter.WithPacketDroppedHandler(func() {
				drops = append(drops, vsched.Now())
			}))
		}
		send := func(p *lkPub, key bool) {
			n := len(p.s.log)
			p.s.big(key)
			if r := ref[p]; r != nil {
				for _, x := range p.s.log[n:] {
					r.Push(x.Clone())
					r.Pop(false)
				}
			}
		}
		for _, p := range l.pubs {
			if !p.want {
				continue
			}
			l.deliver(p)
			settle()
			if !p.kind.audio {
				t0[p.ssrc] = vsched.Now()
			}
			send(p, true)
			settle()
			sleep(30 * ms)
		}
		// Media every 100 ms; in the chosen slots, something is lost.
		for i := 0; i < slots; i++ {
			act := 0
			if !names {
				act = vsched.Choose(5, "slot")
			}
			for j := 0; j < 10; j++ {
				for _, p := range l.pubs {
					if p.s == nil || act == 4 {
						continue
					}
					switch {
					case act == 1 && j == 1 && !p.kind.audio && p == vids[0]: // one frame
						p.s.lose()
						continue
					case act == 2 && j == 1 && p.kind.audio:
						p.s.seq++
						p.s.no++
						p.s.ts += 4800
						continue
					case act == 3 && (j == 1 || j == 5) && !p.kind.audio && p == vids[0]: // two, far enough apart
						p.s.lose()
						continue
					}
					send(p, j == 9)
				}
				settle()
				sleep(100 * ms)
			}
		}
		tEnd := vsched.Now()
		dead := false
		if vsched.Choose(2, "tracks end") == 1 {
			// The tracks end before the session does.
			for _, p := range l.pubs {
				if p.s != nil {
					p.s.t.End(errors.New("unpublished"))
				}
			}
			settle()
			dead = true
			n := len(*plis)
			sleep(7 * time.Second)
			for _, x := range (*plis)[n:] {
				fail("a keyframe is requested of SSRC %d at %v, its track ended at %v", x.ssrc, x.at, tEnd)
			}
		}
		w.Do(lib.Stop("s"))
		settle()
		n := len(*plis)
		sleep(7 * time.Second)
		if len(*plis) != n {
			fail("%d keyframe requests after the session has ended", len(*plis)-n)
		}
		got := map[string][]time.Duration{}
		for _, x := range *plis {
			if !owner[x.who] {
				fail("a keyframe is requested from %s, who owns no recorded track", x.who)
			}
			if _, ok := t0[x.ssrc]; !ok {
				fail("a keyframe is requested of SSRC %d, which is no subscribed video track", x.ssrc)
			}
			k := fmt.Sprint(x.who, "/", x.ssrc)
			got[k] = append(got[k], x.at)
		}
		for _, v := range vids {
			k := fmt.Sprint(v.owner, "/", v.ssrc)
			last := t0[v.ssrc]
			for _, t := range append(append([]time.Duration{}, got[k]...), tEnd) {
				if t > tEnd {
					t = tEnd
				}
				if t-last > 3500*ms {
					fail("no keyframe of %s was requested between %v and %v", k, last, t)
				}
				last = t
			}
			// A drop on any track is a request to all
			for _, d := range drops {
				ok := d < t0[v.ssrc]
				for _, t := range got[k] {
					ok = ok || t >= d && t <= d+150*ms
				}
				if !ok && d+150*ms < tEnd {
					fail("packets of %s were given up at %v and no keyframe is requested: %v", k, d, got[k])
				}
			}
		}
		vsched.SetOutcome(fmt.Sprint(len(*plis), len(drops), dead))
		w.Alive()
	}
}

func l03() *mc.Property {
	return &mc.Property{ID: "L03", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprintf("six rooms with one or two video tracks and several owners, pairs of participants that look alike, 40 participants; all histories of %d seconds of flowing, lossy and silent media; the end of tracks and session in all schedules with %d deviations", bnd(th, 5, 7), bnd(th, 2, 3))
		},
		Scenarios: func(th bool) []mc.Scenario {
			ending := func() {
				var w *lib.World
				var l *lkWorld
				plis := watchPLI()
				det(func() {
					w = lib.Start(nil)
					l = lkTwo(w)
					l.deliver(l.pubs[0])
					vsched.Settle()
					l.pubs[0].s.big(true)
					l.pubs[0].s.lose()
					l.pubs[0].s.big(false)
					l.pubs[0].s.big(false)
					vsched.Sleep(2950 * ms)
				})
				vsched.GoEnv("network", func() {
					vsched.Sleep(50 * ms)
					l.pubs[0].s.big(false)
					l.pubs[0].s.big(false)
				})
				vsched.Sleep(50 * ms)
				w.Send(lib.Stop("s"))
				vsched.Block("stopping", w.Bus.Idle)
				sleep(7 * time.Second)
				st := w.Bus.By("recordingStopped", "s")
				if len(st) != 1 {
					fail("a stop is answered %d times", len(st))
					return
				}
				for _, x := range *plis {
					if x.at > st[0].At {
						fail("a keyframe is requested at %v, the session ended at %v", x.at, st[0].At)
					}
				}
				vsched.SetOutcome(fmt.Sprint(len(*plis)))
			}
			return []mc.Scenario{
				seq("L03/histories", lkKeyframes(bnd(th, 5, 7), false)),
				seq("L03/participants", lkKeyframes(8, true)),
				conc("L03/ending", bnd(th, 2, 3), 0, ending),
				conc("L03/ending, any statement", 2, vsched.PkgLiveKit, ending),
			}
		}}
}

func init() {
	mc.Register(l01())
	mc.Register(l02())
	mc.Register(l03())
}

var _ = config.Config{}
