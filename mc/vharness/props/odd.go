package props

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/events"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vos"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
)

// Values at the edges: ids and names that look alike, many sessions, sizes and
// durations far from the usual ones.

// alike are pairs of different session ids.
var alike = [][2]string{
	{"s", "S"}, {"s", " s"}, {"s", "s "}, {"s", "s\n"}, {"s", "s\x00"}, {"s", "\ufeffs"}, {"1", "01"}, {"1", "1.0"}, {"-1", "1"},
	{"\u00e9", "e\u0301"}, {"s", "\u017f"}, {"\u00c9", "\u00e9"}, {"a", "ab"}, {"ab", "b"}, {"a/b", "a_b"}, {"a/b", "b"}, {"a/", "a"}, {"a:b", "b:a"}, {"*", "s"}, {"s?", "s"},
	{"%s", "%d"}, {"null", "nil"}, {`"s"`, "s"}, {"\ufffd", "\ufffe"}, {"bbb-webrtc-recorder-s", "s"},
	{strings.Repeat("x", 300) + "1", strings.Repeat("x", 300) + "2"},
	{"1" + strings.Repeat("x", 5000), "2" + strings.Repeat("x", 5000)},
	{"a", "a" + strings.Repeat(" ", 64)}, {"aaaaaaaa-0", "aaaaaaaa-1"}, {"12345678901234567", "12345678901234568"},
}

func lookAlike(w *lib.World, start func(id string) lib.M, x, y string, lk bool) {
	media := map[string]*src{}
	begin := func(id string) {
		n := len(w.Bus.By("startRecordingResponse", id))
		w.Do(start(id))
		if !checkResponse(w, id, n, !lk) {
			fail("start of %.40q is refused beside one of %.40q", id, map[bool]string{true: y, false: x}[id == x])
			return
		}
		if lk {
			media[id] = lkTrack(lastRoom(), "V1", 5)
		} else {
			media[id] = video(lib.LastPC(), 5)
		}
		media[id].frame(true)
		settle()
	}
	end := func(id string) {
		n, all := len(w.Bus.By("recordingStopped", id)), len(w.Bus.By("recordingStopped", "*"))
		w.Do(lib.Stop(id))
		sleep(2 * time.Second)
		if len(w.Bus.By("recordingStopped", id)) != n+1 || len(w.Bus.By("recordingStopped", "*")) != all+1 {
			fail("stop of %.40q: %d ends of it, %d ends altogether", id, len(w.Bus.By("recordingStopped", id))-n, len(w.Bus.By("recordingStopped", "*"))-all)
		}
	}
	none := func(id string) {
		n := len(w.Bus.Msgs)
		w.Do(lib.Stop(id))
		settle()
		for _, m := range w.Bus.Msgs[n:] {
			if m.Id() != "recordingRtpStatusChanged" {
				fail("a stop of %.40q without a session produced %.100s", id, m.Raw)
			}
		}
	}
	begin(x)
	none(y)
	begin(y)
	if g := lib.Sessions(); g != 2 {
		fail("the gauge says %v with sessions %.40q and %.40q", g, x, y)
	}
	if flip("first ends first") {
		x, y = y, x
	}
	media[x].frame(false)
	settle()
	end(y)
	none(y)
	media[x].frame(false)
	settle()
	begin(y)
	end(x)
	none(x)
	media[y].frame(false)
	settle()
	end(y)
	w.Alive()
}

func a02alike() mc.Scenario {
	return seq("A02/look-alike ids", func() {
		w := lib.Start(nil)
		lkRoom("V1")
		p := alike[vsched.Choose(len(alike), "ids")]
		lk := flip("livekit")
		n := 0
		lookAlike(w, func(id string) lib.M {
			n++
			if lk {
				return lib.StartLK(id, fmt.Sprintf("f%d.webm", n), "r", "V1")
			}
			return lib.StartMS(id, fmt.Sprintf("f%d.webm", n), "video")
		}, p[0], p[1], lk)
		for i, frames := range []int{3, 1, 2} {
			// in the order of the starts; the second start is one that
			// ends first in half of the executions
			f, err := file(fmt.Sprintf("%s/f%d.webm", lib.Dir, i+1))
			if err != nil {
				fail("recording %d: %v", i+1, err)
			} else if len(f.Blocks) != frames && !(i < 2 && len(f.Blocks) == 4-frames) {
				fail("recording %d holds %d frames", i+1, len(f.Blocks))
			}
		}
		outcome(w)
	})
}

// alikeFiles are pairs of different files.
var alikeFiles = [][2]string{
	{"a.webm", "A.webm"}, {"d/a.webm", "e/a.webm"}, {"a.webm", "d/a.webm"}, {"D/a.webm", "d/a.webm"}, {"a.webm", "a.a.webm"}, {"a.webm", "aa.webm"}, {"a.webm", "a .webm"}, {"a.webm", " a.webm"},
	{"a.webm", "a.webm.webm"}, {"d/a.webm", "d_a.webm"}, {"d/a.webm", "da.webm"}, {"d.webm/a.webm", "a.webm"}, {"d/e/a.webm", "e/d/a.webm"}, {"a-1.webm", "a-2.webm"}, {"%61.webm", "a.webm"}, {"d/a.webm", `d\a.webm`},
	{"\u00e9.webm", "e\u0301.webm"}, {"\u00c9.webm", "\u00e9.webm"}, {"a.webm", "...a.webm"}, {".a.webm", "a.webm"}, {"~a.webm", "a.webm"}, {"$HOME.webm", "$PATH.webm"}, {"a#1.webm", "a#2.webm"}, {"a?1.webm", "a?2.webm"}, {"*.webm", "a.webm"},
	{strings.Repeat("x", 200) + "1.webm", strings.Repeat("x", 200) + "2.webm"}, {"1" + strings.Repeat("x", 200) + ".webm", "2" + strings.Repeat("x", 200) + ".webm"},
	{strings.Repeat("d/", 40) + "a.webm", strings.Repeat("d/", 41) + "a.webm"},
}

func b02alike() mc.Scenario {
	return seq("B02/look-alike files", func() {
		p := alikeFiles[vsched.Choose(len(alikeFiles), "files")]
		ivf := flip("copies")
		if flip("swapped") {
			p[0], p[1] = p[1], p[0]
		}
		there := flip("the first is there already")
		for _, n := range p {
			dir := lib.Dir
			for _, s := range strings.Split(n, "/") {
				vos.Disk().AddDir(dir)
				dir += "/" + s
			}
		}
		if there {
			vos.Disk().AddFile(lib.Dir+"/"+p[0], []byte("earlier"))
		}
		w := lib.Start(func(c *configT) { c.Recorder.WriteIVFCopy = ivf })
		var m []*src
		for i, n := range p {
			if i == 0 && there {
				m = append(m, nil)
				continue
			}
			id := fmt.Sprint("s", i)
			w.Do(lib.StartMS(id, n, "video"))
			if ok, path := w.OK(id); !ok || norm(path) != norm(lib.Dir+"/"+n) {
				fail("start of %.60q beside %.60q: %.200s", n, p[1-i], w.Bus.By("startRecordingResponse", id)[0].Raw)
				return
			}
			s := video(lib.LastPC(), 5)
			s.no = 20 * i
			s.frame(true)
			m = append(m, s)
		}
		for k := 0; k < 3; k++ {
			for _, s := range m {
				if s != nil {
					s.frame(false)
				}
			}
			settle()
		}
		for i := range m {
			if m[i] != nil {
				w.Do(lib.Stop(fmt.Sprint("s", i)))
			}
		}
		sleep(time.Second)
		for i, n := range p {
			if m[i] == nil {
				if d := vos.Disk().Nodes[lib.Dir+"/"+n].Data; string(d) != "earlier" {
					fail("the earlier content of %q is gone", n)
				}
				continue
			}
			f := complete(lib.Dir + "/" + n)
			if f == nil {
				return
			}
			if len(f.Blocks) != 4 {
				fail("%.60q holds %d frames of 4", n, len(f.Blocks))
				return
			}
			for k, b := range f.Blocks {
				if want := (lib.Frame{No: 20*i + k, Key: k == 0, Parts: 1}).Data(); !bytes.Equal(b.Data, want) {
					fail("%.60q: frame %d is not its own", n, k)
				}
			}
		}
		w.Alive()
	})
}

// many runs a lot of sessions at once.
func many(name string, n int) mc.Scenario {
	return seq(name, func() {
		w := lib.Start(nil)
		lkRoom("V1")
		how := pick("adapters", "mediasoup", "livekit", "alternating")
		order := pick("they end", "in order", "backwards", "every other first")
		media := make([]*src, n)
		id := func(i int) string { return fmt.Sprint("session ", i) }
		for round := 0; round < 2; round++ {
			for i := 0; i < n; i++ {
				lk := how == "livekit" || how == "alternating" && i%2 == 1
				k := len(w.Bus.By("startRecordingResponse", id(i)))
				f := fmt.Sprintf("f%d-%d.webm", round, i)
				if lk {
					w.Do(lib.StartLK(id(i), f, "r", "V1"))
					media[i] = lkTrack(lastRoom(), "V1", 5)
				} else {
					w.Do(lib.StartMS(id(i), f, "video"))
					media[i] = video(lib.LastPC(), 5)
				}
				if !checkResponse(w, id(i), k, !lk) {
					fail("with %d live sessions a start is refused: %.200s", i, w.Bus.Msgs[len(w.Bus.Msgs)-1].Raw)
					return
				}
				if g := lib.Sessions(); g != float64(i+1) {
					fail("the gauge says %v with %d live sessions", g, i+1)
					return
				}
			}
			for k := 0; k < 3; k++ {
				for _, s := range media {
					s.frame(k == 0)
				}
				sleep(33 * ms)
			}
			w.Alive()
			for k := 0; k < n; k++ {
				i := k
				switch order {
				case "backwards":
					i = n - 1 - k
				case "every other first":
					i = 2 * k
					if i >= n {
						i = 2*(k-(n+1)/2) + 1
					}
				}
				w.Do(lib.Stop(id(i)))
				if c := len(w.Bus.By("recordingStopped", id(i))); c != round+1 {
					fail("%d sessions live, stop of one: %d recordingStopped", n-k, c-round)
					return
				}
				if g := lib.Sessions(); g != float64(n-k-1) {
					fail("the gauge says %v with %d live sessions", g, n-k-1)
					return
				}
			}
			sleep(5 * time.Second)
			if c := len(w.Bus.By("recordingStopped", "*")); c != n*(round+1) {
				fail("%d recordingStopped for %d sessions", c, n*(round+1))
			}
			if f := lib.OpenFiles(); len(f) > 0 || w.Background() > 0 {
				fail("%d sessions have ended; open files %v, background goroutines %d", n, f, w.Background())
			}
			for i := 0; i < n; i++ {
				if f := complete(fmt.Sprintf("%s/f%d-%d.webm", lib.Dir, round, i)); f == nil {
					return
				} else if len(f.Blocks) != 3 {
					fail("recording %d of %d holds %d frames of 3", i, n, len(f.Blocks))
					return
				}
			}
		}
		w.Alive()
	})
}

// h01sizes are offers of all sizes.
func h01sizes() mc.Scenario {
	return seq("H01/sizes", func() {
		b := stubHTTP()
		n := []int{1, 2, 100, 511, 512, 513, 1500, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 1 << 20, 1<<20 + 1, 1500000}[vsched.Choose(20, "size")]
		var body string
		switch pick("of", "an offer", "letters", "lines", "other text") {
		case "an offer":
			raw := bytes.Repeat([]byte(`{"type":"offer","sdp":"v=0"} `), n/30+1)
			body = (base64.StdEncoding.EncodeToString(raw) + strings.Repeat("A", n))[:n]
		case "letters":
			l := make([]byte, n)
			for i := range l {
				l[i] = byte('a' + i*7%26)
			}
			body = string(l)
		case "lines":
			body = strings.Repeat("0123456789abcde\n", n/16+1)[:n]
		default:
			body = strings.Repeat(`"%s" \u0041 <&'+/=`, n/18+1)[:n]
		}
		r := request("POST", "/sdp", body)
		settle()
		if len(b.Msgs) != 1 || r.done {
			fail("an offer of %d bytes published %d messages; the request has %s", n, len(b.Msgs), r.state())
			return
		}
		m := b.Msgs[0]
		e := events.Decode(m.Raw)
		if e.StartRecording() == nil || e.StartRecording().GetSDP() != body {
			fail("an offer of %d bytes is published as one of %d", n, len(e.StartRecording().GetSDP()))
			return
		}
		// Answers are of all sizes, too.
		j, _ := json.Marshal(lib.M{"id": "startRecordingResponse", "recordingSessionId": m.Sess(), "status": "ok", "sdp": body, "fileName": "/rec/x.webm"})
		b.Inject(lib.Out, j)
		settle()
		if !r.done || r.rec.Code != 200 || r.rec.Body.String() != body {
			fail("an answer of %d bytes: the request has %s", n, r.state())
		}
	})
}

// e01sizes are messages of all sizes.
func e01sizes(sp spelling, th bool) func(t *mc.T) string {
	return func(t *mc.T) string { return sized(t, sp, th) }
}

func sized(t *mc.T, sp spelling, th bool) string {
	sizes := []int{0, 1, 2, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65500, 65535, 65536, 65537, 70000, 131072, 262145, 1<<20 + 1, 3000000}[:bnd(th, 30, 31)]
	{
		for _, n := range sizes {
			for _, unit := range []string{"x", "0123456789\n", "\u00e9\"\\"} {
				x := strings.Repeat(unit, n/len(unit)+1)[:n]
				if !strings.HasPrefix(unit, "x") && strings.ToValidUTF8(x, "") != x {
					x = strings.ToValidUTF8(x, "")
				}
				start := func(sess, file, sdp, room, track string) string {
					o := obj{{"id", "startRecording"}, {"recordingSessionId", sess}, {"fileName", file}, {"adapter", "mediasoup"},
						{"adapterOptions", obj{{"mediasoup", obj{{"sdp", sdp}}}, {"livekit", obj{{"room", room}, {"trackIds", []any{track, "u"}}}}}}}
					b := sp.message(o)
					e := events.Decode(b)
					s := e.StartRecording()
					if !e.IsValid() || s == nil || s.SessionId != sess || s.FileName != file || s.GetSDP() != sdp || s.AdapterOptions.LiveKit == nil ||
						s.AdapterOptions.LiveKit.Room != room || len(s.AdapterOptions.LiveKit.TrackIDs) != 2 || s.AdapterOptions.LiveKit.TrackIDs[0] != track {
						return fmt.Sprintf("a start request of %d bytes is not decoded as what it says (%d bytes of session id, %d of file name, %d of offer, %d of room, %d of track)", len(b), len(sess), len(file), len(sdp), len(room), len(track))
					}
					return ""
				}
				bads := []string{start("s", "f", x, "r", "t"), start(x, "f", "o", "r", "t"), start("s", x, "o", "r", "t"), start("s", "f", "o", x, "t"), start("s", "f", "o", "r", x)}
				for _, bad := range bads {
					if bad != "" {
						return bad
					}
				}
				b := sp.message(obj{{"id", "stopRecording"}, {"recordingSessionId", x}})
				if e := events.Decode(b); e.StopRecording() == nil || e.StopRecording().SessionId != x {
					return fmt.Sprintf("a stop request of %d bytes is not decoded as what it says", len(b))
				}
				b = sp.message(obj{{"more", x}, {"id", "getRecorderStatus"}})
				if e := events.Decode(b); e.GetRecorderStatus() == nil {
					return fmt.Sprintf("a status query of %d bytes is not decoded", len(b))
				}
				b = sp.message(obj{{"id", "startRecordingResponse"}, {"recordingSessionId", "s"}, {"status", "ok"}, {"sdp", x}, {"fileName", x}})
				if e := events.Decode(b).StartRecordingResponse(); e == nil || e.SDP == nil || *e.SDP != x || e.FileName == nil || *e.FileName != x {
					return fmt.Sprintf("a response of %d bytes is not decoded as what it says", len(b))
				}
				t.States += 8
				t.Transitions += 8
				if t.Expired() {
					return ""
				}
			}
		}
		// Long lists of tracks.
		for _, n := range []int{1, 10, 16, 17, 100, 1000, 10000} {
			var l []any
			for i := 0; i < n; i++ {
				l = append(l, fmt.Sprint("TR_", i))
			}
			b := sp.message(obj{{"id", "startRecording"}, {"recordingSessionId", "s"}, {"fileName", "f"}, {"adapter", "livekit"}, {"adapterOptions", obj{{"livekit", obj{{"room", "r"}, {"trackIds", l}}}}}})
			s := events.Decode(b).StartRecording()
			if s == nil || s.AdapterOptions == nil || s.AdapterOptions.LiveKit == nil || fmt.Sprint(s.AdapterOptions.LiveKit.TrackIDs) != fmt.Sprint(l...) && fmt.Sprint(s.AdapterOptions.LiveKit.TrackIDs) != fmt.Sprint(l) {
				return fmt.Sprintf("a start request with %d tracks is not decoded as what it says", n)
			}
			t.States++
			t.Transitions++
		}
	}
	return ""
}

// d05sizes are audio packets of all sizes.
func d05sizes(n int) mc.Scenario {
	return seq("D05/payload sizes", func() {
		sizes := []int{1, 2, 3, 4, 8, 60, 255, 256, 1275, 1276, 1460, 9000}
		v := plain
		mixed := flip("with video")
		rec := newRec(v, mixed, true, nil)
		if mixed {
			for _, p := range (lib.Frame{Key: true, TS: 90000, Parts: 1, Seq: 100, PicID: -1}).Packets() {
				rec.PushVideo(p)
			}
		}
		var want [][]byte
		const after = 40
		for i := 0; i < n+after; i++ {
			k := 20
			if i < n {
				k = sizes[vsched.Choose(len(sizes), "size")]
			}
			p := lib.Opus(uint16(65533+i), uint32(1<<32-1500)+uint32(i)*960, i)
			pl := make([]byte, k)
			for j := range pl {
				pl[j] = byte(i*31 + j*7 + 1)
			}
			p.Payload = pl
			want = append(want, pl)
			rec.PushAudio(p.Clone())
		}
		rec.Close()
		settle()
		f, err := file(rec.GetFilePath())
		if err != nil {
			fail("the recording is not well-formed: %v", err)
			return
		}
		bl := f.Of(2)
		if len(bl) < n+after-int(v.aq) {
			fail("%d audio packets are recorded of %d", len(bl), n+after)
		}
		for i, b := range bl {
			if i >= len(want) || !bytes.Equal(b.Data, want[i]) {
				fail("block %d of %d bytes is not packet %d of %d bytes", i, len(b.Data), i, len(want[i]))
				return
			}
		}
	})
}

// long are recordings of hours, days and weeks.
func long(name string) mc.Scenario {
	return seq(name, func() {
		media := pick("media", "video", "audio")
		lk := flip("livekit")
		step := []time.Duration{40 * time.Second, time.Hour, 5 * time.Hour}[vsched.Choose(3, "step")]
		n := []int{2, 30, 430, 130}[vsched.Choose(4, "steps")]
		w := lib.Start(nil)
		lkRoom("V1", "A1")
		var s *src
		sid, kind := "V1", "video"
		if media == "audio" {
			sid, kind = "A1", "audio"
		}
		if lk {
			w.Do(lib.StartLK("s", "a.webm", "r", sid))
			s = lkTrack(lastRoom(), sid, 1)
		} else {
			w.Do(lib.StartMS("s", "a.webm", kind))
			if media == "audio" {
				s = audio(lib.LastPC(), 2)
			} else {
				s = video(lib.LastPC(), 1)
			}
		}
		settle()
		var total time.Duration
		for i := 0; i < n; i++ {
			if i > 0 && media == "video" {
				s.ts += uint32(step/time.Millisecond)*90 - 3000
				total += step
			} else if i > 0 {
				s.ts += uint32(step/time.Millisecond)*48 - 960
				total += step
			}
			s.frame(i == 0)
			if i%8 == 0 {
				settle()
			}
		}
		settle()
		w.Do(lib.Stop("s"))
		sleep(3 * time.Second)
		st := w.Bus.By("recordingStopped", "s")
		if len(st) != 1 {
			fail("%d recordingStopped", len(st))
			return
		}
		f := complete(lib.Dir + "/a.webm")
		if f == nil {
			return
		}
		if len(f.Blocks) == 0 {
			fail("nothing is recorded")
			return
		}
		last := f.Blocks[len(f.Blocks)-1]
		hr(st[0], time.Duration(last.Time)*ms, 1)
		if media == "video" {
			if len(f.Blocks) != n {
				fail("%d of %d frames are recorded", len(f.Blocks), n)
			}
			hr(st[0], total, 1)
			for i, b := range f.Blocks {
				if d := b.Time - f.Blocks[0].Time - int64(i)*step.Milliseconds(); d > 1 || d < -1 {
					fail("frame %d is recorded at %d ms, by its RTP timestamp it should be %d", i, b.Time-f.Blocks[0].Time, int64(i)*step.Milliseconds())
					return
				}
			}
		}
		vsched.SetOutcome(fmt.Sprint(len(f.Blocks), last.Time))
	})
}

// l01names are rooms and sessions with names of all kinds.
func l01names() mc.Scenario {
	return seq("L01/names", func() {
		rooms := []string{"r", " r", "r ", "R", "r\n", "a/b", "a b", "%73", "\u00e9", "\u00c9", "e\u0301", "\U0001f600", "0", "-", strings.Repeat("x", 300), strings.Repeat("x", 5000) + "1"}
		room := rooms[vsched.Choose(len(rooms), "room")]
		p := alike[vsched.Choose(len(alike), "ids")]
		tracks := []string{"V1", "v1", "V1 ", "V", "V11", "V1-" + strings.Repeat("x", 300)}
		k := vsched.Choose(len(tracks), "track")
		w := lib.Start(nil)
		lkRoom(tracks...)
		var ids []string
		for i, s := range p {
			w.Do(lib.StartLK(s, fmt.Sprintf("f%d.webm", i), room, tracks[k]))
			if ok, _ := w.OK(s); !ok {
				fail("start of %.40q in room %.40q is refused", s, room)
				return
			}
			r := lastRoom()
			if r.Info.RoomName != room {
				fail("room %.40q (%d bytes) is joined for room %.40q (%d bytes)", r.Info.RoomName, len(r.Info.RoomName), room, len(room))
			}
			ids = append(ids, r.Info.ParticipantIdentity)
			for _, t := range r.Participants[0].Pubs {
				if t.Requested != (t.SID() == tracks[k]) {
					fail("track %.40q subscribed: %v; requested is %.40q", t.SID(), t.Requested, tracks[k])
				}
			}
		}
		if ids[0] == ids[1] || ids[0] == "" {
			fail("sessions %.40q and %.40q join room %.40q under one identity %.60q", p[0], p[1], room, ids[0])
		}
	})
}
