package props

import (
	"bytes"
	"errors"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vos"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vpion"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	"github.com/pion/rtcp"
	"github.com/pion/rtp"
)

// ---------------------------------------------------------------------
// D05

// audioOnly explores what arrives of an audio track.
func audioOnly(n int, fates []string, budget, fill int) func() {
	return func() {
		v := plain
		v.aq = []uint16{32, 4}[vsched.Choose(2, "queue")]
		dur := []uint32{960, 120, 2880}[vsched.Choose(3, "duration")]
		start := []uint16{100, 65533}[vsched.Choose(2, "first number")]
		rec := newRec(v, false, true, nil)
		if vsched.Choose(2, "restarted clock") == 1 {
			dur = ^dur + 1 // a clock running backwards must not crash anything; times are not checked
		}
		type arr struct{ pos, at int }
		var arrivals []arr
		pos := 0
		left := budget
		var fates_ []string
		for i := 0; i < n+fill; i++ {
			f := ""
			if left > 0 && i < n {
				f = fates[vsched.Choose(len(fates), "fate")]
			}
			if i < n {
				fates_ = append(fates_, f)
			}
			if f != "" {
				left--
			}
			at := i * 100
			switch f {
			case "":
				arrivals = append(arrivals, arr{pos, at})
			case "lost":
			case "lost3":
				pos += 2
			case "burst": // as many as the sample builder holds, give or take
				pos += 2*int(v.aq) - 6 + vsched.Choose(8, "burst")
			case "late1":
				arrivals = append(arrivals, arr{pos, at + 110})
			case "late3":
				arrivals = append(arrivals, arr{pos, at + 310})
			case "again2":
				arrivals = append(arrivals, arr{pos, at}, arr{pos, at + 210})
			}
			pos++
		}
		what := fmt.Sprintf("queue %d, duration %d, first %d, packets %q and %d more", v.aq, dur, start, fates_, fill)
		for i := range arrivals { // insertion by arrival time
			for j := i; j > 0 && arrivals[j].at < arrivals[j-1].at; j-- {
				arrivals[j], arrivals[j-1] = arrivals[j-1], arrivals[j]
			}
		}
		var all []*rtp.Packet
		byPos := map[int]*rtp.Packet{}
		var first = -1
		for _, a := range arrivals {
			p := byPos[a.pos]
			if p == nil {
				p = lib.Opus(start+uint16(a.pos), uint32(1<<32-5000)+uint32(a.pos)*dur, a.pos)
				byPos[a.pos] = p
				all = append(all, p)
			}
			if first < 0 {
				first = a.pos
			}
			rec.PushAudio(p.Clone())
		}
		rec.Close()
		settle()
		n := vos.Disk().Nodes[rec.GetFilePath()]
		var bl []lib.Block
		if n != nil {
			w, err := lib.ParseWebM(n.Data, false)
			if err != nil {
				fail("the recording is not well-formed: %v [%s]", err, what)
				return
			}
			bl = w.Of(2)
			if len(w.Tracks) != 1 || len(bl) != len(w.Blocks) {
				fail("an audio recording has tracks %+v and %d other blocks [%s]", w.Tracks, len(w.Blocks)-len(bl), what)
			}
		}
		rank := map[string]int{}
		for p, k := range byPos {
			rank[string(k.Payload)] = p
		}
		got := map[int]bool{}
		last := -1
		for _, b := range bl {
			p, ok := rank[string(b.Data)]
			if !ok {
				fail("recorded audio % x is none of the packets [%s]", b.Data, what)
				return
			}
			if p <= last {
				fail("packet %d is recorded after packet %d [%s]", p, last, what)
				return
			}
			last = p
			got[p] = true
		}
		vsched.SetOutcome(fmt.Sprint(len(bl)))
		late := false
		for _, f := range fates_ {
			late = late || strings.HasPrefix(f, "late") || f == "again2"
		}
		if late && v.aq == 4 {
			return
		}
		newest := 0
		for p := range byPos {
			newest = max(newest, p)
		}
		for p := first; p <= newest; p++ {
			if byPos[p] == nil || got[p] {
				continue
			}
			// Allowed: still queued behind a gap at the end, or when more than
			// the queue was lost at once.
			ok := false
			gap := false
			for q := p - 1; q >= p-int(v.aq)-1 && q >= first; q-- {
				if got[q] {
					break
				}
				if byPos[q] == nil {
					gap = true
				}
			}
			if gap && newest-p <= int(v.aq) {
				ok = true
			}
			if !ok {
				fail("packet %d of %d was delivered but is not recorded; recorded are %d [%s]", p, newest, len(bl), what)
				return
			}
		}
		if dur < 1<<31 {
			for _, b := range bl {
				t, t0 := byPos[rank[string(b.Data)]].Timestamp, byPos[rank[string(bl[0].Data)]].Timestamp
				want := float64(t-t0) / 48
				if d := float64(b.Time-bl[0].Time) - want; d > 1 || d < -1 {
					fail("packet %d is recorded at %d ms, by the duration of the audio it should be %.1f [%s]", rank[string(b.Data)], b.Time-bl[0].Time, want, what)
					return
				}
			}
		}
	}
}

func checkD05(h *hist) {
	if !h.v.audio {
		return
	}
	var want, got []int
	for i, a := range h.aud {
		if h.audOn[i] {
			_, k := audioTS(h.audAll, a.Payload)
			want = append(want, k)
		}
	}
	for _, b := range h.blocks(2) {
		_, k := audioTS(h.audAll, b.Data)
		got = append(got, k)
	}
	if fmt.Sprint(want) != fmt.Sprint(got) {
		h.bad("audio packets %v are recorded, %v were delivered since the recording had started", got, want)
	}
}

func d05() *mc.Property {
	return &mc.Property{ID: "D05", Assumptions: assumeD,
		Bounds: func(th bool) string {
			return fmt.Sprintf("audio alone: all patterns of up to %d losses (1 packet, 3, and around the size of the queue), delays and repetitions on %d packets, short and long queues; payloads of 1 to 9000 bytes; one disturbance at regular intervals; mixed: as D03 with audio after every frame", bnd(th, 2, 3), bnd(th, 8, 9))
		},
		Scenarios: func(th bool) []mc.Scenario {
			n := bnd(th, 8, 9)
			b := bnd(th, 2, 3)
			av := []variant{
				vary("audio", func(v *variant) { v.audio = true }),
				vary("audio wrap and copy", func(v *variant) {
					v.audio, v.ivf, v.seq, v.ts, v.pic, v.step = true, true, 65533, 1<<32-4000, 1, 1800
				}),
				vary("audio, slow video", func(v *variant) { v.audio, v.step = true, 50000 }),
			}
			return []mc.Scenario{
				seq("D05/audio alone, losses", audioOnly(n, []string{"", "lost", "lost3", "burst"}, b, 0)),
				seq("D05/audio alone, losses, continued", audioOnly(n, []string{"", "lost", "lost3", "burst"}, b, 40)),
				seq("D05/audio alone, reordered", audioOnly(n, []string{"", "lost", "late1", "late3", "again2"}, b, 6)),
				d05sizes(bnd(th, 3, 4)),
				seq("D05/mixed", dopt{shape: shapes(bnd(th, 4, 5), "K1", "K2", "d1", "d2"), vars: av, fates: fatesLoss, budget: 1, check: checkD05}.run),
				lasting("D05/mixed, over and over", dopt{shape: repeated("K1", "d1", "d2", "X1", "c1"), vars: av, fates: fatesAll, regular: true, check: checkD05}.run),
				seq("D05/mixed, long", dopt{shape: fixed(longShapes...), vars: av, fates: fatesLoss, budget: b, check: checkD05}.run),
				conc("D05/both tracks at once", bnd(th, 2, 3), vsched.PkgRecorder, func() {
					h := &hist{v: vary("audio", func(v *variant) { v.audio = true })}
					h.rec = newRec(h.v, true, true, nil)
					h.path = h.rec.GetFilePath()
					h.stream([]string{"K1", "d1", "d1"})
					h.rec.PushVideo(h.pkts[0].p)
					done := 0
					vsched.GoEnv("audio reader", func() {
						for i := 0; i < 3; i++ {
							a := lib.Opus(uint16(i), uint32(i)*960, i)
							h.audAll = append(h.audAll, a)
							h.aud = append(h.aud, a)
							h.audOn = append(h.audOn, true)
							h.rec.PushAudio(a.Clone())
						}
						done++
					})
					vsched.GoEnv("video reader", func() {
						for _, k := range h.pkts[1:] {
							h.rec.PushVideo(k.p)
						}
						done++
					})
					vsched.Block("readers", func() bool { return done == 2 })
					h.rec.Close()
					settle()
					h.open()
					checkD05(h)
					if got := h.video(); fmt.Sprint(got) != "[0 1 2]" {
						h.bad("recorded frames %v", got)
					}
				}),
			}
		}}
}

// ---------------------------------------------------------------------
// D06, D10

// fileOps are the operations on the recording.
func (h *hist) fileOps() []vos.Op {
	var r []vos.Op
	for _, o := range vos.Disk().Ops {
		if o.Path == h.path {
			r = append(r, o)
		}
	}
	return r
}

func checkOps(h *hist) {
	opened, closed := 0, 0
	var size int64
	for i, o := range h.fileOps() {
		switch o.Kind {
		case "create", "open":
			if opened++; opened > 1 {
				h.bad("the recording is opened again after %d bytes were written", size)
				return
			}
		case "trunc":
			if size > 0 {
				h.bad("the recording is truncated after %d bytes were written", size)
				return
			}
		case "write":
			if closed > 0 {
				h.bad("the recording is written after it was closed")
				return
			}
			if o.Off != size {
				h.bad("operation %d on the recording writes at %d, its end is at %d", i, o.Off, size)
				return
			}
			size += int64(len(o.Data))
		case "close":
			closed++
		default:
			h.bad("the recording is subject to a %s after %d bytes", o.Kind, size)
			return
		}
	}
}

func checkD06(h *hist) {
	checkOps(h)
	if got := h.video(); fmt.Sprint(got) != fmt.Sprint(h.got) {
		h.bad("frames %v are in the final file, %v had been recorded", got, h.got)
	}
}

// ivfKept: the copy is opened once too and never shrinks.
func checkCopyOps(h *hist) {
	p := ivfOf(h.path)
	opened := 0
	var size int64
	for _, o := range vos.Disk().Ops {
		if o.Path != p {
			continue
		}
		switch o.Kind {
		case "create", "open":
			if opened++; opened > 1 {
				h.bad("the copy is opened again after %d bytes were written", size)
				return
			}
		case "trunc":
			if size > 0 {
				h.bad("the copy is truncated after %d bytes were written", size)
				return
			}
		case "write":
			if e := o.Off + int64(len(o.Data)); e > size {
				size = e
			}
		}
	}
}

func d06() *mc.Property {
	check := func(h *hist) { checkD06(h); checkCopyOps(h) }
	return &mc.Property{ID: "D06", Assumptions: assumeD,
		Bounds: func(th bool) string {
			return "as D03; a silent second track for up to 300 frames; a track announced after the first recorded frame (known finding)"
		},
		Scenarios: func(th bool) []mc.Scenario {
			n := bnd(th, 4, 5)
			longSilent := vary("silent audio", func(v *variant) { v.silent, v.vq, v.dims = true, 4, true })
			longAudio := vary("audio", func(v *variant) { v.audio, v.vq, v.dims, v.ivf = true, 4, true, true })
			return []mc.Scenario{
				seq("D06/every stream, one disturbance", dopt{shape: shapes(n, "K1", "K2", "d1", "d2"), vars: variantsAll, fates: fatesLoss, budget: 1, check: check}.run),
				seq("D06/long streams, two disturbances", dopt{shape: fixed(longShapes...), vars: variantsAll, fates: fatesLoss, budget: bnd(th, 2, 3), check: check}.run),
				seq("D06/silent second track", dopt{shape: fixed(longShapes...), vars: []variant{longSilent, longAudio, variantsAll[len(variantsAll)-1]}, fates: fatesLoss, budget: 1, fill: 300, check: check}.run),
				seq("D06/announcements", func() {
					// Announcing a track that is known already changes nothing.
					h := &hist{v: plain, cur: -1}
					h.rec = newRec(h.v, true, true, h)
					h.v.audio = true
					h.path = h.rec.GetFilePath()
					h.stream([]string{"K1", "d1", "K1", "d1", "K2"})
					for i, k := range h.pkts {
						switch vsched.Choose(4, "announcement") {
						case 1:
							h.rec.SetHasAudio(true)
						case 2:
							h.rec.SetHasVideo(true)
						case 3:
							h.rec.WithContext(nil2ctx())
						}
						h.model(k)
						h.rec.PushVideo(k.p)
						a := lib.Opus(uint16(i), uint32(i)*960, i)
						h.audAll = append(h.audAll, a)
						h.rec.PushAudio(a)
					}
					h.rec.Close()
					settle()
					h.open()
					check(h)
				}),
				seq("D06/late track", func() {
					h := &hist{v: plain, cur: -1}
					first := vsched.Choose(2, "first track") == 0 // video
					h.rec = newRec(h.v, first, !first, h)
					h.path = h.rec.GetFilePath()
					h.stream([]string{"K1", "d1", "K1", "d1", "K1", "d1"})
					at := 1 + vsched.Choose(4, "late track announced")
					for i, k := range h.pkts {
						if i == at {
							h.rec.SetHasVideo(true)
							h.rec.SetHasAudio(true)
						}
						if first || i >= at {
							h.model(k)
							h.rec.PushVideo(k.p)
						}
						if !first || i >= at {
							a := lib.Opus(uint16(i), uint32(i)*960, i)
							h.audAll = append(h.audAll, a)
							h.rec.PushAudio(a)
						}
					}
					h.rec.Close()
					settle()
					h.open()
					check(h)
				}),
			}
		}}
}

func checkD10(h *hist) {
	checkOps(h)
	n := vos.Disk().Nodes[h.path]
	if n == nil || h.w == nil {
		return
	}
	for cut := 0; cut <= len(n.Data); cut++ {
		w, err := lib.ParseWebM(n.Data[:cut], true)
		if err != nil {
			h.bad("after a crash with %d of %d bytes written the file is not readable: %v", cut, len(n.Data), err)
			return
		}
		whole := 0
		for _, b := range h.w.Blocks {
			if b.End <= cut {
				whole++
			}
		}
		if len(w.Blocks) != whole {
			h.bad("after a crash with %d of %d bytes written %d blocks can be read, %d were written completely", cut, len(n.Data), len(w.Blocks), whole)
			return
		}
		if cut >= h.w.HeaderOK && len(w.Tracks) != len(h.w.Tracks) {
			h.bad("after a crash with %d of %d bytes written the tracks are not readable", cut, len(n.Data))
			return
		}
		for i, b := range w.Blocks {
			f := h.w.Blocks[i]
			if b.Track != f.Track || b.Time != f.Time || b.Key != f.Key || !bytes.Equal(b.Data, f.Data) {
				h.bad("after a crash with %d of %d bytes written block %d reads differently", cut, len(n.Data), i)
				return
			}
		}
	}
}

// onDisk: with a single track every frame is on disk once it is complete.
func onDisk(h *hist) {
	if h.v.audio || h.v.silent || h.v.builtin {
		return
	}
	settle()
	k := 0
	if n := vos.Disk().Nodes[h.path]; n != nil {
		w, err := lib.ParseWebM(n.Data, true)
		if err != nil {
			h.bad("while recording the file is not readable: %v", err)
			return
		}
		k = len(w.Blocks)
	}
	if k != len(h.got) {
		h.bad("%d frames are on disk while recording, %d have been complete", k, len(h.got))
	}
}

func d10() *mc.Property {
	return &mc.Property{ID: "D10", Assumptions: append(append([]string{}, assumeD...), "a crash preserves completed writes in order, the last one up to any byte"),
		Bounds: func(th bool) string {
			return fmt.Sprintf("every crash point, to the byte, of all streams of %d frames with %d losses, of longer ones with %d, of %d frames and malformed packets, with and without audio and copy", bnd(th, 4, 5), bnd(th, 1, 2), bnd(th, 2, 3), bnd(th, 3, 4))
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{
				seq("D10/every stream, one loss", dopt{shape: shapes(bnd(th, 4, 5), "K1", "K2", "d1", "d2"), vars: variantsAll, fates: []string{"", "lost", "lost+told"}, budget: bnd(th, 1, 2), each: onDisk, check: checkD10}.run),
				seq("D10/long streams, two losses", dopt{shape: fixed(longShapes...), vars: variantsAll, fates: []string{"", "lost", "lost+told"}, budget: bnd(th, 2, 3), each: onDisk, check: checkD10}.run),
				lasting("D10/the same over and over", dopt{shape: repeated("K1", "d2", "X1", "c1"), vars: variantsAgain, fates: []string{"", "lost"}, regular: true, each: onDisk, check: checkD10}.run),
				seq("D10/odd streams", dopt{shape: shapes(bnd(th, 3, 4), oddKinds...), vars: append(append([]variant{}, variantsOdd...), variantsAll[4], variantsAll[7]), fates: []string{"", "lost"}, budget: 1, each: onDisk, check: checkD10}.run),
				seq("D10/audio alone", func() {
					rec := newRec(plain, false, true, nil)
					n := 0
					for i := 0; i < 8; i++ {
						if vsched.Choose(2, "lost") == 1 && i > 0 {
							break
						}
						rec.PushAudio(lib.Opus(uint16(i), uint32(i)*960, i))
						n++
						settle()
						f := vos.Disk().Nodes[rec.GetFilePath()]
						if f == nil {
							fail("no file after %d audio packets", n)
							return
						}
						w, err := lib.ParseWebM(f.Data, true)
						if err != nil || len(w.Blocks) != n {
							fail("%d audio packets have been received, on disk are %d: %v", n, len(w.Blocks), err)
							return
						}
					}
					rec.Close()
					settle()
					h := &hist{v: vary("audio alone", func(*variant) {}), rec: rec, path: rec.GetFilePath()}
					h.open()
					checkD10(h)
				}),
			}
		}}
}

// ---------------------------------------------------------------------
// D08

// validAfter sends valid media and requires it to be recorded.
func validAfter(rec recorder.Recorder, v variant, next uint16, aseq uint16, what func() string) {
	h := &hist{v: v, cur: -1, rec: rec, path: rec.GetFilePath()}
	h.v.seq, h.v.ts = next, 5000000
	n := 3
	if v.builtin {
		n = 12
	}
	kinds := []string{}
	for i := 0; i < n; i++ {
		kinds = append(kinds, []string{"K1", "d1", "K2"}[i%3])
	}
	if v.builtin {
		for i := range kinds {
			kinds[i] = "K1"
		}
	}
	h.stream(kinds)
	for i, k := range h.pkts {
		rec.PushVideo(k.p)
		if v.audio && !v.builtin {
			rec.PushAudio(lib.Opus(aseq+uint16(i), 7000000+uint32(i)*960, 40+i))
		}
	}
	rec.Close()
	rec.Close()
	settle()
	f := vos.Disk().Nodes[h.path]
	if f == nil {
		fail("valid media is not recorded after %s", what())
		return
	}
	w, err := lib.ParseWebM(f.Data, false)
	if err != nil {
		fail("the recording is not well-formed after %s: %v", what(), err)
		return
	}
	h.w = w
	got := 0
	for _, i := range h.video() {
		if i >= 0 {
			got++
		}
	}
	if !v.builtin && got < n || got == 0 {
		fail("of %d valid frames %d are recorded after %s", n, got, what())
	}
	if v.audio && !v.builtin {
		k := 0
		for _, b := range w.Of(2) {
			if len(b.Data) == 8 && b.Data[1] >= 40 {
				k++
			}
		}
		if k < len(h.pkts)-1 {
			fail("of %d valid audio packets %d are recorded after %s", len(h.pkts), k, what())
		}
	}
}

type hostile struct {
	pl     []byte
	marker bool
	dseq   int
	dts    uint32
}

func hostiles() []hostile {
	long := func(b ...byte) []byte { return append(b, make([]byte, 24-len(b))...) }
	kf := func(w, h byte) []byte {
		return []byte{0x10, 0x10, 1, 2, 0x9d, 1, 0x2a, w, 0, h, 0, 9, 9}
	}
	r := []hostile{
		{pl: nil}, {pl: []byte{0x10}}, {pl: []byte{0x90}}, {pl: []byte{0x90, 0xf0}}, {pl: []byte{0x90, 0x80, 0x80}},
		{pl: []byte{0x10, 0x10}}, {pl: []byte{0x10, 0x11}}, {pl: long(0x00)}, {pl: long(0x13, 0x10)}, {pl: long(0xff, 0xff, 0xff, 0xff, 0xff)},
		{pl: kf(0, 0)}, {pl: kf(255, 255)}, {pl: kf(64, 48)}, {pl: kf(64, 48)[:9]},
		{pl: long(0x10, 0x11)},
		{pl: long(0x90, 0x80, 0x83, 0xff, 0x11)},
	}
	n := len(r)
	for i := 0; i < n; i++ {
		m := r[i]
		m.marker = true
		r = append(r, m)
	}
	for _, d := range []int{0, 2, 6, -1, 1000, -1000, 0x7fff, 0x8000} {
		r = append(r, hostile{pl: kf(64, 48), marker: true, dseq: d}, hostile{pl: []byte{0x90}, dseq: d, dts: 1 << 31})
	}
	return r
}

func (x hostile) String() string {
	return fmt.Sprintf("[% x] marker=%v seq%+d ts%+d", x.pl, x.marker, 1+x.dseq, x.dts)
}

func d08() *mc.Property {
	return &mc.Property{ID: "D08", Assumptions: assumeD[:1],
		Bounds: func(th bool) string {
			return fmt.Sprintf("every first descriptor byte x second byte (%d values) x third (%d) x lengths 0 to %d x marker, before, between and inside frames, both assemblies; all sequences of %d out of %d hostile packets; hostile audio likewise; media racing with Close at deviation bound %d",
				bnd(th, 16, 256), bnd(th, 2, 4), bnd(th, 7, 14), bnd(th, 2, 3), len(hostiles()), bnd(th, 2, 3))
		},
		Scenarios: func(th bool) []mc.Scenario {
			hs := hostiles()
			var near []hostile // the sample builder takes large steps back for late packets
			for _, x := range hs {
				if x.dseq >= -1 && x.dseq <= 1000 {
					near = append(near, x)
				}
			}
			one := func(builtin bool) func() {
				return func() {
					v := plain
					if builtin {
						v.builtin, v.vq = true, 4
					}
					b0 := byte(vsched.Choose(256, "byte 0"))
					var b1 byte
					if th {
						b1 = byte(vsched.Choose(256, "byte 1"))
					} else {
						b1 = byte(vsched.Choose(16, "byte 1")) << 4
					}
					state := vsched.Choose(3, "state")
					// The rest is a plain loop: one execution covers it.
					b2s := []byte{0x00, 0x81}
					maxLen := 7
					if th {
						b2s, maxLen = []byte{0x00, 0x7f, 0x81, 0xff}, 14
					}
					for _, b2 := range b2s {
						for n := 0; n <= maxLen; n++ {
							for _, marker := range []bool{false, true} {
								vos.Disk().Nodes = nil
								vos.Disk().Nodes = map[string]*vos.Inode{}
								vos.Disk().Ops = nil
								h := &hist{v: v, cur: -1}
								h.rec = newRec(v, true, false, h)
								h.stream([]string{"K1", "d2"})
								k := []int{0, 1, 2}[state]
								for _, q := range h.pkts[:k] {
									h.rec.PushVideo(q.p)
								}
								pl := append([]byte{b0, b1, b2}, 0x10, 0x11, 0x90, 0, 1, 2, 3, 4, 5, 6, 7)[:n]
								p := &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: v.seq + uint16(k), Timestamp: 95000, Marker: marker}, Payload: pl}
								h.rec.PushVideo(p)
								validAfter(h.rec, v, v.seq+uint16(k)+1, 0, func() string {
									return fmt.Sprintf("payload [% x] marker=%v following %d packets (builtin=%v)", pl, marker, k, builtin)
								})
							}
						}
					}
				}
			}
			many := func(builtin bool) func() {
				return func() {
					v := plain
					v.audio, v.ivf = true, true
					if builtin {
						v.builtin, v.vq, v.audio = true, 4, false
					}
					h := &hist{v: v, cur: -1}
					h.rec = newRec(v, true, v.audio, h)
					next := v.seq
					var did []string
					n := bnd(th, 2, 3)
					hs := hs
					if builtin {
						hs = near
					}
					pre := vsched.Choose(2, "keyframe before")
					if pre == 1 {
						h.stream([]string{"K1"})
						h.rec.PushVideo(h.pkts[0].p)
						next++
					}
					ts := uint32(95000)
					started := pre == 1
					for i := 0; i < n; i++ {
						x := hs[vsched.Choose(len(hs), "packet")]
						did = append(did, x.String())
						ts += 3000 + x.dts
						s := next + uint16(x.dseq)
						h.rec.PushVideo(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: s, Timestamp: ts, Marker: x.marker}, Payload: x.pl})
						if !started || next-s > v.vq || next == s {
							next = s + 1
						}
						started = true
					}
					if builtin {
						next += 500 // beyond what the sample builder may wait for
					}
					validAfter(h.rec, v, next, 600, func() string {
						return fmt.Sprintf("packets %v (keyframe before=%v, builtin=%v)", did, pre == 1, builtin)
					})
				}
			}
			return []mc.Scenario{
				seq("D08/every descriptor", one(false)),
				seq("D08/every descriptor, builtin", one(true)),
				seq("D08/hostile sequences", many(false)),
				seq("D08/hostile sequences, builtin", many(true)),
				seq("D08/hostile audio", func() {
					v := plain
					v.audio = true
					h := &hist{v: v, cur: -1}
					video := vsched.Choose(2, "video too") == 1
					h.rec = newRec(v, video, true, h)
					if video {
						h.stream([]string{"K1"})
						h.rec.PushVideo(h.pkts[0].p)
					}
					var did []string
					next, ts := uint16(65534), uint32(100)
					for i := 0; i < bnd(th, 2, 3); i++ {
						pl := [][]byte{nil, {}, {0}, {0xff}, {0x78, 200, 9, 2, 3, 4, 5, 6}, make([]byte, 1500)}[vsched.Choose(6, "payload")]
						d := []int{0, -1, 1, 62, 1000, 0x8000}[vsched.Choose(6, "number")]
						dt := []uint32{960, 0, 1 << 31, 1<<32 - 1}[vsched.Choose(4, "time")]
						did = append(did, fmt.Sprintf("[% x] seq%+d ts%+d", pl[:min(len(pl), 8)], d+1, dt))
						next += uint16(d)
						ts += dt
						h.rec.PushAudio(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: next, Timestamp: ts}, Payload: pl})
						next++
					}
					// Valid audio, far enough on to leave every queue behind.
					next += 200
					for i := 0; i < 40; i++ {
						h.rec.PushAudio(lib.Opus(next+uint16(i), ts+192000+uint32(i)*960, 300+i))
					}
					h.rec.Close()
					h.rec.Close()
					settle()
					w, err := file(h.rec.GetFilePath())
					if err != nil {
						fail("no well-formed recording after %v: %v", did, err)
						return
					}
					k := 0
					for _, b := range w.Of(2) {
						if len(b.Data) == 8 && b.Data[2] == 1 {
							k++
						}
					}
					if k < 8 { // the others may have been taken for late ones
						fail("of 40 valid audio packets %d are recorded after %v", k, did)
					}
				}),
				conc("D08/closing races with media", bnd(th, 2, 3), vsched.PkgRecorder, func() {
					v := plain
					v.audio, v.ivf, v.builtin = true, true, vsched.Choose(2, "builtin") == 1
					only := pick("kinds", "both", "audio only", "video only")
					v.ivf = only != "audio only"
					h := &hist{v: v, cur: -1}
					h.rec = newRec(v, only != "audio only", only != "video only", h)
					h.path = h.rec.GetFilePath()
					h.stream([]string{"K1", "d1", "K2"})
					done := 0
					vsched.GoEnv("video reader", func() {
						for _, k := range h.pkts {
							h.rec.PushVideo(k.p)
						}
						h.rec.NotifySkippedPacket(200)
						done++
					})
					vsched.GoEnv("audio reader", func() {
						for i := 0; i < 2; i++ {
							h.rec.PushAudio(lib.Opus(uint16(i), uint32(i)*960, i))
						}
						done++
					})
					vsched.GoEnv("closer", func() {
						h.rec.Close()
						done++
					})
					h.rec.Close()
					ops := len(h.fileOps())
					if n := vos.Disk().Nodes[h.path]; n != nil && n.Opens != 0 {
						fail("the file is open after closing")
					}
					defer func() {
						if l := h.fileOps(); len(l) > ops {
							fail("a %s of the file after it was closed", l[ops].Kind)
						}
					}()
					vsched.Block("everybody", func() bool { return done == 3 })
					settle()
					h.open()
				}),
			}
		}}
}

// ---------------------------------------------------------------------
// D09

func checkD09(h *hist) {
	for i, t := range h.reqs {
		if i > 0 && t-h.reqs[i-1] < time.Second {
			h.bad("keyframes are requested at %v and %v", h.reqs[i-1], t)
			return
		}
	}
	for i, t := range h.needs {
		ok := false
		for _, r := range h.reqs {
			if r <= t && t-r <= time.Second {
				ok = true
			}
		}
		if !ok {
			h.bad("no keyframe is requested at %v although %s; requests %v", t, h.why[i], h.reqs)
			return
		}
	}
	pauses := 0
	for _, f := range h.fates {
		if strings.HasPrefix(f, "pause") {
			pauses++
		}
	}
	if len(h.needs) == 0 && len(h.reqs) > 0 && pauses < 2 {
		h.bad("keyframes are requested at %v without a reason", h.reqs)
	}
}

// plis are the times at which a track's sender was asked for a keyframe.
func plis(pc *vpion.PeerConnection, ssrc uint32, others ...uint32) []time.Duration {
	var r []time.Duration
	for _, x := range pc.RTCP {
		for _, p := range x.Pkts {
			if l, ok := p.(*rtcp.PictureLossIndication); ok {
				if slices.Contains(others, l.MediaSSRC) {
					continue
				}
				if l.MediaSSRC != ssrc {
					fail("a keyframe is requested of SSRC %d, the only video track is %d", l.MediaSSRC, ssrc)
				}
				r = append(r, x.At)
			}
		}
	}
	return r
}

// longer gives a scenario more virtual time.
func longer(d time.Duration, s mc.Scenario) mc.Scenario {
	s.Opt.Horizon = d
	return s
}

func d09() *mc.Property {
	return &mc.Property{ID: "D09", Assumptions: assumeD,
		Bounds: func(th bool) string {
			return fmt.Sprintf("all streams of %d frames with %d losses and pauses of 0.4 and 1.1 s; 64 pairs of frames and a disturbance over and over; 10 s to 15 min of a service session with silent, flowing and lossy video; two video tracks", bnd(th, 5, 6), bnd(th, 2, 3))
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{
				seq("D09/every stream", dopt{shape: shapes(bnd(th, 5, 6), "K1", "d1", "d2"), vars: []variant{plain, variantsAll[1]}, fates: fatesTimes, budget: 2, check: checkD09}.run),
				seq("D09/long streams", dopt{shape: fixed(append([]string{"d1 d1 d1 d1 d1 d1", "d2 d1 K2 d1 d1 d1 d1 K1"}, longShapes...)...), vars: []variant{plain, variantsAll[3]}, fates: fatesTimes, budget: bnd(th, 3, 4), check: checkD09}.run),
				seq("D09/odd streams", dopt{shape: shapes(bnd(th, 4, 5), oddKinds...), vars: variantsOdd[:2], fates: []string{"", "pause 1.1s"}, budget: 1, check: checkD09}.run),
				lasting("D09/the same over and over", dopt{shape: repeated("K1", "d1", "d2", "P2", "s1", "X1", "u1", "c1"), vars: variantsAgain, fates: fatesTimes, regular: true, check: checkD09}.run),
				longer(30*time.Minute, seq("D09/periodically", func() {
					w := lib.Start(nil)
					kinds := []string{"video"}
					if flip("audio too") {
						kinds = append(kinds, "audio")
					}
					w.Do(lib.StartMS("a", "a.webm", kinds...))
					pc := lib.LastPC()
					s := video(pc, 1111)
					if len(kinds) == 2 {
						audio(pc, 2222)
					}
					mode := pick("media", "silent", "key then silent", "flowing", "no keyframes", "lossy", "reordered")
					t0 := vsched.Now()
					length := pickD("length", 10*time.Second, 100*time.Second, 15*time.Minute)
					end := t0 + length
					if mode == "silent" {
						s.t.Push(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: 99, SSRC: 1111}})
					}
					for i := 0; vsched.Now() < end; i++ {
						switch {
						case mode == "key then silent" && i == 0, mode == "flowing":
							s.frame(i%10 == 0)
						case mode == "no keyframes":
							s.frame(false)
						case mode == "lossy":
							if i%7 == 3 {
								s.seq++
							}
							s.frame(i%10 == 0)
						case mode == "reordered":
							s.frame(i%10 == 0)
							if i%9 == 5 {
								s.t.Push(s.log[len(s.log)-2])
							}
						}
						sleep(100 * ms)
					}
					ts := plis(pc, 1111)
					last := t0
					for _, t := range append(ts, end) {
						if t-last > 3500*ms {
							fail("no keyframe is requested between %v and %v while the track is live (%s)", last, t, mode)
							return
						}
						last = t
					}
					if mode == "no keyframes" && len(ts) < int(length/time.Second)-2 {
						fail("media without a keyframe for %v leads to requests at %v", length, ts)
					}
					w.Do(lib.Stop("a"))
					n := len(plis(pc, 1111))
					sleep(10 * time.Second)
					if len(plis(pc, 1111)) != n {
						fail("keyframes are requested after the session has ended")
					}
				})),
				seq("D09/two video tracks", func() {
					w := lib.Start(nil)
					w.Do(lib.StartMS("a", "a.webm", "video", "video"))
					pc := lib.LastPC()
					s := []*src{video(pc, 1111), video(pc, 1112)}
					mode := pick("media", "silent", "no keyframes", "no keyframes, first track only", "no keyframes, second track only")
					late := pickD("second track after", 0, 500*ms, 1700*ms)
					t0 := vsched.Now()
					end := t0 + 10*time.Second
					started := [2]time.Duration{}
					for i := 0; vsched.Now() < end; i++ {
						for k := range s {
							if k == 1 && vsched.Now()-t0 < late {
								continue
							}
							if started[k] == 0 {
								started[k] = vsched.Now()
								s[k].t.Push(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: 99, SSRC: uint32(1111 + k)}})
							}
							if mode == "no keyframes" || mode == "no keyframes, first track only" && k == 0 || mode == "no keyframes, second track only" && k == 1 {
								s[k].frame(false)
							}
						}
						sleep(100 * ms)
					}
					for k := range s {
						ts := plis(pc, uint32(1111+k), uint32(1112-k))
						last := started[k]
						for _, t := range append(ts, end) {
							if t-last > 3500*ms {
								fail("no keyframe is requested of video track %d between %v and %v while it is live (%s)", k, last, t, mode)
								return
							}
							last = t
						}
						if mode != "silent" && len(ts) < 7 {
							fail("media without a keyframe for 10 s leads to requests of video track %d at %v (%s)", k, ts, mode)
						}
					}
					w.Do(lib.Stop("a"))
					settle()
				}),
			}
		}}
}

// ---------------------------------------------------------------------
// D11

func d11() *mc.Property {
	body := func(live func() bool, th bool) func() {
		return func() {
			ivf := flip("copy")
			twoTracks := flip("two tracks")
			w := lib.Start(func(c *config.Config) { c.Recorder.WriteIVFCopy = ivf })
			d := vos.Disk()
			mode := pick("failure", "now and then", "for good", "partly, for good")
			failed := ""
			var hurt string
			hits, again := 0, bnd(th, 2, 3)
			armed := true
			main := false // the recording itself was hurt
			fail_ := func(kind, p string) error {
				if !strings.HasPrefix(p, lib.Dir+"/a.") || kind == "stat" || !armed {
					return nil
				}
				if failed == "" {
					hits++
					if hits > bnd(th, 60, 200) || vsched.Choose(2, "fails "+kind) == 0 {
						return nil
					}
					failed = kind
					hurt = p
				} else if mode == "now and then" {
					if hits++; again == 0 || hits > bnd(th, 60, 200) || vsched.Choose(2, "fails again "+kind) == 0 {
						return nil
					}
					again--
					failed += "+" + kind
					if !strings.Contains(hurt, p) {
						hurt += "," + p
					}
				} else if p != hurt {
					return nil
				}
				if mode == "partly, for good" && kind == "write" {
					return vos.Short(1)
				}
				return errors.New("no space left on device")
			}
			d.Fail = func(kind, p string) error {
				err := fail_(kind, p)
				if err != nil && strings.HasSuffix(p, ".webm") && kind != "close" {
					main = true
				}
				return err
			}
			kinds := []string{"video"}
			if twoTracks {
				kinds = append(kinds, "audio")
			}
			w.Do(lib.StartMS("a", "a.webm", kinds...))
			pa := lib.LastPC()
			w.Do(lib.StartMS("b", "b.webm", "video"))
			pb := lib.LastPC()
			va, vb := video(pa, 1111), video(pb, 3333)
			var aa *src
			if twoTracks {
				aa = audio(pa, 2222)
				aa.frame(false)
				settle()
			}
			for i := 0; i < 6; i++ {
				va.frame(i%3 == 0)
				vb.frame(i%3 == 0)
				if aa != nil {
					aa.frame(false)
				}
				sleep(20 * ms)
			}
			var before []byte
			if n := d.Nodes[lib.Dir+"/a.webm"]; n != nil {
				before = append(before, n.Data...)
			}
			w.Alive()
			w.Do(lib.Stop("a"))
			sleep(2 * time.Second)
			checkOnce(w, "a", false)
			armed = false
			for i := 0; i < 3; i++ {
				vb.frame(i == 0)
				sleep(20 * ms)
			}
			// The id and the service stay usable.
			w.Do(lib.StartMS("a", "c.webm", "video"))
			if ok, e := w.OK("a"); !ok {
				fail("after a storage failure (%s %s) a new session is refused: %s", failed, hurt, e)
			}
			vc := video(lib.LastPC(), 5555)
			vc.frame(true)
			sleep(20 * ms)
			w.Do(lib.Stop("a"))
			w.Do(lib.Stop("b"))
			sleep(2 * time.Second)
			checkOnce(w, "b", false)
			for p, n := range map[string]int{"/b.webm": 9, "/c.webm": 1} {
				f, err := file(lib.Dir + p)
				if err != nil {
					fail("after a storage failure (%s %s) of another session: %v", failed, hurt, err)
					return
				}
				if len(f.Blocks) != n {
					fail("after a storage failure (%s %s) %s has %d of %d frames", failed, hurt, p, len(f.Blocks), n)
				}
			}
			n := d.Nodes[lib.Dir+"/a.webm"]
			if before != nil && (n == nil || !bytes.HasPrefix(n.Data, before)) {
				fail("what had been written before a storage failure (%s %s) is gone", failed, hurt)
			}
			if n != nil && n.Opens != 0 {
				fail("the recording is still open after a storage failure (%s %s)", failed, hurt)
			}
			if n != nil {
				if _, err := lib.ParseWebM(n.Data, true); err != nil {
					fail("after a storage failure (%s %s) the recording is not readable: %v", failed, hurt, err)
				}
			}
			if !main {
				f, err := file(lib.Dir + "/a.webm")
				if err != nil {
					fail("after a failure of its copy (%s %s): %v", failed, hurt, err)
				} else if len(f.Of(1)) != 6 {
					fail("after a failure of its copy (%s %s) the recording has %d of 6 frames", failed, hurt, len(f.Of(1)))
				}
			}
			vsched.SetOutcome(failed + hurt + mode)
		}
	}
	return &mc.Property{ID: "D11", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprintf("any of the first %d file operations of a session fails once, %d times at any points, for good, or after one byte, with and without the IVF copy and audio, next to an undisturbed session", bnd(th, 60, 200), bnd(th, 3, 4))
		},
		Scenarios: func(th bool) []mc.Scenario {
			lkBody := func() {
				w := lib.Start(nil)
				lkRoom("V1", "A1")
				d := vos.Disk()
				mode := pick("failure", "once", "for good", "partly, for good")
				failed := ""
				d.Fail = func(kind, p string) error {
					if p != lib.Dir+"/a.webm" || kind == "stat" {
						return nil
					}
					if failed == "" {
						if vsched.Choose(2, "fails "+kind) == 0 {
							return nil
						}
						failed = kind
					} else if mode == "once" {
						return nil
					}
					if mode == "partly, for good" && kind == "write" {
						return vos.Short(3)
					}
					return errors.New("no space left on device")
				}
				w.Do(lib.StartLK("a", "a.webm", "room", "V1", "A1"))
				r := lastRoom()
				a, v := lkTrack(r, "A1", 2222), lkTrack(r, "V1", 1111)
				for i := 0; i < 4; i++ {
					a.frame(false)
					v.frame(i == 0)
					sleep(20 * ms)
				}
				w.Alive()
				w.Do(lib.Stop("a"))
				sleep(2 * time.Second)
				checkOnce(w, "a", false)
				if n := d.Nodes[lib.Dir+"/a.webm"]; n != nil && n.Opens != 0 {
					fail("the recording is still open after a storage failure (%s)", failed)
				}
				w.Alive()
				vsched.SetOutcome(failed + mode)
			}
			return []mc.Scenario{
				seq("D11/mediasoup", body(nil, th)),
				seq("D11/livekit", lkBody),
			}
		}}
}

func init() {
	mc.Register(d05())
	mc.Register(d06())
	mc.Register(d08())
	mc.Register(d09())
	mc.Register(d10())
	mc.Register(d11())
}
