package props

import (
	"fmt"
	"sort"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	"github.com/livekit/server-sdk-go/v2/pkg/jitter"
	"github.com/pion/rtp"
	"github.com/pion/rtp/codecs"
)

// ---------------------------------------------------------------------
// L04: what the network does to the packets of LiveKit tracks

// lkNetwork explores what happens to the packets of a video track on the way:
// the buffer of the adapter restores their order, and what arrived is recorded
// as by the reference assembly. (Repeated packets do not get past SRTP.)
func lkNetwork(n, budget int, streams func() []string) func() {
	return func() {
		h := &hist{cur: -1}
		h.v = []variant{plain, vary("wrap", func(v *variant) { v.seq, v.ts, v.pic = 65533, 1<<32-4000, 1 })}[vsched.Choose(2, "variant")]
		kinds := append([]string{"K1"}, streams()...)
		for i := 0; i < 14; i++ {
			kinds = append(kinds, []string{"d1", "K1"}[bnd(i == 8, 0, 1)])
		}
		h.stream(kinds)
		type arr struct {
			at int
			k  pkt
		}
		var arrivals []arr
		left := budget
		for i, k := range h.pkts {
			f := ""
			if left > 0 && i > 0 && (k.f < 0 || k.f <= n) {
				f = []string{"", "lost", "late1", "late3"}[vsched.Choose(4, "fate")]
			}
			h.fates = append(h.fates, f)
			if f != "" {
				left--
			}
			switch f {
			case "":
				arrivals = append(arrivals, arr{i * 100, k})
			case "late1":
				arrivals = append(arrivals, arr{i*100 + 110, k})
			case "late3":
				arrivals = append(arrivals, arr{i*100 + 310, k})
			}
		}
		sort.SliceStable(arrivals, func(i, j int) bool { return arrivals[i].at < arrivals[j].at })
		// What leaves the reordering buffer, with the padding in its place,
		// is recorded as by the reference assembly.
		ref := jitter.NewBuffer(&codecs.VP8Packet{}, 90000, 200*ms)
		pads, next := map[int]pkt{}, -1
		for _, a := range arrivals {
			if len(a.k.p.Payload) == 0 {
				pads[a.k.pos] = a.k
			}
			ref.Push(a.k.p.Clone())
			for _, p := range ref.Pop(false) {
				pos := int(p.SequenceNumber - h.v.seq)
				for ; next >= 0 && next < pos; next++ {
					if k, ok := pads[next]; ok {
						h.model(k)
					}
				}
				for _, k := range h.pkts {
					if k.pos == pos {
						h.model(k)
					}
				}
				next = pos + 1
			}
		}
		lkRoom("V1")
		w := lib.Start(nil)
		w.Do(lib.StartLK("s", "a.webm", "r", "V1"))
		ok, path := w.OK("s")
		if !ok {
			fail("the start failed")
			return
		}
		s := lkTrack(lastRoom(), "V1", 1111)
		settle()
		for _, a := range arrivals {
			s.t.Push(a.k.p.Clone())
			settle()
		}
		w.Do(lib.Stop("s"))
		sleep(1000 * ms)
		h.path = path
		h.open()
		vsched.SetOutcome(fmt.Sprint(h.v.name, h.video()))
		checkD02(h)
		if got := h.video(); fmt.Sprint(got) != fmt.Sprint(h.got) {
			h.bad("recorded frames %v, expected %v", got, h.got)
		}
	}
}

// lkPaddingLater has padding on the way (in its place, late, too late to
// matter, before the first frame), and in some places again or a loss when the
// same numbers come round.
func lkPaddingLater() mc.Scenario {
	s := seq("L04/padding, a cycle later", func() {
		h := &hist{cur: -1}
		h.v = vary("wrap", func(v *variant) { v.seq = 65000 })
		delay := []int{0, 110, 1500}[vsched.Choose(3, "padding is late by")]
		again := pick("a cycle later", "padding", "lost", "frame")
		parts := pick("frames", "d1", "d2")
		burst := []int{1, 3, 150}[vsched.Choose(3, "burst")]
		// from the fifth packet on, a cycle apart
		kinds := []string{"K1", "d1", "d1", "d1"}
		if flip("padding first") {
			kinds = []string{"p", "p", "K1", "d1"}
		}
		for i := 0; i < burst; i++ {
			kinds = append(kinds, "p")
		}
		for n := len(kinds); n < 65536; n++ {
			kinds = append(kinds, []string{"d1", "K1"}[b2i(n%3000 == 300)])
		}
		const back = 65536
		kinds = append(kinds, "d1", "d1", "d1", "d1")
		for i := 0; i < burst; i++ {
			kinds = append(kinds, map[string]string{"padding": "p", "lost": "d1", "frame": "d1"}[again])
		}
		for i := 0; i < 60; i++ {
			kinds = append(kinds, []string{parts, "K1"}[b2i(i == 30)])
		}
		h.stream(kinds)
		h.fates = make([]string, len(h.pkts))
		type arr struct {
			at int
			k  pkt
		}
		var arrivals []arr
		for i, k := range h.pkts {
			at := i * 100
			if len(k.p.Payload) == 0 {
				at += delay
			}
			if again == "lost" && i >= back+4 && i < back+4+burst {
				h.fates[i] = "lost"
				continue
			}
			arrivals = append(arrivals, arr{at, k})
		}
		sort.SliceStable(arrivals, func(i, j int) bool { return arrivals[i].at < arrivals[j].at })
		ref := jitter.NewBuffer(&codecs.VP8Packet{}, 90000, 200*ms)
		pads, next := map[int]pkt{}, -1
		for _, a := range arrivals {
			if len(a.k.p.Payload) == 0 {
				pads[a.k.pos] = a.k
			}
			ref.Push(a.k.p.Clone())
			for _, p := range ref.Pop(false) {
				n := max(next, 0)
				pos := n + int(int16(p.SequenceNumber-h.v.seq-uint16(n)))
				for ; next >= 0 && next < pos; next++ {
					if k, ok := pads[next]; ok {
						h.model(k)
					}
				}
				h.model(h.pkts[pos])
				next = pos + 1
			}
		}
		lkRoom("V1")
		w := lib.Start(nil)
		w.Do(lib.StartLK("s", "a.webm", "r", "V1"))
		ok, path := w.OK("s")
		if !ok {
			fail("the start failed")
			return
		}
		s := lkTrack(lastRoom(), "V1", 1111)
		settle()
		for i, a := range arrivals {
			s.t.Push(a.k.p.Clone())
			settle()
			if i%16 == 0 {
				sleep(ms)
			}
		}
		w.Do(lib.Stop("s"))
		sleep(time.Second)
		h.path = path
		h.open()
		got := h.blocks(1)
		vsched.SetOutcome(fmt.Sprint(len(got)))
		what := fmt.Sprintf("padding late by %d, a cycle later %s, %d in a row, frames %s", delay, again, burst, parts)
		for i := 0; i < max(len(got), len(h.got)); i++ {
			if i >= len(got) || i >= len(h.got) || string(got[i].Data) != string(h.sent[h.got[i]].Data()) {
				fail("recorded frame %d is not the one expected; %d are recorded, %d expected (%s)", i, len(got), len(h.got), what)
				return
			}
		}
	})
	s.Opt.Horizon = 30 * time.Minute
	s.Opt.MaxSteps = 200000000
	return s
}

// lkAudio explores the packets of an audio track on the way, next to a video
// track in the same trouble or alone: everything that arrives while the
// adapter waits for it (200 ms of media) is recorded, in order, once.
func lkAudio(n, budget int, mixed bool) func() {
	return func() {
		seq, ts := uint16(500), uint32(48000)
		if vsched.Choose(2, "wrap") == 1 {
			seq, ts = 65533, 1<<32-2000
		}
		step := uint32([]int{960, 480, 2880}[vsched.Choose(3, "duration")])
		per := int(step / 48) // ms
		type arr struct {
			at int
			p  *rtp.Packet
			v  bool
		}
		var arrivals []arr
		var fates []string
		left := budget
		var want []int
		const tail = 70
		for i := 0; i < n+tail; i++ {
			f := ""
			if left > 0 && i > 0 && i <= n {
				f = []string{"", "lost", "late1", "late3", "late130ms"}[vsched.Choose(5, "fate")]
			}
			if f != "" {
				left--
			}
			if i <= n {
				fates = append(fates, f)
			}
			at := i * per
			switch f {
			case "lost":
				continue
			case "late1":
				at += per + 1
			case "late3":
				at += min(3*per, 130) + 1
			case "late130ms":
				at += 131
			}
			arrivals = append(arrivals, arr{at: at, p: lib.Opus(seq+uint16(i), ts+uint32(i)*step, i+1)})
			want = append(want, i+1)
		}
		sids := []string{"A1"}
		if mixed {
			sids = []string{"V1", "A1"}
		}
		lkRoom(sids...)
		w := lib.Start(nil)
		w.Do(lib.StartLK("s", "a.webm", "r", sids...))
		ok, path := w.OK("s")
		if !ok {
			fail("the start failed")
			return
		}
		var v *src
		var frames []int
		if mixed {
			v = lkTrack(lastRoom(), "V1", 1111)
			settle()
			for i := 0; i*33 < (n+tail)*per; i++ {
				f := lib.Frame{No: i + 1, Key: i%10 == 0, TS: 90000 + uint32(i)*3000, Parts: 1, Seq: 100 + uint16(i), PicID: -1}
				at := i*33 - 1 // the first one before any audio
				if i > 0 && i < 6 && left > 0 {
					if k := vsched.Choose(2, "late frame"); k > 0 {
						left--
						at += 70
					}
				}
				frames = append(frames, f.No)
				arrivals = append(arrivals, arr{at, f.Packets()[0], true})
			}
		}
		s := lkTrack(lastRoom(), "A1", 2222)
		settle()
		sort.SliceStable(arrivals, func(i, j int) bool { return arrivals[i].at < arrivals[j].at })
		for _, a := range arrivals {
			if a.v {
				v.t.Push(a.p)
			} else {
				s.t.Push(a.p)
			}
			settle()
		}
		w.Do(lib.Stop("s"))
		sleep(ms * 1000)
		gv, ga, err := recorded(path)
		if err != nil {
			fail("no recording: %v", err)
			return
		}
		vsched.SetOutcome(fmt.Sprint(ga, len(gv)))
		// What still waits at the end behind a gap, in the reordering buffer
		// or in the queue of 32 packets, may be missing. The library may
		// discard a packet or two next to a loss.
		k, lost := 0, 0
		for i := 1; i <= n+tail && k < len(ga); i++ {
			switch {
			case ga[k] == i:
				k++
				lost = 0
			case i <= n+1 && fates[i-1] == "lost":
				lost = 1
			case lost > 0 && lost < 3:
				lost++
			default:
				i = n + tail // missing without a reason
			}
		}
		if k < len(ga) || len(ga) == 0 || ga[len(ga)-1] < n+tail-(210/per+34) {
			fail("recorded audio %v, arrived %v [%d ms each, fates %q]", ga, want, per, fates)
		}
		if fmt.Sprint(gv) != fmt.Sprint(frames) {
			fail("recorded frames %v, arrived %v [fates %q]", gv, frames, fates)
		}
	}
}

func l04() *mc.Property {
	return &mc.Property{ID: "L04", Assumptions: append([]string{"SRTP discards repeated packets", "the reordering buffer of the LiveKit library is the real one"}, assume...),
		Bounds: func(th bool) string {
			return fmt.Sprintf("video: keyframe plus all streams of %d frames of 4 kinds, %d packets lost or late, 2 variants, and streams with bursts of padding, also with losses at the numbers of padding a cycle later; audio, alone and with video: all fates of %d of %d packets of 3 durations, also around the wrap; recordings of %d packets", bnd(th, 4, 5), bnd(th, 2, 3), bnd(th, 3, 4), bnd(th, 8, 10), bnd(th, 66000, 140000))
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{
				seq("L04/video", lkNetwork(bnd(th, 4, 5), bnd(th, 2, 3), shapes(bnd(th, 4, 5), "d1", "K1", "d2", "p"))),
				seq("L04/padding", lkNetwork(12, bnd(th, 2, 3), fixed("d1 p p p p p d1 d1 K1 p d1", "d1 d1 p K1 p p d1 p d2 p p p", "K2 p p p p p p p p K2 d1", "d1 d1 d1 p d1 d1 d1 p d1 d1 d1 p", "p p p p d1 p p p p d1"))),
				seq("L04/audio", lkAudio(bnd(th, 8, 10), bnd(th, 3, 4), false)),
				seq("L04/audio and video", lkAudio(bnd(th, 6, 8), bnd(th, 2, 3), true)),
				lkPaddingLater(),
				manyPackets("L04/many packets", bnd(th, 66000, 140000), true),
			}
		}}
}

func init() { mc.Register(l04()) }
