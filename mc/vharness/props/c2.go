package props

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vpion"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	adapter "github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	"github.com/pion/rtcp"
	"github.com/pion/rtp"
	"github.com/pion/webrtc/v3"
)

// rig is one mediasoup track between a scripted sender and a recorder that
// takes notes. Packets are identified by their true position in the sender's
// numbering, which may be negative for packets sent before the first received.
type rig struct {
	t       *vpion.TrackRemote
	pc      *vpion.PeerConnection
	ad      *adapter.WebRTC
	audio   bool
	first   uint16
	size    int
	timeout time.Duration
	margin  int

	started bool
	newest  int
	at      map[int]time.Duration // first arrival
	passed  map[int]bool          // may have been given up on before it arrived
	later   map[int]time.Duration // first arrival of a later packet
	lastEv  time.Duration
	last    int           // newest delivered
	front   int           // number waited for, -1: none
	since   time.Duration // since when
	out     []int
	note    []uint16
	reqs    map[int][]time.Duration
	order   []int
	missAt  map[int]time.Duration // when it fell more than ten behind
	loose   bool                  // arrival is not followed by settling
	given   map[int]time.Duration // when the tenth request was sent
	gfront  map[int]bool          // nothing before it was deliverable then
	closed  bool
	onReq   func(n, k int)
}

type rigRec struct{ r *rig }

func (f rigRec) GetFilePath() string     { return "/rec/x.webm" }
func (f rigRec) PushVideo(p *rtp.Packet) { f.r.push(p, false) }
func (f rigRec) PushAudio(p *rtp.Packet) { f.r.push(p, true) }
func (f rigRec) NotifySkippedPacket(seq uint16) {
	vsched.Point("notify")
	f.r.note = append(f.r.note, seq)
}
func (f rigRec) WithContext(ctx context.Context)                   {}
func (f rigRec) VideoTimestamp() time.Duration                     { return 0 }
func (f rigRec) AudioTimestamp() time.Duration                     { return 0 }
func (f rigRec) SetHasAudio(bool)                                  {}
func (f rigRec) SetHasVideo(bool)                                  {}
func (f rigRec) SetKeyframeRequester(r recorder.KeyframeRequester) {}
func (f rigRec) GetHasAudio() bool                                 { return f.r.audio }
func (f rigRec) GetHasVideo() bool                                 { return !f.r.audio }
func (f rigRec) Close() time.Duration                              { return 0 }

func newRig(isAudio bool, first uint16, size int, timeout time.Duration) *rig {
	r := &rig{audio: isAudio, first: first, size: size, timeout: timeout, margin: 10,
		at: map[int]time.Duration{}, passed: map[int]bool{}, later: map[int]time.Duration{}, reqs: map[int][]time.Duration{},
		missAt: map[int]time.Duration{}, given: map[int]time.Duration{}, last: -1, front: -1}
	var c config.Config
	c.SetDefaults()
	c.WebRTC.JitterBuffer = uint16(size)
	c.WebRTC.JitterBufferPktTimeout = uint16(timeout / ms)
	r.ad = adapter.NewWebRTC(context.Background(), c.WebRTC)
	r.ad.SetConnectionStateCallback(func(webrtc.ICEConnectionState) {})
	r.ad.SetFlowCallback(func(f bool, ts time.Duration, closed bool) { r.closed = r.closed || closed })
	kind := "video"
	if isAudio {
		kind = "audio"
	}
	b, _ := base64.StdEncoding.DecodeString(lib.Offer(kind))
	var o webrtc.SessionDescription
	json.Unmarshal(b, &o)
	r.ad.SetSDPOffer(o)
	if _, err := r.ad.Init(rigRec{r}); err != nil {
		fail("set-up fails: %v", err)
	}
	r.pc = lib.LastPC()
	vpion.Net().OnRTCP = r.rtcp
	k := webrtc.RTPCodecTypeVideo
	if isAudio {
		k = webrtc.RTPCodecTypeAudio
	}
	r.t = r.pc.AddTrack(k, 4711)
	return r
}

// pos is the position a sequence number stands for.
func (r *rig) pos(s uint16) int {
	return r.newest + int(int16(s-r.first-uint16(r.newest)))
}

func (r *rig) couldPass(m int, at time.Duration) bool {
	if len(r.reqs[m]) >= 10 {
		return true
	}
	if r.newest-m >= r.size {
		return true
	}
	l, ok := r.later[m]
	return ok && at-l >= r.timeout
}

// send makes packet n arrive.
func (r *rig) send(n int) {
	now := vsched.Now()
	if _, dup := r.at[n]; !dup {
		if n <= r.last || r.couldPass(n, r.lastEv) {
			r.passed[n] = true
		}
		r.at[n] = now
	}
	if !r.started || n > r.newest {
		from := r.newest + 1
		if !r.started {
			from = n
		}
		r.newest = n
		for m := from - 1; m >= from-70 && r.started; m-- {
			if _, ok := r.at[m]; ok {
				break
			}
			if _, ok := r.later[m]; !ok {
				r.later[m] = now
			}
		}
		for m := from; m < n; m++ {
			r.later[m] = now
		}
	}
	front := max(r.last, r.newest-r.size) + 1
	r.started = true
	r.order = append(r.order, n)
	r.lastEv = now
	pl := []byte{0x10, 0, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
	r.t.Push(&rtp.Packet{Header: rtp.Header{Version: 2, SSRC: 4711, SequenceNumber: r.first + uint16(n), Timestamp: uint32(n * 3000), Marker: true}, Payload: pl})
	if r.loose {
		return
	}
	settle()
	// what is due
	f := max(r.last, r.newest-r.size) + 1
	for {
		_, ok := r.at[f]
		if !ok {
			break
		}
		if !r.passed[f] {
			fail("packet %d arrived and nothing before it is missing, but it is not delivered (delivered %v, arrivals %v)", f, r.out, r.order)
		}
		f++
	}
	if f <= r.newest {
		if _, nx := r.at[f+1]; nx && !r.passed[f+1] && len(r.reqs[f]) >= 10 && now-r.given[f] > 100*ms {
			fail("packet %d was requested for the last time at %s, but still holds back its successors", f, r.given[f])
		}
		if f == front && r.front == f {
			_, nx := r.at[f+1]
			if now-r.since >= r.timeout && nx && !r.passed[f+1] {
				fail("packet %d, missing, still holds back its successors %s after it was first waited for (timeout %s)", f, now-r.since, r.timeout)
			}
		} else if f == front {
			r.front, r.since = f, now
		}
	}
}

func (r *rig) push(p *rtp.Packet, isAudio bool) {
	vsched.Point("push")
	if isAudio != r.audio {
		fail("a packet of the wrong kind is delivered")
	}
	if len(p.Payload) != 6 {
		fail("a foreign packet is delivered")
	}
	b := p.Payload
	n := int(int32(b[2])<<24 | int32(b[3])<<16 | int32(b[4])<<8 | int32(b[5]))
	if p.SequenceNumber != r.first+uint16(n) {
		fail("packet %d is delivered with number %d", n, p.SequenceNumber)
	}
	if n <= r.last {
		fail("packet %d is delivered after packet %d (arrivals %v)", n, r.last, r.order)
	}
	gap := map[uint16]bool{}
	signal := false
	now := vsched.Now()
	for m := r.last + 1; m < n; m++ {
		gap[r.first+uint16(m)] = true
		if _, arrived := r.at[m]; arrived {
			if !r.passed[m] && r.newest-m < r.size {
				fail("packet %d arrived in time but is left out (arrivals %v)", m, r.order)
			}
		} else if !r.couldPass(m, now) {
			fail("missing packet %d is given up on after %s and %d requests (timeout %s; arrivals %v)", m, now-r.later[m], len(r.reqs[m]), r.timeout, r.order)
		}
		if r.newest-m < r.size {
			signal = true
		}
	}
	for _, s := range r.note {
		if !gap[s] {
			fail("giving up on number %d is signalled before packet %d, but it was delivered or is no longer due", s, n)
		}
	}
	if r.audio && len(r.note) > 0 {
		fail("giving up on an audio packet is signalled to the video assembly (arrivals %v)", r.order)
	}
	if !r.audio && signal && len(r.note) == 0 {
		fail("packets between %d and %d were given up on without signalling it (arrivals %v)", r.last, n, r.order)
	}
	r.note = nil
	r.last = n
	r.out = append(r.out, n)
}

// rtcp checks retransmission requests.
func (r *rig) rtcp(pc *vpion.PeerConnection, pkts []rtcp.Packet) {
	for _, p := range pkts {
		nk, ok := p.(*rtcp.TransportLayerNack)
		if !ok {
			continue
		}
		if nk.MediaSSRC != 4711 {
			fail("retransmission of SSRC %d is requested, the track has 4711", nk.MediaSSRC)
		}
		for _, s := range unpack(nk.Nacks) {
			n := r.pos(s)
			if n < 0 || n > r.newest {
				fail("packet %d is requested, outside of what was sent (0 to %d)", n, r.newest)
			}
			// arrived and read
			if _, ok := r.at[n]; ok && r.t.Queued() == 0 && !r.loose {
				fail("packet %d is requested although it has arrived", n)
			} else if ok && r.at[n] < vsched.Now() {
				fail("packet %d is requested although it arrived at %s", n, r.at[n])
			}
			if r.newest-n < r.margin {
				fail("packet %d is requested while the newest is %d", n, r.newest)
			}
			k := r.reqs[n]
			if len(k) >= 10 {
				fail("packet %d is requested for the %dth time at %s", n, len(k)+1, vsched.Now())
			}
			r.reqs[n] = append(k, vsched.Now())
			if len(k) == 9 {
				r.given[n] = vsched.Now()
			}
			if r.onReq != nil {
				r.onReq(n, len(k)+1)
			}
		}
	}
}

func c08() *mc.Property {
	names := []string{"next", "lose", "oldest missing", "newest missing", "again", "early", "wait 60ms", "wait 250ms"}
	body := func(th bool, isAudio bool, first uint16, size int, timeout time.Duration, depth int) func() {
		return func() {
			r := newRig(isAudio, first, size, timeout)
			settle()
			r.send(0)
			next := 1
			early := 0
			waited := false
			for i := 0; i < depth; i++ {
				var miss []int
				for m := 1; m < next; m++ {
					if _, ok := r.at[m]; !ok {
						miss = append(miss, m)
					}
				}
				var ops []string
				for _, n := range names {
					switch {
					case len(miss) == 0 && (n == "oldest missing"), len(miss) < 2 && n == "newest missing":
					case waited && n[0] == 'w':
					case n == "lose" && next-r.newest > 2:
					default:
						ops = append(ops, n)
					}
				}
				op := pick("arrival", ops...)
				waited = op[0] == 'w'
				switch op {
				case "next":
					r.send(next)
					next++
				case "lose":
					next++
				case "oldest missing":
					r.send(miss[0])
				case "newest missing":
					r.send(miss[len(miss)-1])
				case "again":
					r.send(r.order[len(r.order)-1])
				case "early":
					early--
					r.send(early)
				case "wait 60ms":
					sleep(60 * ms)
				case "wait 250ms":
					sleep(250 * ms)
				}
			}
			// whatever is missing is given up on eventually
			for i := 0; i < 4; i++ {
				r.send(next)
				next++
				sleep(timeout + ms)
			}
			r.t.End(io.EOF)
			sleep(500 * ms)
			if !r.t.Handler.Finished() {
				fail("the track handler does not finish")
			}
			vsched.SetOutcome(fmt.Sprint(r.out))
		}
	}
	return &mc.Property{ID: "C08", Assumptions: append([]string{"packets dropped because the window slid over them are not counted as given up on; whether they are signalled is not decided"}, assume...),
		Bounds: func(th bool) string {
			return fmt.Sprintf("every history of up to %d steps (next packet, loss, late arrival of the oldest or newest missing packet, duplicate, packet older than the first, waits of 60 and 250 ms), audio and video, first numbers 100, 65533, 0, buffers of 512, 3; every loss pattern of up to 4 packets ended by exhausted requests; arrivals racing with the request timer; recordings of %d packets", bnd(th, 7, 8), bnd(th, 66000, 140000))
		},
		Scenarios: func(th bool) []mc.Scenario {
			d := bnd(th, 7, 8)
			var r []mc.Scenario
			for _, first := range []uint16{100, 65533, 0} {
				dd := d
				if first != 65533 {
					dd--
				}
				r = append(r, seq(fmt.Sprintf("C08/video from %d", first), body(th, false, first, 512, 200*ms, dd)))
			}
			r = append(r, seq("C08/audio from 65534", body(th, true, 65534, 512, 100*ms, d-1)))
			r = append(r, seq("C08/small buffer", body(th, false, 65533, 3, 200*ms, d-1)))
			r = append(r, seq("C08/no timeout", body(th, true, 65533, 512, 0, d-1)))
			r = append(r, nackScenarios("C08", th)...)
			r = append(r, nackRaces("C08", th)...)
			r = append(r, manyPackets("C08/many packets", bnd(th, 66000, 140000), false))
			return r
		}}
}

// nackScenarios streams packets past losses until requests are exhausted.
func nackScenarios(id string, th bool) []mc.Scenario {
	stream := func(timeout time.Duration, first uint16, isAudio bool, gap time.Duration) func() {
		return func() {
			r := newRig(isAudio, first, 512, timeout)
			settle()
			r.send(0)
			n := 1
			fate := map[int]string{} // of lost packets
			var ready []int
			r.onReq = func(m, k int) {
				if f := fate[m]; f == "answered at once" || f == "answered at last" && k == 9 {
					ready = append(ready, m)
				}
			}
			run := func(d time.Duration, gap time.Duration) {
				for end := vsched.Now() + d; vsched.Now() < end; n++ {
					if fate[n] == "" {
						r.send(n)
					}
					for len(ready) > 0 {
						m := ready[0]
						ready = ready[1:]
						r.send(m)
					}
					for _, m := range keysT(r.given) {
						if fate[m] == "answered too late" && vsched.Now()-r.given[m] > 100*ms {
							fate[m] = "done"
							r.send(m)
						}
					}
					r.eligible()
					sleep(gap)
				}
			}
			lose := func(k int, fates ...string) {
				for m := n; m < n+k; m++ {
					if f := pick(fmt.Sprintf("packet %d", m), fates...); f != "arrives" {
						fate[m] = f
					}
				}
			}
			if flip("long gap") {
				for m := n; m < n+40; m++ {
					if m%19 != 5 && m != n+17 {
						fate[m] = "lost"
					}
				}
				run(600*ms, 5*ms)
				lose(2, "arrives", "lost", "answered at last")
			} else {
				lose(bnd(th, 4, 5), "arrives", "lost", "answered at once", "answered at last", "answered too late")
			}
			run(700*ms, gap)
			// long after the give-ups, another loss
			run(4700*ms, 250*ms)
			lose(2, "lost", "arrives")
			run(800*ms, 15*ms)
			r.finalNack()
			vsched.SetOutcome(fmt.Sprint(len(r.reqs), r.given, r.out[len(r.out)-1]))
		}
	}
	return []mc.Scenario{
		seq(id+"/requests", stream(200*ms, 65530, false, 10*ms)),
		seq(id+"/requests, patient buffer", stream(60*time.Second, 65500, true, 20*ms)),
		seq(id+"/requests, fast", stream(1000*ms, 65533, false, 2*ms)),
	}
}

// aCycleLater loses the same sequence numbers again when they come round.
func aCycleLater(id string) mc.Scenario {
	s := seq(id+"/a cycle later", func() {
		timeout := []time.Duration{200 * ms, 60 * time.Second}[vsched.Choose(2, "timeout")]
		fate := pick("first loss", "lost", "answered at last", "answered at once", "arrives")
		again := pick("second loss", "lost", "answered at once")
		isAudio := flip("audio")
		r := newRig(isAudio, 60000, 512, timeout)
		settle()
		r.send(0)
		var ready []int
		r.onReq = func(m, k int) {
			f := fate
			if m > 60000 {
				f = again
			}
			if f == "answered at once" || f == "answered at last" && k == 9 {
				ready = append(ready, m)
			}
		}
		n := 1
		run := func(to int, gap time.Duration) {
			for ; n < to; n++ {
				if c := n % 65536; c != 20 && c != 21 && c != 40 || n < 100 && fate == "arrives" {
					r.send(n)
				}
				for len(ready) > 0 {
					m := ready[0]
					ready = ready[1:]
					r.send(m)
				}
				if n < 200 || n > 65500 {
					r.eligible()
				}
				if n%4 == 0 || gap >= ms {
					sleep(gap)
				}
			}
		}
		run(200, 5*ms)
		run(65500, 400*time.Microsecond)
		run(65800, 5*ms)
		r.finalNack()
		vsched.SetOutcome(fmt.Sprint(len(r.reqs), len(r.given), len(r.out)))
	})
	s.Opt.Horizon = 10 * time.Minute
	s.Opt.MaxSteps = 200000000
	return s
}

// lossAfterLoss loses every so manieth packet, hundreds in all: each must be
// requested like the first one was.
func lossAfterLoss(id string, th bool) mc.Scenario {
	s := seq(id+"/loss after loss", func() {
		timeout := []time.Duration{200 * ms, 60 * time.Second}[vsched.Choose(2, "timeout")]
		fate := pick("losses", "lost", "answered at once", "answered third")
		isAudio := flip("audio")
		every := []int{15, 40, 160}[vsched.Choose(3, "every")]
		first := []uint16{100, 62000}[vsched.Choose(2, "first number")]
		r := newRig(isAudio, first, 512, timeout)
		settle()
		r.send(0)
		var ready []int
		r.onReq = func(m, k int) {
			if fate == "answered at once" || fate == "answered third" && k == 3 {
				ready = append(ready, m)
			}
		}
		for n := 1; n < every*bnd(th, 450, 1500); n++ {
			if n%every != 7 {
				r.send(n)
			}
			for len(ready) > 0 {
				m := ready[0]
				ready = ready[1:]
				r.send(m)
			}
			r.eligible()
			sleep(5 * ms)
		}
		r.finalNack()
		vsched.SetOutcome(fmt.Sprint(len(r.reqs), len(r.given), len(r.out)))
	})
	s.Opt.Horizon = 2 * time.Hour
	s.Opt.MaxSteps = 200000000
	return s
}

// eligible notes which packets are far enough behind to be requested.
func (r *rig) eligible() {
	for m := range r.later {
		if _, ok := r.at[m]; ok || m < 0 || r.newest-m <= r.margin || r.newest-m >= 1000 {
			continue
		}
		if _, ok := r.missAt[m]; !ok {
			r.missAt[m] = vsched.Now()
		}
	}
}

// finalNack checks that everything missing was requested repeatedly.
func (r *rig) finalNack() {
	for _, m := range keysT(r.missAt) {
		until, ok := r.at[m]
		if !ok {
			until = vsched.Now()
		}
		want := int((until - r.missAt[m]) / (100 * ms))
		if want > 10 {
			want = 10
		}
		if len(r.reqs[m]) < want {
			fail("packet %d was missing and requestable from %s to %s, but requested at %v only", m, r.missAt[m], until, r.reqs[m])
		}
	}
}

func c06() *mc.Property {
	return &mc.Property{ID: "C06", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprintf("streams with the wrap-around inside: every combination of fates (arrives, lost, answered after the first request, after the ninth, after the last) of %d consecutive packets, or a gap of 40, then two more losses 5 s later; buffer timeouts 200 ms, 1 s, 60 s; packet spacings 2, 10, 20 ms; the same numbers lost again 65536 packets later; arrivals racing with the request timer", bnd(th, 4, 5))
		},
		Scenarios: func(th bool) []mc.Scenario {
			return append(append(nackScenarios("C06", th), nackRaces("C06", th)...), aCycleLater("C06"), lossAfterLoss("C06", th))
		}}
}

// nackRaces lets arrivals race with the request timer when requests run out.
func nackRaces(id string, th bool) []mc.Scenario {
	return []mc.Scenario{
		conc(id+"/race", bnd(th, 2, 3), vsched.PkgWebRTC|vsched.PkgUtils, func() {
			var r *rig
			first := []uint16{65530, 70}[vsched.Choose(2, "first number")]
			det(func() {
				r = newRig(false, first, 512, 60*time.Second)
				vsched.Settle()
				r.send(0)
				for n := 2; n < 16; n++ {
					if n != 4 {
						r.send(n)
					}
				}
				// the eleventh look is due in a moment
				vsched.Sleep(439*ms - vsched.Now())
			})
			r.loose = true
			ops := pick("arrives", "new", "missing", "missing and new", "both missing", "new, next look")
			vsched.Sleep(ms)
			switch ops {
			case "new":
				r.send(16)
			case "missing":
				r.send(1)
			case "missing and new":
				r.send(4)
				r.send(16)
			case "both missing":
				r.send(1)
				r.send(4)
			case "new, next look":
				r.send(16)
				vsched.Sleep(40 * ms)
				r.send(17)
			}
			vsched.Settle()
			r.loose = false
			for n := 18; n < 25; n++ {
				r.send(n)
				sleep(100 * ms)
			}
			// what was given up on stays given up on
			for n := 25; n < 30; n++ {
				sleep(1100 * ms)
				r.send(n)
			}
			sleep(100 * ms)
			if r.last < 3 {
				fail("delivery does not proceed past packet 1 (delivered %v)", r.out)
			}
			r.t.End(io.EOF)
			sleep(500 * ms)
			if !r.t.Handler.Finished() {
				fail("the track handler does not finish")
			}
			vsched.SetOutcome(fmt.Sprint(ops, r.out, len(r.reqs)))
		}),
	}
}

func keysT(m map[int]time.Duration) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func init() {
	mc.Register(c06())
	mc.Register(c08())
}
