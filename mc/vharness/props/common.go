package props

import (
	"context"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vlksdk"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vos"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vpion"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	lksdk "github.com/livekit/server-sdk-go/v2"
	"github.com/pion/rtp"
	"github.com/pion/webrtc/v3"
)

const ms = time.Millisecond

type configT = config.Config

var _ = fmt.Sprint
var _ = io.EOF
var _ = math.MaxInt
var _ = sort.Strings
var _ = strings.Join

// pick chooses one of the alternatives by name.
func pick(label string, alts ...string) string { return alts[vsched.Choose(len(alts), label)] }

func flip(label string) bool { return vsched.Choose(2, label) == 1 }

// det runs f without scheduling deviations.
func det(f func()) { vsched.Deterministic(f) }

func settle() { det(vsched.Settle) }

func sleep(d time.Duration) { det(func() { vsched.Sleep(d) }) }

func fail(format string, a ...any) { vsched.Fail(format, a...) }

// seq makes a scenario without scheduling deviations.
func seq(name string, body func()) mc.Scenario {
	return mc.Scenario{Name: name, Body: body}
}

// conc makes a scenario with scheduling deviations.
func conc(name string, bound, fine int, body func()) mc.Scenario {
	return mc.Scenario{Name: name, Opt: vsched.Options{Bound: bound, Fine: fine}, Body: body}
}

// bnd picks the deviation bound by tier.
func bnd(th bool, quick, thorough int) int {
	if th {
		return thorough
	}
	return quick
}

// src sends media on a track.
type src struct {
	t     *vpion.TrackRemote
	audio bool
	seq   uint16
	ts    uint32
	no    int
	pic   int
	log   []*rtp.Packet
}

func video(pc *vpion.PeerConnection, ssrc uint32) *src {
	return &src{t: pc.AddTrack(webrtc.RTPCodecTypeVideo, ssrc), seq: 100, ts: 90000, pic: -1}
}
func audio(pc *vpion.PeerConnection, ssrc uint32) *src {
	return &src{t: pc.AddTrack(webrtc.RTPCodecTypeAudio, ssrc), audio: true, seq: 500, ts: 48000}
}

// frame sends one frame (or one audio packet) and advances its clocks.
func (s *src) frame(key bool) lib.Frame {
	return s.frameN(key, 1)
}
func (s *src) frameN(key bool, parts int) lib.Frame {
	if s.audio {
		p := lib.Opus(s.seq, s.ts, s.no)
		s.push(p)
		s.seq++
		s.ts += 960
		s.no++
		return lib.Frame{No: s.no - 1}
	}
	f := lib.Frame{No: s.no, Key: key, TS: s.ts, Parts: parts, Seq: s.seq, PicID: s.pic}
	for _, p := range f.Packets() {
		s.push(p)
	}
	s.seq += uint16(f.Parts)
	s.ts += 3000
	s.no++
	if s.pic >= 0 {
		s.pic = (s.pic + 1) & 0x7fff
	}
	return f
}
func (s *src) push(p *rtp.Packet) {
	s.log = append(s.log, p)
	s.t.Push(p)
}

// stream sends a frame every 20 ms until told to stop.
func (s *src) stream(name string, stop *bool) {
	vsched.GoEnv(name, func() {
		for !*stop {
			s.frame(s.no%10 == 0)
			vsched.Sleep(20 * ms)
		}
	})
}

// file parses a recording from the virtual disk.
func file(path string) (*lib.WebM, error) {
	n := vos.Disk().Nodes[path]
	if n == nil {
		return nil, fmt.Errorf("no file %s", path)
	}
	return lib.ParseWebM(n.Data, false)
}

// lkRoom fills every room with one participant owning the given tracks: sid
// "V..." are video, others audio.
func lkRoom(sids ...string) {
	lib.FillRooms(func(r *vlksdk.Room) {
		p := vlksdk.NewParticipant("alice")
		r.Participants = append(r.Participants, p)
		for _, s := range sids {
			if strings.HasPrefix(s, "V") {
				vlksdk.NewPub(p, s, lksdk.TrackKindVideo, "video/vp8")
			} else {
				vlksdk.NewPub(p, s, lksdk.TrackKindAudio, "audio/opus")
			}
		}
	})
}

func lastRoom() *vlksdk.Room {
	r := vlksdk.Net().Rooms
	if len(r) == 0 {
		return nil
	}
	return r[len(r)-1]
}

// lkTrack delivers a subscribed track.
func lkTrack(r *vlksdk.Room, sid string, ssrc uint32) *src {
	for _, p := range r.Participants {
		for _, t := range p.Pubs {
			if t.SID() == sid {
				s := &src{seq: 100, ts: 90000, pic: -1}
				k := webrtc.RTPCodecTypeVideo
				if t.Kind() == lksdk.TrackKindAudio {
					k = webrtc.RTPCodecTypeAudio
					s.audio = true
				}
				s.t = vpion.NewTrack(k, ssrc)
				r.Deliver(t, s.t)
				return s
			}
		}
	}
	return nil
}

func cfg(f func(c *config.Config)) func(c *config.Config) { return f }

func outcome(w *lib.World) { vsched.SetOutcome(w.Summary()) }

// live checks by the outside whether a session exists: a stop request for it
// must be answered by exactly one recordingStopped.
func live(w *lib.World, id string) bool {
	n := len(w.Bus.By("recordingStopped", id))
	w.Do(lib.Stop(id))
	sleep(2 * time.Second)
	k := len(w.Bus.By("recordingStopped", id)) - n
	if k > 1 {
		fail("one stop request for %s produced %d recordingStopped", id, k)
	}
	return k == 1
}

var assume = []string{
	"pion, the LiveKit SDK, redigo, net/http serving and the file system are stand-ins with the documented behaviour of the originals (callbacks on their own goroutines, ordered connection state events, closing ends tracks)",
	"interleavings are explored at synchronisation operations, channel operations, publications, file and network operations, and where stated at every statement of the named packages; memory is sequentially consistent",
	"logging output is not interpreted",
}

func nil2ctx() context.Context { return context.Background() }
