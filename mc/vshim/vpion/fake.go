// Package vpion replaces pion/webrtc: peer connections and remote tracks are
// environment objects driven by the harness; everything else is the real
// library.
package vpion

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"io"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	"github.com/pion/ice/v2"
	"github.com/pion/interceptor"
	"github.com/pion/rtcp"
	"github.com/pion/rtp"
	"github.com/pion/webrtc/v3"
)

type API struct {
	m  *webrtc.MediaEngine
	se webrtc.SettingEngine
	i  *interceptor.Registry
}

func NewAPI(options ...func(*API)) *API {
	a := &API{}
	for _, o := range options {
		o(a)
	}
	return a
}
func WithMediaEngine(m *webrtc.MediaEngine) func(*API)      { return func(a *API) { a.m = m } }
func WithSettingEngine(s webrtc.SettingEngine) func(*API)   { return func(a *API) { a.se = s } }
func WithInterceptorRegistry(i *interceptor.Registry) func(*API) {
	return func(a *API) { a.i = i }
}

// World is the set of peer connections of an execution and the failures to
// inject.
type World struct {
	PCs []*PeerConnection
	// Fail returns an error for a step of a connection: new, transceiver,
	// remote, answer, local, rtcp, close.
	Fail   func(pc *PeerConnection, step string) error
	OnRTCP func(pc *PeerConnection, pkts []rtcp.Packet)
	OnNew  func(pc *PeerConnection)
	// Gather is how long the gathering of candidates takes.
	Gather func(pc *PeerConnection) time.Duration
	// Real makes the real library negotiate; it never opens a connection.
	Real bool
}

type key struct{}

func Net() *World {
	return vsched.Obj(key{}, func() any { return &World{} }).(*World)
}

type RTCPRec struct {
	At   time.Duration
	Seq  int
	Pkts []rtcp.Packet
}

type PeerConnection struct {
	ID       int
	Cfg      webrtc.Configuration
	SE       webrtc.SettingEngine
	onTrack  func(*TrackRemote, *RTPReceiver)
	onICE    func(webrtc.ICEConnectionState)
	onConn   func(webrtc.PeerConnectionState)
	Kinds    []webrtc.RTPCodecType
	Remote   *webrtc.SessionDescription
	Local    *webrtc.SessionDescription
	Closed   bool
	ClosedAt int // event number of the first Close
	Closes   int
	RTCP     []RTCPRec
	AfterClose int // RTCP written after close
	Tracks   []*TrackRemote
	state    webrtc.ICEConnectionState
	m        *webrtc.MediaEngine
	w        *World
	iceQ     []webrtc.ICEConnectionState
	iceThr   bool
	gathered bool
	promise  chan struct{} // closed once gathered
	real     *webrtc.PeerConnection
}

func (a *API) NewPeerConnection(cfg webrtc.Configuration) (*PeerConnection, error) {
	w := Net()
	pc := &PeerConnection{ID: len(w.PCs), Cfg: cfg, SE: a.se, w: w, state: webrtc.ICEConnectionStateNew, m: a.m}
	if err := pc.fail("new"); err != nil {
		return nil, err
	}
	if w.Real {
		se := a.se
		se.SetICEMulticastDNSMode(ice.MulticastDNSModeDisabled)
		opts := []func(*webrtc.API){webrtc.WithSettingEngine(se)}
		if a.m != nil {
			opts = append(opts, webrtc.WithMediaEngine(a.m))
		}
		if a.i != nil {
			opts = append(opts, webrtc.WithInterceptorRegistry(a.i))
		}
		var err error
		if pc.real, err = webrtc.NewAPI(opts...).NewPeerConnection(cfg); err != nil {
			return nil, err
		}
	}
	w.PCs = append(w.PCs, pc)
	if w.OnNew != nil {
		w.OnNew(pc)
	}
	return pc, nil
}

func NewPeerConnection(cfg webrtc.Configuration) (*PeerConnection, error) {
	return NewAPI().NewPeerConnection(cfg)
}

func (pc *PeerConnection) fail(step string) error {
	vsched.Point("pc " + step)
	if pc.w.Fail != nil {
		return pc.w.Fail(pc, step)
	}
	return nil
}

func (pc *PeerConnection) OnTrack(f func(*TrackRemote, *RTPReceiver)) { pc.onTrack = f }
func (pc *PeerConnection) OnICEConnectionStateChange(f func(webrtc.ICEConnectionState)) {
	pc.onICE = f
}
func (pc *PeerConnection) OnConnectionStateChange(f func(webrtc.PeerConnectionState)) {
	pc.onConn = f
}
func (pc *PeerConnection) OnICECandidate(f func(*webrtc.ICECandidate))            {}
func (pc *PeerConnection) OnICEGatheringStateChange(f func(webrtc.ICEGathererState)) {}
func (pc *PeerConnection) OnSignalingStateChange(f func(webrtc.SignalingState))   {}
func (pc *PeerConnection) OnNegotiationNeeded(f func())                           {}

func (pc *PeerConnection) AddTransceiverFromKind(kind webrtc.RTPCodecType, init ...webrtc.RTPTransceiverInit) (*webrtc.RTPTransceiver, error) {
	if err := pc.fail("transceiver"); err != nil {
		return nil, err
	}
	pc.Kinds = append(pc.Kinds, kind)
	if pc.real != nil {
		return pc.real.AddTransceiverFromKind(kind, init...)
	}
	return &webrtc.RTPTransceiver{}, nil
}

func (pc *PeerConnection) SetRemoteDescription(d webrtc.SessionDescription) error {
	if err := pc.fail("remote"); err != nil {
		return err
	}
	if pc.Closed {
		return webrtc.ErrConnectionClosed
	}
	if d.Type != webrtc.SDPTypeOffer {
		return fmt.Errorf("unexpected description type %v", d.Type)
	}
	if _, err := d.Unmarshal(); err != nil {
		return err
	}
	if pc.real != nil {
		if err := pc.real.SetRemoteDescription(d); err != nil {
			return err
		}
	}
	pc.Remote = &d
	return nil
}

func (pc *PeerConnection) CreateAnswer(o *webrtc.AnswerOptions) (webrtc.SessionDescription, error) {
	if err := pc.fail("answer"); err != nil {
		return webrtc.SessionDescription{}, err
	}
	if pc.Remote == nil {
		return webrtc.SessionDescription{}, errors.New("no remote description")
	}
	if pc.real != nil {
		return pc.real.CreateAnswer(o)
	}
	return webrtc.SessionDescription{Type: webrtc.SDPTypeAnswer, SDP: fmt.Sprintf("answer-%d", pc.ID)}, nil
}

func (pc *PeerConnection) SetLocalDescription(d webrtc.SessionDescription) error {
	if err := pc.fail("local"); err != nil {
		return err
	}
	if pc.Closed {
		return webrtc.ErrConnectionClosed
	}
	pc.Local = &d
	d0 := time.Duration(0)
	if pc.w.Gather != nil {
		d0 = pc.w.Gather(pc)
	}
	if d0 == 0 {
		pc.complete()
	} else {
		vsched.GoEnv(fmt.Sprintf("gatherer-%d", pc.ID), func() {
			vsched.Sleep(d0)
			// a connection closed meanwhile never completes it
			if !pc.Closed {
				pc.complete()
			}
		})
	}
	return nil
}

func (pc *PeerConnection) complete() {
	l := *pc.Local
	if pc.real != nil {
		l.SDP += "a=candidate:1 1 udp 2130706431 192.0.2.1 5000 typ host\r\na=end-of-candidates\r\n"
	} else {
		l.SDP += Candidates
	}
	pc.Local = &l
	pc.gathered = true
	if pc.promise != nil {
		vsched.CloseChan(pc.promise)
	}
}

// Candidates is what gathering adds to the local description.
const Candidates = "+candidates"

// Gathered tells whether the local description is complete.
func (pc *PeerConnection) Gathered() bool { return pc.gathered }

func (pc *PeerConnection) ICEGatheringState() webrtc.ICEGatheringState {
	switch {
	case pc.gathered:
		return webrtc.ICEGatheringStateComplete
	case pc.Local != nil:
		return webrtc.ICEGatheringStateGathering
	}
	return webrtc.ICEGatheringStateNew
}

func (pc *PeerConnection) LocalDescription() *webrtc.SessionDescription   { return pc.Local }
func (pc *PeerConnection) RemoteDescription() *webrtc.SessionDescription  { return pc.Remote }
func (pc *PeerConnection) ICEConnectionState() webrtc.ICEConnectionState  { return pc.state }
func (pc *PeerConnection) ConnectionState() webrtc.PeerConnectionState {
	if pc.Closed {
		return webrtc.PeerConnectionStateClosed
	}
	return webrtc.PeerConnectionStateConnected
}
func (pc *PeerConnection) SignalingState() webrtc.SignalingState {
	if pc.Closed {
		return webrtc.SignalingStateClosed
	}
	return webrtc.SignalingStateStable
}

// GatheringCompletePromise completes with the gathering, as in pion only for
// the last promise asked for and not if the connection is closed before.
func GatheringCompletePromise(pc *PeerConnection) <-chan struct{} {
	c := vsched.MakeChan(make(chan struct{}))
	if pc.gathered {
		vsched.CloseChan(c)
	} else {
		pc.promise = c
	}
	return c
}

func (pc *PeerConnection) WriteRTCP(pkts []rtcp.Packet) error {
	if err := pc.fail("rtcp"); err != nil {
		return err
	}
	if pc.Closed {
		pc.AfterClose++
	}
	pc.RTCP = append(pc.RTCP, RTCPRec{At: vsched.Now(), Seq: vsched.NextSeq(), Pkts: pkts})
	if pc.w.OnRTCP != nil {
		pc.w.OnRTCP(pc, pkts)
	}
	if pc.Closed {
		return io.ErrClosedPipe
	}
	return nil
}

// Close is idempotent; it ends all tracks and later reports Closed to the
// connection state handler from the agent's goroutine, as pion does.
func (pc *PeerConnection) Close() error {
	err := pc.fail("close")
	pc.Closes++
	if pc.Closed {
		return nil
	}
	pc.Closed = true
	pc.ClosedAt = vsched.NextSeq()
	pc.Release()
	for _, t := range pc.Tracks {
		t.end(io.EOF)
	}
	pc.FireICE(webrtc.ICEConnectionStateClosed)
	return err
}

// Release frees what the real library holds for a connection.
func (pc *PeerConnection) Release() {
	if pc.real != nil {
		pc.real.Close()
		pc.real = nil
	}
}

// FireICE queues a connection state change; one agent goroutine delivers them
// in order.
func (pc *PeerConnection) FireICE(s webrtc.ICEConnectionState) {
	pc.iceQ = append(pc.iceQ, s)
	if !pc.iceThr {
		pc.iceThr = true
		vsched.GoEnv(fmt.Sprintf("ice-agent-%d", pc.ID), func() {
			for {
				vsched.Block("ice events", func() bool { return len(pc.iceQ) > 0 })
				s := pc.iceQ[0]
				pc.iceQ = pc.iceQ[1:]
				if pc.state == s || pc.state == webrtc.ICEConnectionStateClosed {
					continue
				}
				pc.state = s
				if pc.onICE != nil {
					pc.onICE(s)
				}
			}
		})
	}
}

// HasHandlers reports whether the code installed its callbacks.
func (pc *PeerConnection) HasHandlers() bool { return pc.onTrack != nil }

// AddTrack makes a remote track appear; the handler runs in its own thread.
func (pc *PeerConnection) AddTrack(kind webrtc.RTPCodecType, ssrc uint32) *TrackRemote {
	t := NewTrack(kind, ssrc)
	pc.Tracks = append(pc.Tracks, t)
	if pc.Closed {
		t.end(io.EOF)
	}
	t.window = replayWindow(pc.SE)
	if pc.onTrack != nil && hasCodec(pc.m, t) {
		t.Handler = vsched.GoEnv(fmt.Sprintf("track-%d", ssrc), func() { pc.onTrack(t, &RTPReceiver{t: t}) })
	}
	return t
}

type RTPReceiver struct{ t *TrackRemote }

func (r *RTPReceiver) Track() *TrackRemote { return r.t }
func (r *RTPReceiver) Tracks() []*TrackRemote { return []*TrackRemote{r.t} }
func (r *RTPReceiver) Stop() error         { r.t.end(io.EOF); return nil }

// TrackRemote is a remote track fed by the harness.
type TrackRemote struct {
	kind    webrtc.RTPCodecType
	ssrc    uint32
	q       []*rtp.Packet
	err     error
	codec   webrtc.RTPCodecParameters
	id      string
	Handler *vsched.Thread
	Reads   int
	Reading bool

	window int
	newest uint16
	pushed bool
}

func NewTrack(kind webrtc.RTPCodecType, ssrc uint32) *TrackRemote {
	t := &TrackRemote{kind: kind, ssrc: ssrc, id: fmt.Sprintf("track-%d", ssrc)}
	if kind == webrtc.RTPCodecTypeVideo {
		t.codec = webrtc.RTPCodecParameters{RTPCodecCapability: webrtc.RTPCodecCapability{MimeType: webrtc.MimeTypeVP8, ClockRate: 90000}, PayloadType: 96}
	} else {
		t.codec = webrtc.RTPCodecParameters{RTPCodecCapability: webrtc.RTPCodecCapability{MimeType: webrtc.MimeTypeOpus, ClockRate: 48000, Channels: 2}, PayloadType: 111}
	}
	return t
}

func (t *TrackRemote) SetCodec(c webrtc.RTPCodecParameters) { t.codec = c }
func (t *TrackRemote) SetID(id string)                      { t.id = id }

// replayWindow is how far behind the newest one SRTP lets packets pass.
func replayWindow(se webrtc.SettingEngine) int {
	f := reflect.ValueOf(se).FieldByName("replayProtection").FieldByName("SRTP")
	if f.Kind() == reflect.Pointer && !f.IsNil() {
		return int(f.Elem().Uint())
	}
	return 64
}

// hasCodec tells whether the engine accepts what the track is offered as.
func hasCodec(m *webrtc.MediaEngine, t *TrackRemote) bool {
	if m == nil {
		return true // the default codecs
	}
	f := reflect.ValueOf(m).Elem().FieldByName("audioCodecs")
	if t.kind == webrtc.RTPCodecTypeVideo {
		f = reflect.ValueOf(m).Elem().FieldByName("videoCodecs")
	}
	for i := 0; i < f.Len(); i++ {
		c := f.Index(i).FieldByName("RTPCodecCapability")
		if strings.EqualFold(c.FieldByName("MimeType").String(), t.codec.MimeType) && c.FieldByName("ClockRate").Uint() == uint64(t.codec.ClockRate) {
			return true
		}
	}
	return false
}

// Push makes a packet available to the reader, unless it is too old for SRTP.
func (t *TrackRemote) Push(p *rtp.Packet) {
	if t.window > 0 {
		d := int16(p.SequenceNumber - t.newest)
		if t.pushed && d < 0 && -int(d) >= t.window {
			return
		}
		if !t.pushed || d > 0 {
			t.newest = p.SequenceNumber
		}
		t.pushed = true
	}
	if t.err == nil {
		t.q = append(t.q, p)
	}
}

// End makes reads fail once the queued packets are consumed.
func (t *TrackRemote) End(err error) { t.end(err) }
func (t *TrackRemote) end(err error) {
	if t.err == nil {
		t.err = err
	}
}
func (t *TrackRemote) Queued() int { return len(t.q) }

func (t *TrackRemote) ReadRTP() (*rtp.Packet, interceptor.Attributes, error) {
	t.Reading = true
	vsched.Block("rtp", func() bool { return len(t.q) > 0 || t.err != nil })
	t.Reading = false
	if len(t.q) > 0 {
		p := t.q[0]
		t.q = t.q[1:]
		t.Reads++
		return p, nil, nil
	}
	return nil, nil, t.err
}

func (t *TrackRemote) Read(b []byte) (int, interceptor.Attributes, error) {
	p, a, err := t.ReadRTP()
	if err != nil {
		return 0, nil, err
	}
	n, err := p.MarshalTo(b)
	return n, a, err
}

func (t *TrackRemote) Kind() webrtc.RTPCodecType         { return t.kind }
func (t *TrackRemote) SSRC() webrtc.SSRC                 { return webrtc.SSRC(t.ssrc) }
func (t *TrackRemote) RtxSSRC() webrtc.SSRC              { return 0 }
func (t *TrackRemote) Codec() webrtc.RTPCodecParameters  { return t.codec }
func (t *TrackRemote) PayloadType() webrtc.PayloadType   { return t.codec.PayloadType }
func (t *TrackRemote) RID() string                       { return "" }
func (t *TrackRemote) ID() string                        { return t.id }
func (t *TrackRemote) StreamID() string                  { return "stream" }
func (t *TrackRemote) Msid() string                      { return "stream " + t.id }
func (t *TrackRemote) SetReadDeadline(time.Time) error   { return nil }
