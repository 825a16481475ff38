// Package vlksdk replaces the LiveKit server SDK: rooms, participants and
// publications are environment objects driven by the harness.
package vlksdk

import (
	"fmt"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vpion"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	"github.com/livekit/protocol/livekit"
	lksdk "github.com/livekit/server-sdk-go/v2"
	"github.com/pion/webrtc/v3"
)

type ConnectOption func(*connectParams)
type connectParams struct {
	AutoSubscribe bool
}

func WithAutoSubscribe(val bool) ConnectOption {
	return func(p *connectParams) { p.AutoSubscribe = val }
}
func WithRetransmitBufferSize(val uint16) ConnectOption { return func(*connectParams) {} }

type Track interface {
	ID() string
}

type TrackPublication interface {
	Name() string
	SID() string
	Source() livekit.TrackSource
	Kind() lksdk.TrackKind
	MimeType() string
	IsMuted() bool
	IsSubscribed() bool
	TrackInfo() *livekit.TrackInfo
	Track() Track
}

type Participant interface {
	SID() string
	Identity() string
	Name() string
	TrackPublications() []TrackPublication
}

type ParticipantCallback struct {
	OnTrackMuted               func(pub TrackPublication, p Participant)
	OnTrackUnmuted             func(pub TrackPublication, p Participant)
	OnMetadataChanged          func(oldMetadata string, p Participant)
	OnIsSpeakingChanged        func(p Participant)
	OnConnectionQualityChanged func(update *livekit.ConnectionQualityInfo, p Participant)

	OnTrackSubscribed         func(track *vpion.TrackRemote, publication *RemoteTrackPublication, rp *RemoteParticipant)
	OnTrackUnsubscribed       func(track *vpion.TrackRemote, publication *RemoteTrackPublication, rp *RemoteParticipant)
	OnTrackSubscriptionFailed func(sid string, rp *RemoteParticipant)
	OnTrackPublished          func(publication *RemoteTrackPublication, rp *RemoteParticipant)
	OnTrackUnpublished        func(publication *RemoteTrackPublication, rp *RemoteParticipant)
	OnDataReceived            func(data []byte, params lksdk.DataReceiveParams)
}

type RoomCallback struct {
	OnDisconnected            func()
	OnParticipantConnected    func(*RemoteParticipant)
	OnParticipantDisconnected func(*RemoteParticipant)
	OnActiveSpeakersChanged   func([]Participant)
	OnRoomMetadataChanged     func(metadata string)
	OnReconnecting            func()
	OnReconnected             func()
	ParticipantCallback
}

// World holds the rooms the recorder connected to and what it will find.
type World struct {
	Rooms   []*Room
	Connect func(url string, info lksdk.ConnectInfo) error
	Fill    func(r *Room)
	OnPLI   func(p *RemoteParticipant, ssrc uint32)
}

type key struct{}

func Net() *World { return vsched.Obj(key{}, func() any { return &World{} }).(*World) }

type Room struct {
	URL          string
	Info         lksdk.ConnectInfo
	Auto         bool
	CB           *RoomCallback
	Participants []*RemoteParticipant
	Left         int
	LeftSeq      int
}

func ConnectToRoom(url string, info lksdk.ConnectInfo, callback *RoomCallback, opts ...ConnectOption) (*Room, error) {
	vsched.Point("connect room")
	w := Net()
	if w.Connect != nil {
		if err := w.Connect(url, info); err != nil {
			return nil, err
		}
	}
	p := &connectParams{AutoSubscribe: true}
	for _, o := range opts {
		o(p)
	}
	r := &Room{URL: url, Info: info, Auto: p.AutoSubscribe, CB: callback}
	w.Rooms = append(w.Rooms, r)
	if w.Fill != nil {
		w.Fill(r)
	}
	if r.Auto {
		for _, rp := range r.Participants {
			for _, pub := range rp.Pubs {
				pub.subscribed = true
				pub.Requested = true
			}
		}
	}
	return r, nil
}

func (r *Room) Name() string { return r.Info.RoomName }
func (r *Room) SID() string  { return "RM_" + r.Info.RoomName }
func (r *Room) Disconnect() {
	vsched.Point("room disconnect")
	r.Left++
	if r.Left > 1 {
		return
	}
	r.LeftSeq = vsched.NextSeq()
	for _, p := range r.Participants {
		for _, t := range p.Pubs {
			if t.Remote != nil {
				t.Remote.End(fmt.Errorf("closed"))
			}
		}
	}
}
func (r *Room) GetRemoteParticipants() []*RemoteParticipant {
	vsched.Point("participants")
	return append([]*RemoteParticipant(nil), r.Participants...)
}
func (r *Room) GetParticipantByIdentity(id string) *RemoteParticipant {
	for _, p := range r.Participants {
		if p.identity == id {
			return p
		}
	}
	return nil
}

type RemoteParticipant struct {
	identity string
	Pubs     []*RemoteTrackPublication
	PLIs     []uint32
}

func NewParticipant(id string) *RemoteParticipant { return &RemoteParticipant{identity: id} }

func (p *RemoteParticipant) SID() string      { return "PA_" + p.identity }
func (p *RemoteParticipant) Identity() string { return p.identity }
func (p *RemoteParticipant) Name() string     { return p.identity }
func (p *RemoteParticipant) TrackPublications() []TrackPublication {
	var out []TrackPublication
	for _, t := range p.Pubs {
		out = append(out, t)
	}
	return out
}
func (p *RemoteParticipant) Tracks() []TrackPublication { return p.TrackPublications() }
func (p *RemoteParticipant) WritePLI(ssrc webrtc.SSRC) {
	vsched.Point("pli")
	p.PLIs = append(p.PLIs, uint32(ssrc))
	if w := Net(); w.OnPLI != nil {
		w.OnPLI(p, uint32(ssrc))
	}
}

type RemoteTrackPublication struct {
	sid        string
	kind       lksdk.TrackKind
	mime       string
	subscribed bool
	Requested  bool // SetSubscribed(true) was called
	Unsub      int
	SubErr     error
	Remote     *vpion.TrackRemote
	Owner      *RemoteParticipant
	CBThread   *vsched.Thread
}

func NewPub(owner *RemoteParticipant, sid string, kind lksdk.TrackKind, mime string) *RemoteTrackPublication {
	t := &RemoteTrackPublication{sid: sid, kind: kind, mime: mime, Owner: owner}
	owner.Pubs = append(owner.Pubs, t)
	return t
}

func (t *RemoteTrackPublication) Name() string                   { return t.sid }
func (t *RemoteTrackPublication) SID() string                    { return t.sid }
func (t *RemoteTrackPublication) Source() livekit.TrackSource    { return livekit.TrackSource_UNKNOWN }
func (t *RemoteTrackPublication) Kind() lksdk.TrackKind          { return t.kind }
func (t *RemoteTrackPublication) MimeType() string               { return t.mime }
func (t *RemoteTrackPublication) IsMuted() bool                  { return false }
func (t *RemoteTrackPublication) IsSubscribed() bool             { return t.subscribed }
func (t *RemoteTrackPublication) TrackInfo() *livekit.TrackInfo  { return nil }
func (t *RemoteTrackPublication) TrackRemote() *vpion.TrackRemote { return t.Remote }
func (t *RemoteTrackPublication) Track() Track {
	if t.Remote == nil {
		return nil
	}
	return t.Remote
}
func (t *RemoteTrackPublication) SetSubscribed(b bool) error {
	vsched.Point("subscribe")
	if !b {
		t.Unsub++
		t.Requested = false
		return nil
	}
	if t.SubErr != nil {
		return t.SubErr
	}
	t.Requested = true
	vsched.Point("subscribed")
	return nil
}

// Deliver makes the subscribed track appear: the callback runs on its own
// thread, as pion does.
func (r *Room) Deliver(t *RemoteTrackPublication, remote *vpion.TrackRemote) {
	t.Remote = remote
	t.subscribed = true
	if r.Left > 0 {
		remote.End(fmt.Errorf("closed"))
	}
	if r.CB != nil && r.CB.OnTrackSubscribed != nil {
		t.CBThread = vsched.GoEnv("subscribed-"+t.sid, func() { r.CB.OnTrackSubscribed(remote, t, t.Owner) })
	}
}
