// Package lib is the closed world the service runs in: a message bus, offers,
// media, and parsers for what it writes.
package lib

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	prom "github.com/bigbluebutton/bbb-webrtc-recorder/internal/prometheus"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/server"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vlksdk"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vos"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vpion"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	dto "github.com/prometheus/client_model/go"
	log "github.com/sirupsen/logrus"
)

func init() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)
	log.StandardLogger().ExitFunc = func(code int) { vsched.Exit(code) }
}

// Msg is a message the service published.
type Msg struct {
	Seq  int
	At   time.Duration
	Chan string
	Raw  []byte
	M    map[string]any
}

func (m Msg) Str(k string) string { s, _ := m.M[k].(string); return s }
func (m Msg) Id() string          { return m.Str("id") }
func (m Msg) Sess() string        { return m.Str("recordingSessionId") }
func (m Msg) Has(k string) bool   { v, ok := m.M[k]; return ok && v != nil }
func (m Msg) Num(k string) float64 {
	f, _ := m.M[k].(float64)
	return f
}

// Bus is the in-memory message broker. Each subscription handles its
// messages one after the other, as the redis adapter does.
type Bus struct {
	Msgs    []Msg
	subs    []*sub
	OnMsg   func(Msg)
	Handled int
	Echo    bool // published messages reach subscribers of the channel
}

type sub struct {
	ch   string
	q    [][]byte
	busy bool
}

var _ pubsub.PubSub = (*Bus)(nil)

type ctxKey struct{}

func (b *Bus) Subscribe(channel string, handler pubsub.PubSubHandler, onStart func() error) {
	s := &sub{ch: channel}
	b.subs = append(b.subs, s)
	if onStart != nil {
		onStart()
	}
	for {
		vsched.Block("bus "+channel, func() bool { return len(s.q) > 0 })
		m := s.q[0]
		s.q = s.q[1:]
		s.busy = true
		handler(context.Background(), m)
		s.busy = false
		b.Handled++
	}
}

func (b *Bus) Publish(channel string, message []byte) {
	vsched.Point("publish")
	m := Msg{Seq: vsched.NextSeq(), At: vsched.Now(), Chan: channel, Raw: append([]byte(nil), message...)}
	json.Unmarshal(message, &m.M)
	b.Msgs = append(b.Msgs, m)
	if vsched.Verbose {
		vsched.Logf("%8s publish %s %s", m.At, channel, message)
	}
	if b.Echo {
		b.Inject(channel, message)
	}
	if b.OnMsg != nil {
		b.OnMsg(m)
	}
}

// Inject delivers a message to the subscribers of a channel.
func (b *Bus) Inject(channel string, message []byte) {
	for _, s := range b.subs {
		if s.ch == channel {
			s.q = append(s.q, append([]byte(nil), message...))
		}
	}
}

// Idle tells whether all injected messages have been handled.
func (b *Bus) Idle() bool {
	for _, s := range b.subs {
		if s.busy || len(s.q) > 0 {
			return false
		}
	}
	return true
}

// By returns the messages of a session (all sessions: "*") with an id ("*": any).
func (b *Bus) By(id, sess string) []Msg {
	var r []Msg
	for _, m := range b.Msgs {
		if (id == "*" || m.Id() == id) && (sess == "*" || m.Sess() == sess) {
			r = append(r, m)
		}
	}
	return r
}

const (
	In  = "to-rec"
	Out = "from-rec"
	Dir = "/rec"
)

// World is one running service.
type World struct {
	Cfg    *config.Config
	Bus    *Bus
	Srv    *server.Server
	Server *vsched.Thread
	base   int
}

func Config() *config.Config {
	c := &config.Config{}
	c.App = config.App{Name: "bbb-webrtc-recorder", Version: "1.2.3", InstanceId: "instance-7"}
	c.SetDefaults()
	c.PubSub.Channels = config.Channels{Subscribe: In, Publish: Out}
	c.Recorder.Directory = Dir
	c.LiveKit = config.LiveKit{Host: "ws://lk", APIKey: "key", APISecret: "secret"}
	return c
}

// Start runs the service on the virtual machine of the current execution.
func Start(mod func(*config.Config)) *World {
	w := &World{Cfg: Config(), Bus: &Bus{}}
	vos.Disk().AddDir(Dir)
	if mod != nil {
		mod(w.Cfg)
	}
	prom.Sessions.Set(0)
	w.Srv = server.NewServer(w.Cfg, w.Bus)
	w.Server = vsched.GoEnv("service", func() {
		w.Bus.Subscribe(w.Cfg.PubSub.Channels.Subscribe, w.Srv.HandlePubSub, w.Srv.OnStart)
	})
	vsched.Deterministic(vsched.Settle)
	w.base = vsched.AppThreads()
	return w
}

// Sessions is the value of the exported gauge.
func Sessions() float64 {
	var m dto.Metric
	if err := prom.Sessions.Write(&m); err != nil {
		return -1
	}
	return m.GetGauge().GetValue()
}

// Send injects a command; it is handled when the service gets to it.
func (w *World) Send(m any) {
	var b []byte
	switch v := m.(type) {
	case []byte:
		b = v
	case string:
		b = []byte(v)
	default:
		b, _ = json.Marshal(m)
	}
	if vsched.Verbose {
		vsched.Logf("%8s inject %s", vsched.Now(), b)
	}
	w.Bus.Inject(w.Cfg.PubSub.Channels.Subscribe, b)
}

// Do sends a command and waits until it has been handled, without deviations.
func (w *World) Do(m any) {
	vsched.Deterministic(func() {
		w.Send(m)
		vsched.Block("command", w.Bus.Idle)
		vsched.Settle()
	})
}

// Alive sends a status query and requires it to be answered.
func (w *World) Alive() {
	n := len(w.Bus.By("recorderStatus", "*"))
	vsched.Deterministic(func() {
		w.Send(map[string]any{"id": "getRecorderStatus"})
		vsched.Sleep(5 * time.Second)
	})
	if len(w.Bus.By("recorderStatus", "*")) != n+1 {
		vsched.Fail("a status query is not answered: %s", strings.Join(vsched.LiveThreads(), ", "))
	}
}

// Offer is an encoded SDP offer with the given media sections.
func Offer(kinds ...string) string {
	s := "v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\n"
	for _, k := range kinds {
		s += "m=" + k + " 9 UDP/TLS/RTP/SAVPF 96\r\nc=IN IP4 0.0.0.0\r\n"
	}
	b, _ := json.Marshal(map[string]string{"type": "offer", "sdp": s})
	return base64.StdEncoding.EncodeToString(b)
}

// Answer decodes an SDP answer.
func Answer(s string) (typ, sdp string, err error) {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return "", "", err
	}
	var m map[string]string
	err = json.Unmarshal(b, &m)
	return m["type"], m["sdp"], err
}

type M = map[string]any

func StartMS(id, file string, kinds ...string) M {
	return M{"id": "startRecording", "recordingSessionId": id, "fileName": file, "adapter": "mediasoup",
		"adapterOptions": M{"mediasoup": M{"sdp": Offer(kinds...)}}}
}
func StartLK(id, file, room string, tracks ...string) M {
	return M{"id": "startRecording", "recordingSessionId": id, "fileName": file, "adapter": "livekit",
		"adapterOptions": M{"livekit": M{"room": room, "trackIds": tracks}}}
}
func Stop(id string) M { return M{"id": "stopRecording", "recordingSessionId": id} }

// Last is the newest peer connection.
func LastPC() *vpion.PeerConnection {
	p := vpion.Net().PCs
	if len(p) == 0 {
		return nil
	}
	return p[len(p)-1]
}

// Room builds a LiveKit world whose rooms contain the given participants.
func FillRooms(f func(r *vlksdk.Room)) { vlksdk.Net().Fill = f }

// OK tells whether the last response for the session is a success, and its path.
func (w *World) OK(sess string) (bool, string) {
	r := w.Bus.By("startRecordingResponse", sess)
	if len(r) == 0 {
		return false, ""
	}
	m := r[len(r)-1]
	return m.Str("status") == "ok", m.Str("fileName")
}

// Background is the number of the service's own threads beyond the idle ones.
func (w *World) Background() int { return vsched.AppThreads() - w.base }

// OpenFiles lists files that are open.
func OpenFiles() []string {
	var r []string
	d := vos.Disk()
	for p, n := range d.Nodes {
		if n.Opens > 0 {
			r = append(r, fmt.Sprintf("%s (%d)", p, n.Opens))
		}
	}
	sort.Strings(r)
	return r
}

// Summary describes an execution by what the service published and wrote.
func (w *World) Summary() string {
	var b strings.Builder
	for _, m := range w.Bus.Msgs {
		fmt.Fprintf(&b, "%s/%s/%s/%v;", m.Id(), m.Sess(), m.Str("status")+m.Str("reason"), m.M["timestampHR"])
	}
	for _, p := range vos.Disk().Paths() {
		n := vos.Disk().Nodes[p]
		if !n.Dir {
			fmt.Fprintf(&b, "%s:%d;", p, len(n.Data))
		}
	}
	return b.String()
}
