From 4a3c17e4c5e71c4d1e62f1a531b01c0a972f0753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 01/34] fix: keep callbacks, offer and connection on the WebRTC
 instance

The methods had value receivers, so what the setters stored was lost and
Init always failed; mediasoup recordings could not start at all.
---
 internal/webrtc/webrtc.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 3643769..750d290 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -51,19 +51,19 @@ func NewWebRTC(ctx context.Context, cfg config.WebRTC) *WebRTC {
 	}
 }
 
-func (w WebRTC) SetConnectionStateCallback(fn func(state webrtc.ICEConnectionState)) {
+func (w *WebRTC) SetConnectionStateCallback(fn func(state webrtc.ICEConnectionState)) {
 	w.connStateCallbackFn = fn
 }
 
-func (w WebRTC) SetFlowCallback(fn func(isFlowing bool, videoTimestamp time.Duration, closed bool)) {
+func (w *WebRTC) SetFlowCallback(fn func(isFlowing bool, videoTimestamp time.Duration, closed bool)) {
 	w.flowCallback = fn
 }
 
-func (w WebRTC) SetSDPOffer(offer webrtc.SessionDescription) {
+func (w *WebRTC) SetSDPOffer(offer webrtc.SessionDescription) {
 	w.sdpOffer = offer
 }
 
-func (w WebRTC) validateInitParams() error {
+func (w *WebRTC) validateInitParams() error {
 	if w.connStateCallbackFn == nil {
 		return errors.New("connStateCallbackFn is not set")
 	}
@@ -79,7 +79,7 @@ func (w WebRTC) validateInitParams() error {
 	return nil
 }
 
-func (w WebRTC) Init(
+func (w *WebRTC) Init(
 	rec recorder.Recorder,
 ) (webrtc.SessionDescription, error) {
 	if err := w.validateInitParams(); err != nil {
@@ -480,13 +480,13 @@ func (w WebRTC) Init(
 	return *peerConnection.LocalDescription(), nil
 }
 
-func (w WebRTC) RequestKeyframe() {
+func (w *WebRTC) RequestKeyframe() {
 	for _, ssrc := range w.videoTrackSSRCs {
 		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
 
-func (w WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	err := w.pc.WriteRTCP([]rtcp.Packet{&rtcp.PictureLossIndication{MediaSSRC: ssrc}})
 
 	if err != nil {
@@ -506,7 +506,11 @@ func (w WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	w.pliStats[ssrc] = PLITracker{count: w.pliStats[ssrc].count + 1, timestamp: time.Now()}
 }
 
-func (w WebRTC) Close() error {
+func (w *WebRTC) Close() error {
+	if w.pc == nil {
+		return nil
+	}
+
 	return w.pc.Close()
 }
 
-- 
2.43.0


From dbcfa768013d6014c3c8f9064af8442631395ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 02/34] fix: a number outside the receive log window no longer
 overwrites a newer one

---
 internal/webrtc/utils/receive_log.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/webrtc/utils/receive_log.go b/internal/webrtc/utils/receive_log.go
index bef0e7a..9a63bfe 100644
--- a/internal/webrtc/utils/receive_log.go
+++ b/internal/webrtc/utils/receive_log.go
@@ -65,6 +65,11 @@ func (s *ReceiveLog) Add(seq uint16) {
 		}
 	} else {
 		// negative diff, seq < end (with counting for rollovers)
+		if s.end-seq >= s.size {
+			// too old: its slot belongs to a newer sequence number by now
+			return
+		}
+
 		if s.lastConsecutive+1 == seq {
 			s.lastConsecutive = seq
 			s.fixLastConsecutive() // there might be other valid packets after seq
@@ -107,6 +112,10 @@ func (s *ReceiveLog) MissingSeqNumbers(skipLastN uint16) []uint16 {
 func (s *ReceiveLog) IgnoreSeqNum(seq uint16) {
 	// Forcefully mark this packet as received - used in scenarios where we
 	// we give up on NACKing a packet
+	if s.end-seq >= s.size {
+		return
+	}
+
 	s.set(seq)
 
 	// If this seqnum was blocking, ffw it
-- 
2.43.0


From cb6c0fe98128bb5c340285303908d56da677fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 03/34] fix: a late packet does not move the send buffer window
 back

---
 internal/webrtc/utils/send_buffer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/utils/send_buffer.go b/internal/webrtc/utils/send_buffer.go
index 54e606a..a3b16a1 100644
--- a/internal/webrtc/utils/send_buffer.go
+++ b/internal/webrtc/utils/send_buffer.go
@@ -58,10 +58,14 @@ func (s *SendBuffer) Add(packet *rtp.Packet) {
 		for i := s.lastAdded + 1; i != seq; i++ {
 			s.packets[i%s.size] = nil
 		}
+
+		s.lastAdded = seq
+	} else if s.lastAdded-seq >= s.size {
+		// too old: its slot belongs to a newer packet by now
+		return
 	}
 
 	s.packets[seq%s.size] = packet
-	s.lastAdded = seq
 }
 
 func (s *SendBuffer) Get(seq uint16) *rtp.Packet {
-- 
2.43.0


From 26e3e098ed92248ad939cdcc7b895e98efa8f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 04/34] fix: a jitter buffer starting at zero keeps its start

---
 internal/webrtc/utils/jitter_buffer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/utils/jitter_buffer.go b/internal/webrtc/utils/jitter_buffer.go
index 93d670f..045038c 100644
--- a/internal/webrtc/utils/jitter_buffer.go
+++ b/internal/webrtc/utils/jitter_buffer.go
@@ -16,6 +16,7 @@ type JitterBuffer struct {
 	packetTimeout        time.Duration
 	lastSkippedSeq       int64
 	ctx                  context.Context
+	started              bool
 }
 
 func NewJitterBuffer(
@@ -49,10 +50,11 @@ func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
 		return false
 	}
 
-	if s.nextStart == 0 {
+	if !s.started {
 		log.WithField("session", s.ctx.Value("session")).
 			Tracef("First packet in jitter buffer: seq=%d", seq)
 		s.nextStart = seq
+		s.started = true
 	}
 
 	if seq > s.end {
-- 
2.43.0


From e93947e6296638e1ad6fdcf2a586eb788fbfe69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 05/34] fix: undecodable messages no longer crash the event
 accessors

---
 internal/pubsub/events/events.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/pubsub/events/events.go b/internal/pubsub/events/events.go
index eff67b3..10a4795 100644
--- a/internal/pubsub/events/events.go
+++ b/internal/pubsub/events/events.go
@@ -44,10 +44,13 @@ type LiveKitConfig struct {
 }
 
 func (e *Event) IsValid() bool {
-	return e.Id != ""
+	return e != nil && e.Id != ""
 }
 
 func (e *Event) StartRecording() *StartRecording {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*StartRecording); ok {
 		return ev
 	}
@@ -55,6 +58,9 @@ func (e *Event) StartRecording() *StartRecording {
 }
 
 func (e *Event) StartRecordingResponse() *StartRecordingResponse {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*StartRecordingResponse); ok {
 		return ev
 	}
@@ -62,6 +68,9 @@ func (e *Event) StartRecordingResponse() *StartRecordingResponse {
 }
 
 func (e *Event) StopRecording() *StopRecording {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*StopRecording); ok {
 		return ev
 	}
@@ -346,6 +355,9 @@ type GetRecorderStatus struct {
 }
 
 func (e *Event) GetRecorderStatus() *GetRecorderStatus {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*GetRecorderStatus); ok {
 		return ev
 	}
-- 
2.43.0


From b67ebc586a0660cdc0759e739e89bdd32f71e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 06/34] fix: every HTTP offer gets the answer of its own
 recording

---
 internal/server/http.go | 48 +++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/internal/server/http.go b/internal/server/http.go
index 666d7f8..e4608dd 100644
--- a/internal/server/http.go
+++ b/internal/server/http.go
@@ -9,12 +9,14 @@ import (
 	"net/http"
 	"path"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/events"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/web"
+	"github.com/google/uuid"
 	log "github.com/sirupsen/logrus"
 )
 
@@ -37,13 +39,18 @@ func NewHTTPServer(cfg *config.Config, ps pubsub.PubSub) *HTTPServer {
 }
 
 func (s *HTTPServer) Serve() {
-	answerChannels := make(map[string]*chan string)
+	var m sync.Mutex
+	answerChannels := make(map[string]chan *events.StartRecordingResponse)
 	go s.pubsub.Subscribe(s.cfg.PubSub.Channels.Publish,
 		func(ctx context.Context, msg []byte) {
 			event := events.Decode(msg)
 			if e := event.StartRecordingResponse(); e != nil {
-				if e.SDP != nil {
-					*answerChannels[e.SessionId] <- *e.SDP
+				m.Lock()
+				answerChan, ok := answerChannels[e.SessionId]
+				delete(answerChannels, e.SessionId)
+				m.Unlock()
+				if ok {
+					answerChan <- e
 				}
 			}
 		},
@@ -51,15 +58,18 @@ func (s *HTTPServer) Serve() {
 			return nil
 		},
 	)
-	go s.serve(func(sdp string) string {
+	go s.serve(func(sdp string) (string, error) {
 		t := time.Now()
-		sessId := t.Format("20060102150405")
-		answerChan := make(chan string)
-		answerChannels[sessId] = &answerChan
+		// The time alone is not unique
+		sessId := fmt.Sprintf("%s-%s", t.Format("20060102150405"), uuid.New().String())
+		answerChan := make(chan *events.StartRecordingResponse, 1)
+		m.Lock()
+		answerChannels[sessId] = answerChan
+		m.Unlock()
 		e := events.StartRecording{
 			Id:        "startRecording",
 			SessionId: sessId,
-			FileName:  fmt.Sprintf("%s.webm", t.Format("20060102150405")),
+			FileName:  fmt.Sprintf("%s.webm", sessId),
 			Adapter:   "mediasoup",
 			AdapterOptions: &events.AdapterOptions{
 				Mediasoup: &events.MediasoupConfig{
@@ -70,22 +80,32 @@ func (s *HTTPServer) Serve() {
 		j, _ := json.Marshal(e)
 		s.pubsub.Publish(s.cfg.PubSub.Channels.Subscribe, j)
 		answer := <-answerChan
-		delete(answerChannels, sessId)
-		return answer
+		if answer.SDP == nil {
+			if answer.Error != nil {
+				return "", fmt.Errorf("recording failed: %s", *answer.Error)
+			}
+			return "", fmt.Errorf("recording failed")
+		}
+		return *answer.SDP, nil
 	})
 }
 
-func (s *HTTPServer) serve(handler func(string) string) {
+func (s *HTTPServer) serve(handler func(string) (string, error)) {
 
 	http.HandleFunc("/sdp", func(w http.ResponseWriter, r *http.Request) {
 		body, _ := io.ReadAll(r.Body)
 		if len(body) == 0 || r.Method != http.MethodPost {
 			w.WriteHeader(422)
-			fmt.Fprintf(w, "Post SDP offer in body")
+			fmt.Fprint(w, "Post SDP offer in body")
+			return
+		}
+		response, err := handler(string(body))
+		if err != nil {
+			log.Error(err)
+			http.Error(w, err.Error(), http.StatusBadGateway)
 			return
 		}
-		response := handler(string(body))
-		fmt.Fprintf(w, response)
+		fmt.Fprint(w, response)
 	})
 
 	http.Handle("/media/", http.StripPrefix("/media", http.FileServer(http.Dir(s.mediaRoot))))
-- 
2.43.0


From 51fb009f191155eb6ec896c2a77af1d461f09c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 07/34] fix: sessions end once, release everything and report
 it in order

---
 internal/server/server.go  |  66 ++++++++++------------
 internal/server/session.go | 110 ++++++++++++++++++++++++++-----------
 2 files changed, 106 insertions(+), 70 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index e5864fc..9cf166f 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"sync"
-	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
@@ -39,13 +38,12 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		e := event.StartRecording()
 
 		if e == nil {
-			s.PublishPubSub(e.Fail(fmt.Errorf("incorrect event")))
+			return
 		}
 
 		ctx = context.WithValue(ctx, "session", e.SessionId)
 
-		_, ok := s.sessions.Load(e.SessionId)
-		if ok {
+		if old, ok := s.sessions.Load(e.SessionId); ok && !old.(*Session).IsOver() {
 			err := fmt.Errorf("session %s already exists", e.SessionId)
 			log.Error(err)
 			s.PublishPubSub(e.Fail(err))
@@ -77,16 +75,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 				e.AdapterOptions.LiveKit.Room,
 				e.AdapterOptions.LiveKit.TrackIDs,
 			)
-			sess := NewSession(e.SessionId, s, nil, wrtc, rec)
-			s.sessions.Store(e.SessionId, sess)
-
-			if _, err := sess.StartRecording(e); err != nil {
-				log.WithField("session", ctx.Value("session")).Error(err)
-				s.PublishPubSub(e.Fail(err))
-				return
-			}
-
-			s.PublishPubSub(e.Success("", rec.GetFilePath()))
+			s.startSession(ctx, e, NewSession(e.SessionId, s, nil, wrtc, rec))
 
 		case "mediasoup", "":
 			rec, err = recorder.NewRecorder(ctx, s.cfg.Recorder, e.FileName)
@@ -97,25 +86,8 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 				return
 			}
 
-			var sdp string
-			func() {
-				defer func() {
-					if r := recover(); r != nil {
-						err = fmt.Errorf("%v", r)
-					}
-				}()
-
-				wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
-				sess := NewSession(e.SessionId, s, wrtc, nil, rec)
-				s.sessions.Store(e.SessionId, sess)
-				sdp, err = sess.StartRecording(e)
-				s.PublishPubSub(e.Success(sdp, rec.GetFilePath()))
-			}()
-
-			if err != nil {
-				log.WithField("session", ctx.Value("session")).Error(err)
-				s.PublishPubSub(e.Fail(err))
-			}
+			wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
+			s.startSession(ctx, e, NewSession(e.SessionId, s, wrtc, nil, rec))
 
 		default:
 			err := fmt.Errorf("unknown adapter type: %s", e.Adapter)
@@ -132,9 +104,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		}
 
 		if sess, ok := s.sessions.Load(e.SessionId); ok {
-			ts := sess.(*Session).StopRecording() / time.Millisecond
-			s.PublishPubSub(e.Stopped("stopped", ts))
-			s.CloseSession(e.SessionId)
+			sess.(*Session).End("stopped")
 		}
 
 	case "getRecorderStatus":
@@ -142,6 +112,26 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 	}
 }
 
+// startSession publishes the outcome of the start before anything else is
+// published for the session, and leaves nothing behind when it fails.
+func (s *Server) startSession(ctx context.Context, e *events.StartRecording, sess *Session) {
+	sess.m.Lock()
+	sdp, err := sess.StartRecording(e)
+
+	if err != nil {
+		sess.stopped = true
+		sess.m.Unlock()
+		log.WithField("session", ctx.Value("session")).Error(err)
+		sess.StopRecording()
+		s.PublishPubSub(e.Fail(err))
+		return
+	}
+
+	s.sessions.Store(e.SessionId, sess)
+	s.PublishPubSub(e.Success(sdp, sess.recorder.GetFilePath()))
+	sess.m.Unlock()
+}
+
 func (s *Server) PublishPubSub(msg interface{}) {
 	j, _ := json.Marshal(msg)
 	s.pubsub.Publish(s.cfg.PubSub.Channels.Publish, j)
@@ -153,6 +143,6 @@ func (s *Server) OnStart() error {
 	return nil
 }
 
-func (s *Server) CloseSession(id string) {
-	s.sessions.Delete(id)
+func (s *Server) CloseSession(sess *Session) {
+	s.sessions.CompareAndDelete(sess.id, sess)
 }
diff --git a/internal/server/session.go b/internal/server/session.go
index ce47407..6243b2b 100644
--- a/internal/server/session.go
+++ b/internal/server/session.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"fmt"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/prometheus"
@@ -10,6 +12,7 @@ import (
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/signal"
 	pwebrtc "github.com/pion/webrtc/v3"
+	log "github.com/sirupsen/logrus"
 )
 
 type Session struct {
@@ -18,7 +21,11 @@ type Session struct {
 	webrtc   *webrtc.WebRTC
 	livekit  *livekit.LiveKitWebRTC
 	recorder recorder.Recorder
-	stopped  bool
+
+	// Serializes what is published about the session
+	m       sync.Mutex
+	stopped bool // its end has been claimed
+	over    bool // its end has been published
 }
 
 func NewSession(id string, s *Server, wrtc *webrtc.WebRTC, lk *livekit.LiveKitWebRTC, recorder recorder.Recorder) *Session {
@@ -31,31 +38,26 @@ func NewSession(id string, s *Server, wrtc *webrtc.WebRTC, lk *livekit.LiveKitWe
 	}
 }
 
-func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
+// StartRecording is called with the session locked.
+func (s *Session) StartRecording(e *events.StartRecording) (sdp string, err error) {
 	prometheus.Sessions.Inc()
+
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+	}()
+
 	// Only initialize WebRTC if we're using mediasoup
 	if s.webrtc != nil {
 		offer := pwebrtc.SessionDescription{}
 		signal.Decode(e.GetSDP(), &offer)
 		s.webrtc.SetConnectionStateCallback(func(state pwebrtc.ICEConnectionState) {
 			if state > pwebrtc.ICEConnectionStateConnected {
-				if !s.stopped {
-					ts := s.StopRecording() / time.Millisecond
-					s.server.PublishPubSub(events.NewRecordingStopped(s.id, state.String(), ts))
-					s.server.CloseSession(s.id)
-				}
+				s.End(state.String())
 			}
 		})
-		s.webrtc.SetFlowCallback(func(isFlowing bool, timestamp time.Duration, closed bool) {
-			var message interface{}
-			if !closed {
-				message = events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond)
-			} else {
-				s.server.CloseSession(s.id)
-				message = events.NewRecordingStopped(s.id, "closed", timestamp/time.Millisecond)
-			}
-			s.server.PublishPubSub(message)
-		})
+		s.webrtc.SetFlowCallback(s.flowChanged)
 		s.webrtc.SetSDPOffer(offer)
 		answer, err := s.webrtc.Init(s.recorder)
 
@@ -68,16 +70,7 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 
 	// For LiveKit, we don't need to return an SDP answer
 	if s.livekit != nil {
-		s.livekit.SetFlowCallback(func(isFlowing bool, timestamp time.Duration, closed bool) {
-			var message interface{}
-			if !closed {
-				message = events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond)
-			} else {
-				s.server.CloseSession(s.id)
-				message = events.NewRecordingStopped(s.id, "closed", timestamp/time.Millisecond)
-			}
-			s.server.PublishPubSub(message)
-		})
+		s.livekit.SetFlowCallback(s.flowChanged)
 
 		if err := s.livekit.Init(s.recorder); err != nil {
 			return "", err
@@ -87,11 +80,64 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 	return "", nil
 }
 
-func (s *Session) StopRecording() time.Duration {
+func (s *Session) flowChanged(isFlowing bool, timestamp time.Duration, closed bool) {
+	if closed {
+		s.End("closed")
+		return
+	}
+
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	if !s.stopped {
-		s.stopped = true
-		prometheus.Sessions.Dec()
-		return s.recorder.Close()
+		s.server.PublishPubSub(events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond))
+	}
+}
+
+// End stops the recording and reports it, unless that has already happened.
+func (s *Session) End(reason string) {
+	s.m.Lock()
+	claimed := s.stopped
+	s.stopped = true
+	s.m.Unlock()
+
+	if claimed {
+		return
 	}
-	return 0
+
+	// Not locked: callbacks may be waiting for the session
+	ts := s.StopRecording() / time.Millisecond
+
+	s.m.Lock()
+	defer s.m.Unlock()
+	s.server.PublishPubSub(events.NewRecordingStopped(s.id, reason, ts))
+	s.server.CloseSession(s)
+	s.over = true
+}
+
+// IsOver tells whether the end of the session has been published.
+func (s *Session) IsOver() bool {
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	return s.over
+}
+
+// StopRecording releases everything the session holds.
+func (s *Session) StopRecording() time.Duration {
+	prometheus.Sessions.Dec()
+
+	if s.webrtc != nil {
+		if err := s.webrtc.Close(); err != nil {
+			log.WithField("session", s.id).Error(err)
+		}
+	}
+
+	if s.livekit != nil {
+		if err := s.livekit.Close(); err != nil {
+			log.WithField("session", s.id).Error(err)
+		}
+	}
+
+	return s.recorder.Close()
 }
-- 
2.43.0


From 1fbb736e1deadcc36f1c64a79f24f3cc7d43493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 08/34] fix: accept the mediasoup adapter options without an
 adapter name

---
 internal/pubsub/events/events.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pubsub/events/events.go b/internal/pubsub/events/events.go
index 10a4795..9ef2663 100644
--- a/internal/pubsub/events/events.go
+++ b/internal/pubsub/events/events.go
@@ -117,7 +117,7 @@ func (e *StartRecording) Validate() error {
 		if len(e.AdapterOptions.LiveKit.TrackIDs) == 0 {
 			return fmt.Errorf("livekit adapter requires at least one track ID")
 		}
-	case AdapterMediasoup:
+	case AdapterMediasoup, "":
 		// TODO remove legacy SDP field later on - prlanzarin
 		if e.AdapterOptions != nil && e.AdapterOptions.Mediasoup != nil && e.AdapterOptions.Mediasoup.SDP != "" {
 			return nil
-- 
2.43.0


From f4641fb53b2e88decbb19c363efdf20ed33d61dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 09/34] fix: recordings stay inside the directory and bad
 requests create nothing

---
 internal/webrtc/recorder/recorder.go | 31 ++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index 5f1f2b5..c9fbeb4 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -7,6 +7,7 @@ import (
 	"path"
 	"path/filepath"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -40,8 +41,23 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 		return "", 0, fmt.Errorf("directory does not exist %s", cfg.Directory)
 	}
 
+	var fileMode os.FileMode
+
+	if parsedFileMode, err := strconv.ParseUint(cfg.FileMode, 0, 32); err != nil {
+		return "", 0, fmt.Errorf("invalid file mode %s", cfg.FileMode)
+	} else {
+		fileMode = os.FileMode(parsedFileMode)
+	}
+
 	if !cfg.WriteToDevNull {
-		file = path.Clean(dir + string(os.PathSeparator) + file)
+		name := file
+		file = path.Clean(dir + string(os.PathSeparator) + name)
+
+		if rel, err := filepath.Rel(dir, file); err != nil ||
+			rel == ".." || strings.HasPrefix(rel, ".."+string(os.PathSeparator)) {
+			return "", 0, fmt.Errorf("file is outside the recording directory %s", name)
+		}
+
 		fileDir := path.Dir(file)
 
 		if _, err := os.Stat(fileDir); err != nil {
@@ -71,19 +87,16 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 		file = os.DevNull
 	}
 
-	var fileMode os.FileMode
-
-	if parsedFileMode, err := strconv.ParseUint(cfg.FileMode, 0, 32); err != nil {
-		return "", 0, fmt.Errorf("invalid file mode %s", cfg.FileMode)
-	} else {
-		fileMode = os.FileMode(parsedFileMode)
-	}
-
 	return file, fileMode, nil
 }
 
 func NewRecorder(ctx context.Context, cfg config.Recorder, file string) (Recorder, error) {
 	ext := filepath.Ext(file)
+
+	if ext != ".webm" {
+		return nil, fmt.Errorf("unsupported file extension %s", ext)
+	}
+
 	file, fileMode, err := ValidateAndPrepareFile(ctx, cfg, file)
 
 	if err != nil {
-- 
2.43.0


From a88d083e5e32c4d29dbf6d176e8e09e5ce07dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 10/34] fix: two live recordings never share a file

---
 internal/webrtc/recorder/ivfwriter.go | 13 +++++++++----
 internal/webrtc/recorder/recorder.go  | 23 ++++++++++++++++++++---
 internal/webrtc/recorder/webm.go      |  1 +
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/internal/webrtc/recorder/ivfwriter.go b/internal/webrtc/recorder/ivfwriter.go
index a1d1108..8d52ab2 100644
--- a/internal/webrtc/recorder/ivfwriter.go
+++ b/internal/webrtc/recorder/ivfwriter.go
@@ -25,16 +25,21 @@ type RTPPacketWithMeta struct {
 	Marker     bool
 }
 
+func ivfPath(basePath string) string {
+	ext := filepath.Ext(basePath)
+
+	return basePath[:len(basePath)-len(ext)] + ".ivf"
+}
+
 // VP8 only for now
 func NewIVFWriter(basePath string) (*IVFWriter, error) {
 	if basePath == "" {
 		return &IVFWriter{enabled: false}, nil
 	}
 
-	ext := filepath.Ext(basePath)
-	ivfPath := basePath[:len(basePath)-len(ext)] + ".ivf"
+	filePath := ivfPath(basePath)
 
-	file, err := os.Create(ivfPath)
+	file, err := os.Create(filePath)
 	if err != nil {
 		return nil, err
 	}
@@ -42,7 +47,7 @@ func NewIVFWriter(basePath string) (*IVFWriter, error) {
 	ivf := &IVFWriter{
 		file:     file,
 		enabled:  true,
-		filePath: ivfPath,
+		filePath: filePath,
 		closed:   false,
 	}
 
diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index c9fbeb4..f7f3266 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -8,6 +8,7 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -34,6 +35,9 @@ type Recorder interface {
 	Close() time.Duration
 }
 
+// Files of live recordings: they are created only when media arrives.
+var inUse sync.Map
+
 func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file string) (string, os.FileMode, error) {
 	dir := path.Clean(cfg.Directory)
 
@@ -80,8 +84,21 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 			}
 		}
 
-		if _, err := os.Stat(file); !os.IsNotExist(err) {
-			return "", 0, fmt.Errorf("file already exists %s", file)
+		if _, used := inUse.LoadOrStore(file, true); used {
+			return "", 0, fmt.Errorf("file is already being recorded %s", file)
+		}
+
+		paths := []string{file}
+
+		if cfg.WriteIVFCopy {
+			paths = append(paths, ivfPath(file))
+		}
+
+		for _, p := range paths {
+			if _, err := os.Stat(p); !os.IsNotExist(err) {
+				inUse.Delete(file)
+				return "", 0, fmt.Errorf("file already exists %s", p)
+			}
 		}
 	} else {
 		file = os.DevNull
@@ -112,7 +129,7 @@ func NewRecorder(ctx context.Context, cfg config.Recorder, file string) (Recorde
 			cfg.VideoPacketQueueSize,
 			cfg.AudioPacketQueueSize,
 			cfg.UseCustomSampler,
-			cfg.WriteIVFCopy,
+			cfg.WriteIVFCopy && !cfg.WriteToDevNull,
 		)
 		r.WithContext(ctx)
 	default:
diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index dbffd08..1c4ed70 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -238,6 +238,7 @@ func (r *WebmRecorder) close() time.Duration {
 		return r.videoTimestamp
 	}
 	r.closed = true
+	defer inUse.Delete(r.file)
 
 	if r.audioWriter != nil {
 		if err := r.audioWriter.Close(); err != nil {
-- 
2.43.0


From 0282a0577ae92f4476c64cf15ad85d22a6433b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 11/34] fix: truncated VP8 payloads no longer crash the
 recorder

---
 internal/webrtc/recorder/webm.go | 36 +++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 1c4ed70..1ed519b 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -293,6 +293,10 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		return
 	}
 
+	if _, err := unmarshalVP8(packet.Payload); err != nil {
+		return
+	}
+
 	isKeyFrame := IsVP8KeyFrame(packet)
 
 	if isKeyFrame {
@@ -447,14 +451,30 @@ func validateVP8Frame(frame []byte, frameInfo *VP8FrameInfo) (bool, string) {
 	return true, ""
 }
 
+// unmarshalVP8 accepts any payload: the depacketizer panics on some truncated
+// descriptors and does not mind an empty body.
+func unmarshalVP8(payload []byte) (vp8Packet codecs.VP8Packet, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+	}()
+
+	if _, err = vp8Packet.Unmarshal(payload); err == nil && len(vp8Packet.Payload) == 0 {
+		err = fmt.Errorf("no VP8 data")
+	}
+
+	return vp8Packet, err
+}
+
 func IsVP8KeyFrame(packet *rtp.Packet) bool {
 	if len(packet.Payload) == 0 {
 		return false
 	}
 
-	vp8Packet := codecs.VP8Packet{}
+	vp8Packet, err := unmarshalVP8(packet.Payload)
 
-	if _, err := vp8Packet.Unmarshal(packet.Payload); err != nil {
+	if err != nil {
 		return false
 	}
 
@@ -466,13 +486,13 @@ func GetVP8KFDimension(packet *rtp.Packet) (int, int) {
 		return 0, 0
 	}
 
-	vp8Packet := codecs.VP8Packet{}
+	vp8Packet, err := unmarshalVP8(packet.Payload)
 
-	if _, err := vp8Packet.Unmarshal(packet.Payload); err != nil {
+	if err != nil {
 		return 0, 0
 	}
 
-	if vp8Packet.S != 0 || vp8Packet.PID != 0 {
+	if vp8Packet.S == 0 || vp8Packet.PID != 0 || len(vp8Packet.Payload) < 10 {
 		return 0, 0
 	}
 
@@ -528,11 +548,13 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	r.expectedNextSeq = p.SequenceNumber + 1
 	r.lastProcessedSeq = p.SequenceNumber
 
-	vp8Packet := codecs.VP8Packet{}
+	vp8Packet, err := unmarshalVP8(p.Payload)
 
-	if _, err := vp8Packet.Unmarshal(p.Payload); err != nil {
+	if err != nil {
 		log.WithField("session", r.ctx.Value("session")).
 			Debugf("Failed to unmarshal VP8 packet: seq=%d, err=%v", p.SequenceNumber, err)
+		r.currentFrame = nil
+		r.currentFrameInfo = nil
 		r.hasKeyFrame = false
 		r.RequestKeyframe()
 		return
-- 
2.43.0


From 1450c8db5eaab494e79cc11ee65f4f78b039ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 12/34] fix: a frame with missing packets is never recorded

---
 internal/webrtc/recorder/webm.go | 36 ++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 1ed519b..5f404ed 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -87,6 +87,7 @@ type WebmRecorder struct {
 	skipSignaled     bool
 	lastProcessedSeq uint16
 	expectedNextSeq  uint16
+	seqStarted       bool
 
 	corruptedFrameCount int
 	lastFrameSize       int
@@ -511,11 +512,18 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	if len(p.Payload) == 0 || r.closed {
+	if r.closed {
 		return
 	}
 
-	if r.expectedNextSeq > 0 && p.SequenceNumber != r.expectedNextSeq {
+	if r.seqStarted && p.SequenceNumber != r.expectedNextSeq {
+		if r.expectedNextSeq-p.SequenceNumber <= r.videoPacketQueueSize {
+			log.WithField("session", r.ctx.Value("session")).
+				Debugf("Dropping late or duplicate packet: expected=%d, got=%d",
+					r.expectedNextSeq, p.SequenceNumber)
+			return
+		}
+
 		if !r.skipSignaled {
 			log.WithField("session", r.ctx.Value("session")).
 				Debugf("Sequence discontinuity detected: expected=%d, got=%d",
@@ -543,11 +551,24 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 
 		r.skipSignaled = false
+
+		// Whatever is missing belonged to this frame or to one the next frames
+		// depend on
+		r.currentFrame = nil
+		r.currentFrameInfo = nil
+		r.hasKeyFrame = false
+		r.RequestKeyframe()
 	}
 
+	r.seqStarted = true
 	r.expectedNextSeq = p.SequenceNumber + 1
 	r.lastProcessedSeq = p.SequenceNumber
 
+	// Padding
+	if len(p.Payload) == 0 {
+		return
+	}
+
 	vp8Packet, err := unmarshalVP8(p.Payload)
 
 	if err != nil {
@@ -575,15 +596,12 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	if vp8Packet.S == 1 && vp8Packet.PID > 0 {
 		log.WithField("session", r.ctx.Value("session")).
 			Warnf("Mid-frame partition detected: seq=%d, PID=%d", p.SequenceNumber, vp8Packet.PID)
-		if r.currentFrameInfo != nil {
-			r.currentFrameInfo.packets = append(r.currentFrameInfo.packets, p.SequenceNumber)
-			r.currentFrame = append(r.currentFrame, vp8Packet.Payload[0:]...)
-			return
-		}
 	}
 
+	isFrameStart := vp8Packet.S == 1 && vp8Packet.PID == 0
+
 	// NEW FRAME!
-	if vp8Packet.S == 1 {
+	if isFrameStart {
 		// OLD FRAME, but not complete. Discard it.
 		if r.currentFrame != nil && len(r.currentFrame) > 0 {
 			var logMsgPkts = "none"
@@ -718,7 +736,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		r.currentFrame = nil
 		r.currentFrameInfo = nil
 		return
-	case r.currentFrame == nil && vp8Packet.S != 1:
+	case r.currentFrame == nil && !isFrameStart:
 		log.WithField("session", r.ctx.Value("session")).
 			Debugf("Dropping continuation packet without start bit: seq=%d", p.SequenceNumber)
 		r.currentFrameInfo = nil
-- 
2.43.0


From eec00f389f675236757cd038c62e218ba4f0d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 13/34] fix: keyframe flags, recording start and restarts of
 the WebM writer

---
 internal/webrtc/recorder/webm.go | 52 +++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 5f404ed..fbf096e 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -241,16 +241,8 @@ func (r *WebmRecorder) close() time.Duration {
 	r.closed = true
 	defer inUse.Delete(r.file)
 
-	if r.audioWriter != nil {
-		if err := r.audioWriter.Close(); err != nil {
-			panic(err)
-		}
-	}
-	if r.videoWriter != nil {
-		if err := r.videoWriter.Close(); err != nil {
-			panic(err)
-		}
-	}
+	r.closeWriters()
+
 	if r.started {
 		log.WithField("session", r.ctx.Value("session")).
 			Infof("webm writer closed: %s", r.file)
@@ -274,6 +266,22 @@ func (r *WebmRecorder) close() time.Duration {
 	return r.videoTimestamp
 }
 
+// Locked
+func (r *WebmRecorder) closeWriters() {
+	if r.audioWriter != nil {
+		if err := r.audioWriter.Close(); err != nil {
+			panic(err)
+		}
+		r.audioWriter = nil
+	}
+	if r.videoWriter != nil {
+		if err := r.videoWriter.Close(); err != nil {
+			panic(err)
+		}
+		r.videoWriter = nil
+	}
+}
+
 func (r *WebmRecorder) Close() time.Duration {
 	r.m.Lock()
 	ts := r.close()
@@ -325,8 +333,7 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		}
 
 		if isKf && ((r.videoWriter == nil && r.hasVideo) ||
-			(r.audioWriter == nil && r.hasAudio) ||
-			(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio))) {
+			(r.audioWriter == nil && r.hasAudio)) {
 			width, height := GetVP8KFDimension(packet)
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
@@ -855,6 +862,16 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		Tracef("Assembled complete VP8 frame: keyframe=%v, size=%d",
 			isKeyFrame, frameSize)
 
+	// The flag of the last packet says nothing about the frame
+	if r.currentFrameInfo != nil {
+		isKeyFrame = r.currentFrameInfo.isKeyFrame
+	}
+
+	// The recording starts with the first frame written
+	if !r.started {
+		r.packetTimestamp = p.Timestamp
+	}
+
 	duration := time.Duration((float64(p.Timestamp-r.packetTimestamp)/float64(vp8SampleRate))*secondToNanoseconds) * time.Nanosecond
 	newVideoTs := r.videoTimestamp + duration
 	newPts := int64(newVideoTs / time.Millisecond)
@@ -863,13 +880,11 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		Tracef("Frame duration: %v, pts=%v, new timestamp: %v, prevPacketTS: %v, newPacketTS: %v",
 			duration, newPts, r.videoTimestamp+duration, r.packetTimestamp, p.Timestamp)
 
-	// Initialize writer if either:
+	// Initialize writer, always at a keyframe, if either:
 	// 1. We don't have a video writer yet and we have video
 	// 2. We don't have an audio writer yet and we have audio
-	// 3. We have both tracks but haven't received valid samples from both yet
-	if (r.videoWriter == nil && r.hasVideo) ||
-		(r.audioWriter == nil && r.hasAudio) ||
-		(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio)) {
+	if isKeyFrame && ((r.videoWriter == nil && r.hasVideo) ||
+		(r.audioWriter == nil && r.hasAudio)) {
 
 		raw := uint(r.currentFrame[6]) | uint(r.currentFrame[7])<<8 | uint(r.currentFrame[8])<<16 | uint(r.currentFrame[9])<<24
 		width := int(raw & 0x3FFF)
@@ -987,6 +1002,9 @@ func (r *WebmRecorder) initWriter(width, height int) {
 		return
 	}
 
+	// A track announced late restarts the recording
+	r.closeWriters()
+
 	log.WithField("file", r.file).WithField("fileMode", r.fileMode).Debug("Opening file for writing")
 	w, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
 	if err != nil {
-- 
2.43.0


From ff61fe70d0a04f0d5c5ec26153794d095b451fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 14/34] fix: audio-only recordings report their duration when
 they stop

---
 internal/webrtc/recorder/webm.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index fbf096e..4c9d755 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -62,8 +62,9 @@ type WebmRecorder struct {
 	audioBuilder, videoBuilder     *samplebuilder.SampleBuilder
 	audioTimestamp, videoTimestamp time.Duration
 
-	started bool
-	closed  bool
+	started       bool
+	closed        bool
+	videoRecorded bool
 
 	// Seen at least one keyframe
 	seenKeyFrame bool
@@ -236,7 +237,7 @@ func isSequenceInRange(seq, start, end uint16) bool {
 // Locked
 func (r *WebmRecorder) close() time.Duration {
 	if r.closed {
-		return r.videoTimestamp
+		return r.lastTimestamp()
 	}
 	r.closed = true
 	defer inUse.Delete(r.file)
@@ -263,7 +264,16 @@ func (r *WebmRecorder) close() time.Duration {
 		r.ivfWriter = nil
 	}
 
-	return r.videoTimestamp
+	return r.lastTimestamp()
+}
+
+// Locked. The recorded duration: of the video if there is any.
+func (r *WebmRecorder) lastTimestamp() time.Duration {
+	if r.videoRecorded {
+		return r.videoTimestamp
+	}
+
+	return r.audioTimestamp
 }
 
 // Locked
@@ -343,6 +353,7 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		if r.videoWriter != nil {
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Writing VP8 frame: ts=%d, size=%d, KF=%v", ts, len(sample.Data), isKf)
+			r.videoRecorded = true
 			r.videoTimestamp += sample.Duration
 
 			if _, err := r.videoWriter.Write(isKf, int64(r.videoTimestamp/time.Millisecond), sample.Data); err != nil {
@@ -903,6 +914,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 					newPts, r.currentFrameInfo.startSequence, p.SequenceNumber, duration, r.packetTimestamp, p.Timestamp)
 		}
 
+		r.videoRecorded = true
 		r.videoTimestamp = newVideoTs
 		r.packetTimestamp = p.Timestamp
 		r.pts = newPts
-- 
2.43.0


From c30655237980c445d45b1796cf8127c2fca0d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 15/34] fix: IVF copy and keyframes of the builtin sampler

---
 internal/webrtc/recorder/ivfwriter.go |  3 +-
 internal/webrtc/recorder/webm.go      | 51 ++++++++++++---------------
 2 files changed, 23 insertions(+), 31 deletions(-)

diff --git a/internal/webrtc/recorder/ivfwriter.go b/internal/webrtc/recorder/ivfwriter.go
index 8d52ab2..55b46d3 100644
--- a/internal/webrtc/recorder/ivfwriter.go
+++ b/internal/webrtc/recorder/ivfwriter.go
@@ -99,8 +99,7 @@ func (writer *IVFWriter) writeIVFHeader(width, height uint16) error {
 		return err
 	}
 
-	_, err = writer.file.Seek(0, io.SeekStart)
-	return err
+	return nil
 }
 
 func (writer *IVFWriter) UpdateDimensions(width, height uint16) error {
diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 4c9d755..9797a06 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -336,15 +336,12 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			return
 		}
 
-		isKf := false
-
-		if r.currKeyFrame != nil {
-			isKf = ts == r.currKeyFrame.Timestamp
-		}
+		// Newer packets may have been pushed since the one that starts this frame
+		isKf := len(sample.Data) > 0 && sample.Data[0]&0x1 == 0
 
 		if isKf && ((r.videoWriter == nil && r.hasVideo) ||
 			(r.audioWriter == nil && r.hasAudio)) {
-			width, height := GetVP8KFDimension(packet)
+			width, height := frameDimensions(sample.Data)
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
 			r.initWriter(width, height)
@@ -364,8 +361,8 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 				Tracef("VP8 frame written: ts=%d, size=%d, KF=%v", ts, len(sample.Data), isKf)
 		}
 
-		if r.writeIVFCopy {
-			r.pushToIVFWriter(sample.Data, packet)
+		if r.writeIVFCopy && r.videoWriter != nil {
+			r.pushToIVFWriter(sample.Data, ts, isKf)
 		}
 	}
 }
@@ -515,7 +512,16 @@ func GetVP8KFDimension(packet *rtp.Packet) (int, int) {
 		return 0, 0
 	}
 
-	raw := uint(vp8Packet.Payload[6]) | uint(vp8Packet.Payload[7])<<8 | uint(vp8Packet.Payload[8])<<16 | uint(vp8Packet.Payload[9])<<24
+	return frameDimensions(vp8Packet.Payload)
+}
+
+// frameDimensions reads the dimensions from the header of a keyframe.
+func frameDimensions(frame []byte) (int, int) {
+	if len(frame) < 10 {
+		return 0, 0
+	}
+
+	raw := uint(frame[6]) | uint(frame[7])<<8 | uint(frame[8])<<16 | uint(frame[9])<<24
 	width := int(raw & 0x3FFF)
 	height := int((raw >> 16) & 0x3FFF)
 
@@ -897,9 +903,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	if isKeyFrame && ((r.videoWriter == nil && r.hasVideo) ||
 		(r.audioWriter == nil && r.hasAudio)) {
 
-		raw := uint(r.currentFrame[6]) | uint(r.currentFrame[7])<<8 | uint(r.currentFrame[8])<<16 | uint(r.currentFrame[9])<<24
-		width := int(raw & 0x3FFF)
-		height := int((raw >> 16) & 0x3FFF)
+		width, height := frameDimensions(r.currentFrame)
 
 		log.WithField("session", r.ctx.Value("session")).
 			Tracef("Frame dimensions: %dx%d", width, height)
@@ -953,7 +957,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 
 		if r.writeIVFCopy {
-			r.pushToIVFWriter(r.currentFrame, p)
+			r.pushToIVFWriter(r.currentFrame, p.Timestamp, isKeyFrame)
 		}
 
 		r.hasValidVideo = true
@@ -980,25 +984,14 @@ func (r *WebmRecorder) startIVFWriter() error {
 	return nil
 }
 
-func (r *WebmRecorder) pushToIVFWriter(frame []byte, p *rtp.Packet) {
-	if r.ivfWriter != nil && len(r.currentFrame) > 0 {
-		isKeyFrame := false
-
-		if r.currentFrameInfo != nil {
-			isKeyFrame = r.currentFrameInfo.isKeyFrame
-		} else {
-			isKeyFrame = IsVP8KeyFrame(p)
-		}
-
+func (r *WebmRecorder) pushToIVFWriter(frame []byte, timestamp uint32, isKeyFrame bool) {
+	if r.ivfWriter != nil && len(frame) > 0 {
 		if isKeyFrame && len(frame) >= 10 {
-			raw := uint(frame[6]) | uint(frame[7])<<8 | uint(frame[8])<<16 | uint(frame[9])<<24
-			width := uint16(raw & 0x3FFF)
-			height := uint16((raw >> 16) & 0x3FFF)
-
-			r.ivfWriter.UpdateDimensions(width, height)
+			width, height := frameDimensions(frame)
+			r.ivfWriter.UpdateDimensions(uint16(width), uint16(height))
 		}
 
-		err := r.ivfWriter.WriteFrame(frame, p.Timestamp, isKeyFrame)
+		err := r.ivfWriter.WriteFrame(frame, timestamp, isKeyFrame)
 
 		if err != nil {
 			log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From c00dddaf76068f517cc99a35b635e95585d7659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 16/34] fix: the NACK goroutine and the reader share their
 buffers safely and signal every give-up

---
 internal/webrtc/webrtc.go | 54 ++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 750d290..da41e07 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"math/rand"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -34,6 +35,7 @@ type WebRTC struct {
 
 	connStateCallbackFn func(state webrtc.ICEConnectionState)
 	flowCallback        func(isFlowing bool, videoTimestamp time.Duration, closed bool)
+	m                   sync.Mutex // guards videoTrackSSRCs and pliStats
 	videoTrackSSRCs     []uint32
 	pliStats            map[uint32]PLITracker
 	sdpOffer            webrtc.SessionDescription
@@ -172,8 +174,10 @@ func (w *WebRTC) Init(
 				track.SSRC(), track.RID())
 
 		if isVideo {
+			w.m.Lock()
 			w.videoTrackSSRCs = append(w.videoTrackSSRCs, uint32(track.SSRC()))
 			w.pliStats[uint32(track.SSRC())] = PLITracker{count: 0, timestamp: time.Now()}
+			w.m.Unlock()
 
 			if kfr, ok := rec.(interface {
 				SetKeyframeRequester(recorder.KeyframeRequester)
@@ -211,6 +215,9 @@ func (w *WebRTC) Init(
 			w.ctx,
 		)
 
+		// The receive log and the jitter buffer are shared by the reader and the NACK goroutine
+		var bufMutex sync.Mutex
+
 		if true {
 			senderSSRC := rand.Uint32()
 			sentNACKs := 0
@@ -229,7 +236,10 @@ func (w *WebRTC) Init(
 						ticker.Stop()
 						return
 					case <-ticker.C:
+						bufMutex.Lock()
 						missing := rl.MissingSeqNumbers(10)
+						bufMutex.Unlock()
+
 						if missing == nil || len(missing) == 0 {
 							continue
 						}
@@ -254,8 +264,13 @@ func (w *WebRTC) Init(
 								log.WithField("session", w.ctx.Value("session")).
 									Debugf("Giving up on packet: seq=%d, attempts=%d", seq, maxNackAttempts)
 
+								bufMutex.Lock()
 								rl.IgnoreSeqNum(seq)
-								jb.SkipPacket(int64(seq))
+								// The jitter buffer counts in unwrapped sequence numbers
+								if next := jb.GetNextStart(); uint16(next) == seq {
+									jb.SkipPacket(next)
+								}
+								bufMutex.Unlock()
 								nackedPackets[seq] = NACKTracker{count: tracker.count + 1, timestamp: now}
 							}
 						}
@@ -385,20 +400,27 @@ func (w *WebRTC) Init(
 
 			seq = su.Unwrap(uint64(rtp.SequenceNumber))
 
-			if !jb.Add(seq, rtp) {
+			bufMutex.Lock()
+			added := jb.Add(seq, rtp)
+			rl.Add(rtp.SequenceNumber)
+			packets, skipped := jb.NextPackets()
+			var skippedSeq int64
+			if packets != nil {
+				// Packets may also have been given up on by the NACK goroutine
+				skippedSeq, skipped = jb.GetAndClearLastSkipped()
+			}
+			bufMutex.Unlock()
+
+			if !added {
 				log.WithField("session", w.ctx.Value("session")).
 					Warnf("Failed to add packet to jitter buffer: seq=%d, timestamp=%d",
 						rtp.SequenceNumber, rtp.Timestamp)
 			}
 
-			rl.Add(rtp.SequenceNumber)
-
 			log.WithField("session", w.ctx.Value("session")).
 				Tracef("Processed packet: track=%s, seq=%d, unwrapped=%d, timestamp=%d, size=%d",
 					track.ID(), rtp.SequenceNumber, seq, rtp.Timestamp, len(rtp.Payload))
 
-			packets, skipped := jb.NextPackets()
-
 			if packets == nil {
 				continue
 			}
@@ -408,14 +430,9 @@ func (w *WebRTC) Init(
 					len(packets), packets[0].SequenceNumber, packets[len(packets)-1].SequenceNumber)
 
 			// Signal packet skip to WebmRecorder to handle potential frame boundary issues
-			if skipped {
-				skippedSeq, ok := jb.GetAndClearLastSkipped()
-				if ok {
-					if rec != nil {
-						rec.NotifySkippedPacket(uint16(skippedSeq))
-						log.Debugf("Notified recorder of skipped packet: seq=%d", skippedSeq)
-					}
-				}
+			if skipped && rec != nil {
+				rec.NotifySkippedPacket(uint16(skippedSeq))
+				log.Debugf("Notified recorder of skipped packet: seq=%d", skippedSeq)
 			}
 
 			for _, p := range packets {
@@ -481,7 +498,11 @@ func (w *WebRTC) Init(
 }
 
 func (w *WebRTC) RequestKeyframe() {
-	for _, ssrc := range w.videoTrackSSRCs {
+	w.m.Lock()
+	ssrcs := append([]uint32(nil), w.videoTrackSSRCs...)
+	w.m.Unlock()
+
+	for _, ssrc := range ssrcs {
 		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
@@ -494,6 +515,9 @@ func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 			Error(err)
 	}
 
+	w.m.Lock()
+	defer w.m.Unlock()
+
 	if _, exists := w.pliStats[ssrc]; !exists {
 		w.pliStats[ssrc] = PLITracker{count: 0, timestamp: time.Now()}
 	}
-- 
2.43.0


From 4bd5f4acc706763a748bfbf38ba1fa121ee9bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 17/34] fix: LiveKit tracks keep their flow and keyframe timers
 without deadlocking

---
 internal/webrtc/livekit/livekit.go | 157 +++++++++++++++++------------
 1 file changed, 91 insertions(+), 66 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 33e6130..7398404 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -39,9 +39,11 @@ type PLITracker struct {
 }
 
 type TrackFlowState struct {
-	lastSeqNum    uint16
-	lastTimestamp time.Duration
-	isFlowing     bool
+	packets        uint64
+	checkedPackets uint64
+	lastSeqNum     uint16
+	lastTimestamp  time.Duration
+	isFlowing      bool
 }
 
 type LiveKitWebRTC struct {
@@ -77,6 +79,8 @@ func NewLiveKitWebRTC(
 		pliStats:      make(map[uint32]PLITracker),
 		jitterBuffers: make(map[string]*jitter.Buffer),
 		flowState:     make(map[string]*TrackFlowState),
+
+		remoteParticipants: make(map[string]*lksdk.RemoteParticipant),
 	}
 }
 
@@ -124,7 +128,9 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 		return fmt.Errorf("failed to connect to LiveKit room: %w", err)
 	}
 
+	w.m.Lock()
 	w.room = roomClient
+	w.m.Unlock()
 
 	log.WithField("session", w.ctx.Value("session")).
 		Infof("Connected to LiveKit room %s", w.roomId)
@@ -140,10 +146,11 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 
 func (w *LiveKitWebRTC) Close() error {
 	w.m.Lock()
-	defer w.m.Unlock()
+	room := w.room
+	w.m.Unlock()
 
-	if w.room != nil {
-		w.room.Disconnect()
+	if room != nil {
+		room.Disconnect()
 	}
 
 	return nil
@@ -151,7 +158,6 @@ func (w *LiveKitWebRTC) Close() error {
 
 func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPublication, err error) {
 	subscribedTracks = make([]lksdk.TrackPublication, 0)
-	remoteParticipants := make(map[string]*lksdk.RemoteParticipant)
 
 	for _, remoteParticipant := range w.room.GetRemoteParticipants() {
 		for _, trackPublication := range remoteParticipant.TrackPublications() {
@@ -166,6 +172,11 @@ func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPubli
 					w.handler.SetHasAudio(true)
 				}
 
+				// Known before media arrives: keyframes may be requested from then on
+				w.m.Lock()
+				w.remoteParticipants[remoteParticipant.Identity()] = remoteParticipant
+				w.m.Unlock()
+
 				if err := w.subscribe(trackPublication); err != nil {
 					log.WithField("session", w.ctx.Value("session")).
 						Errorf("Failed to subscribe to track %s: %v", trackPublication.SID(), err)
@@ -173,12 +184,10 @@ func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPubli
 				}
 
 				subscribedTracks = append(subscribedTracks, trackPublication)
-				remoteParticipants[remoteParticipant.Identity()] = remoteParticipant
 			}
 		}
 	}
 
-	w.remoteParticipants = remoteParticipants
 	return subscribedTracks, nil
 }
 
@@ -201,6 +210,10 @@ func (w *LiveKitWebRTC) RequestKeyframe() {
 	w.m.Lock()
 	defer w.m.Unlock()
 
+	if w.room == nil {
+		return
+	}
+
 	ssrcs := make([]string, 0, len(w.pliStats))
 
 	for ssrc := range w.pliStats {
@@ -211,15 +224,23 @@ func (w *LiveKitWebRTC) RequestKeyframe() {
 		Tracef("Requesting keyframe for SSRCs %s", strings.Join(ssrcs, ", "))
 
 	for ssrc := range w.pliStats {
-		w.RequestKeyframeForSSRC(uint32(ssrc))
+		w.requestKeyframeForSSRC(ssrc)
 	}
 }
 
 func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+	w.m.Lock()
+	defer w.m.Unlock()
+
 	if w.room == nil {
 		return
 	}
 
+	w.requestKeyframeForSSRC(ssrc)
+}
+
+// requestKeyframeForSSRC is called with w.m held
+func (w *LiveKitWebRTC) requestKeyframeForSSRC(ssrc uint32) {
 	log.WithField("session", w.ctx.Value("session")).
 		Tracef("Requesting keyframe for SSRC %d", ssrc)
 
@@ -240,6 +261,7 @@ func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	}
 }
 
+// updateFlowState records the last packet of a track and the media time recorded so far
 func (w *LiveKitWebRTC) updateFlowState(trackID string, seqNum uint16, timestamp time.Duration) {
 	w.m.Lock()
 	defer w.m.Unlock()
@@ -247,35 +269,50 @@ func (w *LiveKitWebRTC) updateFlowState(trackID string, seqNum uint16, timestamp
 	state, exists := w.flowState[trackID]
 
 	if !exists {
-		state = &TrackFlowState{
-			lastSeqNum:    seqNum,
-			lastTimestamp: timestamp,
-			isFlowing:     false,
-		}
+		state = &TrackFlowState{}
 		w.flowState[trackID] = state
-
-		return
 	}
 
-	wasFlowing := state.isFlowing
-	state.isFlowing = state.lastSeqNum != seqNum
+	state.packets++
 	state.lastSeqNum = seqNum
 	state.lastTimestamp = timestamp
+}
 
-	if state.isFlowing != wasFlowing && w.flowCallback != nil {
-		var latestTimestamp time.Duration
+// checkFlowState tells whether the track is flowing, i.e.: whether it got packets
+// since the previous check, and reports it if that changed
+func (w *LiveKitWebRTC) checkFlowState(trackID string) bool {
+	w.m.Lock()
 
-		for _, s := range w.flowState {
-			if s.lastTimestamp > latestTimestamp {
-				latestTimestamp = s.lastTimestamp
-			}
+	state, exists := w.flowState[trackID]
+
+	if !exists {
+		w.m.Unlock()
+		return false
+	}
+
+	isFlowing := state.packets != state.checkedPackets
+	changed := isFlowing != state.isFlowing
+	state.checkedPackets = state.packets
+	state.isFlowing = isFlowing
+
+	var latestTimestamp time.Duration
+
+	for _, s := range w.flowState {
+		if s.lastTimestamp > latestTimestamp {
+			latestTimestamp = s.lastTimestamp
 		}
+	}
 
-		w.flowCallback(state.isFlowing, latestTimestamp, false)
+	w.m.Unlock()
+
+	if changed {
+		w.flowCallback(isFlowing, latestTimestamp, false)
 		log.WithField("session", w.ctx.Value("session")).
 			Tracef("Flow state changed for track %s: flowing=%v latestTimestamp=%s",
-				trackID, state.isFlowing, latestTimestamp)
+				trackID, isFlowing, latestTimestamp)
 	}
+
+	return isFlowing
 }
 
 func (w *LiveKitWebRTC) onTrackSubscribed(
@@ -318,31 +355,35 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 		// TODO: plug logger
 	)
 
+	ssrc := uint32(track.SSRC())
+
 	w.m.Lock()
 	w.jitterBuffers[trackID] = buffer
-
 	if isVideo {
-		ssrc := uint32(track.SSRC())
 		w.pliStats[ssrc] = PLITracker{count: 0, timestamp: time.Now()}
+	}
+	w.m.Unlock()
 
+	if isVideo {
 		if kfr, ok := w.handler.(interface {
 			SetKeyframeRequester(interfaces.KeyframeRequester)
 		}); ok {
 			kfr.SetKeyframeRequester(w)
 		}
+	}
+
+	// Closed when the track ends
+	done := make(chan struct{})
 
+	if isVideo {
 		// Start periodic PLI requests - 3s to be similar to the other adapter,
 		// but LK is smarter than this. TODO remove later
-		done := make(chan bool)
-		defer func() {
-			done <- true
-		}()
 		go func() {
 			ticker := time.NewTicker(time.Second * 3)
+			defer ticker.Stop()
 			for {
 				select {
 				case <-done:
-					ticker.Stop()
 					return
 				case <-ticker.C:
 					w.RequestKeyframeForSSRC(ssrc)
@@ -350,42 +391,34 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 			}
 		}()
 	}
-	w.m.Unlock()
 
-	flowCheckDone := make(chan bool)
-	defer func() {
-		flowCheckDone <- true
-	}()
 	go func() {
 		ticker := time.NewTicker(time.Millisecond * 100)
-		var lastSeqNum uint16
+		defer ticker.Stop()
+		var wasFlowing bool
 		for {
 			select {
-			case <-flowCheckDone:
-				ticker.Stop()
+			case <-done:
 				return
 			case <-ticker.C:
-				w.m.Lock()
-				state, exists := w.flowState[trackID]
-
-				if exists && state.lastSeqNum == lastSeqNum {
-					// No new packets received == not flowing
-					w.updateFlowState(trackID, state.lastSeqNum, state.lastTimestamp)
+				isFlowing := w.checkFlowState(trackID)
+
+				if isFlowing != wasFlowing {
+					if isFlowing {
+						ticker.Reset(time.Millisecond * 1000)
+					} else {
+						ticker.Reset(time.Millisecond * 100)
+					}
 				}
 
-				if state.isFlowing {
-					ticker.Reset(time.Millisecond * 1000)
-				} else {
-					ticker.Reset(time.Millisecond * 100)
-				}
-
-				lastSeqNum = state.lastSeqNum
-				w.m.Unlock()
+				wasFlowing = isFlowing
 			}
 		}
 	}()
 
 	go func() {
+		defer close(done)
+
 		for {
 			packet, _, err := track.ReadRTP()
 
@@ -398,22 +431,14 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 			buffer.Push(packet)
 			packets := buffer.Pop(false)
 
-			if len(packets) == 0 {
-				continue
-			}
-
 			for _, p := range packets {
-				w.updateFlowState(
-					trackID,
-					p.SequenceNumber,
-					time.Duration(p.Timestamp)*time.Millisecond/time.Duration(clockRate),
-				)
-
 				switch trackKind {
 				case TrackKindVideo:
 					w.handler.PushVideo(p)
+					w.updateFlowState(trackID, p.SequenceNumber, w.handler.VideoTimestamp())
 				case TrackKindAudio:
 					w.handler.PushAudio(p)
+					w.updateFlowState(trackID, p.SequenceNumber, w.handler.AudioTimestamp())
 				}
 			}
 		}
-- 
2.43.0


From 04b1fd000b4c335b0ccef0d4030ed9d805b3ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 18/34] fix: storage failures of one recording no longer end
 the service

---
 internal/webrtc/recorder/webm.go | 62 ++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 9797a06..41ad761 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -280,13 +280,15 @@ func (r *WebmRecorder) lastTimestamp() time.Duration {
 func (r *WebmRecorder) closeWriters() {
 	if r.audioWriter != nil {
 		if err := r.audioWriter.Close(); err != nil {
-			panic(err)
+			log.WithField("session", r.ctx.Value("session")).
+				Errorf("Error closing audio writer: %v", err)
 		}
 		r.audioWriter = nil
 	}
 	if r.videoWriter != nil {
 		if err := r.videoWriter.Close(); err != nil {
-			panic(err)
+			log.WithField("session", r.ctx.Value("session")).
+				Errorf("Error closing video writer: %v", err)
 		}
 		r.videoWriter = nil
 	}
@@ -354,7 +356,8 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			r.videoTimestamp += sample.Duration
 
 			if _, err := r.videoWriter.Write(isKf, int64(r.videoTimestamp/time.Millisecond), sample.Data); err != nil {
-				panic(err)
+				log.WithField("session", r.ctx.Value("session")).
+					Errorf("Error writing video frame: %v", err)
 			}
 
 			log.WithField("session", r.ctx.Value("session")).
@@ -396,7 +399,8 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 		if r.audioWriter != nil {
 			r.audioTimestamp += sample.Duration
 			if _, err := r.audioWriter.Write(true, int64(r.audioTimestamp/time.Millisecond), sample.Data); err != nil {
-				panic(err)
+				log.WithField("session", r.ctx.Value("session")).
+					Errorf("Error writing audio frame: %v", err)
 			}
 
 			log.WithField("session", r.ctx.Value("session")).
@@ -1000,6 +1004,36 @@ func (r *WebmRecorder) pushToIVFWriter(frame []byte, timestamp uint32, isKeyFram
 	}
 }
 
+// containedFile keeps storage failures away from the muxer, which would panic or
+// wedge its writers: nothing more is written to the file after the first failure.
+type containedFile struct {
+	file *os.File
+	ctx  context.Context
+	err  error
+}
+
+func (f *containedFile) Write(b []byte) (int, error) {
+	if f.err == nil {
+		if _, f.err = f.file.Write(b); f.err != nil {
+			log.WithField("session", f.ctx.Value("session")).
+				Errorf("Error writing to file, recording is incomplete: %v", f.err)
+		}
+	}
+
+	return len(b), nil
+}
+
+func (f *containedFile) Close() error {
+	err := f.file.Close()
+
+	if err != nil {
+		log.WithField("session", f.ctx.Value("session")).
+			Errorf("Error closing file: %v", err)
+	}
+
+	return err
+}
+
 func (r *WebmRecorder) initWriter(width, height int) {
 	if !r.hasAudio && !r.hasVideo {
 		log.WithField("session", r.ctx.Value("session")).
@@ -1011,11 +1045,15 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	r.closeWriters()
 
 	log.WithField("file", r.file).WithField("fileMode", r.fileMode).Debug("Opening file for writing")
-	w, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
+	file, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
 	if err != nil {
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Error opening file for writing: %v", err)
+		return
 	}
 
+	w := &containedFile{file: file, ctx: r.ctx}
+
 	info := &webm.Info{
 		TimecodeScale: 1000000, // 1ms
 		MuxingApp:     internal.AppName,
@@ -1068,8 +1106,10 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	)
 
 	if err != nil {
-		// TODO review - panic is not the best choice here.
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Error starting webm writers: %v", err)
+		w.Close()
+		return
 	}
 
 	writers, err := webm.NewSimpleBlockWriter(
@@ -1080,8 +1120,10 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	)
 
 	if err != nil {
-		// TODO review - panic is not the best choice here.
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Error starting webm writers: %v", err)
+		w.Close()
+		return
 	}
 
 	log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From 522ec4352af8662cdd9f2c82263578b44a30ddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 19/34] fix: refuse file names with a NUL before creating their
 directories

---
 internal/webrtc/recorder/recorder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index f7f3266..e804916 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -55,6 +55,11 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 
 	if !cfg.WriteToDevNull {
 		name := file
+
+		if strings.ContainsRune(name, 0) {
+			return "", 0, fmt.Errorf("invalid file name %q", name)
+		}
+
 		file = path.Clean(dir + string(os.PathSeparator) + name)
 
 		if rel, err := filepath.Rel(dir, file); err != nil ||
-- 
2.43.0


From 21cf21c20d0656bbf9f77f76ba12018f7dcb5f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 20/34] fix: a packet older than the first one no longer shifts
 the numbering of a track

---
 internal/webrtc/webrtc.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index da41e07..09e76b1 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -398,6 +398,14 @@ func (w *WebRTC) Init(
 			}
 			prevSeq = rtp.SequenceNumber
 
+			if packetCounter == 1 {
+				// Start one cycle up: a packet sent before the first one received
+				// would shift the numbers of all that follow
+				for _, d := range []uint16{0, 0x5555, 0xaaaa} {
+					su.Unwrap(uint64(rtp.SequenceNumber + d))
+				}
+			}
+
 			seq = su.Unwrap(uint64(rtp.SequenceNumber))
 
 			bufMutex.Lock()
-- 
2.43.0


From 9e6395ae8339a942837495d8d24ccfd174bc299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 21/34] fix: delivery does not wait for packets whose requests
 are exhausted

---
 internal/webrtc/webrtc.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 09e76b1..292e37d 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -412,6 +412,11 @@ func (w *WebRTC) Init(
 			added := jb.Add(seq, rtp)
 			rl.Add(rtp.SequenceNumber)
 			packets, skipped := jb.NextPackets()
+			// Do not wait for packets the NACK goroutine has given up on
+			for next := jb.GetNextStart(); packets == nil && rl.Get(uint16(next)); next = jb.GetNextStart() {
+				jb.SkipPacket(next)
+				packets, _ = jb.NextPackets()
+			}
 			var skippedSeq int64
 			if packets != nil {
 				// Packets may also have been given up on by the NACK goroutine
-- 
2.43.0


From 0174a884244c348eb8ce490551323ad9b4b1f11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:17 +0000
Subject: [PATCH 22/34] fix: a gap of about the size of the sample builder no
 longer crashes the service

---
 internal/webrtc/recorder/webm.go | 73 +++++++++++++++++++++++++++++---
 1 file changed, 68 insertions(+), 5 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 41ad761..76811ee 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -90,6 +90,10 @@ type WebmRecorder struct {
 	expectedNextSeq  uint16
 	seqStarted       bool
 
+	// Last sequence numbers given to the sample builders
+	lastAudioSeq, lastVideoSeq       uint16
+	audioSeqStarted, videoSeqStarted bool
+
 	corruptedFrameCount int
 	lastFrameSize       int
 	frameTimeout        time.Duration
@@ -325,14 +329,39 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		r.lastKeyFrameTime = time.Now()
 	}
 
-	r.videoBuilder.Push(packet)
+	overflow := r.videoSeqStarted &&
+		exceedsBuilder(r.videoBuilder, packet.SequenceNumber, r.lastVideoSeq, r.videoPacketQueueSize)
+	r.videoSeqStarted = true
+	r.lastVideoSeq = packet.SequenceNumber
+
+	if !overflow {
+		r.videoBuilder.Push(packet)
+	}
+
 	log.WithField("session", r.ctx.Value("session")).
 		Tracef("BUILTIN: VP8 RTP-DEPAY: seq=%d, ts=%d, marker=%v, S=%v, PictureID=%d, KeyFrame=%v, size=%d, PartID=%d",
 			packet.SequenceNumber, packet.Timestamp, packet.Marker, isKeyFrame,
 			0, isKeyFrame, len(packet.Payload), 0)
 
 	for {
-		sample, ts := r.videoBuilder.PopWithTimestamp()
+		pop := r.videoBuilder.PopWithTimestamp
+
+		if overflow {
+			pop = r.videoBuilder.ForcePopWithTimestamp
+		}
+
+		sample, ts := pop()
+
+		if sample == nil && overflow {
+			// An incomplete frame may be left
+			if r.videoBuilder.Len() > 0 {
+				r.videoBuilder = samplebuilder.New(r.videoPacketQueueSize, &codecs.VP8Packet{}, vp8SampleRate)
+			}
+
+			overflow = false
+			r.videoBuilder.Push(packet)
+			continue
+		}
 
 		if sample == nil {
 			return
@@ -352,8 +381,14 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		if r.videoWriter != nil {
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Writing VP8 frame: ts=%d, size=%d, KF=%v", ts, len(sample.Data), isKf)
+
+			if !r.videoRecorded {
+				r.packetTimestamp = ts
+			}
+
 			r.videoRecorded = true
-			r.videoTimestamp += sample.Duration
+			r.videoTimestamp += time.Duration(float64(ts-r.packetTimestamp) / float64(vp8SampleRate) * secondToNanoseconds)
+			r.packetTimestamp = ts
 
 			if _, err := r.videoWriter.Write(isKf, int64(r.videoTimestamp/time.Millisecond), sample.Data); err != nil {
 				log.WithField("session", r.ctx.Value("session")).
@@ -382,10 +417,30 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 		return
 	}
 
-	r.audioBuilder.Push(p)
+	overflow := r.audioSeqStarted &&
+		exceedsBuilder(r.audioBuilder, p.SequenceNumber, r.lastAudioSeq, r.audioPacketQueueSize)
+	r.audioSeqStarted = true
+	r.lastAudioSeq = p.SequenceNumber
+
+	if !overflow {
+		r.audioBuilder.Push(p)
+	}
 
 	for {
-		sample := r.audioBuilder.Pop()
+		pop := r.audioBuilder.PopWithTimestamp
+
+		if overflow {
+			pop = r.audioBuilder.ForcePopWithTimestamp
+		}
+
+		sample, _ := pop()
+
+		if sample == nil && overflow {
+			overflow = false
+			r.audioBuilder.Push(p)
+			continue
+		}
+
 		if sample == nil {
 			return
 		}
@@ -410,6 +465,14 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 	}
 }
 
+// exceedsBuilder tells whether the builder would have to drop what it holds to make
+// room for a packet. It panics when it has to drop everything.
+func exceedsBuilder(builder *samplebuilder.SampleBuilder, seq, last, queueSize uint16) bool {
+	diff := seq - last
+
+	return diff < 0x8000 && builder.Len()+int(diff) >= 2*int(min(queueSize, 0x7FFF))
+}
+
 func (r *WebmRecorder) RequestKeyframe() {
 	if r.keyframeRequester == nil {
 		return
-- 
2.43.0


From 5d77b6d2c2c5025b4117c3f0505fad5e5f3b5328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:11 +0000
Subject: [PATCH 23/34] fix: LiveKit tracks are announced to the recorder
 before any of them is subscribed to

Media of the first track could arrive before the second one was announced:
the recording had then been started without it, and was started over,
losing what it held.
---
 internal/webrtc/livekit/livekit.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 7398404..f314443 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -157,8 +157,9 @@ func (w *LiveKitWebRTC) Close() error {
 }
 
 func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPublication, err error) {
-	subscribedTracks = make([]lksdk.TrackPublication, 0)
+	requestedTracks := make([]lksdk.TrackPublication, 0)
 
+	// Every track is announced before any is subscribed to: media may arrive right after
 	for _, remoteParticipant := range w.room.GetRemoteParticipants() {
 		for _, trackPublication := range remoteParticipant.TrackPublications() {
 			if slices.Contains(w.trackIds, trackPublication.SID()) {
@@ -177,17 +178,23 @@ func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPubli
 				w.remoteParticipants[remoteParticipant.Identity()] = remoteParticipant
 				w.m.Unlock()
 
-				if err := w.subscribe(trackPublication); err != nil {
-					log.WithField("session", w.ctx.Value("session")).
-						Errorf("Failed to subscribe to track %s: %v", trackPublication.SID(), err)
-					return nil, err
-				}
-
-				subscribedTracks = append(subscribedTracks, trackPublication)
+				requestedTracks = append(requestedTracks, trackPublication)
 			}
 		}
 	}
 
+	subscribedTracks = make([]lksdk.TrackPublication, 0)
+
+	for _, trackPublication := range requestedTracks {
+		if err := w.subscribe(trackPublication); err != nil {
+			log.WithField("session", w.ctx.Value("session")).
+				Errorf("Failed to subscribe to track %s: %v", trackPublication.SID(), err)
+			return nil, err
+		}
+
+		subscribedTracks = append(subscribedTracks, trackPublication)
+	}
+
 	return subscribedTracks, nil
 }
 
-- 
2.43.0


From 3a610dbe1e22007a652b1b19426249ea9339306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 24/34] fix: padding packets of LiveKit video are not taken for
 lost ones

The jitter buffer swallows them, and the recorder saw a gap: it discarded
all video up to the next keyframe.
---
 internal/webrtc/livekit/livekit.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index f314443..826c01e 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -426,6 +426,12 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 	go func() {
 		defer close(done)
 
+		// Padding packets by sequence number: the jitter buffer swallows them, but
+		// the recorder must not take them for missing
+		padding := make(map[uint16]*rtp.Packet)
+		var nextSeq uint16
+		var started bool
+
 		for {
 			packet, _, err := track.ReadRTP()
 
@@ -435,10 +441,30 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 				return
 			}
 
+			if isVideo && len(packet.Payload) == 0 {
+				padding[packet.SequenceNumber] = packet
+			}
+
 			buffer.Push(packet)
 			packets := buffer.Pop(false)
 
 			for _, p := range packets {
+				for ; started && len(padding) > 0 && int16(p.SequenceNumber-nextSeq) > 0; nextSeq++ {
+					if pad, ok := padding[nextSeq]; ok {
+						w.handler.PushVideo(pad)
+						delete(padding, nextSeq)
+					}
+				}
+
+				started = true
+				nextSeq = p.SequenceNumber + 1
+
+				for seq := range padding {
+					if int16(seq-nextSeq) < 0 {
+						delete(padding, seq)
+					}
+				}
+
 				switch trackKind {
 				case TrackKindVideo:
 					w.handler.PushVideo(p)
-- 
2.43.0


From 70db12a4654bbf5ce2df5c80713bc93903a20381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 25/34] fix: the credential of a configured TURN server is used

---
 internal/config/config.go | 40 ++++++++++++++++++++++++++++++++++-----
 internal/webrtc/webrtc.go |  2 +-
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 75f8b43..7537cbc 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -107,11 +107,41 @@ type Channels struct {
 }
 
 type WebRTC struct {
-	ICEServers             []webrtc.ICEServer `yaml:"iceServers,omitempty"`
-	RTCMinPort             uint16             `yaml:"rtcMinPort,omitempty"`
-	RTCMaxPort             uint16             `yaml:"rtcMaxPort,omitempty"`
-	JitterBuffer           uint16             `yaml:"jitterBuffer,omitempty"`
-	JitterBufferPktTimeout uint16             `yaml:"jitterBufferPktTimeout,omitempty"`
+	ICEServers             []ICEServer `yaml:"iceServers,omitempty"`
+	RTCMinPort             uint16      `yaml:"rtcMinPort,omitempty"`
+	RTCMaxPort             uint16      `yaml:"rtcMaxPort,omitempty"`
+	JitterBuffer           uint16      `yaml:"jitterBuffer,omitempty"`
+	JitterBufferPktTimeout uint16      `yaml:"jitterBufferPktTimeout,omitempty"`
+}
+
+// ICEServer is a webrtc.ICEServer with a plain credential: the loaders leave
+// interface fields empty.
+type ICEServer struct {
+	URLs           []string                 `yaml:"urls"`
+	Username       string                   `yaml:"username,omitempty"`
+	Credential     string                   `yaml:"credential,omitempty"`
+	CredentialType webrtc.ICECredentialType `yaml:"credentialType,omitempty"`
+}
+
+// GetICEServers returns the configured ICE servers
+func (cfg WebRTC) GetICEServers() []webrtc.ICEServer {
+	var servers []webrtc.ICEServer
+
+	for _, s := range cfg.ICEServers {
+		server := webrtc.ICEServer{
+			URLs:           s.URLs,
+			Username:       s.Username,
+			CredentialType: s.CredentialType,
+		}
+
+		if s.Credential != "" {
+			server.Credential = s.Credential
+		}
+
+		servers = append(servers, server)
+	}
+
+	return servers
 }
 
 type HTTP struct {
diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 292e37d..0468b4c 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -89,7 +89,7 @@ func (w *WebRTC) Init(
 	}
 
 	cfg := webrtc.Configuration{
-		ICEServers:   w.cfg.ICEServers,
+		ICEServers:   w.cfg.GetICEServers(),
 		SDPSemantics: webrtc.SDPSemanticsUnifiedPlanWithFallback,
 	}
 
-- 
2.43.0


From b408a05f95499252b145ccf95b18e50a84c0f66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 26/34] fix: setting one option of the redis adapter keeps the
 others

---
 internal/config/loader.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/internal/config/loader.go b/internal/config/loader.go
index 5b345e0..9f7ef49 100644
--- a/internal/config/loader.go
+++ b/internal/config/loader.go
@@ -3,6 +3,7 @@ package config
 import (
 	"fmt"
 	"github.com/crazy-max/gonfig"
+	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
 	"path"
@@ -27,7 +28,7 @@ func (cfg *Config) Load(app App, configFile string) {
 			Extensions: []string{"yaml", "yml"},
 		},
 	})
-	if found, err := fileLoader.Load(cfg); err != nil {
+	if found, err := cfg.load(fileLoader); err != nil {
 		log.Fatal(errors.Wrap(err, fmt.Sprintf("failed to decode configuration from file: %s", fileLoader.GetFilename())))
 	} else if !found {
 		log.Debugf("no configuration file found: %s", fileLoader.GetFilename())
@@ -41,7 +42,7 @@ func (cfg *Config) Load(app App, configFile string) {
 		Prefix: envPrefix,
 	})
 
-	if found, err := envLoader.Load(cfg); err != nil {
+	if found, err := cfg.load(envLoader); err != nil {
 		log.Fatal(errors.Wrap(err, "failed to decode configuration from environment variables"))
 	} else if !found {
 		log.Debugf("no %s* environment variables defined", envPrefix)
@@ -51,3 +52,24 @@ func (cfg *Config) Load(app App, configFile string) {
 
 	cfg.App = app
 }
+
+// load runs a loader over the configuration. The loader replaces the options
+// of a pubsub adapter as a whole, so those that it does not set are put back.
+func (cfg *Config) load(loader gonfig.Loader) (bool, error) {
+	redis := Redis{}
+	if err := mapstructure.Decode(cfg.PubSub.Adapters["redis"], &redis); err != nil {
+		return false, err
+	}
+
+	found, err := loader.Load(cfg)
+	if err != nil {
+		return found, err
+	}
+
+	if err := mapstructure.Decode(cfg.PubSub.Adapters["redis"], &redis); err != nil {
+		return found, err
+	}
+	cfg.PubSub.Adapters["redis"] = &redis
+
+	return found, nil
+}
-- 
2.43.0


From ea5c2ba20bc616e7b7a8740707957c5a73f81a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 27/34] fix: dumping a negative list index does not crash

---
 internal/app/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/app/config.go b/internal/app/config.go
index 3234eaa..e536028 100644
--- a/internal/app/config.go
+++ b/internal/app/config.go
@@ -32,7 +32,7 @@ func dumpConfig() {
 			}
 			switch v.(type) {
 			case []interface{}:
-				if i == nil || len(v.([]interface{})) < *i+1 {
+				if i == nil || *i < 0 || len(v.([]interface{})) < *i+1 {
 					v = nil
 					goto _break
 				}
-- 
2.43.0


From 8c96600549c75213c8aff136647725e9b94579b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:22 +0000
Subject: [PATCH 28/34] fix: the LiveKit key and secret are dumped under their
 names in the configuration file

---
 internal/config/config.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 7537cbc..27e80c7 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -155,9 +155,9 @@ type Prometheus struct {
 }
 
 type LiveKit struct {
-	Host      string `mapstructure:"host"`
-	APIKey    string `mapstructure:"api_key"`
-	APISecret string `mapstructure:"api_secret"`
+	Host      string `yaml:"host,omitempty"`
+	APIKey    string `yaml:"apiKey,omitempty"`
+	APISecret string `yaml:"apiSecret,omitempty"`
 }
 
 type LogConfig struct {
-- 
2.43.0


From 541e0406ac93a99c66e9ccba8ad5945c8ccb0c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 29/34] fix: a configuration that cannot be read on reload does
 not end the service

---
 internal/app/app.go       | 14 +++++++++++---
 internal/app/config.go    |  7 +++++--
 internal/config/loader.go |  8 +++++---
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/internal/app/app.go b/internal/app/app.go
index 78c5e09..84ff818 100644
--- a/internal/app/app.go
+++ b/internal/app/app.go
@@ -55,7 +55,9 @@ func init() {
 	if flags.dump != "" {
 		log.SetLevel(log.FatalLevel)
 		cfg = initConfig()
-		loadConfig()
+		if err := loadConfig(); err != nil {
+			log.Fatal(err)
+		}
 		dumpConfig()
 	}
 
@@ -66,7 +68,9 @@ func init() {
 func Init() {
 	cfg = initConfig()
 	log.Infof("Starting %s PID: %d", app.Name, os.Getpid())
-	loadConfig()
+	if err := loadConfig(); err != nil {
+		log.Fatal(err)
+	}
 	configureLog()
 	sigintHandler()
 	sighupHandler()
@@ -96,7 +100,11 @@ func sighupHandler() {
 			select {
 			case <-sighup:
 				log.Debug("reloading config...")
-				loadConfig()
+				if err := loadConfig(); err != nil {
+					// The previous configuration stays
+					log.Error(err)
+					continue
+				}
 				configureLog()
 			}
 		}
diff --git a/internal/app/config.go b/internal/app/config.go
index e536028..4f218db 100644
--- a/internal/app/config.go
+++ b/internal/app/config.go
@@ -14,10 +14,13 @@ func initConfig() *config.Config {
 	return (&config.Config{App: app}).GetDefaults()
 }
 
-func loadConfig() {
+func loadConfig() error {
 	newCfg := initConfig()
-	newCfg.Load(app, flags.config)
+	if err := newCfg.Load(app, flags.config); err != nil {
+		return err
+	}
 	*cfg = *newCfg
+	return nil
 }
 
 func dumpConfig() {
diff --git a/internal/config/loader.go b/internal/config/loader.go
index 9f7ef49..cea7291 100644
--- a/internal/config/loader.go
+++ b/internal/config/loader.go
@@ -9,7 +9,7 @@ import (
 	"path"
 )
 
-func (cfg *Config) Load(app App, configFile string) {
+func (cfg *Config) Load(app App, configFile string) error {
 	// Load from file(s)
 	if configFile == "" {
 		configFile = app.Name + ".yml"
@@ -29,7 +29,7 @@ func (cfg *Config) Load(app App, configFile string) {
 		},
 	})
 	if found, err := cfg.load(fileLoader); err != nil {
-		log.Fatal(errors.Wrap(err, fmt.Sprintf("failed to decode configuration from file: %s", fileLoader.GetFilename())))
+		return errors.Wrap(err, fmt.Sprintf("failed to decode configuration from file: %s", fileLoader.GetFilename()))
 	} else if !found {
 		log.Debugf("no configuration file found: %s", fileLoader.GetFilename())
 	} else {
@@ -43,7 +43,7 @@ func (cfg *Config) Load(app App, configFile string) {
 	})
 
 	if found, err := cfg.load(envLoader); err != nil {
-		log.Fatal(errors.Wrap(err, "failed to decode configuration from environment variables"))
+		return errors.Wrap(err, "failed to decode configuration from environment variables")
 	} else if !found {
 		log.Debugf("no %s* environment variables defined", envPrefix)
 	} else {
@@ -51,6 +51,8 @@ func (cfg *Config) Load(app App, configFile string) {
 	}
 
 	cfg.App = app
+
+	return nil
 }
 
 // load runs a loader over the configuration. The loader replaces the options
-- 
2.43.0


From eda7dd49df1e2083b8323996577ad46683dcaeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 30/34] fix: losing the pubsub connection ends the service with
 a failure, so that it is restarted

---
 internal/app/app.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/app/app.go b/internal/app/app.go
index 84ff818..5c0b4ca 100644
--- a/internal/app/app.go
+++ b/internal/app/app.go
@@ -90,6 +90,8 @@ func Run() {
 	ps := pubsub.NewPubSub(cfg.PubSub)
 	s := server.NewServer(cfg, ps)
 	ps.Subscribe(cfg.PubSub.Channels.Subscribe, s.HandlePubSub, s.OnStart)
+	// Only a lost connection gets here: fail, so that the service is restarted
+	log.Fatal("pubsub connection lost")
 }
 
 func sighupHandler() {
-- 
2.43.0


From 67f2e5b9612e9e84f8edf7690d21647c84714ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 31/34] fix: a track is flowing when it gets packets, even if
 the first one has number 0

---
 internal/webrtc/webrtc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 0468b4c..e934020 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -449,7 +449,7 @@ func (w *WebRTC) Init(
 			}
 
 			for _, p := range packets {
-				s2 = p.SequenceNumber
+				s2++
 				switch {
 				case isAudio:
 					rec.PushAudio(p)
-- 
2.43.0


From a70b5735c0ad7c2ca1e85a8484750e252de45e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:25 +0000
Subject: [PATCH 32/34] fix: a connection that ends while ICE candidates are
 gathered fails the start instead of blocking it forever

---
 internal/webrtc/webrtc.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index e934020..aedafae 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -462,12 +462,17 @@ func (w *WebRTC) Init(
 		}
 	})
 
+	// A connection that is closed never completes the gathering of candidates
+	connCtx, connEnded := context.WithCancel(context.Background())
+
 	// Set the handler for ICE connection state
 	// This will notify you when the peer has connected/disconnected
 	peerConnection.OnICEConnectionStateChange(func(connectionState webrtc.ICEConnectionState) {
 		log.WithField("session", w.ctx.Value("session")).
 			Infof("webrtc connection state changed: %s", connectionState.String())
 		if connectionState > webrtc.ICEConnectionStateConnected {
+			connEnded()
+
 			if err := peerConnection.Close(); err != nil {
 				log.WithField("session", w.ctx.Value("session")).
 					Error(err)
@@ -504,7 +509,11 @@ func (w *WebRTC) Init(
 	// Block until ICE Gathering is complete, disabling trickle ICE
 	// we do this because we only can exchange one signaling message
 	// in a production application you should exchange ICE Candidates via OnICECandidate
-	<-gatherComplete
+	select {
+	case <-gatherComplete:
+	case <-connCtx.Done():
+		return webrtc.SessionDescription{}, errors.New("connection ended while gathering ICE candidates")
+	}
 
 	// Output the answer in base64
 	return *peerConnection.LocalDescription(), nil
-- 
2.43.0


From 6d38caca14587e8da4c1d6ee12c9942fbf1c9f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:48 +0000
Subject: [PATCH 33/34] fix: an audio packet given up on no longer discards the
 video frame being assembled

---
 internal/webrtc/webrtc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index aedafae..d8ca63e 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -443,7 +443,7 @@ func (w *WebRTC) Init(
 					len(packets), packets[0].SequenceNumber, packets[len(packets)-1].SequenceNumber)
 
 			// Signal packet skip to WebmRecorder to handle potential frame boundary issues
-			if skipped && rec != nil {
+			if skipped && isVideo && rec != nil {
 				rec.NotifySkippedPacket(uint16(skippedSeq))
 				log.Debugf("Notified recorder of skipped packet: seq=%d", skippedSeq)
 			}
-- 
2.43.0


From e804e111440509c28e31378450772c0a8f63e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:53 +0000
Subject: [PATCH 34/34] fix: request lost packets whose sequence numbers were
 requested a cycle earlier

Requests were only forgotten while other packets were missing, so a number
lost again 65536 packets later was requested less often, or once only.
---
 internal/webrtc/webrtc.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index d8ca63e..f9d8352 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -240,12 +240,20 @@ func (w *WebRTC) Init(
 						missing := rl.MissingSeqNumbers(10)
 						bufMutex.Unlock()
 
+						now := time.Now()
+
+						// Also when nothing is missing: sequence numbers come round again
+						for seq, tracker := range nackedPackets {
+							if now.Sub(tracker.timestamp) > time.Second*5 {
+								delete(nackedPackets, seq)
+							}
+						}
+
 						if missing == nil || len(missing) == 0 {
 							continue
 						}
 
 						filteredMissing := make([]uint16, 0)
-						now := time.Now()
 
 						for _, seq := range missing {
 							tracker, exists := nackedPackets[seq]
@@ -275,12 +283,6 @@ func (w *WebRTC) Init(
 							}
 						}
 
-						for seq, tracker := range nackedPackets {
-							if now.Sub(tracker.timestamp) > time.Second*5 {
-								delete(nackedPackets, seq)
-							}
-						}
-
 						if len(missing) > 5 {
 							log.WithField("session", w.ctx.Value("session")).
 								Warnf("Large packet gap detected for SSRC %d: %d packets", senderSSRC, len(missing))
-- 
2.43.0

