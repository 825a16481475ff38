package props

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vpion"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
)

// ---------------------------------------------------------------------
// A10: what is negotiated, by the real library

// section is a media section of an offer.
type section struct {
	kind  string // audio, video, application
	codec string
	good  string // payload type of the codec that can be recorded
	rest  []string
}

var sections = []section{
	{"audio", "opus", "111", []string{"rtpmap:111 opus/48000/2", "fmtp:111 minptime=10;useinbandfec=1"}},
	{"video", "vp8", "96", []string{"rtpmap:96 VP8/90000"}},
	{"audio", "opus as 100", "100", []string{"rtpmap:100 opus/48000/2"}},
	{"video", "vp8 as 101", "101", []string{"rtpmap:101 VP8/90000", "rtpmap:102 rtx/90000", "fmtp:102 apt=101"}},
	{"video", "h264 and vp8", "98", []string{"rtpmap:97 H264/90000", "fmtp:97 level-asymmetry-allowed=1;packetization-mode=1;profile-level-id=42e01f", "rtpmap:98 VP8/90000"}},
	{"audio", "pcmu and opus", "109", []string{"rtpmap:0 PCMU/8000", "rtpmap:109 opus/48000/2"}},
	{"audio", "pcmu", "", []string{"rtpmap:0 PCMU/8000"}},
	{"video", "h264", "", []string{"rtpmap:97 H264/90000", "fmtp:97 level-asymmetry-allowed=1;packetization-mode=1;profile-level-id=42e01f"}},
	{"application", "sctp", "", nil},
}

// offer is an offer as mediasoup and browsers write them.
func offer(secs []section, dir string, mids, fb bool) string {
	s := "v=0\r\no=- 10000 1 IN IP4 0.0.0.0\r\ns=-\r\nt=0 0\r\n"
	s += "a=group:BUNDLE"
	for i := range secs {
		s += " " + mid(i, mids)
	}
	s += "\r\na=msid-semantic: WMS *\r\n"
	for i, x := range secs {
		if x.kind == "application" {
			s += "m=application 7 UDP/DTLS/SCTP webrtc-datachannel\r\n"
		} else {
			var pts []string
			for _, r := range x.rest {
				if strings.HasPrefix(r, "rtpmap:") {
					pts = append(pts, strings.Fields(r[7:])[0])
				}
			}
			s += "m=" + x.kind + " 7 UDP/TLS/RTP/SAVPF " + strings.Join(pts, " ") + "\r\n"
		}
		s += "c=IN IP4 127.0.0.1\r\n"
		for _, r := range x.rest {
			s += "a=" + r + "\r\n"
		}
		if fb && x.kind == "video" && x.good != "" {
			for _, f := range []string{"goog-remb", "transport-cc", "ccm fir", "nack", "nack pli"} {
				s += "a=rtcp-fb:" + x.good + " " + f + "\r\n"
			}
		}
		s += "a=setup:actpass\r\na=mid:" + mid(i, mids) + "\r\n"
		if x.kind == "application" {
			s += "a=sctp-port:5000\r\n"
		} else {
			s += "a=" + dir + "\r\na=rtcp-mux\r\na=rtcp-rsize\r\n"
			if dir == "sendonly" || dir == "sendrecv" {
				s += fmt.Sprintf("a=msid:s t%d\r\na=ssrc:%d cname:c\r\na=ssrc:%d msid:s t%d\r\n", i, 1000+i, 1000+i, i)
			}
		}
		s += "a=ice-ufrag:ufrag000\r\na=ice-pwd:pwdpwdpwdpwdpwdpwdpwdpwd\r\n"
		s += "a=fingerprint:sha-256 0F:74:31:25:CB:A2:13:EC:28:6F:6D:2C:61:FF:5D:C2:BC:B9:DB:3D:98:14:8D:1A:BB:EA:33:0C:A4:60:A8:8E\r\n"
		s += "a=candidate:udpcandidate 1 udp 1076302079 127.0.0.1 4444 typ host\r\na=end-of-candidates\r\n"
	}
	b, _ := json.Marshal(map[string]string{"type": "offer", "sdp": s})
	return base64.StdEncoding.EncodeToString(b)
}

func mid(i int, names bool) string {
	if names {
		return []string{"audio", "zwei", "3rd", "d"}[i]
	}
	return fmt.Sprint(i)
}

// msec is a media section of an answer.
type msec struct {
	kind, port string
	pts        []string
	attr       map[string][]string
}

func (m *msec) has(k string) bool { return m.attr[k] != nil }

// parseAnswer reads an SDP, independently of the library.
func parseAnswer(s string) (sess *msec, r []*msec) {
	sess = &msec{attr: map[string][]string{}}
	cur := sess
	for _, l := range strings.Split(strings.TrimRight(s, "\r\n"), "\r\n") {
		switch {
		case strings.HasPrefix(l, "m="):
			f := strings.Fields(l[2:])
			cur = &msec{kind: f[0], port: f[1], pts: f[3:], attr: map[string][]string{}}
			r = append(r, cur)
		case strings.HasPrefix(l, "a="):
			k, v, _ := strings.Cut(l[2:], ":")
			cur.attr[k] = append(cur.attr[k], v)
		}
	}
	return
}

// checkAnswer compares an answer with the offer it is for.
func checkAnswer(secs []section, dir string, mids, fb bool, sdp string) {
	_, r := parseAnswer(sdp)
	var names []string
	for _, x := range secs {
		names = append(names, x.codec)
	}
	what := fmt.Sprintf("answer to a %s offer of %v", dir, names)
	if len(r) != len(secs) {
		fail("%s: %d media sections", what, len(r))
		return
	}
	sess, _ := parseAnswer(sdp)
	seen := map[string]bool{}
	candidates := false
	for i, x := range secs {
		a := r[i]
		if a.kind != x.kind {
			fail("%s: section %d is %s", what, i, a.kind)
		}
		candidates = candidates || a.has("candidate")
		first := !seen[x.kind]
		seen[x.kind] = true
		if x.kind == "application" {
			continue
		}
		off := a.port == "0" || a.has("inactive")
		if x.good == "" {
			// the library answers later sections with what it agreed to before
			if first && !off && len(a.pts) > 0 {
				fail("%s: section %d is accepted with formats %v", what, i, a.pts)
			}
			continue
		}
		if !off {
			// nothing but what can be recorded may be sent
			if first && !slices.Equal(a.pts, []string{x.good}) {
				fail("%s: formats %v in section %d, expected %s", what, a.pts, i, x.good)
			}
			if m := a.attr["mid"]; len(m) != 1 || m[0] != mid(i, mids) {
				fail("%s: section %d has mid %v", what, i, m)
			}
			for _, k := range []string{"ice-ufrag", "ice-pwd", "fingerprint"} {
				if !a.has(k) && !sess.has(k) {
					fail("%s: no %s for section %d", what, k, i)
				}
			}
			if s := append(a.attr["setup"], sess.attr["setup"]...); len(s) == 0 || s[0] != "active" && s[0] != "passive" {
				fail("%s: set-up role %v in section %d", what, s, i)
			}
			if first && fb && x.kind == "video" {
				var got []string
				for _, f := range a.attr["rtcp-fb"] {
					got = append(got, strings.TrimSpace(f))
				}
				for _, f := range []string{"nack", "nack pli"} {
					if !slices.Contains(got, x.good+" "+f) && !slices.Contains(got, "* "+f) {
						fail("%s: section %d lacks the feedback %q: %v", what, i, f, got)
					}
				}
			}
		}
		if first && (dir == "sendonly" || dir == "sendrecv") && (off || a.has("sendonly")) {
			fail("%s: section %d, of what can be recorded, is not accepted for receiving", what, i)
		}
	}
	if !candidates && !sess.has("candidate") {
		fail("%s: no candidates", what)
	}
}

func a10() *mc.Property {
	return &mc.Property{ID: "A10", Assumptions: append([]string{"offers and answers are negotiated by the real pion library, without opening a connection"}, assume...),
		Bounds: func(th bool) string {
			return fmt.Sprintf("every offer of up to %d bundled media sections out of %d (Opus and VP8 under several payload types, next to others, others alone, a data channel), for 4 directions, numbers and names as mids, with and without feedback", bnd(th, 3, 4), len(sections))
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{
				seq("A10/answers", func() {
					var secs []section
					recordable := true
					for i := 0; i < bnd(th, 3, 4); i++ {
						k := vsched.Choose(len(sections)+1, "section")
						if k == 0 {
							break
						}
						secs = append(secs, sections[k-1])
						recordable = recordable && (secs[i].good != "" || secs[i].kind == "application")
					}
					dir := pick("direction", "sendonly", "sendrecv", "recvonly", "inactive")
					mids := flip("names as mids")
					fb := !flip("no feedback")
					vpion.Net().Real = true
					vpion.Net().Gather = func(*vpion.PeerConnection) time.Duration { return 10 * ms }
					defer func() {
						for _, pc := range vpion.Net().PCs {
							pc.Release()
						}
					}()
					w := lib.Start(nil)
					m := lib.StartMS("s", "a.webm")
					m["adapterOptions"].(lib.M)["mediasoup"].(lib.M)["sdp"] = offer(secs, dir, mids, fb)
					w.Do(m)
					ok := checkResponse(w, "s", 0, true)
					if recordable && len(secs) > 0 && !ok {
						fail("an offer of what can be recorded is refused: %s", w.Bus.Msgs[len(w.Bus.Msgs)-1].Raw)
					}
					if ok && len(secs) > 0 {
						_, sdp, _ := lib.Answer(w.Bus.By("startRecordingResponse", "s")[0].Str("sdp"))
						checkAnswer(secs, dir, mids, fb, sdp)
					}
				}),
			}
		}}
}

func init() { mc.Register(a10()) }
