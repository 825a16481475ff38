package props

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http/httptest"
	"strings"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/server"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vhttp"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vpion"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
)

// ---------------------------------------------------------------------
// H01

// hreq is one HTTP request.
type hreq struct {
	method, path, body string
	rec                *httptest.ResponseRecorder
	done               bool
}

func request(method, path, body string) *hreq {
	r := &hreq{method: method, path: path, body: body, rec: httptest.NewRecorder()}
	vsched.GoEnv("request", func() {
		var b io.Reader
		if body != "" {
			b = strings.NewReader(body)
		}
		vhttp.Web().Handler.ServeHTTP(r.rec, httptest.NewRequest(method, path, b))
		r.done = true
	})
	return r
}

// startHTTP runs the service and the HTTP helper on one bus.
func startHTTP() *lib.World {
	w := lib.Start(nil)
	w.Bus.Echo = true
	server.NewHTTPServer(w.Cfg, w.Bus).Serve()
	det(vsched.Settle)
	if !vhttp.Web().Serving {
		fail("the HTTP endpoint is not served")
	}
	return w
}

// stubHTTP runs the helper alone: the scenario plays the recorder.
func stubHTTP() *lib.Bus {
	c := lib.Config()
	b := &lib.Bus{}
	server.NewHTTPServer(c, b).Serve()
	det(vsched.Settle)
	return b
}

func (r *hreq) state() string {
	if !r.done {
		return "no answer"
	}
	return fmt.Sprintf("%d %.60q", r.rec.Code, r.rec.Body.String())
}

// answered checks a request against the recording its own offer started.
func (r *hreq) answered() {
	if !r.done || r.rec.Code != 200 {
		fail("an offer is answered with %s", r.state())
		return
	}
	_, sdp, err := lib.Answer(r.rec.Body.String())
	if err != nil {
		fail("an offer is answered with %s, which is no answer: %v", r.state(), err)
		return
	}
	_, offer, _ := lib.Answer(r.body)
	for _, pc := range vpion.Net().PCs {
		if strings.HasPrefix(sdp, fmt.Sprintf("answer-%d+", pc.ID)) {
			if pc.Remote == nil || pc.Remote.SDP != offer {
				fail("an offer is answered with the answer to another offer")
			}
			return
		}
	}
	fail("an offer is answered with %q, of no recording", sdp)
}

func (r *hreq) refused() {
	if !r.done || r.rec.Code < 400 {
		fail("a request whose recording failed is answered with %s", r.state())
	} else if _, _, err := lib.Answer(strings.TrimSpace(r.rec.Body.String())); err == nil {
		fail("a request whose recording failed is answered with an SDP answer")
	}
}

var offers = []string{lib.Offer("video"), lib.Offer("audio", "video"), lib.Offer("audio")}

func h01() *mc.Property {
	return &mc.Property{ID: "H01", Assumptions: append([]string{"the bus hands every response to the HTTP helper, and requests are stand-ins calling the real handler"}, assume...),
		Bounds: func(th bool) string {
			return fmt.Sprintf("2 concurrent offers to the real service, also with a failing one, in all schedules with %d deviations; up to 3 requests in flight whose responses arrive in every order, successful, failed, repeated and between foreign and malformed ones; 40 requests in a row and 40 in flight; all methods with and without body, bodies up to 1.5 MB", bnd(th, 2, 3))
		},
		Scenarios: func(th bool) []mc.Scenario {
			both := func(bad bool) func() {
				return func() {
					var w *lib.World
					det(func() { w = startHTTP() })
					second := offers[1]
					if bad {
						second = "bm8gb2ZmZXI="
					}
					a := request("POST", "/sdp", offers[0])
					b := request("POST", "/sdp", second)
					vsched.Sleep(5 * time.Second)
					a.answered()
					if bad {
						b.refused()
					} else {
						b.answered()
					}
					if n := lib.Sessions(); n != float64(bnd(bad, 2, 1)) {
						fail("%v recordings run", n)
					}
					w.Alive()
				}
			}
			return append(h01lots(40), []mc.Scenario{
				conc("H01/two offers", bnd(th, 2, 3), vsched.PkgServer, both(false)),
				conc("H01/an offer and a bad one", bnd(th, 2, 3), vsched.PkgServer, both(true)),
				seq("H01/one after the other", func() {
					w := startHTTP()
					for i := 0; i < bnd(th, 4, 5); i++ {
						switch pick("request", "offer", "bad offer", "failing recording", "not a post", "a second later") {
						case "offer":
							r := request("POST", "/sdp", offers[i%3])
							settle()
							r.answered()
						case "bad offer":
							r := request("POST", "/sdp", []string{"x", "e30=", lib.Offer()[:20], strings.Repeat("A", 100000)}[i%4])
							settle()
							r.refused()
						case "failing recording":
							vpion.Net().Fail = func(pc *vpion.PeerConnection, step string) error {
								if step == []string{"new", "remote", "answer", "local"}[i%4] {
									return io.ErrUnexpectedEOF
								}
								return nil
							}
							r := request("POST", "/sdp", offers[i%3])
							settle()
							r.refused()
							vpion.Net().Fail = nil
						case "not a post":
							n := len(w.Bus.Msgs)
							r := request([]string{"GET", "PUT", "HEAD", "DELETE"}[i%4], "/sdp", offers[0])
							settle()
							if !r.done || r.rec.Code < 400 || len(w.Bus.Msgs) != n {
								fail("a %s request is answered with %s and published %d messages", r.method, r.state(), len(w.Bus.Msgs)-n)
							}
						default:
							sleep(time.Second)
						}
					}
					w.Alive()
				}),
				h01sizes(),
				seq("H01/methods", func() {
					b := stubHTTP()
					m := pick("method", "GET", "HEAD", "PUT", "PATCH", "DELETE", "OPTIONS", "TRACE", "post", "POST")
					body := pick("body", "", "x", " ", lib.Offer("video"))
					r := request(m, "/sdp", body)
					settle()
					if m == "POST" && body != "" {
						if len(b.Msgs) != 1 || r.done {
							fail("an offer published %d messages, answered already: %v", len(b.Msgs), r.done)
						}
						return
					}
					if !r.done || r.rec.Code < 400 || r.rec.Code >= 500 {
						fail("a %s request with body %.20q is answered with %s", m, body, r.state())
					}
					if len(b.Msgs) > 0 {
						fail("a %s request with body %.20q published %s", m, body, b.Msgs[0].Raw)
					}
				}),
				seq("H01/responses", func() {
					b := stubHTTP()
					n := 1 + vsched.Choose(3, "requests")
					var reqs []*hreq
					for i := 0; i < n; i++ {
						reqs = append(reqs, request("POST", "/sdp", offers[i]))
						if vsched.Choose(2, "same second") == 1 {
							sleep(time.Second)
						}
						settle()
					}
					if len(b.Msgs) != n {
						fail("%d offers published %d messages", n, len(b.Msgs))
						return
					}
					ids := map[string]int{}
					files := map[string]bool{}
					var list []string
					for i, m := range b.Msgs {
						if m.Chan != lib.In || m.Id() != "startRecording" || m.Sess() == "" {
							fail("an offer published %s on %s", m.Raw, m.Chan)
						}
						sdp := m.Str("sdp")
						if o, ok := m.M["adapterOptions"].(map[string]any); ok {
							if ms, ok := o["mediasoup"].(map[string]any); ok {
								sdp, _ = ms["sdp"].(string)
							}
						}
						if sdp != offers[i] {
							fail("the offer of request %d is not the one published", i)
						}
						if _, dup := ids[m.Sess()]; dup || files[m.Str("fileName")] || !strings.HasSuffix(m.Str("fileName"), ".webm") {
							fail("two requests share session %s or file %s", m.Sess(), m.Str("fileName"))
						}
						ids[m.Sess()] = i
						files[m.Str("fileName")] = true
						list = append(list, m.Sess())
					}
					resp := func(id, status, sdp, e string) []byte {
						m := lib.M{"id": "startRecordingResponse", "recordingSessionId": id, "status": status}
						if status == "ok" {
							m["sdp"], m["fileName"] = sdp, "/rec/x.webm"
						} else if e != "" {
							m["error"] = e
						}
						j, _ := json.Marshal(m)
						return j
					}
					out := ""
					for len(list) > 0 {
						switch pick("between", "nothing", "foreign", "malformed", "other message") {
						case "foreign":
							b.Inject(lib.Out, resp("20240102030405", "ok", "foreign", ""))
							b.Inject(lib.Out, resp("", "ok", "foreign", ""))
						case "malformed":
							for _, x := range []string{"", "{", "null", "[]", `{"id":"startRecordingResponse"}`, `{"id":"startRecordingResponse","recordingSessionId":7}`} {
								b.Inject(lib.Out, []byte(x))
							}
						case "other message":
							b.Inject(lib.Out, []byte(`{"id":"recordingStopped","recordingSessionId":"`+list[0]+`","reason":"stopped"}`))
							b.Inject(lib.Out, []byte(`{"id":"recordingRtpStatusChanged","recordingSessionId":"`+list[0]+`","status":"flowing"}`))
						}
						settle()
						for _, id := range list {
							if r := reqs[ids[id]]; r.done {
								fail("request %d is answered with %s before its response", ids[id], r.state())
							}
						}
						k := vsched.Choose(len(list), "answered")
						id := list[k]
						list = append(list[:k], list[k+1:]...)
						r := reqs[ids[id]]
						own := fmt.Sprint("sdp of ", ids[id])
						how := pick("response", "ok", "ok twice", "failed", "failed without reason")
						switch how {
						case "ok":
							b.Inject(lib.Out, resp(id, "ok", own, ""))
						case "ok twice":
							b.Inject(lib.Out, resp(id, "ok", own, ""))
							b.Inject(lib.Out, resp(id, "ok", "again", ""))
						case "failed":
							b.Inject(lib.Out, resp(id, "failed", "", "no such thing"))
						default:
							b.Inject(lib.Out, resp(id, "failed", "", ""))
						}
						settle()
						if how[0] == 'o' {
							if !r.done || r.rec.Code != 200 || r.rec.Body.String() != own {
								fail("the answer is %q, request %d got %s", own, ids[id], r.state())
							}
						} else if !r.done || r.rec.Code < 400 {
							fail("request %d, whose recording failed, got %s", ids[id], r.state())
						}
						out += how
						if !b.Idle() {
							fail("responses are no longer handled")
						}
					}
					vsched.SetOutcome(out)
				}),
				conc("H01/responses at once", bnd(th, 2, 3), vsched.PkgServer, func() {
					var b *lib.Bus
					det(func() { b = stubHTTP() })
					a := request("POST", "/sdp", offers[0])
					c := request("POST", "/sdp", offers[1])
					answer := func(i int) {
						vsched.Block("offer", func() bool { return len(b.Msgs) > i })
						m := b.Msgs[i]
						b.Inject(lib.Out, []byte(`{"id":"startRecordingResponse","recordingSessionId":"foreign","status":"ok","sdp":"foreign"}`))
						own := "0"
						if strings.Contains(string(m.Raw), offers[1]) {
							own = "1"
						}
						b.Inject(lib.Out, []byte(`{"id":"startRecordingResponse","recordingSessionId":"`+m.Sess()+`","status":"ok","sdp":"`+own+`"}`))
					}
					vsched.GoEnv("recorder 2", func() { answer(1) })
					answer(0)
					vsched.Sleep(time.Second)
					if !a.done || a.rec.Body.String() != "0" || !c.done || c.rec.Body.String() != "1" {
						fail("the answers are 0 and 1, the requests got %s and %s", a.state(), c.state())
					}
				}),
			}...)
		}}
}

func init() { mc.Register(h01()) }
