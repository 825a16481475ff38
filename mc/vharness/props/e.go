package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/events"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
)

// ---------------------------------------------------------------------
// Messages and their spellings. A message is an ordered list of fields with
// values nil, string, int64, []any or obj.

type field struct {
	k string
	v any
}
type obj []field

func (o obj) with(k string, v any) obj { return append(o[:len(o):len(o)], field{k, v}) }

// spelling is one way of writing a message down.
type spelling struct {
	name         string
	bareKeys     bool   // identifiers as keys
	quote        string // of strings
	space        string // between tokens
	comma        string // after the last element
	ascii        bool   // everything else escaped, and all escapes used
	reverse      bool   // order of the fields
	before, behd string // unknown fields
	top, end     string // around the message
}

var spellings = []spelling{
	{name: "plain", quote: `"`},
	{name: "indented", quote: `"`, space: "\n\t "},
	{name: "escaped", quote: `"`, ascii: true},
	{name: "reversed", quote: `"`, reverse: true, space: " "},
	{name: "unknown fields", quote: `"`, before: `"x":{"id":"y","sdp":[1,-2.5e3,true]},"":null`, behd: `"zz":"}","n":[{}]`},
	{name: "bare keys", bareKeys: true, quote: `'`, comma: ","},
	{name: "comments", bareKeys: true, quote: `"`, space: " /* , } */\r\n// x ' \"\n", comma: ",", top: "//\n", end: " /**/"},
}

func (s spelling) str(v string) string {
	var b strings.Builder
	b.WriteString(s.quote)
	for _, r := range v {
		switch {
		case string(r) == s.quote || r == '\\':
			b.WriteString(`\` + string(r))
		case s.ascii && r == '/':
			b.WriteString(`\/`)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r < 0x20 || s.ascii && r >= 0x7f && r < 0x10000:
			fmt.Fprintf(&b, `\u%04x`, r)
		case s.ascii && r >= 0x10000:
			h, l := utf16.EncodeRune(r)
			fmt.Fprintf(&b, `\u%04X\u%04x`, h, l)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteString(s.quote)
	return b.String()
}

func (s spelling) value(v any) string {
	switch v := v.(type) {
	case nil:
		return "null"
	case string:
		return s.str(v)
	case int64:
		return fmt.Sprint(v)
	case bool:
		return fmt.Sprint(v)
	case float64:
		return fmt.Sprint(v)
	case []any:
		var l []string
		for _, e := range v {
			l = append(l, s.value(e))
		}
		end := ""
		if len(l) > 0 {
			end = s.comma
		}
		return "[" + strings.Join(l, ","+s.space) + end + "]"
	case obj:
		return s.object(v, "", "")
	}
	panic(fmt.Sprintf("%T", v))
}

func (s spelling) object(o obj, before, behind string) string {
	var l []string
	if before != "" {
		l = append(l, before)
	}
	for i := range o {
		f := o[i]
		if s.reverse {
			f = o[len(o)-1-i]
		}
		k := `"` + f.k + `"`
		if s.bareKeys {
			k = f.k
		}
		l = append(l, k+s.space+":"+s.space+s.value(f.v))
	}
	if behind != "" {
		l = append(l, behind)
	}
	end := ""
	if len(l) > 0 {
		end = s.comma
	}
	return "{" + s.space + strings.Join(l, s.space+","+s.space) + end + s.space + "}"
}

func (s spelling) message(o obj) []byte { return []byte(s.top + s.object(o, s.before, s.behd) + s.end) }

var strangeStrings = []string{"\x00\x01\x1f\x7f", `"'\/`, "a\u2028b\u2029", "\U0001f600é\ufeff", "<!-- & -->", "line\nline\ttab", "null", "{id:'x'}", strings.Repeat("x", 5000), " "}

// view is what a start request says.
type view struct {
	id, session, file, adapter, sdp, room string
	tracks                                string
}

func (v view) equal(e *events.StartRecording) string {
	g := view{id: e.Id, session: e.SessionId, file: e.FileName, adapter: string(e.Adapter), sdp: e.GetSDP()}
	if e.AdapterOptions != nil && e.AdapterOptions.LiveKit != nil {
		g.room = e.AdapterOptions.LiveKit.Room
		g.tracks = fmt.Sprintf("%q", append([]string{}, e.AdapterOptions.LiveKit.TrackIDs...))
	}
	if g.tracks == "" {
		g.tracks = "[]"
	}
	if v.tracks == "" {
		v.tracks = "[]"
	}
	if g != v {
		return fmt.Sprintf("%+v instead of %+v", g, v)
	}
	return ""
}

// absent marks a field not given.
type absent struct{}

func e01() *mc.Property {
	put := func(o obj, k string, v any) obj {
		if _, ok := v.(absent); ok {
			return o
		}
		return o.with(k, v)
	}
	str := func(v any) string { s, _ := v.(string); return s }
	// starts enumerates the start requests with the given strings.
	starts := func(sess, files []any, f func(o obj, v view, valid, undecided bool) bool) {
		var opts []any
		opts = append(opts, absent{}, nil)
		for _, m := range []any{absent{}, nil, obj{}, obj{{"sdp", ""}}, obj{{"sdp", "v=1"}}, obj{{"sdp", nil}}} {
			var lks []any
			lks = append(lks, absent{}, nil)
			for _, r := range []any{absent{}, "", "r", nil} {
				for _, t := range []any{absent{}, nil, []any{}, []any{"a"}, []any{"b", "a"}} {
					lks = append(lks, put(put(obj{}, "room", r), "trackIds", t))
				}
			}
			for _, l := range lks {
				opts = append(opts, put(put(obj{}, "mediasoup", m), "livekit", l))
			}
		}
		for _, id := range sess {
			for _, fn := range files {
				for _, a := range []any{absent{}, nil, "", "mediasoup", "livekit", "LiveKit", "kafka"} {
					for _, sdp := range []any{absent{}, nil, "", "v=0"} {
						for _, op := range opts {
							o := obj{{"id", "startRecording"}}
							o = put(put(put(put(put(o, "recordingSessionId", id), "fileName", fn), "adapter", a), "sdp", sdp), "adapterOptions", op)
							v := view{id: "startRecording", session: str(id), file: str(fn), adapter: str(a), sdp: str(sdp)}
							if q, ok := op.(obj); ok {
								for _, x := range q {
									if y, ok := x.v.(obj); ok {
										for _, z := range y {
											switch {
											case x.k == "mediasoup" && z.k == "sdp" && str(z.v) != "":
												v.sdp = str(z.v)
											case z.k == "room":
												v.room = str(z.v)
											case z.k == "trackIds":
												if l, ok := z.v.([]any); ok {
													var t []string
													for _, e := range l {
														t = append(t, e.(string))
													}
													v.tracks = fmt.Sprintf("%q", append([]string{}, t...))
												}
											}
										}
									}
								}
							}
							valid, und := false, false
							switch v.adapter {
							case "livekit":
								valid = v.room != "" && v.tracks != "" && v.tracks != "[]"
							case "", "mediasoup":
								valid = v.sdp != ""
							default:
								und = str(sdp) != ""
							}
							if !f(o, v, valid, und) {
								return
							}
						}
					}
				}
			}
		}
	}
	toAny := func(l []string) (r []any) {
		for _, s := range l {
			r = append(r, s)
		}
		return
	}
	// decodeStart checks one spelling of a start request.
	decodeStart := func(sp spelling, o obj, v view, valid, und bool) string {
		b := sp.message(o)
		e := events.Decode(b)
		if !e.IsValid() || e.Id != "startRecording" || e.StartRecording() == nil || e.StopRecording() != nil || e.StartRecordingResponse() != nil || e.GetRecorderStatus() != nil {
			return fmt.Sprintf("%q is not decoded as a start request", b)
		}
		if bad := v.equal(e.StartRecording()); bad != "" {
			return fmt.Sprintf("%q is decoded as %s", b, bad)
		}
		if err := e.StartRecording().Validate(); !und && (err == nil) != valid {
			return fmt.Sprintf("%q: validation says %v", b, err)
		}
		return ""
	}
	// check reads a published message back, independently and by Decode.
	check := func(m any, want map[string]any) string {
		b, err := json.Marshal(m)
		if err != nil {
			return fmt.Sprintf("%+v cannot be encoded: %v", m, err)
		}
		got := map[string]any{}
		d := json.NewDecoder(strings.NewReader(string(b)))
		d.UseNumber()
		if err := d.Decode(&got); err != nil {
			return fmt.Sprintf("%q is not JSON: %v", b, err)
		}
		for k, v := range got {
			if n, ok := v.(json.Number); ok {
				got[k] = "#" + n.String()
			}
		}
		if !reflect.DeepEqual(got, want) {
			return fmt.Sprintf("%q instead of the fields %q", b, want)
		}
		e := events.Decode(b)
		if !e.IsValid() || e.Id != want["id"] {
			return fmt.Sprintf("%q is not decoded", b)
		}
		back, _ := json.Marshal(e.Data)
		var x, y map[string]any
		json.Unmarshal(b, &x)
		json.Unmarshal(back, &y)
		if !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("%q is decoded as %q", b, back)
		}
		return ""
	}
	return &mc.Property{ID: "E01",
		Assumptions: []string{"messages are compared by their fields; a null field counts as absent"},
		Bounds: func(th bool) string {
			return fmt.Sprintf("start requests: 7 adapters x 4 offers x 134 adapter options x %d sessions x %d file names in 7 spellings; every other message with every combination of fields and %d strange strings; every wrong type of every field; every truncation; all ordered pairs of 60 messages; fields of 0 bytes to 3 MB; two concurrent decodings with %d deviations", bnd(th, 4, 13), bnd(th, 2, 5), len(strangeStrings), bnd(th, 3, 4))
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{conc("E01/concurrently", bnd(th, 3, 4), vsched.PkgOther, func() {
				a, b := vsched.Choose(4, "first"), vsched.Choose(4, "second")
				done := 0
				one := func(name string, k int) {
					vsched.GoEnv(name, func() {
						s := fmt.Sprintf("%s%d", name, k)
						sp := spellings[k]
						o := obj{{"id", "stopRecording"}, {"recordingSessionId", s}}
						if k%2 == 0 {
							o = obj{{"id", "startRecording"}, {"recordingSessionId", s}, {"fileName", name}, {"adapterOptions", obj{{"mediasoup", obj{{"sdp", s}}}}}}
							if bad := decodeStart(sp, o, view{id: "startRecording", session: s, file: name, sdp: s}, true, false); bad != "" {
								fail("%s", bad)
							}
						} else if e := events.Decode(sp.message(o)); e.StopRecording() == nil || e.StopRecording().SessionId != s {
							fail("%q is not decoded as a stop request of %s", sp.message(o), s)
						}
						done++
					})
				}
				one("p", a)
				one("q", b)
				vsched.Block("both", func() bool { return done == 2 })
			})}
		},
		Tasks: func(th bool) []mc.Task {
			var r []mc.Task
			task := func(name string, f func(t *mc.T) string) {
				r = append(r, mc.Task{Name: "E01/" + name, Run: func(t *mc.T) { enumerate(t, name, func() string { return f(t) }) }})
			}
			count := func(t *mc.T) bool {
				t.States++
				t.Transitions++
				return !t.Expired()
			}
			for _, sp := range spellings {
				task("sizes, "+sp.name, e01sizes(sp, th))
			}
			for _, sp := range spellings {
				sp := sp
				task("start requests, "+sp.name, func(t *mc.T) (bad string) {
					sess := []any{absent{}, nil, "", "s-1"}
					files := []any{absent{}, "f.webm"}
					if th {
						sess = append(sess, toAny(strangeStrings[:9])...)
						files = append(files, nil, "", strangeStrings[1])
					}
					starts(sess, files, func(o obj, v view, valid, und bool) bool {
						bad = decodeStart(sp, o, v, valid, und)
						return count(t) && bad == ""
					})
					if bad != "" {
						return
					}
					// Strange strings in every field.
					for _, x := range strangeStrings {
						for i := 0; i < 7; i++ {
							v := view{"startRecording", "s", "f", "mediasoup", "o", "r", ""}
							tr := "t"
							*[]*string{&v.session, &v.file, &v.sdp, &v.room, &tr, &v.adapter, &v.sdp}[i] = x
							v.tracks = fmt.Sprintf("%q", []string{tr, "u"})
							o := obj{{"id", "startRecording"}, {"recordingSessionId", v.session}, {"fileName", v.file}, {"adapter", v.adapter}}
							ms := obj{{"sdp", v.sdp}}
							if i == 6 {
								o, ms = o.with("sdp", v.sdp), nil
							}
							o = o.with("adapterOptions", obj{{"mediasoup", ms}, {"livekit", obj{{"room", v.room}, {"trackIds", []any{tr, "u"}}}}})
							if ms == nil {
								o[len(o)-1].v.(obj)[0].v = nil
							}
							if bad := decodeStart(sp, o, v, true, i == 5); bad != "" || !count(t) {
								return bad
							}
						}
					}
					return ""
				})
				task("other commands, "+sp.name, func(t *mc.T) string {
					vals := append([]any{absent{}, nil, "", "s"}, toAny(strangeStrings)...)
					for _, x := range vals {
						b := sp.message(put(obj{{"id", "stopRecording"}}, "recordingSessionId", x))
						e := events.Decode(b)
						if !e.IsValid() || e.Id != "stopRecording" || e.StopRecording() == nil || e.StopRecording().SessionId != str(x) || e.StopRecording().Id != "stopRecording" || e.StartRecording() != nil || e.GetRecorderStatus() != nil {
							return fmt.Sprintf("%q is not decoded as a stop request", b)
						}
						b = sp.message(put(obj{{"id", "getRecorderStatus"}}, "more", x))
						e = events.Decode(b)
						if !e.IsValid() || e.GetRecorderStatus() == nil || e.GetRecorderStatus().Id != "getRecorderStatus" || e.StopRecording() != nil || e.StartRecording() != nil {
							return fmt.Sprintf("%q is not decoded as a status query", b)
						}
						// Anything else is none of the commands.
						for _, id := range append([]any{"StopRecording", "recordingStopped", "stopRecording ", ""}, toAny(strangeStrings)...) {
							b := sp.message(put(obj{{"id", id}}, "recordingSessionId", x))
							if e := events.Decode(b); e.StopRecording() != nil || e.StartRecording() != nil || e.GetRecorderStatus() != nil || e.StartRecordingResponse() != nil {
								return fmt.Sprintf("%q is decoded as a command", b)
							}
							if !count(t) {
								return ""
							}
						}
						// Responses.
						for _, st := range []any{absent{}, nil, "", "ok", "failed", "OK"} {
							for _, er := range []any{absent{}, nil, "", "e"} {
								for _, sdp := range []any{absent{}, nil, "", "v=0"} {
									for _, fn := range []any{absent{}, nil, "", "/f"} {
										o := put(obj{{"id", "startRecordingResponse"}}, "recordingSessionId", x)
										b := sp.message(put(put(put(put(o, "status", st), "error", er), "sdp", sdp), "fileName", fn))
										e := events.Decode(b).StartRecordingResponse()
										if e == nil {
											return fmt.Sprintf("%q is not decoded as a response", b)
										}
										same := func(p *string, v any) bool {
											s, ok := v.(string)
											return ok == (p != nil) && (!ok || *p == s)
										}
										if e.Id != "startRecordingResponse" || e.SessionId != str(x) || e.Status != str(st) || !same(e.Error, er) || !same(e.SDP, sdp) || !same(e.FileName, fn) {
											return fmt.Sprintf("%q is decoded as %+v", b, e)
										}
										has := func(v any) bool { _, ok := v.(string); return ok }
										want := str(x) != "" && (str(st) == "ok" && !has(er) && has(fn) || str(st) == "failed" && has(er) && !has(sdp))
										if err := e.Validate(); (err == nil) != want {
											return fmt.Sprintf("%q: validation says %v", b, err)
										}
										if !count(t) {
											return ""
										}
									}
								}
							}
						}
					}
					return ""
				})
				task("malformed, "+sp.name, func(t *mc.T) string {
					none := func(b []byte) string {
						if e := events.Decode(b); e.StopRecording() != nil || e.StartRecording() != nil || e.GetRecorderStatus() != nil || e.StartRecordingResponse() != nil {
							return fmt.Sprintf("%q is decoded as a command", b)
						}
						return ""
					}
					wrong := []any{int64(0), int64(-1), true, false, 1.5, "x", []any{}, []any{"x"}, obj{}, obj{{"a", "b"}}, nil}
					is := func(v any, kind string) bool {
						switch v.(type) {
						case nil:
							return true
						case string:
							return kind == "s"
						case obj:
							return kind == "o"
						case []any:
							return kind == "a"
						}
						return false
					}
					cmd := func(id string) obj {
						switch id {
						case "stopRecording":
							return obj{{"id", id}, {"recordingSessionId", "s"}}
						case "getRecorderStatus":
							return obj{{"id", id}}
						case "startRecordingResponse":
							return obj{{"id", id}, {"recordingSessionId", "s"}, {"status", "ok"}, {"sdp", "v"}, {"fileName", "f"}, {"error", "e"}}
						}
						return obj{{"id", id}, {"recordingSessionId", "s"}, {"fileName", "f"}, {"adapter", "livekit"}, {"sdp", "v"}, {"adapterOptions", obj{{"mediasoup", obj{{"sdp", "v"}}}, {"livekit", obj{{"room", "r"}, {"trackIds", []any{"t"}}}}}}}
					}
					// every truncation, and every wrong type of every field
					for _, id := range []string{"stopRecording", "getRecorderStatus", "startRecording", "startRecordingResponse"} {
						m := sp.message(cmd(id))
						last := strings.LastIndex(string(m), "}")
						for i := 0; i <= last; i++ {
							if bad := none(m[:i]); bad != "" || !count(t) {
								return bad
							}
						}
						for _, tail := range []string{"}", "x", "{}", ",", `"`, "]"} {
							if sp.end != "" {
								break
							}
							if bad := none(append(append([]byte{}, m...), tail...)); bad != "" || !count(t) {
								return bad
							}
						}
						var walk func(o obj, rebuild func(obj) obj) string
						walk = func(o obj, rebuild func(obj) obj) string {
							for i := range o {
								kind := "s"
								switch o[i].v.(type) {
								case obj:
									kind = "o"
								case []any:
									kind = "a"
								}
								for _, w := range wrong {
									if o[i].k == "id" && w != any("x") || !is(w, kind) {
										c := append(obj{}, o...)
										c[i].v = w
										if bad := none(sp.message(rebuild(c))); bad != "" || !count(t) {
											return bad
										}
									}
								}
								if q, ok := o[i].v.(obj); ok {
									if bad := walk(q, func(n obj) obj {
										c := append(obj{}, o...)
										c[i].v = n
										return rebuild(c)
									}); bad != "" {
										return bad
									}
								}
							}
							return ""
						}
						if bad := walk(cmd(id), func(o obj) obj { return o }); bad != "" {
							return bad
						}
						if bad := none(sp.message(cmd(id)[1:])); bad != "" {
							return bad
						}
					}
					for _, w := range wrong {
						if bad := none([]byte(sp.value(w))); bad != "" || !count(t) {
							return bad
						}
					}
					return ""
				})
			}
			task("published messages", func(t *mc.T) string {
				vsched.SetNow(0)
				utc := "2024-01-02T03:04:05Z"
				for i, x := range append([]string{"s"}, strangeStrings...) {
					for _, y := range append([]string{"f"}, strangeStrings...) {
						st := &events.StartRecording{Id: "startRecording", SessionId: x}
						if bad := check(st.Fail(errors.New(y)), map[string]any{"id": "startRecordingResponse", "recordingSessionId": x, "status": "failed", "error": y}); bad != "" {
							return bad
						}
						if err := st.Fail(errors.New(y)).Validate(); err != nil {
							return fmt.Sprintf("a failure response is invalid: %v", err)
						}
						if bad := check(st.Success(y, x), map[string]any{"id": "startRecordingResponse", "recordingSessionId": x, "status": "ok", "sdp": y, "fileName": x}); bad != "" {
							return bad
						}
						if err := st.Success(y, x).Validate(); err != nil {
							return fmt.Sprintf("a success response is invalid: %v", err)
						}
						for _, ts := range []time.Duration{0, 1, 999, 1000, 1<<31 - 1, 1 << 31, 1 << 53, 1<<53 + 1, math.MaxInt64} {
							want := map[string]any{"id": "recordingStopped", "recordingSessionId": x, "reason": y, "timestampUTC": utc}
							if ts != 0 {
								want["timestampHR"] = "#" + fmt.Sprint(int64(ts))
							}
							got := (&events.StopRecording{Id: "stopRecording", SessionId: x}).Stopped(y, ts)
							if bad := check(got, want); bad != "" && ts < 1<<53 {
								return bad
							}
							if bad := check(events.NewRecordingStopped(x, y, ts), want); bad != "" && ts < 1<<53 {
								return bad
							}
							for _, fl := range []bool{false, true} {
								s := map[bool]string{false: "not_flowing", true: "flowing"}[fl]
								if bad := check(events.NewRecordingRtpStatusChanged(x, fl, ts), map[string]any{"id": "recordingRtpStatusChanged", "recordingSessionId": x, "status": s, "timestampUTC": utc, "timestampHR": "#" + fmt.Sprint(int64(ts))}); bad != "" {
									return bad
								}
							}
							count(t)
						}
						vsched.SetNow(time.Duration(i) * 1234567 * time.Microsecond)
						now := int64(1704164645000) + int64(i)*1234567/1000
						want := map[string]any{"id": "recorderStatus", "appVersion": x, "instanceId": y, "timestamp": "#" + fmt.Sprint(now)}
						if bad := check((&events.GetRecorderStatus{}).Status(x, y), want); bad != "" {
							return bad
						}
						if bad := check(events.NewRecorderStatus(x, y), want); bad != "" || !count(t) {
							return bad
						}
						vsched.SetNow(0)
					}
				}
				return ""
			})
			task("pairs", func(t *mc.T) string {
				type msg struct {
					b    []byte
					show string
				}
				var all []msg
				show := func(e *events.Event) string {
					if !e.IsValid() {
						return "none"
					}
					j, _ := json.Marshal(e.Data)
					return fmt.Sprintf("%s %T %s", e.Id, e.Data, j)
				}
				n := 0
				starts([]any{absent{}, "s", "q"}, []any{absent{}, "f"}, func(o obj, v view, valid, und bool) bool {
					if n++; n%577 == 0 {
						all = append(all, msg{b: spellings[n%7].message(o)})
					}
					return len(all) < 40
				})
				for i, id := range []string{"stopRecording", "getRecorderStatus", "startRecordingResponse", "recorderStatus", "recordingRtpStatusChanged", "other", "recordingStopped"} {
					o := obj{{"id", id}, {"recordingSessionId", "k"}, {"status", "ok"}, {"sdp", "v"}}
					for j := 1; j <= 3; j++ {
						all = append(all, msg{b: spellings[(i+j)%7].message(o[:j])})
					}
				}
				all = append(all, msg{b: []byte("{")}, msg{b: []byte(`{"id":"startRecording","recordingSessionId":"z","fileName":3}`)})
				for i := range all {
					all[i].show = show(events.Decode(all[i].b))
				}
				for _, x := range all {
					for _, y := range all {
						e := events.Decode(x.b)
						b := append([]byte{}, y.b...)
						f := events.Decode(b)
						for i := range b {
							b[i] = '#' // the caller may reuse its buffer
						}
						if show(e) != x.show || show(f) != y.show {
							return fmt.Sprintf("%q and then %q are decoded as %s and %s", x.b, y.b, show(e), show(f))
						}
						if !count(t) {
							return ""
						}
					}
				}
				return ""
			})
			return r
		}}
}

func init() { mc.Register(e01()) }
