package props

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vredigo"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
)

// ---------------------------------------------------------------------
// The redis adapter

const chIn, chOut = "to-rec", "from-rec"

// redisWorld is a subscriber on a redis server.
type redisWorld struct {
	ps      pubsub.PubSub
	started int
	got     []string
	want    []string
	ended   bool
	endAt   time.Duration
	slow    time.Duration
	reply   bool // the handler publishes
	busy    bool
}

func newRedis() pubsub.PubSub {
	vredigo.Redis().Password = "secret"
	return pubsub.NewPubSub(config.PubSub{Adapter: "redis", Adapters: map[string]interface{}{
		"redis": map[string]interface{}{"address": "10.1.2.3:6379", "network": "tcp4", "password": "secret"},
	}})
}

func listen() *redisWorld {
	r := &redisWorld{ps: newRedis()}
	if n := len(vredigo.Redis().Conns); n != 1 || vredigo.Redis().Conns[0].Closed != 1 {
		fail("%d connections remain from the start", n)
	}
	r.start()
	return r
}

func (r *redisWorld) start() {
	vsched.GoEnv("listener", func() {
		r.ps.Subscribe(chIn, func(ctx context.Context, m []byte) {
			if r.busy {
				fail("two messages are handled at once")
			}
			if r.started != 1 {
				fail("a message is handled before the start callback")
			}
			r.busy = true
			if r.slow > 0 {
				vsched.Sleep(r.slow)
			}
			r.got = append(r.got, string(m))
			if r.reply {
				r.ps.Publish(chOut, append([]byte("re:"), m...))
			}
			r.busy = false
		}, func() error {
			if len(r.got) > 0 {
				fail("the start callback runs after a message")
			}
			r.started++
			return nil
		})
		r.ended = true
		r.endAt = vsched.Now()
	})
}

// conn is the subscribed connection.
func (r *redisWorld) conn() *vredigo.FConn {
	c := vredigo.Redis().Conns
	for i := len(c) - 1; i >= 0; i-- {
		if c[i].Receiver || len(c[i].Subs) > 0 {
			c[i].Receiver = true
			return c[i]
		}
	}
	return nil
}

func (r *redisWorld) send(m string) {
	r.conn().Message(chIn, []byte(m))
	r.want = append(r.want, m)
}

func (r *redisWorld) check(what string) {
	if strings.Join(r.got, "|") != strings.Join(r.want, "|") || len(r.got) != len(r.want) {
		fail("handled %.200q, published were %.200q [%s]", r.got, r.want, what)
	}
}

// gone checks that listening has ended and left nothing.
func (r *redisWorld) gone(what string) {
	if !r.ended {
		fail("listening goes on: %s [%s]", strings.Join(vsched.LiveThreads(), ", "), what)
		return
	}
	if n := vsched.AppThreads(); n != 0 {
		fail("%d goroutines remain: %s [%s]", n, strings.Join(vsched.LiveThreads(), ", "), what)
	}
	for _, c := range vredigo.Redis().Conns {
		if c.Closed != 1 {
			fail("connection %d was closed %d times [%s]", c.ID, c.Closed, what)
		}
	}
}

var redisBodies = []string{`{"id":"getRecorderStatus"}`, "", "\x00\xff\r\n$5\r\n", strings.Repeat("x", 70000)}

// redisHistory explores what arrives on the connection and how it ends.
func redisHistory(depth int) func() {
	return func() {
		r := listen()
		settle()
		if r.started != 1 || r.conn() == nil {
			fail("the start callback ran %d times", r.started)
			return
		}
		if c := r.conn(); c.Network != "tcp4" || c.Address != "10.1.2.3:6379" || len(c.Subs) != 1 || !c.Subs[chIn] {
			fail("connected to %s %s, subscribed to %v", c.Network, c.Address, c.Subs)
		}
		r.slow = []time.Duration{0, 30 * time.Second, 80 * time.Second}[vsched.Choose(3, "handler")]
		r.reply = vsched.Choose(2, "handler replies") == 1
		what := fmt.Sprint("handler takes ", r.slow, " replies ", r.reply, ":")
		n := 0
		end := ""
		for i := 0; i < depth && end == ""; i++ {
			act := pick("event", "message", "two messages", "foreign", "idle 61s", "idle 5m", "broken", "muted", "cancelled", "ping fails")
			what += " " + act
			switch act {
			case "message", "two messages":
				k := 1
				if act != "message" {
					k = 2
				}
				for j := 0; j < k; j++ {
					m := redisBodies[n%len(redisBodies)]
					if n == 4 {
						m = redisBodies[0]
					}
					n++
					r.send(m)
				}
				settle()
			case "foreign":
				r.conn().Message(chOut, []byte("foreign"))
				settle()
			case "idle 61s":
				sleep(61 * time.Second)
			case "idle 5m":
				sleep(5 * time.Minute)
			case "broken":
				r.conn().Break(errors.New("connection reset"))
				end = act
			case "muted":
				r.conn().Mute = true
				end = act
			case "cancelled":
				r.ps.(*pubsub.Redis).Unsubscribe()
				end = act
			case "ping fails":
				c := r.conn()
				vredigo.Redis().Fail = func(x *vredigo.FConn, step string) error {
					if x == c && step == "send:PING" {
						return errors.New("broken pipe")
					}
					return nil
				}
				end = act
			}
			if end == "" && r.ended {
				fail("listening has ended although the connection is up [%s]", what)
				return
			}
		}
		if end == "" {
			sleep(time.Duration(2*depth)*r.slow + time.Second)
			r.check(what)
			return
		}
		t := vsched.Now()
		// Whatever is being handled is finished; then the loss is noticed at once,
		// a silent one by the missing answer to the next probe.
		sleep(time.Duration(2*depth)*r.slow + 150*time.Second)
		r.gone(what)
		if end == "broken" || end == "cancelled" {
			if len(r.got) == len(r.want) && r.slow == 0 && r.endAt > t+time.Second {
				fail("listening ended %v after the connection [%s]", r.endAt-t, what)
			}
		}
		if end == "broken" && len(r.got) != len(r.want) {
			fail("handled %.100q, %.100q had arrived [%s]", r.got, r.want, what)
		}
		if len(r.got) > len(r.want) {
			fail("more messages were handled than published [%s]", what)
		}
		for i := range r.got {
			if r.got[i] != r.want[i] {
				fail("message %d was handled as %.100q [%s]", i, r.got[i], what)
			}
		}
		pubs := vredigo.Redis().Published
		if r.reply && len(pubs) != len(r.got) {
			fail("%d replies for %d messages [%s]", len(pubs), len(r.got), what)
		}
		vsched.SetOutcome(fmt.Sprint(end, len(r.got), r.endAt-t))
	}
}

// redisFaults explores failing steps of subscribing and unsubscribing.
func redisFaults() {
	r := &redisWorld{ps: newRedis()}
	step := pick("failing step", "dial", "send:SUBSCRIBE", "flush", "send:UNSUBSCRIBE", "flush at the end", "muted at the end")
	n := 0
	vredigo.Redis().Fail = func(c *vredigo.FConn, s string) error {
		switch {
		case s == step:
			return errors.New("refused")
		case s == "flush" && step == "flush at the end":
			if n++; n == 2 {
				return errors.New("refused")
			}
		}
		return nil
	}
	r.start()
	settle()
	k := vsched.Choose(3, "messages")
	if c := r.conn(); c != nil {
		for i := 0; i < k; i++ {
			r.send(redisBodies[i])
		}
		settle()
		if step == "muted at the end" {
			c.Mute = true
		}
		r.ps.(*pubsub.Redis).Unsubscribe()
	}
	sleep(150 * time.Second)
	r.gone("failing step " + step)
	r.check("failing step " + step)
	late := strings.Contains(step, "UNSUB") || strings.Contains(step, "the end")
	if late != (r.started == 1) || r.started > 1 {
		fail("failing step %s: the start callback ran %d times", step, r.started)
	}
	vsched.SetOutcome(step)
}

// hours lets the scenarios take longer than usual.
func hours(r []mc.Scenario) []mc.Scenario {
	for i := range r {
		r[i].Opt.Horizon = 3 * time.Hour
	}
	return r
}

func r01() *mc.Property {
	return &mc.Property{ID: "R01", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprintf("all sequences of %d events (messages of any bytes, foreign messages, idling up to 5 minutes) ended by connection loss, silence, cancellation or a failing probe, with quick and slow handlers; 30 bursts of up to 700 messages; each failing step of subscribing and unsubscribing; messages against loss and cancellation in all schedules with %d deviations", bnd(th, 5, 6), bnd(th, 4, 5))
		},
		Scenarios: func(th bool) []mc.Scenario {
			race := func(body func(r *redisWorld)) func() {
				return func() {
					var r *redisWorld
					det(func() { r = listen(); r.reply = true; vsched.Settle() })
					body(r)
					r.gone("race")
					for i := range r.got {
						if i >= len(r.want) || r.got[i] != r.want[i] {
							fail("handled %q, published %q", r.got, r.want)
						}
					}
					if len(vredigo.Redis().Published) != len(r.got) {
						fail("%d replies to %d messages", len(vredigo.Redis().Published), len(r.got))
					}
					vsched.SetOutcome(fmt.Sprint(len(r.got), r.endAt))
				}
			}
			return hours([]mc.Scenario{
				seq("R01/histories", redisHistory(bnd(th, 5, 6))),
				r01lots(),
				seq("R01/faults", redisFaults),
				conc("R01/cancelled meanwhile", bnd(th, 4, 5), vsched.PkgPubSub|vsched.PkgRedis, race(func(r *redisWorld) {
					r.send("one")
					r.send("two")
					vsched.GoEnv("canceller", func() { vsched.Sleep(ms); r.ps.(*pubsub.Redis).Unsubscribe() })
					vsched.Sleep(ms)
					r.send("three")
					vsched.Sleep(150 * time.Second)
				})),
				conc("R01/lost meanwhile", bnd(th, 4, 5), vsched.PkgPubSub|vsched.PkgRedis, race(func(r *redisWorld) {
					det(func() { vsched.Sleep(60*time.Second - ms) })
					r.send("one")
					vsched.GoEnv("network", func() {
						vsched.Sleep(ms)
						r.send("two")
						r.conn().Break(errors.New("reset"))
					})
					vsched.GoEnv("canceller", func() {
						vsched.Sleep(ms)
						r.ps.(*pubsub.Redis).Unsubscribe()
					})
					vsched.Sleep(150 * time.Second)
				})),
				conc("R01/start", bnd(th, 4, 5), vsched.PkgPubSub|vsched.PkgRedis, func() {
					var r *redisWorld
					det(func() { r = &redisWorld{ps: newRedis()} })
					r.start()
					vsched.GoEnv("sender", func() {
						vsched.Block("subscription", func() bool { return r.conn() != nil })
						r.send("one")
						r.send("two")
					})
					if vsched.Choose(2, "cancelled") == 1 {
						r.ps.(*pubsub.Redis).Unsubscribe()
						vsched.Sleep(150 * time.Second)
						r.gone("start")
						return
					}
					vsched.Sleep(time.Second)
					r.check("start")
					if r.started != 1 {
						fail("the start callback ran %d times", r.started)
					}
				}),
			})
		}}
}

// ---------------------------------------------------------------------
// R02

func r02() *mc.Property {
	return &mc.Property{ID: "R02", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprintf("all sequences of %d messages, each undisturbed or with one of 4 failures; 60 messages with a failure at every first, second or seventh; 3 concurrent publishes, one failing, in all schedules with %d deviations; the service publishing with failures", bnd(th, 5, 6), bnd(th, 4, 5))
		},
		Scenarios: func(th bool) []mc.Scenario {
			verify := func(want []string) {
				var got []string
				for _, p := range vredigo.Redis().Published {
					if p.Channel != chOut && p.Channel != "other" {
						fail("published on channel %q", p.Channel)
					}
					got = append(got, p.Channel+":"+string(p.Data))
				}
				if len(got) != len(want) {
					fail("%d messages were published, %d should be: %.200q", len(got), len(want), got)
				}
				for i := range want {
					if got[i] != want[i] {
						fail("published %.100q, should be %.100q", got[i], want[i])
					}
				}
				for _, c := range vredigo.Redis().Conns {
					if c.Closed != 1 {
						fail("connection %d was closed %d times", c.ID, c.Closed)
					}
				}
				if n := vsched.AppThreads(); n != 0 {
					fail("%d goroutines remain: %s", n, strings.Join(vsched.LiveThreads(), ", "))
				}
			}
			return hours([]mc.Scenario{
				seq("R02/histories", func() {
					ps := newRedis()
					s := vredigo.Redis()
					var want []string
					out := ""
					for i := 0; i < bnd(th, 5, 6); i++ {
						f := pick("failure", "none", "dial", "do:PUBLISH", "no answer", "wrong password")
						s.Fail, s.Mute, s.Password = nil, false, "secret"
						switch f {
						case "dial", "do:PUBLISH":
							s.Fail = func(c *vredigo.FConn, step string) error {
								if step == f {
									return errors.New("refused")
								}
								return nil
							}
						case "no answer":
							s.Mute = true
						case "wrong password":
							s.Password = "changed"
						}
						ch := []string{chOut, "other"}[i%2]
						m := redisBodies[i%len(redisBodies)]
						buf := []byte(m)
						t := vsched.Now()
						done := false
						vsched.GoEnv("publisher", func() { ps.Publish(ch, buf); done = true })
						sleep(2 * time.Minute)
						if !done {
							fail("publishing still waits %v after failure %s", vsched.Now()-t, f)
							return
						}
						if f == "none" {
							want = append(want, ch+":"+m)
						}
						out += f + " "
					}
					s.Fail, s.Mute, s.Password = nil, false, "secret"
					ps.Publish(chOut, []byte("last"))
					want = append(want, chOut+":last")
					verify(want)
					vsched.SetOutcome(out)
				}),
				r02lots(verify),
				conc("R02/concurrent", bnd(th, 4, 5), vsched.PkgPubSub|vsched.PkgRedis, func() {
					var ps pubsub.PubSub
					det(func() { ps = newRedis() })
					bad := vsched.Choose(4, "failing")
					step := []string{"dial", "do:PUBLISH"}[vsched.Choose(2, "failing step")]
					n := 0
					vredigo.Redis().Fail = func(c *vredigo.FConn, s string) error {
						if s == step {
							if n++; n == bad {
								return errors.New("refused")
							}
						}
						return nil
					}
					done := 0
					for i := 0; i < 3; i++ {
						i := i
						vsched.GoEnv("publisher", func() { ps.Publish(chOut, []byte(fmt.Sprint("m", i))); done++ })
					}
					vsched.Block("publishers", func() bool { return done == 3 })
					seen := map[string]int{}
					for _, p := range vredigo.Redis().Published {
						seen[string(p.Data)]++
					}
					k := 0
					for i := 0; i < 3; i++ {
						m := fmt.Sprint("m", i)
						if seen[m] > 1 {
							fail("%s was published %d times", m, seen[m])
						}
						k += seen[m]
					}
					want := 3
					if bad > 0 {
						want = 2
					}
					if k != want || len(vredigo.Redis().Published) != want {
						fail("%d of 3 messages were published, one of 3 may fail: %v", k, bad > 0)
					}
					for _, c := range vredigo.Redis().Conns {
						if c.Closed != 1 {
							fail("connection %d was closed %d times", c.ID, c.Closed)
						}
					}
					vsched.SetOutcome(fmt.Sprint(seen))
				}),
			})
		}}
}

func init() {
	mc.Register(r01())
	mc.Register(r02())
}

var _ = lib.In
