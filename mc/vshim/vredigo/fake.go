// Package vredigo replaces the dialling part of redigo: connections are
// environment objects driven by the harness; PubSubConn is the real one.
package vredigo

import (
	"context"
	"errors"
	"io"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	"github.com/gomodule/redigo/redis"
)

type DialOption struct {
	f func(*dialOpts)
}
type dialOpts struct {
	read, write, connect time.Duration
	password, username   string
	db                   int
}

func DialReadTimeout(d time.Duration) DialOption    { return DialOption{func(o *dialOpts) { o.read = d }} }
func DialWriteTimeout(d time.Duration) DialOption   { return DialOption{func(o *dialOpts) { o.write = d }} }
func DialConnectTimeout(d time.Duration) DialOption { return DialOption{func(o *dialOpts) { o.connect = d }} }
func DialKeepAlive(d time.Duration) DialOption      { return DialOption{func(o *dialOpts) {}} }
func DialPassword(s string) DialOption              { return DialOption{func(o *dialOpts) { o.password = s }} }
func DialUsername(s string) DialOption              { return DialOption{func(o *dialOpts) { o.username = s }} }
func DialDatabase(n int) DialOption                 { return DialOption{func(o *dialOpts) { o.db = n }} }

type Server struct {
	Conns    []*FConn
	Password string
	// Fail returns an error for dial, send:<cmd>, do:<cmd>, flush.
	Fail      func(c *FConn, step string) error
	Mute      bool // connections are accepted and commands not answered
	Published []Pub
	OnPublish func(p Pub)
}
type Pub struct {
	Channel string
	Data    []byte
	Conn    int
	Seq     int
}
type key struct{}

func Redis() *Server { return vsched.Obj(key{}, func() any { return &Server{} }).(*Server) }

// FConn implements redis.Conn.
type FConn struct {
	ID       int
	Network  string
	Address  string
	o        dialOpts
	s        *Server
	closed   bool
	Closed   int
	err      error
	in       []any // replies or errors to deliver
	out      [][]any
	Subs     map[string]bool
	Pings    int
	PingAt   []time.Duration
	Unsubs   int
	Receiver bool
	Mute     bool // the server no longer answers
}

func Dial(network, address string, options ...DialOption) (redis.Conn, error) {
	s := Redis()
	vsched.Point("redis dial")
	c := &FConn{Network: network, Address: address, s: s, Subs: map[string]bool{}}
	for _, o := range options {
		o.f(&c.o)
	}
	if s.Fail != nil {
		if err := s.Fail(c, "dial"); err != nil {
			return nil, err
		}
	}
	if s.Password != c.o.password {
		return nil, errors.New("NOAUTH Authentication required.")
	}
	c.ID = len(s.Conns)
	s.Conns = append(s.Conns, c)
	return c, nil
}

func DialContext(ctx context.Context, network, address string, options ...DialOption) (redis.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return Dial(network, address, options...)
}

func (c *FConn) fatal(err error) error {
	if c.err == nil {
		c.err = err
	}
	return err
}

func (c *FConn) Close() error {
	vsched.Point("redis close")
	c.Closed++
	if c.err == nil {
		c.err = errors.New("redigo: closed")
	}
	c.closed = true
	return nil
}
func (c *FConn) Err() error { return c.err }

func (c *FConn) Send(cmd string, args ...interface{}) error {
	vsched.Point("redis send")
	if c.err != nil {
		return c.err
	}
	if c.s.Fail != nil {
		if err := c.s.Fail(c, "send:"+cmd); err != nil {
			return c.fatal(err)
		}
	}
	c.out = append(c.out, append([]any{cmd}, args...))
	return nil
}
func (c *FConn) Flush() error {
	vsched.Point("redis flush")
	if c.err != nil {
		return c.err
	}
	if c.s.Fail != nil {
		if err := c.s.Fail(c, "flush"); err != nil {
			return c.fatal(err)
		}
	}
	out := c.out
	c.out = nil
	for _, o := range out {
		c.exec(o)
	}
	return nil
}

func bs(a any) []byte {
	switch v := a.(type) {
	case string:
		return []byte(v)
	case []byte:
		return v
	}
	return nil
}

func (c *FConn) exec(o []any) {
	cmd := o[0].(string)
	if c.Mute {
		if cmd == "PING" {
			c.Pings++
			c.PingAt = append(c.PingAt, vsched.Now())
		}
		return
	}
	switch cmd {
	case "SUBSCRIBE":
		for _, a := range o[1:] {
			c.Subs[string(bs(a))] = true
			c.in = append(c.in, []any{[]byte("subscribe"), bs(a), int64(len(c.Subs))})
		}
	case "UNSUBSCRIBE":
		c.Unsubs++
		n := len(o) - 1
		if n == 0 {
			for _, k := range vsched.MapKeys(c.Subs) {
				delete(c.Subs, k)
				c.in = append(c.in, []any{[]byte("unsubscribe"), []byte(k), int64(len(c.Subs))})
			}
			if len(c.in) == 0 {
				c.in = append(c.in, []any{[]byte("unsubscribe"), []byte(nil), int64(0)})
			}
		} else {
			for _, a := range o[1:] {
				delete(c.Subs, string(bs(a)))
				c.in = append(c.in, []any{[]byte("unsubscribe"), bs(a), int64(len(c.Subs))})
			}
		}
	case "PING":
		c.Pings++
		c.PingAt = append(c.PingAt, vsched.Now())
		d := []byte{}
		if len(o) > 1 {
			d = bs(o[1])
		}
		c.in = append(c.in, []any{[]byte("pong"), d})
	}
}

// Message delivers a published message to the subscriber.
func (c *FConn) Message(ch string, data []byte) {
	if c.Subs[ch] && !c.closed && c.err == nil {
		c.in = append(c.in, []any{[]byte("message"), []byte(ch), append([]byte(nil), data...)})
	}
}

// Break makes the connection fail after everything already delivered.
func (c *FConn) Break(err error) { c.in = append(c.in, err) }

func (c *FConn) Receive() (interface{}, error) { return c.ReceiveWithTimeout(c.o.read) }

func (c *FConn) ReceiveWithTimeout(d time.Duration) (interface{}, error) {
	if c.err != nil {
		return nil, c.err
	}
	timeout := false
	if d > 0 {
		t := vsched.AddTimer(d, func() { timeout = true })
		defer t.Stop()
	}
	vsched.Block("redis receive", func() bool { return len(c.in) > 0 || c.err != nil || timeout })
	if len(c.in) > 0 {
		v := c.in[0]
		c.in = c.in[1:]
		if err, ok := v.(error); ok {
			return nil, c.fatal(err)
		}
		return v, nil
	}
	if c.err != nil {
		return nil, c.err
	}
	return nil, c.fatal(errors.New("i/o timeout"))
}

func (c *FConn) DoWithTimeout(d time.Duration, cmd string, args ...interface{}) (interface{}, error) {
	return c.Do(cmd, args...)
}

func (c *FConn) Do(cmd string, args ...interface{}) (interface{}, error) {
	vsched.Point("redis do")
	if c.err != nil {
		return nil, c.err
	}
	if cmd == "" {
		return nil, c.Flush()
	}
	if c.s.Fail != nil {
		if err := c.s.Fail(c, "do:"+cmd); err != nil {
			return nil, c.fatal(err)
		}
	}
	if c.Mute || c.s.Mute {
		timeout := false
		if c.o.read > 0 {
			t := vsched.AddTimer(c.o.read, func() { timeout = true })
			defer t.Stop()
		}
		vsched.Block("redis reply", func() bool { return c.err != nil || timeout })
		if c.err != nil {
			return nil, c.err
		}
		return nil, c.fatal(errors.New("i/o timeout"))
	}
	switch cmd {
	case "PUBLISH":
		p := Pub{Channel: string(bs(args[0])), Data: append([]byte(nil), bs(args[1])...), Conn: c.ID, Seq: vsched.NextSeq()}
		c.s.Published = append(c.s.Published, p)
		if c.s.OnPublish != nil {
			c.s.OnPublish(p)
		}
		return int64(1), nil
	case "PING":
		return "PONG", nil
	}
	return "OK", nil
}

var _ = io.EOF
