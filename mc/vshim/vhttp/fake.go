// Package vhttp captures HTTP handlers instead of serving them.
package vhttp

import (
	"context"
	"crypto/tls"
	"log"
	"net"
	"net/http"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
)

type State struct {
	Mux     *http.ServeMux
	Handler http.Handler
	Addr    string
	Serving bool
	Servers []Listening
}

// Listening is one served address.
type Listening struct {
	Addr    string
	Handler http.Handler
}
type key struct{}

func Web() *State {
	return vsched.Obj(key{}, func() any { return &State{Mux: http.NewServeMux()} }).(*State)
}

func HandleFunc(pattern string, h func(http.ResponseWriter, *http.Request)) {
	Web().Mux.HandleFunc(pattern, h)
}
func Handle(pattern string, h http.Handler) { Web().Mux.Handle(pattern, h) }

func start(addr string, h http.Handler) {
	w := Web()
	w.Addr = addr
	w.Handler = h
	if h == nil {
		w.Handler = w.Mux
	}
	w.Serving = true
	w.Servers = append(w.Servers, Listening{addr, w.Handler})
}

func ListenAndServe(addr string, h http.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}

// Server is net/http's Server; connections are the harness's requests.
type Server struct {
	Addr              string
	Handler           http.Handler
	TLSConfig         *tls.Config
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
	ErrorLog          *log.Logger
	BaseContext       func(net.Listener) context.Context
	ConnContext       func(ctx context.Context, c net.Conn) context.Context

	closed bool
	onDown []func()
}

func (s *Server) ListenAndServe() error {
	if s.closed {
		return http.ErrServerClosed
	}
	start(s.Addr, s.Handler)
	vsched.Block("http serve", func() bool { return s.closed })
	return http.ErrServerClosed
}
func (s *Server) ListenAndServeTLS(string, string) error { return s.ListenAndServe() }
func (s *Server) RegisterOnShutdown(f func())            { s.onDown = append(s.onDown, f) }
func (s *Server) SetKeepAlivesEnabled(bool)              {}
func (s *Server) Shutdown(context.Context) error {
	for _, f := range s.onDown {
		vsched.Go(f)
	}
	return s.Close()
}
func (s *Server) Close() error {
	if !s.closed {
		w := Web()
		for i, l := range w.Servers {
			if l.Addr == s.Addr {
				w.Servers = append(append([]Listening{}, w.Servers[:i]...), w.Servers[i+1:]...)
				break
			}
		}
	}
	s.closed = true
	return nil
}

// ServeMux is net/http's; the default one is new in every execution.
type ServeMux struct{ m *http.ServeMux }

var DefaultServeMux = &ServeMux{}

func NewServeMux() *ServeMux { return &ServeMux{http.NewServeMux()} }
func (m *ServeMux) real() *http.ServeMux {
	if m == DefaultServeMux {
		return Web().Mux
	}
	if m.m == nil {
		m.m = http.NewServeMux()
	}
	return m.m
}
func (m *ServeMux) Handle(pattern string, h http.Handler) { m.real().Handle(pattern, h) }
func (m *ServeMux) HandleFunc(pattern string, h func(http.ResponseWriter, *http.Request)) {
	m.real().HandleFunc(pattern, h)
}
func (m *ServeMux) Handler(r *http.Request) (http.Handler, string)   { return m.real().Handler(r) }
func (m *ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) { m.real().ServeHTTP(w, r) }
