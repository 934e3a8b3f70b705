//go:build go1.22

// Package http keeps the real handlers, mux and client and replaces the network.
package http

import (
	"context"
	"errors"
	"io"
	"log"
	"net"
	real "net/http"
	"net/url"
	"strings"
	"time"

	"github.com/hound-search/hound/zsim"
)

func init() { real.DefaultTransport = zsim.Transport{} }

var DefaultTransport real.RoundTripper = zsim.Transport{}

var ErrServerClosed = errors.New("http: Server closed")

func ListenAndServe(addr string, h real.Handler) error {
	if h == nil {
		h = real.DefaultServeMux
	}
	return zsim.W.Net.Serve(addr, h)
}
func ListenAndServeTLS(addr, c, k string, h real.Handler) error { return ListenAndServe(addr, h) }

// Server has the parts of the real one a program is likely to use.
type Server struct {
	Addr              string
	Handler           real.Handler
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
	ErrorLog          *log.Logger
	BaseContext       func(net.Listener) context.Context
}

func (s *Server) ListenAndServe() error {
	if s.Addr == "" {
		return ListenAndServe(":80", s.Handler)
	}
	return ListenAndServe(s.Addr, s.Handler)
}
func (s *Server) Shutdown(ctx context.Context) error {
	zsim.W.Net.CloseListener(s.Addr, ErrServerClosed)
	return nil
}
func (s *Server) Close() error { return s.Shutdown(nil) }

func Get(u string) (*real.Response, error)  { return real.DefaultClient.Get(u) }
func Head(u string) (*real.Response, error) { return real.DefaultClient.Head(u) }
func Post(u, ct string, b io.Reader) (*real.Response, error) {
	return real.DefaultClient.Post(u, ct, b)
}
func PostForm(u string, d url.Values) (*real.Response, error) {
	return real.DefaultClient.PostForm(u, d)
}

var _ = strings.ToLower
