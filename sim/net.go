//go:build go1.22

package zsim

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"syscall"
)

// Net is the simulated loopback network: HTTP servers listening on ports.
type Net struct {
	w      *World
	listen map[string]*Listener
	// RoundTripF decides the fate of an exchange made by a simulated program.
	RoundTripF func(req *http.Request) *NetFault
	Requests   int64
	// Hosts are the other names of the machine, as host:port.
	Hosts map[string]string
}

type Listener struct {
	Port    string
	Handler http.Handler
	Proc    *Proc
	At      int64
	closed  WaitQ
	err     error
}

// NetFault is what goes wrong in an exchange.
type NetFault struct {
	Kind     string
	Delay    int64 // before the request reaches the server
	Delay2   int64 // before the answer arrives
	Refuse   bool
	Drop     bool // connection lost before an answer arrives
	CutAt    int  // >0: the answer's body is cut after this many bytes (connection reset)
	CutClean bool // cut without any error visible at transport level (HTTP/1.0 style, no length)
	Garble   int  // >0: body bytes from here are garbage
	Status   int  // >0: an intermediary answers with this status
	Body     string
}

func newNet(w *World) *Net { return &Net{w: w, listen: map[string]*Listener{}} }

func portOf(addr string) string {
	i := strings.LastIndex(addr, ":")
	if i < 0 {
		return "80"
	}
	return addr[i+1:]
}

// Dial finds the port that serves under an address.
func (n *Net) Dial(addr string) (string, error) {
	if !strings.Contains(strings.TrimPrefix(addr[strings.LastIndex(addr, "]")+1:], "]"), ":") {
		addr += ":80"
	}
	if p, ok := n.Hosts[addr]; ok {
		return p, nil
	}
	host := addr[:strings.LastIndex(addr, ":")]
	switch strings.ToLower(host) {
	case "localhost", "127.0.0.1", "[::1]", "", "0.0.0.0":
		return portOf(addr), nil
	}
	return "", &OpError{"dial tcp: lookup " + host + ": no such host"}
}

// Serve listens until the process ends.
func (n *Net) Serve(addr string, h http.Handler) error {
	dieIfDead()
	port := portOf(addr)
	if l := n.listen[port]; l != nil && !l.Proc.Dead {
		return &OpError{"listen tcp " + addr + ": bind: address already in use"}
	}
	o := &Op{Kind: "listen", Path: addr}
	if ft := n.w.FS.op(o); ft.Err != nil {
		return ft.Err
	}
	l := &Listener{Port: port, Handler: h, Proc: cur.proc, At: n.w.now}
	n.listen[port] = l
	n.w.Log("listening on %s", addr)
	for l.err == nil {
		l.closed.wait("serving")
	}
	return l.err
}

// CloseListener stops listening (http.Server.Close).
func (n *Net) CloseListener(addr string, err error) {
	port := portOf(addr)
	if l := n.listen[port]; l != nil && l.Proc == cur.proc {
		l.err = err
		delete(n.listen, port)
		l.closed.WakeAll()
	}
}

type OpError struct{ s string }

func (e *OpError) Error() string { return e.s }

func (n *Net) closeAll(p *Proc) {
	for k, l := range n.listen {
		if l.Proc == p {
			delete(n.listen, k)
		}
	}
}

// Listening returns the listener on a port.
func (n *Net) Listening(port string) *Listener { return n.listen[port] }

// Response is what came back.
type Response struct {
	Status  int
	Header  http.Header
	Body    []byte
	Aborted bool // the server dropped the connection
	Err     error
	Panic   string
	Done    bool
}

type respWriter struct {
	p      *Proc
	r      *Response
	wrote  bool
	stream bool
	slow   int64
	acc    int
}

func (w *respWriter) Header() http.Header { return w.r.Header }
func (w *respWriter) WriteHeader(c int) {
	if !w.wrote {
		w.wrote = true
		w.r.Status = c
	}
}
func (w *respWriter) Write(b []byte) (int, error) {
	dieIfDead()
	w.WriteHeader(200)
	if w.p.Dead {
		return 0, syscall.EPIPE
	}
	w.r.Body = append(w.r.Body, b...)
	w.acc += len(b)
	// net/http buffers 4 KB; beyond that a slow reader holds the handler up
	if w.slow > 0 && w.acc > 4096 {
		w.acc = 0
		W.Sleep(w.slow)
	}
	return len(b), nil
}
func (w *respWriter) Flush() {}

// ErrRefused: nobody listens.
var ErrRefused = errors.New("dial tcp: connect: connection refused")

// Do sends a request to the server on port and waits for the answer. The
// handler runs as a task of the server's process. slow makes the client a slow
// reader. d bounds the wait (0: none); a request that is given up goes on
// running in the server.
func (n *Net) Do(port string, req *http.Request, slow int64, d int64) *Response {
	w := n.w
	n.Requests++
	l := n.listen[port]
	res := &Response{Header: http.Header{}}
	if l == nil || l.Proc.Dead {
		res.Err = ErrRefused
		return res
	}
	var q WaitQ
	req.RemoteAddr = "127.0.0.1:50000"
	if req.Body == nil {
		req.Body = http.NoBody
	}
	if req.Host == "" {
		req.Host = "localhost:" + port
	}
	if req.RequestURI == "" {
		req.RequestURI = req.URL.RequestURI()
	}
	caller := cur
	_ = caller
	t := l.Proc.Spawn("http", func() {
		rw := &respWriter{p: l.Proc, r: res, slow: slow}
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				if IsFault(r) {
					CrashProc(r)
				}
				// net/http recovers and drops the connection
				res.Aborted = true
				res.Panic = fmt.Sprint(r)
				l.Proc.Err = append(l.Proc.Err, []byte(fmt.Sprintf("http: panic serving 127.0.0.1:50000: %v\n%s\n", r, stackHere()))...)
				w.Log("handler panic: %v", r)
			}()
			l.Handler.ServeHTTP(rw, req)
		}()
		rw.WriteHeader(200)
		res.Done = true
		q.WakeAll()
	})
	l.Proc.onKill = append(l.Proc.onKill, &q)
	if t == nil {
		res.Err = ErrRefused
		return res
	}
	cond := func() bool { return res.Done || l.Proc.Dead }
	if d > 0 {
		if !q.waitFor("http wait", d, cond) {
			return &Response{Err: errors.New("timeout waiting for response")}
		}
	} else {
		for !cond() {
			q.wait("http wait")
		}
	}
	l.Proc.dropKill(&q)
	if !res.Done {
		return &Response{Err: errors.New("EOF: server went away"), Aborted: true}
	}
	if res.Aborted {
		res.Err = errors.New("EOF: connection closed by server")
	}
	return res
}

func (p *Proc) dropKill(q *WaitQ) {
	for i, x := range p.onKill {
		if x == q {
			p.onKill = append(p.onKill[:i:i], p.onKill[i+1:]...)
			return
		}
	}
}

// Transport is the RoundTripper of simulated programs.
type Transport struct{}

type cutBody struct {
	r   *bytes.Reader
	err error
}

func (c *cutBody) Read(b []byte) (int, error) {
	n, err := c.r.Read(b)
	if err == io.EOF && c.err != nil {
		err = c.err
	}
	return n, err
}
func (c *cutBody) Close() error { return nil }

func (Transport) RoundTrip(req *http.Request) (*http.Response, error) {
	w := W
	if w == nil {
		return nil, errors.New("no network")
	}
	dieIfDead()
	nf := &NetFault{}
	if w.Net.RoundTripF != nil {
		if f := w.Net.RoundTripF(req); f != nil {
			nf = f
			w.CountFault("net-" + f.Kind)
		}
	}
	if nf.Delay > 0 {
		w.Sleep(nf.Delay)
	}
	if nf.Refuse {
		return nil, ErrRefused
	}
	var res *Response
	if nf.Status > 0 {
		res = &Response{Status: nf.Status, Header: http.Header{}, Body: []byte(nf.Body)}
	} else {
		r2, err := http.NewRequest(req.Method, req.URL.String(), req.Body)
		if err != nil {
			return nil, err
		}
		r2.Header = req.Header.Clone()
		if req.Host != "" {
			r2.Host = req.Host
		}
		port, err := w.Net.Dial(req.URL.Host)
		if err != nil {
			return nil, err
		}
		res = w.Net.Do(port, r2, 0, 0)
	}
	if nf.Delay2 > 0 {
		w.Sleep(nf.Delay2)
	}
	if res.Err != nil {
		return nil, res.Err
	}
	if nf.Drop {
		return nil, errors.New("read tcp: connection reset by peer")
	}
	body := res.Body
	hr := &http.Response{
		Status: strconv.Itoa(res.Status) + " " + http.StatusText(res.Status), StatusCode: res.Status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: res.Header, Request: req, ContentLength: int64(len(body)),
	}
	var cerr error
	if nf.CutAt > 0 && nf.CutAt <= len(body) {
		body = body[:nf.CutAt-1]
		cerr = io.ErrUnexpectedEOF
		if nf.CutClean {
			cerr = nil
			hr.ContentLength = -1
		}
	}
	if nf.Garble > 0 {
		body = append([]byte(nil), body...)
		for i := nf.Garble - 1; i < len(body); i++ {
			body[i] = byte(hash64(strconv.Itoa(i), w.Seed))
		}
	}
	hr.Body = &cutBody{bytes.NewReader(body), cerr}
	return hr, nil
}
