package simrt

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"syscall"
	"time"
)

// Handler serves requests in the simulation: it runs at the simulated instant
// the request arrives, without blocking.
type Handler func(path string, body []byte) (status int, reply []byte)

// Net is the simulated network between the nodes and the HTTP servers.
type Net struct {
	w     *World
	hosts map[string]*Host
	Rates NetRates
	F     *Stream
	// Tamper, if set, may replace a reply (a malicious or broken server).
	Tamper func(host, path string, status int, reply []byte) (int, []byte)
	// Chunk, if positive, makes bodies arrive in pieces of that size.
	// Each takes ChunkNs.
	Chunk   int
	ChunkNs int64
}

type Host struct {
	Name string
	H    Handler
	Node *Node
	Down bool
	// Hang makes requests wait until it is cleared.
	Hang bool
	// Delay, if set, gives the time a message takes; negative: no delay and
	// no faults of the network.
	Delay func() int64
}

// NetRates are chances per 1000 requests.
type NetRates struct {
	Refuse, ReqLost, RespLost, Truncate, Dup, Err5xx, Slow int
	MaxDelay                                               int64 // of a slow message
}

var nets = map[*World]*Net{}

func (w *World) Net() *Net {
	n := nets[w]
	if n == nil {
		for k := range nets {
			if k != w {
				delete(nets, k)
			}
		}
		n = &Net{w: w, hosts: map[string]*Host{}, F: w.C.Stream("net")}
		nets[w] = n
	}
	return n
}

func (n *Net) Serve(host string, h Handler) *Host {
	x := &Host{Name: host, H: h}
	n.hosts[host] = x
	return x
}

func (n *Net) fault(rate int, kind string) bool {
	if rate > 0 && n.F.Chance(rate, 1000) {
		n.w.Stats["fault."+kind]++
		if kind != "net_slow" && kind != "net_duplicate" {
			n.w.cur.Faults++
		}
		n.w.Log("FAULT %s", kind)
		return true
	}
	return false
}

func opErr(op string, e error) error { return &net.OpError{Op: op, Net: "tcp", Err: e} }

func (n *Net) delay(base int64, ctx context.Context) error {
	d := base + int64(n.F.Draw(20))*1e6
	if n.fault(n.Rates.Slow, "net_slow") {
		d += int64(n.F.Draw(1000)+1) * n.Rates.MaxDelay / 1000
	}
	return n.wait(d, ctx)
}

func (n *Net) wait(d int64, ctx context.Context) error {
	if at := CtxDeadline(ctx); at != 0 && n.w.now+d >= at {
		if at > n.w.now {
			n.w.SleepNs(at - n.w.now)
		}
		// let the deadline's own timer fire first
		for i := 0; i < 3 && ctx.Err() == nil; i++ {
			n.w.SleepNs(1)
		}
		return context.DeadlineExceeded
	}
	n.w.SleepNs(d)
	return ctx.Err()
}

type simBody struct {
	r     *bytes.Reader
	err   error
	chunk int
	ns    int64
	ctx   context.Context
}

func (b *simBody) Read(p []byte) (int, error) {
	if b.chunk > 0 {
		ioStep()
		if b.ns > 0 {
			W.SleepNs(b.ns)
		}
		if gone() {
			return 0, errDead
		}
		if err := b.ctx.Err(); err != nil {
			return 0, err
		}
		if len(p) > b.chunk {
			p = p[:b.chunk]
		}
	}
	n, err := b.r.Read(p)
	if err == io.EOF && b.err != nil {
		return n, b.err
	}
	return n, err
}
func (b *simBody) Close() error { return nil }

// RoundTrip carries one request from the current task's node.
func RoundTrip(req *http.Request) (*http.Response, error) {
	w := W
	if w == nil || w.cur == nil {
		return nil, errors.New("no simulation is running")
	}
	if gone() {
		w.checkKilled(w.cur)
		return nil, errDead
	}
	n := w.Net()
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	ctx := req.Context()
	if at, ok := ctx.Deadline(); ok && CtxDeadline(ctx) == 0 {
		// http.Client.Timeout, by the real clock, set just now
		const unit = 100 * time.Millisecond
		ctx, _ = WithTimeout(ctx, (time.Until(at)+unit-1)/unit*unit)
	}
	src := w.cur.node
	h := n.hosts[req.URL.Host]
	w.Count("http.requests")
	unreach := func() bool { return h == nil || h.Down || h.Node != nil && h.Node.dead || src != nil && src.Down }
	if h == nil {
		return nil, opErr("dial", fmt.Errorf("lookup %s: no such host", req.URL.Host))
	}
	calm := false
	delay := func() error {
		if h.Delay != nil {
			d := h.Delay()
			if d < 0 {
				return ctx.Err()
			}
			return n.delay(d, ctx)
		}
		return n.delay(1e6, ctx)
	}
	rates := n.Rates
	if h.Delay != nil && h.Delay() < 0 {
		calm, rates = true, NetRates{}
	}
	if unreach() || n.fault(rates.Refuse, "net_refused") {
		if err := n.wait(1e6, ctx); err != nil {
			return nil, err
		}
		return nil, opErr("dial", syscall.ECONNREFUSED)
	}
	if err := delay(); err != nil {
		return nil, err
	}
	if h.Hang && !calm {
		w.cur.Faults++
	}
	for h.Hang && !calm {
		if err := n.wait(50e6, ctx); err != nil {
			return nil, err
		}
		if w.stopped || gone() {
			w.checkKilled(w.cur)
			return nil, errDead
		}
	}
	if unreach() || n.fault(rates.ReqLost, "net_request_lost") {
		return nil, opErr("read", syscall.ECONNRESET)
	}
	var status int
	var reply []byte
	if n.fault(rates.Err5xx, "http_5xx") {
		status, reply = 503, []byte(`{"error":"unavailable"}`)
	} else {
		status, reply = h.H(req.URL.RequestURI(), body)
		if n.fault(rates.Dup, "net_duplicate") {
			h.H(req.URL.RequestURI(), body)
		}
		if n.Tamper != nil {
			status, reply = n.Tamper(h.Name, req.URL.RequestURI(), status, reply)
		}
	}
	lost := n.fault(rates.RespLost, "net_response_lost")
	if err := delay(); err != nil {
		return nil, err
	}
	if lost || src != nil && src.Down {
		return nil, opErr("read", syscall.ECONNRESET)
	}
	sb := &simBody{chunk: n.Chunk, ns: n.ChunkNs, ctx: ctx}
	full := len(reply)
	if n.fault(rates.Truncate, "net_truncated_body") && len(reply) > 0 {
		reply = reply[:n.F.Draw(len(reply))]
		sb.err = io.ErrUnexpectedEOF
	}
	sb.r = bytes.NewReader(reply)
	hd := http.Header{}
	hd.Set("Content-Type", "application/json")
	return &http.Response{Status: fmt.Sprintf("%d %s", status, http.StatusText(status)), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: hd, Body: sb, ContentLength: int64(full), Request: req}, nil
}

// RT is a RoundTripper over the simulated network.
type RT struct{}

func (RT) RoundTrip(r *http.Request) (*http.Response, error) { return RoundTrip(r) }

func init() { http.DefaultTransport = RT{} }

// HTTPTransport stands for http.Transport.
type HTTPTransport struct {
	Proxy                                                         func(*http.Request) (*url.URL, error)
	Dial                                                          func(network, addr string) (net.Conn, error)
	DialTLS                                                       func(network, addr string) (net.Conn, error)
	DialContext                                                   func(ctx context.Context, network, addr string) (net.Conn, error)
	DialTLSContext                                                func(ctx context.Context, network, addr string) (net.Conn, error)
	TLSClientConfig                                               *tls.Config
	TLSHandshakeTimeout                                           time.Duration
	DisableKeepAlives, DisableCompression                         bool
	MaxIdleConns, MaxIdleConnsPerHost, MaxConnsPerHost            int
	IdleConnTimeout, ResponseHeaderTimeout, ExpectContinueTimeout time.Duration
	MaxResponseHeaderBytes                                        int64
	WriteBufferSize, ReadBufferSize                               int
	ForceAttemptHTTP2                                             bool
}

func (t *HTTPTransport) RoundTrip(r *http.Request) (*http.Response, error) { return RoundTrip(r) }
func (t *HTTPTransport) CloseIdleConnections()                             {}
func (t *HTTPTransport) Clone() *HTTPTransport                             { c := *t; return &c }
