package rt

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// A small HTTP/1.1 server and client over the simulated network. Messages go through the real codecs of net/http
// (ReadRequest, Request.Write, ReadResponse); only the connection handling is a stand-in, because the one of net/http
// runs on goroutines and timers of its own.

// Http_Server replaces http.Server.
type Http_Server struct {
	Addr              string
	Handler           http.Handler
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
	l                 net.Listener
	down              bool
}

// Http_Handle replaces http.Handle: every process has its own default mux.
func Http_Handle(pattern string, h http.Handler) { defaultMux().Handle(pattern, h) }

// Http_HandleFunc replaces http.HandleFunc.
func Http_HandleFunc(pattern string, h func(http.ResponseWriter, *http.Request)) {
	defaultMux().HandleFunc(pattern, h)
}

func defaultMux() *http.ServeMux {
	n := gs.cur.Node
	if n.mux == nil {
		n.mux = http.NewServeMux()
	}
	return n.mux
}

func Http_ListenAndServe(addr string, h http.Handler) error {
	return (&Http_Server{Addr: addr, Handler: h}).ListenAndServe()
}

func Http_ListenAndServeTLS(addr, cert, key string, h http.Handler) error {
	return (&Http_Server{Addr: addr, Handler: h}).ListenAndServeTLS(cert, key)
}

func Http_Serve(l net.Listener, h http.Handler) error {
	return (&Http_Server{Handler: h}).Serve(l)
}

func (s *Http_Server) ListenAndServe() error {
	a := s.Addr
	if a == "" {
		a = ":http"
	}
	l, err := Net_Listen("tcp", a)
	if err != nil {
		return err
	}
	return s.Serve(l)
}

func (s *Http_Server) ListenAndServeTLS(cert, key string) error {
	if _, err := Tls_LoadX509KeyPair(cert, key); err != nil {
		return err
	}
	l, err := Tls_Listen("tcp", s.Addr, nil)
	if err != nil {
		return err
	}
	return s.Serve(l)
}

func (s *Http_Server) Serve(l net.Listener) error {
	s.l = l
	if s.Handler == nil {
		s.Handler = defaultMux()
	}
	if s.down {
		l.Close()
		return http.ErrServerClosed
	}
	for {
		c, err := l.Accept()
		if err != nil {
			if s.down {
				return http.ErrServerClosed
			}
			if ne, ok := err.(net.Error); ok && ne.Temporary() {
				Time_Sleep(5 * time.Millisecond)
				continue
			}
			return err
		}
		Go(func() { s.conn(c) })
	}
}

func (s *Http_Server) Close() error {
	s.down = true
	if s.l != nil {
		s.l.Close()
	}
	return nil
}

func (s *Http_Server) Shutdown(context.Context) error { return s.Close() }
func (s *Http_Server) SetKeepAlivesEnabled(bool)      {}

// HTTPPanics receives the panics of handlers (net/http recovers them); nil: they are only logged.
type HTTPPanic struct {
	Value string
	Stack string
}

// HandlerPanics lists the recovered handler panics of the run.
func HandlerPanics() []HTTPPanic { return gs.httpPanics }

func (s *Http_Server) conn(c net.Conn) {
	defer c.Close()
	br := bufio.NewReader(c)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			if err != io.EOF && err != io.ErrUnexpectedEOF {
				if _, ok := err.(net.Error); !ok {
					io.WriteString(c, "HTTP/1.1 400 Bad Request\r\nContent-Type: text/plain; charset=utf-8\r\nConnection: close\r\n\r\n400 Bad Request")
				}
			}
			return
		}
		if req.Host == "" && req.ProtoAtLeast(1, 1) && len(req.Header["Host"]) == 0 && req.URL.Host == "" {
			// ReadRequest moved Host away already; an absent one is answered with 400 by net/http
			io.WriteString(c, "HTTP/1.1 400 Bad Request\r\nConnection: close\r\n\r\n")
			return
		}
		req.RemoteAddr = c.RemoteAddr().String()
		ctx, cancel := context.WithCancel(context.Background())
		req = req.WithContext(ctx)
		w := &respWriter{c: c, req: req, hdr: http.Header{}, bw: bufio.NewWriterSize(c, 4096)}
		if strings.EqualFold(req.Header.Get("Expect"), "100-continue") && req.ContentLength != 0 {
			req.Body = &continueBody{rc: req.Body, w: w}
		}
		origBody := req.Body
		h := s.Handler
		if h == nil {
			h = http.DefaultServeMux
		}
		ok := runHandler(h, w, req)
		cancel()
		if Killed() {
			return
		}
		if !ok || w.hijacked {
			return
		}
		if !w.finish() {
			return
		}
		io.Copy(io.Discard, io.LimitReader(origBody, 256<<10))
		if w.close || req.Close || wantsClose(req) {
			return
		}
	}
}

func wantsClose(r *http.Request) bool {
	if strings.EqualFold(r.Header.Get("Connection"), "close") {
		return true
	}
	return !r.ProtoAtLeast(1, 1)
}

func runHandler(h http.Handler, w *respWriter, r *http.Request) (ok bool) {
	done := false
	defer func() {
		if Killed() {
			return
		}
		if done {
			return
		}
		e := recover()
		if e != nil && e != http.ErrAbortHandler {
			gs.httpPanics = append(gs.httpPanics, HTTPPanic{panicString(e), string(debug.Stack())})
			gs.Tracef("http: panic serving: %v", e)
		}
		ok = false
	}()
	h.ServeHTTP(w, r)
	done = true
	return true
}

type continueBody struct {
	rc   io.ReadCloser
	w    *respWriter
	sent bool
}

func (b *continueBody) Read(p []byte) (int, error) {
	if !b.sent {
		b.sent = true
		if !b.w.wroteHeader {
			io.WriteString(b.w.c, "HTTP/1.1 100 Continue\r\n\r\n")
		}
	}
	return b.rc.Read(p)
}
func (b *continueBody) Close() error { return b.rc.Close() }

// respWriter implements http.ResponseWriter with the observable rules of net/http.
type respWriter struct {
	c           net.Conn
	bw          *bufio.Writer
	req         *http.Request
	hdr         http.Header
	snap        http.Header // header as of WriteHeader
	status      int
	wroteHeader bool
	sentHeader  bool
	chunked     bool
	close       bool
	hijacked    bool
	clen        int64
	written     int64
	pending     []byte
	trailers    []string
}

func (w *respWriter) Header() http.Header { return w.hdr }

func bodyAllowed(st int) bool { return !(st >= 100 && st <= 199 || st == 204 || st == 304) }

func (w *respWriter) WriteHeader(code int) {
	if w.hijacked || w.wroteHeader {
		return
	}
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code))
	}
	if code >= 100 && code <= 199 && code != 101 {
		fmt.Fprintf(w.bw, "HTTP/1.1 %03d %s\r\n", code, http.StatusText(code))
		w.hdr.Write(w.bw)
		w.bw.WriteString("\r\n")
		w.bw.Flush()
		return
	}
	w.wroteHeader = true
	w.status = code
	w.snap = w.hdr.Clone()
	w.clen = -1
	if cl := w.snap.Get("Content-Length"); cl != "" {
		v, err := strconv.ParseInt(cl, 10, 64)
		if err == nil && v >= 0 {
			w.clen = v
		} else {
			w.snap.Del("Content-Length")
		}
	}
}

func (w *respWriter) Write(p []byte) (int, error) {
	if w.hijacked {
		return 0, http.ErrHijacked
	}
	if !w.wroteHeader {
		w.WriteHeader(200)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if !bodyAllowed(w.status) {
		return 0, http.ErrBodyNotAllowed
	}
	w.written += int64(len(p))
	if w.clen >= 0 && w.written > w.clen {
		return 0, http.ErrContentLength
	}
	if w.req.Method == "HEAD" {
		return len(p), nil
	}
	w.pending = append(w.pending, p...)
	if len(w.pending) > 2048 {
		w.sendHeader(false)
		w.flushBody()
	}
	return len(p), nil
}

func (w *respWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w *respWriter) Flush() {
	if w.hijacked {
		return
	}
	if !w.wroteHeader {
		w.WriteHeader(200)
	}
	w.sendHeader(false)
	w.flushBody()
	w.bw.Flush()
}

func (w *respWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if w.wroteHeader {
		return nil, nil, errors.New("http: response already started")
	}
	w.hijacked = true
	return w.c, bufio.NewReadWriter(bufio.NewReader(w.c), bufio.NewWriter(w.c)), nil
}

func (w *respWriter) flushBody() {
	if len(w.pending) == 0 {
		return
	}
	if w.chunked {
		fmt.Fprintf(w.bw, "%x\r\n", len(w.pending))
		w.bw.Write(w.pending)
		w.bw.WriteString("\r\n")
	} else {
		w.bw.Write(w.pending)
	}
	w.pending = nil
}

func (w *respWriter) sendHeader(final bool) {
	if w.sentHeader {
		return
	}
	w.sentHeader = true
	h := w.snap
	for _, v := range h["Trailer"] {
		for _, k := range strings.Split(v, ",") {
			if k = strings.TrimSpace(k); k != "" {
				w.trailers = append(w.trailers, http.CanonicalHeaderKey(k))
			}
		}
	}
	if final {
		for k := range w.hdr {
			if strings.HasPrefix(k, http.TrailerPrefix) {
				final = false
			}
		}
	}
	for _, k := range w.trailers {
		h.Del(k)
	}
	for k := range h {
		if strings.HasPrefix(k, http.TrailerPrefix) {
			delete(h, k)
		}
	}
	if bodyAllowed(w.status) {
		if w.clen < 0 && final && len(w.trailers) == 0 {
			if w.req.Method != "HEAD" || w.written > 0 {
				w.clen = w.written
				h.Set("Content-Length", strconv.FormatInt(w.clen, 10))
			}
		}
		if len(w.pending) > 0 || w.written > 0 {
			if _, ok := h["Content-Type"]; !ok && h.Get("Content-Encoding") == "" && len(w.pending) > 0 {
				h.Set("Content-Type", http.DetectContentType(w.pending))
			}
		}
		if w.clen < 0 && w.req.Method != "HEAD" {
			if w.req.ProtoAtLeast(1, 1) {
				w.chunked = true
				h.Set("Transfer-Encoding", "chunked")
			} else {
				w.close = true
			}
		}
	} else {
		h.Del("Transfer-Encoding")
		h.Del("Content-Length")
		w.clen = 0
	}
	if strings.EqualFold(h.Get("Connection"), "close") {
		w.close = true
	}
	if _, ok := h["Date"]; !ok {
		h.Set("Date", Time_Now().UTC().Format(http.TimeFormat))
	}
	fmt.Fprintf(w.bw, "HTTP/1.1 %03d %s\r\n", w.status, statusText(w.status))
	h.Write(w.bw)
	w.bw.WriteString("\r\n")
}

func statusText(c int) string {
	if t := http.StatusText(c); t != "" {
		return t
	}
	return "status code " + strconv.Itoa(c)
}

// finish completes the response and tells whether the connection is usable.
func (w *respWriter) finish() bool {
	if !w.wroteHeader {
		w.WriteHeader(200)
	}
	w.sendHeader(true)
	w.flushBody()
	if w.chunked {
		w.bw.WriteString("0\r\n")
		tr := http.Header{}
		for _, k := range w.trailers {
			if v, ok := w.hdr[k]; ok {
				tr[k] = v
			}
		}
		for k, v := range w.hdr {
			if strings.HasPrefix(k, http.TrailerPrefix) {
				tr[http.CanonicalHeaderKey(k[len(http.TrailerPrefix):])] = v
			}
		}
		tr.Write(w.bw)
		w.bw.WriteString("\r\n")
	}
	if err := w.bw.Flush(); err != nil {
		return false
	}
	if w.clen >= 0 && w.written < w.clen && w.req.Method != "HEAD" && bodyAllowed(w.status) {
		return false
	}
	return true
}

// ---- client ----

// HTTPTransport is the underlying transport of simulated HTTP clients: one connection per request, or, with
// KeepAlive, a connection is used again once its response was read to the end.
type HTTPTransport struct {
	KeepAlive bool
	idle      []idleConn
	Sent      atomic.Int64
}

type idleConn struct {
	addr string
	c    *Conn
	br   *bufio.Reader
}

// Http_DefaultTransport replaces http.DefaultTransport.
var Http_DefaultTransport http.RoundTripper = &HTTPTransport{}

// Http_DefaultClient replaces http.DefaultClient.
var Http_DefaultClient = &http.Client{Transport: Http_DefaultTransport}

func Http_Get(u string) (*http.Response, error) { return Http_DefaultClient.Get(u) }
func Http_Head(u string) (*http.Response, error) {
	return Http_DefaultClient.Head(u)
}
func Http_Post(u, ct string, b io.Reader) (*http.Response, error) {
	return Http_DefaultClient.Post(u, ct, b)
}
func Http_PostForm(u string, d url.Values) (*http.Response, error) {
	return Http_DefaultClient.PostForm(u, d)
}

// RoundTrip implements http.RoundTripper.
func (t *HTTPTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	s := gs
	if s == nil || s.cur.killed {
		return nil, net.ErrClosed
	}
	if req.URL == nil {
		return nil, errors.New("http: nil Request.URL")
	}
	if req.Header == nil {
		return nil, errors.New("http: nil Request.Header")
	}
	if req.URL.Host == "" {
		return nil, errors.New("http: no Host in request URL")
	}
	t.Sent.Add(1)
	defer func() {
		if req.Body != nil {
			req.Body.Close()
		}
	}()
	ctx := req.Context()
	if e := ctx.Err(); e != nil {
		return nil, e
	}
	addr := req.URL.Host
	if !strings.Contains(addr, ":") {
		addr += ":80"
	}
	var c *Conn
	var br *bufio.Reader
	reused := false
	if t.KeepAlive {
		for i := len(t.idle) - 1; i >= 0 && c == nil; i-- {
			if x := t.idle[i]; x.addr == addr+" "+req.URL.Scheme {
				t.idle = append(t.idle[:i], t.idle[i+1:]...)
				if !x.c.closed {
					c, br, reused = x.c, x.br, true
				}
			}
		}
	}
	if c == nil {
		var err error
		c, err = dial("tcp", addr, 127e9)
		if err != nil {
			return nil, err
		}
		if req.URL.Scheme == "https" {
			if err := c.clientHandshake(); err != nil {
				c.Close()
				return nil, err
			}
		}
		br = bufio.NewReader(c)
	}
	c.abort = ctx.Err
	out := *req // shallow: written, not changed
	out.Header = req.Header.Clone()
	out.Close = !t.KeepAlive || req.Close
	var body []byte
	if req.Body != nil {
		var err error
		body, err = io.ReadAll(req.Body)
		if err != nil {
			c.Close()
			return nil, err
		}
	}
	if req.Body != nil && (len(body) > 0 || len(req.Trailer) > 0) {
		out.Body = io.NopCloser(bytes.NewReader(body))
		out.ContentLength = int64(len(body))
		if len(req.Trailer) > 0 {
			out.ContentLength = -1
			out.TransferEncoding = []string{"chunked"}
		}
	} else {
		out.Body = nil
		out.ContentLength = 0
	}
	var buf bytes.Buffer
	if err := out.Write(&buf); err != nil {
		c.Close()
		return nil, err
	}
	if _, err := c.Write(buf.Bytes()); err != nil {
		c.Close()
		return nil, err
	}
	for {
		resp, err := http.ReadResponse(br, req)
		if err != nil {
			c.Close()
			if reused && (err == io.EOF || err == io.ErrUnexpectedEOF) && len(body) == 0 && ctx.Err() == nil {
				// the server ended an idle connection: net/http tries again on another one
				return t.RoundTrip(req)
			}
			if e := ctx.Err(); e != nil {
				return nil, e
			}
			if err == io.ErrUnexpectedEOF {
				err = io.EOF
			}
			return nil, err
		}
		if resp.StatusCode >= 100 && resp.StatusCode <= 199 && resp.StatusCode != 101 {
			continue
		}
		rb := &respBody{ReadCloser: resp.Body, c: c}
		if t.KeepAlive && !out.Close && !resp.Close {
			rb.idle = func() { t.idle = append(t.idle, idleConn{addr + " " + req.URL.Scheme, c, br}) }
		}
		resp.Body = rb
		return resp, nil
	}
}

type respBody struct {
	io.ReadCloser
	c    *Conn
	idle func() // puts the connection back; nil: it is closed
	eof  bool
}

func (b *respBody) Read(p []byte) (int, error) {
	n, err := b.ReadCloser.Read(p)
	if err == io.EOF {
		b.eof = true
	}
	return n, err
}

func (b *respBody) Close() error {
	b.ReadCloser.Close()
	if b.c.closed {
		return nil
	}
	if b.idle != nil && b.eof {
		b.idle()
		b.idle = nil
		return nil
	}
	b.c.Close()
	return nil
}
