package scen

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"

	"vsim/eng"
	"vsim/rt"
	"vsim/user"
)

// The http scenario: clients and services on a simulated network, traced by the transport and the middleware of
// httptrace, which share a slow and failing collector. Handlers follow scripts; the same script is afterwards played
// by a service without middleware, whose answer is what the client should have received.
//
// ops: q a request from client C to service A with script S; B: bits 0-1 client kind (0 raw, 1 traced, 2 traced by
// http.Client, 3 traced over a stub), then the span header form; E: method and more; x crash and restart of service A.
// cfg: svcs, cerr, slow, slowmax, redact, ctxspan, route, shared

var hCodes = []int{200, 404, 500, 204, 201, 304, 418, 503, 302, 101, 202}
var hMethods = []string{"GET", "POST", "HEAD", "PUT", "DELETE", "PATCH"}
var hBad = []string{"zzz", "/", "1/2/3/4", "7", "1/2/x", "10000000000000000/1/1", "-1/2/3", "1//3", "%00", strings.Repeat("f", 300), "1,2,3"}

type hReq struct {
	n       int
	svc     int
	kind    int
	script  string
	depth   int
	method  string
	path    string
	body    string
	hdr     http.Header // as the client gave it
	trailer http.Header
	given   *appdash.SpanID // valid span header
	parent  *appdash.SpanID // valid parent header
	badSpan bool
	k       Call
	wall    [2]time.Time
	from    *appdash.SpanID // span of the transport's recorder
	orig    *http.Request
	stub    bool
	// underlying transport
	inner     *http.Request
	innerN    int
	innerWall [2]time.Time
	innerResp *http.Response
	innerErr  error
	cancelled int
	tr        *httptrace.Transport
	crecs     []*hRec
	// response
	resp     *hResp
	respHdr  http.Header // of the client's event
	status   int
	err      error
	outer    int
	outerEnd int
	inH      int
	seen     appdash.SpanID
	hwall    [2]time.Time
	owall    [2]time.Time
	hdone    bool
	panicked bool
	srvHdr   http.Header
	srecs    []*hRec
	early    map[string]string // headers set before the header was sent
}

type hResp struct {
	status  int
	hdr     http.Header
	trailer http.Header
	body    string
	bodyErr error
}

type hRec struct {
	span appdash.SpanID
	m    map[string]string
	req  *hReq
}

type hWorld struct {
	c       *eng.C
	p       *eng.Plan
	names   []string
	reqs    []*hReq
	secrets []string
	sp      float64
	slowP   float64
	slow    int64
	nerr    int
	calm    bool
	svcs    []*rt.Node
	hosts   []*rt.Host
	fails   map[appdash.SpanID]int
	ctx     map[*http.Request]appdash.SpanID
	transp  map[int]*httptrace.Transport
	shared  map[int]appdash.SpanID
	nested  int
}

// Collect is the collector of all services and clients.
func (w *hWorld) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	Keep(as)
	c := w.c
	m := map[string]string{}
	for _, a := range as {
		v := string(a.Value)
		if old, ok := m[a.Key]; ok && old != v {
			v = old + "\x00" + v
		}
		m[a.Key] = v
		for _, s := range w.secrets {
			if strings.Contains(a.Key, s) || strings.Contains(string(a.Value), s) {
				c.Fail("C15", "leak", "the collector was given a redacted value: %s=%q (redacted are %v)", a.Key, a.Value, w.names)
			}
		}
	}
	rec := &hRec{span: id, m: m}
	_, srv := m[appdash.SchemaPrefix+"HTTPServer"]
	_, cli := m[appdash.SchemaPrefix+"HTTPClient"]
	switch {
	case srv:
		w.attach(rec, "Server")
	case cli:
		w.attach(rec, "Client")
	case w.fails[id] > 0 && isErrLog(as):
	default:
		c.Fail("C13", "stray", "the collector was given %q on %v, which is neither a client's nor a server's record", as, id)
	}
	rt.Yield()
	if !w.calm && w.slowP > 0 && rt.Chance(rt.KHarness, w.slowP) {
		rt.CountFault(rt.FCollectorSlow)
		rt.Sleep(1 + rt.Range(rt.KHarness, w.slow, true))
	}
	if !w.calm && w.sp > 0 && rt.Chance(rt.KHarness, w.sp) {
		rt.CountFault(rt.FCollectorErr)
		w.nerr++
		w.fails[id]++
		return fmt.Errorf("sink-err-%d.", w.nerr)
	}
	return nil
}

func (w *hWorld) attach(rec *hRec, side string) {
	uri := rec.m[side+".Request.URI"]
	var n int
	if _, err := fmt.Sscanf(uri, "/q%d?", &n); err != nil || n >= len(w.reqs) {
		w.c.Fail("C13", "uri", "a %s record has the URI %q, which nobody requested", side, uri)
		return
	}
	q := w.reqs[n]
	rec.req = q
	if side == "Server" {
		q.srecs = append(q.srecs, rec)
	} else {
		q.crecs = append(q.crecs, rec)
	}
}

func (w *hWorld) secret(q *hReq, tag string) string {
	s := fmt.Sprintf("sekret%dx%s.", q.n, tag)
	w.secrets = append(w.secrets, s)
	return s
}

func randCase(s string, k int) string {
	switch k % 4 {
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.ToUpper(s)
	case 3:
		b := []byte(s)
		for i := range b {
			if i%2 == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return http.CanonicalHeaderKey(s)
}

// inner is the underlying transport of the clients.
type hInner struct {
	w   *hWorld
	net http.RoundTripper
}

func reqNo(h http.Header) int {
	var n int
	if _, err := fmt.Sscan(h.Get("X-Req"), &n); err != nil {
		return -1
	}
	return n
}

func (t *hInner) CancelRequest(r *http.Request) {
	for _, q := range t.w.reqs {
		if q.inner == r {
			q.cancelled++
			return
		}
	}
	t.w.c.Fail("C14", "cancel-other", "the underlying transport was asked to cancel a request it was never given")
}

func (t *hInner) RoundTrip(r *http.Request) (*http.Response, error) {
	w := t.w
	n := reqNo(r.Header)
	if n < 0 || n >= len(w.reqs) {
		w.c.Fail("C14", "changed-request", "the underlying transport was given a request nobody made: %v", r.Header)
		return nil, errors.New("unknown request")
	}
	q := w.reqs[n]
	q.innerN++
	q.inner = r
	q.innerWall[0] = rt.Time_Now()
	w.sameRequest(q, r)
	if w.p.G("cancel") == 1 && !w.calm && rt.Chance(rt.KHarness, 0.3) {
		rt.CountFault(rt.FCancel)
		before := q.cancelled
		tk := rt.GoNamed("canceler", func() { q.tr.CancelRequest(q.orig) })
		rt.Join(tk, 0)
		if rt.Killed() {
			return nil, errors.New("killed")
		}
		if q.cancelled != before+1 {
			w.c.Fail("C14", "cancel", "cancelling a request in flight reached the underlying transport %d times", q.cancelled-before)
		}
	}
	var resp *http.Response
	var err error
	if q.stub {
		if rt.Chance(rt.KHarness, 0.5) {
			rt.Sleep(1 + rt.Range(rt.KHarness, ms, true))
		}
		if n%3 == 0 {
			err = fmt.Errorf("stub-err-%d", n)
		} else {
			resp = &http.Response{StatusCode: hCodes[n%len(hCodes)], Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"X-Stub": {fmt.Sprint("s", n)}, "X-Multi": {"a", "b"}}, Body: io.NopCloser(strings.NewReader("stub body")), Request: r, ContentLength: 9}
			for i, k := range w.names {
				resp.Header[randCase(k, n+i)] = []string{w.secret(q, "rh"), w.secret(q, "rh2")}
				resp.Trailer = http.Header{randCase(k, n+i+1): {w.secret(q, "rt")}}
			}
		}
	} else {
		resp, err = t.net.RoundTrip(r)
	}
	if rt.Killed() {
		return nil, errors.New("killed")
	}
	q.innerResp, q.innerErr = resp, err
	if resp != nil {
		q.respHdr = resp.Header.Clone()
		q.status = resp.StatusCode
	}
	q.innerWall[1] = rt.Time_Now()
	return resp, err
}

// sameRequest checks that the request handed to the underlying transport is the client's plus a span header.
func (w *hWorld) sameRequest(q *hReq, r *http.Request) {
	o := q.orig
	if r.Method != o.Method || r.URL.String() != o.URL.String() || r.Host != o.Host || r.ContentLength != o.ContentLength || r.Body != o.Body || r.Context() != o.Context() {
		w.c.Fail("C14", "changed-request", "the underlying transport was given another request than the client made")
	}
	for _, k := range sortedKeys(q.hdr) {
		if http.CanonicalHeaderKey(k) != "Span-Id" && join(q.hdr[k]) != join(r.Header[k]) {
			w.c.Fail("C14", "changed-request", "the header %s of the request, %q, became %q", k, q.hdr[k], r.Header[k])
		}
	}
	for _, k := range sortedKeys(r.Header) {
		if _, ok := q.hdr[k]; !ok && k != "Span-Id" {
			w.c.Fail("C14", "changed-request", "the header %s was added to the request", k)
		}
	}
}

func sortedKeys(h http.Header) []string {
	var l []string
	for k := range h {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// play lets a handler follow its script.
func (w *hWorld) play(q *hReq, rw http.ResponseWriter, r *http.Request, live bool) {
	committed, read := false, false
	note := func(k, v string) {
		if live && !committed {
			q.early[http.CanonicalHeaderKey(k)] = v
		}
	}
	for i, ch := range q.script {
		v := fmt.Sprintf("v%d.%d", q.n, i)
		name := w.names[(q.n+i)%len(w.names)]
		switch ch {
		case 'h':
			k := fmt.Sprintf("X-H%d", i)
			if i%3 == 1 {
				k = fmt.Sprintf("My-%s%d", w.names[0], i)
			}
			rw.Header().Set(k, v)
			note(k, v)
		case 'a':
			rw.Header().Add("X-Multi", v)
		case 's':
			rw.Header().Add(name, w.secret(q, fmt.Sprint("s", i)))
		case 'S':
			rw.Header()[randCase(name, i)] = []string{w.secret(q, fmt.Sprint("S", i)), w.secret(q, fmt.Sprint("S2", i))}
		case 'H':
			r.Header.Add(name, w.secret(q, fmt.Sprint("H", i)))
		case 't':
			rw.Header().Set(http.TrailerPrefix+name, w.secret(q, fmt.Sprint("t", i)))
		case 'T':
			rw.Header().Add("Trailer", name)
		case 'u':
			rw.Header().Set("Trailer:X-T", v)
		case 'W', 'V':
			rw.WriteHeader(hCodes[(q.n*3+i)%len(hCodes)])
			committed = true
		case '1':
			rw.WriteHeader(103)
		case 'w':
			io.WriteString(rw, "chunk "+v+"\n")
			committed = true
		case 'b':
			rw.Write(bytes.Repeat([]byte{'A' + byte(i)}, 3000))
			committed = true
		case '0':
			rw.Write(nil)
			committed = true
		case 'f':
			if f, ok := rw.(http.Flusher); ok {
				f.Flush()
				committed = true
			}
		case 'r':
			b, err := io.ReadAll(r.Body)
			if live && !committed && !read && err == nil && string(b) != q.body {
				w.c.Fail("C14", "body", "the handler read %q, the client had sent %q", short(string(b), 60), short(q.body, 60))
			}
			read = true
		case 'z':
			if live {
				rt.Sleep(1 + rt.Range(rt.KHarness, 5*ms, true))
			}
		case 'n':
			if live && q.depth > 0 && len(w.svcs) > 0 && len(w.reqs) < 60 {
				from := q.seen
				w.nested++
				sub := strings.Replace(q.script[i+1:], "p", "", -1)
				w.send((q.svc+1)%len(w.svcs), 1, 0, int64(q.n+i), sub, q.depth-1, &from, nil)
			}
		case 'p':
			if live {
				rt.CountFault(rt.FHandlerPanic)
				q.panicked = true
			}
			panic("sim-panic")
		}
		if live {
			rt.Yield()
			if rt.Killed() {
				return
			}
		}
	}
}

// send makes a request and waits for the answer.
func (w *hWorld) send(svc, kind int, form int64, e int64, script string, depth int, from *appdash.SpanID, tr *httptrace.Transport) {
	p := w.p
	q := &hReq{n: len(w.reqs), svc: svc, kind: kind, script: script, depth: depth, from: from, early: map[string]string{}}
	w.reqs = append(w.reqs, q)
	q.stub = kind == 3
	q.method = hMethods[int(e)%len(hMethods)]
	q.path = fmt.Sprintf("/q%d", q.n)
	if q.method != "GET" && q.method != "HEAD" && q.method != "DELETE" {
		q.body = fmt.Sprintf("body of %d", q.n)
	}
	h := http.Header{"X-Req": {fmt.Sprint(q.n)}, "X-Tok": {fmt.Sprintf("tok%d", q.n)}}
	if e>>3&1 == 1 {
		h["X-Two"] = []string{"one", "two"}
		h[http.CanonicalHeaderKey("X-"+w.names[0])] = []string{fmt.Sprintf("like%d", q.n)}
		h[http.CanonicalHeaderKey(w.names[0]+"-Kind")] = []string{"kind", ""}
	}
	if e>>4&1 == 1 || p.For() == "C15" {
		h[randCase(w.names[q.n%len(w.names)], int(e>>5))] = []string{w.secret(q, "q"), w.secret(q, "q2")}
	}
	if e>>7&1 == 1 && q.body != "" {
		q.trailer = http.Header{http.CanonicalHeaderKey(w.names[int(e>>5)%len(w.names)]): {w.secret(q, "qt")}, "X-Sum": {fmt.Sprint("sum", q.n)}}
	}
	mk := func(k int64) appdash.SpanID {
		return appdash.SpanID{Trace: appdash.ID(7<<40 + q.n), Span: appdash.ID(uint64(k)<<60 + uint64(q.n) + 1), Parent: appdash.ID(q.n % 2)}
	}
	// the span headers of a raw client; a traced one overwrites the span, and may pass a parent along
	switch form % 7 {
	case 1:
		s := mk(1)
		q.given = &s
		h.Set("Span-ID", s.String())
	case 2:
		s := mk(2)
		q.parent = &s
		h.Set("Parent-Span-ID", s.String())
	case 3:
		s, pa := mk(1), mk(2)
		q.given, q.parent = &s, &pa
		h.Set("Span-ID", s.String())
		h.Set("Parent-Span-ID", pa.String())
	case 4:
		q.badSpan = true
		h.Set("Span-ID", hBad[(q.n+int(form))%len(hBad)])
	case 5:
		pa := mk(2)
		q.parent, q.badSpan = &pa, true
		h.Set("Span-ID", hBad[(q.n+int(form))%len(hBad)])
		h.Set("Parent-Span-ID", pa.String())
	case 6:
		h.Set("Parent-Span-ID", hBad[(q.n+int(form))%len(hBad)])
	}
	if kind != 0 {
		q.given, q.badSpan = nil, false // the transport's span takes the header's place
	}
	host := fmt.Sprintf("svc%d:8000", svc)
	u := &url.URL{Scheme: "http", Host: host, Path: q.path, RawQuery: "x=" + fmt.Sprint(q.n)}
	if kind == 2 && e>>8&1 == 1 && w.names[0] == "Authorization" {
		u.User = url.UserPassword("user", fmt.Sprint("pw", q.n))
		w.secrets = append(w.secrets, base64.StdEncoding.EncodeToString([]byte(fmt.Sprintf("user:pw%d", q.n))))
	}
	mkReq := func() *http.Request {
		r := &http.Request{Method: q.method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h.Clone(), Host: host}
		if q.body != "" {
			r.Body = io.NopCloser(strings.NewReader(q.body))
			r.ContentLength = int64(len(q.body))
		}
		if q.trailer != nil {
			r.Trailer = q.trailer.Clone()
		}
		return r
	}
	q.hdr = h
	q.orig = mkReq()
	var resp *http.Response
	q.wall[0] = rt.Time_Now()
	if kind == 0 {
		DoIn(&q.k, func() (err error) { resp, err = (&rt.HTTPTransport{}).RoundTrip(q.orig); return })
	} else {
		if tr == nil {
			tr = &httptrace.Transport{Recorder: appdash.NewRecorder(*from, w), Transport: &hInner{w, &rt.HTTPTransport{}}, SetName: e>>9&1 == 1}
		}
		q.tr = tr
		if kind == 2 {
			cl := &http.Client{Transport: tr, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
			q.orig = mkReq()
			DoIn(&q.k, func() (err error) {
				// http.Client hands the transport a copy of its own: the header check uses what it was given
				cl.Transport = rtFunc(func(r *http.Request) (*http.Response, error) {
					q.orig, q.hdr = r, r.Header.Clone()
					return tr.RoundTrip(r)
				})
				resp, err = cl.Do(q.orig)
				return
			})
		} else {
			before := snapReq(q.orig)
			if keeping { // the caller may go on reading its request
				rt.GoNamed("reader", func() { user.ReadRequest(q.orig) })
			}
			DoIn(&q.k, func() (err error) { resp, err = tr.RoundTrip(q.orig); return })
			if rt.Killed() {
				return
			}
			if a := snapReq(q.orig); a != before {
				w.c.Fail("C14", "changed-original", "the transport changed the request it was given from %s to %s", before, a)
			}
			if resp != q.innerResp || q.k.Err != q.innerErr {
				w.c.Fail("C14", "other-response", "the transport returned (%p, %v), the underlying one (%p, %v)", resp, q.k.Err, q.innerResp, q.innerErr)
			}
		}
	}
	if rt.Killed() {
		return
	}
	q.wall[1] = rt.Time_Now()
	q.err = q.k.Err
	if kind != 0 {
		if q.innerN != 1 {
			w.c.Fail("C14", "sent-twice", "one request was sent %d times", q.innerN)
		}
		n := q.cancelled
		tr.CancelRequest(q.orig)
		if q.cancelled != n {
			w.c.Fail("C14", "state-kept", "the transport still knew a request that was finished")
		}
		rt.Yield()
	}
	if resp != nil {
		q.resp = &hResp{status: resp.StatusCode, hdr: resp.Header.Clone()}
		b, err := io.ReadAll(resp.Body)
		if rt.Killed() {
			return
		}
		resp.Body.Close()
		q.resp.body, q.resp.bodyErr = string(b), err
		q.resp.trailer = resp.Trailer.Clone()
	}
}

type rtFunc func(*http.Request) (*http.Response, error)

func (f rtFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func snapReq(r *http.Request) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s %s %d %v", r.Method, r.URL, r.Host, r.ContentLength, r.Body == nil)
	for _, k := range sortedKeys(r.Header) {
		fmt.Fprintf(&b, " %s=%q", k, r.Header[k])
	}
	for _, k := range sortedKeys(r.Trailer) {
		fmt.Fprintf(&b, " t:%s=%q", k, r.Trailer[k])
	}
	return b.String()
}

func genHTTP(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	g := p.Cfg
	ns := 1 + r.Intn(3)
	g["svcs"] = int64(ns)
	g["cerr"] = pick(r, int64(0), 0, 100, 500, 1000)
	if r.Intn(2) == 0 {
		g["slow"] = pick(r, int64(100), 400)
		g["slowmax"] = logUniform(r, 100*ms)
	}
	g["redact"] = pick(r, int64(0), 0, 1, 2)
	g["ctxspan"] = pick(r, int64(0), 0, 1)
	g["route"] = int64(r.Intn(2))
	g["shared"] = int64(r.Intn(2))
	g["cancel"] = pick(r, int64(0), 0, 1)
	net := &p.Net
	net.DelayMax = pick(r, 0, 10*us, ms, 20*ms)
	net.Frag = pick(r, 0, 0, 0.2)
	net.ShortRead = pick(r, 0, 0, 0.2)
	if r.Intn(3) == 0 {
		net.Reset = pick(r, 0, 0.02, 0.1)
		net.Refuse = pick(r, 0, 0.1)
		net.Stall = pick(r, 0, 0.1)
		net.StallMax = logUniform(r, sec)
	}
	clients := 1 + r.Intn(4)
	max := 4
	if deep {
		max = 8
	}
	for cl := 0; cl < clients; cl++ {
		for i, k := 0, 1+r.Intn(max); i < k; i++ {
			o := eng.Op{K: "q", C: cl, A: int64(r.Intn(ns)), E: int64(r.Intn(1024))}
			kind := int64(pick(r, 0, 0, 1, 1, 2, 3))
			form := int64(r.Intn(70))
			o.B = kind | form<<2
			alphabet := "hhasrwwfWWzn1"
			switch prop {
			case "C14":
				alphabet = "hauwwwbb0ffWWVV11rz"
			case "C15":
				alphabet = "sSHtTrwWhf"
			case "C13":
				alphabet = "hwWznnnr"
			}
			var sb []byte
			for j, m := 0, r.Intn(7); j < m; j++ {
				sb = append(sb, alphabet[r.Intn(len(alphabet))])
			}
			if r.Intn(25) == 0 {
				sb = append(sb, 'p')
			}
			o.S = string(sb)
			if r.Intn(2) == 0 {
				o.D = logUniform(r, 20*ms)
			}
			p.Ops = append(p.Ops, o)
		}
	}
	if r.Intn(5) == 0 {
		p.Cfg["plain"] = 1
	}
	if r.Intn(8) == 0 {
		p.Ops = append(p.Ops, eng.Op{K: "x", C: clients, A: int64(r.Intn(ns)), D: logUniform(r, 50*ms)})
	}
	return p
}

func (w *hWorld) serve(i int) {
	c := w.c
	p := w.p
	conf := &httptrace.MiddlewareConfig{}
	if p.G("route") == 1 {
		conf.RouteName = func(r *http.Request) string { return "route" + r.URL.Path }
		conf.CurrentUser = func(r *http.Request) string { return "user" + r.Header.Get("X-Req") }
	}
	if p.G("ctxspan") == 1 {
		conf.SetContextSpan = func(r *http.Request, id appdash.SpanID) { w.ctx[r] = id }
	}
	w.svcs[i] = rt.NewNode(fmt.Sprintf("svc%d-%d", i, rt.Seq()), w.hosts[i])
	ready := rt.MakeChan[struct{}](0)
	rt.GoOn(w.svcs[i], "serve", func() {
		l, err := rt.Net_Listen("tcp", ":8000")
		if err != nil {
			panic(err)
		}
		mw := httptrace.Middleware(w, conf)
		rt.Close(ready)
		rt.Http_Serve(l, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			n := reqNo(r.Header)
			if n < 0 || n >= len(w.reqs) {
				c.Fail("C14", "changed-request", "service %d received a request nobody made", i)
				return
			}
			q := w.reqs[n]
			q.outer++
			q.owall[0] = rt.Time_Now()
			if q.n%3 == 1 {
				// an outer middleware that authenticates
				r.Header[randCase(w.names[0], q.n)] = append([]string{w.secret(q, "o")}, r.Header[randCase(w.names[0], q.n)]...)
			}
			q.srvHdr = r.Header.Clone()
			mw(w.plain(q, rw), r, func(rw http.ResponseWriter, r *http.Request) {
				q.inH++
				if q.inH > 1 {
					c.Fail("C14", "handler-twice", "the handler ran twice for one request")
				}
				q.hwall[0] = rt.Time_Now()
				if p.G("ctxspan") == 1 {
					id, ok := w.ctx[r]
					if !ok {
						c.Fail("C13", "no-span", "SetContextSpan was not called for the request")
					}
					q.seen = id
				} else {
					q.seen = httptrace.SpanID(r)
					if id, ok := httptrace.SpanIDFromContext(r.Context()); !ok || id != q.seen {
						c.Fail("C13", "no-span", "SpanIDFromContext and SpanID differ: %v %v", id, q.seen)
					}
				}
				w.play(q, rw, r, true)
				if rt.Killed() {
					return
				}
				q.hwall[1] = rt.Time_Now()
				q.hdone = true
			})
			if rt.Killed() {
				return
			}
			q.owall[1] = rt.Time_Now()
			q.outerEnd++
			if q.inH != 1 {
				c.Fail("C14", "handler-not-run", "the handler ran %d times for one request", q.inH)
			}
		}))
	})
	rt.Recv2(ready)
}

func runHTTP(c *eng.C) {
	p := c.P
	w := &hWorld{c: c, p: p, sp: float64(p.G("cerr")) / 1000, slowP: float64(p.G("slow")) / 1000, slow: p.G("slowmax"), fails: map[appdash.SpanID]int{}, ctx: map[*http.Request]appdash.SpanID{}, transp: map[int]*httptrace.Transport{}}
	w.names = [][]string{{"Authorization"}, {"X-Api-Key", "Cookie"}, {"AUTHORIZATION", "x-secret", "Set-Cookie"}}[p.G("redact")]
	if p.G("redact") != 0 {
		httptrace.RedactedHeaders = append([]string(nil), w.names...)
	}
	for i := 0; i < int(p.G("svcs")); i++ {
		w.svcs = append(w.svcs, nil)
		w.hosts = append(w.hosts, rt.NewHost(fmt.Sprintf("svc%d", i)))
		w.serve(i)
	}
	roots := map[int]appdash.SpanID{}
	made := rt.NewEdge()
	Clients(c, nil, func(i int, o *eng.Op) {
		if o.K == "x" {
			n := w.svcs[int(o.A)%len(w.svcs)]
			rt.Crash(n, "crash")
			rt.CountFault(rt.FRestart)
			w.serve(int(o.A) % len(w.svcs))
			return
		}
		kind, form := int(o.B&3), o.B>>2
		if kind == 0 {
			w.send(int(o.A)%len(w.svcs), 0, form, o.E, o.S, 2, nil, nil)
			return
		}
		who := o.C
		if p.G("shared") == 1 {
			who = -1
		}
		root, ok := roots[who]
		if !ok {
			root = appdash.SpanID{Trace: appdash.ID(1000 + who), Span: appdash.ID(2000 + who)}
			roots[who] = root
			w.transp[who] = &httptrace.Transport{Recorder: appdash.NewRecorder(root, w), Transport: &hInner{w, &rt.HTTPTransport{}}, SetName: true}
			made.Out()
		}
		made.In()
		w.send(int(o.A)%len(w.svcs), kind, form, o.E, o.S, 2, &root, w.transp[who])
	})
	w.calm = true
	rt.Calm(true)
	rt.Sleep(sec) // records of requests whose client is gone
	w.check()
	c.Add("http_requests", int64(len(w.reqs)))
	c.Add("nested", int64(w.nested))
}

// plain hides what a ResponseWriter can do besides, as the writers of some servers and other middleware do.
func (w *hWorld) plain(q *hReq, rw http.ResponseWriter) http.ResponseWriter {
	if w.p.G("plain") == 1 && q.n%2 == 0 {
		return struct{ http.ResponseWriter }{rw}
	}
	return rw
}

func (w *hWorld) reference(q *hReq) *hResp {
	host := fmt.Sprintf("plain%d", q.n)
	node := rt.NewNode(host, rt.NewHost(host))
	ready := rt.MakeChan[struct{}](0)
	rt.GoOn(node, "plain", func() {
		x, err := rt.Net_Listen("tcp", ":8000")
		if err != nil {
			panic(err)
		}
		rt.Close(ready)
		rt.Http_Serve(x, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { w.play(q, w.plain(q, rw), r, false) }))
	})
	rt.Recv2(ready)
	r := &http.Request{Method: q.method, URL: &url.URL{Scheme: "http", Host: host + ":8000", Path: q.path}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"X-Req": {fmt.Sprint(q.n)}}, Host: host}
	if q.body != "" {
		r.Body = io.NopCloser(strings.NewReader(q.body))
		r.ContentLength = int64(len(q.body))
	}
	resp, err := (&rt.HTTPTransport{}).RoundTrip(r)
	var out *hResp
	if err == nil {
		out = &hResp{status: resp.StatusCode, hdr: resp.Header.Clone()}
		b, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		out.body, out.bodyErr = string(b), err
		out.trailer = resp.Trailer.Clone()
	}
	rt.Crash(node, "done")
	return out
}

func hdrString(h http.Header) string {
	var b strings.Builder
	for _, k := range sortedKeys(h) {
		if k != "Date" && k != "Span-Id" {
			fmt.Fprintf(&b, "%s=%q ", k, h[k])
		}
	}
	return b.String()
}

func within(s string, lo, hi time.Time) bool {
	t, err := time.Parse(time.RFC3339Nano, s)
	return err == nil && !t.Before(lo) && !t.After(hi)
}

func (w *hWorld) check() {
	c := w.c
	used := map[appdash.ID]string{}
	fresh := func(id appdash.SpanID, what string) {
		if o, ok := used[id.Span]; ok {
			c.Fail("C13", "span-shared", "%s has the span of %s", what, o)
		}
		used[id.Span] = what
	}
	for _, p := range rt.HandlerPanics() {
		if p.Value != "sim-panic" {
			c.Fail("C14", "panic", "serving a request panicked: %s", p.Value)
		}
	}
	for _, q := range w.reqs {
		if c.Failed() {
			return
		}
		name := fmt.Sprintf("request %d", q.n)
		var ref *hResp
		if q.inH > 0 && !q.panicked || q.resp != nil && !q.stub {
			if w.p.For() != "C15" {
				ref = w.reference(q)
			}
		}
		// the client's side
		var sent *appdash.SpanID
		if q.kind != 0 && q.k.Done {
			if len(q.crecs) != 1 {
				c.Fail("C13", "client-records", "%s has %d client records", name, len(q.crecs))
				continue
			}
			m, id := q.crecs[0].m, q.crecs[0].span
			fresh(id, "the client record of "+name)
			if id.Trace != q.from.Trace || id.Parent != q.from.Span {
				c.Fail("C13", "client-span", "the client record of %s is on %v, no child of the transport's span %v", name, id, *q.from)
			}
			if s, err := appdash.ParseSpanID(q.inner.Header.Get("Span-ID")); err != nil {
				c.Fail("C13", "sent-span", "%s was sent with the span header %q", name, q.inner.Header.Get("Span-ID"))
			} else {
				sent = s
				if s.Trace != q.from.Trace || s.Parent != q.from.Span || *s == *q.from {
					c.Fail("C13", "sent-span", "%s was sent with the span %v, no fresh child of %v", name, *s, *q.from)
				}
			}
			want := "-1"
			if q.innerErr == nil {
				want = fmt.Sprint(q.status)
			}
			for _, kv := range [][2]string{{"Request.Method", q.method}, {"Request.URI", q.path + "?x=" + fmt.Sprint(q.n)}, {"Response.StatusCode", want}} {
				if k, v := kv[0], kv[1]; m["Client."+k] != v {
					c.Fail("C13", "client-"+k, "the client record of %s has %s %q, it should be %q", name, k, m["Client."+k], v)
				}
			}
			nm := ""
			if q.tr.SetName {
				nm = "Request " + q.orig.URL.Host
			}
			if m["Name"] != nm {
				c.Fail("C13", "client-name", "the client span of %s is named %q, it should be %q", name, m["Name"], nm)
			}
			if !within(m["Client.Send"], q.wall[0], q.innerWall[0]) || !within(m["Client.Recv"], q.innerWall[1], q.wall[1]) {
				c.Fail("C13", "client-times", "the client record of %s has times %s and %s; it was sent in %v..%v and answered in %v..%v", name, m["Client.Send"], m["Client.Recv"], q.wall[0], q.innerWall[0], q.innerWall[1], q.wall[1])
			}
			rh := q.hdr.Clone()
			for _, k := range sortedKeys(q.trailer) {
				rh[k] = append(rh[k], q.trailer[k]...)
			}
			w.headers(name, "Client.Request.Headers.", m, rh)
			if q.innerErr == nil {
				w.headers(name, "Client.Response.Headers.", m, q.respHdr)
			}
		} else if len(q.crecs) > 1 || q.kind == 0 && len(q.crecs) > 0 {
			c.Fail("C13", "client-records", "%s has %d client records", name, len(q.crecs))
		}
		// the server's side
		if q.outer > 1 {
			c.Fail("C14", "sent-twice", "%s arrived %d times", name, q.outer)
		}
		if len(q.srecs) > 1 || q.outerEnd == 1 && len(q.srecs) != 1 || q.inH == 0 && len(q.srecs) > 0 {
			c.Fail("C13", "server-records", "%s, handled %d times, has %d server records", name, q.inH, len(q.srecs))
			continue
		}
		if q.inH == 1 {
			s := q.seen
			exp := q.given
			if q.kind != 0 {
				exp = sent
			}
			switch {
			case exp != nil && s != *exp:
				c.Fail("C13", "server-span", "%s carried the span %v, the handler saw %v", name, *exp, s)
			case exp != nil || q.kind != 0:
				if q.given == nil {
					fresh(s, "the span sent with "+name)
				}
			default:
				fresh(s, "the server span of "+name)
				root := s.Parent == 0
				child := q.parent != nil && s.Trace == q.parent.Trace && s.Parent == q.parent.Span
				if q.parent == nil && !root || q.parent != nil && !q.badSpan && !child || !root && !child {
					c.Fail("C13", "server-span", "%s carried the parent %v, the handler saw the span %v", name, q.parent, s)
				}
				if root && s.Trace == 0 {
					c.Fail("C13", "server-span", "%s got the zero trace", name)
				}
			}
		}
		if len(q.srecs) == 1 {
			m, id := q.srecs[0].m, q.srecs[0].span
			if id != q.seen {
				c.Fail("C13", "server-record-span", "the server record of %s is on %v, the handler saw %v", name, id, q.seen)
			}
			for _, kv := range [][2]string{{"Request.Method", q.method}, {"Request.URI", q.path + "?x=" + fmt.Sprint(q.n)}} {
				if k, v := kv[0], kv[1]; m["Server."+k] != v {
					c.Fail("C13", "server-"+k, "the server record of %s has %s %q, it should be %q", name, k, m["Server."+k], v)
				}
			}
			if w.p.G("route") == 1 && (m["Server.Route"] != "route"+q.path || m["Server.User"] != "user"+fmt.Sprint(q.n)) {
				c.Fail("C13", "server-route", "the server record of %s has route %q and user %q", name, m["Server.Route"], m["Server.User"])
			}
			nm := "Serve " + q.path
			if w.p.G("route") == 1 {
				nm = "Serve route" + q.path
			}
			if m["Name"] != nm {
				c.Fail("C13", "server-name", "the server span of %s is named %q, it should be %q", name, m["Name"], nm)
			}
			if !q.panicked && (!within(m["Server.Recv"], q.owall[0], q.hwall[0]) || !q.hwall[1].IsZero() && !q.owall[1].IsZero() && !within(m["Server.Send"], q.hwall[1], q.owall[1])) {
				c.Fail("C13", "server-times", "the server record of %s has times %s and %s; it was handled in %v..%v and %v..%v", name, m["Server.Recv"], m["Server.Send"], q.owall[0], q.hwall[0], q.hwall[1], q.owall[1])
			}
			st := 0
			if q.resp != nil {
				st = q.resp.status
			} else if ref != nil {
				st = ref.status
			}
			if st != 0 && !q.panicked && m["Server.Response.StatusCode"] != fmt.Sprint(st) {
				prop := "C14"
				if w.p.For() == "C13" {
					prop = "C13"
				}
				c.Fail(prop, "status", "the server record of %s has status %s, the client received %d (script %s)", name, m["Server.Response.StatusCode"], st, q.script)
			}
			h := q.srvHdr.Clone()
			h.Del("X-Multi")
			w.headers(name, "Server.Request.Headers.", m, h)
			e := http.Header{}
			for k, v := range q.early {
				e.Set(k, v)
			}
			if !q.panicked {
				w.headers(name, "Server.Response.Headers.", m, e)
			}
		}
		// the traffic
		if q.resp != nil && ref != nil && q.resp.bodyErr == nil && !q.panicked {
			if g, r := hdrString(q.resp.hdr), hdrString(ref.hdr); q.resp.status != ref.status || g != r || q.resp.body != ref.body || hdrString(q.resp.trailer) != hdrString(ref.trailer) || (q.resp.bodyErr == nil) != (ref.bodyErr == nil) {
				c.Fail("C14", "response", "the client received %d %s%q %s, without the middleware it is %d %s%q %s (script %s)", q.resp.status, g, short(q.resp.body, 80), hdrString(q.resp.trailer), ref.status, r, short(ref.body, 80), hdrString(ref.trailer), q.script)
			}
		}
	}
}

// headers checks that a record has all headers that are not redacted.
func (w *hWorld) headers(name, prefix string, m map[string]string, h http.Header) {
	for _, k := range sortedKeys(h) {
		red := false
		for _, n := range w.names {
			red = red || strings.EqualFold(n, k)
		}
		if red || http.CanonicalHeaderKey(k) == "Span-Id" && prefix == "Client.Request.Headers." {
			continue
		}
		ck := http.CanonicalHeaderKey(k)
		if v, ok := m[prefix+ck]; !ok || v != strings.Join(h[k], ",") {
			w.c.Fail("C15", "header-missing", "the record of %s has %s%s = %q (present %v) instead of %q", name, prefix, ck, v, ok, strings.Join(h[k], ","))
		}
	}
}

func init() {
	sc := &eng.Scenario{Name: "http", Gen: genHTTP, Run: runHTTP}
	real := []string{"httptrace/client.go", "httptrace/server.go", "httptrace/header.go", "recorder.go", "event.go", "id.go", "net/http codecs (ReadRequest, Request.Write, ReadResponse), http.Client"}
	stub := []string{"HTTP server and transport connection handling (simulated network)", "collector (slow, failing)", "handlers follow scripts", "clock, randomness, goroutine scheduler (simulated)"}
	for _, id := range []string{"C13", "C14", "C15"} {
		eng.Register(&eng.PropCfg{ID: id, Scen: []eng.Weighted{{S: sc, W: 1}}, Quick: 60000, Deep: 8000000, QuickSec: 75, DeepSec: 600, Level: "exploration", Real: real, Stub: stub})
	}
}
