//go:build web

package scen

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"io"
	"log"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/traceapp"

	"vsim/eng"
	"vsim/rt"
)

func init() { eng.Reset = append(eng.Reset, traceapp.Sim_reset) }

// The web scenario (C20) runs two instances of the web UI, A and B, on simulated HTTP servers. Browsers look at pages,
// export traces from A by every way there is (the JSON of the trace page and of the traces page, the permalink) and
// give them to B, several at once; others upload traces of their own, bad requests and hostile uploads; meanwhile traces
// are collected and deleted, the stores fail at times, and some clients stall.
//
// ops: c Collect on the growing trace A of instance A; d Delete the trace A of instance A; g GET page (E: 0 trace, 1
// traces, 2 aggregate, 3 root, 4 profile, 5 span page, 6 dashboard, 7 traces?show) of trace A on instance B; x export trace A of
// instance A by way E and upload it to B; u upload synthetic trace A in variant B to instance B by way E; h hostile request E
// about trace A to instance B; z a client of instance B that stalls (E: 0 amid its upload, 1 without reading the answer)

// wSpan and wTrace are what a trace should be.
type wSpan struct {
	parent appdash.ID
	anns   []string
}

type wTrace map[appdash.ID]*wSpan

func (t wTrace) ids() []appdash.ID {
	var ids []appdash.ID
	for id := range t {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

func (t wTrace) String() string {
	var b strings.Builder
	for _, id := range t.ids() {
		fmt.Fprintf(&b, " %x<%x%q", uint64(id), uint64(t[id].parent), t[id].anns)
	}
	return b.String()
}

// within tells whether t is o or a part of it: some of its spans, each whole.
func (t wTrace) within(o wTrace) bool {
	for id, s := range t {
		x := o[id]
		if x == nil || x.parent != s.parent || strings.Join(x.anns, "\x00") != strings.Join(s.anns, "\x00") {
			return false
		}
	}
	return true
}

// wJSON is the exported form.
type wJSON struct {
	ID struct {
		Trace, Span, Parent string
	}
	Annotations []struct {
		Key   string
		Value []byte
	}
	Sub []*wJSON
}

func wKV(k string, v []byte) string { return k + "=" + string(v) }

func (j *wJSON) flat(trace appdash.ID, t wTrace, n *int) error {
	if j == nil {
		return errors.New("a null span")
	}
	if *n++; *n > 5000 {
		return errors.New("too many spans")
	}
	var ids [3]appdash.ID
	for i, s := range []string{j.ID.Trace, j.ID.Span, j.ID.Parent} {
		v, err := strconv.ParseUint(s, 16, 64)
		if err != nil {
			return fmt.Errorf("the ID %q", s)
		}
		ids[i] = appdash.ID(v)
	}
	if ids[0] != trace {
		return fmt.Errorf("a span of trace %v", ids[0])
	}
	if t[ids[1]] != nil {
		return fmt.Errorf("the span %v twice", ids[1])
	}
	s := &wSpan{parent: ids[2]}
	for _, a := range j.Annotations {
		s.anns = append(s.anns, wKV(a.Key, a.Value))
	}
	t[ids[1]] = s
	for _, x := range j.Sub {
		if err := x.flat(trace, t, n); err != nil {
			return err
		}
	}
	return nil
}

func wParse(text string, trace appdash.ID) (wTrace, error) {
	var j *wJSON
	if err := json.Unmarshal([]byte(text), &j); err != nil {
		return nil, err
	}
	t := wTrace{}
	n := 0
	if err := j.flat(trace, t, &n); err != nil {
		return nil, err
	}
	return t, nil
}

func wOf(x *appdash.Trace) wTrace {
	t := wTrace{}
	eachSpan(x, func(s *appdash.Trace) {
		w := &wSpan{parent: s.Span.ID.Parent}
		for _, a := range s.Annotations {
			w.anns = append(w.anns, wKV(a.Key, a.Value))
		}
		t[s.Span.ID.Span] = w
	})
	return t
}

// wGenSpan is a span of a generated trace.
type wGenSpan struct {
	id   appdash.SpanID
	anns []appdash.Annotation
}

var wKeys = []string{"Name", "a", "", "q\"uote", "<b>&amp;", "Schema:", "_schema:", "new\nline\r\t", "\u2028\u00e9\U0001F600", "'+-/", "nul\x00", "Server.Request.Headers.Foo", "Span.Start", "\uFFFD", "k=v", "</textarea><script>", "[", "null"}

func wAnn(r *rt.Rand) appdash.Annotation {
	a := appdash.Annotation{Key: wKeys[r.Intn(len(wKeys))]}
	switch r.Intn(6) {
	case 0:
	case 1:
		a.Value = []byte{}
	case 2:
		a.Value = []byte("</textarea>\"'&<>\x00\xff\xfe")
	default:
		a.Value = make([]byte, r.Intn(40))
		for i := range a.Value {
			a.Value[i] = byte(r.U64())
		}
	}
	return a
}

func wEvent(r *rt.Rand) []appdash.Annotation {
	t0 := time.Unix(1700000000, int64(r.Intn(1e9))).UTC()
	t1 := t0.Add(time.Duration(r.Intn(3e9)))
	var e appdash.Event
	switch r.Intn(5) {
	case 0:
		e = appdash.SpanNameEvent{Name: fmt.Sprint("span ", r.Intn(5))}
	case 1:
		e = appdash.Timespan{S: t0, E: t1}
	case 2:
		e = appdash.Msg("hello <world>")
	case 3:
		e = appdash.LogWithTimestamp("log", t0)
	default:
		// malformed events of known schemas
		return []appdash.Annotation{{Key: "Server.Recv", Value: []byte("yesterday")}, {Key: "Server.Request.ContentLength", Value: []byte("many")}, {Key: "ClientSend"}, {Key: appdash.SchemaPrefix + []string{"HTTPServer", "HTTPClient", "SQL", "Timespan", "unknown"}[r.Intn(5)]}}
	}
	as, err := appdash.MarshalEvent(e)
	if err != nil {
		panic(err)
	}
	return as
}

// wGen makes the spans of a trace.
func wGen(trace appdash.ID, variant int64, deep bool) []wGenSpan {
	r := rt.NewRand(rt.Mix(uint64(trace), uint64(variant), 77))
	n := 1 + r.Intn(6)
	if r.Intn(30) == 0 {
		n += 40
	}
	chain := r.Intn(8) == 0
	if chain && deep {
		n += 60
	}
	var l []wGenSpan
	for i := 0; i < n; i++ {
		id := appdash.SpanID{Trace: trace, Span: appdash.ID(0x100 + i)}
		if r.Intn(4) == 0 {
			id.Span = appdash.ID(0xfedcba9876543210 - uint64(i))
		}
		if i > 0 {
			p := i - 1
			if !chain {
				p = r.Intn(i)
			}
			id.Parent = l[p].id.Span
			if r.Intn(10) == 0 {
				id.Parent = appdash.ID(0x9000 + r.Intn(3)) // a parent that is missing
			}
		} else if r.Intn(6) == 0 {
			id.Parent = 0x8000 // no root
		}
		s := wGenSpan{id: id}
		for k := r.Intn(4); k > 0; k-- {
			if r.Intn(2) == 0 {
				s.anns = append(s.anns, wEvent(&r)...)
			} else {
				s.anns = append(s.anns, wAnn(&r))
			}
		}
		l = append(l, s)
	}
	return l
}

func wContent(l []wGenSpan) wTrace {
	t := wTrace{}
	for _, s := range l {
		x := &wSpan{parent: s.id.Parent}
		for _, a := range s.anns {
			x.anns = append(x.anns, wKV(a.Key, a.Value))
		}
		t[s.id.Span] = x
	}
	return t
}

// wNode is the JSON form of a span that is uploaded.
type wNode struct {
	ID          map[string]any
	Annotations []map[string]any
	Sub         []*wNode
}

func wTree(l []wGenSpan) *wNode {
	nodes := map[appdash.ID]*wNode{}
	var top *wNode
	for i, s := range l {
		n := &wNode{ID: map[string]any{"Trace": s.id.Trace.String(), "Span": s.id.Span.String()}}
		if s.id.Parent != 0 || i%2 == 0 {
			n.ID["Parent"] = s.id.Parent.String()
		}
		for _, a := range s.anns {
			n.Annotations = append(n.Annotations, map[string]any{"Key": a.Key, "Value": a.Value})
		}
		nodes[s.id.Span] = n
		if i == 0 {
			top = n
			continue
		}
		p := nodes[s.id.Parent]
		if p == nil {
			p = top
		}
		p.Sub = append(p.Sub, n)
	}
	return top
}

func wMarshal(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func wPermalink(trace appdash.ID, text string) string {
	var b bytes.Buffer
	e := base64.NewEncoder(base64.RawURLEncoding, &b)
	z := gzip.NewWriter(e)
	io.WriteString(z, text)
	z.Close()
	e.Close()
	return "/traces/" + trace.String() + "?permalink=" + b.String()
}

// wUp is an upload of a trace.
type wUp struct {
	content wTrace
	k       Call
	status  int
}

type wErr struct {
	seq  uint64
	what string
	id   appdash.ID
}

// wInst is an instance of the web UI.
type wInst struct {
	w     *wWorld
	name  string
	node  *rt.Node
	mem   *appdash.MemoryStore
	inner appdash.Store
	app   *traceapp.App
	errs  []wErr
	pre   map[appdash.ID]wTrace // stored before anything else and never changed
	ups   map[appdash.ID][]*wUp
	order []appdash.ID
}

// wStore fails at times.
type wStore struct {
	i *wInst
}

func (s wStore) fail(what string, id appdash.ID) error {
	w := s.i.w
	if w.quiet || !rt.Chance(rt.KHarness, float64(w.p.G("storeerr"))/1000) {
		return nil
	}
	rt.CountFault(rt.FStoreErr)
	s.i.errs = append(s.i.errs, wErr{rt.Seq(), what, id})
	return fmt.Errorf("injected failure of %s", what)
}

func (s wStore) slow() {
	if s.i.w.p.G("slowstore") > 0 && rt.Chance(rt.KHarness, 0.2) {
		rt.Sleep(rt.Range(rt.KHarness, 20*ms, true))
	}
}

func (s wStore) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	s.slow()
	if err := s.fail("Collect", id.Trace); err != nil {
		if rt.Choose(rt.KHarness, 2) == 1 {
			s.i.inner.Collect(id, as...)
		}
		return err
	}
	err := s.i.inner.Collect(id, as...)
	s.slow()
	return err
}

func (s wStore) Trace(id appdash.ID) (*appdash.Trace, error) {
	s.slow()
	if err := s.fail("Trace", id); err != nil {
		return nil, err
	}
	return s.i.inner.Trace(id)
}

func (s wStore) Traces(o appdash.TracesOpts) ([]*appdash.Trace, error) {
	s.slow()
	if err := s.fail("Traces", 0); err != nil {
		return nil, err
	}
	return s.i.mem.Traces(o)
}

// wLive is a growing trace, or one that is deleted.
type wLive struct {
	colls []*wColl
	del   *Call // the deletion
}

type wColl struct {
	span, parent appdash.ID
	toks         []string
	k            Call
}

type wWorld struct {
	c     *eng.C
	p     *eng.Plan
	inst  [2]*wInst
	live  map[appdash.ID]*wLive
	lids  []appdash.ID
	quiet bool
	net   bool // requests may fail by the network
	hosts *rt.Host
	stat  [600]int64
	pages int64
}

const (
	wStaticA = 0x10  // traces of A that do not change
	wLiveA   = 0x40  // of A that grow
	wDoomed  = 0x60  // of A that are deleted
	wSynth   = 0x100 // uploaded ones
	wAgain   = 0x200 // uploaded, deleted and uploaded again in the end
	wFresh   = 0x1000
)

func genWeb(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	g := p.Cfg
	g["static"] = int64(1 + r.Intn(4))
	g["wrap"] = int64(r.Intn(4))
	g["deep"] = int64(pick(r, 0, 0, 1))
	if r.Intn(10) == 0 {
		g["reload"] = 1
	}
	if r.Intn(4) == 0 {
		g["storeerr"] = pick(r, int64(30), 100, 300)
	}
	if r.Intn(3) == 0 {
		g["slowstore"] = 1
	}
	net := &p.Net
	net.DelayMax = pick(r, 0, 10*us, ms)
	net.Frag = pick(r, 0, 0, 0.1)
	net.ShortRead = pick(r, 0, 0, 0.1)
	net.Window = pick(r, 0, 0, 2000)
	if r.Intn(5) == 0 {
		net.Reset = pick(r, 0.01, 0.05)
		net.Refuse = pick(r, 0, 0.1)
		net.AcceptErr = pick(r, 0, 0.1)
	}
	clients := 2 + r.Intn(4)
	n := 4 + r.Intn(16)
	if deep && r.Intn(5) == 0 {
		n += 20
	}
	spread := pick(r, 0, 100*us, 10*ms)
	focus := r.Intn(5) // what the run is mostly about
	for i := 0; i < n; i++ {
		o := eng.Op{C: r.Intn(clients), E: int64(r.Intn(12))}
		k := r.Intn(14)
		switch focus {
		case 0:
			if r.Intn(2) == 0 {
				k = pick(r, 3, 6)
			}
		case 1:
			if r.Intn(2) == 0 {
				k = pick(r, 0, 1, 2)
			}
		case 2:
			if r.Intn(2) == 0 {
				k = 8
			}
		}
		switch k {
		case 0, 1:
			o.K, o.A = "c", int64(wLiveA+r.Intn(2))
			o.B = int64(1 + r.Intn(6))
			if r.Intn(4) == 0 {
				o.A = int64(wDoomed + r.Intn(2))
			}
		case 2:
			o.K, o.A = "d", int64(wDoomed+r.Intn(3))
		case 3, 4, 5:
			o.K = "x"
			o.A = int64(wStaticA + r.Intn(int(g["static"])))
			if r.Intn(4) == 0 {
				o.A = int64(wLiveA + r.Intn(2))
			}
			if focus == 0 && r.Intn(2) == 0 {
				o.A = wStaticA
			}
		case 6, 7:
			o.K, o.A, o.B = "u", int64(wSynth+r.Intn(4)), int64(r.Intn(2))
			if r.Intn(5) == 0 {
				o.A = int64(wStaticA + r.Intn(int(g["static"]))) // may exist, or be there already with other content
			}
			if focus == 0 {
				o.A = int64(wSynth + r.Intn(2))
			}
		case 8, 9:
			o.K, o.A, o.B = "h", int64(wStaticA+r.Intn(int(g["static"]))), int64(r.Intn(2))
		case 10:
			o.K, o.B = "z", int64(r.Intn(2))
			if r.Intn(2) == 0 {
				o.K = "g"
			}
		default:
			o.K = "g"
		}
		if o.K == "g" {
			o.B = int64(r.Intn(2))
			o.A = pick(r, int64(wStaticA+r.Intn(int(g["static"]))), int64(wLiveA+r.Intn(2)), int64(wDoomed+r.Intn(3)), int64(wSynth+r.Intn(4)))
		}
		if spread > 0 && r.Intn(2) == 0 {
			o.D = logUniform(r, spread)
		}
		p.Ops = append(p.Ops, o)
	}
	p.MaxTime = 3600 * sec
	return p
}

func (w *wWorld) up(i int) {
	name := []string{"a", "b"}[i]
	in := &wInst{w: w, name: name, pre: map[appdash.ID]wTrace{}, ups: map[appdash.ID][]*wUp{}, mem: appdash.NewMemoryStore()}
	w.inst[i] = in
	in.node = rt.NewNode(name, rt.NewHost(name))
	in.inner = in.mem
	switch w.p.G("wrap") {
	case 1:
		in.inner = &appdash.RecentStore{MinEvictAge: 1000 * time.Hour, DeleteStore: in.mem}
	case 2:
		in.inner = &appdash.LimitStore{Max: 100000, DeleteStore: in.mem}
	}
	ready := rt.MakeChan[struct{}](0)
	rt.GoOn(in.node, "serve", func() {
		in.load(i)
		app, err := traceapp.New(nil, &url.URL{Scheme: "http", Host: name + ":7700"})
		if err != nil {
			w.c.Fail("C20", "new", "traceapp.New: %v", err)
		}
		app.Log = log.New(nullWriter{}, "", 0)
		app.Store, app.Queryer = wStore{in}, wStore{in}
		in.app = app
		l, err := rt.Net_Listen("tcp", ":7700")
		if err != nil {
			panic(err)
		}
		rt.Close(ready)
		rt.Http_Serve(l, app)
	})
	rt.Recv2(ready)
}

// load stores the traces that are there from the start.
func (in *wInst) load(i int) {
	w := in.w
	put := func(trace appdash.ID, variant int64) {
		l := wGen(trace, variant, w.p.G("deep") == 1)
		r := rt.NewRand(rt.Mix(w.p.Seed, uint64(trace), uint64(i)))
		shuffle(&r, len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
		for _, s := range l {
			if err := in.inner.Collect(s.id, s.anns...); err != nil {
				w.c.Fail("C20", "collect", "%v", err)
			}
		}
		in.pre[trace] = wContent(l)
		in.order = append(in.order, trace)
	}
	for k := int64(0); k < w.p.G("static"); k++ {
		if i == 0 {
			put(appdash.ID(wStaticA+k), 0)
		} else if k%3 == 2 {
			put(appdash.ID(wStaticA+k), 5) // B has another trace of that ID
		}
	}
	if i == 0 {
		for k := 0; k < 3; k++ {
			id := appdash.ID(wDoomed + k)
			lv := &wLive{}
			w.live[id] = lv
			w.lids = append(w.lids, id)
			w.collect(in, lv, appdash.SpanID{Trace: id, Span: 1}, []string{fmt.Sprintf("doomed%d", k)})
		}
		for k := 0; k < 2; k++ {
			id := appdash.ID(wLiveA + k)
			w.live[id] = &wLive{}
			w.lids = append(w.lids, id)
		}
	}
	put(appdash.ID(0x20+i), 0)
}

func (w *wWorld) collect(in *wInst, lv *wLive, id appdash.SpanID, toks []string) {
	k := &wColl{span: id.Span, parent: id.Parent, toks: toks}
	var as []appdash.Annotation
	for _, t := range toks {
		as = append(as, appdash.Annotation{Key: t, Value: []byte(t)})
	}
	lv.colls = append(lv.colls, k)
	DoIn(&k.k, func() error { return in.inner.Collect(id, as...) })
}

type wResp struct {
	k      Call
	status int
	body   string
	whole  bool
}

// req makes a request.
func (w *wWorld) req(i int, method, pq, body string) *wResp {
	q := &wResp{}
	r, err := http.NewRequest(method, "http://"+w.inst[i].name+":7700"+pq, strings.NewReader(body))
	if err != nil {
		panic(fmt.Sprintf("%s: %v", short(pq, 100), err))
	}
	if method == "GET" {
		r.Body, r.ContentLength = nil, 0
	}
	var resp *http.Response
	DoIn(&q.k, func() (err error) { resp, err = (&rt.HTTPTransport{}).RoundTrip(r); return })
	if rt.Killed() {
		return q
	}
	if q.k.Err == nil {
		q.status = resp.StatusCode
		b, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		q.body, q.whole = string(b), err == nil
		q.k.Err = err
		q.k.Ret = rt.Seq()
	}
	w.pages++
	if q.status >= 100 && q.status < 600 {
		w.stat[q.status]++
	}
	if q.k.Err != nil && !w.net {
		w.c.Fail("C20", "no-answer", "%s %s got no answer (%v) although the network works", method, short(pq, 100), q.k.Err)
	}
	if q.status >= 300 && q.status < 400 {
		w.c.Fail("C20", "redirect", "%s %s: status %d", method, short(pq, 100), q.status)
	}
	return q
}

// injured tells whether a store operation of the instance was made to fail during the request.
func (in *wInst) injured(k *Call) bool {
	for _, e := range in.errs {
		if e.seq > k.Inv && e.seq < k.Ret {
			return true
		}
	}
	return false
}

var (
	reArea = between{{`id="copy-json-text"`, `<textarea`, ">"}, {"</textarea>"}}
	reJSON = between{{`id="copy-json" data-clipboard-text="`}, {`"`}}
	reLink = between{{`id="copy-permalink" data-clipboard-text="`}, {`" href="`}, {`"`}}
	reList = between{{`data-json-trace="`}, {`"`}}
)

// between finds what stands between fixed texts, like a regular expression but faster: the texts of the first list one
// after the other, and then what precedes those of each further list.
type between [][]string

func (b between) find(s string) (m []string, rest string) {
	for n, l := range b {
		for i, x := range l {
			at := strings.Index(s, x)
			if at < 0 {
				return nil, ""
			}
			if n > 0 && i == 0 {
				m = append(m, s[:at])
			}
			s = s[at+len(x):]
		}
	}
	return append([]string{""}, m...), s
}

func (b between) FindStringSubmatch(s string) []string {
	m, _ := b.find(s)
	return m
}

func (b between) FindAllStringSubmatch(s string, _ int) (l [][]string) {
	for {
		m, rest := b.find(s)
		if m == nil {
			return l
		}
		l, s = append(l, m), rest
	}
}

// wPage is what a trace page offers.
type wPage struct {
	content wTrace
	json    string
	link    string
}

// page parses a trace page.
func (w *wWorld) page(what string, body string, trace appdash.ID) *wPage {
	m := reArea.FindStringSubmatch(body)
	if m == nil {
		w.c.Fail("C20", "page", "%s offers no export: %s", what, short(body, 200))
		return nil
	}
	g := &wPage{}
	g.json = strings.TrimSpace(html.UnescapeString(m[1]))
	t, err := wParse(strings.TrimSuffix(strings.TrimPrefix(g.json, "["), "]"), trace)
	if err != nil {
		w.c.Fail("C20", "export", "the export of %s has %v: %s", what, err, short(g.json, 300))
		return nil
	}
	g.content = t
	if m := reJSON.FindStringSubmatch(body); m != nil {
		j := html.UnescapeString(m[1])
		t2, err := wParse(strings.TrimSuffix(strings.TrimPrefix(strings.TrimSpace(j), "["), "]"), trace)
		if err != nil || t2.String() != t.String() {
			w.c.Fail("C20", "export", "the two exports of %s differ: %v, %v (%v)", what, t, t2, err)
			return nil
		}
		if len(j)%2 == 0 {
			g.json = j
		}
	}
	if m := reLink.FindStringSubmatch(body); m != nil {
		if m[1] != m[2] {
			w.c.Fail("C20", "export", "the two permalinks of %s differ", what)
			return nil
		}
		g.link = html.UnescapeString(m[1])
		if i := strings.Index(g.link, "/traces/"); i > 0 {
			g.link = g.link[i:]
		}
	}
	return g
}

// judge checks a trace that was served. part: it may be a part of the trace (a span's page)
func (w *wWorld) judge(i int, id appdash.ID, what string, t wTrace, k *Call, part bool) {
	c := w.c
	in := w.inst[i]
	if p := in.pre[id]; p != nil {
		if !t.within(p) || !part && len(t) != len(p) {
			c.Fail("C20", "altered", "%s shows%v, stored was%v", what, t, p)
		}
		return
	}
	if lv := w.live[id]; lv != nil && i == 0 {
		w.judgeLive(lv, what, t, k, part)
		return
	}
	ups := in.ups[id]
	for _, u := range ups {
		if u.k.Inv < k.Ret && t.within(u.content) {
			full := len(t) == len(u.content)
			sure := 0
			for _, x := range ups {
				if x.status/100 == 2 && x.k.Done && x.k.Ret < k.Inv {
					sure++
				}
			}
			if !full && !part && sure > 0 && !in.broken(id) {
				c.Fail("C20", "incomplete", "%s shows%v of the uploaded%v although an upload had succeeded", what, t, u.content)
			}
			return
		}
	}
	c.Fail("C20", "mixed", "%s shows%v, which is not (part of) any uploaded one of %d: %v", what, t, len(ups), ups)
}

func (u *wUp) String() string { return fmt.Sprintf("status %d%v", u.status, u.content) }

// broken tells whether an upload of the trace may have been cut short by a store failure.
func (in *wInst) broken(id appdash.ID) bool {
	for _, u := range in.ups[id] {
		if u.status/100 != 2 {
			return true
		}
	}
	return false
}

func (w *wWorld) judgeLive(lv *wLive, what string, t wTrace, k *Call, part bool) {
	c := w.c
	if lv.del != nil && lv.del.Inv < k.Ret {
		// it may be any part
		for id, s := range t {
			for _, a := range s.anns {
				ok := false
				for _, x := range lv.colls {
					for _, tk := range x.toks {
						ok = ok || x.span == id && a == tk+"="+tk && x.k.Inv < k.Ret
					}
				}
				if !ok {
					c.Fail("C20", "invented", "%s shows %q on span %v, which nobody collected", what, a, id)
				}
			}
		}
		return
	}
	left := map[appdash.ID][]string{}
	for id, s := range t {
		left[id] = append([]string(nil), s.anns...)
	}
	for _, x := range lv.colls {
		at := -1
		for i, a := range left[x.span] {
			if len(x.toks) > 0 && a == x.toks[0]+"="+x.toks[0] {
				at = i
			}
		}
		if at < 0 {
			if x.k.Done && x.k.Ret < k.Inv && !part && len(x.toks) > 0 {
				c.Fail("C20", "lost", "%s misses %v of span %v, collected before: it shows%v", what, x.toks, x.span, t)
			}
			continue
		}
		if x.k.Inv > k.Ret {
			c.Fail("C20", "early", "%s shows %v, collected afterwards", what, x.toks)
		}
		l := left[x.span]
		for j, tk := range x.toks {
			if at+j >= len(l) || l[at+j] != tk+"="+tk {
				c.Fail("C20", "torn", "%s shows a part of the collection %v on span %v: %q", what, x.toks, x.span, l)
				return
			}
		}
		left[x.span] = append(append([]string(nil), l[:at]...), l[at+len(x.toks):]...)
	}
	for id, l := range left {
		if len(l) > 0 {
			c.Fail("C20", "invented", "%s shows %q on span %v more than was collected", what, l, id)
			return
		}
	}
}

// exists tells whether a trace is in the instance during a call: 1 certainly, -1 certainly not, 0 not known.
func (w *wWorld) exists(i int, id appdash.ID, k *Call) int {
	in := w.inst[i]
	if in.pre[id] != nil {
		return 1
	}
	if lv := w.live[id]; lv != nil && i == 0 {
		in, before := 0, 0
		for _, x := range lv.colls {
			if x.k.Inv < k.Ret {
				in++
			}
			if x.k.Done && x.k.Ret < k.Inv {
				before++
			}
		}
		if lv.del != nil && lv.del.Inv < k.Ret {
			if lv.del.Done && lv.del.Ret < k.Inv {
				for _, x := range lv.colls {
					if !x.k.Done || x.k.Ret > lv.del.Inv {
						return 0
					}
				}
				return -1
			}
			return 0
		}
		if before > 0 {
			return 1
		}
		if in == 0 {
			return -1
		}
		return 0
	}
	any := false
	for _, u := range in.ups[id] {
		if u.k.Inv < k.Ret {
			any = true
		}
		if u.status/100 == 2 && u.k.Done && u.k.Ret < k.Inv {
			return 1
		}
	}
	if !any {
		return -1
	}
	return 0
}

// wantPage checks the status of a page about a trace; true: there is one to look at.
func (w *wWorld) wantPage(i int, id appdash.ID, what string, q *wResp) bool {
	c := w.c
	if q.k.Err != nil {
		return false
	}
	e := w.exists(i, id, &q.k)
	switch {
	case q.status == 200:
		if e < 0 {
			c.Fail("C20", "phantom", "%s answers 200 although there is no such trace", what)
			return false
		}
		return true
	case q.status >= 400:
		if e > 0 && !w.inst[i].injured(&q.k) {
			c.Fail("C20", "not-served", "%s answers %d although the trace is there: %s", what, q.status, short(q.body, 300))
		}
	default:
		c.Fail("C20", "status", "%s answers %d", what, q.status)
	}
	return false
}

func (w *wWorld) get(o *eng.Op) {
	c := w.c
	i := int(o.B) % 2
	id := appdash.ID(o.A)
	in := w.inst[i]
	path := "/traces/" + id.String()
	switch o.E {
	case 1, 7, 8:
		pq := "/traces"
		if o.E == 7 {
			pq += "?show=" + id.String()
		}
		q := w.req(i, "GET", pq, "")
		if q.k.Err != nil {
			return
		}
		if q.status != 200 {
			if !in.injured(&q.k) {
				c.Fail("C20", "not-served", "GET %s answers %d: %s", pq, q.status, short(q.body, 300))
			}
			return
		}
		w.list(i, q, o.E == 7)
	case 2, 3, 6:
		pq := map[int64]string{2: "/aggregate?view-mode=" + []string{"trace-only", "span-only", "trace-and-span", ""}[o.A%4], 3: "/", 6: "/dashboard"}[o.E]
		q := w.req(i, "GET", pq, "")
		if q.k.Err == nil && q.status != 200 && !(o.E == 6 && q.status == 404) && !in.injured(&q.k) {
			c.Fail("C20", "not-served", "GET %s answers %d: %s", pq, q.status, short(q.body, 300))
		}
	case 4:
		q := w.req(i, "GET", path+"/profile", "")
		if w.wantPage(i, id, "the profile of "+id.String(), q) {
			var l []map[string]any
			if err := json.Unmarshal([]byte(q.body), &l); err != nil || len(l) == 0 {
				c.Fail("C20", "profile", "the profile of %v is no list: %v %s", id, err, short(q.body, 200))
			} else if p := in.pre[id]; p != nil && len(l) != len(p) {
				c.Fail("C20", "profile", "the profile of %v has %d spans of %d", id, len(l), len(p))
			}
		}
	case 5:
		// the page of a span
		if p := in.pre[id]; p != nil {
			ids := p.ids()
			s := ids[int(o.C+int(o.D))%len(ids)]
			q := w.req(i, "GET", path+"/"+s.String(), "")
			what := fmt.Sprintf("the page of span %v of trace %v", s, id)
			if w.wantPage(i, id, what, q) {
				if g := w.page(what, q.body, id); g != nil {
					w.judge(i, id, what, g.content, &q.k, true)
					w.subtree(what, p, g.content, s)
				}
			}
		}
	default:
		q := w.req(i, "GET", path, "")
		what := "the page of trace " + id.String() + " on " + in.name
		if w.wantPage(i, id, what, q) {
			if g := w.page(what, q.body, id); g != nil {
				w.judge(i, id, what, g.content, &q.k, false)
			}
		}
	}
}

// subtree checks that a span's page has the span and all its descendants.
func (w *wWorld) subtree(what string, p, t wTrace, top appdash.ID) {
	if t[top] == nil {
		w.c.Fail("C20", "span-page", "%s lacks the span", what)
		return
	}
	rooted := false
	for _, s := range p {
		rooted = rooted || s.parent == 0
	}
	if !rooted {
		return // the order of arrival decides what hangs under what
	}
	for _, id := range p.ids() {
		for x, n := id, 0; n < len(p)+1 && p[x] != nil; x, n = p[x].parent, n+1 {
			if x == top {
				if t[id] == nil {
					w.c.Fail("C20", "span-page", "%s lacks its descendant %v: it shows%v of%v", what, id, t, p)
					return
				}
				break
			}
		}
	}
}

// list checks the traces page and returns the exports.
func (w *wWorld) list(i int, q *wResp, filtered bool) map[appdash.ID]string {
	c := w.c
	in := w.inst[i]
	out := map[appdash.ID]string{}
	for _, m := range reList.FindAllStringSubmatch(q.body, -1) {
		text := html.UnescapeString(m[1])
		var h wJSON
		if err := json.Unmarshal([]byte(text), &h); err != nil {
			c.Fail("C20", "export", "the traces page has an export that is no JSON: %v", err)
			return nil
		}
		v, err := strconv.ParseUint(h.ID.Trace, 16, 64)
		id := appdash.ID(v)
		if err != nil {
			c.Fail("C20", "export", "the traces page has a trace %q", h.ID.Trace)
			return nil
		}
		if _, ok := out[id]; ok {
			c.Fail("C20", "list-twice", "the traces page has the trace %v twice", id)
			return nil
		}
		out[id] = text
		if id >= wFresh {
			continue
		}
		t, err := wParse(text, id)
		if err != nil {
			c.Fail("C20", "export", "the traces page's export of %v has %v", id, err)
			return nil
		}
		if w.exists(i, id, &q.k) < 0 {
			c.Fail("C20", "phantom", "the traces page shows the trace %v, which is not there", id)
			return nil
		}
		w.judge(i, id, fmt.Sprintf("the entry of %v on the traces page of %s", id, in.name), t, &q.k, false)
	}
	if filtered || c.Failed() {
		return out
	}
	ids := append(append([]appdash.ID(nil), in.order...), w.lids...)
	for k := range w.p.Ops {
		if w.p.Ops[k].K == "u" {
			ids = append(ids, appdash.ID(w.p.Ops[k].A))
		}
	}
	for _, id := range ids {
		if _, ok := out[id]; !ok && w.exists(i, id, &q.k) > 0 {
			c.Fail("C20", "unlisted", "the traces page of %s lacks the trace %v", in.name, id)
			return out
		}
	}
	return out
}

// upload gives a trace to an instance. way: 0 JSON list, 1 permalink
func (w *wWorld) upload(i int, id appdash.ID, content wTrace, text, link string, also ...appdash.ID) {
	in := w.inst[i]
	u := &wUp{content: content}
	u.k.Inv = rt.Seq()
	all := []*wUp{u}
	if in.pre[id] == nil && !(i == 0 && w.live[id] != nil) {
		in.ups[id] = append(in.ups[id], u)
	}
	for _, a := range also {
		v := &wUp{content: w.inst[0].pre[a], k: u.k}
		in.ups[a] = append(in.ups[a], v)
		all = append(all, v)
	}
	var q *wResp
	what := "the upload of " + id.String() + " to " + in.name
	if link != "" {
		what = "the permalink of " + id.String() + " on " + in.name
		q = w.req(i, "GET", link, "")
	} else {
		q = w.req(i, "POST", "/traces/upload", text)
	}
	if rt.Killed() {
		return
	}
	for _, u := range all {
		u.k.Ret, u.k.Done = q.k.Ret, true
		u.status = q.status
	}
	if link == "" {
		if q.k.Err == nil && q.status/100 != 2 && !in.injured(&q.k) {
			w.c.Fail("C20", "upload-refused", "%s was answered with %d: %s", what, q.status, short(q.body, 300))
		}
		return
	}
	if q.k.Err != nil {
		return
	}
	if q.status != 200 {
		if !in.injured(&q.k) {
			w.c.Fail("C20", "upload-refused", "%s was answered with %d: %s", what, q.status, short(q.body, 300))
		}
		return
	}
	if g := w.page(what, q.body, id); g != nil {
		w.judge(i, id, what, g.content, &q.k, false)
	}
}

func (w *wWorld) export(o *eng.Op) {
	id := appdash.ID(o.A)
	way := int(o.E % 4)
	var content wTrace
	var text, link string
	var also []appdash.ID
	if way == 2 {
		q := w.req(0, "GET", "/traces", "")
		if q.k.Err != nil || q.status != 200 {
			return
		}
		l := w.list(0, q, false)
		if l == nil || l[id] == "" {
			return
		}
		t, err := wParse(l[id], id)
		if err != nil {
			return
		}
		content, text = t, "["+l[id]+"]"
		if o.E >= 8 {
			// all of them at once
			text = "[" + l[0x20] + ",\n" + l[id] + "]"
			also = append(also, 0x20)
		}
	} else {
		path := "/traces/" + id.String()
		q := w.req(0, "GET", path, "")
		what := "the page of trace " + id.String() + " on a"
		if !w.wantPage(0, id, what, q) {
			return
		}
		g := w.page(what, q.body, id)
		if g == nil {
			return
		}
		w.judge(0, id, what, g.content, &q.k, false)
		content, text = g.content, g.json
		if way == 3 {
			link = g.link // a trace without a root has none
		}
	}
	if w.c.Failed() || rt.Killed() {
		return
	}
	w.upload(1, id, content, text, link, also...)
}

// hostile makes bad requests.
func (w *wWorld) hostile(n int, o *eng.Op) {
	c := w.c
	i := int(o.B) % 2
	id := appdash.ID(o.A)
	fresh := appdash.ID(wFresh + n)
	span := func(trace appdash.ID, sp, parent int, sub ...any) map[string]any {
		if sub == nil {
			sub = []any{}
		}
		return map[string]any{"ID": map[string]any{"Trace": trace.String(), "Span": appdash.ID(sp).String(), "Parent": appdash.ID(parent).String()},
			"Annotations": []map[string]any{{"Key": "evil", "Value": []byte("evil")}}, "Sub": sub}
	}
	texts := []string{
		"[", "{}", `"x"`, `[null]`, `[{"ID":{"Trace":7}}]x`, `[{"ID":{"Trace":"zz"}}]`, `[{"Sub":3}]`, "",
		wMarshal([]any{span(fresh, 1, 0, nil)}),
		wMarshal([]any{span(fresh, 1, 0, span(fresh, 2, 1, nil))}),
		wMarshal([]any{span(fresh, 1, 0, span(id, 0x100, 1))}),
		wMarshal([]any{span(fresh, 1, 0, span(fresh, 2, 1, span(id, 0x7777, 2)))}),
		wMarshal([]any{span(fresh, 1, 0), nil}),
		wMarshal([]any{span(fresh, 1, 0), span(fresh+0x100000, 1, 0, span(id, 0x7777, 0x100))}),
		strings.Repeat("[", 20000),
		`[{"ID":{"Trace":"` + fresh.String() + `","Span":"1"},"Annotations":[{"Key":1}]}]`,
	}
	existing := w.exists(i, id, &Call{Inv: rt.Seq(), Ret: rt.Seq()}) > 0
	h := int(rt.Mix(uint64(o.E), uint64(n), uint64(o.C)) % uint64(len(texts)+9))
	bad := func(what string, q *wResp) {
		if q.k.Err == nil && q.status < 400 {
			c.Fail("C20", "bad-accepted", "%s was answered with %d", what, q.status)
		}
	}
	switch {
	case h < len(texts):
		t := texts[h]
		if o.E%3 == 0 && strings.HasPrefix(t, "[{") && strings.HasSuffix(t, "]") && !strings.Contains(t, ",null]") && h != 13 {
			bad(fmt.Sprintf("a permalink of %s", short(t, 150)), w.req(i, "GET", wPermalink(fresh, t[1:len(t)-1]), ""))
		} else {
			bad(fmt.Sprintf("an upload of %s", short(t, 150)), w.req(i, "POST", "/traces/upload", t))
		}
	case h == len(texts):
		bad("a permalink that is no base64", w.req(i, "GET", "/traces/"+id.String()+"?permalink=%21%21", ""))
	case h == len(texts)+1:
		bad("a permalink that is not compressed", w.req(i, "GET", "/traces/"+id.String()+"?permalink=AAAAAAAAAAAAAAAA", ""))
	case h == len(texts)+2:
		l := wPermalink(id, strings.Repeat(`{"a":"b"}`, 30))
		bad("a permalink cut short", w.req(i, "GET", l[:len("/traces/0000000000000000?permalink=")+20], ""))
	case h == len(texts)+3:
		bad("a permalink of null", w.req(i, "GET", wPermalink(id, "null"), ""))
	case h == len(texts)+4:
		bad("a page of no ID", w.req(i, "GET", "/traces/xyz", ""))
	case h == len(texts)+5:
		bad("the page of a trace that is not there", w.req(i, "GET", "/traces/"+appdash.ID(0x5555).String(), ""))
	case h == len(texts)+6:
		bad("the page of a span that is not there", w.req(i, "GET", "/traces/"+id.String()+"/"+appdash.ID(0x5555).String(), ""))
	case h == len(texts)+7:
		bad("an upload by GET", w.req(i, "GET", "/traces/upload", ""))
	case existing:
		// a permalink that pretends to be an existing trace
		t := wMarshal(span(id, 0x100, 0, span(id, 0x7777, 0x100)))
		q := w.req(i, "GET", wPermalink(id, t), "")
		what := "a colliding permalink of " + id.String() + " on " + w.inst[i].name
		if w.wantPage(i, id, what, q) {
			if g := w.page(what, q.body, id); g != nil {
				w.judge(i, id, what, g.content, &q.k, false)
			}
		}
	}
}

func runWeb(c *eng.C) {
	p := c.P
	w := &wWorld{c: c, p: p, live: map[appdash.ID]*wLive{}}
	w.net = p.Net.Reset > 0 || p.Net.Refuse > 0 || p.Net.AcceptErr > 0
	traceapp.ReloadTemplates = p.G("reload") == 1
	w.up(0)
	w.up(1)
	var stalled []*rt.Conn
	Clients(c, nil, func(n int, o *eng.Op) {
		if c.Failed() {
			return
		}
		id := appdash.ID(o.A)
		switch o.K {
		case "c":
			lv := w.live[id]
			sp := appdash.SpanID{Trace: id, Span: appdash.ID(o.B)}
			if o.B > 1 {
				sp.Parent = appdash.ID(o.B / 2)
			}
			toks := []string{fmt.Sprintf("t%d.1", n), fmt.Sprintf("t%d.2", n), fmt.Sprintf("t%d.3", n)}[:1+n%3]
			on(w.inst[0].node, "collect", func() { w.collect(w.inst[0], lv, sp, toks) })
		case "d":
			lv := w.live[id]
			if lv.del == nil {
				lv.del = &Call{}
				on(w.inst[0].node, "delete", func() {
					DoIn(lv.del, func() error {
						if d, ok := w.inst[0].inner.(appdash.DeleteStore); ok {
							return d.Delete(id)
						}
						return nil
					})
				})
			}
		case "g":
			w.get(o)
		case "x":
			w.export(o)
		case "u":
			i := int(o.C) % 2
			l := wGen(id, 10+o.B, p.G("deep") == 1)
			text := wMarshal([]any{wTree(l)})
			link := ""
			if o.E%3 == 0 {
				link = wPermalink(id, text[1:len(text)-1])
			}
			w.upload(i, id, wContent(l), text, link)
		case "h":
			w.hostile(n, o)
		case "z":
			cn, err := rt.DialSim(w.inst[o.B%2].name + ":7700")
			if err != nil {
				return
			}
			stalled = append(stalled, cn)
			if o.E%2 == 0 {
				io.WriteString(cn, "POST /traces/upload HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\n[{\"ID\":")
			} else {
				io.WriteString(cn, "GET /traces HTTP/1.1\r\nHost: x\r\n\r\n")
			}
		}
	})
	if c.Failed() {
		return
	}
	rt.Calm(true)
	w.quiet, w.net = true, false
	for _, cn := range stalled {
		cn.Close()
	}
	rt.Sleep(100 * ms)
	for _, pn := range rt.HandlerPanics() {
		c.Fail("C20", "handler-panic", "a panic left the handler: %s\n%s", pn.Value, short(pn.Stack, 1500))
		return
	}
	w.final()
}

// again deletes traces and uploads them anew: what was there before does not matter, and pages show what is there now.
func (w *wWorld) again(i int, ids []appdash.ID) {
	c, in := w.c, w.inst[i]
	pick := []appdash.ID{wAgain}
	if w.p.Net.Reset == 0 && w.p.Net.Refuse == 0 && w.p.Net.AcceptErr == 0 && len(ids) > 0 {
		// no request is under way any more
		pick = append(pick, ids[int(w.p.Seed%uint64(len(ids)))])
	}
	for _, id := range pick {
		path := "/traces/" + id.String()
		for n := 0; n < 2; n++ {
			var t *appdash.Trace
			on(in.node, "look", func() { t, _ = in.mem.Trace(id) })
			if t != nil {
				on(in.node, "delete", func() {
					if d, ok := in.inner.(appdash.DeleteStore); ok {
						d.Delete(id)
					}
				})
				if q := w.req(i, "GET", path, ""); q.k.Err != nil || q.status < 400 {
					c.Fail("C20", "phantom", "the page of trace %v on %s, which was deleted, answers %d (%v)", id, in.name, q.status, q.k.Err)
					return
				}
			}
			l := wGen(id, 20+int64(w.p.Seed>>8%3)+int64(n)*int64(w.p.Seed>>4%2), w.p.G("deep") == 1)
			text := wMarshal([]any{wTree(l)})
			var q *wResp
			if w.p.Seed>>12%3 == 0 {
				q = w.req(i, "GET", wPermalink(id, text[1:len(text)-1]), "")
			} else {
				q = w.req(i, "POST", "/traces/upload", text)
			}
			if q.k.Err != nil || q.status/100 != 2 {
				c.Fail("C20", "upload-refused", "the upload of %v to %s was answered with %d (%v): %s", id, in.name, q.status, q.k.Err, short(q.body, 300))
				return
			}
			want := wContent(l)
			for k := 0; k < 3; k++ {
				t = nil
				on(in.node, "look", func() { t, _ = in.mem.Trace(id) })
				if t == nil {
					c.Fail("C20", "upload-lost", "%s answered the upload of %v, deleted before, with success and does not store it", in.name, id)
					return
				}
				if have := wOf(t); have.String() != want.String() {
					c.Fail("C20", "upload-partial", "%s stores%v for the uploaded trace %v; uploaded and collected:%v", in.name, have, id, want)
					return
				}
				what := "the page of trace " + id.String() + " on " + in.name
				q = w.req(i, "GET", path, "")
				if q.k.Err != nil || q.status != 200 {
					c.Fail("C20", "not-served", "%s answers %d (%v): %s", what, q.status, q.k.Err, short(q.body, 300))
					return
				}
				g := w.page(what, q.body, id)
				if g == nil {
					return
				}
				if g.content.String() != want.String() {
					c.Fail("C20", "stale-page", "%s shows%v of%v", what, g.content, want)
					return
				}
				// it grows
				sp := l[k%len(l)].id
				a := appdash.Annotation{Key: "more", Value: []byte(fmt.Sprint(n, k))}
				if k == 1 {
					sp = appdash.SpanID{Trace: id, Span: 0x6000, Parent: l[0].id.Span}
					want[sp.Span] = &wSpan{parent: sp.Parent}
				}
				want[sp.Span].anns = append(want[sp.Span].anns, wKV(a.Key, a.Value))
				on(in.node, "collect", func() { in.inner.Collect(sp, a) })
			}
		}
	}
}

// final checks what is stored in the end, and that it can be seen.
func (w *wWorld) final() {
	c := w.c
	ups, complete := int64(0), int64(0)
	for i, in := range w.inst {
		k := &Call{Inv: rt.Seq()}
		var ts []*appdash.Trace
		on(in.node, "content", func() { ts, _ = in.mem.Traces(appdash.TracesOpts{}) })
		k.Ret = rt.Seq()
		have := map[appdash.ID]wTrace{}
		sort.Slice(ts, func(a, b int) bool { return ts[a].Span.ID.Trace < ts[b].Span.ID.Trace })
		for _, t := range ts {
			id := t.Span.ID.Trace
			have[id] = wOf(t)
			if id >= wFresh {
				continue
			}
			if w.exists(i, id, k) < 0 {
				c.Fail("C20", "phantom", "%s stores the trace %v, which nobody gave it", in.name, id)
				return
			}
			w.judge(i, id, fmt.Sprintf("the store of %s for trace %v", in.name, id), have[id], k, false)
		}
		for _, id := range in.order {
			if have[id] == nil {
				c.Fail("C20", "deleted", "%s lost the trace %v", in.name, id)
			}
		}
		var ids []appdash.ID
		for id := range in.ups {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
		for _, id := range ids {
			us := in.ups[id]
			ups += int64(len(us))
			oks := 0
			for _, u := range us {
				if u.status/100 == 2 {
					oks++
				}
			}
			full := false
			for _, u := range us {
				full = full || have[id] != nil && have[id].String() == u.content.String()
			}
			if full {
				complete++
			}
			if oks > 0 && have[id] == nil {
				c.Fail("C20", "upload-lost", "%s answered %d of %d uploads of %v with success and does not store it", in.name, oks, len(us), id)
			} else if oks == len(us) && !full {
				c.Fail("C20", "upload-partial", "%s answered all %d uploads of %v with success and stores%v; uploaded: %v", in.name, oks, id, have[id], us)
			}
			if c.Failed() {
				return
			}
		}
		// pages are served
		for _, e := range []int64{1, 2, 3} {
			w.get(&eng.Op{K: "g", B: int64(i), E: e})
		}
		for _, id := range []appdash.ID{wStaticA, appdash.ID(0x20 + i)} {
			w.get(&eng.Op{K: "g", A: int64(id), B: int64(i)})
		}
		if c.Failed() {
			return
		}
		if p := w.p.Seed >> 3 % 5; p == 0 {
			w.again(i, ids)
		}
		if c.Failed() {
			return
		}
	}
	c.Add("requests", w.pages)
	c.Add("uploads", ups)
	c.Add("uploads_complete", complete)
	for s, n := range w.stat {
		if n > 0 {
			c.Add(fmt.Sprintf("status_%d", s), n)
		}
	}
}

func init() {
	sc := &eng.Scenario{Name: "web", Gen: genWeb, Run: runWeb}
	eng.Register(&eng.PropCfg{ID: "C20", Scen: []eng.Weighted{{S: sc, W: 1}}, Quick: 20000, Deep: 3000000, QuickSec: 90, DeepSec: 600, Level: "exploration",
		Real: []string{"traceapp (App, router, handlers, templates, profiles)", "store.go MemoryStore, RecentStore, LimitStore", "gorilla/mux, html/template, encoding/json, compress/gzip", "net/http request and response codecs"},
		Stub: []string{"the connection handling of net/http (a small server and client)", "TCP (simulated connections)", "the static files (appdash-data is empty)", "clock, mutex and goroutine scheduler (simulated)"}})
}
