package scen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	basictracer "github.com/opentracing/basictracer-go"
	ot "github.com/opentracing/opentracing-go"
	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	aot "sourcegraph.com/sourcegraph/appdash/opentracing"
	"sourcegraph.com/sourcegraph/appdash/traceapp"

	"vsim/eng"
	"vsim/rt"
)

// The idhops scenario sends span IDs, extreme ones among them, from task to task and node to node in every form they
// take: text, JSON, HTTP header, packet, file, URL, page, tracer context; and texts that are no IDs, or IDs written
// differently, into the same places.
//
// ops: w walk (A: seed of the ID, B: the hops, base 16, S: unused); x garbled text (A: seed, B: where)

type hopWorld struct {
	c    *eng.C
	p    *eng.Plan
	got  map[string]appdash.SpanID // token -> span ID as collected by the server
	mem  *appdash.MemoryStore
	rcs  []*appdash.RemoteCollector
	toks int
}

// Collect is the collector behind the server.
func (w *hopWorld) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	for _, a := range as {
		w.got[a.Key] = id
	}
	rt.Yield()
	return nil
}

const hopKinds = 13

func genHops(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	clients := 1 + r.Intn(4)
	n := 1 + r.Intn(12)
	one := int64(-1)
	if r.Intn(3) == 0 {
		one = int64(r.Intn(hopKinds)) // all tasks take the same hop at once
	}
	for i := 0; i < n; i++ {
		o := eng.Op{K: pick(r, "w", "w", "w", "x"), C: r.Intn(clients), A: int64(r.U64() >> 1)}
		for k := 1 + r.Intn(5); k > 0; k-- {
			h := int64(r.Intn(hopKinds))
			if one >= 0 {
				h = one
			}
			o.B = o.B<<4 | (h + 1)
		}
		if r.Intn(4) == 0 {
			o.D = logUniform(r, 5*ms)
		}
		p.Ops = append(p.Ops, o)
	}
	p.Net.DelayMax = pick(r, 0, us, ms)
	p.Net.Frag = pick(r, 0, 0.1, 0.5)
	return p
}

func hopID(r *rt.Rand) appdash.ID {
	switch r.Intn(4) {
	case 0:
		return appdash.ID(pick(r, uint64(0), 1, 9, 10, 15, 16, math.MaxUint64, math.MaxInt64, 1<<63, 1<<53, 1<<53+1, math.MaxUint32, 1<<32, 0x1000000000000000, 0x0123456789abcdef, 0xe0, 0x1e2, 1e18))
	case 1:
		return appdash.ID(r.U64() >> uint(r.Intn(64)))
	}
	return appdash.ID(r.U64())
}

// hexID is what a text means as an ID.
func hexID(s string) (appdash.ID, bool) {
	if s == "" {
		return 0, false
	}
	v := uint64(0)
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte("0123456789abcdef", s[i])
		if u := strings.IndexByte("0123456789ABCDEF", s[i]); d < 0 {
			d = u
		}
		if d < 0 || v>>60 != 0 {
			return 0, false
		}
		v = v<<4 | uint64(d)
	}
	return appdash.ID(v), true
}

func hexSpanID(s string) (id appdash.SpanID, ok bool) {
	f := strings.Split(s, "/")
	if len(f) != 2 && len(f) != 3 {
		return id, false
	}
	f = append(f, "0")
	var ok1, ok2, ok3 bool
	id.Trace, ok1 = hexID(f[0])
	id.Span, ok2 = hexID(f[1])
	id.Parent, ok3 = hexID(f[2])
	return id, ok1 && ok2 && ok3
}

func hopGarbled(r *rt.Rand) string {
	s := fmt.Sprintf("%016x", uint64(hopID(r)))
	switch r.Intn(6) {
	case 0:
		s = strings.TrimLeft(s, "0")
	case 1:
		s = strings.ToUpper(s)
	case 2:
		s = strings.Repeat("0", r.Intn(5)) + s
	case 3:
		s += "/" + fmt.Sprintf("%016x", uint64(hopID(r)))
		if r.Intn(2) == 0 {
			s += "/" + fmt.Sprintf("%x", uint64(hopID(r)))
		}
	}
	for k := pick(r, 0, 0, 1, 1, 2); k > 0; k-- {
		i := r.Intn(len(s) + 1)
		x := pick(r, "", "0", "g", "G", "_", "-", "+", " ", "x", "0x", ".", "/", "//", "é", "１", "\t", ",", "e", "F", "00", "{", "%30")
		j := min(len(s), i+r.Intn(3))
		s = s[:i] + x + s[j:]
	}
	return s
}

func runHops(c *eng.C) {
	w := &hopWorld{c: c, p: c.P, got: map[string]appdash.SpanID{}, mem: appdash.NewMemoryStore()}
	log.SetFlags(0)
	log.SetOutput(nullWriter{})
	node := rt.NewNode("server", rt.NewHost("srv"))
	t := rt.GoOn(node, "listen", func() {
		l, err := rt.Net_Listen("tcp", ":7701")
		if err != nil {
			panic(err)
		}
		s := appdash.NewServer(l, w)
		s.Log = log.New(nullWriter{}, "", 0)
		rt.GoOn(node, "collector", func() { s.Start() })
		app, err := traceapp.New(nil, &url.URL{Scheme: "http", Host: "srv:7700"})
		if err != nil {
			panic(err)
		}
		app.Log = log.New(nullWriter{}, "", 0)
		app.Store, app.Queryer = w.mem, w.mem
		l2, err := rt.Net_Listen("tcp", ":7700")
		if err != nil {
			panic(err)
		}
		rt.GoOn(node, "ui", func() { rt.Http_Serve(l2, app) })
		l3, err := rt.Net_Listen("tcp", ":80")
		if err != nil {
			panic(err)
		}
		seen := map[*http.Request]appdash.SpanID{}
		mw := httptrace.Middleware(w, &httptrace.MiddlewareConfig{SetContextSpan: func(r *http.Request, id appdash.SpanID) { seen[r] = id }})
		rt.GoOn(node, "web", func() {
			rt.Http_Serve(l3, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
				mw(rw, r, func(rw http.ResponseWriter, r *http.Request) {
					id := seen[r]
					fmt.Fprintf(rw, "%d %d %d", uint64(id.Trace), uint64(id.Span), uint64(id.Parent))
				})
			}))
		})
	})
	rt.Join(t, 0)
	for k := 0; k < 4; k++ {
		w.rcs = append(w.rcs, appdash.NewRemoteCollector("srv:7701"))
	}
	Clients(c, nil, func(i int, o *eng.Op) {
		r := rt.NewRand(uint64(o.A))
		if o.K == "x" {
			for b := o.B; b > 0 && !c.Failed() && !rt.Killed(); b >>= 4 {
				w.garbled(&r, int(b&15), i)
			}
			return
		}
		id := appdash.SpanID{Trace: hopID(&r), Span: hopID(&r), Parent: hopID(&r)}
		if r.Intn(4) == 0 {
			id.Parent = 0
		}
		for b := o.B; b > 0; b >>= 4 {
			k := int(b&15) - 1
			want := id
			what := ""
			id, what = w.hop(k, id, o.C, i)
			if rt.Killed() || c.Failed() {
				return
			}
			if id != want {
				c.Fail("C24", "changed", "the span ID %s is %s after it went through %s", decID(want), decID(id), what)
				return
			}
			c.Add("hops", 1)
		}
	})
}

func decID(id appdash.SpanID) string {
	return fmt.Sprintf("%x/%x/%x", uint64(id.Trace), uint64(id.Span), uint64(id.Parent))
}

func (w *hopWorld) refused(what string, err error) { w.c.Fail("C24", "refused", "%s: %v", what, err) }

// hop sends an ID through form k and returns what came out.
func (w *hopWorld) hop(k int, id appdash.SpanID, cl, n int) (out appdash.SpanID, what string) {
	c := w.c
	bad := func(err error) bool {
		if err != nil && !rt.Killed() && !c.Failed() {
			w.refused(fmt.Sprintf("the span ID %s, through %s", decID(id), what), err)
		}
		return err != nil
	}
	three := func(f func(appdash.ID) (appdash.ID, error)) {
		for i, p := range []*appdash.ID{&out.Trace, &out.Span, &out.Parent} {
			v, err := f([]appdash.ID{id.Trace, id.Span, id.Parent}[i])
			if bad(err) {
				return
			}
			*p = v
		}
	}
	switch k {
	case 0:
		what = "ID text"
		three(func(x appdash.ID) (appdash.ID, error) {
			s := x.String()
			if len(s) != 16 || strings.ToLower(s) != s {
				return 0, fmt.Errorf("written as %q", s)
			}
			return appdash.ParseID(s)
		})
	case 1:
		what = "span ID text"
		s := id.String()
		p, err := appdash.ParseSpanID(s)
		if bad(err) {
			return
		}
		if v, ok := hexSpanID(s); !ok || v != id {
			c.Fail("C24", "text", "the span ID %s is written as %q", decID(id), s)
		}
		out = *p
	case 2:
		what = "a format"
		s := id.Format("<%s|%d>", n)
		rt.Yield()
		s = strings.TrimPrefix(strings.TrimSuffix(s, fmt.Sprintf("|%d>", n)), "<")
		p, err := appdash.ParseSpanID(s)
		if bad(err) {
			return
		}
		out = *p
	case 3:
		what = "JSON"
		b, err := json.Marshal(map[string]interface{}{"x": id, "l": []appdash.ID{id.Trace}})
		if bad(err) {
			return
		}
		rt.Yield()
		var v struct {
			X appdash.SpanID `json:"x"`
			L []appdash.ID   `json:"l"`
		}
		if bad(json.Unmarshal(b, &v)) {
			return
		}
		if len(v.L) != 1 || v.L[0] != id.Trace {
			c.Fail("C24", "changed", "the ID %x is %v after it went through JSON", uint64(id.Trace), v.L)
		}
		out = v.X
	case 4:
		what = "JSON numbers"
		three(func(x appdash.ID) (y appdash.ID, err error) {
			err = json.Unmarshal([]byte(strconv.FormatUint(uint64(x), 10)), &y)
			return
		})
	case 5:
		what = "the JSON of a trace"
		tr := &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: id.Trace, Span: id.Parent}}, Sub: []*appdash.Trace{{Span: appdash.Span{ID: id, Annotations: appdash.Annotations{{Key: "k", Value: []byte("v")}}}}}}
		var v appdash.Trace
		s := tr.String()
		if bad(json.Unmarshal([]byte(s), &v)) {
			return
		}
		if v.ID != tr.ID || len(v.Sub) != 1 {
			c.Fail("C24", "changed", "a trace is changed by JSON: %s", short(s, 500))
			return
		}
		out = v.Sub[0].ID
	case 6:
		what = "a header"
		h := http.Header{}
		httptrace.SetSpanIDHeader(h, id)
		rt.Yield()
		p, err := httptrace.GetSpanID(h)
		if bad(err) {
			return
		}
		out = *p
	case 7:
		what = "a request"
		h := http.Header{}
		httptrace.SetSpanIDHeader(h, id)
		var ok bool
		out, ok = w.request(h, what)
		if !ok {
			return
		}
	case 8:
		what = "a packet"
		w.toks++
		tok := fmt.Sprintf("tok%d", w.toks)
		if bad(w.rcs[cl].Collect(id, appdash.Annotation{Key: tok, Value: []byte("v")})) || rt.Killed() {
			return
		}
		x, ok := w.got[tok]
		for i := 0; i < 2000 && !ok; i++ {
			quietFor(func() { rt.Sleep(ms) })
			x, ok = w.got[tok]
		}
		if !ok {
			c.Fail("C24", "lost", "the collection of %s did not arrive", decID(id))
			return
		}
		out = x
	case 9:
		what = "a store file"
		st := appdash.NewMemoryStore()
		if bad(st.Collect(id, Ann("1"))) {
			return
		}
		var buf bytes.Buffer
		if bad(st.Write(&buf)) {
			return
		}
		st2 := appdash.NewMemoryStore()
		_, err := st2.ReadFrom(&buf)
		if bad(err) {
			return
		}
		tr, err := st2.Trace(id.Trace)
		if bad(err) {
			return
		}
		if x := tr.FindSpan(id.Span); x != nil {
			tr = x
		}
		out = tr.ID
	case 10:
		what = "a page"
		// the page of the span is found, and links back to it
		if bad(w.mem.Collect(id, appdash.Annotation{Key: fmt.Sprintf("hop%d", n)})) || rt.Killed() {
			return
		}
		u, err := traceapp.NewRouter(nil).URLToTraceSpanProfile(id.Trace, id.Span)
		if bad(err) {
			return
		}
		status, body, ok := w.get("srv:7700", u.Path, nil, what)
		if !ok {
			return
		}
		if status != 200 {
			bad(fmt.Errorf("status %d for %s: %s", status, u.Path, short(body, 200)))
			return
		}
		var ps []struct{ Name, URL string }
		if err := json.Unmarshal([]byte(body), &ps); err != nil || len(ps) == 0 {
			bad(fmt.Errorf("%v in the answer %s", err, short(body, 200)))
			return
		}
		pu, err := url.Parse(ps[0].URL)
		if bad(err) {
			return
		}
		f := strings.Split(strings.Trim(pu.Path, "/"), "/")
		s := strings.Join(f[1:], "/")
		if len(f) == 2 {
			s += "/" + ps[0].Name // the root: a link to the trace, named by its ID
		}
		v, ok2 := hexSpanID(s)
		if !ok2 || v.Trace != id.Trace || v.Span != id.Span {
			c.Fail("C24", "changed", "the page at %s of the span %s is of %q, which links to %s", u.Path, decID(id), ps[0].Name, ps[0].URL)
			return
		}
		out = id
	case 11, 12:
		what = "a tracer's context"
		if id.Trace == 0 {
			return id, what // to basictracer, a context of no trace
		}
		col := &hopTap{}
		tr := aot.NewTracer(col)
		ctx := basictracer.SpanContext{TraceID: uint64(id.Trace), SpanID: uint64(id.Span), Sampled: true}
		var format, carrier interface{} = ot.TextMap, ot.TextMapCarrier{}
		var wire bytes.Buffer
		if k == 12 {
			format, carrier = ot.Binary, &wire
		}
		if bad(tr.Inject(ctx, format, carrier)) {
			return
		}
		x, err := tr.Extract(format, carrier)
		if bad(err) {
			return
		}
		tr.StartSpan("op", ot.ChildOf(x)).Finish()
		if rt.Killed() {
			return
		}
		if len(col.ids) == 0 {
			c.Fail("C24", "lost", "a span below %s was not collected", decID(id))
			return
		}
		for _, y := range col.ids {
			if y.Trace != id.Trace || y.Parent != id.Span {
				c.Fail("C24", "changed", "a span started below %s was collected as %s", decID(id), decID(y))
				return
			}
		}
		out = id
	default:
		return id, "nothing"
	}
	return
}

type hopTap struct{ ids []appdash.SpanID }

func (t *hopTap) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	t.ids = append(t.ids, id)
	return nil
}

func (w *hopWorld) get(host, path string, h http.Header, what string) (int, string, bool) {
	r, err := http.NewRequest("GET", "http://"+host+path, nil)
	if err != nil {
		panic(err)
	}
	if h != nil {
		r.Header = h
	}
	resp, err := (&rt.HTTPTransport{}).RoundTrip(r)
	if rt.Killed() {
		return 0, "", false
	}
	if err != nil {
		w.c.Fail("C24", "no-answer", "%s: %v", what, err)
		return 0, "", false
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if rt.Killed() || err != nil {
		return 0, "", false
	}
	return resp.StatusCode, string(b), true
}

// request makes a request with the header and returns the span ID the server's handler ran under.
func (w *hopWorld) request(h http.Header, what string) (id appdash.SpanID, ok bool) {
	_, b, ok := w.get("srv", "/x", h, what)
	if !ok {
		return id, false
	}
	if _, err := fmt.Sscan(b, (*uint64)(&id.Trace), (*uint64)(&id.Span), (*uint64)(&id.Parent)); err != nil {
		w.c.Fail("C24", "no-answer", "%s: the answer is %q", what, short(b, 200))
		return id, false
	}
	return id, true
}

// garbled gives a text that may be no ID to parser k.
func (w *hopWorld) garbled(r *rt.Rand, k int, n int) {
	c := w.c
	s := hopGarbled(r)
	want, ok := hexID(s)
	swant, sok := hexSpanID(s)
	judge := func(what string, got fmt.Stringer, same bool, err error, ok bool) {
		if rt.Killed() || c.Failed() {
			return
		}
		switch {
		case err == nil && !ok:
			c.Fail("C24", "accepted", "%q is accepted as %s: %v", s, what, got)
		case err != nil && ok:
			w.refused(fmt.Sprintf("%q as %s", s, what), err)
		case ok && !same:
			c.Fail("C24", "misread", "%q is read as %s as %v", s, what, got)
		}
		c.Add("texts parsed", 1)
	}
	switch k % 6 {
	case 0:
		id, err := appdash.ParseID(s)
		judge("an ID", id, id == want, err, ok)
	case 1:
		id, err := appdash.ParseSpanID(s)
		if err != nil && id != nil && !rt.Killed() {
			c.Fail("C24", "accepted", "%q is refused with %v and a span ID", s, err)
		}
		if id == nil {
			id = &appdash.SpanID{}
		}
		judge("a span ID", id, *id == swant, err, sok)
	case 2:
		b, _ := json.Marshal(s)
		var id appdash.ID
		err := json.Unmarshal(b, &id)
		judge("JSON", id, id == want, err, ok)
	case 3:
		// numbers
		s = strconv.FormatUint(uint64(hopID(r)), 10)
		s = pick(r, s, s, s+"0", s+"00000000", "-"+s, s+".5", s+"e300", "[]", "{}", "true", s+s)
		v, err := strconv.ParseUint(s, 10, 64)
		if !json.Valid([]byte(s)) {
			return
		}
		var id appdash.ID
		jerr := json.Unmarshal([]byte(s), &id)
		judge("JSON", id, uint64(id) == v, jerr, err == nil)
	case 4:
		h := http.Header{}
		h.Set(httptrace.HeaderSpanID, s)
		if s == "" {
			return
		}
		id, err := httptrace.GetSpanID(h)
		if id == nil {
			id = &appdash.SpanID{}
		}
		judge("a header", id, *id == swant, err, sok)
	case 5:
		t := strings.Trim(s, " \t")
		if t == "" || strings.ContainsAny(t, "\t") || strings.ContainsFunc(t, func(x rune) bool { return x > 126 }) {
			return
		}
		swant, sok = hexSpanID(t)
		h := http.Header{}
		h.Set(httptrace.HeaderSpanID, t)
		id, okr := w.request(h, "a request with the header "+strconv.Quote(t))
		if !okr || c.Failed() {
			return
		}
		if sok && id != swant {
			c.Fail("C24", "misread", "the header %q is read as %s", t, decID(id))
		} else if !sok && (id.Parent != 0 || id.Trace == 0 || id == swant) {
			c.Fail("C24", "accepted", "a request with the header %q ran under %s, not under a new root", t, decID(id))
		}
		c.Add("texts parsed", 1)
	}
}

func init() {
	sc := &eng.Scenario{Name: "idhops", Gen: genHops, Run: runHops}
	eng.Register(&eng.PropCfg{ID: "C24", Scen: []eng.Weighted{{S: sc, W: 1}}, Quick: 300000, Deep: 40000000, QuickSec: 40, DeepSec: 600, Level: "exploration",
		Real: []string{"id.go", "span.go", "trace.go String", "httptrace/header.go, Middleware", "collector.go", "store.go Write, ReadFrom", "traceapp router and profile", "opentracing and basictracer contexts", "encoding/json", "encoding/gob"},
		Stub: []string{"network (simulated)", "goroutine scheduler, mutexes, clock (simulated)"}})
}
