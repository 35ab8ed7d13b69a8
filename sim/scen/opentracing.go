package scen

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"log"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	basictracer "github.com/opentracing/basictracer-go"
	ot "github.com/opentracing/opentracing-go"
	"github.com/opentracing/opentracing-go/ext"
	otlog "github.com/opentracing/opentracing-go/log"
	"sourcegraph.com/sourcegraph/appdash"
	aot "sourcegraph.com/sourcegraph/appdash/opentracing"

	"vsim/eng"
	"vsim/rt"
)

// The opentracing scenario: several tracers (processes), each with its own slow and failing collector; tasks start,
// modify and finish spans whose contexts travel between them in memory or injected into a carrier.
//
// ops: s start a root on tracer A; c start a child of context B on tracer A (E: bit 0 FollowsFrom, bits 1-2 carrier);
// t tag, b baggage, l log (B: form), o operation name, p sampling priority, x publish the context, f finish (E: form),
// on span A of the client.
// cfg: tracers, cerr, slow, slowmax, verbose (bits), sample (per mille), plain (NewTracer)

type otLog struct {
	msg    string
	lo, hi time.Time
	seen   bool
}

type otSpan struct {
	name    string
	tr      *otTracer
	sp      ot.Span
	id      appdash.SpanID
	op      string
	tags    map[string]string
	baggage map[string]string
	logs    []*otLog
	sampled bool
	start   [2]time.Time
	end     [2]time.Time
	fin     *Call
	started Call
	calls   []otCall
}

type otCall struct {
	as  []appdash.Annotation
	was []appdash.Annotation
	err string
}

type otCtx struct {
	ctx     ot.SpanContext
	id      appdash.SpanID
	sampled bool
	baggage map[string]string
}

type otTracer struct {
	c       *eng.C
	n       int
	t       ot.Tracer
	all     bool
	spans   map[appdash.SpanID]*otSpan
	decided map[uint64]bool
	lw      *recLogger
	verbose bool
	p       float64
	slowP   float64
	slow    int64
	nerr    int
	nested  map[string]int // failure -> how often it was collected as a log
	first   []string       // failures of items
	second  []string       // failures to collect a failure
}

func (t *otTracer) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	Keep(as)
	c := t.c
	sp := t.spans[id]
	if sp == nil {
		c.Fail("C17", "foreign", "the collector of tracer %d was given %q on %v, which is no finished span of it", t.n, as, id)
		return nil
	}
	if sp.fin == nil {
		c.Fail("C17", "early", "the collector was given %q of %s before it was finished", as, sp.name)
	}
	if !sp.sampled {
		c.Fail("C17", "unsampled", "the collector was given %q of %s, which is not sampled", as, sp.name)
	}
	k := otCall{as: as, was: append([]appdash.Annotation(nil), as...)}
	idx := len(sp.calls)
	sp.calls = append(sp.calls, k)
	var about string // a collected failure
	if isErrLog(as) {
		for _, a := range as {
			if a.Key == "Msg" {
				about = string(a.Value)
			}
		}
		t.nested[about]++
	}
	if t.slowP > 0 && rt.Chance(rt.KHarness, t.slowP) {
		rt.CountFault(rt.FStoreSlow)
		rt.Sleep(1 + rt.Range(rt.KHarness, t.slow, true))
	} else {
		rt.Yield()
	}
	if t.p > 0 && rt.Chance(rt.KHarness, t.p) {
		t.nerr++
		rt.CountFault(rt.FStoreErr)
		e := fmt.Sprintf("sink-err-%d.%d.", t.n, t.nerr)
		if about != "" {
			t.second = append(t.second, e)
		} else {
			t.first = append(t.first, e)
		}
		sp.calls[idx].err = e
		return errors.New(e)
	}
	return nil
}

func genOT(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	nt := 1 + r.Intn(3)
	p.Cfg["tracers"] = int64(nt)
	p.Cfg["cerr"] = pick(r, int64(0), 0, 50, 300, 700, 1000)
	if p.Cfg["cerr"] == 0 && r.Intn(3) == 0 {
		p.Cfg["plain"] = int64(r.Intn(8))
	}
	p.Cfg["verbose"] = int64(r.Intn(8))
	p.Cfg["sample"] = pick(r, int64(0), 300, 600, 1000, 1000)
	if r.Intn(2) == 0 {
		p.Cfg["slow"] = pick(r, int64(100), 300)
		p.Cfg["slowmax"] = logUniform(r, 50*ms)
	}
	clients := 1 + r.Intn(4)
	max := 10
	if deep {
		max = 20
	}
	for cl := 0; cl < clients; cl++ {
		n := 1 + r.Intn(max)
		for i := 0; i < n; i++ {
			o := eng.Op{K: pick(r, "s", "s", "c", "c", "c", "t", "t", "b", "l", "l", "o", "x", "f", "f", "f"), C: cl, A: int64(r.Intn(4)), B: int64(r.Intn(10)), E: int64(r.Intn(8))}
			if i == 0 {
				o.K = "s"
			}
			if r.Intn(25) == 0 {
				o.K = "p"
			}
			if o.K == "l" && r.Intn(50) == 0 {
				o.D = 0
				o.S = "many"
			}
			if r.Intn(3) == 0 {
				o.D = logUniform(r, 20*ms)
			}
			p.Ops = append(p.Ops, o)
		}
		if r.Intn(4) > 0 {
			for k := 0; k < 4; k++ {
				p.Ops = append(p.Ops, eng.Op{K: "f", C: cl, A: int64(k), E: int64(r.Intn(8))})
			}
		}
	}
	return p
}

// otCarrier is ot.TextMapCarrier or ot.HTTPHeadersCarrier with a fixed order.
type otCarrier struct {
	http bool
	kv   [][2]string
}

func (m *otCarrier) Set(k, v string) {
	if m.http {
		k, v = http.CanonicalHeaderKey(k), url.QueryEscape(v)
	}
	m.kv = append(m.kv, [2]string{k, v})
}

func (m *otCarrier) ForeachKey(f func(k, v string) error) error {
	sort.Slice(m.kv, func(i, j int) bool { return m.kv[i][0] < m.kv[j][0] })
	for _, e := range m.kv {
		v := e[1]
		if m.http {
			v, _ = url.QueryUnescape(v)
		}
		if err := f(e[0], v); err != nil {
			return err
		}
	}
	return nil
}

type otObj struct{ A, B int }

func runOT(c *eng.C) {
	p := c.P
	var trs []*otTracer
	for i := 0; i < int(p.G("tracers")); i++ {
		t := &otTracer{c: c, n: i, spans: map[appdash.SpanID]*otSpan{}, decided: map[uint64]bool{}, lw: &recLogger{}, nested: map[string]int{}}
		t.p, t.slowP, t.slow = float64(p.G("cerr"))/1000, float64(p.G("slow"))/1000, p.G("slowmax")
		t.verbose = p.G("verbose")>>uint(i)&1 == 1
		if p.G("plain")>>uint(i)&1 == 1 {
			t.all = true
			t.t = aot.NewTracer(t)
		} else {
			rate := float64(p.G("sample")) / 1000
			t.t = aot.NewTracerWithOptions(t, aot.Options{
				ShouldSample: func(id uint64) bool {
					d := rt.Chance(rt.KHarness, rate)
					if _, ok := t.decided[id]; ok {
						c.Fail("C17", "decided-twice", "whether trace %x is sampled was decided twice", id)
					}
					t.decided[id] = d
					rt.Yield()
					return d
				},
				Verbose: t.verbose, Logger: log.New(t.lw, "", 0)})
		}
		trs = append(trs, t)
	}
	var ctxs []*otCtx
	own := map[int][]*otSpan{}
	var all []*otSpan
	copyMap := func(m map[string]string) map[string]string {
		n := map[string]string{}
		for k, v := range m {
			n[k] = v
		}
		return n
	}
	publish := func(s *otSpan) {
		ctxs = append(ctxs, &otCtx{s.sp.Context(), s.id, s.sampled, copyMap(s.baggage)})
	}
	start := func(i int, o *eng.Op, from *otCtx) {
		t := trs[int(o.A)%len(trs)]
		s := &otSpan{name: fmt.Sprintf("span %d of client %d", len(own[o.C]), o.C), tr: t, op: fmt.Sprintf("op%d", i), tags: map[string]string{}, baggage: map[string]string{}}
		var opts []ot.StartSpanOption
		if from != nil {
			ctx := from.ctx
			s.baggage = copyMap(from.baggage)
			carry := func(format, carrier any, rewind func() any) {
				if err := trs[int(o.B)%len(trs)].t.Inject(ctx, format, carrier); err != nil {
					c.Fail("C17", "inject", "Inject failed: %v", err)
					return
				}
				x, err := t.t.Extract(format, rewind())
				if err != nil {
					c.Fail("C17", "extract", "Extract failed: %v", err)
					return
				}
				ctx = x
			}
			switch o.E >> 1 & 3 {
			case 1:
				m := &otCarrier{}
				carry(ot.TextMap, m, func() any { return m })
			case 2:
				m := &otCarrier{http: true}
				carry(ot.HTTPHeaders, m, func() any { return m })
			case 3:
				b := &bytes.Buffer{}
				carry(ot.Binary, b, func() any { return b })
			}
			if o.E&1 == 1 {
				opts = append(opts, ot.FollowsFrom(ctx))
			} else {
				opts = append(opts, ot.ChildOf(ctx))
			}
		}
		if o.B&1 == 1 {
			opts = append(opts, ot.Tag{Key: "kind", Value: i})
			s.tags["kind"] = fmt.Sprint(i)
		}
		s.start[0] = rt.Time_Now()
		if o.B&2 == 2 {
			at := time.Unix(1e9+int64(i), int64(i)*1001).UTC()
			opts = append(opts, ot.StartTime(at))
			s.start = [2]time.Time{at, at}
		}
		DoIn(&s.started, func() error { s.sp = t.t.StartSpan(s.op, opts...); return nil })
		if rt.Killed() {
			return
		}
		if o.B&2 == 0 {
			s.start[1] = rt.Time_Now()
		}
		sc := s.sp.Context().(basictracer.SpanContext)
		s.id = appdash.SpanID{Trace: appdash.ID(sc.TraceID), Span: appdash.ID(sc.SpanID)}
		if from != nil {
			s.id.Parent = from.id.Span
			s.sampled = from.sampled
			if s.id.Trace != from.id.Trace {
				c.Fail("C17", "trace", "the child of %v is in trace %v", from.id, s.id.Trace)
			}
		} else {
			if d, ok := t.decided[sc.TraceID]; ok || t.all {
				s.sampled = d || t.all
			} else {
				c.Fail("C17", "undecided", "ShouldSample was not asked about trace %x", sc.TraceID)
			}
		}
		t.spans[s.id] = s
		own[o.C] = append(own[o.C], s)
		all = append(all, s)
		publish(s)
	}
	Clients(c, nil, func(i int, o *eng.Op) {
		tok := fmt.Sprint(i)
		if o.K == "s" {
			start(i, o, nil)
			return
		}
		if o.K == "c" {
			if len(ctxs) > 0 {
				start(i, o, ctxs[int(o.B*7+o.A)%len(ctxs)])
			}
			return
		}
		l := own[o.C]
		if len(l) == 0 {
			return
		}
		s := l[len(l)-1-int(o.A)%len(l)]
		if s.fin != nil {
			return // nothing is promised about a span after it was finished
		}
		switch o.K {
		case "x":
			publish(s)
		case "t":
			key := []string{"kind", "t1", "t2", "Name", "Msg"}[o.B%5]
			var v any = "v" + tok
			switch o.E {
			case 1:
				v = i
			case 2:
				v = otObj{i, 2}
			case 3:
				v = o.B&1 == 0
			case 4:
				v = []string{"x" + tok, "%s"}
			case 5:
				v = errors.New("e" + tok)
			case 6:
				v = nil
			case 7:
				v = float64(i) / 3
			}
			s.sp.SetTag(key, v)
			s.tags[key] = fmt.Sprintf("%+v", v)
		case "b":
			key := []string{"b1", "b2", "kind"}[o.B%3]
			s.sp.SetBaggageItem(key, "bag"+tok)
			s.baggage[key] = "bag" + tok
		case "o":
			s.op = "renamed" + tok + "%s"
			s.sp.SetOperationName(s.op)
		case "p":
			s.sampled = o.B&1 == 0
			ext.SamplingPriority.Set(s.sp, uint16(1-o.B&1))
		case "l":
			n := 1
			if o.S == "many" {
				n = 95 - len(s.logs)
			}
			for k := 0; k < n && len(s.logs) < 97; k++ {
				g := &otLog{lo: rt.Time_Now()}
				tk := fmt.Sprintf("%s-%d", tok, k)
				obj := func(m map[string]string) string { b, _ := json.Marshal(m); return string(b) }
				switch o.B {
				case 0:
					s.sp.LogEvent("ev" + tk)
					g.msg = "ev" + tk
				case 1:
					s.sp.LogKV("event", "<ev>"+tk)
					g.msg = "<ev>" + tk
				case 2:
					s.sp.LogKV("a", i, "b", tk, "event", "e")
					g.msg = obj(map[string]string{"a": fmt.Sprint(i), "b": tk, "event": "e"})
				case 3:
					s.sp.LogFields(otlog.String("k", tk), otlog.Bool("ok", true), otlog.Float64("f", 1.5), otlog.Object("o", otObj{1, i}), otlog.Uint64("u", 1<<63), otlog.Int64("i", -5))
					g.msg = obj(map[string]string{"k": tk, "ok": "true", "f": "1.500000", "o": fmt.Sprintf("%+v", otObj{1, i}), "u": "9223372036854775808", "i": "-5"})
				case 4:
					s.sp.LogFields(otlog.String("k", "overwritten"), otlog.String("k", tk))
					g.msg = obj(map[string]string{"k": tk})
				case 5:
					s.sp.LogFields(otlog.Error(errors.New("err" + tk)))
					// error objects are marshalled under "error" or "error.object", by library version
					m := map[string]string{}
					otlog.Error(errors.New("err" + tk)).Marshal(otEnc(m))
					g.msg = obj(m)
				case 6:
					s.sp.LogFields(otlog.Lazy(func(e otlog.Encoder) { e.EmitString("lazy", tk); e.EmitInt32("x", 3) }))
					g.msg = obj(map[string]string{"lazy": tk, "x": "3"})
				case 7:
					at := time.Unix(2e9, int64(i)).UTC()
					s.sp.Log(ot.LogData{Timestamp: at, Event: "at" + tk})
					g.msg = "at" + tk
					g.lo, g.hi = at, at
				default:
					s.sp.LogKV("msg"+tk, "line1\nline2 <&> \"q\"")
					g.msg = obj(map[string]string{"msg" + tk: "line1\nline2 <&> \"q\""})
				}
				if g.hi.IsZero() {
					g.hi = rt.Time_Now()
				}
				s.logs = append(s.logs, g)
			}
		case "f":
			fo := ot.FinishOptions{}
			s.end[0] = rt.Time_Now()
			if o.E&1 == 1 {
				fo.FinishTime = time.Unix(3e9, int64(i)).UTC()
			}
			if o.E&2 == 2 && len(s.logs) < 97 {
				at := time.Unix(2e9+5, int64(i)).UTC()
				fo.LogRecords = append(fo.LogRecords, ot.LogRecord{Timestamp: at, Fields: []otlog.Field{otlog.String("event", "bulk"+tok)}})
				s.logs = append(s.logs, &otLog{msg: "bulk" + tok, lo: at, hi: at})
			}
			s.fin = &Call{}
			DoIn(s.fin, func() error {
				if o.E == 0 {
					s.sp.Finish()
				} else {
					s.sp.FinishWithOptions(fo)
				}
				return nil
			})
			s.end[1] = rt.Time_Now()
			if o.E&1 == 1 {
				// the end is the start plus the duration
				s.end = [2]time.Time{fo.FinishTime, fo.FinishTime}
			}
		}
	})
	rt.Sleep(200 * ms)
	for _, s := range all {
		otCheck(c, s)
	}
	for _, t := range trs {
		t := t
		for _, e := range t.first {
			n := 0
			var keys []string
			for k := range t.nested {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				if strings.Contains(k, e) {
					n += t.nested[k]
				}
			}
			if n != 1 {
				c.Fail("C17", "failure-unlogged", "the failure %s of the collector was recorded %d times on the span", e, n)
			}
		}
		want := len(t.second)
		if !t.verbose && want > 1 {
			want = 1
		}
		got := 0
		for _, l := range t.lw.lines {
			if strings.Contains(l, "sink-err-") {
				got++
			} else {
				c.Fail("C17", "log-extra", "the logger was given %q", l)
			}
		}
		if got != want {
			c.Fail("C17", "logged", "%d failures to record a failure were logged in %d lines (verbose %v)", len(t.second), got, t.verbose)
		}
		c.Add("failures", int64(len(t.first)+len(t.second)))
	}
	c.Add("ot_spans", int64(len(all)))
}

// otEnc encodes fields as the documentation of the recorder says: every value in its default text form.
type otEnc map[string]string

func (m otEnc) EmitString(k, v string)             { m[k] = v }
func (m otEnc) EmitBool(k string, v bool)          { m[k] = fmt.Sprint(v) }
func (m otEnc) EmitInt(k string, v int)            { m[k] = fmt.Sprint(v) }
func (m otEnc) EmitInt32(k string, v int32)        { m[k] = fmt.Sprint(v) }
func (m otEnc) EmitInt64(k string, v int64)        { m[k] = fmt.Sprint(v) }
func (m otEnc) EmitUint32(k string, v uint32)      { m[k] = fmt.Sprint(v) }
func (m otEnc) EmitUint64(k string, v uint64)      { m[k] = fmt.Sprint(v) }
func (m otEnc) EmitFloat32(k string, v float32)    { m[k] = fmt.Sprintf("%f", v) }
func (m otEnc) EmitFloat64(k string, v float64)    { m[k] = fmt.Sprintf("%f", v) }
func (m otEnc) EmitObject(k string, v interface{}) { m[k] = fmt.Sprintf("%+v", v) }
func (m otEnc) EmitLazyLogger(v otlog.LazyLogger)  { v(m) }

func otCheck(c *eng.C, s *otSpan) {
	if s.fin == nil || !s.sampled {
		return
	}
	if !s.fin.Done {
		c.Fail("C17", "finish-stuck", "Finish of %s did not return", s.name)
		return
	}
	// what is left after the logs and the reports of failures were taken out
	var rest []appdash.Annotation
	for _, k := range s.calls {
		for i := range k.was {
			if k.as[i].Key != k.was[i].Key || string(k.as[i].Value) != string(k.was[i].Value) {
				c.Fail("C17", "changed-later", "what was handed over for %s was changed afterwards", s.name)
			}
		}
		if isErrLog(k.was) {
			continue
		}
		var left []appdash.Annotation
		for _, a := range k.was {
			left = append(left, a)
			n := len(left)
			if a.Key != appdash.SchemaPrefix+"log" || n < 3 {
				continue
			}
			m, t := left[n-3], left[n-2]
			if m.Key == "Time" {
				m, t = t, m
			}
			if m.Key != "Msg" || t.Key != "Time" {
				continue
			}
			at, err := time.Parse(time.RFC3339Nano, string(t.Value))
			var got *otLog
			for _, g := range s.logs {
				if g.msg == string(m.Value) && !g.seen {
					got = g
				}
			}
			switch {
			case got == nil:
				c.Fail("C17", "log-extra", "%s yielded the log %q, which it does not have or had yielded before", s.name, m.Value)
			case err != nil || at.Before(got.lo) || at.After(got.hi):
				c.Fail("C17", "log-time", "the log %q of %s, made between %v and %v, has time %s", m.Value, s.name, got.lo, got.hi, t.Value)
			default:
				got.seen = true
			}
			left = left[:n-3]
		}
		rest = append(rest, left...)
	}
	for _, g := range s.logs {
		if !g.seen {
			c.Fail("C17", "log-lost", "the log %q of %s was not handed over", g.msg, s.name)
		}
	}
	type w struct {
		wantAnn
		what string
	}
	var want []w
	want = append(want, w{wantAnn{key: "Name", val: s.op}, "name"}, w{wantAnn{key: appdash.SchemaPrefix + "name"}, "name"})
	for _, m := range []map[string]string{s.tags, s.baggage} {
		var keys []string
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			want = append(want, w{wantAnn{key: k, val: m[k]}, "tag or baggage item"})
		}
	}
	want = append(want, w{wantAnn{key: "Span.Start", lo: s.start[0], hi: s.start[1]}, "start"}, w{wantAnn{key: "Span.End", lo: s.end[0], hi: s.end[1]}, "end"}, w{wantAnn{key: appdash.SchemaPrefix + "Timespan"}, "timespan"})
	used := make([]bool, len(rest))
	for i := range want {
		ok := false
		for k := range rest {
			if !used[k] && want[i].match(rest[k]) {
				used[k], ok = true, true
				break
			}
		}
		if !ok {
			c.Fail("C17", "item-lost", "the %s %s=%q [%v %v] of %s (%v) is missing from %q", want[i].what, want[i].key, want[i].val, want[i].lo, want[i].hi, s.name, s.id, rest)
		}
	}
	for k := range rest {
		if !used[k] {
			c.Fail("C17", "item-extra", "%s yielded %s=%q, which it does not have or had yielded before", s.name, rest[k].Key, rest[k].Value)
		}
	}
}

func init() {
	sc := &eng.Scenario{Name: "opentracing", Gen: genOT, Run: runOT}
	eng.Register(&eng.PropCfg{ID: "C17", Scen: []eng.Weighted{{S: sc, W: 1}}, Quick: 300000, Deep: 40000000, QuickSec: 40, DeepSec: 600, Level: "exploration",
		Real: []string{"opentracing/*.go", "event.go", "basictracer-go (instrumented)", "opentracing-go"}, Stub: []string{"underlying collectors (slow, failing, keep what they are given)", "ShouldSample (random)", "clock, randomness, mutex and goroutine scheduler (simulated)"}})
}
