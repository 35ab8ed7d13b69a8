//go:build web

package scen

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"sourcegraph.com/sourcegraph/appdash/traceapp"

	"vsim/eng"
	"vsim/rt"
)

// The views scenario looks at profiles, timelines, the aggregate view and the dashboard of the web UI while the traces
// they are computed from are being collected.
//
// ops: c collect part B of trace A (parts are numbered over the spans: 2*span+{0,1}); v look (E modulo 8: 0 profile, 1 profile
// of span B, 2 timeline, 3 timeline of span B, 4 aggregate of a selection, 5 aggregate, 6 dashboard; the rest of E: a seed)
// cfg: whole: the traces below this number are collected before anybody looks

type vEvent struct {
	e        appdash.Event
	from, to time.Time
}

func (e vEvent) ms() int64 { // as shown in profiles
	d := e.to.Sub(e.from)
	if d < 0 {
		return 0
	}
	return int64((d + 500*time.Microsecond) / time.Millisecond)
}

func (e vEvent) zero() bool { return e.from.IsZero() || e.to.IsZero() }

type vPart struct {
	named  bool
	events []vEvent
	anns   []appdash.Annotation
	k      *Call // its collection
}

type vSpan struct {
	id    appdash.SpanID
	name  string
	up    int
	subs  []int
	parts [2]*vPart
}

type vTrace struct {
	id    appdash.ID
	spans []*vSpan
}

type vWorld struct {
	c   *eng.C
	p   *eng.Plan
	ts  []*vTrace
	mem *appdash.MemoryStore

	errs []uint64 // when queries failed
	calm bool
}

func genViews(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	nt := 1 + r.Intn(5)
	p.Cfg["traces"] = int64(nt)
	p.Cfg["whole"] = int64(r.Intn(nt + 1))
	p.Cfg["seed"] = int64(r.U64() >> 1)
	p.Cfg["spans"] = pick(r, 1, 2, 2, 3, 3, 5, 8, int64(16))
	if r.Intn(30) == 0 { // deep
		nt = 1 + r.Intn(2)
		p.Cfg["traces"], p.Cfg["whole"] = int64(nt), int64(r.Intn(nt+1))
		p.Cfg["spans"], p.Cfg["chain"] = 90, 1
	}
	p.Cfg["slow"] = int64(r.Intn(2))
	p.Cfg["reload"] = int64(b2i(r.Intn(4) == 0))
	clients := 1 + r.Intn(4)
	w := &vWorld{p: p}
	w.make()
	var colls []eng.Op
	for i, t := range w.ts {
		var l []eng.Op
		for s, sp := range t.spans {
			for k, x := range sp.parts {
				if x != nil {
					l = append(l, eng.Op{K: "c", A: int64(i), B: int64(2*s + k), C: r.Intn(clients)})
				}
			}
		}
		if r.Intn(3) > 0 {
			shuffle(r, len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
		}
		if int64(i) < p.Cfg["whole"] {
			for j := range l {
				l[j].C = -1
			}
			p.Ops = append(p.Ops, l...)
		} else {
			colls = append(colls, l...)
		}
	}
	if r.Intn(2) == 0 {
		shuffle(r, len(colls), func(a, b int) { colls[a], colls[b] = colls[b], colls[a] })
	}
	looks := 1 + r.Intn(6)
	one := int64(-1)
	if r.Intn(3) == 0 {
		one = int64(r.Intn(7))
	}
	var ops []eng.Op
	for i := 0; i < looks; i++ {
		o := eng.Op{K: "v", C: r.Intn(clients), A: int64(r.Intn(nt)), E: int64(r.Intn(7)) + int64(r.U64()>>8)<<3}
		if one >= 0 {
			o.E = one + o.E&^7
		}
		o.B = int64(r.Intn(len(w.ts[o.A].spans)))
		ops = append(ops, o)
	}
	// merge the two, each in order
	for len(colls)+len(ops) > 0 {
		if r.Intn(len(colls)+len(ops)) < len(colls) {
			p.Ops, colls = append(p.Ops, colls[0]), colls[1:]
		} else {
			p.Ops, ops = append(p.Ops, ops[0]), ops[1:]
		}
		if r.Intn(4) == 0 {
			p.Ops[len(p.Ops)-1].D = logUniform(r, 5*ms)
		}
	}
	if r.Intn(5) == 0 {
		p.Cfg["fails"] = pick(r, int64(10), 40)
	}
	p.Net.DelayMax = pick(r, 0, us, ms)
	p.Net.Frag = pick(r, 0, 0.1)
	return p
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// make makes the traces, all from the seed.
func (w *vWorld) make() {
	g := rt.NewRand(uint64(w.p.G("seed")))
	r := &g
	base := time.Unix(1400000000, 0).UTC()
	for i := 0; i < int(w.p.G("traces")); i++ {
		t := &vTrace{id: appdash.ID(0x100 + i)}
		chain := w.p.G("chain") == 1
		for s, n := 0, 1+r.Intn(int(w.p.G("spans"))); s < n; s++ {
			sp := &vSpan{id: appdash.SpanID{Trace: t.id, Span: appdash.ID(0x1000*(i+1) + s)}, up: -1}
			if s > 0 {
				sp.up = pick(r, 0, s-1, r.Intn(s))
				if w.p.G("chain") == 1 && r.Intn(30) > 0 {
					sp.up = s - 1
				}
				sp.id.Parent = t.spans[sp.up].id.Span
				t.spans[sp.up].subs = append(t.spans[sp.up].subs, s)
			}
			if r.Intn(8) > 0 || chain && r.Intn(20) > 0 {
				sp.name = pick(r, "alpha", "beta", "a<b>&\"c'", "née", "alpha: beta", fmt.Sprintf("n%d", r.Intn(3)))
			}
			kinds := []int{0, 1, 2, 3}
			shuffle(r, 4, func(a, b int) { kinds[a], kinds[b] = kinds[b], kinds[a] })
			two := r.Intn(3) == 0
			sp.parts[0] = &vPart{}
			if two {
				sp.parts[1] = &vPart{}
			}
			at := func() *vPart {
				if two && r.Intn(2) == 0 {
					return sp.parts[1]
				}
				return sp.parts[0]
			}
			if sp.name != "" {
				x := at()
				x.named = true
				as, _ := appdash.MarshalEvent(appdash.SpanName(sp.name))
				x.anns = append(x.anns, as...)
			}
			near := r.Intn(2) == 0 // the events overlap, enclose and meet each other
			at0 := base.Add(time.Duration(r.Intn(3600e6)) * time.Microsecond)
			ne := pick(r, 0, 1, 1, 1, 2, 3)
			if chain && ne == 0 && r.Intn(10) > 0 {
				ne = 1
			}
			for _, k := range kinds[:ne] {
				e := vEvent{from: base.Add(time.Duration(r.Intn(3600e6)) * time.Microsecond)}
				e.to = e.from.Add(time.Duration(logUniform(r, 100e6)) * time.Microsecond)
				if near {
					e.from = at0.Add(time.Duration(r.Intn(8)) * time.Millisecond)
					e.to = e.from.Add(time.Duration(r.Intn(12)) * time.Millisecond)
				}
				odd := r.Intn(12)
				if chain && odd == 3 {
					odd = r.Intn(100)
				}
				switch odd {
				case 0:
					e.to = e.from
				case 1:
					e.to = e.from.Add(-time.Millisecond * time.Duration(r.Intn(100)))
				case 2:
					e.to = e.from.Add(time.Duration(pick(r, 499, 500, 501, 1500, 2500, 999)) * time.Microsecond)
				case 3:
					e.to = time.Time{}
				}
				switch k {
				case 0:
					e.e = appdash.Timespan{S: e.from, E: e.to}
				case 1:
					e.e = sqltrace.SQLEvent{SQL: "q", Tag: "t", ClientSend: e.from, ClientRecv: e.to}
				case 2:
					e.e = httptrace.ServerEvent{Route: "x", ServerRecv: e.from, ServerSend: e.to}
				case 3:
					e.e = httptrace.ClientEvent{ClientSend: e.from, ClientRecv: e.to}
				}
				as, _ := appdash.MarshalEvent(e.e)
				x := at()
				x.anns = append(x.anns, as...)
				x.events = append(x.events, e)
			}
			t.spans = append(t.spans, sp)
		}
		w.ts = append(w.ts, t)
	}
}

// vState is what may be known of a trace within the interval of a call: the parts that are certainly collected, and
// those that may be.
type vState struct {
	must, may map[*vPart]bool
	whole     bool
}

func (w *vWorld) state(t *vTrace, k *Call) vState {
	s := vState{map[*vPart]bool{}, map[*vPart]bool{}, true}
	for _, sp := range t.spans {
		for _, x := range sp.parts {
			if x == nil {
				continue
			}
			m := x.k != nil && x.k.Done && x.k.Ret < k.Inv
			s.must[x], s.may[x] = m, x.k != nil && x.k.Inv < k.Ret
			s.whole = s.whole && m
		}
	}
	return s
}

// seen: 0 the span is not there, 1 it may be, 2 it is.
func (s vState) seen(sp *vSpan) int {
	n := 0
	for _, x := range sp.parts {
		if x != nil && s.must[x] {
			return 2
		} else if x != nil && s.may[x] {
			n = 1
		}
	}
	return n
}

func (s vState) any(t *vTrace) (n int) {
	for _, sp := range t.spans {
		n = max(n, s.seen(sp))
	}
	return
}

// nameOK tells whether a view may show the span with this name.
func (s vState) nameOK(sp *vSpan, name, unnamed string) bool {
	for _, x := range sp.parts {
		if x != nil && x.named {
			return s.may[x] && name == sp.name || !s.must[x] && name == unnamed
		}
	}
	return name == unnamed
}

func (s vState) timeOK(sp *vSpan, ms int64) bool {
	low := int64(0)
	for _, x := range sp.parts {
		if x == nil || !s.must[x] {
			continue
		}
		for _, e := range x.events {
			low = max(low, e.ms())
		}
	}
	if ms == low {
		return true
	}
	for _, x := range sp.parts {
		if x == nil || !s.may[x] || s.must[x] {
			continue
		}
		m := low
		for _, e := range x.events {
			m = max(m, e.ms())
		}
		if m == ms {
			return true
		}
	}
	// both parts may be new
	m := low
	for _, x := range sp.parts {
		if x != nil && s.may[x] {
			for _, e := range x.events {
				m = max(m, e.ms())
			}
		}
	}
	return m == ms
}

func (sp *vSpan) ms() (m int64) {
	for _, x := range sp.parts {
		if x != nil {
			for _, e := range x.events {
				m = max(m, e.ms())
			}
		}
	}
	return
}

func (sp *vSpan) label() string {
	if sp.name != "" {
		return sp.name
	}
	return fmt.Sprintf("%016x", uint64(sp.id.Span))
}

func (t *vTrace) cum(s int) int64 {
	n := t.spans[s].ms()
	for _, x := range t.spans[s].subs {
		n += t.cum(x)
	}
	return n
}

// below lists a span and its descendants with their depths.
func (t *vTrace) below(s, depth int, f func(s, depth int)) {
	f(s, depth)
	for _, x := range t.spans[s].subs {
		t.below(x, depth+1, f)
	}
}

func (t *vTrace) link(s int) string {
	if s == 0 {
		return fmt.Sprintf("/traces/%016x", uint64(t.id))
	}
	return fmt.Sprintf("/traces/%016x/%016x", uint64(t.id), uint64(t.spans[s].id.Span))
}

type vSlow struct {
	*appdash.MemoryStore
	on bool
	w  *vWorld
}

// fails lets a query fail.
func (s vSlow) fails() error {
	if p := s.w.p.G("fails"); p > 0 && !s.w.calm && rt.Chance(rt.KHarness, float64(p)/100) {
		rt.CountFault(rt.FStoreErr)
		s.w.errs = append(s.w.errs, rt.Seq())
		return errors.New("simulated store error")
	}
	return nil
}

// excused tells whether a request that got another status than 200 met a store error.
func (w *vWorld) excused(k *Call, status int) bool {
	if status < 500 {
		return false
	}
	for _, e := range w.errs {
		if e > k.Inv && e < k.Ret {
			return true
		}
	}
	return false
}

func (s vSlow) slow() {
	if s.on && rt.Chance(rt.KHarness, 0.3) {
		rt.Sleep(rt.Range(rt.KHarness, 20*ms, true))
	}
}

func (s vSlow) Trace(id appdash.ID) (*appdash.Trace, error) {
	s.slow()
	if err := s.fails(); err != nil {
		return nil, err
	}
	t, err := s.MemoryStore.Trace(id)
	s.slow()
	return t, err
}

func (s vSlow) Traces(o appdash.TracesOpts) ([]*appdash.Trace, error) {
	s.slow()
	if err := s.fails(); err != nil {
		return nil, err
	}
	t, err := s.MemoryStore.Traces(o)
	s.slow()
	return t, err
}

// Aggregate answers with results that depend on the question only.
func (s vSlow) Aggregate(start, end time.Duration) ([]*appdash.AggregatedResult, error) {
	s.slow()
	return vAggregated(start, end), s.fails()
}

func vAggregated(start, end time.Duration) (l []*appdash.AggregatedResult) {
	g := rt.NewRand(uint64(start)*31 + uint64(end))
	r := &g
	for n := r.Intn(5); n > 0; n-- {
		d := func() time.Duration { return time.Duration(r.Intn(1e6)) * time.Millisecond }
		x := &appdash.AggregatedResult{RootSpanName: fmt.Sprintf("%v %v %d", start, end, n), Average: d(), Min: d(), Max: d(), StdDev: d(), Samples: int64(r.Intn(1000))}
		for k := r.Intn(4); k > 0; k-- {
			x.Slowest = append(x.Slowest, appdash.ID(r.U64()))
		}
		l = append(l, x)
	}
	return
}

type vRow struct {
	Name, URL                   string
	Time, TimeChildren, TimeCum int64
}

type vItem struct {
	Label, FullLabel string
	Times            []struct {
		Label    string
		Start    int64 `json:"starting_time"`
		End      int64 `json:"ending_time"`
		Duration int64
	}
	Data         map[string]string `json:"rawData"`
	SpanID       string
	ParentSpanID string
	URL          string
	Visible      bool
}

var reData = regexp.MustCompile(`(?m)^\s*var data = (.*);\s*$`)
var reShown = regexp.MustCompile(`var showTimelineChart =\s*true\s*;`)

func (w *vWorld) get(path string) (status int, body string, k *Call) {
	r, err := http.NewRequest("GET", "http://ui:7700"+path, nil)
	if err != nil {
		panic(err)
	}
	k = &Call{}
	DoIn(k, func() error {
		resp, err := (&rt.HTTPTransport{}).RoundTrip(r)
		if err != nil {
			return err
		}
		status = resp.StatusCode
		b, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		body = string(b)
		return err
	})
	if rt.Killed() {
		return
	}
	if k.Err != nil {
		w.c.Fail("C26", "no-answer", "%s: %v", path, k.Err)
	}
	return
}

func (w *vWorld) look(o *eng.Op) {
	t := w.ts[o.A]
	switch o.E & 7 {
	case 0, 1:
		s := -1
		path := t.link(0) + "/profile"
		if o.E&7 == 1 {
			s = int(o.B)
			path = fmt.Sprintf("/traces/%016x/%016x/profile", uint64(t.id), uint64(t.spans[s].id.Span))
		}
		w.profile(t, s, path)
	case 2, 3:
		s := -1
		path := t.link(0)
		if o.E&7 == 3 {
			s = int(o.B)
			path = fmt.Sprintf("/traces/%016x/%016x", uint64(t.id), uint64(t.spans[s].id.Span))
		}
		w.timeline(t, s, path)
	case 4, 5:
		w.aggregate(o)
	case 6:
		w.dashboard(o)
	}
}

// served tells whether a page about trace t (span s if >= 0) was answered with content, and judges if it had to be.
func (w *vWorld) served(t *vTrace, s int, path string, status int, body string, k *Call, st vState) bool {
	n := st.any(t)
	if s >= 0 {
		n = st.seen(t.spans[s])
	}
	if status == 200 && n == 0 {
		w.c.Fail("C26", "phantom", "%s is answered although nothing of it was collected", path)
		return false
	}
	if status != 200 && n == 2 && !w.excused(k, status) {
		w.c.Fail("C26", "not-served", "%s: status %d: %s", path, status, short(body, 300))
		return false
	}
	return status == 200
}

func (w *vWorld) profile(t *vTrace, s int, path string) {
	c := w.c
	status, body, k := w.get(path)
	if rt.Killed() || c.Failed() {
		return
	}
	st := w.state(t, k)
	if !w.served(t, s, path, status, body, k, st) {
		return
	}
	var rows []vRow
	if err := json.Unmarshal([]byte(body), &rows); err != nil || len(rows) == 0 {
		c.Fail("C26", "profile", "%s: %v: %s", path, err, short(body, 300))
		return
	}
	at := map[string]int{}
	for i := range t.spans {
		at[t.link(i)] = i
	}
	var sum int64
	row := map[int]vRow{}
	for _, x := range rows {
		u, err := url.Parse(x.URL)
		i, ok := -1, false
		if err == nil {
			i, ok = at[u.Path]
		}
		if !ok {
			c.Fail("C26", "profile", "%s has a row %+v that is no span of the trace", path, x)
			return
		}
		if _, ok := row[i]; ok {
			c.Fail("C26", "twice", "%s has two rows of span %v", path, t.spans[i].id)
			return
		}
		row[i] = x
		sum += x.Time
		sp := t.spans[i]
		if st.seen(sp) == 0 {
			c.Fail("C26", "phantom", "%s has a row %+v of a span that was not collected", path, x)
			return
		}
		if !st.nameOK(sp, x.Name, fmt.Sprintf("%016x", uint64(sp.id.Span))) {
			c.Fail("C26", "name", "%s: the row of span %v, called %q, is called %q", path, sp.id, sp.name, x.Name)
			return
		}
		if !st.timeOK(sp, x.Time) {
			c.Fail("C26", "time", "%s: the row of span %v, which took %d ms, says %d", path, sp.id, sp.ms(), x.Time)
			return
		}
	}
	if rows[0].TimeCum != sum {
		c.Fail("C26", "sum", "%s: the times of the rows add up to %d, the cumulative time is %d", path, sum, rows[0].TimeCum)
		return
	}
	top := max(s, 0)
	if st.whole {
		n := 0
		t.below(top, 0, func(i, _ int) {
			n++
			x, ok := row[i]
			if !ok {
				c.Fail("C26", "missing", "%s has no row of span %v", path, t.spans[i].id)
				return
			}
			kids := x.Time
			for _, j := range t.spans[i].subs {
				kids += t.spans[j].ms()
			}
			if x.TimeChildren != kids || x.TimeCum != t.cum(i) {
				c.Fail("C26", "sum", "%s: the row %+v of span %v, whose time with its children is %d and with all descendants %d", path, x, t.spans[i].id, kids, t.cum(i))
			}
		})
		if n != len(rows) && !c.Failed() {
			c.Fail("C26", "profile", "%s has %d rows for %d spans", path, len(rows), n)
		}
		if rows[0] != row[top] && !c.Failed() {
			c.Fail("C26", "profile", "%s begins with %+v", path, rows[0])
		}
		c.Add("whole profiles", 1)
		return
	}
	if s < 0 {
		for i, sp := range t.spans {
			if _, ok := row[i]; !ok && st.seen(sp) == 2 {
				c.Fail("C26", "missing", "%s has no row of span %v", path, sp.id)
				return
			}
		}
	} else if _, ok := row[s]; !ok || rows[0] != row[s] {
		c.Fail("C26", "profile", "%s begins with %+v", path, rows[0])
	}
	c.Add("growing profiles", 1)
}

func (w *vWorld) timeline(t *vTrace, s int, path string) {
	c := w.c
	status, body, k := w.get(path)
	if rt.Killed() || c.Failed() {
		return
	}
	st := w.state(t, k)
	if !w.served(t, s, path, status, body, k, st) {
		return
	}
	m := reData.FindStringSubmatch(body)
	var items []vItem
	if m == nil {
		c.Fail("C26", "timeline", "%s has no timeline: %s", path, short(body, 300))
		return
	}
	if err := json.Unmarshal([]byte(m[1]), &items); err != nil {
		c.Fail("C26", "timeline", "%s: %v: %s", path, err, short(m[1], 300))
		return
	}
	shown := reShown.MatchString(body)
	at := map[string]int{}
	for i, sp := range t.spans {
		at[fmt.Sprintf("%016x", uint64(sp.id.Span))] = i
	}
	item := map[int]vItem{}
	for _, x := range items {
		i, ok := at[x.SpanID]
		if !ok || st.seen(t.spans[i]) == 0 {
			c.Fail("C26", "phantom", "%s shows a span %s", path, x.SpanID)
			return
		}
		if _, ok := item[i]; ok {
			c.Fail("C26", "twice", "%s shows the span %s twice", path, x.SpanID)
			return
		}
		item[i] = x
		sp := t.spans[i]
		if len(x.Times) == 0 {
			c.Fail("C26", "timeline", "%s shows the span %s without a time, which no chart can be drawn of", path, x.SpanID)
			return
		}
		if !st.nameOK(sp, x.Label, "") || x.FullLabel != x.Label {
			c.Fail("C26", "name", "%s: the span %s, called %q, is labelled %q, %q", path, x.SpanID, sp.name, x.Label, x.FullLabel)
			return
		}
		up := ""
		if sp.up >= 0 {
			up = fmt.Sprintf("%016x", uint64(sp.id.Parent))
		}
		u, err := url.Parse(x.URL)
		if x.ParentSpanID != up || err != nil || u.Path != t.link(i) {
			c.Fail("C26", "timeline", "%s: the span %v has the parent %q and the address %q", path, sp.id, x.ParentSpanID, x.URL)
			return
		}
	}
	if !st.whole {
		c.Add("growing timelines", 1)
		return
	}
	named := true
	top := max(s, 0)
	var drawn func(i, depth int)
	drawn = func(i, depth int) {
		sp := t.spans[i]
		type span struct{ a, b int64 }
		var l []span
		data := map[string]string{}
		for _, x := range sp.parts {
			if x == nil {
				continue
			}
			for _, a := range x.anns {
				data[a.Key] = string(a.Value)
			}
			for _, e := range x.events {
				if !e.zero() {
					l = append(l, span{e.from.UnixNano() / 1e6, e.to.UnixNano() / 1e6})
				}
			}
		}
		if len(l) == 0 {
			return // and what is below is not shown, or is
		}
		if sp.up >= 0 {
			for _, x := range l {
				l[0].a, l[0].b = min(l[0].a, x.a), max(l[0].b, x.b)
			}
			l = l[:1]
		}
		x, ok := item[i]
		if !ok {
			c.Fail("C26", "missing", "%s does not show the span %v", path, sp.id)
			return
		}
		if fmt.Sprint(x.Data) != fmt.Sprint(data) { // fmt sorts
			c.Fail("C26", "data", "%s shows the span %v with %s instead of %s", path, sp.id, short(fmt.Sprint(x.Data), 800), short(fmt.Sprint(data), 800))
			return
		}
		if x.Visible != (depth <= 1) {
			c.Fail("C26", "timeline", "%s: the span %v at depth %d is visible: %v", path, sp.id, depth, x.Visible)
			return
		}
		var got []span
		for _, y := range x.Times {
			got = append(got, span{y.Start, y.End})
			if d := y.End - y.Start; d > 0 && (y.Duration != d*1e6 || y.Label != fmt.Sprintf("%s (%v)", sp.name, time.Duration(d*1e6))) {
				c.Fail("C26", "duration", "%s: the span %v has a bar of %d ms with duration %d, labelled %q", path, sp.id, d, y.Duration, y.Label)
				return
			}
		}
		for _, z := range [][]span{l, got} {
			sort.Slice(z, func(i, j int) bool { return z[i].a < z[j].a || z[i].a == z[j].a && z[i].b < z[j].b })
		}
		if fmt.Sprint(got) != fmt.Sprint(l) {
			c.Fail("C26", "time", "%s shows the span %v from, to %v instead of %v", path, sp.id, got, l)
			return
		}
		for _, j := range sp.subs {
			drawn(j, depth+1)
		}
	}
	t.below(top, 0, func(i, _ int) { named = named && t.spans[i].name != "" })
	if !named {
		return // spans without a name: the chart is not drawn
	}
	if !shown {
		c.Fail("C26", "timeline", "%s does not show the timeline although all spans have names", path)
		return
	}
	drawn(top, 0)
	for i := range item {
		in := false
		t.below(top, 0, func(j, _ int) { in = in || i == j })
		if !in {
			c.Fail("C26", "alien", "%s shows spans which are not below it", path)
			return
		}
	}
	c.Add("whole timelines", 1)
}

// aggregate judges the aggregate view of whole traces exactly, of others from below.
func (w *vWorld) aggregate(o *eng.Op) {
	c := w.c
	g := rt.NewRand(uint64(o.E >> 3))
	mode := pick(&g, "", "trace-only", "span-only", "trace-and-span")
	q := url.Values{}
	if mode != "" {
		q.Set("view-mode", mode)
	}
	var sel []*vTrace
	if o.E&7 == 4 {
		var ids []string
		for _, t := range w.ts {
			if g.Intn(2) == 0 {
				sel = append(sel, t)
				ids = append(ids, fmt.Sprintf("%016x", uint64(t.id)))
			}
		}
		if len(ids) > 0 {
			q.Set("selection", strings.Join(ids, ","))
		}
	}
	all := len(sel) == 0
	if all {
		sel = w.ts
	}
	path := "/aggregate?" + q.Encode()
	status, body, k := w.get(path)
	if rt.Killed() || c.Failed() {
		return
	}
	if w.excused(k, status) {
		return
	}
	m := reData.FindStringSubmatch(body)
	var items []struct {
		Label string
		Value int64
	}
	if status != 200 || m == nil {
		c.Fail("C26", "not-served", "%s: status %d: %s", path, status, short(body, 300))
		return
	}
	if err := json.Unmarshal([]byte(m[1]), &items); err != nil {
		c.Fail("C26", "aggregate", "%s: %v: %s", path, err, short(m[1], 300))
		return
	}
	got := map[string]int64{}
	for _, x := range items {
		if _, ok := got[x.Label]; ok {
			c.Fail("C26", "twice", "%s has the item %q twice", path, x.Label)
			return
		}
		got[x.Label] = x.Value
	}
	want := map[string]int64{}
	var labels []string
	up := func(l string, v int64) {
		if _, ok := want[l]; !ok {
			labels = append(labels, l)
		}
		want[l] += v
	}
	exact := true
	for _, t := range sel {
		st := w.state(t, k)
		if !st.whole {
			exact = exact && st.any(t) == 0
			continue
		}
		root := t.spans[0].label()
		if mode == "" || mode == "trace-only" {
			up(root, t.cum(0))
			continue
		}
		for _, sp := range t.spans[1:] {
			if mode == "span-only" {
				up(sp.label(), sp.ms())
			} else {
				up(root+": "+sp.label(), sp.ms())
			}
		}
	}
	sort.Strings(labels)
	for _, l := range labels {
		v, ok := got[l]
		x := max(1, want[l])
		if !ok {
			c.Fail("C26", "missing", "%s has no item %q", path, l)
			return
		}
		if v < x || exact && v != x {
			c.Fail("C26", "sum", "%s says %d for %q, which took %d", path, v, l, want[l])
			return
		}
	}
	if exact && len(got) != len(want) {
		c.Fail("C26", "alien", "%s has the items %v, not just %v", path, got, labels)
		return
	}
	if exact {
		c.Add("exact aggregates", 1)
	}
}

func (w *vWorld) dashboard(o *eng.Op) {
	c := w.c
	g := rt.NewRand(uint64(o.E >> 3))
	a, b := g.Intn(73), g.Intn(73)
	path := fmt.Sprintf("/dashboard/data?start=%d&end=%d", a, b)
	if g.Intn(8) == 0 {
		a, b, path = 72, 72, "/dashboard/data" // no times given
	}
	if g.Intn(8) == 0 {
		if status, body, k := w.get("/dashboard"); !rt.Killed() && !c.Failed() && !w.excused(k, status) && (status != 200 || !strings.Contains(body, "data-url=\"/dashboard/data\"")) {
			c.Fail("C26", "not-served", "/dashboard: status %d: %s", status, short(body, 300))
			return
		}
	}
	status, body, k := w.get(path)
	if rt.Killed() || c.Failed() || w.excused(k, status) {
		return
	}
	var rows []struct {
		Name                      string
		Average, Min, Max, StdDev int64
		Timespans                 int64
		URL                       string
	}
	if err := json.Unmarshal([]byte(body), &rows); status != 200 || err != nil {
		c.Fail("C26", "not-served", "%s: status %d, %v: %s", path, status, err, short(body, 300))
		return
	}
	l := vAggregated(time.Duration(a-72)*time.Hour, time.Duration(b-72)*time.Hour)
	if len(l) != len(rows) {
		c.Fail("C26", "dashboard", "%s has %d rows for %d results", path, len(rows), len(l))
		return
	}
	for i, x := range l {
		r := rows[i]
		var ids []string
		for _, id := range x.Slowest {
			ids = append(ids, fmt.Sprintf("%016x", uint64(id)))
		}
		u, err := url.Parse(r.URL)
		if err != nil || r.Name != x.RootSpanName || r.Average != int64(x.Average/1e6) || r.Min != int64(x.Min/1e6) || r.Max != int64(x.Max/1e6) || r.StdDev != int64(x.StdDev/1e6) || r.Timespans != x.Samples ||
			u.Path != "/traces" || u.Query().Get("show") != strings.Join(ids, ",") {
			c.Fail("C26", "dashboard", "%s: the row %+v of the result %+v", path, r, *x)
			return
		}
	}
	c.Add("dashboards", 1)
}

func runViews(c *eng.C) {
	w := &vWorld{c: c, p: c.P, mem: appdash.NewMemoryStore()}
	p := c.P
	w.make()
	log.SetFlags(0)
	log.SetOutput(nullWriter{})
	traceapp.ReloadTemplates = p.G("reload") == 1
	store := vSlow{w.mem, p.G("slow") == 1, w}
	collect := func(o *eng.Op) {
		sp := w.ts[o.A].spans[o.B/2]
		x := sp.parts[o.B%2]
		x.k = &Call{Inv: rt.Seq()}
		DoIn(x.k, func() error { return store.Collect(sp.id, append([]appdash.Annotation(nil), x.anns...)...) })
	}
	node := rt.NewNode("ui", rt.NewHost("ui"))
	t := rt.GoOn(node, "serve", func() {
		for i := range p.Ops {
			if o := &p.Ops[i]; o.K == "c" && o.C < 0 {
				collect(o)
			}
		}
		app, err := traceapp.New(nil, &url.URL{Scheme: "http", Host: "ui:7700"})
		if err != nil {
			panic(err)
		}
		app.Log = log.New(nullWriter{}, "", 0)
		app.Store, app.Queryer, app.Aggregator = store, store, store
		l, err := rt.Net_Listen("tcp", ":7700")
		if err != nil {
			panic(err)
		}
		rt.GoOn(node, "http", func() { rt.Http_Serve(l, app) })
	})
	rt.Join(t, 0)
	Clients(c, nil, func(i int, o *eng.Op) {
		if c.Failed() {
			return
		}
		switch o.K {
		case "c":
			if o.C < 0 {
				return
			}
			on(node, "collect", func() { collect(o) })
		case "v":
			w.look(o)
		}
	})
	if c.Failed() || rt.Killed() {
		return
	}
	rt.Calm(true)
	w.calm = true
	for i, t := range w.ts {
		for e := int64(0); e < 5 && !c.Failed(); e++ {
			if (e+p.G("seed"))%int64(2*len(w.ts)) != int64(i) {
				continue // a few of them
			}
			w.look(&eng.Op{A: int64(i), B: int64(len(t.spans) - 1), E: e + (int64(i)+p.G("seed")&0xffffff)<<3})
		}
	}
	for _, t := range w.ts {
		if c.Failed() {
			return
		}
		x, err := w.mem.Trace(t.id)
		if err != nil {
			continue
		}
		var check func(x *appdash.Trace)
		check = func(x *appdash.Trace) {
			for _, sp := range t.spans {
				if sp.id != x.ID {
					continue
				}
				n := 0
				for _, y := range sp.parts {
					if y != nil && y.k != nil {
						n += len(y.anns)
					}
				}
				if n != len(x.Annotations) {
					c.Fail("C26", "changed", "looking at it changed the span %v: %d annotations, not %d", sp.id, len(x.Annotations), n)
				}
			}
			for _, y := range x.Sub {
				check(y)
			}
		}
		check(x)
	}
}

func init() {
	sc := &eng.Scenario{Name: "views", Gen: genViews, Run: runViews}
	eng.Register(&eng.PropCfg{ID: "C26", Scen: []eng.Weighted{{S: sc, W: 1}}, Quick: 60000, Deep: 8000000, QuickSec: 75, DeepSec: 600, Level: "exploration",
		Real: []string{"traceapp (App, router, handlers, templates, profile, timeline, aggregate, dashboard)", "store.go MemoryStore", "event.go, reflect.go", "gorilla/mux, html/template, encoding/json"},
		Stub: []string{"the connection handling of net/http (a small server and client)", "TCP (simulated connections)", "the Aggregator behind the dashboard", "the static files (appdash-data is empty)", "clock, mutex and goroutine scheduler (simulated)"}})
}
