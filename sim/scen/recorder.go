package scen

import (
	"fmt"
	"io"
	"log"
	"sort"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"

	"vsim/eng"
	"vsim/rt"
)

// The recorder scenario drives recorders that share a slow and failing collector. Each recorder belongs to one task;
// other tasks read its errors.
//
// ops: n Name, m Msg, l Log, t LogWithTimestamp, e a custom event, p an event by pointer that is changed afterwards,
// f an event that fails to marshal, a raw annotations, F Finish, c Child, E Errors (C is an observer if >= 10).
// A picks one of the client's recorders (B the client, for observers).
// cfg: logger (bit per recorder index), cerr (per mille), slow, slowmax

type recEvent struct {
	Tok  string
	List []string
	N    int
}

func (recEvent) Schema() string { return "simrec" }

type recFail struct{ err error }

func (recFail) Schema() string { return "simfail" }
func (f recFail) MarshalEvent() (appdash.Annotations, error) {
	return appdash.Annotations{{Key: "partial", Value: []byte("partial")}}, f.err
}

type recMarsh struct{ tok string }

func (recMarsh) Schema() string { return "simmarsh" }
func (f recMarsh) MarshalEvent() (appdash.Annotations, error) {
	return appdash.Annotations{Ann(f.tok), Ann(f.tok + "b")}, nil
}

// wantAnn is an expected annotation; a value nil with lo set is a time.
type wantAnn struct {
	key, val string
	lo, hi   time.Time
	group    int // annotations of one event come in any order
}

func (w *wantAnn) String() string { return fmt.Sprintf("%s=%q", w.key, w.val) }

func (w *wantAnn) match(a appdash.Annotation) bool {
	if a.Key != w.key {
		return false
	}
	if w.lo.IsZero() {
		return string(a.Value) == w.val
	}
	t, err := time.Parse(time.RFC3339Nano, string(a.Value))
	return err == nil && !t.Before(w.lo) && !t.After(w.hi)
}

func matchAll(w []wantAnn, as []appdash.Annotation) bool {
	if len(w) != len(as) {
		return false
	}
	used := make([]bool, len(w))
	for i := 0; i < len(as); i++ {
		ok := false
		for k := range w {
			if w[k].group == w[i].group && !used[k] && w[k].match(as[i]) {
				used[k], ok = true, true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func wants(group int, as appdash.Annotations, err error) []wantAnn {
	var l []wantAnn
	for _, a := range as {
		l = append(l, wantAnn{key: a.Key, val: string(a.Value), group: group})
	}
	return l
}

func anns(group int, e appdash.Event) []wantAnn {
	as, err := appdash.MarshalEvent(e)
	return wants(group, as, err)
}

func rawWants(as []appdash.Annotation) []wantAnn {
	l := wants(0, as, nil)
	for i := range l {
		l[i].group = i // the caller's order
	}
	return l
}

// recFailure is something that must be reported exactly once.
type recFailure struct {
	tok      string // "" for a repeated Finish
	what     string
	optional bool // the failure of reporting a failure
	k        *Call
	lines    int
}

// recErrs is a call of Errors.
type recErrs struct {
	k    Call
	errs []error
}

type recSt struct {
	rec      *appdash.Recorder
	id       appdash.SpanID
	name     string
	logger   bool
	made     *rt.Edge
	events   []wantAnn
	finished bool
	now      []wantAnn // what the call under way must hand over
	must     bool
	empty    bool // an empty hand-over is fine
	gave     int
	failedIn bool // something failed in the call under way
	optional bool
	k        *Call
	fails    []*recFailure
	errs     []*recErrs
}

type recSink struct {
	c      *eng.C
	by     map[appdash.SpanID]*recSt
	n      int
	p      float64
	slowP  float64
	slow   int64
	kept   []keptSlice
	allBad bool
}

type keptSlice struct {
	as   []appdash.Annotation
	was  []appdash.Annotation
	span appdash.SpanID
}

func (s *recSink) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	Keep(as)
	c := s.c
	r := s.by[id]
	if r == nil {
		c.Fail("C16", "foreign", "the collector was given annotations on %v, the span of no recorder", id)
		return nil
	}
	nested := false
	switch {
	case r.k == nil:
		c.Fail("C16", "out-of-call", "%s handed over %q while none of its methods was under way", r.name, as)
	case len(as) == 0 && (r.empty || len(r.now) == 0):
		// no annotations, no harm
	case len(r.now) > 0 && r.gave == 0 && matchAll(r.now, as):
		r.gave++
	case r.failedIn && isErrLog(as):
		nested = true
	case len(r.now) > 0 && r.gave > 0 && matchAll(r.now, as):
		c.Fail("C16", "twice", "%s handed the same annotations over twice", r.name)
	case r.gave > 0 || len(r.now) == 0:
		c.Fail("C16", "early-or-extra", "%s handed over %q, which this call should not", r.name, as)
	default:
		c.Fail("C16", "changed", "%s handed over %q instead of %v", r.name, as, r.now)
	}
	if len(as) > 0 {
		s.kept = append(s.kept, keptSlice{as, append([]appdash.Annotation(nil), as...), id})
	}
	if s.slowP > 0 && rt.Chance(rt.KHarness, s.slowP) {
		rt.CountFault(rt.FStoreSlow)
		rt.Sleep(1 + rt.Range(rt.KHarness, s.slow, true))
	} else {
		rt.Yield()
	}
	if s.p > 0 && rt.Chance(rt.KHarness, s.p) {
		s.n++
		rt.CountFault(rt.FStoreErr)
		e := fmt.Errorf("sink-err-%d.", s.n)
		r.failedIn = true
		r.fails = append(r.fails, &recFailure{tok: e.Error(), what: "of the collector", optional: nested || len(as) == 0 && false, k: r.k})
		return e
	}
	return nil
}

func isErrLog(as []appdash.Annotation) bool {
	schema, msg := false, false
	for _, a := range as {
		switch {
		case a.Key == appdash.SchemaPrefix+"log":
			schema = true
		case a.Key == "Msg":
			v := string(a.Value)
			msg = strings.Contains(v, "sink-err-") || strings.Contains(v, "event-err-") || strings.Contains(strings.ToLower(v), "finish")
		}
	}
	return schema && msg
}

type recLogger struct {
	lines []string
	seqs  []uint64
}

func (l *recLogger) Write(p []byte) (int, error) {
	l.lines = append(l.lines, string(p))
	l.seqs = append(l.seqs, rt.Seq())
	return len(p), nil
}

var _ io.Writer = (*recLogger)(nil)

func genRecorder(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	p.Cfg["cerr"] = pick(r, int64(0), 0, 100, 300, 700, 1000)
	if r.Intn(2) == 0 {
		p.Cfg["slow"] = pick(r, int64(100), 300, 900)
		p.Cfg["slowmax"] = logUniform(r, 50*ms)
	}
	p.Cfg["logger"] = pick(r, int64(0), 0, 0, 0xff, int64(r.Intn(256)))
	clients := 1 + r.Intn(4)
	max := 6
	if deep {
		max = 14
	}
	if r.Intn(20) == 0 {
		max = 80
	}
	for cl := 0; cl < clients; cl++ {
		n := 1 + r.Intn(max)
		for i := 0; i < n; i++ {
			o := eng.Op{K: pick(r, "n", "m", "l", "t", "e", "e", "p", "f", "a", "F", "F", "c", "E", "M"), C: cl, A: int64(r.Intn(3)), B: int64(r.Intn(4))}
			if r.Intn(3) == 0 {
				o.D = logUniform(r, 20*ms)
			}
			p.Ops = append(p.Ops, o)
		}
		if r.Intn(3) > 0 {
			for a := 0; a < 3; a++ {
				p.Ops = append(p.Ops, eng.Op{K: "F", C: cl, A: int64(a)})
			}
		}
	}
	for ob := 0; ob < r.Intn(4); ob++ {
		for i := 0; i < 1+r.Intn(8); i++ {
			o := eng.Op{K: "E", C: 10 + ob, A: int64(r.Intn(3)), B: int64(r.Intn(clients))}
			if r.Intn(2) == 0 {
				o.D = logUniform(r, 30*ms)
			}
			p.Ops = append(p.Ops, o)
		}
	}
	return p
}

func runRecorder(c *eng.C) {
	p := c.P
	s := &recSink{c: c, by: map[appdash.SpanID]*recSt{}, p: float64(p.G("cerr")) / 1000, slowP: float64(p.G("slow")) / 1000, slow: p.G("slowmax")}
	lw := &recLogger{}
	logger := log.New(lw, "", 0)
	var all []*recSt
	own := map[int][]*recSt{}
	add := func(cl int, rec *appdash.Recorder) *recSt {
		st := &recSt{rec: rec, id: rec.SpanID, name: fmt.Sprintf("recorder %d of client %d", len(own[cl]), cl)}
		if p.G("logger")>>uint((cl*3+len(own[cl]))%8)&1 == 1 {
			rec.Logger = logger
			st.logger = true
		} else if rec.Logger != nil {
			st.logger = true // inherited
		}
		if s.by[st.id] != nil {
			c.Fail("C16", "span-shared", "two recorders have the span ID %v", st.id)
		}
		s.by[st.id] = st
		own[cl] = append(own[cl], st)
		all = append(all, st)
		st.made = rt.NewEdge()
		return st
	}
	neverr := 0
	for i := range p.Ops {
		if o := &p.Ops[i]; o.C < 10 && own[o.C] == nil {
			add(o.C, appdash.NewRecorder(appdash.SpanID{Trace: appdash.ID(100 + o.C), Span: appdash.ID(200 + o.C), Parent: appdash.ID(o.C)}, s))
		}
	}
	errsOf := func(st *recSt) {
		e := &recErrs{}
		st.errs = append(st.errs, e)
		st.made.In()
		DoIn(&e.k, func() error { e.errs = st.rec.Errors(); return nil })
		rt.Yield()
	}
	// in runs a method of a recorder.
	in := func(st *recSt, now []wantAnn, f func()) *Call {
		st.now, st.gave, st.failedIn, st.empty = now, 0, false, len(now) == 0
		k := &Call{}
		st.k = k
		DoIn(k, func() error { f(); return nil })
		st.k = nil
		if rt.Killed() {
			return k
		}
		if len(now) > 0 && st.gave == 0 {
			c.Fail("C16", "not-delivered", "%s returned from a call that should have handed over %v without doing so", st.name, now)
		}
		st.now = nil
		return k
	}
	Clients(c, nil, func(i int, o *eng.Op) {
		if o.C >= 10 {
			if l := own[int(o.B)]; len(l) > 0 {
				errsOf(l[int(o.A)%len(l)])
			}
			return
		}
		st := own[o.C][int(o.A)%len(own[o.C])]
		tok := fmt.Sprint(i)
		event := func(e appdash.Event, viaEvent bool, f func()) {
			w := anns(i, e)
			in(st, nil, f)
			if !st.finished {
				st.events = append(st.events, w...)
			}
		}
		switch o.K {
		case "n":
			event(appdash.SpanName("name"+tok), false, func() { st.rec.Name("name" + tok) })
		case "m":
			event(appdash.Msg("msg"+tok), false, func() { st.rec.Msg("msg" + tok) })
		case "l":
			lo := rt.Time_Now()
			in(st, nil, func() { st.rec.Log("log" + tok) })
			hi := rt.Time_Now()
			if !st.finished {
				for _, w := range anns(i, appdash.LogWithTimestamp("log"+tok, lo)) {
					if w.key == "Time" {
						w.lo, w.hi = lo, hi
					}
					st.events = append(st.events, w)
				}
			}
		case "t":
			t := time.Unix(1e9+int64(i), int64(i)).UTC()
			e := appdash.LogWithTimestamp("logt"+tok, t)
			event(e, false, func() { st.rec.LogWithTimestamp("logt"+tok, t) })
		case "e":
			e := recEvent{Tok: tok, List: []string{"a" + tok, "b"}, N: i}
			event(e, true, func() { st.rec.Event(e) })
		case "p":
			e := &recEvent{Tok: tok, List: []string{"a" + tok}, N: i}
			event(e, true, func() { st.rec.Event(e) })
			e.Tok, e.List[0], e.N = "changed later", "changed later", -1
		case "M":
			event(recMarsh{tok}, true, func() { st.rec.Event(recMarsh{tok}) })
		case "f":
			neverr++
			err := fmt.Errorf("event-err-%d.", neverr)
			f := &recFailure{tok: err.Error(), what: "of an event"}
			st.fails = append(st.fails, f)
			st.failedNext(f, in, err)
		case "a":
			var as []appdash.Annotation
			for k := 0; k < int(o.B); k++ {
				as = append(as, Ann(fmt.Sprintf("%s.%d", tok, k)))
			}
			in(st, rawWants(as), func() { st.rec.Annotation(as...) })
		case "F":
			if st.finished {
				f := &recFailure{what: "of a repeated Finish"}
				st.fails = append(st.fails, f)
				st.failedNext(f, in, nil)
				return
			}
			st.finished = true
			in(st, st.events, func() { st.rec.Finish() })
		case "c":
			var ch *appdash.Recorder
			in(st, nil, func() { ch = st.rec.Child() })
			if ch.SpanID.Trace != st.id.Trace || ch.SpanID.Parent != st.id.Span {
				c.Fail("C16", "child-link", "the child of %v is %v", st.id, ch.SpanID)
			}
			add(o.C, ch)
		case "E":
			errsOf(st)
		}
	})
	for _, st := range all {
		errsOf(st)
	}
	for _, st := range all {
		errsOf(st) // and a second time: they are reported once only
	}
	for _, k := range s.kept {
		for i := range k.was {
			if k.as[i].Key != k.was[i].Key || string(k.as[i].Value) != string(k.was[i].Value) {
				c.Fail("C16", "changed-later", "the annotations handed over on %v were changed afterwards", k.span)
			}
		}
	}
	// every failure is reported exactly once, and nothing else
	nfail := 0
	line := make([]*recFailure, len(lw.lines))
	// a line about a repeated Finish belongs to the call under way that ended first
	var refin []*recFailure
	for _, st := range all {
		for _, f := range st.fails {
			if f.tok == "" && st.logger && f.k != nil && f.k.Done {
				refin = append(refin, f)
			}
		}
	}
	sort.SliceStable(refin, func(i, j int) bool { return refin[i].k.Ret < refin[j].k.Ret })
	for i, l := range lw.lines {
		for _, f := range refin {
			if f.lines == 0 && !strings.Contains(l, "-err-") && lw.seqs[i] > f.k.Inv && lw.seqs[i] < f.k.Ret {
				f.lines, line[i] = 1, f
				break
			}
		}
	}
	for _, st := range all {
		type rep struct {
			e    error
			call *recErrs
			used bool
		}
		var reps []*rep
		for _, e := range st.errs {
			for _, x := range e.errs {
				if x == nil {
					c.Fail("C16", "nil-error", "Errors of %s returned a nil error", st.name)
					continue
				}
				reps = append(reps, &rep{x, e, false})
			}
		}
		sort.SliceStable(reps, func(i, j int) bool { return reps[i].call.k.Ret < reps[j].call.k.Ret })
		late := func(f *recFailure, r *rep) bool {
			for _, e := range st.errs {
				if e.k.Done && e.k.Inv > f.k.Ret && e.k.Ret < r.call.k.Inv {
					return true
				}
			}
			return false
		}
		// the errors of repeated Finish calls are all alike: find an assignment
		owner := map[*rep]*recFailure{}
		given := map[*recFailure]*rep{}
		for _, strict := range []bool{true, false} {
			for _, f := range st.fails {
				if f.tok != "" || f.k == nil || !f.k.Done || given[f] != nil {
					continue
				}
				seen := map[*rep]bool{}
				var try func(f *recFailure) bool
				try = func(f *recFailure) bool {
					for _, r := range reps {
						if seen[r] || r.call.k.Ret < f.k.Inv || strings.Contains(r.e.Error(), "-err-") || strict && late(f, r) {
							continue
						}
						seen[r] = true
						if o := owner[r]; o == nil || try(o) {
							owner[r], given[f] = f, r
							return true
						}
					}
					return false
				}
				try(f)
			}
		}
		// failures with a token first, a repeated Finish has none
		for pass := 0; pass < 2; pass++ {
			for _, f := range st.fails {
				if (f.tok == "") != (pass == 1) {
					continue
				}
				nfail++
				if f.k == nil || !f.k.Done {
					continue
				}
				var got *rep
				for _, r := range reps {
					if r.used {
						continue
					}
					if f.tok != "" && strings.Contains(r.e.Error(), f.tok) || f.tok == "" && r == given[f] {
						if got != nil {
							c.Fail("C16", "reported-twice", "Errors of %s returned %q twice", st.name, f.tok)
						}
						if got == nil {
							got = r
						}
					}
				}
				if got != nil {
					got.used = true
				}
				ln := f.lines
				for i, l := range lw.lines {
					if line[i] != nil {
						continue
					}
					if f.tok != "" && strings.Contains(l, f.tok) {
						line[i] = f
						ln++
						if lw.seqs[i] < f.k.Inv || lw.seqs[i] > f.k.Ret {
							c.Fail("C16", "logged-late", "a failure was logged outside of the call it occurred in")
						}
					}
				}
				total := ln
				if got != nil {
					total++
				}
				switch {
				case ln > 1:
					c.Fail("C16", "reported-twice", "the failure %s %q was logged %d times", f.what, f.tok, ln)
				case ln == 1 && !st.logger:
					c.Fail("C16", "wrong-logger", "a failure of %s, which has no logger, was logged", st.name)
				case total > 1:
					c.Fail("C16", "reported-twice", "the failure %s %q of %s was logged and returned by Errors", f.what, f.tok, st.name)
				case total == 0 && !f.optional:
					c.Fail("C16", "unreported", "the failure %s %q of %s was not reported (logger %v)", f.what, f.tok, st.name, st.logger)
				case got != nil && st.logger:
					c.Fail("C16", "not-logged", "the failure %s of %s, which has a logger, was not logged but kept for Errors", f.what, st.name)
				case got != nil && late(f, got):
					c.Fail("C16", "reported-late", "the failure %s %q of %s was returned by a later call of Errors than the next one", f.what, f.tok, st.name)
				}
			}
		}
		for _, r := range reps {
			if !r.used {
				c.Fail("C16", "reported-extra", "Errors of %s returned %q, which is no failure of this recorder or was returned before", st.name, r.e)
			}
		}
	}
	for i, l := range lw.lines {
		if line[i] == nil {
			c.Fail("C16", "logged-extra", "the logger was given %q, which is no failure or was logged before", l)
		}
	}
	c.Add("recorders", int64(len(all)))
	c.Add("failures", int64(nfail))
	c.Add("delivered", int64(len(s.kept)))
}

// failedNext runs the call in which failure f occurs.
func (st *recSt) failedNext(f *recFailure, in func(*recSt, []wantAnn, func()) *Call, err error) {
	f.k = in(st, nil, func() {
		st.failedIn = true
		if err != nil {
			st.rec.Event(recFail{err})
		} else {
			st.rec.Finish()
		}
	})
}

func init() {
	sc := &eng.Scenario{Name: "recorder", Gen: genRecorder, Run: runRecorder}
	eng.Register(&eng.PropCfg{ID: "C16", Scen: []eng.Weighted{{S: sc, W: 1}}, Quick: 500000, Deep: 40000000, QuickSec: 30, DeepSec: 600, Level: "exploration",
		Real: []string{"recorder.go", "event.go MarshalEvent", "reflect.go flattenValue", "span.go", "id.go"}, Stub: []string{"underlying collector (slow, failing, keeps what it is given)", "clock, mutex and goroutine scheduler (simulated)"}})
}
