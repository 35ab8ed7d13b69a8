package scen

import (
	"fmt"
	"sort"
	"strings"

	"sourcegraph.com/sourcegraph/appdash"

	"vsim/eng"
	"vsim/rt"
)

// The multi scenario drives a MultiStore and a MultiQueryer over several memory stores behind members that are slow
// or fail.
//
// ops: c Collect; t Trace A; q Traces of the combination; C, T, D the same directly on member E (D deletes A).
// c and C: trace A, span B, len(X) annotations. cfg: members, nested, cerr, rerr, slow, slowmax, spare

type mulCall struct {
	kind   string
	id     appdash.SpanID
	toks   []string
	k      Call
	steps  []*mulStep
	trace  *appdash.Trace
	traces []*appdash.Trace
}

type mulStep struct {
	m      int
	inv    uint64
	ret    uint64
	err    error
	trace  *appdash.Trace
	exact  string
	traces []*appdash.Trace
}

type mulMember struct {
	s    *mulSt
	n    int
	real *appdash.MemoryStore
	got  map[appdash.SpanID][]string
	held map[appdash.ID]uint64 // since when
	del  map[appdash.ID]bool
}

type mulSt struct {
	c       *eng.C
	members []*mulMember
	cur     map[*rt.Task]*mulCall
	open    []*mulCall
	byTok   map[string]*mulCall
	unsure  bool
	nerr    int
	cerr    float64
	rerr    float64
	slowP   float64
	slow    int64
}

func (s *mulSt) pause() {
	if s.slowP > 0 && rt.Chance(rt.KHarness, s.slowP) {
		rt.CountFault(rt.FStoreSlow)
		rt.Sleep(1 + rt.Range(rt.KHarness, s.slow, true))
	} else {
		rt.Yield()
	}
}

func (s *mulSt) fail(p float64) error {
	if p > 0 && rt.Chance(rt.KHarness, p) {
		s.nerr++
		rt.CountFault(rt.FStoreErr)
		return fmt.Errorf("member-err-%d.", s.nerr)
	}
	return nil
}

// call finds the call of the combination that a call of a member belongs to.
func (s *mulSt) call(kind string, id appdash.ID) *mulCall {
	if k := s.cur[rt.Cur()]; k != nil && k.kind == kind {
		return k
	}
	var got *mulCall
	for _, k := range s.open {
		if k.kind == kind && (kind == "q" || k.id.Trace == id) {
			if got != nil {
				s.unsure = true
			}
			got = k
		}
	}
	if got == nil {
		s.unsure = true
	}
	return got
}

func (m *mulMember) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	Keep(as)
	s := m.s
	toks := Toks(as)
	var k *mulCall
	if len(toks) > 0 {
		k = s.byTok[toks[0]]
	}
	if k == nil || k.id != id || join(k.toks) != join(toks) || k.kind != "c" {
		s.c.Fail("C18", "mangled", "member %d was given %v %v, which nobody collected", m.n, id, toks)
		return nil
	}
	st := &mulStep{m: m.n, inv: rt.Seq()}
	k.steps = append(k.steps, st)
	s.pause()
	if st.err = s.fail(s.cerr); st.err == nil {
		m.direct(id, toks, as)
	}
	s.pause()
	st.ret = rt.Seq()
	return st.err
}

func (m *mulMember) direct(id appdash.SpanID, toks []string, as []appdash.Annotation) {
	m.got[id] = append(m.got[id], toks...)
	if err := m.real.Collect(id, as...); err != nil {
		m.s.c.Fail("C18", "memstore", "memory store: %v", err)
	}
	if _, ok := m.held[id.Trace]; !ok {
		m.held[id.Trace] = rt.Seq()
	}
}

func (m *mulMember) Trace(id appdash.ID) (*appdash.Trace, error) {
	s := m.s
	k := s.call("t", id)
	st := &mulStep{m: m.n, inv: rt.Seq()}
	if k != nil {
		k.steps = append(k.steps, st)
	}
	s.pause()
	if st.err = s.fail(s.rerr); st.err == nil {
		st.trace, st.err = m.real.Trace(id)
		if st.err == nil {
			st.exact = Exact(st.trace)
		}
	}
	s.pause()
	st.ret = rt.Seq()
	return st.trace, st.err
}

func (m *mulMember) Traces(o appdash.TracesOpts) ([]*appdash.Trace, error) {
	s := m.s
	k := s.call("q", 0)
	st := &mulStep{m: m.n, inv: rt.Seq()}
	if k != nil {
		k.steps = append(k.steps, st)
	}
	s.pause()
	if st.err = s.fail(s.rerr); st.err == nil {
		st.traces, st.err = m.real.Traces(o)
	}
	s.pause()
	st.ret = rt.Seq()
	return st.traces, st.err
}

func genMulti(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	n := pick(r, 0, 1, 2, 2, 2, 3, 3, 4)
	p.Cfg["members"] = int64(n)
	p.Cfg["nested"] = int64(r.Intn(2))
	p.Cfg["cerr"] = pick(r, int64(0), 0, 100, 500)
	p.Cfg["rerr"] = pick(r, int64(0), 0, 100, 500)
	if r.Intn(2) == 0 {
		p.Cfg["slow"] = pick(r, int64(100), 300)
		p.Cfg["slowmax"] = logUniform(r, 50*ms)
	}
	clients := 1 + r.Intn(4)
	max := 8
	if deep {
		max = 20
	}
	traces := 1 + r.Intn(5)
	for cl := 0; cl < clients; cl++ {
		for i, k := 0, 1+r.Intn(max); i < k; i++ {
			o := eng.Op{K: pick(r, "c", "c", "c", "t", "t", "q", "q", "C", "D"), C: cl, A: int64(1 + r.Intn(traces)), B: int64(1 + r.Intn(3)), E: int64(r.Intn(4))}
			if o.K == "D" && r.Intn(2) == 0 {
				o.K = "C"
			}
			o.X = make([]byte, 1+r.Intn(3))
			if o.K == "C" && r.Intn(3) == 0 {
				o.X = nil // a span without annotations
			}
			o.S = pick(r, "", "spare")
			if r.Intn(3) == 0 {
				o.D = logUniform(r, 20*ms)
			}
			p.Ops = append(p.Ops, o)
		}
	}
	return p
}

func runMulti(c *eng.C) {
	p := c.P
	s := &mulSt{c: c, cur: map[*rt.Task]*mulCall{}, byTok: map[string]*mulCall{}, cerr: float64(p.G("cerr")) / 1000, rerr: float64(p.G("rerr")) / 1000, slowP: float64(p.G("slow")) / 1000, slow: p.G("slowmax")}
	var sts []appdash.Store
	var qs []appdash.Queryer
	for i := 0; i < int(p.G("members")); i++ {
		m := &mulMember{s: s, n: i, real: appdash.NewMemoryStore(), got: map[appdash.SpanID][]string{}, held: map[appdash.ID]uint64{}, del: map[appdash.ID]bool{}}
		s.members = append(s.members, m)
		sts = append(sts, m)
		qs = append(qs, m)
	}
	if p.G("nested") == 1 && len(sts) > 2 {
		sts = []appdash.Store{appdash.MultiStore(sts[:2]...), appdash.MultiStore(sts[2:]...)}
		qs = []appdash.Queryer{qs[0], appdash.MultiQueryer(qs[1:]...)}
	}
	ms, mq := appdash.MultiStore(sts...), appdash.MultiQueryer(qs...)
	var reads []*mulCall
	do := func(k *mulCall, f func() error) {
		s.cur[rt.Cur()] = k
		s.open = append(s.open, k)
		DoIn(&k.k, f)
		delete(s.cur, rt.Cur())
		for i, x := range s.open {
			if x == k {
				s.open = append(s.open[:i:i], s.open[i+1:]...)
				break
			}
		}
	}
	Clients(c, nil, func(i int, o *eng.Op) {
		id := appdash.SpanID{Trace: appdash.ID(o.A), Span: appdash.ID(uint64(o.B))}
		if o.B > 1 {
			id.Parent = 1
		}
		var m *mulMember
		if len(s.members) > 0 {
			m = s.members[int(o.E)%len(s.members)]
		}
		var as []appdash.Annotation
		var toks []string
		if o.K == "c" || o.K == "C" {
			as = make([]appdash.Annotation, 0, len(o.X))
			if o.S == "spare" {
				as = make([]appdash.Annotation, 0, len(o.X)+8)
			}
			for j := range o.X {
				toks = append(toks, fmt.Sprintf("%d.%d", i, j))
				as = append(as, Ann(toks[j]))
			}
		}
		switch o.K {
		case "c":
			k := &mulCall{kind: "c", id: id, toks: toks}
			s.byTok[toks[0]] = k
			do(k, func() error { return ms.Collect(id, as...) })
			if rt.Killed() {
				return
			}
			s.checkCollect(k)
		case "t":
			k := &mulCall{kind: "t", id: id}
			do(k, func() (err error) { k.trace, err = ms.Trace(id.Trace); return })
			KeepTraces(k.trace)
			if !rt.Killed() {
				reads = append(reads, k)
			}
		case "q":
			k := &mulCall{kind: "q"}
			inv := rt.Seq()
			do(k, func() (err error) { k.traces, err = mq.Traces(appdash.TracesOpts{}); return })
			KeepTraces(k.traces...)
			if rt.Killed() {
				return
			}
			reads = append(reads, k)
			if k.k.Err == nil {
				has := map[appdash.ID]bool{}
				for _, t := range k.traces {
					has[t.Span.ID.Trace] = true
				}
				for _, m := range s.members {
					for tr := appdash.ID(1); tr < 10; tr++ {
						if at, ok := m.held[tr]; ok && at < inv && !m.del[tr] && !has[tr] {
							c.Fail("C18", "query-missing", "member %d holds trace %d, the combined query did not return it", m.n, uint64(tr))
						}
					}
				}
			}
		case "C":
			if m != nil {
				m.direct(id, toks, as)
			}
		case "D":
			if m != nil {
				m.del[id.Trace] = true // no longer judged by what it holds
				m.real.Delete(id.Trace)
			}
		}
	})
	if !s.unsure {
		for _, k := range reads {
			s.checkRead(k)
		}
	}
	for _, m := range s.members {
		for tr := appdash.ID(1); tr < 10; tr++ {
			if m.del[tr] {
				continue
			}
			t, err := m.real.Trace(tr)
			if _, ok := m.held[tr]; ok != (err == nil) {
				c.Fail("C18", "member-content", "member %d: trace %d: %v", m.n, uint64(tr), err)
				continue
			}
			if err != nil {
				continue
			}
			tc, err := Canon(t, true)
			if err != nil {
				c.Fail("C18", "member-content", "member %d: %v", m.n, err)
				continue
			}
			n := 0
			for _, sp := range tc.Spans {
				want := append([]string(nil), m.got[appdash.SpanID{Trace: tr, Span: sp.Span, Parent: sp.Parent}]...)
				got := append([]string(nil), sp.Toks...)
				sort.Strings(want)
				sort.Strings(got)
				if join(want) != join(got) {
					c.Fail("C18", "contaminated", "member %d was given %v for span %d of trace %d but holds %v", m.n, want, uint64(sp.Span), uint64(tr), got)
				}
				n++
			}
		}
	}
	c.Add("reads", int64(len(reads)))
}

func (s *mulSt) checkCollect(k *mulCall) {
	c := s.c
	var failed error
	for i, st := range k.steps {
		if st.m != i {
			c.Fail("C18", "order", "Collect called member %d as number %d", st.m, i)
			return
		}
		if i > 0 && (st.inv < k.steps[i-1].ret) {
			c.Fail("C18", "order", "Collect called member %d before member %d had returned", st.m, st.m-1)
		}
		if failed != nil {
			c.Fail("C18", "after-failure", "Collect called member %d although member %d had failed", st.m, st.m-1)
		}
		if st.ret == 0 {
			c.Fail("C18", "returned-early", "Collect returned before member %d had", st.m)
		}
		failed = st.err
		if failed != nil {
			break
		}
	}
	if n := len(k.steps); failed != nil && n > 0 && k.steps[n-1].err == nil {
		c.Fail("C18", "after-failure", "Collect went on after a member had failed")
	}
	if failed == nil && len(k.steps) != len(s.members) {
		c.Fail("C18", "missed", "Collect called %d of %d members, none failed", len(k.steps), len(s.members))
	}
	if (failed == nil) != (k.k.Err == nil) || failed != nil && !strings.Contains(k.k.Err.Error(), failed.Error()) {
		c.Fail("C18", "error", "Collect returned %v, the first failure of a member was %v", k.k.Err, failed)
	}
}

func (s *mulSt) checkRead(k *mulCall) {
	c := s.c
	sort.SliceStable(k.steps, func(i, j int) bool { return k.steps[i].m < k.steps[j].m })
	if k.kind == "t" {
		for i, st := range k.steps {
			if st.m != i {
				break // a member that was not asked
			}
			if st.err == appdash.ErrTraceNotFound {
				continue
			}
			switch {
			case st.err != nil && (k.k.Err == nil || !strings.Contains(k.k.Err.Error(), st.err.Error())):
				c.Fail("C18", "read-error", "Trace returned %v although member %d failed with %v", k.k.Err, st.m, st.err)
			case st.err == nil && k.k.Err != nil:
				c.Fail("C18", "read-lost", "Trace returned %v although member %d has the trace", k.k.Err, st.m)
			case st.err == nil && (k.trace == nil || Exact(k.trace) != st.exact):
				c.Fail("C18", "read-other", "Trace returned something else than member %d did", st.m)
			}
			return
		}
		if len(k.steps) != len(s.members) {
			c.Fail("C18", "read-skipped", "Trace asked %d of %d members", len(k.steps), len(s.members))
		} else if k.k.Err != appdash.ErrTraceNotFound {
			c.Fail("C18", "not-found", "Trace returned %v although no member has the trace", k.k.Err)
		}
		return
	}
	var failed []string
	union := map[appdash.ID][]*appdash.Trace{}
	for _, st := range k.steps {
		if st.err != nil {
			failed = append(failed, st.err.Error())
		}
		for _, t := range st.traces {
			union[t.Span.ID.Trace] = append(union[t.Span.ID.Trace], t)
		}
	}
	if k.k.Err != nil {
		for _, f := range failed {
			if strings.Contains(k.k.Err.Error(), f) {
				return
			}
		}
		c.Fail("C18", "query-error", "Traces returned %v, the members' failures were %v", k.k.Err, failed)
		return
	}
	if len(failed) > 0 {
		c.Fail("C18", "query-error", "Traces returned no error, the members' failures were %v", failed)
		return
	}
	if len(k.steps) != len(s.members) {
		c.Fail("C18", "query-skipped", "Traces asked %d of %d members", len(k.steps), len(s.members))
	}
	seen := map[appdash.ID]bool{}
	for _, t := range k.traces {
		id := t.Span.ID.Trace
		if seen[id] {
			c.Fail("C18", "query-twice", "Traces returned trace %d twice", uint64(id))
		}
		seen[id] = true
		ok := false
		for _, u := range union[id] {
			ok = ok || Exact(u) == Exact(t)
		}
		if !ok {
			c.Fail("C18", "query-other", "Traces returned a trace %d that no member returned", uint64(id))
		}
	}
	if len(seen) != len(union) {
		c.Fail("C18", "query-missing", "Traces returned %d traces, the members %d", len(seen), len(union))
	}
}

func init() {
	sc := &eng.Scenario{Name: "multi", Gen: genMulti, Run: runMulti}
	eng.Register(&eng.PropCfg{ID: "C18", Scen: []eng.Weighted{{S: sc, W: 1}}, Quick: 400000, Deep: 40000000, QuickSec: 40, DeepSec: 600, Level: "exploration",
		Real: []string{"multi.go", "store.go MemoryStore"}, Stub: []string{"members in front of the memory stores (slow, failing)", "clock, mutex and goroutine scheduler (simulated)"}})
}
