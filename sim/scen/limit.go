package scen

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"

	"vsim/eng"
	"vsim/rt"
)

// The limit scenarios drive a LimitStore or a RecentStore over a simulated store that is slow or fails.
//
// ops: c Collect on trace A with len(X) annotations; b Collect on each of B traces from A; j wall clock jump by A;
// d explicit Delete of trace A (and B, if B is not 0) through the limited store.
// cfg: max, age, slow, slowmax, derr, cerr, pre, real

// inc is a trace between its first collection and its deletion.
type inc struct {
	id     appdash.ID
	order  int
	first  int64 // invocation of the earliest contributing Collect
	landed int64 // when it appeared in the store
	ret    int64 // when the Collect that made it appear returned, 0 while pending
	pre    bool
}

type limRec struct {
	i     int
	o     *eng.Op
	k     Call
	id    appdash.SpanID
	toks  []string
	under int   // calls of the underlying store
	utime int64 // time they took
	uerr  error
	made  *inc
}

type limStore struct {
	c       *eng.C
	held    map[appdash.ID]*inc
	real    *appdash.MemoryStore
	n       int
	nerr    int
	pending []*limRec
	byTok   map[string]*limRec
	max     int
	age     int64
	calm    bool
	slowP   float64
	slowMax int64
	maxCol  int64
	dslow   float64
	derrP   float64
	cerrP   float64
	derrs   []string
	deletes int
	stuck   bool
	began   int64 // first outer Collect
	limit   bool
	cerrs   int
	dels    [][]appdash.ID // explicit deletions under way
	delErrs []string
	tried   map[appdash.ID]int64 // earliest failed attempt to collect a trace not held
}

// all lists the traces held, in order of entry.
func (s *limStore) all() []*inc {
	var l []*inc
	for _, h := range s.held {
		l = append(l, h)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].order < l[j].order })
	return l
}

func (s *limStore) wait(p float64, max int64) {
	rt.Yield()
	if !s.calm && p > 0 && rt.Chance(rt.KHarness, p) {
		rt.CountFault(rt.FStoreSlow)
		rt.Sleep(1 + rt.Range(rt.KHarness, max, true))
	}
}

func (s *limStore) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	Keep(as)
	t0 := rt.Now()
	toks := Toks(as)
	var r *limRec
	if len(toks) > 0 {
		r = s.byTok[toks[0]]
	}
	if r == nil || join(toks) != join(r.toks) || r.id != id {
		s.c.Fail(s.c.P.For(), "mangled", "the underlying store was given %v %v, which nobody collected", id, toks)
		return nil
	}
	r.under++
	if r.under > 1 {
		s.c.Fail(s.c.P.For(), "twice", "one Collect reached the underlying store twice")
	}
	s.wait(s.slowP, s.maxCol)
	if !s.calm && s.cerrP > 0 && rt.Chance(rt.KHarness, s.cerrP) {
		s.nerr++
		s.cerrs++
		rt.CountFault(rt.FStoreErr)
		r.uerr = fmt.Errorf("store-err-%d.", s.nerr)
		r.utime += rt.Now() - t0
		if h := s.held[id.Trace]; h != nil {
			h.first = min(h.first, r.k.T0)
		} else if t, ok := s.tried[id.Trace]; !ok || r.k.T0 < t {
			s.tried[id.Trace] = r.k.T0
		}
		return r.uerr
	}
	h := s.held[id.Trace]
	if h == nil {
		s.n++
		h = &inc{id: id.Trace, order: s.n, first: r.k.T0, landed: rt.Now()}
		if t, ok := s.tried[id.Trace]; ok && t < h.first {
			h.first = t
		}
		delete(s.tried, id.Trace)
		s.held[id.Trace] = h
		r.made = h
		rt.Note("trace %d enters the store", uint64(id.Trace))
		if s.limit && len(s.held) > s.max {
			s.c.Fail("C11", "over-limit", "the store holds %d traces, the maximum is %d", len(s.held), s.max)
		}
	} else {
		h.first = min(h.first, r.k.T0)
	}
	if s.real != nil {
		s.real.Collect(id, as...)
	}
	s.wait(s.slowP, s.maxCol)
	r.utime += rt.Now() - t0
	return nil
}

func (s *limStore) Trace(id appdash.ID) (*appdash.Trace, error) {
	rt.Yield()
	s.wait(s.dslow, s.slowMax)
	if s.held[id] == nil {
		return nil, appdash.ErrTraceNotFound
	}
	return &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: id, Span: id}}}, nil
}

func (s *limStore) Traces(appdash.TracesOpts) ([]*appdash.Trace, error) {
	s.wait(s.dslow, s.slowMax)
	var l []*appdash.Trace
	for id := range s.held {
		l = append(l, &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: id, Span: id}}})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID.Trace < l[j].ID.Trace })
	s.wait(s.dslow, s.slowMax)
	return l, nil
}

func (s *limStore) Delete(ids ...appdash.ID) error {
	s.wait(s.dslow, s.slowMax)
	s.deletes++
	ids = append([]appdash.ID(nil), ids...)
	// which are deleted before a failure
	n := len(ids)
	var err error
	if !s.calm && s.derrP > 0 && rt.Chance(rt.KHarness, s.derrP) {
		s.nerr++
		rt.CountFault(rt.FStoreErr)
		err = fmt.Errorf("delete-err-%d.", s.nerr)
		s.derrs = append(s.derrs, err.Error())
		n = 0
		if !s.limit {
			n = int(rt.Range(rt.KHarness, int64(len(ids)+1), false))
		}
	}
	for _, id := range ids[:n] {
		h := s.held[id]
		if h == nil {
			continue
		}
		if s.asked(id) {
			s.c.Add("explicit_deletions", 1)
		} else if s.limit {
			s.checkLimit(h)
		} else {
			s.checkAge(h)
		}
		rt.Note("trace %d leaves the store", uint64(id))
		delete(s.held, id)
		if s.real != nil {
			s.real.Delete(id)
		}
		rt.Yield()
	}
	s.wait(s.dslow, s.slowMax)
	return err
}

// asked tells whether an explicit deletion of a trace is under way.
func (s *limStore) asked(id appdash.ID) bool {
	for _, d := range s.dels {
		for _, x := range d {
			if x == id {
				return true
			}
		}
	}
	return false
}

// del deletes traces explicitly.
func (s *limStore) del(delete func(...appdash.ID) error, ids []appdash.ID) error {
	n := s.n
	s.dels = append(s.dels, ids)
	err := delete(append([]appdash.ID(nil), ids...)...)
	for i, d := range s.dels {
		if &d[0] == &ids[0] {
			s.dels = append(s.dels[:i:i], s.dels[i+1:]...)
			break
		}
	}
	rt.Note("Delete %v -> %v", ids, err)
	if err == nil {
		for _, id := range ids {
			if h := s.held[id]; h != nil && h.order <= n {
				s.c.Fail(s.c.P.For(), "not-deleted", "Delete of trace %d succeeded and the trace is still in the store", uint64(id))
			}
		}
	}
	return err
}

func (s *limStore) checkLimit(h *inc) {
	need := false
	for _, r := range s.pending {
		need = need || s.held[r.id.Trace] == nil
	}
	switch {
	case !need:
		s.c.Fail("C11", "needless-eviction", "trace %d was deleted although no new trace was being collected", uint64(h.id))
	case len(s.held) < s.max && s.cerrs == 0 && len(s.dels) == 0:
		s.c.Fail("C11", "early-eviction", "trace %d was deleted although the store held only %d of %d traces", uint64(h.id), len(s.held), s.max)
	}
	for _, o := range s.all() {
		if o.order < h.order && s.cerrs == 0 && len(s.dels) == 0 {
			s.c.Fail("C11", "wrong-eviction", "trace %d was deleted although trace %d entered the store earlier", uint64(h.id), uint64(o.id))
			return
		}
	}
}

func (s *limStore) checkAge(h *inc) {
	from := h.first
	if h.pre && from < s.began {
		from = s.began
	}
	if rt.Now()-from < s.age {
		s.c.Fail("C10", "young-deleted", "trace %d was deleted %v after its first collection; the minimum age is %v", uint64(h.id), time.Duration(rt.Now()-from), time.Duration(s.age))
	}
	s.c.Add("evictions", 1)
}

func genLimit(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	g := p.Cfg
	var ids []int64
	n := 4 + r.Intn(26)
	if deep && r.Intn(8) == 0 {
		n += 40
	}
	if r.Intn(2) == 0 {
		g["slow"] = pick(r, int64(100), 300, 1000)
	}
	if r.Intn(3) == 0 {
		g["derr"] = pick(r, int64(100), 300, 700)
	}
	if r.Intn(8) == 0 {
		g["cerr"] = pick(r, int64(100), 400)
	}
	if r.Intn(3) == 0 {
		g["real"] = 1
	}
	clients := 1 + r.Intn(4)
	spread := int64(0)
	if prop == "C11" {
		g["max"] = int64(1 + r.Intn(5))
		g["slowmax"] = logUniform(r, 50*us)
		m := int(g["max"]) + r.Intn(4)
		for i := 0; i <= m; i++ {
			ids = append(ids, int64(i+1))
		}
		if r.Intn(3) == 0 {
			ids[r.Intn(len(ids))] = 0
		}
		if r.Intn(3) == 0 {
			ids[r.Intn(len(ids))] = -1
		}
		if r.Intn(3) == 0 {
			ids[r.Intn(len(ids))] = -1 << 63
		}
		spread = 20 * us
	} else {
		g["age"] = pick(r, 10*ms, 1*sec, 60*sec)
		g["nojump"] = 1                          // assumed: a Collect of the underlying store takes less than the minimum age
		g["slowmax"] = logUniform(r, 2*g["age"]) // of a Delete; a Collect takes less than half the age, see maxCol
		g["dslow"] = pick(r, int64(0), 0, 300, 1000)
		if r.Intn(2) == 0 {
			g["pre"] = int64(1 + r.Intn(3))
		}
		for i := 0; i < 2+r.Intn(5); i++ {
			ids = append(ids, int64(i+1))
		}
		spread = 2 * g["age"]
	}
	jumps := prop == "C10" && r.Intn(3) == 0
	sleepy := 1 + r.Intn(4)
	dels := 0
	if r.Intn(4) == 0 {
		dels = 3 + r.Intn(10)
	}
	for i := 0; i < n; i++ {
		o := eng.Op{K: "c", C: r.Intn(clients), A: ids[r.Intn(len(ids))], X: make([]byte, pick(r, 1, 1, 2))}
		if jumps && r.Intn(5) == 0 {
			o = eng.Op{K: "j", C: r.Intn(clients), A: g["age"]*3 - r.Int63n(6*g["age"])}
		}
		if dels > 0 && r.Intn(dels) == 0 {
			o = eng.Op{K: "d", C: r.Intn(clients), A: ids[r.Intn(len(ids))]}
			if r.Intn(3) == 0 {
				o.B = ids[r.Intn(len(ids))]
			}
		}
		if r.Intn(sleepy) == 0 {
			o.D = logUniform(r, spread)
			if r.Intn(4) == 0 && prop == "C10" {
				o.D = g["age"]
			}
		}
		p.Ops = append(p.Ops, o)
	}
	if r.Intn(2) == 0 {
		g["share"] = 1
	}
	if r.Intn(30) == 0 {
		// many traces at once
		k := int64(20 + r.Intn(180))
		for i := 1 + r.Intn(2); i > 0; i-- {
			p.Ops = append(p.Ops[:len(p.Ops):len(p.Ops)], eng.Op{K: "b", C: r.Intn(clients), A: 2000 + r.Int63n(50), B: k, X: make([]byte, 1)})
		}
		if prop == "C11" && r.Intn(2) == 0 {
			g["max"] = k/2 + r.Int63n(k)
		}
	}
	return p
}

func newLimStore(c *eng.C) *limStore {
	p := c.P
	s := &limStore{c: c, held: map[appdash.ID]*inc{}, tried: map[appdash.ID]int64{}, byTok: map[string]*limRec{}, slowP: float64(p.G("slow")) / 1000, slowMax: p.G("slowmax"), dslow: float64(p.G("dslow")) / 1000,
		derrP: float64(p.G("derr")) / 1000, cerrP: float64(p.G("cerr")) / 1000, max: int(p.G("max")), age: p.G("age"), limit: p.For() == "C11"}
	if s.limit {
		s.dslow = s.slowP
	}
	s.maxCol = s.slowMax
	if !s.limit && s.maxCol > s.age/5 {
		s.maxCol = s.age / 5
	}
	if p.G("real") == 1 {
		s.real = appdash.NewMemoryStore()
	}
	return s
}

func (s *limStore) call(r *limRec, col func(appdash.SpanID, ...appdash.Annotation) error, as []appdash.Annotation) {
	s.byTok[r.toks[0]] = r
	if s.began == 0 {
		s.began = rt.Now()
		if s.began == 0 {
			s.began = 1
		}
	}
	s.pending = append(s.pending, r)
	DoIn(&r.k, func() error { return col(r.id, as...) })
	for i, x := range s.pending {
		if x == r {
			s.pending = append(s.pending[:i], s.pending[i+1:]...)
			break
		}
	}
	if r.made != nil {
		r.made.ret = rt.Now()
	}
	rt.Note("Collect trace %d -> %v", uint64(r.id.Trace), r.k.Err)
}

func runLimit(c *eng.C) {
	p := c.P
	node := rt.NewNode("app", nil)
	s := newLimStore(c)
	exact := p.Strat.Jump == 0
	slack := tick
	for _, o := range p.Ops {
		if o.K == "b" {
			slack = 4 * ms // every step takes time
		}
	}
	var col func(appdash.SpanID, ...appdash.Annotation) error
	var del func(...appdash.ID) error
	under := appdash.DeleteStore(s)
	if p.Seed%5 == 2 && p.G("pre") == 0 {
		under = struct{ appdash.DeleteStore }{s} // no Queryer
	}
	if s.limit {
		ls := &appdash.LimitStore{Max: s.max, DeleteStore: under}
		col, del = ls.Collect, ls.Delete
	} else {
		rs := &appdash.RecentStore{MinEvictAge: time.Duration(s.age), DeleteStore: under, Debug: p.Seed%4 == 0}
		col, del = rs.Collect, rs.Delete
		for i := int64(1); i <= p.G("pre"); i++ {
			s.n++
			s.held[appdash.ID(i)] = &inc{id: appdash.ID(i), order: s.n, pre: true}
		}
	}
	var recs []*limRec
	callers := map[int]*caller{}
	Clients(c, node, func(i int, o *eng.Op) {
		if o.K == "j" {
			rt.WallJump(o.A)
			return
		}
		if o.K == "d" {
			d := []appdash.ID{appdash.ID(o.A)}
			if o.B != 0 {
				d = append(d, appdash.ID(o.B))
			}
			if err := s.del(del, d); err != nil {
				if !strings.Contains(err.Error(), "delete-err") {
					c.Fail(p.For(), "delete-failed", "Delete failed for no reason: %v", err)
				}
				s.delErrs = append(s.delErrs, err.Error())
			}
			return
		}
		if o.K == "b" {
			for k := int64(0); k < o.B; k++ {
				r := &limRec{i: i, o: o, toks: []string{fmt.Sprintf("%d.b%d", i, k)}, id: appdash.SpanID{Trace: appdash.ID(o.A + k), Span: 1}}
				recs = append(recs, r)
				s.call(r, col, []appdash.Annotation{Ann(r.toks[0])})
			}
			return
		}
		cl := callers[o.C]
		if cl == nil {
			cl = &caller{share: p.G("share") == 1}
			callers[o.C] = cl
		}
		r := &limRec{i: i, o: o, toks: opToks(i, o), id: appdash.SpanID{Trace: appdash.ID(o.A), Span: appdash.ID(i%3 + 1)}}
		recs = append(recs, r)
		s.call(r, col, cl.anns(r.toks))
		if !s.limit {
			if over := r.k.T1 - r.k.T0 - r.utime; exact && over > slack {
				c.Fail("C10", "collect-blocked", "Collect took %v longer than the underlying store's Collect", time.Duration(over))
			}
		}
	})
	if c.Failed() {
		return
	}
	for _, r := range recs {
		switch {
		case r.k.Err == nil && r.under != 1:
			c.Fail(p.For(), "lost", "a Collect returned success and reached the underlying store %d times", r.under)
		case r.k.Err == nil && r.uerr != nil:
			c.Fail(p.For(), "error-hidden", "the underlying store failed with %v and Collect returned success", r.uerr)
		case r.k.Err != nil && r.uerr == nil && !s.limit:
			c.Fail("C10", "collect-failed", "Collect failed although the underlying store did not: %v", r.k.Err)
		case r.k.Err != nil && s.limit && r.uerr == nil && !strings.Contains(r.k.Err.Error(), "delete-err"):
			c.Fail("C11", "collect-failed", "Collect failed for no reason: %v", r.k.Err)
		case r.k.Err != nil && s.limit && r.uerr == nil && r.under > 0:
			c.Fail("C11", "stored-and-failed", "Collect failed with %v but stored its data", r.k.Err)
		}
	}
	if s.limit {
		for _, e := range s.derrs {
			n := 0
			for _, r := range recs {
				if r.k.Err != nil && strings.Contains(r.k.Err.Error(), e) {
					n++
				}
			}
			for _, x := range s.delErrs {
				if strings.Contains(x, e) {
					n++
				}
			}
			if n != 1 {
				c.Fail("C11", "delete-failure-hidden", "a failed deletion (%s) was returned by %d Collect calls", e, n)
			}
		}
		// it goes on working
		s.calm = true
		rt.Calm(true)
		t := rt.GoOn(node, "tail", func() {
			for k := 0; k < s.max+2; k++ {
				r := &limRec{toks: []string{fmt.Sprintf("tail%d", k)}, id: appdash.SpanID{Trace: appdash.ID(1000 + k), Span: 1}, o: &eng.Op{K: "c"}}
				s.call(r, col, []appdash.Annotation{Ann(r.toks[0])})
				if r.k.Err != nil || r.under != 1 {
					c.Fail("C11", "stops-working", "a later Collect reached the store %d times and returned %v", r.under, r.k.Err)
				}
			}
		})
		rt.Join(t, 0)
		for k := 2; k < s.max+2 && s.cerrs == 0; k++ {
			if s.held[appdash.ID(1000+k)] == nil {
				c.Fail("C11", "newest-lost", "trace %d, one of the %d newest, is not in the store", 1000+k, s.max)
			}
		}
		return
	}
	// the age limit: collection goes on, nothing fails any more
	s.calm = true
	rt.Calm(true)
	d := s.slowMax // what is under way may still take
	step := s.age/5 + 1
	rounds := 0
	t := rt.GoOn(node, "tail", func() {
		rt.Sleep(4*d + tick)
		end := rt.Now() + 7*s.age
		for rt.Now() < end {
			rounds++
			id := appdash.ID(1)
			if rounds%3 == 0 {
				id = appdash.ID(1000 + rounds)
			}
			r := &limRec{toks: []string{fmt.Sprintf("tail%d", rounds)}, id: appdash.SpanID{Trace: id, Span: 1}, o: &eng.Op{K: "c"}}
			s.call(r, col, []appdash.Annotation{Ann(r.toks[0])})
			if r.k.Err != nil || r.under != 1 {
				c.Fail("C10", "stops-working", "a later Collect reached the store %d times and returned %v", r.under, r.k.Err)
			}
			for _, h := range s.all() {
				from := h.ret
				if h.pre {
					from = s.began
				}
				if tail0 := end - 7*s.age; from < tail0 {
					// its deletion may have failed until then
					from = tail0
				}
				if h.ret == 0 && !h.pre {
					continue
				}
				if age := rt.Now() - from; age > 2*s.age+4*step+tick {
					c.Fail("C10", "old-kept", "trace %d is still in the store %v after it was collected although collection goes on; the age limit is %v", uint64(h.id), time.Duration(age), time.Duration(s.age))
					return
				}
			}
			rt.Sleep(step)
		}
	})
	rt.Join(t, 0)
	c.Add("tail_rounds", int64(rounds))
}

func init() {
	sc := &eng.Scenario{Name: "limited", Gen: genLimit, Run: runLimit}
	eng.Register(&eng.PropCfg{ID: "C10", Scen: []eng.Weighted{{S: sc, W: 1}}, Quick: 400000, Deep: 40000000, QuickSec: 40, DeepSec: 600, Level: "exploration",
		Real: []string{"store.go RecentStore", "store.go MemoryStore behind it in a third of the runs"}, Stub: []string{"underlying DeleteStore (tracks what is held; slow, failing, partially failing)", "clock (with wall clock jumps), mutex and goroutine scheduler (simulated)"}})
	eng.Register(&eng.PropCfg{ID: "C11", Scen: []eng.Weighted{{S: sc, W: 1}}, Quick: 500000, Deep: 40000000, QuickSec: 40, DeepSec: 600, Level: "exploration",
		Real: []string{"store.go LimitStore", "store.go MemoryStore behind it in a third of the runs"}, Stub: []string{"underlying DeleteStore (tracks what is held; slow, failing)", "mutex and goroutine scheduler (simulated)"}})
}
