package scen

import (
	"errors"
	"fmt"
	"log"
	"sort"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"

	"vsim/eng"
	"vsim/rt"
	"vsim/user"
)

// The chunked scenario drives a ChunkedCollector over a simulated underlying collector that is slow, fails or gets
// stuck.
//
// ops: c Collect on span A, len(X) annotations with B bytes of padding; f Flush; s Stop.
// cfg: interval, ftimeout, maxq, err, slow (per mille), slowmax, stuck, mode

const (
	cmMixed    = 0 // automatic and explicit flushes
	cmExplicit = 1 // explicit flushes by one client only
	cmAuto     = 2 // automatic flushes only
)

// hand is a call of the underlying collector.
type hand struct {
	id         appdash.SpanID
	toks       []string
	start, end uint64
	t0, t1     int64
	err        error
	bytes      int
	flush      int // number of OnFlush calls so far
}

type sink struct {
	c        *eng.C
	hands    []*hand
	open     int
	errP     float64
	slowP    float64
	slowMax  int64
	stuckP   float64
	release  chan struct{}
	released bool
	calm     bool
	force    bool
	nerr     int
	flushes  []mark
	onHand   func(h *hand)
	dropLog  int
}

type mark struct {
	seq uint64
	at  int64
}

func newSink(c *eng.C) *sink {
	p := c.P
	return &sink{c: c, errP: float64(p.G("err")) / 1000, slowP: float64(p.G("slow")) / 1000, slowMax: p.G("slowmax"), stuckP: float64(p.G("stuck")) / 1000,
		release: rt.MakeChan[struct{}](0)}
}

func (s *sink) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	Keep(as)
	h := &hand{id: id, start: rt.Seq(), t0: rt.Now(), flush: len(s.flushes)}
	for _, a := range as {
		t, ok := Tok(appdash.Annotation{Key: a.Key, Value: []byte(strings.TrimRight(string(a.Value), "."))})
		if !ok {
			s.c.Fail("C05", "mangled", "the underlying collector received a mangled annotation %q=%q", a.Key, short(string(a.Value), 80))
		}
		h.toks = append(h.toks, t)
		h.bytes += len(a.Key) + len(a.Value)
	}
	s.hands = append(s.hands, h)
	if s.onHand != nil {
		s.onHand(h)
	}
	s.open++
	rt.Yield()
	if !s.calm {
		if s.stuckP > 0 && rt.Chance(rt.KHarness, s.stuckP) && !s.released {
			rt.CountFault(rt.FCollectorStuck)
			rt.Recv2(s.release)
		} else if s.slowP > 0 && rt.Chance(rt.KHarness, s.slowP) {
			rt.CountFault(rt.FCollectorSlow)
			rt.Sleep(1 + rt.Range(rt.KHarness, s.slowMax, true))
		}
		if s.errP > 0 && rt.Chance(rt.KHarness, s.errP) {
			s.nerr++
			rt.CountFault(rt.FCollectorErr)
			h.err = fmt.Errorf("sink-err-%d.", s.nerr)
		}
	}
	if s.force {
		s.nerr++
		h.err = fmt.Errorf("sink-err-%d.", s.nerr)
	}
	s.open--
	h.end, h.t1 = rt.Seq(), rt.Now()
	return h.err
}

func (s *sink) Write(p []byte) (int, error) {
	if strings.Contains(string(p), "dropped") {
		s.dropLog++
	}
	return len(p), nil
}

type ccRec struct {
	i     int
	o     *eng.Op
	k     Call
	id    appdash.SpanID
	toks  []string
	bytes int
	// for flushes: what was handed over between invocation and return
	from, to int
	got      []string
}

// how a Collect ended
const (
	acYes = iota
	acNo
	acMaybe
)

func (r *ccRec) accepted(p *eng.Plan) int {
	e := r.k.Err
	switch {
	case !r.k.Done:
		return acMaybe
	case e == nil || strings.Contains(e.Error(), "sink-err"):
		return acYes
	case isDrop(e):
		if p.G("maxq") == 0 {
			return acYes // reported for an automatic flush
		}
		if p.G("ftimeout") == 0 || p.G("mode") == cmExplicit {
			return acNo
		}
		return acMaybe
	}
	return acNo
}

func isDrop(e error) bool {
	return e != nil && (errors.Is(e, appdash.ErrQueueDropped) || strings.Contains(e.Error(), appdash.ErrQueueDropped.Error()))
}

func genChunk(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	g := p.Cfg
	mode := int64(r.Intn(3))
	if prop == "C06" && r.Intn(2) == 0 {
		mode = cmExplicit
	}
	g["mode"] = mode
	g["interval"] = pick(r, 1*ms, 5*ms, 20*ms, 500*ms)
	if mode == cmExplicit {
		g["interval"] = 3600 * sec
		g["nojump"] = 1
	}
	if r.Intn(2) == 0 {
		g["err"] = pick(r, int64(50), 200, 500, 1000)
	}
	if r.Intn(2) == 0 {
		g["slow"] = pick(r, int64(100), 300, 1000)
		g["slowmax"] = logUniform(r, 100*ms)
	}
	switch prop {
	case "C05":
		if r.Intn(5) == 0 {
			g["ftimeout"] = ms + logUniform(r, 50*ms)
		}
		if r.Intn(5) == 0 {
			g["maxq"] = 60 + logUniform(r, 400)
		}
	case "C06":
		switch r.Intn(3) {
		case 0:
			g["maxq"] = 30 + logUniform(r, 400)
		case 1:
			g["ftimeout"] = ms + logUniform(r, 50*ms)
			g["slow"] = pick(r, int64(300), 700, 1000)
			g["slowmax"] = g["ftimeout"] * int64(1+r.Intn(3))
		case 2:
			g["maxq"] = 30 + logUniform(r, 400)
			g["ftimeout"] = ms + logUniform(r, 50*ms)
		}
		if r.Intn(2) == 0 && mode == cmAuto {
			g["stuck"] = pick(r, int64(200), 1000)
		}
	case "C07":
		if r.Intn(2) == 0 && mode == cmAuto {
			g["stuck"] = pick(r, int64(100), 500)
		}
		if r.Intn(6) == 0 {
			g["ftimeout"] = ms + logUniform(r, 50*ms)
		}
	}
	clients := 1 + r.Intn(4)
	n := 3 + r.Intn(22)
	if deep && r.Intn(8) == 0 {
		n += 30
	}
	spans := 1 + r.Intn(4)
	fat := 0
	switch r.Intn(24) {
	case 0: // many spans in one flush
		spans = 8 + r.Intn(40)
		n = 10 + r.Intn(60)
		if m := g["maxq"]; m > 0 {
			g["maxq"] = m * 8
		}
	case 1: // many annotations
		fat = 10 + r.Intn(90)
		if m := g["maxq"]; m > 0 {
			g["maxq"] = m * 16
		}
	}
	wide := spans > 4
	gaps := mode != cmExplicit && r.Intn(6) == 0 // pauses in which several flushes take place
	if gaps {
		clients = 1 + r.Intn(2)
	}
	flusher := r.Intn(clients)
	sleepy := r.Intn(3)
	for i := 0; i < n; i++ {
		o := eng.Op{K: "c", C: r.Intn(clients), A: int64(1 + r.Intn(spans)), X: make([]byte, pick(r, 0, 1, 1, 1, 2, 3))}
		if fat > 0 && r.Intn(3) == 0 {
			o.X = make([]byte, r.Intn(fat))
		}
		if r.Intn(5) == 0 {
			o.B = logUniform(r, 200)
		}
		fl := 6
		if prop == "C06" {
			fl = 4
		}
		if wide {
			fl = 20
		}
		if mode != cmAuto && r.Intn(fl) == 0 {
			o = eng.Op{K: "f", C: r.Intn(clients)}
			if mode == cmExplicit {
				o.C = flusher
			}
		}
		if prop == "C07" && r.Intn(8) == 0 {
			o = eng.Op{K: "s", C: r.Intn(clients)}
		}
		if r.Intn(1+3*(2-sleepy)) == 0 {
			o.D = logUniform(r, 2*g["interval"])
			if mode == cmExplicit {
				o.D = logUniform(r, 50*ms)
			}
			if r.Intn(4) == 0 && mode != cmExplicit {
				o.D = g["interval"] // meet the timer
			}
		}
		if gaps && r.Intn(3) == 0 {
			o.D = (1 + r.Int63n(3)) * (g["interval"] + g["slowmax"])
		}
		p.Ops = append(p.Ops, o)
	}
	if r.Intn(2) == 0 {
		g["share"] = 1
	}
	if r.Intn(3) == 0 {
		g["jumpfree"] = 1
	}
	return p
}

func runChunk(c *eng.C) {
	p := c.P
	prop := p.For()
	mode := p.G("mode")
	node := rt.NewNode("app", nil)
	s := newSink(c)
	cc := &appdash.ChunkedCollector{Collector: s, MinInterval: time.Duration(p.G("interval")), FlushTimeout: time.Duration(p.G("ftimeout")), MaxQueueSize: uint64(p.G("maxq")),
		Log: log.New(s, "", 0)}
	cc.OnFlush = func(n int) { s.flushes = append(s.flushes, mark{rt.Seq(), rt.Now()}) }
	if p.G("jumpfree") == 1 {
		rt.Calm(true)
	}
	exact := p.Strat.Jump == 0 || p.G("jumpfree") == 1 // computing takes no time
	var recs []*ccRec
	callers := map[int]*caller{}
	stopRet, stopInv := uint64(0), uint64(0)
	var stopT int64
	Clients(c, node, func(i int, o *eng.Op) {
		r := &ccRec{i: i, o: o}
		recs = append(recs, r)
		switch o.K {
		case "c":
			cl := callers[o.C]
			if cl == nil {
				cl = &caller{share: p.G("share") == 1}
				callers[o.C] = cl
			}
			r.id = appdash.SpanID{Trace: 1, Span: appdash.ID(o.A), Parent: appdash.ID(o.A / 2)}
			r.toks = opToks(i, o)
			as := cl.anns(r.toks)
			for j := range as {
				as[j].Value = append(as[j].Value, strings.Repeat(".", int(o.B))...)
				r.bytes += len(as[j].Key) + len(as[j].Value)
			}
			DoIn(&r.k, func() error { return cc.Collect(r.id, as...) })
			if cl.share {
				user.Scribble(as)
			}
			rt.Note("Collect span %d %v -> %v", o.A, r.toks, r.k.Err)
			if exact && r.k.T1-r.k.T0 > tick {
				c.Fail("C06", "collect-waits", "Collect took %v of simulated time (underlying collector busy: %v)", time.Duration(r.k.T1-r.k.T0), s.open > 0)
			}
			if stopRet > 0 && r.k.Inv > stopRet && r.k.Err == nil {
				c.Fail("C07", "collect-after-stop", "Collect returned no error after Stop had returned")
			}
		case "f":
			r.from = len(s.hands)
			DoIn(&r.k, cc.Flush)
			r.to = len(s.hands)
			for _, h := range s.hands[r.from:r.to] {
				r.got = append(r.got, h.toks...)
			}
			rt.Note("Flush -> %v", r.k.Err)
		case "s":
			if stopInv == 0 {
				stopInv = rt.Seq()
			}
			DoIn(&r.k, func() error { cc.Stop(); return nil })
			if stopRet == 0 {
				stopRet, stopT = rt.Seq(), rt.Now()
			}
			rt.Note("Stop returned")
			if exact && r.k.T1-r.k.T0 > tick {
				c.Fail("C07", "stop-waits", "Stop took %v of simulated time", time.Duration(r.k.T1-r.k.T0))
			}
		}
	})
	if c.Failed() {
		return
	}
	// the faults stop
	nMain := len(recs)
	rt.Calm(true)
	s.calm, s.released = true, true
	rt.Close(s.release)
	rt.Sleep(p.G("slowmax") + ms)
	if mode != cmExplicit {
		rt.Sleep(3 * p.G("interval"))
	}
	idleFlushes := len(s.flushes)
	if stopRet > 0 {
		rt.Sleep(5*p.G("interval") + ms)
		if n := len(s.flushes) - idleFlushes; n > 0 {
			c.Fail("C07", "flush-after-stop", "%d automatic flushes began long after Stop", n)
		}
		if l := rt.LiveTasks(node); len(l) > 0 {
			c.Fail("C07", "not-ended", "%d background tasks are left after Stop: %s", len(l), l[0].Where())
		}
		if exact {
			for _, f := range s.flushes[:idleFlushes] {
				if f.at <= stopT+tick || f.seq < stopRet {
					continue
				}
				explicit := false
				for _, r := range recs {
					explicit = explicit || r.o.K == "f" && r.k.Inv < f.seq && (!r.k.Done || r.k.Ret > f.seq)
				}
				if !explicit {
					c.Fail("C07", "flush-after-stop", "an automatic flush began %v after Stop had returned", time.Duration(f.at-stopT))
				}
			}
		}
	}
	// everything still queued comes out of an explicit flush
	fr := &ccRec{o: &eng.Op{K: "f"}, from: len(s.hands)}
	t := rt.GoOn(node, "final", func() {
		DoIn(&fr.k, cc.Flush)
	})
	rt.Join(t, 0)
	fr.to = len(s.hands)
	for _, h := range s.hands[fr.from:fr.to] {
		fr.got = append(fr.got, h.toks...)
	}
	recs = append(recs, fr)
	checkChunk(c, s, recs, stopRet, exact)
	if c.Failed() || mode != cmAuto && mode != cmMixed || stopInv > 0 {
		return
	}
	// the collector goes on working, also by itself
	nh := len(s.hands)
	_ = nMain
	var k1, k2 *Call
	t = rt.GoOn(node, "tail", func() {
		k1 = Do(func() error { return cc.Collect(appdash.SpanID{Trace: 2, Span: 1}, Ann("tail")) })
	})
	rt.Join(t, 0)
	if k1.Err != nil && !strings.Contains(k1.Err.Error(), "sink-err") && !isDrop(k1.Err) {
		c.Fail(prop, "stops-working", "a later Collect fails: %v", k1.Err)
	}
	tooBig := p.G("maxq") > 0 && p.G("maxq") < 64
	if !tooBig {
		rt.Sleep(p.G("interval") + ms)
		n := 0
		for _, h := range s.hands[nh:] {
			for _, x := range h.toks {
				if x == "tail" {
					n++
				}
			}
		}
		if n != 1 {
			c.Fail(propOr2(prop, "C05", "C06"), "not-flushed", "an annotation accepted when everything was idle was handed over %d times within the flush interval", n)
		}
		s.force = true
		t = rt.GoOn(node, "tail", func() {
			k2 = Do(func() error { return cc.Collect(appdash.SpanID{Trace: 2, Span: 2}, Ann("tail2")) })
		})
		rt.Join(t, 0)
		if k2.Err != nil {
			c.Fail(propOr2(prop, "C05", "C06"), "error-repeated", "an error was reported although nothing had failed since the last Collect: %v", k2.Err)
		}
		// an automatic flush that fails is reported by the next Collect
		rt.Sleep(p.G("interval") + ms)
		s.force = false
		t = rt.GoOn(node, "tail", func() {
			k2 = Do(func() error { return cc.Collect(appdash.SpanID{Trace: 2, Span: 2}, Ann("tail3")) })
		})
		rt.Join(t, 0)
		if k2.Err == nil || !strings.Contains(k2.Err.Error(), fmt.Sprintf("sink-err-%d.", s.nerr)) {
			c.Fail("C05", "error-lost", "the error of an automatic flush was not returned by the next Collect: %v", k2.Err)
		}
		rt.Sleep(p.G("interval") + ms)
		if last := s.hands[len(s.hands)-1]; join(last.toks) != "tail3" {
			c.Fail("C05", "lost", "the annotation of the Collect that returned an earlier flush's error was lost")
		}
	}
}

func propOr2(p string, l ...string) string {
	for _, x := range l {
		if x == p {
			return p
		}
	}
	return l[0]
}

func checkChunk(c *eng.C, s *sink, recs []*ccRec, stopRet uint64, exact bool) {
	p := c.P
	mode := p.G("mode")
	ftimeout := p.G("ftimeout")
	byTok := map[string]*ccRec{}
	for _, r := range recs {
		for _, t := range r.toks {
			byTok[t] = r
		}
	}
	// what else a loss or a repetition breaks
	lostP, twiceP := []string{"C05", "C06"}, []string{"C05"}
	if stopRet > 0 {
		lostP, twiceP = append(lostP, "C07"), append(twiceP, "C07")
	}
	where := map[string]*hand{}
	// exactly once, right span
	for _, h := range s.hands {
		for _, t := range h.toks {
			r := byTok[t]
			if r == nil {
				c.Fail("C05", "foreign", "annotation %s was handed over but never collected", t)
				return
			}
			if where[t] != nil {
				c.Fail(propOr2(p.For(), twiceP...), "twice", "annotation %s was handed over twice", t)
				return
			}
			where[t] = h
			if r.id != h.id {
				c.Fail("C05", "wrong-span", "annotation %s of span %v was handed over under %v", t, r.id, h.id)
				return
			}
			if r.k.Inv > h.start {
				c.Fail("C05", "foreign", "annotation %s was handed over before it was collected", t)
			}
			if r.accepted(p) == acNo {
				pr := "C05"
				if stopRet > 0 && !isDrop(r.k.Err) {
					pr = "C07"
				}
				c.Fail(pr, "refused-delivered", "annotation %s was handed over although its Collect failed with: %v", t, r.k.Err)
				return
			}
		}
		// calls contiguous and in order
		if why := contiguous(h.toks, byTok); why != "" {
			c.Fail("C05", "order", "handed over %v under span %v: %s", h.toks, h.id, why)
			return
		}
	}
	var drops []*ccRec // refusals for size
	reported := s.dropLog > 0
	timedOut := false
	for _, r := range recs {
		if r.o.K == "c" && isDrop(r.k.Err) {
			reported = true
			if r.accepted(p) != acYes {
				drops = append(drops, r)
			}
		}
		if r.o.K == "f" && isDrop(r.k.Err) {
			reported = true
			timedOut = true
		}
	}
	solo := mode != cmMixed
	// losses
	for _, r := range recs {
		if r.o.K != "c" || len(r.toks) == 0 || r.accepted(p) != acYes {
			continue
		}
		n := 0
		for _, t := range r.toks {
			if where[t] != nil {
				n++
			}
		}
		if n == len(r.toks) {
			continue
		}
		if n > 0 {
			c.Fail(propOr2(p.For(), lostP...), "torn", "of one Collect, %d of %d annotations were handed over (%v)", n, len(r.toks), r.toks)
			return
		}
		byDrop := false
		for _, d := range drops {
			byDrop = byDrop || r.k.Inv < d.k.Ret
		}
		byTimeout := ftimeout > 0
		if !reported {
			c.Fail(propOr2(p.For(), lostP...), "lost", "annotations %v were accepted and never handed over, and no drop was reported", r.toks)
			return
		}
		if !byDrop && !byTimeout {
			c.Fail(propOr2(p.For(), lostP...), "lost", "annotations %v were accepted and never handed over, and neither limit applies to them", r.toks)
			return
		}
		if !byDrop && mode == cmExplicit && !timedOut {
			c.Fail(propOr2(p.For(), lostP...), "lost", "annotations %v were accepted and never handed over, and no flush reported a drop", r.toks)
			return
		}
		c.Add("dropped_collections", 1)
	}
	// a size drop is total: what was queued before it and not yet taken by a flush never comes out
	if solo {
		for _, d := range drops {
			if d.accepted(p) != acNo {
				continue
			}
			for _, r := range recs {
				if r.o.K != "c" || len(r.toks) == 0 || r.k.Ret == 0 || r.k.Ret > d.k.Inv {
					continue
				}
				h := where[r.toks[0]]
				if h == nil || h.start < d.k.Ret {
					continue
				}
				// handed over after the drop: had its flush begun before?
				begun := false
				if mode == cmExplicit {
					for _, f := range recs {
						begun = begun || f.o.K == "f" && f.k.Inv < d.k.Ret && f.k.Inv < h.start && (f.k.Ret == 0 || f.k.Ret > h.start)
					}
				} else {
					begun = h.flush == 0 || !exact || s.flushes[h.flush-1].seq < d.k.Ret || s.flushes[h.flush-1].at <= d.k.T1+tick
				}
				if !begun {
					c.Fail(propOr2(p.For(), "C06", "C05"), "partial-drop", "a Collect reported the queue dropped, yet %v queued before it was handed over later", r.toks)
					return
				}
			}
		}
	}
	// order across hand-overs, where flushes do not overlap
	if solo {
		for i, h := range s.hands {
			for _, h2 := range s.hands[i+1:] {
				if h.id != h2.id {
					continue
				}
				for _, a := range h.toks {
					for _, b := range h2.toks {
						if x, y := byTok[a], byTok[b]; y.k.Ret != 0 && y.k.Ret < x.k.Inv {
							c.Fail("C05", "order", "span %v: %s was handed over before %s, which had been collected earlier", h.id, a, b)
							return
						}
					}
				}
			}
		}
	}
	// an automatic flush comes in time
	if mode == cmAuto && exact && stopRet == 0 {
		for _, r := range recs {
			if r.o.K != "c" || len(r.toks) == 0 || r.accepted(p) != acYes || where[r.toks[0]] == nil {
				continue
			}
			h := where[r.toks[0]]
			// the time during which a flush was under way since
			busy := busyTime(s.hands, r.k.T1, h.t0)
			if late := h.t0 - r.k.T1 - busy; late > p.G("interval")+tick {
				c.Fail("C05", "late", "annotation %s was handed over %v after its Collect, of which %v were other hand-overs; the interval is %v", r.toks[0], time.Duration(h.t0-r.k.T1), time.Duration(busy), time.Duration(p.G("interval")))
				return
			}
			c.Add("deadlines_checked", 1)
		}
	}
	// an explicit flush hands over everything collected before it
	if mode == cmExplicit {
		for _, f := range recs {
			if f.o.K != "f" || !f.k.Done || isDrop(f.k.Err) {
				continue
			}
			for _, r := range recs {
				if r.o.K == "c" && len(r.toks) > 0 && r.k.Ret != 0 && r.k.Ret < f.k.Inv {
					if h := where[r.toks[0]]; h != nil && h.start > f.k.Ret {
						c.Fail("C05", "flush-incomplete", "Flush returned but %v, accepted before it, was handed over later", r.toks)
						return
					}
				}
			}
		}
		checkChunkModel(c, s, recs)
	}
	// errors
	count := map[string]int{}
	for _, r := range recs {
		if r.k.Err == nil {
			continue
		}
		for _, h := range s.hands {
			if h.err != nil && strings.Contains(r.k.Err.Error(), h.err.Error()) {
				count[h.err.Error()]++
			}
		}
	}
	for _, h := range s.hands {
		if h.err == nil {
			continue
		}
		e := h.err.Error()
		if n := count[e]; n > 1 {
			c.Fail("C05", "error-repeated", "%s of the underlying collector was reported %d times", e, n)
		}
	}
	for _, f := range recs {
		if f.o.K != "f" || mode != cmExplicit {
			continue
		}
		for _, h := range s.hands[f.from:f.to] {
			if h.err != nil && (f.k.Err == nil || !strings.Contains(f.k.Err.Error(), h.err.Error())) {
				c.Fail("C05", "error-lost", "%v of the underlying collector is missing from the error of the flush: %v", h.err, f.k.Err)
				return
			}
		}
		if f.k.Err != nil && !isDrop(f.k.Err) && !strings.Contains(f.k.Err.Error(), "sink-err") {
			c.Fail("C05", "error", "Flush failed with %v", f.k.Err)
		}
	}
	if mode == cmExplicit {
		for _, r := range recs {
			if r.o.K == "c" && r.k.Err != nil && strings.Contains(r.k.Err.Error(), "sink-err") {
				c.Fail("C05", "error", "Collect returned the error of an explicit flush: %v", r.k.Err)
			}
		}
	}
	if mode == cmAuto {
		checkLastErr(c, s, recs)
	}
	checkTimeouts(c, s, recs, exact)
}

// checkLastErr checks that the error of an automatic flush is returned by the next Collect, where flushes do not overlap.
func checkLastErr(c *eng.C, s *sink, recs []*ccRec) {
	p := c.P
	// the flushes that failed, and when they had surely ended: when the next one began
	type fl struct {
		hs   []*hand
		over uint64
	}
	var failed []*fl
	for g := 1; g < len(s.flushes); g++ {
		f := &fl{over: s.flushes[g].seq}
		bad := false
		for _, h := range s.hands {
			if h.flush != g {
				continue
			}
			if h.end == 0 || h.end > f.over {
				return // they overlap
			}
			f.hs = append(f.hs, h)
			bad = bad || h.err != nil
		}
		if bad {
			failed = append(failed, f)
		}
	}
	for _, r := range recs {
		if r.o.K != "c" || !r.k.Done || r.accepted(p) != acYes {
			continue
		}
		// the last flush that had surely ended
		var f *fl
		for _, x := range failed {
			if x.over < r.k.Inv {
				f = x
			}
		}
		if f == nil {
			continue
		}
		if r.k.Err == nil {
			alone := true
			for _, q := range recs {
				alone = alone && (q == r || q.o.K != "c" || q.k.Done && q.k.Ret < f.hs[0].start || q.k.Inv > r.k.Ret)
			}
			if alone {
				c.Fail("C05", "error-lost", "the error of an automatic flush, %v, was not returned by the next Collect", firstErr(f.hs))
				return
			}
			continue
		}
		for _, x := range failed {
			if x == f {
				break
			}
			for _, h := range x.hs {
				if h.err != nil && strings.Contains(r.k.Err.Error(), h.err.Error()) {
					c.Fail("C05", "error-stale", "Collect returned the error of an earlier flush, %v, although a later one had failed with %v", h.err, firstErr(f.hs))
					return
				}
			}
		}
		c.Add("flush_errors_checked", 1)
	}
}

func firstErr(hs []*hand) error {
	for _, h := range hs {
		if h.err != nil {
			return h.err
		}
	}
	return nil
}

func contiguous(toks []string, by map[string]*ccRec) string {
	i := 0
	var prev []*ccRec
	for i < len(toks) {
		r := by[toks[i]]
		if i+len(r.toks) > len(toks) || join(r.toks) != join(toks[i:i+len(r.toks)]) {
			return fmt.Sprintf("the annotations of one Collect, %v, are torn apart or rearranged", r.toks)
		}
		for _, q := range prev {
			if r.k.Ret != 0 && r.k.Ret < q.k.Inv {
				return fmt.Sprintf("%v stands after %v but was collected earlier", r.toks, q.toks)
			}
		}
		prev = append(prev, r)
		i += len(r.toks)
	}
	return ""
}

// busyTime is the time within [a,b] covered by hand-overs.
func busyTime(hs []*hand, a, b int64) int64 {
	type iv struct{ x, y int64 }
	var l []iv
	for _, h := range hs {
		x, y := h.t0, h.t1
		if h.end == 0 {
			y = b
		}
		if x < a {
			x = a
		}
		if y > b {
			y = b
		}
		if x < y {
			l = append(l, iv{x, y})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].x < l[j].x })
	var tot int64
	end := a
	for _, v := range l {
		if v.x < end {
			v.x = end
		}
		if v.y > v.x {
			tot += v.y - v.x
			end = v.y
		}
	}
	return tot
}

// checkTimeouts checks the flush timeout where flushes do not overlap.
func checkTimeouts(c *eng.C, s *sink, recs []*ccRec, exact bool) {
	p := c.P
	ft := p.G("ftimeout")
	if p.G("mode") == cmMixed {
		return
	}
	groups := map[int][]*hand{}
	max := 0
	for _, h := range s.hands {
		groups[h.flush] = append(groups[h.flush], h)
		if h.flush > max {
			max = h.flush
		}
	}
	for g := 0; g <= max; g++ {
		hs := groups[g]
		sum := 0
		for i, h := range hs {
			sum += h.bytes
			if ft > 0 && i+1 < len(hs) && h.t1-hs[0].t0 > ft {
				c.Fail("C06", "timeout-ignored", "a flush called the underlying collector again although a call had returned %v after the first one began; the flush timeout is %v", time.Duration(h.t1-hs[0].t0), time.Duration(ft))
				return
			}
		}
		if mq := p.G("maxq"); mq > 0 && int64(sum) > mq {
			c.Fail("C06", "queue-too-large", "a flush handed over %d bytes, the queue limit is %d", sum, mq)
			return
		}
	}
	if p.G("mode") != cmExplicit {
		return
	}
	for _, f := range recs {
		if f.o.K != "f" || !f.k.Done {
			continue
		}
		hs := s.hands[f.from:f.to]
		if len(hs) == 0 {
			continue
		}
		last := hs[len(hs)-1]
		surely := ft > 0 && last.t1-hs[0].t0 > ft
		maybe := ft > 0 && f.k.T1-f.k.T0 > ft
		if surely && !isDrop(f.k.Err) {
			c.Fail(propOr2(p.For(), "C06", "C05"), "timeout-not-reported", "a flush took %v (timeout %v) and returned %v instead of the queue-dropped error", time.Duration(last.t1-hs[0].t0), time.Duration(ft), f.k.Err)
			return
		}
		if !maybe && isDrop(f.k.Err) {
			c.Fail("C06", "spurious-timeout", "a flush of %v (timeout %v) returned the queue-dropped error", time.Duration(f.k.T1-f.k.T0), time.Duration(ft))
			return
		}
		if isDrop(f.k.Err) {
			c.Add("flush_timeouts", 1)
			for _, r := range recs {
				if r.o.K != "c" || len(r.toks) == 0 || r.k.Ret == 0 || r.k.Ret > f.k.Inv {
					continue
				}
				for _, h := range s.hands[f.to:] {
					for _, t := range h.toks {
						if t == r.toks[0] {
							c.Fail("C06", "not-dropped", "a flush reported its rest dropped, yet %s was handed over later", t)
							return
						}
					}
				}
			}
		}
	}
}

type ccEv struct {
	r   *ccRec
	mq  int64
	max bool
}

// checkChunkModel checks linearizability against a queue with a size limit, for explicit flushes by one client.
// State: "size of payload/entries|tok,tok,...".
func checkChunkModel(c *eng.C, s *sink, recs []*ccRec) {
	p := c.P
	mq := p.G("maxq")
	if len(recs) > 60 {
		return
	}
	var hist []Lin
	for _, r := range recs {
		if !r.k.Done || r.o.K == "s" {
			continue
		}
		if r.o.K == "c" && r.k.Err != nil && !isDrop(r.k.Err) {
			continue // stopped
		}
		hist = append(hist, Lin{r.k.Inv, r.k.Ret, r})
	}
	step := func(st string, v any) (string, bool) {
		r := v.(*ccRec)
		bar := strings.IndexByte(st, '|')
		var bytes, n int64
		fmt.Sscanf(st[:bar], "%d/%d", &bytes, &n)
		q := st[bar+1:]
		if r.o.K == "f" {
			var pend, got []string
			if q != "" {
				pend = strings.Split(q, ",")
			}
			got = append(got, r.got...)
			if isDrop(r.k.Err) {
				// a part of what was queued
				in := map[string]bool{}
				for _, x := range pend {
					in[x] = true
				}
				for _, x := range got {
					if !in[x] {
						return st, false
					}
				}
				return "0/0|", true
			}
			sort.Strings(pend)
			sort.Strings(got)
			return "0/0|", join(pend) == join(got)
		}
		nb, nn := bytes+int64(r.bytes), n+1
		if isDrop(r.k.Err) {
			return "0/0|", mq > 0 && nb+24*nn > mq
		}
		if mq > 0 && nb > mq {
			return st, false
		}
		for _, t := range r.toks {
			if q != "" {
				q += ","
			}
			q += t
		}
		return fmt.Sprintf("%d/%d|%s", nb, nn, q), true
	}
	c.Add("histories_checked", 1)
	switch res, best := Linearizable("0/0|", hist, step); res {
	case 0:
		var b strings.Builder
		for _, h := range hist {
			r := h.V.(*ccRec)
			fmt.Fprintf(&b, "[%d-%d %s %v %dB got %v err %v] ", h.Inv, h.Ret, r.o.K, r.toks, r.bytes, r.got, r.k.Err)
		}
		pr := "C05"
		if mq > 0 {
			pr = propOr2(p.For(), "C06", "C05")
		}
		c.Fail(pr, "not-linearizable", "no order of the %d calls is that of a queue limited to %d bytes (longest explained prefix %d): %s", len(hist), mq, best, short(b.String(), 1800))
	case -1:
		c.Add("histories_undecided", 1)
	}
}

var chunkScen = &eng.Scenario{Name: "chunked", Gen: genChunk, Run: runChunk}

func init() {
	real := []string{"collector.go ChunkedCollector"}
	stub := []string{"underlying Collector (records calls; slow, failing, stuck)", "clock, timers, mutex and goroutine scheduler (simulated)"}
	for _, id := range []string{"C05", "C06", "C07"} {
		eng.Register(&eng.PropCfg{ID: id, Scen: []eng.Weighted{{S: chunkScen, W: 1}}, Quick: 500000, Deep: 60000000, QuickSec: 40, DeepSec: 600, Level: "exploration", Real: real, Stub: stub})
	}
}
