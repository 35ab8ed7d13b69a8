package scen

import (
	"fmt"
	"log"
	"sort"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"

	"vsim/eng"
	"vsim/rt"
)

// The e2e scenario (C19) runs a whole deployment: applications that record spans through chunked and remote collectors
// over a faulty network to one server, which stores them, persists its store to a file and is killed and restarted
// from it. Applications are killed and stopped, too.
//
// ops: s spans of client C by a script (app A); F Flush of app A; G graceful stop and restart of app A; faults (task
// 99): P/H partition and heal app A's host, R reset its connections, K kill the server, S start it, X crash app A.
// script: n Name, m Msg, l LogWithTimestamp, e event, a raw annotations, A raw annotations that stay unfinished,
// c child, x child in the next application (by the text of its span ID), f finish, z sleep, q query the server.
// cfg: napps, chunked, interval, ftimeout, maxq, tls, pint, wrap, slowdisk

const e2eFile = "/data/appdash.gob"

type eeApp struct {
	host *rt.Host
	inc  *eeInc
	n    int
}

// eeInc is an incarnation of an application.
type eeInc struct {
	app     *eeApp
	node    *rt.Node
	rc      *appdash.RemoteCollector
	cc      *appdash.ChunkedCollector
	col     appdash.Collector
	errs    []uint64 // when an error was reported
	crashed uint64
	stopped bool
	made    *rt.Edge
	closed  uint64
	// no collection made after this has to be flushed
	stopping uint64
}

// eeUnit is one collection: what was recorded at once.
type eeUnit struct {
	id   appdash.SpanID
	inc  *eeInc
	anns []string
	toks []string
	k    Call
	at   []eeArr
	err  bool
}

type eeArr struct {
	seq uint64
	t   int64
	gen int
}

type eeWorld struct {
	c       *eng.C
	p       *eng.Plan
	apps    []*eeApp
	units   []*eeUnit
	byTok   map[string]*eeUnit
	spans   map[appdash.SpanID][]*eeUnit
	srv     *rt.Host
	node    *rt.Node
	mem     *appdash.MemoryStore
	gen     int
	died    []int64           // when each generation died
	loaded  []map[string]bool // tokens and spans loaded by each generation
	ntok    int
	start   *rt.Task
	queries int
	faulty  bool
	persErr error
}

// eeTap stands between the server and its store.
type eeTap struct {
	w     *eeWorld
	gen   int
	store appdash.Collector
}

func eeKV(a appdash.Annotation) string { return a.Key + "=" + string(a.Value) }

func (t *eeTap) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	Keep(as)
	w := t.w
	seen := map[*eeUnit]bool{}
	for _, a := range as {
		if u := w.byTok[string(a.Value)]; u != nil && !seen[u] {
			seen[u] = true
			u.at = append(u.at, eeArr{rt.Seq(), rt.Now(), t.gen})
		}
	}
	err := t.store.Collect(id, as...)
	if err != nil && !rt.Killed() {
		w.c.Fail("C19", "store-error", "the server's store refused a collection on %v: %v", id, err)
	}
	return err
}

func (w *eeWorld) tok() string {
	w.ntok++
	return fmt.Sprintf("tok%d.", w.ntok)
}

func (w *eeWorld) up() {
	if w.node != nil && w.node.Alive {
		return
	}
	if w.gen++; w.gen > 1 {
		rt.CountFault(rt.FRestart)
	}
	gen := w.gen
	w.node = rt.NewNode(fmt.Sprintf("server%d", gen), w.srv)
	mem := appdash.NewMemoryStore()
	w.mem = mem
	loaded := map[string]bool{}
	ready := rt.MakeChan[struct{}](0)
	w.start = rt.GoOn(w.node, "serve", func() {
		if f, err := rt.Os_Open(e2eFile); err == nil {
			if _, err := mem.ReadFrom(f); err != nil {
				w.c.Fail("C19", "unreadable", "the restarted server cannot load its file: %v", err)
			}
			f.Close()
		}
		ts, err := mem.Traces(appdash.TracesOpts{})
		if err != nil {
			w.c.Fail("C19", "query", "%v", err)
		}
		for _, t := range ts {
			eachSpan(t, func(s *appdash.Trace) {
				loaded[s.Span.ID.String()] = true
				for _, a := range s.Annotations {
					loaded[string(a.Value)] = true
				}
			})
		}
		rt.GoNamed("persist", func() {
			err := appdash.PersistEvery(mem, time.Duration(w.p.G("pint")), e2eFile)
			if !rt.Killed() {
				w.c.Fail("C19", "persist", "PersistEvery ended with %v although the disk works", err)
			}
		})
		var st appdash.Collector = mem
		switch w.p.G("wrap") {
		case 1:
			st = &appdash.RecentStore{MinEvictAge: 100 * time.Hour, DeleteStore: mem}
		case 2:
			st = &appdash.LimitStore{Max: 100000, DeleteStore: mem}
		}
		l, err := rt.Net_Listen("tcp", ":7701")
		if err != nil {
			panic(err)
		}
		if w.p.G("tls") == 1 {
			l = rt.Tls_NewListener(l, nil)
		}
		cs := appdash.NewServer(l, appdash.NewLocalCollector(&eeStore{Store: nil, tap: &eeTap{w, gen, st}, mem: mem}))
		cs.Log = log.New(nullWriter{}, "", 0)
		rt.Close(ready)
		cs.Start()
	})
	rt.Recv2(ready)
	w.loaded = append(w.loaded, loaded)
}

// eeStore makes the tap a Store.
type eeStore struct {
	appdash.Store
	tap *eeTap
	mem *appdash.MemoryStore
}

func (s *eeStore) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	return s.tap.Collect(id, as...)
}
func (s *eeStore) Trace(id appdash.ID) (*appdash.Trace, error) { return s.mem.Trace(id) }

func eachSpan(t *appdash.Trace, f func(*appdash.Trace)) {
	n := 0
	var walk func(*appdash.Trace)
	walk = func(t *appdash.Trace) {
		if n++; t == nil || n > 5000 {
			return
		}
		f(t)
		for _, s := range t.Sub {
			walk(s)
		}
	}
	walk(t)
}

type eeLog struct {
	inc *eeInc
}

func (l eeLog) Write(p []byte) (int, error) {
	if strings.Contains(string(p), "dropped") {
		l.inc.errs = append(l.inc.errs, rt.Seq())
	}
	return len(p), nil
}

func (a *eeApp) up(w *eeWorld) {
	a.n++
	p := w.p
	inc := &eeInc{app: a, node: rt.NewNode(fmt.Sprintf("%s.%d", a.host.Name, a.n), a.host)}
	if p.G("tls") == 1 {
		inc.rc = appdash.NewTLSRemoteCollector("srv:7701", nil)
	} else {
		inc.rc = appdash.NewRemoteCollector("srv:7701")
	}
	inc.rc.Log = log.New(nullWriter{}, "", 0)
	inc.col = inc.rc
	if p.G("chunked") == 1 || p.G("chunked") == 2 && a.host.Name == "app0" {
		inc.cc = &appdash.ChunkedCollector{Collector: inc.rc, MinInterval: time.Duration(p.G("interval")), FlushTimeout: time.Duration(p.G("ftimeout")), MaxQueueSize: uint64(p.G("maxq")), Log: log.New(eeLog{inc}, "", 0)}
		inc.col = inc.cc
	}
	inc.made = rt.NewEdge()
	a.inc = inc
}

func genE2E(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	g := p.Cfg
	na := 1 + r.Intn(3)
	g["napps"] = int64(na)
	g["chunked"] = pick(r, int64(0), 1, 1, 1, 2)
	g["interval"] = pick(r, 1*ms, 10*ms, 100*ms, 500*ms)
	g["tls"] = int64(pick(r, 0, 0, 0, 1))
	g["pint"] = pick(r, 20*ms, 100*ms, 500*ms, 2*sec)
	g["wrap"] = int64(r.Intn(3))
	if r.Intn(6) == 0 {
		g["slowdisk"] = pick(r, int64(100), 500)
	}
	if r.Intn(8) == 0 {
		g["ftimeout"] = ms + logUniform(r, 2*sec)
	}
	if r.Intn(8) == 0 {
		g["maxq"] = 100 + logUniform(r, 2000)
	}
	net := &p.Net
	net.DelayMax = pick(r, 0, 10*us, ms, 50*ms)
	net.Frag = pick(r, 0, 0.1, 0.5)
	net.ShortRead = pick(r, 0, 0.1, 0.5)
	net.Window = pick(r, 0, 0, 0, 400)
	faults := r.Intn(3) // none, network, network and crashes
	if faults > 0 {
		net.Reset = pick(r, 0, 0, 0.01, 0.05)
		net.Refuse = pick(r, 0, 0, 0.1)
		net.AcceptErr = pick(r, 0, 0, 0.1)
		net.Stall = pick(r, 0, 0, 0.05)
		net.StallMax = logUniform(r, sec)
	}
	clients := 1 + r.Intn(4)
	n := 2 + r.Intn(14)
	if deep && r.Intn(5) == 0 {
		n += 30
	}
	delay := pick(r, 10*us, ms, 50*ms, 500*ms)
	for i := 0; i < n; i++ {
		o := eng.Op{K: "s", C: r.Intn(clients), A: int64(r.Intn(na)), E: int64(r.Intn(6))}
		var sb []byte
		alphabet := "nmleaacccxxffz"
		if r.Intn(4) == 0 {
			alphabet += "qA"
		}
		for j, m := 0, r.Intn(9); j < m; j++ {
			sb = append(sb, alphabet[r.Intn(len(alphabet))])
		}
		o.S = string(sb)
		switch r.Intn(12) {
		case 0:
			o.K = "F"
		case 1:
			if r.Intn(3) == 0 {
				o.K = "G"
			}
		}
		if r.Intn(2) == 0 {
			o.D = logUniform(r, delay)
		}
		p.Ops = append(p.Ops, o)
	}
	if faults > 0 {
		span := int64(n)*delay/2 + 2*ms
		kinds := []string{"P", "R"}
		if faults == 2 {
			kinds = []string{"P", "R", "K", "K", "X"}
		}
		for i := 0; i < 1+r.Intn(4); i++ {
			o := eng.Op{K: kinds[r.Intn(len(kinds))], C: 99, A: int64(r.Intn(na)), D: logUniform(r, span)}
			p.Ops = append(p.Ops, o)
			switch o.K {
			case "P":
				p.Ops = append(p.Ops, eng.Op{K: "H", C: 99, A: o.A, D: logUniform(r, span)})
			case "K":
				p.Ops = append(p.Ops, eng.Op{K: "S", C: 99, A: o.A, D: logUniform(r, span)})
			}
		}
	}
	p.MaxTime = 2 * 3600 * sec
	return p
}

type eeEvent struct {
	Tok string
	N   int
}

func (eeEvent) Schema() string { return "e2e" }

// eeRec is a recorder and what was recorded on it but not finished.
type eeRec struct {
	inc  *eeInc
	rec  *appdash.Recorder
	anns []string
	toks []string
	app  int
}

func (w *eeWorld) reported(inc *eeInc, rec *appdash.Recorder) bool {
	es := rec.Errors()
	for range es {
		inc.errs = append(inc.errs, rt.Seq())
	}
	return len(es) > 0
}

func (w *eeWorld) unit(x *eeRec, anns, toks []string, f func()) {
	u := &eeUnit{id: x.rec.SpanID, inc: x.inc, anns: anns, toks: toks}
	w.units = append(w.units, u)
	w.spans[u.id] = append(w.spans[u.id], u)
	for _, t := range toks {
		w.byTok[t] = u
	}
	DoIn(&u.k, func() error { f(); return nil })
	if rt.Killed() {
		return
	}
	u.err = w.reported(x.inc, x.rec)
}

// script records spans.
func (w *eeWorld) script(o *eng.Op, inc *eeInc, i int) {
	stack := []*eeRec{{inc: inc, rec: appdash.NewRecorder(appdash.NewRootSpanID(), inc.col), app: int(o.A)}}
	if o.E == 0 { // a client that makes its own IDs
		stack[0].rec = appdash.NewRecorder(appdash.SpanID{Trace: appdash.ID(5000 + i), Span: appdash.ID(i + 1)}, inc.col)
	}
	finish := func() {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		w.unit(x, x.anns, x.toks, x.rec.Finish)
	}
	event := func(e appdash.Event, toks ...string) {
		x := stack[len(stack)-1]
		as, err := appdash.MarshalEvent(e)
		if err != nil {
			w.c.Fail("C19", "marshal", "%v", err)
			return
		}
		for _, a := range as {
			x.anns = append(x.anns, eeKV(a))
		}
		x.toks = append(x.toks, toks...)
	}
	for j, ch := range o.S {
		if len(stack) == 0 {
			break
		}
		x := stack[len(stack)-1]
		t := w.tok()
		switch ch {
		case 'n':
			event(appdash.SpanNameEvent{Name: t}, t)
			x.rec.Name(t)
		case 'm':
			event(appdash.Msg(t), t)
			x.rec.Msg(t)
		case 'l':
			ts := time.Unix(1700000000+int64(j), int64(j)*1000)
			event(appdash.LogWithTimestamp(t, ts), t)
			x.rec.LogWithTimestamp(t, ts)
		case 'e':
			e := eeEvent{t, j}
			event(e, t)
			x.rec.Event(e)
		case 'a', 'A':
			as := []appdash.Annotation{{Key: "raw" + t, Value: []byte(t)}, {Key: "bin", Value: []byte(t + "\x00\xff")}, {Key: "empty", Value: nil}}[:1+j%3]
			var l []string
			for _, a := range as {
				l = append(l, eeKV(a))
			}
			w.unit(x, l, []string{t}, func() { x.rec.Annotation(as...) })
			if ch == 'A' {
				stack = stack[:len(stack)-1]
			}
		case 'c':
			if len(stack) < 6 {
				stack = append(stack, &eeRec{inc: x.inc, rec: x.rec.Child(), app: x.app})
			}
		case 'x':
			// the span ID travels as text; the other application's task may die on its own
			k := (x.app + 1) % len(w.apps)
			id, err := appdash.ParseSpanID(x.rec.SpanID.String())
			if err != nil || *id != x.rec.SpanID {
				w.c.Fail("C19", "span-text", "the span ID %v became %v (%v)", x.rec.SpanID, id, err)
				return
			}
			sub := strings.Replace(o.S[j+1:], "x", "c", -1)
			if len(sub) > 4 {
				sub = sub[:4]
			}
			other := w.apps[k].inc
			other.made.In()
			child := appdash.NewSpanID(*id)
			on(other.node, "remote-call", func() {
				w.scriptOn(&eng.Op{S: sub, A: int64(k), E: 1}, &eeRec{inc: other, rec: appdash.NewRecorder(child, other.col), app: k})
			})
		case 'f':
			finish()
		case 'z':
			rt.Sleep(logUniform2(rt.Range(rt.KHarness, 50*ms, true)))
		case 'q':
			on(w.node, "query", func() { w.query("during") })
		}
		if rt.Killed() || w.c.Failed() {
			return
		}
	}
	for len(stack) > 0 {
		finish()
		if rt.Killed() {
			return
		}
	}
}

// on runs f as a task of a process, if it is alive, and waits for it.
func on(n *rt.Node, name string, f func()) {
	if n.Alive {
		rt.Join(rt.GoOn(n, name, f), 0)
	}
}

func logUniform2(d int64) int64 { return 1 + d }

// scriptOn plays the simple part of a script on a given recorder.
func (w *eeWorld) scriptOn(o *eng.Op, x *eeRec) {
	for j, ch := range o.S {
		t := w.tok()
		switch ch {
		case 'n', 'm', 'e', 'l':
			e := eeEvent{t, j}
			as, _ := appdash.MarshalEvent(e)
			for _, a := range as {
				x.anns = append(x.anns, eeKV(a))
			}
			x.toks = append(x.toks, t)
			x.rec.Event(e)
		case 'a', 'c':
			a := appdash.Annotation{Key: "raw" + t, Value: []byte(t)}
			w.unit(x, []string{eeKV(a)}, []string{t}, func() { x.rec.Annotation(a) })
		case 'z':
			rt.Sleep(1 + rt.Range(rt.KHarness, 10*ms, true))
		}
		if rt.Killed() {
			return
		}
	}
	w.unit(x, x.anns, x.toks, x.rec.Finish)
}

// query checks what the server's store shows: nothing that nobody recorded, no collection in part.
func (w *eeWorld) query(when string) map[appdash.SpanID][]string {
	c := w.c
	w.queries++
	ts, err := w.mem.Traces(appdash.TracesOpts{})
	if rt.Killed() {
		return nil
	}
	if err != nil {
		c.Fail("C19", "query", "Traces failed: %v", err)
		return nil
	}
	m := map[appdash.SpanID][]string{}
	ids := map[appdash.ID]bool{}
	for _, t := range ts {
		if _, err := Canon(t, true); err != nil {
			c.Fail("C19", "tree", "%v", err)
			return nil
		}
		if ids[t.Span.ID.Trace] {
			c.Fail("C19", "trace-twice", "trace %v is in the answer twice", t.Span.ID.Trace)
		}
		ids[t.Span.ID.Trace] = true
		eachSpan(t, func(s *appdash.Trace) {
			id := s.Span.ID
			us := w.spans[id]
			if us == nil {
				c.Fail("C19", "invented-span", "the store has the span %v, which nobody recorded", id)
				return
			}
			var got []string
			for _, a := range s.Annotations {
				got = append(got, eeKV(a))
			}
			m[id] = got
			w.explain(id, us, got)
		})
	}
	return m
}

// counts returns how often each unit of a span is in its annotations.
func (w *eeWorld) counts(us []*eeUnit, got []string) []int {
	n := make([]int, len(us))
	for i, u := range us {
		for _, t := range u.toks {
			k := 0
			for _, g := range got {
				if strings.HasSuffix(g, "="+t) {
					k++
				}
			}
			n[i] = k
			break
		}
	}
	return n
}

// explain checks that a span's annotations are those of its units.
func (w *eeWorld) explain(id appdash.SpanID, us []*eeUnit, got []string) {
	left := map[string]int{}
	for _, g := range got {
		left[g]++
	}
	n := w.counts(us, got)
	for i, u := range us {
		for _, a := range u.anns {
			left[a] -= n[i]
		}
	}
	var keys []string
	for k := range left {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	// the recorder's own reports of errors
	logs := 0
	for _, k := range keys {
		if strings.HasPrefix(k, "Msg=Recorder.") && strings.Contains(k, " error: ") && left[k] > 0 {
			logs += left[k]
			left[k] = 0
		}
	}
	schema, times := logs, logs
	for _, k := range keys {
		switch {
		case k == appdash.SchemaPrefix+"log=" && left[k] > 0 && left[k] <= schema:
			schema -= left[k]
			left[k] = 0
		case strings.HasPrefix(k, "Time=") && left[k] > 0 && left[k] <= times:
			times -= left[k]
			left[k] = 0
		}
	}
	for _, k := range keys {
		switch {
		case left[k] > 0:
			w.c.Fail("C19", "invented-annotation", "span %v has the annotation %q %d times more than it was recorded (it has %q)", id, k, left[k], got)
			return
		case left[k] < 0:
			w.c.Fail("C19", "torn", "span %v has a collection in part: %q is missing (it has %q)", id, k, got)
			return
		}
	}
}

func runE2E(c *eng.C) {
	p := c.P
	w := &eeWorld{c: c, p: p, byTok: map[string]*eeUnit{}, spans: map[appdash.SpanID][]*eeUnit{}, srv: rt.NewHost("srv")}
	w.srv.FS.Cfg = rt.DiskFaults{Slow: float64(p.G("slowdisk")) / 1000}
	for _, o := range p.Ops {
		w.faulty = w.faulty || o.C == 99
	}
	w.faulty = w.faulty || p.Net.Reset > 0 || p.Net.Refuse > 0
	w.up()
	for i := 0; i < int(p.G("napps")); i++ {
		a := &eeApp{host: rt.NewHost(fmt.Sprintf("app%d", i))}
		w.apps = append(w.apps, a)
		a.up(w)
	}
	kill := func() {
		if w.node.Alive {
			w.died = append(w.died, rt.Now())
			rt.Crash(w.node, "killed")
		}
	}
	ended := false
	rt.GoNamed("healer", func() {
		for k := 0; k < 600 && !ended; k++ {
			rt.Sleep(sec)
			if k == 300 {
				rt.HealAll()
				rt.Calm(true)
				w.up()
			}
		}
	})
	stop := func(inc *eeInc) {
		if inc.stopped {
			return
		}
		inc.stopped = true
		inc.stopping = rt.Seq()
		if inc.cc != nil {
			if err := inc.cc.Flush(); err != nil {
				inc.errs = append(inc.errs, rt.Seq())
			}
			inc.cc.Stop()
		}
		inc.rc.Close()
		inc.closed = rt.Seq()
	}
	Clients(c, nil, func(i int, o *eng.Op) {
		a := w.apps[int(o.A)%len(w.apps)]
		for !a.inc.node.Alive && !rt.Killed() {
			rt.Sleep(1000) // it is being restarted
		}
		inc := a.inc
		inc.made.In()
		switch o.K {
		case "s":
			on(inc.node, fmt.Sprintf("work%d", i), func() { w.script(o, inc, i) })
		case "F":
			if inc.cc != nil {
				on(inc.node, "flush", func() {
					if err := inc.cc.Flush(); err != nil {
						inc.errs = append(inc.errs, rt.Seq())
					}
				})
			}
		case "G":
			a.up(w)
			on(inc.node, "stop", func() { stop(inc) })
		case "P":
			rt.Partition(a.host, w.srv, true)
		case "H":
			rt.Partition(a.host, w.srv, false)
		case "R":
			for _, cn := range rt.Conns(inc.node) {
				cn.Reset()
			}
		case "K":
			kill()
		case "S":
			w.up()
		case "X":
			inc.crashed = rt.Seq()
			rt.Crash(inc.node, "crash")
			rt.CountFault(rt.FRestart)
			a.up(w)
		}
	})
	ended = true
	if c.Failed() {
		return
	}
	// the faults stop
	rt.HealAll()
	rt.Calm(true)
	w.up()
	rt.Sleep(1500 * ms)
	faultEnd := rt.Seq()
	var probes []*eeUnit
	for k := 0; k < 4; k++ {
		for i, a := range w.apps {
			inc := a.inc
			x := &eeRec{inc: inc, app: i}
			on(inc.node, "probe", func() {
				x.rec = appdash.NewRecorder(appdash.NewRootSpanID(), inc.col)
				t := w.tok()
				an := appdash.Annotation{Key: "probe", Value: []byte(t)}
				w.unit(x, []string{eeKV(an)}, []string{t}, func() { x.rec.Annotation(an) })
				probes = append(probes, w.byTok[t])
				if inc.cc != nil && k%2 == 1 {
					if err := inc.cc.Flush(); err != nil {
						inc.errs = append(inc.errs, rt.Seq())
					}
				}
			})
		}
		rt.Sleep(p.G("interval") + 50*ms)
	}
	for _, a := range w.apps {
		inc := a.inc
		on(inc.node, "stop", func() { stop(inc) })
	}
	rt.Sleep(300 * ms)
	if c.Failed() {
		return
	}
	w.judge(faultEnd, probes)
}

// excused tells whether a collection may not have arrived.
func (w *eeWorld) excused(u *eeUnit) bool {
	inc := u.inc
	if !u.k.Done || u.err || inc.crashed > 0 {
		return true
	}
	for _, s := range inc.errs {
		if s > u.k.Inv {
			return true
		}
	}
	if inc.cc != nil && inc.stopping > 0 && u.k.Ret > inc.stopping {
		return true // not flushed before Stop
	}
	if inc != inc.app.inc && (w.faulty || w.p.G("ftimeout") > 0) {
		return true // stopped amid the faults: the error of the last automatic flush had no Collect to be returned by
	}
	return w.connFailed(u)
}

// connFailed tells whether a connection that may have carried the collection failed.
func (w *eeWorld) connFailed(u *eeUnit) bool {
	dials := u.inc.node.Dials
	for j, cn := range dials {
		end := ^uint64(0)
		if j+1 < len(dials) {
			end = dials[j+1].Dialed
		}
		if u.k.Inv < end && cn.Faulted > 0 {
			return true
		}
	}
	return false
}

func (w *eeWorld) judge(faultEnd uint64, probes []*eeUnit) {
	c := w.c
	p := w.p
	m := w.query("end")
	if c.Failed() {
		return
	}
	// the answers agree
	seen := map[appdash.ID]bool{}
	for _, u := range w.units {
		if seen[u.id.Trace] {
			continue
		}
		seen[u.id.Trace] = true
		t, err := w.mem.Trace(u.id.Trace)
		_, have := m[u.id]
		if err != nil && have {
			c.Fail("C19", "query", "Trace(%v) fails with %v although Traces has it", u.id.Trace, err)
			return
		}
		if err == nil {
			eachSpan(t, func(s *appdash.Trace) {
				if g, ok := m[s.Span.ID]; !ok || len(g) != len(s.Annotations) {
					c.Fail("C19", "query", "Trace and Traces differ about the span %v", s.Span.ID)
				}
			})
		}
	}
	lost, dup := int64(0), int64(0)
	slack := 2*p.G("pint") + 200*ms
	exact := p.Strat.Jump == 0 && p.G("slowdisk") == 0
	for ui, u := range w.units {
		got, have := m[u.id]
		if len(u.toks) == 0 {
			if !have && !w.excused(u) && len(w.died) == 0 {
				c.Fail("C19", "lost-span", "the span %v, finished without annotations, is not stored", u.id)
				return
			}
			continue
		}
		n := 0
		if have {
			n = w.counts([]*eeUnit{u}, got)[0]
		}
		// from the application to the server
		if len(u.at) == 0 && !w.excused(u) {
			c.Fail("C19", "lost", "unit %d on %v (%s), recorded at %d..%d, never reached the server, although no error was reported and no connection failed", ui, u.id, u.inc.node.Name, u.k.Inv, u.k.Ret)
			return
		}
		if len(u.at) == 0 {
			lost++
		}
		if len(u.at) > 1 {
			dup++
			if !w.connFailed(u) || len(u.at) > 2 {
				c.Fail("C19", "duplicated", "unit %d on %v (%s) reached the server %d times", ui, u.id, u.inc.node.Name, len(u.at))
				return
			}
		}
		// in the server
		sure, may := 0, 0
		for _, a := range u.at {
			may++
			alive := true
			for g := a.gen; g < w.gen; g++ { // every restart since
				if g-1 < len(w.died) && !w.loaded[g][u.toks[0]] {
					alive = false
					if exact && a.t < w.died[g-1]-slack && (g > a.gen || true) {
						c.Fail("C19", "not-restored", "unit %d on %v was stored at %v, the server was killed at %v and did not restore it", ui, u.id, time.Duration(a.t), time.Duration(w.died[g-1]))
						return
					}
					break
				}
			}
			if alive {
				sure++
			}
		}
		if n > may {
			c.Fail("C19", "duplicated", "unit %d on %v is stored %d times, it reached the server %d times", ui, u.id, n, may)
			return
		}
		if n < sure && len(u.at) == 1 || n < 1 && sure > 0 {
			c.Fail("C19", "lost-in-store", "unit %d on %v reached the server %d times (lost in restarts: %d), it is stored %d times", ui, u.id, may, may-sure, n)
			return
		}
	}
	for i, u := range probes {
		last := i >= len(probes)-len(w.apps)
		if last && (u.err || len(u.at) != 1) {
			c.Fail("C19", "no-recovery", "a second and more after the faults had stopped, a collection of %s failed (error %v, arrived %d times)", u.inc.node.Name, u.err, len(u.at))
			return
		}
	}
	if !w.faulty && p.G("maxq") == 0 && p.G("ftimeout") == 0 && p.Net.AcceptErr == 0 {
		stops := false
		for _, o := range p.Ops {
			stops = stops || o.K == "G"
		}
		for _, a := range w.apps {
			if len(a.inc.errs) > 0 && !stops {
				c.Fail("C19", "spurious-error", "%s was given an error although nothing failed", a.inc.node.Name)
			}
		}
	}
	c.Add("units", int64(len(w.units)))
	c.Add("lost_with_excuse", lost)
	c.Add("duplicated_by_reconnect", dup)
	c.Add("queries", int64(w.queries))
	c.Add("server_restarts", int64(w.gen-1))
}

func init() {
	sc := &eng.Scenario{Name: "e2e", Gen: genE2E, Run: runE2E}
	eng.Register(&eng.PropCfg{ID: "C19", Scen: []eng.Weighted{{S: sc, W: 1}}, Quick: 60000, Deep: 8000000, QuickSec: 75, DeepSec: 600, Level: "exploration",
		Real: []string{"recorder.go, event.go, reflect.go", "collector.go ChunkedCollector, RemoteCollector, CollectorServer, LocalCollector", "store.go MemoryStore, PersistEvery, RecentStore, LimitStore", "internal/wire, gogo/protobuf framing", "id.go, span.go"},
		Stub: []string{"TCP and TLS (simulated connections)", "disk (simulated file system)", "clock, mutex and goroutine scheduler (simulated)"}})
}
