package scen

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"time"

	"sourcegraph.com/sourcegraph/appdash"

	"vsim/eng"
	"vsim/rt"
	"vsim/user"
)

// The race-mix scenario has a few tasks use every kind of shared object at once, ordered by nothing but the code
// under test. Only the race detector and panics are asked.
//
// ops: c Collect on store A; t Trace; q Traces; d Delete; w Write; r ReadFrom; k chunked Collect; f Flush; z Stop;
// n remote Collect; x Close; i new IDs; e event conversion; h Recorder life; l Errors of a shared recorder;
// m MultiStore reads.
// cfg: log (nil loggers), debug, trace, lim, evict, persist

type mixEvent struct {
	Name string
	N    int
	At   time.Time
	D    time.Duration
	L    []string
	M    map[string]string
	B    []byte
}

func (mixEvent) Schema() string { return "mix" }

type mixCol struct {
	err      bool
	slow     bool
	interval int64
}

func (m mixCol) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	Keep(as)
	rt.Yield()
	if m.slow && rt.Chance(rt.KHarness, 0.2) {
		rt.CountFault(rt.FCollectorSlow)
		rt.Sleep(1 + rt.Range(rt.KHarness, 100*ms, true))
	}
	if m.err && rt.Chance(rt.KHarness, 0.3) {
		rt.CountFault(rt.FCollectorErr)
		return errors.New("collector failed")
	}
	return nil
}

var mixKinds = []string{"c", "c", "c", "t", "q", "d", "w", "r", "k", "k", "f", "z", "n", "n", "n", "x", "i", "e", "h", "l", "m", "s"}

func genMix(r *rt.Rand, _ string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	for _, k := range []string{"log", "debug", "trace", "cerr", "slow", "persist"} {
		p.Cfg[k] = int64(r.Intn(2))
	}
	p.Cfg["lim"] = int64(1 + r.Intn(4))
	p.Cfg["evict"] = logUniform(r, int64(time.Minute))
	p.Cfg["interval"] = logUniform(r, int64(2*time.Second)) + 100*us
	p.Cfg["flushto"] = pick(r, int64(0), 1, ms, 50*ms, 2*sec)
	p.Cfg["max"] = pick(r, int64(0), 100, 1000, 1<<20)
	p.As = "none"
	p.Net.DelayMax = logUniform(r, min(50*ms, 20*p.Cfg["interval"]))
	p.Net.Frag = 0.1
	if r.Intn(3) == 0 {
		p.Net.Reset = 0.02
	}
	// a few kinds, so that tasks meet
	var kinds []string
	for k := 1 + r.Intn(5); k > 0; k-- {
		kinds = append(kinds, mixKinds[r.Intn(len(mixKinds))])
	}
	n := 4 + r.Intn(40)
	tasks := 2 + r.Intn(3)
	for i := 0; i < n; i++ {
		o := eng.Op{K: kinds[r.Intn(len(kinds))], C: r.Intn(tasks), A: int64(r.Intn(6)), B: int64(1 + r.Intn(3)), E: int64(1 + r.Intn(6))}
		if o.K == "z" && r.Intn(3) > 0 {
			o.K = "k"
		}
		if r.Intn(8) == 0 {
			o.D = logUniform(r, min(3*sec, 20*p.Cfg["interval"]))
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func runMix(c *eng.C) {
	p := c.P
	g := p.G
	appdash.RegisterEvent(mixEvent{})
	host := rt.NewHost("srv")
	node := rt.NewNode("server", host)
	app := rt.NewNode("app", nil)
	mem := appdash.NewMemoryStore()
	mem2 := appdash.NewMemoryStore()
	lim := &appdash.LimitStore{Max: int(g("lim")), DeleteStore: mem2}
	rec := &appdash.RecentStore{MinEvictAge: time.Duration(g("evict")), DeleteStore: appdash.NewMemoryStore(), Debug: g("debug") == 1}
	multi := appdash.MultiStore(mem, lim, rec)
	mq := appdash.MultiQueryer(mem, mem2)
	stores := []appdash.Store{mem, lim, rec, multi, mem, multi}
	var logger *log.Logger
	if g("log") == 1 {
		logger = log.New(nullWriter{}, "", 0)
	}
	ready := rt.MakeChan[struct{}](0)
	rt.GoOn(node, "serve", func() {
		l, err := rt.Net_Listen("tcp", ":7701")
		if err != nil {
			panic(err)
		}
		cs := appdash.NewServer(l, multi)
		cs.Log = logger
		cs.Debug, cs.Trace = g("debug") == 1, g("trace") == 1
		rt.Close(ready)
		cs.Start()
	})
	rt.Recv2(ready)
	if g("persist") == 1 {
		rt.GoOn(node, "persist", func() { appdash.PersistEvery(mem, time.Duration(g("interval")), "/data/mix.gob") })
	}
	cc := appdash.NewChunkedCollector(mixCol{g("cerr") == 1, g("slow") == 1, g("interval")})
	cc.MinInterval, cc.FlushTimeout, cc.MaxQueueSize = time.Duration(g("interval")), time.Duration(g("flushto")), uint64(g("max"))
	cc.Log = logger
	mk := func() *appdash.RemoteCollector {
		rc := appdash.NewRemoteCollector("srv:7701")
		rc.Log = logger
		rc.Debug = g("debug") == 1
		return rc
	}
	rcs := []*appdash.RemoteCollector{mk(), mk()}
	shared := appdash.NewRecorder(appdash.SpanID{Trace: 9, Span: 9}, mixCol{err: true})
	var snap bytes.Buffer
	mem.Collect(appdash.SpanID{Trace: 2, Span: 1})
	mem.Write(&snap)
	var gate rt.Gate
	var ts []*rt.Task
	for k := 0; k < 4; k++ {
		k := k
		ts = append(ts, rt.GoOn(app, fmt.Sprintf("task%d", k), func() {
			gate.Wait()
			for i := range p.Ops {
				o := &p.Ops[i]
				if o.C != k {
					continue
				}
				Delay(o)
				id := appdash.SpanID{Trace: appdash.ID(o.E), Span: appdash.ID(o.B), Parent: appdash.ID(o.B - 1)}
				st := stores[o.A]
				as := []appdash.Annotation{Ann(fmt.Sprint(i)), Ann("x")}
				switch o.K {
				case "c":
					st.Collect(id, as...)
					user.Scribble(as)
				case "t":
					t, _ := st.Trace(id.Trace)
					KeepTraces(t)
				case "q":
					l, _ := mem.Traces(appdash.TracesOpts{})
					KeepTraces(l...)
				case "m":
					l, _ := mq.Traces(appdash.TracesOpts{})
					KeepTraces(l...)
				case "d":
					mem.Delete(id.Trace, appdash.ID(o.B))
				case "w":
					mem.Write(io.Discard)
				case "r":
					mem.ReadFrom(bytes.NewReader(snap.Bytes()))
				case "k":
					cc.Collect(id, as...)
					user.Scribble(as)
				case "f":
					cc.Flush()
				case "z":
					cc.Stop()
				case "n":
					rcs[o.A%2].Collect(id, as...)
					user.Scribble(as)
				case "x":
					rcs[o.A%2].Close()
				case "i":
					user.ReadAnns(nil)
					appdash.NewSpanID(appdash.NewRootSpanID())
				case "e", "s":
					ev := mixEvent{Name: "n", N: i, L: []string{"a", "b"}, M: map[string]string{"k": "v"}, B: []byte("bytes")}
					as, err := appdash.MarshalEvent(ev)
					if err == nil {
						var evs []appdash.Event
						appdash.UnmarshalEvents(as, &evs)
					}
					user.ScribbleMap(ev.M)
				case "h":
					r := appdash.NewRecorder(appdash.NewSpanID(id), cc)
					r.Name("span")
					ch := r.Child()
					ev := mixEvent{M: map[string]string{"k": "v"}, L: []string{"a"}}
					ch.Event(ev)
					user.ScribbleMap(ev.M)
					r.Msg("m")
					ch.Finish()
					r.Finish()
					r.Errors()
				case "l":
					shared.Errors()
				}
			}
		}))
	}
	gate.Open()
	for _, t := range ts {
		rt.Join(t, 0)
	}
	cc.Stop()
	for _, rc := range rcs {
		rc.Close()
	}
	rt.Crash(node, "exit")
	c.Add("mixed", 1)
}
