package scen

import (
	"fmt"

	"sourcegraph.com/sourcegraph/appdash"

	"vsim/eng"
	"vsim/rt"
)

// The ids scenario makes spans in several tasks of successive processes, each of which seeds its ID generator anew.
//
// ops: r NewRootSpanID; s NewSpanID below one of the task's spans (A picks); x NewSpanID below a foreign parent;
// h Recorder.Child; S is the process. B: how many times.
// cfg: procs, short (largest read of the random source), ones (position from which it returns ones)

type idRec struct {
	what   string
	parent appdash.SpanID
	id     appdash.SpanID
	proc   int
	task   int
}

type nullCollector struct{}

func (nullCollector) Collect(appdash.SpanID, ...appdash.Annotation) error { return nil }

func genIDs(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	procs := 1 + r.Intn(6)
	p.Cfg["procs"] = int64(procs)
	if r.Intn(4) == 0 {
		p.Cfg["short"] = int64(1 + r.Intn(3))
	}
	if r.Intn(4) == 0 {
		p.Cfg["ones"] = int64(16 + r.Intn(15))
	}
	clients := 1 + r.Intn(5)
	for k := 0; k < procs; k++ {
		n := 1 + r.Intn(16)
		for i := 0; i < n; i++ {
			o := eng.Op{K: pick(r, "r", "r", "s", "s", "x", "h"), C: r.Intn(clients), A: int64(r.Intn(4)), S: fmt.Sprint(k), B: 1}
			if r.Intn(60) == 0 {
				o.B = int64(20 + r.Intn(300)) // runs of IDs, beyond the wrap of a counter's byte
			}
			p.Ops = append(p.Ops, o)
		}
	}
	return p
}

func runIDs(c *eng.C) {
	p := c.P
	var recs []*idRec
	rt.RandSource(int(p.G("short")), int(p.G("ones")))
	for k := 0; k < int(p.G("procs")); k++ {
		node := rt.NewNode(fmt.Sprintf("proc%d", k), nil)
		if k > 0 || p.G("short") > 0 || p.G("ones") > 0 {
			rt.RandSource(int(p.G("short")), int(p.G("ones")))
			t := rt.GoOn(node, "init", func() { appdash.Sim_reset() }) // the new process initialises the package
			rt.Join(t, 0)
		}
		var ts []*rt.Task
		for cl := 0; cl < 5; cl++ {
			cl := cl
			var mine []*eng.Op
			for i := range p.Ops {
				if o := &p.Ops[i]; o.C == cl && o.S == fmt.Sprint(k) {
					mine = append(mine, o)
				}
			}
			if len(mine) == 0 {
				continue
			}
			ts = append(ts, rt.GoOn(node, fmt.Sprintf("task%d", cl), func() {
				var own []appdash.SpanID
				var rec []*appdash.Recorder
				for _, o := range mine {
					for b := int64(0); b < o.B; b++ {
						r := &idRec{what: o.K, proc: k, task: cl}
						switch o.K {
						case "r":
							r.id = appdash.NewRootSpanID()
						case "x":
							r.parent = appdash.SpanID{Trace: appdash.ID(uint64(o.A) * 7777), Span: appdash.ID(1<<63 + uint64(o.A)), Parent: appdash.ID(o.A)}
							r.id = appdash.NewSpanID(r.parent)
						case "s":
							if len(own) == 0 {
								continue
							}
							r.parent = own[int(o.A)%len(own)]
							r.id = appdash.NewSpanID(r.parent)
						case "h":
							if len(rec) == 0 {
								rec = append(rec, appdash.NewRecorder(appdash.SpanID{Trace: 5, Span: 6, Parent: appdash.ID(cl)}, nullCollector{}))
							}
							from := rec[int(o.A)%len(rec)]
							r.parent = from.SpanID
							ch := from.Child()
							r.id = ch.SpanID
							rec = append(rec, ch)
						}
						recs = append(recs, r)
						own = append(own, r.id)
					}
				}
			}))
		}
		for _, t := range ts {
			rt.Join(t, 0)
		}
		rt.Crash(node, "exit")
	}
	seen := map[appdash.ID]*idRec{}
	fresh := func(r *idRec, id appdash.ID, what string) {
		if id == 0 {
			c.Fail("C12", "zero", "a generated %s ID is zero", what)
			return
		}
		if o := seen[id]; o != nil {
			where := "by the same task"
			if o.proc != r.proc {
				where = "by an earlier process"
			} else if o.task != r.task {
				where = "by another task"
			} else if o == r {
				where = "within the same span ID"
			}
			c.Fail("C12", "repeated", "ID %v was generated again, it had been generated %s", id, where)
		}
		seen[id] = r
	}
	for _, r := range recs {
		if c.Failed() {
			return
		}
		if r.what == "r" {
			if r.id.Parent != 0 {
				c.Fail("C12", "root-parent", "a new root span has parent %v", r.id.Parent)
			}
			fresh(r, r.id.Trace, "trace")
		} else {
			if r.id.Trace != r.parent.Trace {
				c.Fail("C12", "child-trace", "a child of %v is in trace %v", r.parent, r.id.Trace)
			}
			if r.id.Parent != r.parent.Span {
				c.Fail("C12", "child-parent", "a child of %v has parent %v", r.parent, r.id.Parent)
			}
		}
		fresh(r, r.id.Span, "span")
	}
	c.Add("ids", int64(len(seen)))
}

func init() {
	sc := &eng.Scenario{Name: "ids", Gen: genIDs, Run: runIDs}
	eng.Register(&eng.PropCfg{ID: "C12", Scen: []eng.Weighted{{S: sc, W: 1}}, Quick: 400000, Deep: 40000000, QuickSec: 30, DeepSec: 600, Level: "exploration",
		Real: []string{"id.go", "span.go", "recorder.go Recorder.Child", "crypto/aes"}, Stub: []string{"crypto/rand (seeded; short reads, extreme values)", "mutex and goroutine scheduler (simulated)"}})
}
