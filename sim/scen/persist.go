package scen

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"

	"vsim/eng"
	"vsim/rt"
)

// The persist scenario runs PersistEvery on a machine whose disk is slow or fails, whose processes are killed and
// whose power is cut, over several generations of the process. Every client owns its traces, so that the content of
// a file tells how many operations of each client it includes.
//
// ops: c Collect trace A span B parent E of client C in generation S with len(X) annotations; d Delete(A)
// cfg: interval, gens, eio, full, slow, werr; per generation g: crash<g> (kill at the n-th disk event, 0: some time
// after the operations), power<g> (cut the power then), idle<g>

const persistFile = "/data/appdash.gob"

type prOp struct {
	e  *stEv
	k  Call
	cl int
	i  int
}

type prVersion struct {
	id    [2]uint64
	data  []byte
	ok    bool // the file exists
	seq   uint64
	until uint64
	t0    int64
	t1    int64 // replaced (or the generation ended)
	slept int64
	s1    int64
	cause string
}

type prGen struct {
	base   []string // content loaded
	ops    []*prOp
	vers   []*prVersion
	failed bool // a disk error was injected
	died   uint64
}

type prStore struct {
	*appdash.MemoryStore
	c    *eng.C
	errP float64
	r    *prRun
}

type prRun struct {
	c       *eng.C
	g       *prGen
	fs      *rt.FS
	past    map[string]bool // contents the file had
	injured string          // an operation that was made to fail, not yet reported
	events  int
	crashAt int
	node    *rt.Node
}

// Write fails at times, before, amid or after writing.
func (s *prStore) Write(w io.Writer) error {
	if s.errP > 0 && rt.Chance(rt.KHarness, s.errP) {
		rt.CountFault(rt.FStoreErr)
		s.r.injured = "store's Write"
		if rt.Choose(rt.KHarness, 2) == 1 {
			s.MemoryStore.Write(&halfWriter{w: w, left: 1 + rt.Choose(rt.KHarness, 200)})
		}
		return errors.New("store-write-failed")
	}
	return s.MemoryStore.Write(w)
}

type halfWriter struct {
	w    io.Writer
	left int
}

func (h *halfWriter) Write(p []byte) (int, error) {
	n := len(p)
	if n > h.left {
		n = h.left
	}
	h.left -= n
	m, err := h.w.Write(p[:n])
	if err == nil && m < len(p) {
		err = errors.New("no space")
	}
	return m, err
}

func genPersist(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	g := p.Cfg
	g["interval"] = pick(r, 5*ms, 10*ms, 100*ms, 1*sec, 3*sec)
	gens := 1 + r.Intn(3)
	g["gens"] = int64(gens)
	if r.Intn(2) == 0 {
		g["mount"] = 1 // the directory of temporary files is another file system
	}
	if r.Intn(2) == 0 {
		g["slow"] = pick(r, int64(50), 200, 600)
	}
	switch r.Intn(4) {
	case 0:
		g["eio"] = pick(r, int64(20), 100, 300)
	case 1:
		g["full"] = pick(r, int64(20), 100, 300)
	case 2:
		g["werr"] = pick(r, int64(100), 400)
	}
	clients := 1 + r.Intn(3)
	for k := 0; k < gens; k++ {
		if r.Intn(2) == 0 {
			g[fmt.Sprintf("crash%d", k)] = int64(1 + r.Intn(25))
		}
		if r.Intn(2) == 0 {
			g[fmt.Sprintf("power%d", k)] = 1
		}
		g[fmt.Sprintf("idle%d", k)] = logUniform(r, 3*g["interval"])
		n := 1 + r.Intn(14)
		if r.Intn(40) == 0 {
			n += 150
		}
		// the spans of a client's traces, in random order
		for i := 0; i < n; i++ {
			cl := r.Intn(clients)
			o := eng.Op{K: "c", C: cl, A: int64(100*cl + 1 + r.Intn(3)), S: fmt.Sprint(k), X: make([]byte, pick(r, 0, 1, 1, 2))}
			o.B = int64(1 + r.Intn(5))
			if o.B > 1 {
				o.E = o.B / 2
			}
			if r.Intn(6) == 0 {
				o = eng.Op{K: "d", C: cl, A: o.A, S: o.S}
			}
			if r.Intn(3) == 0 {
				o.D = logUniform(r, 2*g["interval"])
			}
			p.Ops = append(p.Ops, o)
		}
	}
	if r.Intn(2) == 0 {
		g["nojump"] = 1
	}
	return p
}

func clientOf(trace string) int {
	var id int
	fmt.Sscan(trace[:strings.IndexByte(trace, '{')], &id)
	return id / 100
}

func share(state []string, cl int) string {
	var l []string
	for _, t := range state {
		if clientOf(t) == cl {
			l = append(l, t)
		}
	}
	return strings.Join(l, ";")
}

func loadImage(data []byte) ([]string, error) {
	st := appdash.NewMemoryStore()
	if _, err := st.ReadFrom(strings.NewReader(string(data))); err != nil {
		return nil, err
	}
	return content(st, false)
}

// look notes what the file holds now.
func (r *prRun) look(cause string) {
	d, ok := r.fs.Peek(persistFile)
	id := r.fs.Version(persistFile) // not the bytes: the order in which gob writes maps is random
	g := r.g
	now, seq := rt.Now(), rt.Seq()
	if n := len(g.vers); n > 0 {
		v := g.vers[n-1]
		if !r.node.Alive {
			if v.id != id {
				r.c.Fail("C04", "changed", "the persisted file changed while no process was alive")
			}
			return
		}
		v.until, v.t1, v.s1 = seq, now, r.fs.SleptNow()
		if v.id == id {
			return
		}
	}
	g.vers = append(g.vers, &prVersion{id: id, data: d, ok: ok, seq: seq, until: seq, t0: now, t1: now, slept: r.fs.SleptNow(), s1: r.fs.SleptNow(), cause: cause})
}

func runPersist(c *eng.C) {
	p := c.P
	host := rt.NewHost("machine")
	r := &prRun{c: c, fs: host.FS, past: map[string]bool{}}
	if p.G("mount") == 1 {
		host.FS.Mounts = []string{"/tmp"}
	}
	interval := p.G("interval")
	gens := int(p.G("gens"))
	faulty := p.G("eio")+p.G("full")+p.G("werr") > 0
	cfg := rt.DiskFaults{EIO: float64(p.G("eio")) / 1000, Full: float64(p.G("full")) / 1000, Slow: float64(p.G("slow")) / 1000}
	exact := p.Strat.Jump == 0
	kept := false // a version survived a power loss for sure
	for gi := 0; gi < gens && !c.Failed(); gi++ {
		last := gi == gens-1
		g := &prGen{}
		r.g, r.events, r.injured = g, 0, ""
		r.crashAt = int(p.G(fmt.Sprintf("crash%d", gi)))
		node := rt.NewNode(fmt.Sprintf("app%d", gi), host)
		r.node = node
		st := &prStore{MemoryStore: appdash.NewMemoryStore(), c: c, errP: float64(p.G("werr")) / 1000, r: r}
		r.look("start")
		// load what the previous generation left
		if data, ok := host.FS.Peek(persistFile); ok {
			var err error
			t := rt.GoOn(node, "load", func() { _, err = st.ReadFrom(strings.NewReader(string(data))) })
			rt.Join(t, 0)
			if err == nil {
				g.base, err = content(st, false)
			}
			if err != nil {
				c.Fail("C04", "unreadable", "after a restart the persisted file of %d bytes cannot be loaded: %v", len(data), err)
				return
			}
		}
		host.FS.Cfg = cfg
		host.FS.OnFail = func(op, name string) {
			switch op {
			case "open", "write", "sync", "close", "rename":
				if r.injured == "" {
					r.injured = op
				}
			}
		}
		host.FS.OnEvent = func(op string) {
			r.look(op)
			if r.injured != "" && (op == "open" || op == "renamed") {
				c.Fail("C04", "error-ignored", "a failed %s was not returned by PersistEvery", r.injured)
				return
			}
			r.events++
			if r.events == r.crashAt {
				rt.Crash(node, "killed")
			}
		}
		// the persisting task
		rt.GoOn(node, "persist", func() {
			for !rt.Killed() {
				var ps appdash.PersistentStore = st
				if st.errP == 0 {
					ps = st.MemoryStore
				}
				err := appdash.PersistEvery(ps, time.Duration(interval), persistFile)
				if rt.Killed() {
					return
				}
				rt.Note("PersistEvery returned %v", err)
				switch {
				case err == nil:
					c.Fail("C04", "returned", "PersistEvery returned nil")
					return
				case r.injured == "":
					c.Fail("C04", "spurious-error", "PersistEvery failed although nothing it did failed: %v", err)
					return
				}
				r.injured = ""
				g.failed = true
			}
		})
		// clients
		var ts []*rt.Task
		for cl := 0; cl < 4; cl++ {
			cl := cl
			var mine []*eng.Op
			var idx []int
			for i := range p.Ops {
				if o := &p.Ops[i]; o.C == cl && o.S == fmt.Sprint(gi) {
					mine = append(mine, o)
					idx = append(idx, i)
				}
			}
			if len(mine) == 0 {
				continue
			}
			ts = append(ts, rt.GoOn(node, fmt.Sprintf("client%d", cl), func() {
				for j, o := range mine {
					Delay(o)
					if rt.Killed() {
						return
					}
					x := &prOp{cl: cl, i: idx[j]}
					id := appdash.SpanID{Trace: appdash.ID(o.A), Span: appdash.ID(o.B), Parent: appdash.ID(o.E)}
					if o.K == "d" {
						x.e = &stEv{kind: "d", tr: []appdash.ID{id.Trace}}
						g.ops = append(g.ops, x)
						DoIn(&x.k, func() error { return st.Delete(id.Trace) })
					} else {
						x.e = &stEv{kind: "c", id: id, toks: opToks(idx[j], o)}
						g.ops = append(g.ops, x)
						var as []appdash.Annotation
						for _, t := range x.e.toks {
							as = append(as, Ann(t))
						}
						DoIn(&x.k, func() error { return st.Collect(id, as...) })
					}
				}
			}))
		}
		for _, t := range ts {
			rt.Join(t, 0)
		}
		// a while later
		for left := p.G(fmt.Sprintf("idle%d", gi)); left > 0 && node.Alive; {
			d := min(left, interval/4+1)
			rt.Sleep(d)
			left -= d
			r.look("idle")
		}
		if last && node.Alive {
			// the disk works again: everything gets into the file
			r.crashAt = 0
			host.FS.Cfg = rt.DiskFaults{}
			st.errP = 0
			rt.Calm(true)
			rt.Sleep(2*interval + 400*ms) // whatever failed last is retried, slow operations end
			r.look("end")
			want, err := content(st, false)
			if d, ok := host.FS.Peek(persistFile); err != nil {
				c.Fail("C04", "content", "%v", err)
			} else if !ok {
				c.Fail("C04", "never-persisted", "nothing was persisted in %v", time.Duration(2*interval+400*ms))
			} else if got, err := loadImage(d); err != nil {
				c.Fail("C04", "unreadable", "the persisted file of %d bytes cannot be loaded: %v", len(d), err)
			} else if join(got) != join(want) {
				c.Fail("C04", "stale", "the file does not hold what was collected long ago: %s, the store: %s", short(join(got), 300), short(join(want), 300))
			}
			rt.Calm(false)
		}
		if r.injured != "" && node.Alive && exact {
			host.FS.Cfg = rt.DiskFaults{}
			rt.Sleep(100 * ms)
			if r.injured != "" && node.Alive {
				c.Fail("C04", "error-ignored", "a failed %s was not returned by PersistEvery", r.injured)
			}
		}
		host.FS.OnEvent, host.FS.OnFail = nil, nil
		if node.Alive {
			r.look("end")
			rt.Crash(node, "killed")
		}
		r.look("killed")
		g.died = rt.Seq()
		c.Add("versions", int64(len(g.vers)))
		r.judge(gi, faulty)
		if c.Failed() {
			return
		}
		if p.G(fmt.Sprintf("power%d", gi)) == 1 && !last {
			host.FS.PowerLoss()
			d, ok := host.FS.Peek(persistFile)
			switch {
			case !ok && kept:
				c.Fail("C04", "lost-file", "the power loss removed the persisted file, which had survived an earlier one")
			case ok:
				kept = true
				state, err := loadImage(d)
				if err != nil {
					c.Fail("C04", "unreadable", "after a power loss the persisted file of %d bytes cannot be loaded: %v", len(d), err)
					return
				}
				if !r.past[join(state)] {
					c.Fail("C04", "changed", "the power loss changed the content of the persisted file to %s", short(join(state), 300))
				}
			}
		}
	}
}

// span of time (by sequence number) in which a client's share of the content was some state
type prSpan struct {
	from, to uint64
	n        int // operations included
}

// judge checks every version of the file seen in a generation.
func (r *prRun) judge(gi int, faulty bool) {
	c, g, p := r.c, r.g, r.c.P
	// the states of every client
	perClient := map[int][]*prOp{}
	for _, o := range g.ops {
		perClient[o.cl] = append(perClient[o.cl], o)
	}
	states := make([][]string, 4)
	spans := make([][]prSpan, 4)
	for cl := 0; cl < 4; cl++ {
		st := share(g.base, cl)
		states[cl] = append(states[cl], st)
		ops := perClient[cl]
		for k := 0; k <= len(ops); k++ {
			sp := prSpan{n: k, to: 1 << 62}
			if k > 0 {
				st, _ = stStep(st, ops[k-1].e)
				states[cl] = append(states[cl], st)
				sp.from = ops[k-1].k.Inv
			}
			if k < len(ops) && ops[k].k.Done {
				sp.to = ops[k].k.Ret
			}
			spans[cl] = append(spans[cl], sp)
		}
	}
	exact := p.Strat.Jump == 0
	var prev uint64 // the snapshots do not go back before this
	for vi, v := range g.vers {
		var feas [4][]prSpan
		if v.ok && (vi > 0 || gi > 0) {
			state, err := loadImage(v.data)
			r.past[join(state)] = true
			if err != nil {
				c.Fail("C04", "unreadable", "after %s the persisted file of %d bytes cannot be loaded: %v", v.cause, len(v.data), err)
				return
			}
			for _, t := range state {
				if cl := clientOf(t); cl < 0 || cl > 3 {
					c.Fail("C04", "alien", "the file holds a trace nobody collected: %s", t)
					return
				}
			}
			var cand []uint64
			cand = append(cand, prev)
			for cl := 0; cl < 4; cl++ {
				s := share(state, cl)
				for k, x := range states[cl] {
					if x == s && spans[cl][k].from < v.seq {
						feas[cl] = append(feas[cl], spans[cl][k])
						if spans[cl][k].from > prev {
							cand = append(cand, spans[cl][k].from)
						}
					}
				}
				if len(feas[cl]) == 0 {
					c.Fail("C04", "not-a-state", "the file after %s holds, of client %d, what the store never held: %s", v.cause, cl, short(s, 300))
					return
				}
			}
			sort.Slice(cand, func(i, j int) bool { return cand[i] < cand[j] })
			fits := func(t uint64) bool {
				for cl := 0; cl < 4; cl++ {
					ok := false
					for _, sp := range feas[cl] {
						ok = ok || (sp.from <= t && t < sp.to)
					}
					if !ok {
						return false
					}
				}
				return t <= v.seq
			}
			first := uint64(1 << 63)
			for _, t := range cand {
				if fits(t) {
					first = min(first, t)
				}
			}
			if first == 1<<63 {
				cls := "not-one-instant"
				if prev > 0 {
					cls = "older"
				}
				c.Fail("C04", cls, "the file after %s equals no content the store had at one instant since the previous version of the file: %s", v.cause, short(join(state), 400))
				return
			}
			prev = first
		} else if vi > 0 && !v.ok {
			c.Fail("C04", "vanished", "the persisted file vanished (%s)", v.cause)
			return
		}
		// recency: while this version was the file, everything older was in it
		if exact && !faulty && !g.failed {
			for cl := 0; cl < 4; cl++ {
				n := 0 // the most operations it may include
				if v.ok && (vi > 0 || gi > 0) {
					for _, sp := range feas[cl] {
						n = max(n, sp.n)
					}
				}
				ops := perClient[cl]
				for k := n; k < len(ops); k++ {
					o := ops[k]
					if !o.k.Done {
						break
					}
					if states[cl][k+1] == states[cl][k] && k+1 < len(ops) {
						continue
					}
					if states[cl][k+1] == states[cl][k] {
						break
					}
					// the disk's slowness since then is allowed for
					bound := p.G("interval") + (v.s1 - r.sleptAt(o.k.T1)) + 5*ms
					if age := v.t1 - o.k.T1; age > bound {
						c.Fail("C04", "not-recent", "an operation of client %d is not in the file %v after it completed; the interval is %v", cl, time.Duration(age), time.Duration(p.G("interval")))
						return
					}
					break
				}
			}
		}
	}
}

// sleptAt is a lower bound of the time spent in slow disk operations before t.
func (r *prRun) sleptAt(t int64) int64 {
	var s int64
	for _, v := range r.g.vers {
		if v.t0 <= t {
			s = max(s, v.slept)
		}
		if v.t1 <= t {
			s = max(s, v.s1)
		}
	}
	return s
}

func init() {
	sc := &eng.Scenario{Name: "persist", Gen: genPersist, Run: runPersist}
	eng.Register(&eng.PropCfg{ID: "C04", Scen: []eng.Weighted{{S: sc, W: 1}}, Quick: 200000, Deep: 40000000, QuickSec: 60, DeepSec: 600, Level: "exploration",
		Real: []string{"store.go PersistEvery, MemoryStore.Write/ReadFrom", "encoding/gob"}, Stub: []string{"disk: files, directory, page cache, crash and power-loss semantics, errors and slowness (simulated)", "clock, timers, mutex and goroutine scheduler (simulated)"}})
}
