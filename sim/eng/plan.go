// Package eng generates, runs, minimises and replays simulated executions.
package eng

import (
	"encoding/json"
	"fmt"
	"strings"

	"vsim/rt"
)

// Op is one step of a plan; its meaning is the scenario's.
type Op struct {
	K string `json:"k"`
	C int    `json:"c,omitempty"` // client or task
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	D int64  `json:"d,omitempty"` // delay before the op, ns
	E int64  `json:"e,omitempty"`
	S string `json:"s,omitempty"`
	X []byte `json:"x,omitempty"`
}

// Plan is everything a run depends on besides the decisions: workload, configuration, network, search strategy.
type Plan struct {
	Scenario string           `json:"scenario"`
	Prop     string           `json:"prop"`
	As       string           `json:"as,omitempty"` // the property the workload was made for, if another one
	Seed     uint64           `json:"seed"`
	Cfg      map[string]int64 `json:"cfg,omitempty"`
	Ops      []Op             `json:"ops"`
	Net      rt.NetCfg        `json:"net"`
	Strat    rt.Strategy      `json:"strategy"`
	MaxSteps uint64           `json:"max_steps,omitempty"`
	MaxTime  int64            `json:"max_time,omitempty"`
}

// For is the property the workload was made for.
func (p *Plan) For() string {
	if p.As != "" {
		return p.As
	}
	return p.Prop
}

// G returns a configuration value.
func (p *Plan) G(k string) int64 { return p.Cfg[k] }

// Violation of a property.
type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Seq   uint64 `json:"seq,omitempty"`
}

func (v Violation) String() string { return v.Prop + "/" + v.Class + ": " + v.Msg }

// C is the context of a run.
type C struct {
	P     *Plan
	Viol  []Violation
	Stats map[string]int64
	fatal string
}

// Fail records a violation.
func (c *C) Fail(prop, class, f string, a ...any) {
	if rt.Killed() {
		return
	}
	if len(c.Viol) < 20 {
		v := Violation{Prop: prop, Class: class, Msg: fmt.Sprintf(f, a...)}
		rt.Note("VIOLATION %s", v)
		c.Viol = append(c.Viol, v)
	}
}

// Failed tells whether a violation was recorded.
func (c *C) Failed() bool { return len(c.Viol) > 0 }

// Add counts something for the evidence.
func (c *C) Add(k string, n int64) {
	if c.Stats == nil {
		c.Stats = map[string]int64{}
	}
	c.Stats[k] += n
}

// Scenario is a family of runs.
type Scenario struct {
	Name string
	Gen  func(r *rt.Rand, prop string, deep bool) *Plan
	Run  func(c *C)
	// Stuck is the property that a run without progress (deadlock, spin) violates; "" means the one checked.
	Stuck string
	// PanicProp maps a panic of the code under test to a property; nil: the one checked.
	PanicOK func(pi rt.PanicInfo) bool
	NoSched bool // strategy is set by Gen
}

// PropCfg says how a property is checked.
type PropCfg struct {
	ID                string
	Scen              []Weighted
	Quick, Deep       int // runs
	QuickSec, DeepSec int // time caps
	Level             string
	Real, Stub        []string
	Rule              string
	Assume            []string
	Race              bool
}

// Weighted is a scenario with a weight.
type Weighted struct {
	S *Scenario
	W int
}

// Props is the registry.
var Props = map[string]*PropCfg{}

// Scens by name.
var Scens = map[string]*Scenario{}

// Reset restores the package state of the code under test.
var Reset []func()

// Register adds a property configuration.
func Register(p *PropCfg) {
	Props[p.ID] = p
	for _, w := range p.Scen {
		Scens[w.S.Name] = w.S
	}
}

// Make generates run i of a property.
func Make(p *PropCfg, base uint64, i uint64, deep bool) *Plan {
	h := uint64(14695981039346656037)
	for _, b := range []byte(p.ID) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	seed := rt.Mix(base, h, i)
	r := rt.NewRand(seed)
	tot := 0
	for _, w := range p.Scen {
		tot += w.W
	}
	k := r.Intn(tot)
	var s *Scenario
	for _, w := range p.Scen {
		if k < w.W {
			s = w.S
			break
		}
		k -= w.W
	}
	pl := s.Gen(&r, p.ID, deep)
	pl.Scenario, pl.Prop, pl.Seed = s.Name, p.ID, seed
	if !s.NoSched {
		pl.Strat = pickStrategy(&r)
		if pl.G("nojump") == 1 {
			pl.Strat.Jump = 0
		}
	}
	return pl
}

func pickStrategy(r *rt.Rand) rt.Strategy {
	var st rt.Strategy
	pick := func(xs ...int) int { return xs[r.Intn(len(xs))] }
	switch k := r.Intn(20); {
	case k < 2:
		st.Name = "fifo"
	case k < 4:
		st.Name = "random-next"
		st.RandNx = true
	case k < 10:
		st.Name = "random"
		st.RandNx = true
		st.Every = float64(pick(2, 4, 8, 16, 40, 100, 300, 1000))
	case k < 15:
		st.Name = "pct"
		st.Depth = 1 + r.Intn(4)
		st.Len = pick(60, 150, 400, 1000, 3000, 10000)
	default:
		st.Name = "hot-sites"
		st.RandNx = true
		st.Hot = pick(8, 20, 50, 120)
		st.HotP = []float64{0.1, 0.3, 0.7, 1}[r.Intn(4)]
	}
	if st.Every > 0 || st.Hot > 0 {
		if r.Intn(4) == 0 {
			st.Jump = []float64{0.02, 0.1, 0.4}[r.Intn(3)]
		}
	}
	return st
}

// Outcome of a run.
type Outcome struct {
	Plan  *Plan
	Res   *rt.Result
	Viol  []Violation // of the checked property
	Other []Violation
	Err   string // harness error
	Stats map[string]int64
}

// Sites names the yield points.
var Sites []string

func siteName(id int32) string {
	if id >= 0 && int(id) < len(Sites) {
		return Sites[id]
	}
	return "?"
}

// Exec runs a plan. With replay set, dec are the decisions; else they are drawn from the plan's seed.
func Exec(p *Plan, dec []rt.Decision, replay, trace bool) *Outcome {
	s := Scens[p.Scenario]
	if s == nil {
		return &Outcome{Plan: p, Err: "unknown scenario " + p.Scenario}
	}
	c := &C{P: p}
	cfg := rt.Config{Seed: p.Seed, Strategy: p.Strat, MaxSteps: p.MaxSteps, MaxTime: p.MaxTime, Replay: replay, Dec: dec, Trace: trace,
		NSites: len(Sites), SiteName: siteName}
	finished := false
	raceStart()
	res := rt.Run(cfg, func() {
		for _, f := range Reset {
			f()
		}
		rt.SetNet(p.Net)
		s.Run(c)
		finished = true
	})
	o := &Outcome{Plan: p, Res: res, Stats: c.Stats}
	all := c.Viol
	for _, m := range raceReports(res.RaceSkip) {
		all = append(all, Violation{Prop: "C22", Class: "data-race", Msg: m})
	}
	for _, pi := range res.Panics {
		if where := panicOwner(pi.Stack); where == "harness" {
			o.Err = "harness panic: " + pi.Value + "\n" + pi.Stack
			return o
		}
		if s.PanicOK != nil && s.PanicOK(pi) {
			continue
		}
		all = append(all, Violation{Prop: p.For(), Class: "panic", Msg: fmt.Sprintf("process %s died of a panic in %s: %s\n%s", pi.Node, pi.Task, pi.Value, trimStack(pi.Stack))})
	}
	switch res.Status {
	case rt.Deadlock:
		all = append(all, Violation{Prop: orStr(s.Stuck, p.For()), Class: "deadlock", Msg: "nothing can make progress any more: " + res.Deadinfo})
	case rt.Budget:
		all = append(all, Violation{Prop: orStr(s.Stuck, p.For()), Class: "livelock", Msg: fmt.Sprintf("no completion within %d steps: %s", res.Steps, res.Deadinfo)})
	case rt.Horizon:
		all = append(all, Violation{Prop: orStr(s.Stuck, p.For()), Class: "deadlock", Msg: "no completion within the simulated time horizon: " + res.Deadinfo})
	default:
		if !finished && len(res.Panics) == 0 {
			o.Err = "scenario did not finish"
			return o
		}
	}
	for _, v := range all {
		if v.Prop == p.Prop {
			o.Viol = append(o.Viol, v)
		} else {
			o.Other = append(o.Other, v)
		}
	}
	return o
}

func orStr(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// panicOwner finds whose code panicked: the first frame below the panic that is not of the runtime, the simulator
// runtime or a library.
func panicOwner(stack string) string {
	if strings.HasPrefix(stack, "at ") {
		return "app" // a fatal error of a simulated primitive, with the place that used it
	}
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") {
			continue
		}
		switch {
		case strings.HasPrefix(l, "sourcegraph.com/sourcegraph/appdash"), strings.HasPrefix(l, "github.com/opentracing"):
			return "app"
		case strings.HasPrefix(l, "vsim/scen"), strings.HasPrefix(l, "vsim/eng"), strings.HasPrefix(l, "main."):
			return "harness"
		}
	}
	return "harness"
}

func trimStack(st string) string {
	var out []string
	lines := strings.Split(st, "\n")
	seen := false
	for i := 0; i < len(lines); i++ {
		if strings.HasPrefix(lines[i], "panic(") {
			seen = true
			i++
			continue
		}
		if seen && !strings.HasPrefix(lines[i], "\t") && lines[i] != "" {
			out = append(out, "  "+lines[i])
			if len(out) >= 6 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

// Replay is the replay file of a violation.
type Replay struct {
	Property  string     `json:"property"`
	Violation *Violation `json:"violation"`
	All       []string   `json:"all_violations,omitempty"`
	Seed      uint64     `json:"seed"`
	Run       uint64     `json:"run"`
	Mode      string     `json:"mode"` // decisions or seed
	Plan      *Plan      `json:"plan"`
	Decisions [][4]int64 `json:"decisions,omitempty"` // kind, task, ordinal, value
	DecKinds  []string   `json:"decision_kinds,omitempty"`
	Minimised string     `json:"minimised,omitempty"`
	Narrative []string   `json:"narrative,omitempty"`
	Output    string     `json:"output,omitempty"`
}

// EncDec encodes decisions for a replay file.
func EncDec(d []rt.Decision) [][4]int64 {
	out := make([][4]int64, len(d))
	for i, x := range d {
		out[i] = [4]int64{int64(x.K), int64(x.Task), int64(x.Ord), x.V}
	}
	return out
}

// DecDec is the inverse of EncDec.
func DecDec(d [][4]int64) []rt.Decision {
	out := make([]rt.Decision, len(d))
	for i, x := range d {
		out[i] = rt.Decision{K: rt.Kind(x[0]), Task: int32(x[1]), Ord: uint32(x[2]), V: x[3]}
	}
	return out
}

// KindNames lists the decision kinds by number.
func KindNames() []string {
	var l []string
	for k := rt.Kind(0); k < rt.NKinds; k++ {
		l = append(l, k.String())
	}
	return l
}

// Clone copies a plan.
func (p *Plan) Clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	json.Unmarshal(b, q)
	return q
}
