// Package scen holds the simulated workloads and their oracles.
package scen

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	basictracer "github.com/opentracing/basictracer-go"
	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	aot "sourcegraph.com/sourcegraph/appdash/opentracing"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"

	"vsim/eng"
	"vsim/rt"
)

func init() {
	eng.Reset = append(eng.Reset, basictracer.Sim_reset, appdash.Sim_reset, httptrace.Sim_reset, sqltrace.Sim_reset, aot.Sim_reset)
}

const (
	tick = int64(200e3) // more than any computation takes in simulated time, less than any wait that matters
	us   = int64(1e3)
	ms   = int64(1e6)
	sec  = int64(1e9)
)

// Ann is an annotation carrying a token.
func Ann(tok string) appdash.Annotation {
	return appdash.Annotation{Key: "k" + tok, Value: []byte("v" + tok)}
}

// Tok is the inverse of Ann.
func Tok(a appdash.Annotation) (string, bool) {
	if strings.HasPrefix(a.Key, "k") && "v"+a.Key[1:] == string(a.Value) {
		return a.Key[1:], true
	}
	return fmt.Sprintf("?%s=%s", a.Key, a.Value), false
}

// Toks maps annotations to tokens.
func Toks(as []appdash.Annotation) []string {
	l := make([]string, len(as))
	for i, a := range as {
		l[i], _ = Tok(a)
	}
	return l
}

// SpanC is a span in canonical form.
type SpanC struct {
	Span, Parent appdash.ID
	Toks         []string
}

// TraceC is a trace in canonical form, spans sorted by ID.
type TraceC struct {
	ID    appdash.ID
	Top   appdash.ID
	Spans []SpanC
}

func (t *TraceC) String() string {
	if t == nil {
		return "none"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d{", uint64(t.ID))
	for i, s := range t.Spans {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%d<%d:%s", uint64(s.Span), uint64(s.Parent), strings.Join(s.Toks, ","))
	}
	b.WriteByte('}')
	return b.String()
}

// Find returns a span.
func (t *TraceC) Find(id appdash.ID) *SpanC {
	for i := range t.Spans {
		if t.Spans[i].Span == id {
			return &t.Spans[i]
		}
	}
	return nil
}

// Canon converts a trace tree, checking its shape: no cycle, no span twice, every span in the right trace, and
// (strict) every span whose parent is in the tree hangs under it.
func Canon(t *appdash.Trace, strict bool) (*TraceC, error) {
	if t == nil {
		return nil, errors.New("nil trace")
	}
	c := &TraceC{ID: t.Span.ID.Trace, Top: t.Span.ID.Span}
	type edge struct{ child, parent appdash.ID }
	under := []edge{}
	n := 0
	var walk func(x, p *appdash.Trace) error
	walk = func(x, p *appdash.Trace) error {
		if n++; n > 3000 {
			return errors.New("the tree is cyclic")
		}
		if x == nil {
			return errors.New("nil node in the tree")
		}
		if x.Span.ID.Trace != c.ID {
			return fmt.Errorf("span %v in trace %d", x.Span.ID, uint64(c.ID))
		}
		c.Spans = append(c.Spans, SpanC{x.Span.ID.Span, x.Span.ID.Parent, Toks(x.Annotations)})
		if p != nil {
			under = append(under, edge{x.Span.ID.Span, p.Span.ID.Span})
		}
		for _, s := range x.Sub {
			if err := walk(s, x); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(t, nil); err != nil {
		return nil, err
	}
	sort.SliceStable(c.Spans, func(i, j int) bool { return c.Spans[i].Span < c.Spans[j].Span })
	for i := 1; i < len(c.Spans); i++ {
		if c.Spans[i].Span == c.Spans[i-1].Span {
			return nil, fmt.Errorf("span %d is twice in trace %d: %v", uint64(c.Spans[i].Span), uint64(c.ID), c)
		}
	}
	if strict {
		for _, e := range under {
			s := c.Find(e.child)
			if s.Parent != e.parent && s.Parent != s.Span && c.Find(s.Parent) != nil {
				return nil, fmt.Errorf("span %d hangs under %d although its parent %d is in trace %d", uint64(e.child), uint64(e.parent), uint64(s.Parent), uint64(c.ID))
			}
		}
		if top := c.Find(c.Top); top.Parent != 0 {
			for _, s := range c.Spans {
				if s.Parent == 0 {
					return nil, fmt.Errorf("the root span %d was collected but %d is the top of trace %d", uint64(s.Span), uint64(c.Top), uint64(c.ID))
				}
			}
		}
	}
	return c, nil
}

// Exact renders a trace with everything in it, in order, to detect later changes.
func Exact(t *appdash.Trace) string {
	var b strings.Builder
	n := 0
	var walk func(x *appdash.Trace)
	walk = func(x *appdash.Trace) {
		if n++; n > 3000 {
			b.WriteString("...cyclic")
			return
		}
		if x == nil {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(&b, "(%d/%d/%d", uint64(x.Span.ID.Trace), uint64(x.Span.ID.Span), uint64(x.Span.ID.Parent))
		for _, a := range x.Annotations {
			fmt.Fprintf(&b, " %q=%q", a.Key, a.Value)
		}
		for _, s := range x.Sub {
			walk(s)
		}
		b.WriteByte(')')
	}
	walk(t)
	return b.String()
}

// Delay sleeps for an op's delay.
func Delay(o *eng.Op) {
	if o.D > 0 {
		rt.Sleep(o.D)
	}
}

// Clients runs the ops of a plan, each client's in order in its own task, and waits for them.
func Clients(c *eng.C, n *rt.Node, do func(i int, o *eng.Op)) {
	var ts []*rt.Task
	max := -1
	for i := range c.P.Ops {
		if c.P.Ops[i].C > max {
			max = c.P.Ops[i].C
		}
	}
	for k := 0; k <= max; k++ {
		k := k
		has := false
		for i := range c.P.Ops {
			has = has || c.P.Ops[i].C == k
		}
		if !has {
			continue
		}
		f := func() {
			for i := range c.P.Ops {
				o := &c.P.Ops[i]
				if o.C != k {
					continue
				}
				Delay(o)
				if rt.Killed() {
					return
				}
				do(i, o)
			}
		}
		name := fmt.Sprintf("client%d", k)
		if n == nil {
			ts = append(ts, rt.GoNamed(name, f))
		} else {
			ts = append(ts, rt.GoOn(n, name, f))
		}
	}
	for _, t := range ts {
		rt.Join(t, 0)
	}
}

// Call measures a call.
type Call struct {
	Inv, Ret uint64
	T0, T1   int64
	Err      error
	Done     bool
}

// Do runs f as a call.
func Do(f func() error) *Call {
	c := &Call{Inv: rt.Seq(), T0: rt.Now()}
	DoIn(c, f)
	return c
}

// DoIn runs f and completes an existing record, so that it is visible while pending.
func DoIn(c *Call, f func() error) {
	c.Inv, c.T0 = rt.Seq(), rt.Now()
	c.Err = f()
	if rt.Killed() {
		return
	}
	c.Ret, c.T1, c.Done = rt.Seq(), rt.Now(), true
}

func pick[T any](r *rt.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// logUniform draws from [1,max], small values as likely as large ones.
func logUniform(r *rt.Rand, max int64) int64 {
	if max <= 1 {
		return 1
	}
	bits := 0
	for x := max; x > 0; x >>= 1 {
		bits++
	}
	v := int64(1) << uint(r.Intn(bits))
	v += r.Int63n(v)
	if v > max {
		v = max
	}
	return v
}

func shuffle(r *rt.Rand, n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

func join(xs []string) string { return strings.Join(xs, ",") }

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func quietFor(f func()) {
	rt.Calm(true)
	f()
	rt.Calm(false)
}

// Lin is an operation of a history given to the linearizability checker.
type Lin struct {
	Inv, Ret uint64 // Ret 0: never returned
	V        any
}

// Linearizable searches for an order of the operations that respects real time and is accepted by step. A state is
// a string. The result is 1 (yes), 0 (no) or -1 (search limit). best is the longest accepted prefix.
func Linearizable(init string, ops []Lin, step func(st string, v any) (string, bool)) (res int, best int) {
	n := len(ops)
	if n == 0 {
		return 1, 0
	}
	if n > 64 {
		return -1, 0
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Inv < ops[j].Inv })
	type key struct {
		done uint64
		st   string
	}
	seen := map[key]bool{}
	nodes := 0
	var must uint64
	for i := range ops {
		if ops[i].Ret != 0 {
			must |= 1 << uint(i)
		}
	}
	var rec func(done uint64, st string, cnt int) int
	rec = func(done uint64, st string, cnt int) int {
		if cnt > best {
			best = cnt
		}
		if done&must == must {
			return 1
		}
		k := key{done, st}
		if seen[k] {
			return 0
		}
		seen[k] = true
		if nodes++; nodes > 300000 {
			return -1
		}
		minRet := ^uint64(0)
		for i := range ops {
			if done&(1<<uint(i)) == 0 && ops[i].Ret != 0 && ops[i].Ret < minRet {
				minRet = ops[i].Ret
			}
		}
		lim := 0
		for i := range ops {
			if ops[i].Inv > minRet {
				break
			}
			if done&(1<<uint(i)) != 0 {
				continue
			}
			if ns, ok := step(st, ops[i].V); ok {
				if r := rec(done|1<<uint(i), ns, cnt+1); r == 1 {
					return 1
				} else if r < 0 {
					lim = -1
				}
			}
			if nodes > 300000 {
				return -1
			}
		}
		return lim
	}
	return rec(0, init, 0), best
}
