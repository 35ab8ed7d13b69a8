package scen

import (
	"sourcegraph.com/sourcegraph/appdash"

	"vsim/eng"
	"vsim/rt"
	"vsim/user"
)

// In race-detector builds, what was handed over is read again at the end of the run by a task that is ordered after
// the handing over and after nothing else: if the code under test touched it later, that is a race, in every schedule.
type kept struct {
	e  *rt.Edge
	as []appdash.Annotation
	t  *appdash.Trace
}

var (
	keeping bool
	keepers []kept
)

// Keep notes annotations that were handed over.
func Keep(as []appdash.Annotation) {
	if !keeping {
		return
	}
	user.ReadAnns(as)
	if len(as) > 0 && len(keepers) < 600 {
		keepers = append(keepers, kept{e: rt.NewEdge(), as: as})
	}
}

// KeepTraces notes returned traces.
func KeepTraces(ts ...*appdash.Trace) {
	if !keeping {
		return
	}
	for _, t := range ts {
		user.ReadTrace(t)
		if t != nil && len(keepers) < 600 {
			keepers = append(keepers, kept{e: rt.NewEdge(), t: t})
		}
	}
}

// withKeeper runs a scenario with a keeper.
func withKeeper(c *eng.C, run func(c *eng.C)) {
	keeping, keepers = true, nil
	defer func() { keeping, keepers = false, nil }()
	var g rt.Gate
	t := rt.GoNamed("keeper", func() {
		g.Wait()
		for _, k := range keepers {
			k.e.In()
			user.ReadAnns(k.as)
			user.ReadTrace(k.t)
		}
	})
	run(c)
	g.Open()
	rt.Join(t, 0)
}
