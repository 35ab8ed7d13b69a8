package scen

import (
	"vsim/eng"
	"vsim/rt"
)

// C22 runs the workloads of the other properties in a build with the race detector. (This file comes last, so that
// the others have registered.)
func init() {
	var ws []eng.Weighted
	for _, x := range []struct {
		id string
		w  int
	}{{"C02", 4}, {"C01", 1}, {"C03", 2}, {"C04", 2}, {"C05", 3}, {"C06", 2}, {"C07", 2}, {"C08", 3}, {"C09", 3}, {"C10", 2}, {"C11", 2},
		{"C12", 1}, {"C13", 2}, {"C14", 1}, {"C15", 1}, {"C16", 2}, {"C17", 3}, {"C18", 2}, {"C19", 2}, {"C20", 2}, {"C21", 2}} {
		p := eng.Props[x.id]
		if p == nil {
			continue
		}
		for _, w := range p.Scen {
			o := *w.S
			s := o
			id := x.id
			s.Name = "race-" + id + "-" + o.Name
			s.Gen = func(r *rt.Rand, _ string, deep bool) *eng.Plan {
				p := o.Gen(r, id, deep)
				p.As = id
				return p
			}
			s.Run = func(c *eng.C) { withKeeper(c, o.Run) }
			ws = append(ws, eng.Weighted{S: &s, W: x.w})
		}
	}
	mix := &eng.Scenario{Name: "race-mix", Gen: genMix, Run: func(c *eng.C) { withKeeper(c, runMix) }}
	ws = append(ws, eng.Weighted{S: mix, W: 16})
	eng.Register(&eng.PropCfg{ID: "C22", Scen: ws, Quick: 100000, Deep: 8000000, QuickSec: 100, DeepSec: 600, Level: "exploration", Race: true,
		Real: []string{"all of the packages appdash, httptrace, opentracing, sqltrace, traceapp, internal/wire and the serve command, basictracer, gogo/protobuf, encoding/gob, in workloads of the other properties", "Go race detector (happens-before), told only of the code's own synchronisation"},
		Stub: []string{"scheduler, sync, channels, timers, network, HTTP server and client, file system, random source (simulated; simulated synchronisation gives the detector exactly the edges of the real one)", "sync.Pool of libraries hands nothing on"}})
}
