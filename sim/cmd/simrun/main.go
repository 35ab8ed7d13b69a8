// Command simrun runs simulated executions of the instrumented code.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"vsim/eng"
	"vsim/instr"
	"vsim/rt"
	_ "vsim/scen"
)

var (
	prop    = flag.String("prop", "", "property")
	tier    = flag.String("tier", "quick", "quick or thorough")
	seed    = flag.Uint64("seed", 1, "base seed")
	sites   = flag.String("sites", "", "sites.json")
	evid    = flag.String("evidence", "", "evidence file to write")
	known   = flag.String("known", "", "known-findings file")
	repdir  = flag.String("replays", "", "directory for replay files")
	runs    = flag.Int("runs", 0, "number of runs (0: as configured)")
	secs    = flag.Int("secs", 0, "time cap (0: as configured)")
	workers = flag.Int("workers", 8, "worker processes")
	wi      = flag.Int("w", 0, "worker index")
	begin   = flag.String("begin", "", "worker: file announcing the current run")
	one     = flag.Int64("one", -1, "worker: only this run")
	hashes  = flag.String("hashes", "", "worker: file for schedule hashes")
	inFile  = flag.String("in", "", "input file")
	outFile = flag.String("o", "", "output file")
	level   = flag.String("level", "", "instrumentation level")
	keepGo  = flag.Bool("keepgoing", false, "worker: do not stop at the first violation")
	verbose = flag.Bool("v", false, "print the narrative")
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simrun check|worker|replay|min|hash [flags]")
		os.Exit(2)
	}
	mode := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	raceSetup(mode)
	log.SetOutput(rt.LogWriter{})
	debug.SetMaxStack(64 << 20)
	if *sites != "" {
		b, err := os.ReadFile(*sites)
		if err != nil {
			die("%v", err)
		}
		var l []instr.Site
		if err := json.Unmarshal(b, &l); err != nil {
			die("%v", err)
		}
		eng.Sites = make([]string, len(l)+1)
		for _, s := range l {
			eng.Sites[s.ID] = s.Pos
		}
	}
	if err := rt.SelfTestTime(); err != nil {
		die("%v", err)
	}
	switch mode {
	case "check":
		os.Exit(check())
	case "worker":
		worker()
	case "replay":
		os.Exit(replay())
	case "min":
		minimise()
	case "hash":
		hashRuns()
	default:
		die("unknown mode %s", mode)
	}
}

// raceSetup runs the mode in a child whose race reports go to a file.
func raceSetup(mode string) {
	const key = "log_path="
	if !rt.RaceBuild || mode == "check" {
		return
	}
	if l := os.Getenv("SIMRUN_RACELOG"); l != "" {
		eng.RaceLog = fmt.Sprintf("%s.%d", l, os.Getpid())
		eng.RaceDebug = os.Getenv("SIMRUN_RACEDEBUG") != ""
		return
	}
	dir, err := os.MkdirTemp("", "simrace")
	if err != nil {
		die("%v", err)
	}
	c := exec.Command(os.Args[0], os.Args[1:]...)
	l := filepath.Join(dir, "r")
	c.Env = append(os.Environ(), "SIMRUN_RACELOG="+l, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=7 suppress_equal_stacks=0 suppress_equal_addresses=0 "+key+l)
	c.Stdin, c.Stdout, c.Stderr = os.Stdin, os.Stdout, os.Stderr
	err = c.Run()
	os.RemoveAll(dir)
	if ee, ok := err.(*exec.ExitError); ok {
		os.Exit(ee.ExitCode())
	}
	if err != nil {
		die("%v", err)
	}
	os.Exit(0)
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simrun: "+f+"\n", a...)
	os.Exit(2)
}

// Summary is what a worker reports.
type Summary struct {
	Runs, Steps, Switches, Preempts uint64
	Nontrivial                      uint64
	SimNs                           float64
	Faults                          map[string]uint64
	Probes                          map[string]uint64
	Stats                           map[string]int64
	Scen                            map[string]uint64
	Strat                           map[string]uint64
	MaxSteps                        uint64
	Tasks                           uint64
	Samples                         []json.RawMessage
	Viol                            []Found
	Err                             string
	Complete                        bool
	Other                           map[string]uint64
}

// Found is a violating run.
type Found struct {
	Run uint64
	V   eng.Violation
}

// watchdog ends the process when a run does not end or needs memory without bound (which is confirmed in isolation
// before it counts).
func watchdog(cur *uint64, mu *sync.Mutex, started *time.Time) {
	var ms runtime.MemStats
	for i := 1; ; i++ {
		time.Sleep(250 * time.Millisecond)
		mu.Lock()
		d := time.Since(*started)
		r := *cur
		mu.Unlock()
		if d < 3*time.Second {
			continue
		}
		what := ""
		if d > 120*time.Second {
			what = "takes more than 120 s of real time"
		} else if i%4 == 0 {
			if runtime.ReadMemStats(&ms); ms.HeapAlloc > 3<<30 {
				what = "needs more than 3 GB of memory"
			}
		}
		if what != "" {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "fatal error: run %d %s\n%s\n", r, what, buf[:n])
			os.Exit(2)
		}
	}
}

func worker() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(200)
	p := eng.Props[*prop]
	if p == nil {
		die("unknown property %s", *prop)
	}
	deep := *tier == "thorough"
	var bf *os.File
	if *begin != "" {
		var err error
		bf, err = os.Create(*begin)
		if err != nil {
			die("%v", err)
		}
	}
	var hw *bufio.Writer
	if *hashes != "" {
		f, err := os.Create(*hashes)
		if err != nil {
			die("%v", err)
		}
		defer f.Close()
		hw = bufio.NewWriter(f)
		defer hw.Flush()
	}
	sum := &Summary{Faults: map[string]uint64{}, Probes: map[string]uint64{}, Stats: map[string]int64{}, Scen: map[string]uint64{}, Strat: map[string]uint64{}, Other: map[string]uint64{}}
	end := time.Now().Add(time.Duration(*secs) * time.Second)
	var cur uint64
	var mu sync.Mutex
	started := time.Now()
	go watchdog(&cur, &mu, &started)
	from, to, step := uint64(*wi), uint64(*runs), uint64(*workers)
	if *one >= 0 {
		from, to, step = uint64(*one), uint64(*one)+1, 1
	}
	var b8 [8]byte
	sum.Complete = true
	for i := from; i < to; i += step {
		if *secs > 0 && time.Now().After(end) {
			sum.Complete = false
			break
		}
		mu.Lock()
		cur, started = i, time.Now()
		mu.Unlock()
		if bf != nil {
			binary.LittleEndian.PutUint64(b8[:], i+1)
			bf.WriteAt(b8[:], 0)
		}
		pl := eng.Make(p, *seed, i, deep)
		o := eng.Exec(pl, nil, false, false)
		if o.Err != "" {
			sum.Err = fmt.Sprintf("run %d (scenario %s): %s", i, pl.Scenario, o.Err)
			break
		}
		r := o.Res
		sum.Runs++
		sum.Steps += r.Steps
		sum.Switches += r.Switches
		sum.Preempts += r.Preempts
		sum.SimNs += float64(r.SimNs)
		sum.Tasks += uint64(r.Tasks)
		sum.Scen[pl.Scenario]++
		sum.Strat[pl.Strat.Name]++
		if r.Steps > sum.MaxSteps {
			sum.MaxSteps = r.Steps
		}
		nf := uint64(0)
		for k, n := range r.Faults {
			if n > 0 {
				sum.Faults[rt.FaultNames[k]] += uint64(n)
				nf += uint64(n)
			}
		}
		for _, pr := range r.Probes {
			sum.Probes[pr.Name] += uint64(pr.N)
		}
		for k, n := range o.Stats {
			sum.Stats[k] += n
		}
		for _, v := range o.Other {
			sum.Other[v.Prop+"/"+v.Class]++
		}
		if len(r.Dec) > 0 || nf > 0 {
			sum.Nontrivial++
			if hw != nil {
				ph := planHash(pl)
				binary.LittleEndian.PutUint64(b8[:], rt.Mix(ph, r.SchedH, decHash(r.Dec)))
				hw.Write(b8[:])
			}
		}
		if len(sum.Samples) < 2 && len(r.Dec) > 0 {
			sum.Samples = append(sum.Samples, sample(i, pl, r))
		}
		if len(o.Viol) > 0 {
			sum.Viol = append(sum.Viol, Found{i, o.Viol[0]})
			if !*keepGo {
				break
			}
		}
	}
	b, _ := json.Marshal(sum)
	os.Stdout.Write(append(b, '\n'))
}

func planHash(p *eng.Plan) uint64 {
	q := *p
	q.Seed = 0
	q.Strat = rt.Strategy{}
	b, _ := json.Marshal(&q)
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

func decHash(d []rt.Decision) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range d {
		if x.K <= rt.KJump {
			continue // in the schedule hash already
		}
		h = (h ^ uint64(x.K)) * 1099511628211
		h = (h ^ uint64(x.Ord)) * 1099511628211
		h = (h ^ uint64(x.V)) * 1099511628211
	}
	return h
}

func sample(i uint64, p *eng.Plan, r *rt.Result) json.RawMessage {
	ops := p.Ops
	if len(ops) > 12 {
		ops = ops[:12]
	}
	f := map[string]uint32{}
	for k, n := range r.Faults {
		if n > 0 {
			f[rt.FaultNames[k]] = n
		}
	}
	b, _ := json.Marshal(map[string]any{"run": i, "seed": p.Seed, "scenario": p.Scenario, "strategy": p.Strat.Name, "cfg": p.Cfg, "first_ops": ops, "ops": len(p.Ops),
		"steps": r.Steps, "decisions": len(r.Dec), "context_switches": r.Switches, "simulated_ms": float64(r.SimNs) / 1e6, "faults": f, "schedule_hash": fmt.Sprintf("%016x", r.SchedH)})
	return b
}

// finding is a line of the known-findings file.
type finding struct{ prop, class, match, text string }

func loadKnown() []finding {
	var l []finding
	if *known == "" {
		return l
	}
	b, err := os.ReadFile(*known)
	if err != nil {
		return l
	}
	for _, x := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(x, "finding: ") {
			continue
		}
		f := finding{text: x}
		for _, w := range strings.Fields(x) {
			switch {
			case strings.HasPrefix(w, "property="):
				f.prop = w[9:]
			case strings.HasPrefix(w, "class="):
				f.class = w[6:]
			}
		}
		if i := strings.Index(x, "match=\""); i >= 0 {
			r := x[i+7:]
			if j := strings.IndexByte(r, '"'); j >= 0 {
				f.match = r[:j]
			}
		}
		l = append(l, f)
	}
	return l
}

func self(args ...string) *exec.Cmd {
	c := exec.Command(os.Args[0], args...)
	c.Env = append(os.Environ(), "GOTRACEBACK=all")
	return c
}

func common() []string {
	return []string{"-prop", *prop, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-sites", *sites}
}

func check() int {
	t0 := time.Now()
	p := eng.Props[*prop]
	if p == nil {
		die("unknown property %s", *prop)
	}
	n, cap := p.Quick, p.QuickSec
	if *tier == "thorough" {
		n, cap = p.Deep, p.DeepSec
	}
	if *runs > 0 {
		n = *runs
	}
	if *secs > 0 {
		cap = *secs
	}
	tmp, err := os.MkdirTemp("", "simrun")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	type wres struct {
		sum    *Summary
		stderr string
		err    error
		begin  int64
	}
	res := make([]wres, *workers)
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			bfile := filepath.Join(tmp, fmt.Sprintf("b%d", w))
			a := append([]string{"worker"}, common()...)
			a = append(a, "-w", fmt.Sprint(w), "-workers", fmt.Sprint(*workers), "-runs", fmt.Sprint(n), "-secs", fmt.Sprint(cap), "-begin", bfile, "-hashes", filepath.Join(tmp, fmt.Sprintf("h%d", w)))
			c := self(a...)
			var ob, eb bytes.Buffer
			c.Stdout, c.Stderr = &ob, &eb
			res[w].err = c.Run()
			res[w].stderr = eb.String()
			s := &Summary{}
			if json.Unmarshal(ob.Bytes(), s) == nil && res[w].err == nil {
				res[w].sum = s
			}
			if b, err := os.ReadFile(bfile); err == nil && len(b) == 8 {
				res[w].begin = int64(binary.LittleEndian.Uint64(b)) - 1
			} else {
				res[w].begin = -1
			}
		}(w)
	}
	wg.Wait()
	tot := &Summary{Faults: map[string]uint64{}, Probes: map[string]uint64{}, Stats: map[string]int64{}, Scen: map[string]uint64{}, Strat: map[string]uint64{}, Complete: true, Other: map[string]uint64{}}
	var found []Found
	var fatalRun int64 = -1
	fatalOut := ""
	broken := false
	for w := range res {
		r := res[w]
		if r.sum == nil {
			fmt.Fprintf(os.Stderr, "simrun: worker %d ended with %v in run %d\n%s\n", w, r.err, r.begin, head(r.stderr, 3000))
			ee, ok := r.err.(*exec.ExitError)
			if ok && (ee.ExitCode() == 2 || strings.Contains(r.stderr, "fatal error:")) && r.begin >= 0 && (strings.Contains(r.stderr, "fatal error:") || strings.Contains(r.stderr, "panic:") || strings.Contains(r.stderr, "goroutine stack exceeds")) {
				if fatalRun < 0 || r.begin < fatalRun {
					fatalRun, fatalOut = r.begin, r.stderr
				}
				continue
			}
			broken = true // unless another worker found something
			continue
		}
		s := r.sum
		if s.Err != "" {
			fmt.Fprintf(os.Stderr, "simrun: harness error: %s\n", s.Err)
			return 2
		}
		tot.Runs += s.Runs
		tot.Steps += s.Steps
		tot.Switches += s.Switches
		tot.Preempts += s.Preempts
		tot.Nontrivial += s.Nontrivial
		tot.SimNs += s.SimNs
		tot.Tasks += s.Tasks
		if s.MaxSteps > tot.MaxSteps {
			tot.MaxSteps = s.MaxSteps
		}
		addU(tot.Faults, s.Faults)
		addU(tot.Probes, s.Probes)
		addU(tot.Scen, s.Scen)
		addU(tot.Strat, s.Strat)
		addU(tot.Other, s.Other)
		for k, v := range s.Stats {
			tot.Stats[k] += v
		}
		tot.Complete = tot.Complete && s.Complete
		if len(tot.Samples) < 3 {
			tot.Samples = append(tot.Samples, s.Samples...)
		}
		found = append(found, s.Viol...)
	}
	searchWall := time.Since(t0).Seconds()
	distinct := map[uint64]bool{}
	for w := 0; w < *workers; w++ {
		b, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("h%d", w)))
		for i := 0; i+8 <= len(b); i += 8 {
			distinct[binary.LittleEndian.Uint64(b[i:])] = true
		}
	}
	kn := loadKnown()
	var fresh []Found
	hitKnown := map[string]bool{}
	for _, f := range found {
		m := ""
		for _, k := range kn {
			if k.prop == f.V.Prop && (k.class == "" || k.class == f.V.Class) && (k.match == "" || strings.Contains(f.V.Msg, k.match)) {
				m = k.text
			}
		}
		if m != "" {
			hitKnown[m] = true
		} else {
			fresh = append(fresh, f)
		}
	}
	for _, k := range kn {
		if k.prop == *prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, strings.TrimPrefix(k.text, "finding: "))
		}
	}
	sort.Slice(fresh, func(i, j int) bool { return fresh[i].Run < fresh[j].Run })
	nviol := len(fresh)
	status := 0
	if len(fresh) > 0 {
		status = report(fresh[0])
	} else if fatalRun >= 0 {
		nviol = 1
		status = reportFatal(fatalRun, fatalOut)
	}
	if status == 2 || status == 0 && broken {
		return 2
	}
	writeEvidence(p, tot, len(distinct), searchWall, time.Since(t0).Seconds(), nviol)
	fmt.Printf("%s %s: %d runs (%d distinct non-trivial), %d steps, %.1f simulated hours, %d faults, %.1fs, %d violations\n", *prop, *tier, tot.Runs, len(distinct), tot.Steps, tot.SimNs/3.6e12, sumU(tot.Faults), time.Since(t0).Seconds(), nviol)
	return status
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func addU(a, b map[string]uint64) {
	for k, v := range b {
		a[k] += v
	}
}

func sumU(a map[string]uint64) (n uint64) {
	for _, v := range a {
		n += v
	}
	return
}

func writeEvidence(p *eng.PropCfg, t *Summary, distinct int, searchWall, wall float64, nviol int) {
	if *evid == "" {
		return
	}
	rule := p.Rule
	if rule == "" {
		rule = "a run is one seeded simulated execution: workload, configuration, schedule strategy and faults are drawn from the seed; non-trivial: at least one scheduling, fault or environment decision differed from the default; distinct: distinct hash of the plan, the sequence of context switches with their code sites, and all other decisions"
	}
	perH := 0.0
	if searchWall > 0 {
		perH = float64(t.Runs) / searchWall * 3600
	}
	cov := map[string]any{
		"evaluations": t.Runs, "distinct_nontrivial": distinct, "rule": rule, "samples": t.Samples,
		"simulated_runs_per_hour": int64(perH), "seeds_per_hour": int64(perH), "simulated_seconds": t.SimNs / 1e9, "steps": t.Steps, "context_switches": t.Switches,
		"forced_preemptions": t.Preempts, "tasks_started": t.Tasks, "faults_injected": t.Faults, "conditions_reached": t.Probes, "oracle_counts": t.Stats, "scenarios": t.Scen, "search_strategies": t.Strat,
		"longest_run_steps": t.MaxSteps, "all_planned_runs_done": t.Complete, "instrumentation_level": *level,
		"components_real": p.Real, "components_stub": p.Stub,
	}
	e := map[string]any{"property": p.ID, "tier": *tier, "seed": *seed, "level": p.Level, "coverage": cov, "wall_s": wall, "violations": nviol, "assumptions": p.Assume}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Dir(*evid), 0755)
	if err := os.WriteFile(*evid, append(b, '\n'), 0644); err != nil {
		die("%v", err)
	}
}

func replayPath(run uint64) string {
	os.MkdirAll(*repdir, 0755)
	return filepath.Join(*repdir, fmt.Sprintf("%s-seed%d-run%d.json", *prop, *seed, run))
}

// report minimises, writes the replay file, and confirms it in a fresh process.
func report(f Found) int {
	path := replayPath(f.Run)
	p := eng.Props[*prop]
	pl := eng.Make(p, *seed, f.Run, *tier == "thorough")
	rp := &eng.Replay{Property: *prop, Violation: &f.V, Seed: *seed, Run: f.Run, Mode: "seed", Plan: pl, DecKinds: eng.KindNames()}
	writeJSON(path, rp)
	{
		mp := path + ".min"
		c := self("min", "-prop", *prop, "-sites", *sites, "-in", path, "-o", mp)
		var eb bytes.Buffer
		c.Stderr = &eb
		if err := c.Run(); err == nil {
			if b, err := os.ReadFile(mp); err == nil {
				os.WriteFile(path, b, 0644)
			}
		} else {
			fmt.Fprintf(os.Stderr, "simrun: minimising failed: %v\n%s\n", err, head(eb.String(), 2000))
		}
		os.Remove(mp)
	}
	c := self("replay", "-prop", *prop, "-sites", *sites, "-in", path)
	out, err := c.CombinedOutput()
	if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 {
		fmt.Fprintf(os.Stderr, "simrun: the replay of %s does not reproduce the violation %s (run %d): %v\n%s\n", path, f.V, f.Run, err, head(string(out), 4000))
		return 2
	}
	b, _ := os.ReadFile(path)
	json.Unmarshal(b, rp)
	fmt.Printf("%s\n", rp.Violation)
	fmt.Printf("minimised: %s\n", rp.Minimised)
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	return 1
}

func reportFatal(run int64, out string) int {
	// confirm in isolation
	a := append([]string{"worker"}, common()...)
	a = append(a, "-one", fmt.Sprint(run))
	c := self(a...)
	ob, err := c.CombinedOutput()
	if err == nil || !(bytes.Contains(ob, []byte("fatal error:")) || bytes.Contains(ob, []byte("panic:")) || bytes.Contains(ob, []byte("goroutine stack exceeds"))) {
		fmt.Fprintf(os.Stderr, "simrun: run %d ended the process but does not do so again: %v\n%s\n", run, err, head(string(ob), 2000))
		return 2
	}
	if !strings.Contains(string(ob), "sourcegraph.com/sourcegraph/appdash") {
		fmt.Fprintf(os.Stderr, "simrun: harness crash in run %d\n%s\n", run, head(string(ob), 4000))
		return 2
	}
	p := eng.Props[*prop]
	pl := eng.Make(p, *seed, uint64(run), *tier == "thorough")
	msg := "the process dies of a fatal error: " + firstFatal(string(ob))
	rp := &eng.Replay{Property: *prop, Violation: &eng.Violation{Prop: *prop, Class: "fatal", Msg: msg}, Seed: *seed, Run: uint64(run), Mode: "seed", Plan: pl, Output: head(string(ob), 6000)}
	path := replayPath(uint64(run))
	writeJSON(path, rp)
	fmt.Println(msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	return 1
}

func firstFatal(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error:") || strings.HasPrefix(l, "panic:") {
			return l
		}
	}
	return "?"
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		die("%v", err)
	}
}

func readReplay() *eng.Replay {
	b, err := os.ReadFile(*inFile)
	if err != nil {
		die("%v", err)
	}
	rp := &eng.Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		die("%v", err)
	}
	return rp
}

func minimise() {
	runtime.GOMAXPROCS(1)
	rp := readReplay()
	pl, dec, note := eng.Minimise(rp.Plan, *rp.Violation, 45*time.Second)
	rp.Minimised = note
	if !strings.HasPrefix(note, "the r") {
		rp.Mode = "decisions"
		rp.Plan = pl
		rp.Decisions = eng.EncDec(dec)
	}
	o := eng.Exec(rp.Plan, dec, rp.Mode == "decisions", true)
	for _, v := range o.Viol {
		if v.Class == rp.Violation.Class {
			v := v
			rp.Violation = &v
			break
		}
	}
	rp.All = nil
	for _, v := range append(o.Viol, o.Other...) {
		rp.All = append(rp.All, v.String())
	}
	rp.Narrative = o.Res.Trace
	if len(rp.Narrative) > 600 {
		rp.Narrative = append(rp.Narrative[:300:300], rp.Narrative[len(rp.Narrative)-300:]...)
	}
	writeJSON(*outFile, rp)
}

func replay() int {
	runtime.GOMAXPROCS(1)
	rp := readReplay()
	*prop = rp.Property
	if rp.Violation.Class == "fatal" && os.Getenv("SIMRUN_CHILD") == "" {
		c := self("replay", "-sites", *sites, "-in", *inFile)
		c.Env = append(c.Env, "SIMRUN_CHILD=1")
		out, err := c.CombinedOutput()
		if err != nil && (bytes.Contains(out, []byte("fatal error:")) || bytes.Contains(out, []byte("panic:"))) {
			fmt.Printf("reproduced: %s\n", firstFatal(string(out)))
			fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, *inFile)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	var o *eng.Outcome
	for try := 0; ; try++ {
		o = eng.Exec(rp.Plan, eng.DecDec(rp.Decisions), rp.Mode == "decisions", true)
		// initialisations inside libraries can order accesses in the first run of a process
		if len(o.Viol) > 0 || !rt.RaceBuild || try == 2 {
			break
		}
	}
	if o.Err != "" {
		fmt.Fprintln(os.Stderr, o.Err)
		return 2
	}
	if *verbose {
		for _, l := range o.Res.Trace {
			fmt.Println(l)
		}
	}
	for _, v := range append(o.Viol, o.Other...) {
		fmt.Println(v)
	}
	fmt.Printf("status %v, %d steps, schedule hash %016x\n", o.Res.Status, o.Res.Steps, o.Res.SchedH)
	for _, v := range o.Viol {
		if v.Class == rp.Violation.Class {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, *inFile)
			return 1
		}
	}
	fmt.Println("not reproduced")
	return 0
}

// hashRuns prints a hash of every run, to compare processes (determinism).
func hashRuns() {
	runtime.GOMAXPROCS(1)
	p := eng.Props[*prop]
	for i := 0; i < *runs; i++ {
		pl := eng.Make(p, *seed, uint64(i), *tier == "thorough")
		o := eng.Exec(pl, nil, false, false)
		o2 := eng.Exec(pl, o.Res.Dec, true, false)
		ok := o.Res.SchedH == o2.Res.SchedH && o.Res.Steps == o2.Res.Steps && o.Res.SimNs == o2.Res.SimNs && len(o.Res.Dec) == len(o2.Res.Dec)
		fmt.Printf("%d %016x %016x %d %d %d viol=%d err=%q replay_equal=%v\n", i, o.Res.SchedH, decHash(o.Res.Dec), o.Res.Steps, o.Res.SimNs, len(o.Res.Dec), len(o.Viol), o.Err, ok)
	}
	io.WriteString(os.Stdout, "")
}
