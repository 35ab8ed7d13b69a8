// Package rt is the simulator runtime: the instrumented copies of the code under test call it instead of the Go
// runtime and standard library for everything nondeterministic (goroutines, channels, locks, time, network,
// files, randomness, process exit). Exactly one task runs at any moment; every choice comes from one decision
// stream, so that a run is a pure function of (plan, decisions, code).
//
// The package avoids Go maps and is compiled without race instrumentation, so that in race-detector builds the
// simulator's own bookkeeping creates neither reports nor happens-before edges.
package rt

import (
	"fmt"
	"net/http"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// Kind identifies the stream a decision belongs to.
type Kind uint8

const (
	KPreempt Kind = iota // at a yield point: switch to another task
	KNext                // the running task blocked or ended: who runs next
	KJump                // at a yield point: time jumps ahead although tasks are runnable (a stalled machine)
	KSelect              // which ready case of a select
	KPool
	KMap
	KRand
	KNetDelay
	KNetChunk
	KNetFault
	KDial
	KAccept
	KRead
	KDiskFault
	KCrash
	KHarness // scenario-level choices
	KClock
	NKinds
)

var kindNames = [NKinds]string{"preempt", "next", "jump", "select", "pool", "map", "rand", "netdelay", "netchunk",
	"netfault", "dial", "accept", "read", "diskfault", "crash", "harness", "clock"}

func (k Kind) String() string { return kindNames[k] }

// KindByName is the inverse of String.
func KindByName(n string) (Kind, bool) {
	for i, x := range kindNames {
		if x == n {
			return Kind(i), true
		}
	}
	return 0, false
}

// Decision is one recorded non-default choice. For KPreempt, KNext and KJump the key is (Task, Ord) with Ord the
// task's own yield or block count; for other kinds it is the ordinal within the kind.
type Decision struct {
	K    Kind
	Task int32
	Ord  uint32
	V    int64
}

type taskState uint8

const (
	stRunnable taskState = iota
	stBlocked
	stDone
)

// Task is a simulated goroutine.
type Task struct {
	ID     int32
	Name   string
	Node   *Node
	wake   chan struct{}
	st     taskState
	killed bool
	kops   int
	nY, nB uint32
	nextP  uint32 // replay: next yield ordinal with a recorded decision
	consec uint32 // yields since the task was last switched to
	prio   int32
	gen    uint32 // incremented at every park; identifies a wait
	why    string
	site   int32
	ioErr  bool
	exited bool
	Result any
	joinq  []waitRef
	racer  byte
	raceAt int // races reported before the task was killed
	// locks in package variables that the task holds, and whether it is to die when it has released them
	globals []globalLock
	dying   bool
	from    int32 // site of the go statement
}

type waitRef struct {
	t   *Task
	gen uint32
}

func (w waitRef) valid() bool { return w.t.gen == w.gen && w.t.st == stBlocked && !w.t.killed }

// Node is a simulated process.
type Node struct {
	ID      int
	Name    string
	Alive   bool
	Epoch   int
	Skew    int64 // wall clock offset in ns
	Host    *Host
	Exit    string // reason of death
	Dials   []*Conn
	conns   []*Conn
	lis     []*Listener
	onDeath []func()
	mux     *http.ServeMux
}

// Host is a simulated machine: a disk, shared by the successive processes that run on it.
type Host struct {
	ID   int
	Name string
	FS   *FS
}

// PanicInfo describes a panic that killed a simulated process.
type PanicInfo struct {
	Node, Task string
	Value      string
	Stack      string
	AtNs       int64
}

// Status of a finished run.
type Status int

const (
	Done Status = iota
	Deadlock
	Budget
	Horizon
)

func (s Status) String() string { return [...]string{"done", "deadlock", "budget", "horizon"}[s] }

// Config parameterises a run.
type Config struct {
	Seed     uint64
	Strategy Strategy
	MaxSteps uint64
	MaxTime  int64
	Replay   bool
	Dec      []Decision // replay
	Trace    bool
	NSites   int
	SiteName func(int32) string
}

// Strategy is the schedule search strategy of a run.
type Strategy struct {
	Name   string
	Every  float64 // mean yields between random preemptions; 0: none
	Depth  int     // PCT change points
	Len    int     // PCT horizon in steps
	Hot    int     // 1 in Hot sites is a preferred preemption site; 0: none
	HotP   float64
	Jump   float64 // probability, at a preemption check, of a time jump
	RandNx bool    // choose the next task at random when one blocks (else FIFO)
}

// Sim is one simulated run.
type Sim struct {
	cfg                          Config
	randShort, randOnes, randPos int
	rng                          Rand
	cur                          *Task
	now                          int64 // virtual monotonic ns
	wall0                        int64 // wall clock (unix ns) at now==0
	jumps                        int64 // accumulated wall clock jumps
	steps                        uint64

	nextCheck uint64 // step at which the strategy wants to look
	nextTimer int64
	pctPoints []uint64
	pctLow    int32
	hot       []bool

	tasks   []*Task
	nTasks  int32
	runq    []*Task
	timers  []*timer
	timerSq uint64
	foreign []foreignWait
	chans   chanTable
	nodes   []*Node
	main    *Task
	ctl     chan struct{} // wakes the driver
	reaped  chan struct{}
	ending  bool
	reaping *Task
	status  Status

	ord    [NKinds]uint32
	rec    []Decision
	rep    []Decision // sorted
	runID  uint64
	NoJump int // >0: no time jumps and no stalls (liveness phases)
	Quiet  int // >0: no injected faults

	Panics     []PanicInfo
	schedH     uint64
	Switches   uint64
	Preempts   uint64
	Faults     [64]uint32 // indexed by fault kind
	Probes     []Probe
	trace      []string
	net        netState
	httpPanics []HTTPPanic
	logbuf     []byte
	entN       uint64
	ptrs       []uintptr
	LogHook    func(line string)
	Deadinfo   string
	stop       bool
	hostSeq    int
	raceSkip   [][2]int
	deadRacer  byte
}

// Probe counts how often a rare condition was reached.
type Probe struct {
	Name string
	N    uint32
}

var (
	gs     *Sim
	runSeq uint64
)

// Rand is a small deterministic generator (splitmix64).
type Rand struct{ s uint64 }

func NewRand(seed uint64) Rand { return Rand{seed} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Int63n(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(r.U64() % uint64(n))
}
func (r *Rand) F() float64 { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) P(p float64) bool {
	return r.F() < p
}

// Mix hashes integers into a seed.
func Mix(xs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, x := range xs {
		r := Rand{h ^ x*0xff51afd7ed558ccd}
		h = r.U64()
	}
	return h
}

// Result is what a run leaves behind.
type Result struct {
	Status   Status
	Dec      []Decision
	Steps    uint64
	SimNs    int64
	SchedH   uint64
	Switches uint64
	Preempts uint64
	Tasks    int
	Panics   []PanicInfo
	Faults   [64]uint32
	Probes   []Probe
	Trace    []string
	Deadinfo string
	RaceSkip [][2]int // numbers of race reports that do not count
}

const wallBase = 1767225600 * 1e9 // 2026-01-01T00:00:00Z

// Run executes fn as the main task of a fresh simulation and returns when it finished, or when no progress is
// possible, or when the budget ran out.
func Run(cfg Config, fn func()) *Result {
	runSeq++
	s := &Sim{cfg: cfg, rng: NewRand(Mix(cfg.Seed, 0x5eed)), wall0: wallBase, runID: runSeq,
		ctl: make(chan struct{}, 1), reaped: make(chan struct{}, 1), nextTimer: 1 << 62}
	if s.cfg.MaxSteps == 0 {
		s.cfg.MaxSteps = 3_000_000
	}
	if s.cfg.MaxTime == 0 {
		s.cfg.MaxTime = 1 << 61
	}
	s.chans.init()
	if cfg.Replay {
		s.rep = append([]Decision(nil), cfg.Dec...)
		sort.SliceStable(s.rep, func(i, j int) bool { return decLess(s.rep[i], s.rep[j]) })
		s.nextCheck = 1 << 62
	} else {
		s.initStrategy()
	}
	gs = s
	h := &Host{Name: "harness"}
	h.FS = newFS()
	n := &Node{Name: "harness", Alive: true, Host: h}
	s.nodes = append(s.nodes, n)
	s.main = s.spawn(n, "main", fn)
	// hand the token to main
	s.cur = s.main
	s.unqueue(s.main)
	raceOff()
	s.main.wake <- struct{}{}
	<-s.ctl
	raceOn()
	// end of run: unwind everything left
	s.ending = true
	for i := 0; i < len(s.tasks); i++ {
		s.reap(s.tasks[i])
		raceJoin(s.tasks[i])
	}
	res := &Result{Status: s.status, Dec: s.rec, Steps: s.steps, SimNs: s.now, SchedH: s.schedH, Switches: s.Switches,
		Preempts: s.Preempts, Tasks: len(s.tasks), Panics: s.Panics, Faults: s.Faults, Probes: s.Probes, Trace: s.trace, Deadinfo: s.Deadinfo, RaceSkip: s.raceSkip}
	gs = nil
	return res
}

func decLess(a, b Decision) bool {
	if a.K != b.K {
		return a.K < b.K
	}
	if a.Task != b.Task {
		return a.Task < b.Task
	}
	return a.Ord < b.Ord
}

// repIdx returns the index of the first recorded decision not before key.
func (s *Sim) repIdx(k Kind, task int32, ord uint32) int {
	lo, hi := 0, len(s.rep)
	key := Decision{K: k, Task: task, Ord: ord}
	for lo < hi {
		m := (lo + hi) / 2
		if decLess(s.rep[m], key) {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo
}

func (s *Sim) repGet(k Kind, task int32, ord uint32) (int64, bool) {
	i := s.repIdx(k, task, ord)
	if i < len(s.rep) {
		if d := s.rep[i]; d.K == k && d.Task == task && d.Ord == ord {
			return d.V, true
		}
	}
	return 0, false
}

// repNextY returns the next yield ordinal >= ord of the task at which a preemption or jump was recorded.
func (s *Sim) repNextY(task int32, ord uint32) uint32 {
	next := ^uint32(0)
	for _, k := range [2]Kind{KPreempt, KJump} {
		i := s.repIdx(k, task, ord)
		if i < len(s.rep) && s.rep[i].K == k && s.rep[i].Task == task && s.rep[i].Ord < next {
			next = s.rep[i].Ord
		}
	}
	return next
}

func (s *Sim) initStrategy() {
	st := &s.cfg.Strategy
	s.pctLow = -1
	if st.Depth > 0 {
		l := st.Len
		if l < 16 {
			l = 16
		}
		for i := 0; i < st.Depth; i++ {
			s.pctPoints = append(s.pctPoints, 1+uint64(s.rng.Intn(l)))
		}
	}
	if st.Hot > 0 && s.cfg.NSites > 0 {
		s.hot = make([]bool, s.cfg.NSites+1)
		for i := range s.hot {
			if s.rng.Intn(st.Hot) == 0 {
				s.hot[i] = true
			}
		}
	}
	s.scheduleCheck()
}

// scheduleCheck draws the step of the next random preemption (geometric gap) or PCT point.
func (s *Sim) scheduleCheck() {
	next := uint64(1) << 62
	st := &s.cfg.Strategy
	if st.Every > 0 {
		gap := uint64(1)
		if st.Every > 1 {
			gap = 1 + uint64(s.rng.Int63n(int64(2*st.Every)))
		}
		next = s.steps + gap
	}
	for _, p := range s.pctPoints {
		if p > s.steps && p < next {
			next = p
		}
	}
	s.nextCheck = next
}

// spawn creates a task on node n.
func (s *Sim) spawn(n *Node, name string, fn func()) *Task {
	t := &Task{ID: s.nTasks, Name: name, Node: n, wake: make(chan struct{}, 1), nextP: ^uint32(0)}
	s.nTasks++
	if s.cfg.Strategy.Depth > 0 && !s.cfg.Replay {
		t.prio = int32(s.rng.Intn(1 << 20))
	}
	if s.cfg.Replay {
		t.nextP = s.repNextY(t.ID, 0)
	}
	s.tasks = append(s.tasks, t)
	s.runq = append(s.runq, t)
	raceForkRelease(t)
	raceOff()
	go taskMain(s, t, fn)
	raceOn()
	return t
}

func taskMain(s *Sim, t *Task, fn func()) {
	raceOff()
	<-t.wake
	raceOn()
	raceForkAcquire(t)
	defer taskExit(s, t)
	if !t.killed {
		fn()
	}
}

func taskExit(s *Sim, t *Task) {
	r := recover()
	if r != nil && !t.killed {
		pi := PanicInfo{Node: t.Node.Name, Task: t.Name, Value: panicString(r), Stack: string(debug.Stack()), AtNs: s.now}
		s.Panics = append(s.Panics, pi)
		s.Tracef("PANIC %s: %s", t.Name, pi.Value)
		s.killNode(t.Node, "panic: "+pi.Value, t)
	}
	t.st = stDone
	t.exited = true
	t.nB++
	raceEndRelease(t)
	if t.killed && s.reaping != t {
		s.skipRaces(t.raceAt)
	}
	if t.killed && s.reaping == t {
		raceOff()
		s.reaped <- struct{}{}
		raceOn()
		return
	}
	if s.main.killed {
		s.finish(Done)
		return
	}
	for _, w := range t.joinq {
		if w.valid() {
			s.ready(w.t)
		}
	}
	t.joinq = nil
	if t == s.main {
		s.finish(Done)
		return
	}
	if n := s.pickNext(t); n != nil {
		s.handTo(n)
	}
}

func panicString(r any) string {
	switch x := r.(type) {
	case error:
		return x.Error()
	case string:
		return x
	}
	return fmt.Sprintf("%v", r)
}

// finish gives the token back to the driver.
func (s *Sim) finish(st Status) {
	if s.stop {
		return
	}
	s.stop = true
	s.status = st
	raceOff()
	s.ctl <- struct{}{}
	raceOn()
}

func (s *Sim) handTo(n *Task) {
	s.cur = n
	n.consec = 0
	s.Switches++
	s.schedH = (s.schedH ^ uint64(n.ID)<<32 ^ uint64(uint32(n.site))) * 0x100000001b3
	raceOff()
	n.wake <- struct{}{}
	raceOn()
}

func (s *Sim) waitTurn(t *Task) {
	raceOff()
	<-t.wake
	raceOn()
	if t.killed {
		s.die(t)
	}
}

// die unwinds a killed task.
func (s *Sim) die(t *Task) { runtime.Goexit() }

func (s *Sim) unqueue(t *Task) {
	for i, x := range s.runq {
		if x == t {
			copy(s.runq[i:], s.runq[i+1:])
			s.runq = s.runq[:len(s.runq)-1]
			return
		}
	}
}

// ready makes a blocked task runnable.
func (s *Sim) ready(t *Task) {
	if t.st != stBlocked || t.killed {
		return
	}
	t.st = stRunnable
	s.runq = append(s.runq, t)
	if s.cfg.Strategy.Depth > 0 && !s.cfg.Replay {
		s.nextCheck = s.steps + 1
	}
}

// park blocks the current task until ready is called for it. why and the current site identify the wait.
func (s *Sim) park(t *Task, why string) {
	t.why = why
	t.st = stBlocked
	t.nB++
	n := s.pickNext(t)
	if n == t {
		s.cur = t
		t.consec = 0
		t.gen++
		return
	}
	if n != nil {
		s.handTo(n)
	}
	s.waitTurn(t)
	t.gen++
}

func (s *Sim) ref(t *Task) waitRef { return waitRef{t, t.gen} }

// pickNext chooses the task to run after t blocked or ended; it advances time when nothing is runnable. nil means
// the run is over (the driver was woken).
func (s *Sim) pickNext(t *Task) *Task {
	for {
		s.fireTimers()
		s.pollForeign()
		if len(s.runq) > 0 {
			break
		}
		if len(s.timers) == 0 {
			s.Deadinfo = s.describe()
			s.finish(Deadlock)
			return nil
		}
		s.now = s.timers[0].when
		if s.now > s.cfg.MaxTime {
			s.Deadinfo = s.describe()
			s.finish(Horizon)
			return nil
		}
	}
	i := 0
	if len(s.runq) > 1 {
		if s.cfg.Replay {
			if v, ok := s.repGet(KNext, t.ID, t.nB); ok {
				i = s.indexOf(int32(v))
			}
		} else {
			if s.cfg.Strategy.Depth > 0 {
				i = s.highest(nil)
			} else if s.cfg.Strategy.RandNx {
				i = s.rng.Intn(len(s.runq))
			}
		}
		if i != 0 {
			s.rec = append(s.rec, Decision{KNext, t.ID, t.nB, int64(s.runq[i].ID)})
		}
	}
	n := s.runq[i]
	copy(s.runq[i:], s.runq[i+1:])
	s.runq = s.runq[:len(s.runq)-1]
	if s.cfg.Trace && n != t {
		s.Tracef("%s waits (%s at %s); %s runs", t.label(), t.why, s.siteName(t.site), n.label())
	}
	return n
}

func (s *Sim) indexOf(id int32) int {
	for i, x := range s.runq {
		if x.ID == id {
			return i
		}
	}
	return 0
}

func (s *Sim) highest(except *Task) int {
	b := 0
	for i, x := range s.runq {
		if x.prio > s.runq[b].prio {
			b = i
		}
	}
	return b
}

func (t *Task) label() string {
	if t.from > 0 {
		return fmt.Sprintf("%s/%s(%s)#%d", t.Node.Name, t.Name, gs.siteName(t.from), t.ID)
	}
	return fmt.Sprintf("%s/%s#%d", t.Node.Name, t.Name, t.ID)
}

func (s *Sim) siteName(site int32) string {
	if s.cfg.SiteName != nil && site > 0 {
		return s.cfg.SiteName(site)
	}
	return fmt.Sprintf("site %d", site)
}

func (s *Sim) describe() string {
	var b strings.Builder
	for _, t := range s.tasks {
		if t.st == stBlocked && !t.killed {
			fmt.Fprintf(&b, "%s blocked in %s at %s; ", t.label(), t.why, s.siteName(t.site))
		} else if t.st == stRunnable && !t.killed {
			fmt.Fprintf(&b, "%s runnable at %s; ", t.label(), s.siteName(t.site))
		}
	}
	return b.String()
}

// Y is the yield point placed before every statement of instrumented code.
func Y(site int32) {
	s := gs
	if s == nil {
		return
	}
	t := s.cur
	t.site = site
	if t.killed {
		s.killedOp(t)
		return
	}
	t.nY++
	t.consec++
	s.steps++
	s.now += 40
	if s.steps >= s.nextCheck || t.nY >= t.nextP || s.now >= s.nextTimer || (s.hot != nil && s.hot[site]) || t.consec > 50000 || s.steps > s.cfg.MaxSteps {
		s.slowY(t)
	}
}

// Yield is a yield point inside the runtime or a harness.
func Yield() {
	s := gs
	if s == nil {
		return
	}
	t := s.cur
	if t.killed {
		s.killedOp(t)
		return
	}
	t.nY++
	t.consec++
	s.steps++
	s.now += 40
	if s.steps >= s.nextCheck || t.nY >= t.nextP || s.now >= s.nextTimer || t.consec > 50000 || s.steps > s.cfg.MaxSteps {
		s.slowY(t)
	}
}

// killedOp bounds what a killed task may still execute while unwinding.
func (s *Sim) killedOp(t *Task) {
	t.kops++
	if t.kops > 20000 {
		// A deferred function that does not end: abandon the goroutine.
		t.st = stDone
		t.exited = true
		if s.reaping == t {
			raceOff()
			s.reaped <- struct{}{}
			raceOn()
		}
		select {}
	}
}

func (s *Sim) slowY(t *Task) {
	if s.steps > s.cfg.MaxSteps {
		s.Deadinfo = s.describe()
		s.finish(Budget)
		t.st = stBlocked
		t.why = "budget"
		s.waitTurn(t)
		return
	}
	s.fireTimers()
	s.pollForeign()
	if t.nY >= t.nextP { // replay of a recorded preemption or jump
		s.replayY(t)
		return
	}
	if s.cfg.Replay {
		if t.consec > 50000 && len(s.runq) > 0 {
			s.switchTo(t, 0, false)
		}
		return
	}
	st := &s.cfg.Strategy
	want := false
	if s.steps >= s.nextCheck {
		pct := false
		for i := 0; i < len(s.pctPoints); i++ {
			if s.pctPoints[i] <= s.steps {
				pct = true
				s.pctPoints = append(s.pctPoints[:i], s.pctPoints[i+1:]...)
				i--
			}
		}
		if pct {
			s.pctLow--
			t.prio = s.pctLow
			if i := s.bestOther(t); i >= 0 {
				s.scheduleCheck()
				s.switchTo(t, i, true)
				return
			}
		} else if st.Every > 0 {
			want = true
		}
		s.scheduleCheck()
	}
	if s.hot != nil && t.site >= 0 && int(t.site) < len(s.hot) && s.hot[t.site] && s.rng.P(st.HotP) {
		want = true
	}
	if want && st.Jump > 0 && s.NoJump == 0 && len(s.timers) > 0 && s.rng.P(st.Jump) {
		d := s.timers[0].when - s.now
		if d > 0 {
			s.rec = append(s.rec, Decision{KJump, t.ID, t.nY, 1})
			s.jumpTime()
		}
	}
	if want && len(s.runq) > 0 {
		s.switchTo(t, s.rng.Intn(len(s.runq)), true)
		return
	}
	if st.Depth > 0 && len(s.runq) > 0 {
		// PCT: a higher-priority task that became runnable preempts.
		if i := s.bestOther(t); i >= 0 {
			s.switchTo(t, i, true)
			return
		}
	}
	if t.consec > 50000 && len(s.runq) > 0 {
		s.switchTo(t, 0, false)
	}
}

func (s *Sim) jumpTime() {
	s.now = s.timers[0].when
	s.Fault(FStall)
	s.Tracef("time jumps to %d while tasks are runnable", s.now)
	s.fireTimers()
}

func (s *Sim) bestOther(t *Task) int {
	b := -1
	for i, x := range s.runq {
		if x.prio > t.prio && (b < 0 || x.prio > s.runq[b].prio) {
			b = i
		}
	}
	return b
}

func (s *Sim) replayY(t *Task) {
	t.nextP = s.repNextY(t.ID, t.nY+1)
	if _, ok := s.repGet(KJump, t.ID, t.nY); ok && len(s.timers) > 0 && s.NoJump == 0 {
		s.rec = append(s.rec, Decision{KJump, t.ID, t.nY, 1})
		s.jumpTime()
	}
	if v, ok := s.repGet(KPreempt, t.ID, t.nY); ok && len(s.runq) > 0 {
		i := -1
		for j, x := range s.runq {
			if x.ID == int32(v) {
				i = j
			}
		}
		if i >= 0 {
			s.switchTo(t, i, true)
		}
	}
}

// switchTo preempts t in favour of runq[i].
func (s *Sim) switchTo(t *Task, i int, record bool) {
	n := s.runq[i]
	if record {
		s.rec = append(s.rec, Decision{KPreempt, t.ID, t.nY, int64(n.ID)})
	}
	s.Preempts++
	copy(s.runq[i:], s.runq[i+1:])
	s.runq[len(s.runq)-1] = t
	s.schedH = (s.schedH ^ uint64(t.ID)<<32 ^ uint64(uint32(t.site)) ^ 0xabcd) * 0x100000001b3
	if s.cfg.Trace {
		s.Tracef("%s preempted at %s; %s runs", t.label(), s.siteName(t.site), n.label())
	}
	s.handTo(n)
	s.waitTurn(t)
}

// choose returns a value in [0,n) for a non-scheduling decision; 0 is the default (no fault, shortest delay, ...).
func (s *Sim) choose(k Kind, n int64, pick func() int64) int64 {
	o := s.ord[k]
	s.ord[k]++
	var v int64
	if s.cfg.Replay {
		v, _ = s.repGet(k, -1, o)
	} else {
		v = pick()
	}
	if n > 0 && v >= n {
		v = n - 1
	}
	if v != 0 {
		s.rec = append(s.rec, Decision{k, -1, o, v})
	}
	return v
}

// Choose makes a uniform decision in [0,n).
func Choose(k Kind, n int) int {
	s := gs
	if s == nil || n <= 1 {
		return 0
	}
	if s.cur.killed {
		return 0
	}
	return int(s.choose(k, int64(n), func() int64 { return int64(s.rng.Intn(n)) }))
}

// Chance makes a biased binary decision; false is the default.
func Chance(k Kind, p float64) bool {
	s := gs
	if s == nil || p <= 0 || s.cur.killed {
		return false
	}
	return s.choose(k, 2, func() int64 {
		if s.rng.P(p) {
			return 1
		}
		return 0
	}) == 1
}

// Range makes a decision in [0,n), log-uniform towards small values when log is set.
func Range(k Kind, n int64, log bool) int64 {
	s := gs
	if s == nil || n <= 1 || s.cur.killed {
		return 0
	}
	return s.choose(k, n, func() int64 {
		if log {
			m := n
			for m > 1 && s.rng.Intn(2) == 0 {
				m /= 4
			}
			return s.rng.Int63n(m + 1)
		}
		return s.rng.Int63n(n)
	})
}

// Go is the go statement.
func Go(fn func()) {
	s := gs
	if s == nil {
		panic("rt: go statement outside a simulation")
	}
	t := s.cur
	if t.killed {
		return
	}
	n := s.spawn(t.Node, "go", fn)
	n.from = t.site
}

// GoNamed starts a harness task on the current node.
func GoNamed(name string, fn func()) *Task { s := gs; return s.spawn(s.cur.Node, name, fn) }

// GoOn starts a task on a node.
func GoOn(n *Node, name string, fn func()) *Task { return gs.spawn(n, name, fn) }

// Join waits until t ended or d elapsed (d<=0: forever) and tells whether it ended.
func Join(t *Task, d int64) bool {
	s := gs
	c := s.cur
	if c.killed {
		return true
	}
	var deadline int64 = 1 << 62
	if d > 0 {
		deadline = s.now + d
	}
	for t.st != stDone && !t.killed {
		if s.now >= deadline {
			return false
		}
		t.joinq = append(t.joinq, s.ref(c))
		var tm *timer
		if d > 0 {
			tm = s.addTimer(deadline, tmWake, c)
		}
		s.park(c, "join "+t.Name)
		if tm != nil {
			s.delTimer(tm)
		}
	}
	raceJoin(t)
	return true
}

// Ended tells whether the task has ended.
func (t *Task) Ended() bool { return t.st == stDone || t.killed || t.dying }

// Where describes what a task is doing, for messages.
func (t *Task) Where() string {
	switch t.st {
	case stBlocked:
		return fmt.Sprintf("blocked in %s at %s", t.why, gs.siteName(t.site))
	case stDone:
		return "ended"
	}
	return "runnable at " + gs.siteName(t.site)
}

// LiveTasks lists the live tasks of a node.
func LiveTasks(n *Node) []*Task {
	var l []*Task
	for _, t := range gs.tasks {
		if t.Node == n && t.st != stDone && !t.killed {
			l = append(l, t)
		}
	}
	return l
}

// Cur returns the running task.
func Cur() *Task { return gs.cur }

// Killed tells whether the running task belongs to a dead process and is only unwinding.
func Killed() bool { return gs == nil || gs.cur.killed }

// NewHost creates a machine with an empty disk.
func NewHost(name string) *Host {
	gs.hostSeq++
	return &Host{ID: gs.hostSeq, Name: name, FS: newFS()}
}

// NewNode starts a process on a host.
func NewNode(name string, h *Host) *Node {
	s := gs
	if h == nil {
		h = NewHost(name)
	}
	raceAcq(unsafe.Pointer(&s.deadRacer)) // package variables are those of the dead process, reset
	n := &Node{ID: len(s.nodes), Name: name, Alive: true, Host: h}
	s.nodes = append(s.nodes, n)
	return n
}

// Crash kills a process at this instant. Its tasks never run again, its connections are closed by the OS.
func Crash(n *Node, reason string) {
	s := gs
	if !n.Alive {
		return
	}
	s.Fault(FCrash)
	s.killNode(n, reason, nil)
	if s.cur.Node == n {
		s.die(s.cur)
	}
}

// killNode marks everything of the node dead and unwinds its tasks (except self, the running one, which must
// unwind itself).
func (s *Sim) killNode(n *Node, reason string, self *Task) {
	if !n.Alive {
		return
	}
	n.Alive = false
	n.Exit = reason
	s.Tracef("process %s dies: %s", n.Name, reason)
	me := s.cur
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.Node != n || t == me {
			continue
		}
		if len(t.globals) > 0 && t.st != stDone {
			t.dying = true
			continue
		}
		s.reap(t)
	}
	s.cur = me
	if me.Node == n && me != self {
		me.killed = true
		me.raceAt = RaceErrors()
		me.gen++
		for _, m := range me.globals {
			m.release(s)
		}
	}
	for _, t := range s.tasks {
		if t.Node == n {
			raceJoin(t)
		}
	}
	raceRel(unsafe.Pointer(&s.deadRacer))
	s.netNodeDeath(n)
	for _, f := range n.onDeath {
		f()
	}
}

// skipRaces discards the races reported since there were n: what a dead task does while it unwinds does not count
// (locks exclude nobody then).
func (s *Sim) skipRaces(n int) {
	if m := RaceErrors(); m > n {
		s.raceSkip = append(s.raceSkip, [2]int{n, m})
	}
}

// reap unwinds one parked task synchronously.
func (s *Sim) reap(t *Task) {
	if t.st == stDone || t.exited {
		return
	}
	s.unqueue(t)
	t.killed = true
	t.gen++
	prev, prevCur := s.reaping, s.cur
	s.reaping = t
	s.cur = t
	re := RaceErrors()
	raceOff()
	t.wake <- struct{}{}
	<-s.reaped
	raceOn()
	raceJoin(t)
	s.skipRaces(re)
	s.reaping = prev
	s.cur = prevCur
	t.st = stDone
	for _, w := range t.joinq {
		if !s.ending && w.valid() {
			s.ready(w.t)
		}
	}
	t.joinq = nil
}

// exitSelf ends the calling task's process.
func (s *Sim) exitSelf(reason string) {
	t := s.cur
	if t.killed {
		s.die(t)
	}
	s.killNode(t.Node, reason, nil)
	s.die(t)
}

// Tracef appends to the narrative of a traced run.
func (s *Sim) Tracef(f string, a ...any) {
	if s.cfg.Trace && len(s.trace) < 4000 {
		s.trace = append(s.trace, fmt.Sprintf("%12.6fms ", float64(s.now)/1e6)+fmt.Sprintf(f, a...))
	}
}

// Note adds a line to the narrative.
func Note(f string, a ...any) {
	if gs != nil && gs.cfg.Trace {
		gs.Tracef(f, a...)
	}
}

// Tracing tells whether a narrative is being recorded.
func Tracing() bool { return gs != nil && gs.cfg.Trace }

// Hit counts a probe.
func Hit(name string) {
	s := gs
	if s == nil {
		return
	}
	for i := range s.Probes {
		if s.Probes[i].Name == name {
			s.Probes[i].N++
			return
		}
	}
	s.Probes = append(s.Probes, Probe{name, 1})
}

// Seq returns the number of steps so far: a total order of events.
func Seq() uint64 { gs.steps++; return gs.steps }

// Calm suspends fault injection and time jumps (liveness phases); it nests.
func Calm(on bool) {
	if on {
		gs.NoJump++
		gs.Quiet++
	} else {
		gs.NoJump--
		gs.Quiet--
	}
}

// Fault kinds, counted when they actually strike.
const (
	FStall = iota
	FCrash
	FPowerLoss
	FNetReset
	FNetDelay
	FNetFragment
	FNetPartition
	FDialRefused
	FAcceptErr
	FNetStall
	FDiskFull
	FDiskEIO
	FDiskShort
	FTornWrite
	FLostRename
	FClockJump
	FClockSkew
	FShortRead
	FCollectorErr
	FCollectorSlow
	FCollectorStuck
	FGarbageBytes
	FReadErr
	FTruncate
	FHandlerPanic
	FCancel
	FRestart
	FDeleteErr
	FStoreErr
	FShortRandom
	FSlowDisk
	FStoreSlow
	nFaults
)

// FaultNames names the fault kinds.
var FaultNames = [nFaults]string{"machine_stall_time_jump", "process_crash", "power_loss", "connection_reset", "network_delay",
	"network_fragmentation", "network_partition", "dial_refused", "accept_error", "network_stall", "disk_full", "disk_io_error",
	"short_write", "torn_or_lost_unsynced_write", "lost_rename", "wall_clock_jump", "clock_skew", "short_read", "collector_error", "collector_slow", "collector_stuck",
	"garbage_bytes", "read_error", "truncated_data", "handler_panic", "request_cancelled", "process_restart", "delete_error", "store_error", "short_random_read", "slow_disk", "store_slow"}

// Fault counts a fault that struck.
func (s *Sim) Fault(k int) { s.Faults[k]++ }

// CountFault counts a fault that struck.
func CountFault(k int) {
	if gs != nil {
		gs.Faults[k]++
	}
}
