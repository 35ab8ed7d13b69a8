package rt

import (
	"fmt"
	"time"
	"unsafe"
)

type tmKind uint8

const (
	tmWake tmKind = iota // make a task runnable
	tmChan               // send the time on a channel
	tmFunc               // run a function in a new task
	tmCall               // call a runtime-internal function, which must not block
)

type timer struct {
	when, period int64
	seq          uint64
	kind         tmKind
	t            *Task
	ch           *chanState
	fn           func()
	node         *Node
	idx          int
	live         bool
}

func (s *Sim) addTimer(when int64, k tmKind, t *Task) *timer {
	s.timerSq++
	x := &timer{when: when, seq: s.timerSq, kind: k, t: t, live: true}
	if s.cur != nil {
		x.node = s.cur.Node
	}
	s.pushTimer(x)
	return x
}

func (s *Sim) less(a, b *timer) bool {
	return a.when < b.when || a.when == b.when && a.seq < b.seq
}

func (s *Sim) pushTimer(x *timer) {
	x.live = true
	x.idx = len(s.timers)
	s.timers = append(s.timers, x)
	s.up(x.idx)
	s.nextTimer = s.timers[0].when
}

func (s *Sim) swap(i, j int) {
	s.timers[i], s.timers[j] = s.timers[j], s.timers[i]
	s.timers[i].idx = i
	s.timers[j].idx = j
}

func (s *Sim) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !s.less(s.timers[i], s.timers[p]) {
			return
		}
		s.swap(i, p)
		i = p
	}
}

func (s *Sim) down(i int) {
	for {
		l := 2*i + 1
		if l >= len(s.timers) {
			return
		}
		if l+1 < len(s.timers) && s.less(s.timers[l+1], s.timers[l]) {
			l++
		}
		if !s.less(s.timers[l], s.timers[i]) {
			return
		}
		s.swap(i, l)
		i = l
	}
}

func (s *Sim) delTimer(x *timer) bool {
	if !x.live {
		return false
	}
	x.live = false
	i := x.idx
	last := len(s.timers) - 1
	s.swap(i, last)
	s.timers[last] = nil
	s.timers = s.timers[:last]
	if i < last {
		s.down(i)
		s.up(i)
	}
	if len(s.timers) > 0 {
		s.nextTimer = s.timers[0].when
	} else {
		s.nextTimer = 1 << 62
	}
	return true
}

func (s *Sim) fireTimers() {
	for len(s.timers) > 0 && s.timers[0].when <= s.now {
		x := s.timers[0]
		s.delTimer(x)
		if x.node != nil && !x.node.Alive {
			continue
		}
		switch x.kind {
		case tmWake:
			s.ready(x.t)
		case tmChan:
			raceRel(unsafe.Pointer(&x.ch.racer))
			s.timerSend(x)
		case tmFunc:
			s.spawn(x.node, "timer", x.fn)
		case tmCall:
			x.fn()
		}
		if x.period > 0 && !x.live {
			x.when += x.period
			if x.when <= s.now {
				x.when = s.now + x.period
			}
			s.timerSq++
			x.seq = s.timerSq
			s.pushTimer(x)
		}
	}
}

func (s *Sim) timerSend(x *timer) {
	c := x.ch
	v := s.timeNow(x.node)
	// hand to a receiver, else buffer if empty
	if w := c.popRecv(); w != nil {
		w.deliver(s, v, true)
		return
	}
	if len(c.buf) < 1 {
		c.buf = append(c.buf, v)
	}
}

// After calls fn (which must not block) at the given delay, independent of any process.
func (s *Sim) afterCall(d int64, fn func()) *timer {
	x := s.addTimer(s.now+d, tmCall, nil)
	x.node = nil
	x.fn = fn
	return x
}

// ---- time.Time construction ----

type timeRepr struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	hasMonotonic = 1 << 63
	nsecShift    = 30
	wallToInt    = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	unixToInt    = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	monoOffsetNs = 1
)

func mkTime(wallNs, mono int64) time.Time {
	var t time.Time
	sec := wallNs / 1e9
	ns := wallNs % 1e9
	r := (*timeRepr)(unsafe.Pointer(&t))
	r.wall = hasMonotonic | uint64(sec+unixToInt-wallToInt)<<nsecShift | uint64(ns)
	r.ext = mono + monoOffsetNs
	r.loc = time.UTC
	return t
}

// SelfTestTime checks the layout assumption behind mkTime.
func SelfTestTime() error {
	a := mkTime(1767225600*1e9+5, 1000)
	b := mkTime(1767225600*1e9+7, 1500)
	if a.UnixNano() != 1767225600*1e9+5 || b.Sub(a) != 500 || !b.After(a) || a.Round(0).UnixNano() != a.UnixNano() || b.Round(0).Sub(a.Round(0)) != 2 {
		return fmt.Errorf("time.Time layout differs: %v %v", a, b)
	}
	return nil
}

func (s *Sim) timeNow(n *Node) time.Time {
	w := s.wall0 + s.now + s.jumps
	if n != nil {
		w += n.Skew
	}
	return mkTime(w, s.now)
}

// Now is the virtual monotonic time in ns since the start of the run.
func Now() int64 { return gs.now }

// WallJump steps every node's wall clock.
func WallJump(d int64) {
	gs.jumps += d
	gs.Fault(FClockJump)
	gs.Tracef("wall clock jumps by %v", time.Duration(d))
}

// Sleep parks the calling task for d ns.
func Sleep(d int64) { Time_Sleep(time.Duration(d)) }

func Time_Now() time.Time {
	s := gs
	if s == nil {
		return time.Now()
	}
	return s.timeNow(s.cur.Node)
}

func Time_Since(t time.Time) time.Duration { return Time_Now().Sub(t) }
func Time_Until(t time.Time) time.Duration { return t.Sub(Time_Now()) }

func Time_Sleep(d time.Duration) {
	s := gs
	if s == nil {
		return
	}
	t := s.cur
	if t.killed {
		s.killedOp(t)
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	s.addTimer(s.now+int64(d), tmWake, t)
	s.park(t, "sleep")
}

// Time_Timer replaces time.Timer.
type Time_Timer struct {
	C  <-chan time.Time
	tm *timer
	cs *chanState
}

func newChanTimer(d time.Duration) *Time_Timer {
	s := gs
	ch := MakeChan[time.Time](1)
	cs := s.chans.lookup(chanPtr(ch))
	x := s.addTimer(s.now+nonneg(d), tmChan, nil)
	x.ch = cs
	return &Time_Timer{C: ch, tm: x, cs: cs}
}

func nonneg(d time.Duration) int64 {
	if d < 0 {
		return 0
	}
	if d > 1<<60 {
		return 1 << 60
	}
	return int64(d)
}

func Time_NewTimer(d time.Duration) *Time_Timer   { return newChanTimer(d) }
func Time_After(d time.Duration) <-chan time.Time { return newChanTimer(d).C }
func Time_AfterFunc(d time.Duration, f func()) *Time_Timer {
	s := gs
	x := s.addTimer(s.now+nonneg(d), tmFunc, nil)
	x.fn = f
	return &Time_Timer{tm: x}
}

func (t *Time_Timer) Stop() bool {
	if gs == nil || gs.cur.killed {
		return false
	}
	was := gs.delTimer(t.tm)
	if t.cs != nil {
		if !was && len(t.cs.buf) > 0 {
			was = true
		}
		t.cs.buf = nil
	}
	return was
}

func (t *Time_Timer) Reset(d time.Duration) bool {
	if gs == nil || gs.cur.killed {
		return false
	}
	was := t.Stop()
	s := gs
	s.timerSq++
	t.tm.seq = s.timerSq
	t.tm.when = s.now + nonneg(d)
	s.pushTimer(t.tm)
	return was
}

// Time_Ticker replaces time.Ticker.
type Time_Ticker struct {
	C <-chan time.Time
	t *Time_Timer
}

func Time_NewTicker(d time.Duration) *Time_Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := newChanTimer(d)
	t.tm.period = int64(d)
	return &Time_Ticker{C: t.C, t: t}
}

func (t *Time_Ticker) Stop() { t.t.tm.period = 0; t.t.Stop() }
func (t *Time_Ticker) Reset(d time.Duration) {
	t.t.tm.period = int64(d)
	t.t.Reset(d)
}

func Time_Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return Time_NewTicker(d).C
}
