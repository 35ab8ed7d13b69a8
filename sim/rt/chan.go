package rt

import "unsafe"

// Channels keep their Go handle (the real channel is never sent to); their state lives in a side table. A channel
// that is not in the table was made by uninstrumented code (ctx.Done(), say) and is polled.

type chanState struct {
	key    unsafe.Pointer
	keep   any
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	racer  byte
	used   bool
}

type waiter struct {
	ref waitRef
	val any
	ok  bool
	grp *selGroup
	idx int
}

type selGroup struct {
	done bool
	idx  int
}

type chanTable struct {
	slots []*chanState
	n     int
}

func (c *chanTable) init() { c.slots = make([]*chanState, 64); c.n = 0 }

func hashPtr(p unsafe.Pointer) uint64 {
	x := uint64(uintptr(p)) >> 4
	return (x * 0x9e3779b97f4a7c15) >> 20
}

func (c *chanTable) lookup(p unsafe.Pointer) *chanState {
	m := uint64(len(c.slots) - 1)
	for i := hashPtr(p) & m; ; i = (i + 1) & m {
		x := c.slots[i]
		if x == nil {
			return nil
		}
		if x.key == p {
			return x
		}
	}
}

func (c *chanTable) add(x *chanState) {
	if c.n*2 >= len(c.slots) {
		old := c.slots
		c.slots = make([]*chanState, len(old)*2)
		c.n = 0
		for _, o := range old {
			if o != nil {
				c.add(o)
			}
		}
	}
	m := uint64(len(c.slots) - 1)
	i := hashPtr(x.key) & m
	for c.slots[i] != nil {
		i = (i + 1) & m
	}
	c.slots[i] = x
	c.n++
}

func chanPtr[T any](ch <-chan T) unsafe.Pointer  { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func chanPtrS[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// MakeChan is make(chan T, n).
func MakeChan[T any](n int) chan T {
	ch := make(chan T, n)
	if s := gs; s != nil {
		s.chans.add(&chanState{key: chanPtr(ch), keep: ch, cap: n})
	}
	return ch
}

// MakeNamedChan is make(T, n) for a named channel type.
func MakeNamedChan[C ~chan T, T any](n int) C { return C(MakeChan[T](n)) }

func (c *chanState) popRecv() *waiter { return popW(&c.recvq) }
func (c *chanState) popSend() *waiter { return popW(&c.sendq) }

func popW(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.ref.valid() || (w.grp != nil && w.grp.done) {
			continue
		}
		return w
	}
	return nil
}

func hasW(q *[]*waiter) bool {
	for len(*q) > 0 {
		w := (*q)[0]
		if w.ref.valid() && (w.grp == nil || !w.grp.done) {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

func (w *waiter) deliver(s *Sim, v any, ok bool) {
	w.val, w.ok = v, ok
	if w.grp != nil {
		w.grp.done = true
		w.grp.idx = w.idx
	}
	s.ready(w.ref.t)
}

// trySend attempts a send without blocking.
func (s *Sim) trySend(c *chanState, v any) bool {
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	if w := c.popRecv(); w != nil {
		w.deliver(s, v, true)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (s *Sim) tryRecv(c *chanState) (v any, ok, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.val)
			w.deliver(s, w.val, true)
		}
		return v, true, true
	}
	if w := c.popSend(); w != nil {
		v = w.val
		w.deliver(s, v, true)
		return v, true, true
	}
	if c.closed {
		return nil, false, true
	}
	return nil, false, false
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

// Sender is the send statement: Sender(ch)(v).
func Sender[T any](ch chan<- T) func(T) {
	return func(v T) {
		s := gs
		t := s.cur
		if t.killed {
			s.killedOp(t)
			return
		}
		if ch == nil {
			s.park(t, "send on nil channel")
			return
		}
		c := s.chans.lookup(chanPtrS(ch))
		if c == nil { // foreign
			for {
				select {
				case ch <- v:
					return
				default:
				}
				s.pollPark(t, func() bool { return len(ch) < cap(ch) }, "foreign send")
			}
		}
		raceRel(unsafe.Pointer(&c.racer))
		if s.trySend(c, v) {
			raceAcq(unsafe.Pointer(&c.racer))
			return
		}
		w := &waiter{ref: s.ref(t), val: v}
		c.sendq = append(c.sendq, w)
		s.park(t, "chan send")
		raceAcq(unsafe.Pointer(&c.racer))
		if c.closed && !w.ok {
			panic(plainError("send on closed channel"))
		}
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	var zero T
	s := gs
	t := s.cur
	if t.killed {
		s.killedOp(t)
		return zero, false
	}
	if ch == nil {
		s.park(t, "receive from nil channel")
		return zero, false
	}
	c := s.chans.lookup(chanPtr(ch))
	if c == nil {
		for {
			select {
			case v, ok := <-ch:
				return v, ok
			default:
			}
			done := false
			var v T
			var ok bool
			s.pollPark(t, func() bool {
				if done {
					return true
				}
				select {
				case v, ok = <-ch:
					done = true
					return true
				default:
					return false
				}
			}, "foreign receive")
			if done {
				return v, ok
			}
		}
	}
	raceRel(unsafe.Pointer(&c.racer))
	v, ok, done := s.tryRecv(c)
	if !done {
		w := &waiter{ref: s.ref(t)}
		c.recvq = append(c.recvq, w)
		s.park(t, "chan receive")
		v, ok = w.val, w.ok
	}
	raceAcq(unsafe.Pointer(&c.racer))
	if !ok {
		return zero, false
	}
	r, _ := v.(T)
	return r, true
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	s := gs
	if s == nil {
		close(ch)
		return
	}
	if s.cur.killed {
		return
	}
	if ch == nil {
		panic(plainError("close of nil channel"))
	}
	c := s.chans.lookup(chanPtrS(ch))
	if c == nil {
		close(ch)
		return
	}
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	raceRel(unsafe.Pointer(&c.racer))
	c.closed = true
	for {
		w := c.popRecv()
		if w == nil {
			break
		}
		w.deliver(s, nil, false)
	}
	for {
		w := c.popSend()
		if w == nil {
			break
		}
		w.deliver(s, nil, false)
	}
}

// ChLen is len(ch).
func ChLen[T any](ch <-chan T) int {
	if s := gs; s != nil && ch != nil {
		if c := s.chans.lookup(chanPtr(ch)); c != nil {
			return len(c.buf)
		}
	}
	return len(ch)
}

// ChLenS is len(ch) of a send-only channel.
func ChLenS[T any](ch chan<- T) int {
	if s := gs; s != nil && ch != nil {
		if c := s.chans.lookup(chanPtrS(ch)); c != nil {
			return len(c.buf)
		}
	}
	return len(ch)
}

// ---- foreign channels ----

type foreignWait struct {
	ref  waitRef
	poll func() bool
}

func (s *Sim) pollPark(t *Task, poll func() bool, why string) {
	s.foreign = append(s.foreign, foreignWait{s.ref(t), poll})
	s.park(t, why)
}

func (s *Sim) pollForeign() {
	for i := 0; i < len(s.foreign); {
		f := s.foreign[i]
		if !f.ref.valid() || f.poll() {
			s.foreign = append(s.foreign[:i], s.foreign[i+1:]...)
			if f.ref.valid() {
				s.ready(f.ref.t)
			}
			continue
		}
		i++
	}
}

// ---- select ----

// Case is one case of a select.
type Case interface {
	ready(s *Sim) bool
	exec(s *Sim)
	enqueue(s *Sim, t *Task, g *selGroup, i int)
	finish(s *Sim)
	foreign() bool
}

// RecvC is a receive case.
type RecvC[T any] struct {
	V  T
	OK bool
	ch <-chan T
	c  *chanState
	w  *waiter
	fd bool
}

// RecvCase evaluates the channel of a receive case.
func RecvCase[T any](ch <-chan T) *RecvC[T] {
	r := &RecvC[T]{ch: ch}
	if s := gs; s != nil && ch != nil {
		r.c = s.chans.lookup(chanPtr(ch))
	}
	return r
}

func (r *RecvC[T]) foreign() bool { return r.ch != nil && r.c == nil }

func (r *RecvC[T]) ready(s *Sim) bool {
	if r.ch == nil {
		return false
	}
	if r.c == nil {
		if r.fd {
			return true
		}
		select {
		case r.V, r.OK = <-r.ch:
			r.fd = true
			return true
		default:
			return false
		}
	}
	return len(r.c.buf) > 0 || r.c.closed || hasW(&r.c.sendq)
}

func (r *RecvC[T]) exec(s *Sim) {
	if r.c == nil {
		return
	}
	v, ok, _ := s.tryRecv(r.c)
	raceAcq(unsafe.Pointer(&r.c.racer))
	if ok {
		r.V, _ = v.(T)
		r.OK = true
	}
}

func (r *RecvC[T]) enqueue(s *Sim, t *Task, g *selGroup, i int) {
	if r.c == nil {
		return
	}
	r.w = &waiter{ref: s.ref(t), grp: g, idx: i}
	r.c.recvq = append(r.c.recvq, r.w)
}

func (r *RecvC[T]) finish(s *Sim) {
	if r.w != nil && r.w.ok {
		r.V, _ = r.w.val.(T)
		r.OK = true
	}
	if r.c != nil {
		raceAcq(unsafe.Pointer(&r.c.racer))
	}
}

// SendC is a send case.
type SendC[T any] struct {
	ch chan<- T
	v  T
	c  *chanState
	w  *waiter
}

// SendCase evaluates a send case: SendCase(ch)(v).
func SendCase[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] {
		r := &SendC[T]{ch: ch, v: v}
		if s := gs; s != nil && ch != nil {
			r.c = s.chans.lookup(chanPtrS(ch))
		}
		return r
	}
}

func (r *SendC[T]) foreign() bool { return r.ch != nil && r.c == nil }
func (r *SendC[T]) ready(s *Sim) bool {
	if r.ch == nil {
		return false
	}
	if r.c == nil {
		return len(r.ch) < cap(r.ch)
	}
	return r.c.closed || len(r.c.buf) < r.c.cap || hasW(&r.c.recvq)
}
func (r *SendC[T]) exec(s *Sim) {
	if r.c == nil {
		r.ch <- r.v
		return
	}
	raceRel(unsafe.Pointer(&r.c.racer))
	s.trySend(r.c, r.v)
}
func (r *SendC[T]) enqueue(s *Sim, t *Task, g *selGroup, i int) {
	if r.c == nil {
		return
	}
	raceRel(unsafe.Pointer(&r.c.racer))
	r.w = &waiter{ref: s.ref(t), grp: g, idx: i, val: r.v}
	r.c.sendq = append(r.c.sendq, r.w)
}
func (r *SendC[T]) finish(s *Sim) {
	if r.w != nil && !r.w.ok && r.c.closed {
		panic(plainError("send on closed channel"))
	}
}

// Select performs a select over the cases and returns the index of the chosen one, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	s := gs
	t := s.cur
	if t.killed {
		s.killedOp(t)
		return -1
	}
	for {
		var rd []int
		anyForeign := false
		for i, c := range cases {
			if c.foreign() {
				anyForeign = true
			}
			if c.ready(s) {
				rd = append(rd, i)
			}
		}
		if len(rd) > 0 {
			i := rd[0]
			if len(rd) > 1 {
				// A foreign case that was polled ready has consumed its value and must be taken.
				forced := -1
				for _, j := range rd {
					if cases[j].foreign() {
						forced = j
					}
				}
				if forced >= 0 {
					i = forced
				} else {
					i = rd[Choose(KSelect, len(rd))]
				}
			}
			cases[i].exec(s)
			return i
		}
		if hasDefault {
			return -1
		}
		g := &selGroup{}
		for i, c := range cases {
			c.enqueue(s, t, g, i)
		}
		if anyForeign {
			s.foreign = append(s.foreign, foreignWait{s.ref(t), func() bool {
				if g.done {
					return false
				}
				for _, c := range cases {
					if c.foreign() && c.ready(s) {
						g.done = true
						g.idx = -1
						return true
					}
				}
				return false
			}})
		}
		s.park(t, "select")
		if g.idx == -1 {
			continue
		}
		if g.done {
			cases[g.idx].finish(s)
			return g.idx
		}
	}
}
