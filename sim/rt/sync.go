package rt

import (
	"fmt"
	"os"
	"reflect"
	"sync"
	"unsafe"
)

var _ sync.Locker = (*Sync_Mutex)(nil)

// fatal emulates an unrecoverable runtime error: the process dies.
func fatal(s *Sim, msg string) {
	t := s.cur
	s.Panics = append(s.Panics, PanicInfo{Node: t.Node.Name, Task: t.Name, Value: "fatal error: " + msg, Stack: "at " + s.siteName(t.site), AtNs: s.now})
	s.exitSelf("fatal error: " + msg)
}

// Sync_Mutex replaces sync.Mutex.
type Sync_Mutex struct {
	global bool // belongs to a package variable
	run    uint64
	locked bool
	q      []waitRef
	racer  byte
}

func (m *Sync_Mutex) fresh(s *Sim) {
	if m.run != s.runID {
		m.run = s.runID
		m.locked = false
		m.q = nil
	}
}

func (m *Sync_Mutex) Lock() {
	s := gs
	if s == nil {
		return
	}
	t := s.cur
	if t.killed {
		s.killedOp(t)
		return
	}
	m.fresh(s)
	if m.locked {
		m.waitLock(s, t)
	}
	m.locked = true
	if m.global {
		t.globals = append(t.globals, m)
	}
	raceAcq(unsafe.Pointer(&m.racer))
}

func (m *Sync_Mutex) waitLock(s *Sim, t *Task) {
	defer func() {
		if t.killed && !s.ending && !m.locked {
			wakeOne(s, &m.q) // it may have been woken to take the lock
		}
	}()
	for m.locked {
		m.q = append(m.q, s.ref(t))
		s.park(t, "mutex lock")
	}
}

func (m *Sync_Mutex) release(s *Sim) {
	if m.locked {
		m.locked = false
		wakeOne(s, &m.q)
	}
}

func (m *Sync_Mutex) TryLock() bool {
	s := gs
	if s == nil {
		return true
	}
	if s.cur.killed {
		return true
	}
	m.fresh(s)
	if m.locked {
		return false
	}
	m.locked = true
	if m.global {
		s.cur.globals = append(s.cur.globals, m)
	}
	raceAcq(unsafe.Pointer(&m.racer))
	return true
}

func (m *Sync_Mutex) Unlock() {
	s := gs
	if s == nil {
		return
	}
	if s.cur.killed {
		return
	}
	m.fresh(s)
	if !m.locked {
		fatal(s, "sync: unlock of unlocked mutex")
		return
	}
	raceRel(unsafe.Pointer(&m.racer))
	m.locked = false
	wakeOne(s, &m.q)
	if m.global {
		s.releasedGlobal(m)
	}
}

// globalLock is a lock in a package variable. All simulated processes share it, which real ones do not: a process
// that is killed while one of its tasks holds such a lock dies except for this task, which runs on until it releases
// the lock, so that what the lock protects stays consistent for the other processes.
type globalLock interface{ release(*Sim) }

func (s *Sim) releasedGlobal(m globalLock) {
	t := s.cur
	for i := len(t.globals) - 1; i >= 0; i-- {
		if t.globals[i] == m {
			t.globals = append(t.globals[:i], t.globals[i+1:]...)
			break
		}
	}
	if t.dying && len(t.globals) == 0 {
		t.killed = true
		t.gen++
		s.die(t)
	}
}

// Global marks the locks in a package variable, after each reset of the package.
func Global[T any](p *T) { markGlobal(reflect.ValueOf(p), 0) }

var mutexType, rwMutexType = reflect.TypeOf(Sync_Mutex{}), reflect.TypeOf(Sync_RWMutex{})

func markGlobal(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && depth < 3 {
			markGlobal(v.Elem(), depth+1)
		}
	case reflect.Struct:
		switch {
		case v.Type() == mutexType && v.CanAddr():
			(*Sync_Mutex)(unsafe.Pointer(v.UnsafeAddr())).global = true
		case v.Type() == rwMutexType && v.CanAddr():
			(*Sync_RWMutex)(unsafe.Pointer(v.UnsafeAddr())).global = true
		default:
			for i := 0; i < v.NumField(); i++ {
				markGlobal(v.Field(i), depth)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 64; i++ {
			markGlobal(v.Index(i), depth)
		}
	}
}

func wakeOne(s *Sim, q *[]waitRef) bool {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.valid() {
			s.ready(w.t)
			return true
		}
	}
	return false
}

func wakeAll(s *Sim, q *[]waitRef) {
	for wakeOne(s, q) {
	}
}

// Sync_RWMutex replaces sync.RWMutex (writers block new readers, as in Go).
type Sync_RWMutex struct {
	global   bool
	run      uint64
	w        bool
	r        int
	wWaiting int
	q        []waitRef
	racerW   byte
	racerR   byte
}

func (m *Sync_RWMutex) fresh(s *Sim) {
	if m.run != s.runID {
		*m = Sync_RWMutex{run: s.runID, global: m.global}
	}
}

func (m *Sync_RWMutex) release(s *Sim) {
	if m.w {
		m.w = false
	} else if m.r > 0 {
		m.r--
	}
	if m.r == 0 {
		wakeAll(s, &m.q)
	}
}

func (m *Sync_RWMutex) took(s *Sim) {
	if m.global {
		s.cur.globals = append(s.cur.globals, m)
	}
}

func (m *Sync_RWMutex) Lock() {
	s := gs
	if s == nil {
		return
	}
	t := s.cur
	if t.killed {
		s.killedOp(t)
		return
	}
	m.fresh(s)
	if m.w || m.r > 0 {
		m.waitLock(s, t)
	}
	m.w = true
	m.took(s)
	raceAcq(unsafe.Pointer(&m.racerW))
	raceAcq(unsafe.Pointer(&m.racerR))
}

func (m *Sync_RWMutex) waitLock(s *Sim, t *Task) {
	m.wWaiting++
	defer func() {
		m.wWaiting--
		if t.killed && !s.ending {
			wakeAll(s, &m.q) // readers need not wait for it any more
		}
	}()
	for m.w || m.r > 0 {
		m.q = append(m.q, s.ref(t))
		s.park(t, "rwmutex lock")
	}
}

func (m *Sync_RWMutex) TryLock() bool {
	s := gs
	if s == nil || s.cur.killed {
		return true
	}
	m.fresh(s)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.took(s)
	raceAcq(unsafe.Pointer(&m.racerW))
	raceAcq(unsafe.Pointer(&m.racerR))
	return true
}

func (m *Sync_RWMutex) Unlock() {
	s := gs
	if s == nil || s.cur.killed {
		return
	}
	m.fresh(s)
	if !m.w {
		fatal(s, "sync: Unlock of unlocked RWMutex")
		return
	}
	raceRel(unsafe.Pointer(&m.racerW))
	m.w = false
	wakeAll(s, &m.q)
	if m.global {
		s.releasedGlobal(m)
	}
}

func (m *Sync_RWMutex) RLock() {
	s := gs
	if s == nil {
		return
	}
	t := s.cur
	if t.killed {
		s.killedOp(t)
		return
	}
	m.fresh(s)
	for m.w || m.wWaiting > 0 {
		m.q = append(m.q, s.ref(t))
		s.park(t, "rwmutex rlock")
	}
	m.r++
	m.took(s)
	raceAcq(unsafe.Pointer(&m.racerW))
}

func (m *Sync_RWMutex) TryRLock() bool {
	s := gs
	if s == nil || s.cur.killed {
		return true
	}
	m.fresh(s)
	if m.w || m.wWaiting > 0 {
		return false
	}
	m.r++
	m.took(s)
	raceAcq(unsafe.Pointer(&m.racerW))
	return true
}

func (m *Sync_RWMutex) RUnlock() {
	s := gs
	if s == nil || s.cur.killed {
		return
	}
	m.fresh(s)
	if m.r <= 0 {
		fatal(s, "sync: RUnlock of unlocked RWMutex")
		return
	}
	raceRel(unsafe.Pointer(&m.racerR))
	m.r--
	if m.r == 0 {
		wakeAll(s, &m.q)
	}
	if m.global {
		s.releasedGlobal(m)
	}
}

type rlocker struct{ m *Sync_RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *Sync_RWMutex) RLocker() sync.Locker { return rlocker{m} }

// Sync_WaitGroup replaces sync.WaitGroup.
type Sync_WaitGroup struct {
	run   uint64
	n     int
	q     []waitRef
	racer byte
}

func (w *Sync_WaitGroup) fresh(s *Sim) {
	if w.run != s.runID {
		*w = Sync_WaitGroup{run: s.runID}
	}
}

func (w *Sync_WaitGroup) Add(d int) {
	s := gs
	if s == nil || s.cur.killed {
		return
	}
	w.fresh(s)
	raceRel(unsafe.Pointer(&w.racer))
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		wakeAll(s, &w.q)
	}
}

func (w *Sync_WaitGroup) Done() { w.Add(-1) }

func (w *Sync_WaitGroup) Wait() {
	s := gs
	if s == nil {
		return
	}
	t := s.cur
	if t.killed {
		s.killedOp(t)
		return
	}
	w.fresh(s)
	for w.n > 0 {
		w.q = append(w.q, s.ref(t))
		s.park(t, "waitgroup wait")
	}
	raceAcq(unsafe.Pointer(&w.racer))
}

func (w *Sync_WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Sync_Once replaces sync.Once.
type Sync_Once struct {
	done bool
	m    Sync_Mutex
}

func (o *Sync_Once) Do(f func()) {
	if gs == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	if gs.cur.killed {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func Sync_OnceFunc(f func()) func() {
	var o Sync_Once
	return func() { o.Do(f) }
}

func Sync_OnceValue[T any](f func() T) func() T {
	var o Sync_Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func Sync_OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Sync_Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Sync_Cond replaces sync.Cond.
type Sync_Cond struct {
	L sync.Locker
	q []waitRef
}

func Sync_NewCond(l sync.Locker) *Sync_Cond { return &Sync_Cond{L: l} }

func (c *Sync_Cond) Wait() {
	s := gs
	t := s.cur
	if t.killed {
		s.killedOp(t)
		return
	}
	c.q = append(c.q, s.ref(t))
	// Between registering and parking no other task runs, except through Unlock, which does not yield.
	c.L.Unlock()
	s.park(t, "cond wait")
	c.L.Lock()
}
func (c *Sync_Cond) Signal() {
	if gs != nil && !gs.cur.killed {
		wakeOne(gs, &c.q)
	}
}
func (c *Sync_Cond) Broadcast() {
	if gs != nil && !gs.cur.killed {
		wakeAll(gs, &c.q)
	}
}

// Sync_Pool replaces sync.Pool: whether a pooled item comes back is a decision.
type Sync_Pool struct {
	New   func() any
	run   uint64
	items []*poolItem
}

type poolItem struct {
	x     any
	racer byte
}

func (p *Sync_Pool) Get() any {
	s := gs
	if s != nil && !s.cur.killed {
		if p.run != s.runID {
			p.run = s.runID
			p.items = nil
		}
		if n := len(p.items); n > 0 && !Chance(KPool, 0.2) {
			i := n - 1 - Choose(KPool, n)
			x := p.items[i]
			p.items = append(p.items[:i:i], p.items[i+1:]...)
			raceAcq(unsafe.Pointer(&x.racer))
			return x.x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Sync_Pool) Put(x any) {
	s := gs
	if s == nil || s.cur.killed || x == nil {
		return
	}
	if p.run != s.runID {
		p.run = s.runID
		p.items = nil
	}
	it := &poolItem{x: x}
	raceRel(unsafe.Pointer(&it.racer))
	p.items = append(p.items, it)
}

// Sync_Map replaces sync.Map.
type Sync_Map struct {
	ks    []any
	vs    []any
	racer byte
}

func (m *Sync_Map) find(k any) int {
	for i, x := range m.ks {
		if x == k {
			return i
		}
	}
	return -1
}

func (m *Sync_Map) edge() { raceAcq(unsafe.Pointer(&m.racer)); raceRel(unsafe.Pointer(&m.racer)) }

func (m *Sync_Map) Load(k any) (any, bool) {
	m.edge()
	if i := m.find(k); i >= 0 {
		return m.vs[i], true
	}
	return nil, false
}
func (m *Sync_Map) Store(k, v any) { m.Swap(k, v) }
func (m *Sync_Map) Swap(k, v any) (any, bool) {
	m.edge()
	if i := m.find(k); i >= 0 {
		o := m.vs[i]
		m.vs[i] = v
		return o, true
	}
	m.ks = append(m.ks, k)
	m.vs = append(m.vs, v)
	return nil, false
}
func (m *Sync_Map) LoadOrStore(k, v any) (any, bool) {
	m.edge()
	if i := m.find(k); i >= 0 {
		return m.vs[i], true
	}
	m.ks = append(m.ks, k)
	m.vs = append(m.vs, v)
	return v, false
}
func (m *Sync_Map) LoadAndDelete(k any) (any, bool) {
	m.edge()
	if i := m.find(k); i >= 0 {
		v := m.vs[i]
		m.ks = append(m.ks[:i:i], m.ks[i+1:]...)
		m.vs = append(m.vs[:i:i], m.vs[i+1:]...)
		return v, true
	}
	return nil, false
}
func (m *Sync_Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Sync_Map) CompareAndSwap(k, o, n any) bool {
	m.edge()
	if i := m.find(k); i >= 0 && m.vs[i] == o {
		m.vs[i] = n
		return true
	}
	return false
}
func (m *Sync_Map) CompareAndDelete(k, o any) bool {
	m.edge()
	if i := m.find(k); i >= 0 && m.vs[i] == o {
		m.LoadAndDelete(k)
		return true
	}
	return false
}
func (m *Sync_Map) Clear() { m.edge(); m.ks, m.vs = nil, nil }
func (m *Sync_Map) Range(f func(k, v any) bool) {
	m.edge()
	ks := append([]any(nil), m.ks...)
	for _, k := range ks {
		Yield()
		if i := m.find(k); i >= 0 {
			if !f(k, m.vs[i]) {
				return
			}
		}
	}
}

// ---- process exit ----

func Os_Exit(code int) {
	s := gs
	if s == nil {
		os.Exit(code)
	}
	s.exitSelf(fmt.Sprintf("exit status %d", code))
}

// Edge lets a harness order accesses explicitly (for the race detector): what precedes NewEdge precedes what follows In.
type Edge struct{ racer byte }

// NewEdge starts an edge.
func NewEdge() *Edge {
	e := &Edge{}
	raceRel(unsafe.Pointer(&e.racer))
	return e
}

// Out adds another start.
func (e *Edge) Out() { raceRel(unsafe.Pointer(&e.racer)) }

// In ends an edge.
func (e *Edge) In() { raceAcq(unsafe.Pointer(&e.racer)) }

// Gate is a barrier that orders nothing for the race detector.
type Gate struct {
	open bool
	q    []waitRef
}

// Wait waits until the gate is open.
func (g *Gate) Wait() {
	s := gs
	for !g.open && !s.cur.killed {
		g.q = append(g.q, s.ref(s.cur))
		s.park(s.cur, "gate")
	}
}

// Open opens it.
func (g *Gate) Open() {
	g.open = true
	wakeAll(gs, &g.q)
}
