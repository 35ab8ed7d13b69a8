package rt

import (
	"context"
	"fmt"
	"io"
	"log"
	"reflect"
	"sort"
	"time"
)

// ---- log ----

// LogWriter receives the output of the standard logger and of os.Stderr.
type LogWriter struct{}

func (LogWriter) Write(p []byte) (int, error) {
	s := gs
	if s != nil && !s.cur.killed {
		if s.LogHook != nil {
			s.LogHook(string(p))
		}
		if s.cfg.Trace {
			s.Tracef("log[%s]: %s", s.cur.Node.Name, trimNL(trimStamp(p)))
		}
	}
	return len(p), nil
}

// trimStamp removes the date and time the standard logger writes, which are not simulated.
func trimStamp(p []byte) []byte {
	const f = "2006/01/02 15:04:05 "
	for i := 0; i+len(f) <= len(p) && i < 40; i++ {
		if p[i+4] == '/' && p[i+7] == '/' && p[i+13] == ':' && p[i+16] == ':' && p[i] >= '0' && p[i] <= '9' {
			return append(append([]byte(nil), p[:i]...), p[i+len(f):]...)
		}
	}
	return p
}

func trimNL(p []byte) string {
	for len(p) > 0 && p[len(p)-1] == '\n' {
		p = p[:len(p)-1]
	}
	if len(p) > 300 {
		p = p[:300]
	}
	return string(p)
}

// SetLogHook makes fn see every log line of the run.
func SetLogHook(fn func(string)) { gs.LogHook = fn }

func Log_Fatal(v ...any) {
	log.Print(v...)
	exitLog("log.Fatal: " + fmt.Sprint(v...))
}
func Log_Fatalf(f string, v ...any) {
	log.Printf(f, v...)
	exitLog("log.Fatal: " + fmt.Sprintf(f, v...))
}
func Log_Fatalln(v ...any) {
	log.Println(v...)
	exitLog("log.Fatal: " + fmt.Sprintln(v...))
}
func exitLog(m string) {
	if gs == nil {
		panic(m)
	}
	gs.exitSelf(m)
}

// ---- randomness ----

type randReader struct{}

// RandSource tunes the source of randomness for a run: the largest short read (0: as usual) and whether its bytes are
// all ones from the given position of a process's stream on (0: no).
func RandSource(short int, ones int) { gs.randShort, gs.randOnes, gs.randPos = short, ones, 0 }

// Crand_Reader replaces crypto/rand.Reader; it sometimes returns short reads.
var Crand_Reader io.Reader = randReader{}

func (randReader) Read(p []byte) (int, error) {
	s := gs
	if s == nil {
		for i := range p {
			p[i] = byte(i*7 + 13)
		}
		return len(p), nil
	}
	n := len(p)
	if n > 1 && !s.cur.killed && s.Quiet == 0 && s.cfg.Strategy.Name != "plain" && Chance(KRand, 0.1) {
		n = 1 + Choose(KRand, n)
		if n > len(p) {
			n = len(p)
		}
		s.Fault(FShortRandom)
	}
	if s.randShort > 0 && n > s.randShort {
		n = 1 + Choose(KRand, s.randShort)
		s.Fault(FShortRandom)
	}
	s.fill(p[:n])
	for i := range p[:n] {
		if s.randOnes > 0 && s.randPos >= s.randOnes {
			p[i] = 0xff
		}
		s.randPos++
	}
	return n, nil
}

// fill produces pseudo-random bytes that are part of the run's identity but not decisions.
func (s *Sim) fill(p []byte) {
	for i := 0; i < len(p); i += 8 {
		v := s.entropy()
		for j := i; j < i+8 && j < len(p); j++ {
			p[j] = byte(v)
			v >>= 8
		}
	}
}

// entropy draws from a stream separate from the decisions: a function of the seed and the draw count only.
func (s *Sim) entropy() uint64 {
	s.entN++
	return Mix(s.cfg.Seed, 0xe17209, s.entN)
}

// Entropy is a 64-bit value unique within the run.
func Entropy() uint64 { return gs.entropy() }

func Crand_Read(p []byte) (int, error) { return io.ReadFull(Crand_Reader, p) }

func Crand_Text() string {
	var b [16]byte
	gs.fill(b[:])
	return fmt.Sprintf("%X", b)
}

func Mrand_Int63() int64   { return int64(ent() >> 1) }
func Mrand_Uint32() uint32 { return uint32(ent()) }
func Mrand_Uint64() uint64 { return ent() }
func Mrand_Int31() int32   { return int32(ent() >> 33) }
func Mrand_Int() int       { return int(uint(ent()) >> 1) }
func Mrand_Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(ent() % uint64(n))
}
func Mrand_Int31n(n int32) int32 { return int32(Mrand_Int63n(int64(n))) }
func Mrand_Intn(n int) int       { return int(Mrand_Int63n(int64(n))) }
func Mrand_IntN(n int) int       { return int(Mrand_Int63n(int64(n))) }
func Mrand_Float64() float64     { return float64(ent()>>11) / (1 << 53) }
func Mrand_Float32() float32     { return float32(Mrand_Float64()) }
func Mrand_Seed(int64)           {}
func Mrand_Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Mrand_Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Mrand_Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(ent()%uint64(i+1)))
	}
}

func ent() uint64 {
	if gs == nil {
		r := Rand{12345}
		return r.U64()
	}
	return gs.entropy()
}

// ---- context ----

type simCtx struct {
	context.Context
	dl time.Time
}

func (c *simCtx) Deadline() (time.Time, bool) { return c.dl, true }
func (c *simCtx) Err() error {
	e := c.Context.Err()
	if e != nil && context.Cause(c.Context) == context.DeadlineExceeded {
		return context.DeadlineExceeded
	}
	return e
}

func Ctx_WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		return context.WithCancel(parent)
	}
	c, cancel := context.WithCancelCause(parent)
	s := gs
	dur := int64(d.Sub(Time_Now()))
	if dur < 0 {
		dur = 0
	}
	x := s.afterCall(dur, func() { cancel(context.DeadlineExceeded) })
	return &simCtx{c, d}, func() {
		if gs == s {
			s.delTimer(x)
		}
		cancel(context.Canceled)
	}
}

func Ctx_WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return Ctx_WithDeadline(parent, Time_Now().Add(d))
}

// ---- map iteration ----

// MapIter iterates over a map in an order the simulator decides.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// Iter starts an iteration. The canonical order is the sorted order of the keys; a decision rotates and
// optionally reverses it, so that any key may come first.
func Iter[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = sortedKeys(m)
	if n := len(it.keys); n > 1 && gs != nil {
		if n <= 6 {
			// a random permutation by Fisher-Yates decisions
			for i := 0; i < n-1; i++ {
				j := i + Choose(KMap, n-i)
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		} else {
			r := Choose(KMap, n)
			ks := append(append([]K(nil), it.keys[r:]...), it.keys[:r]...)
			if Chance(KMap, 0.5) {
				for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
					ks[i], ks[j] = ks[j], ks[i]
				}
			}
			it.keys = ks
		}
	}
	return it
}

func sortedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	var a any = keys
	switch ks := a.(type) {
	case []string:
		sort.Strings(ks)
		return keys
	}
	sort.SliceStable(keys, func(i, j int) bool {
		return lessVal(reflect.ValueOf(&keys[i]).Elem(), reflect.ValueOf(&keys[j]).Elem())
	})
	return keys
}

func lessVal(a, b reflect.Value) bool {
	c := cmpVal(a, b, 2)
	return c < 0
}

func cmpVal(a, b reflect.Value, depth int) int {
	switch a.Kind() {
	case reflect.String:
		if a.String() < b.String() {
			return -1
		} else if a.String() > b.String() {
			return 1
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() < b.Int() {
			return -1
		} else if a.Int() > b.Int() {
			return 1
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() < b.Uint() {
			return -1
		} else if a.Uint() > b.Uint() {
			return 1
		}
	case reflect.Float32, reflect.Float64:
		if a.Float() < b.Float() {
			return -1
		} else if a.Float() > b.Float() {
			return 1
		}
	case reflect.Bool:
		if !a.Bool() && b.Bool() {
			return -1
		} else if a.Bool() && !b.Bool() {
			return 1
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := cmpVal(a.Field(i), b.Field(i), depth); c != 0 {
				return c
			}
		}
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := cmpVal(a.Index(i), b.Index(i), depth); c != 0 {
				return c
			}
		}
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return b2i(!a.IsNil()) - b2i(!b.IsNil())
		}
		ta, tb := a.Elem().Type().String(), b.Elem().Type().String()
		if ta != tb {
			if ta < tb {
				return -1
			}
			return 1
		}
		return cmpVal(a.Elem(), b.Elem(), depth)
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		if a.Pointer() == b.Pointer() {
			return 0
		}
		if a.Kind() == reflect.Pointer && depth > 0 && !a.IsNil() && !b.IsNil() {
			if c := cmpVal(a.Elem(), b.Elem(), depth-1); c != 0 {
				return c
			}
		}
		// Identity: order of first appearance in this run.
		x, y := ptrOrder(a.Pointer()), ptrOrder(b.Pointer())
		return x - y
	}
	return 0
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ptrOrder numbers pointers in the order they are first seen. Pointers ordered only after being seen together in
// one map range are numbered in that map's arbitrary order, so programs that range over pointer-keyed maps are
// kept deterministic only as far as their keys were seen one at a time (see NotePtr).
func ptrOrder(p uintptr) int {
	s := gs
	if s == nil {
		return 0
	}
	for i, x := range s.ptrs {
		if x == p {
			return i
		}
	}
	s.ptrs = append(s.ptrs, p)
	return len(s.ptrs) - 1
}

// IterMap is Iter together with zero loop variables of the right types.
func IterMap[M ~map[K]V, K comparable, V any](m M) (it *MapIter[K, V], k K, v V) {
	it = Iter(m)
	return
}

// ChanIter ranges over a channel.
type ChanIter[T any] struct{ ch <-chan T }

// IterChan starts ranging over a channel.
func IterChan[T any](ch <-chan T) (it *ChanIter[T], v T) { return &ChanIter[T]{ch}, v }

// Next receives the next value.
func (it *ChanIter[T]) Next(v *T) bool {
	x, ok := Recv2(it.ch)
	if ok {
		*v = x
	}
	return ok
}

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Nop does nothing.
func Nop() {}

// Next advances; k and v may be nil.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		x := it.keys[it.i]
		it.i++
		val, ok := it.m[x]
		if !ok {
			continue // deleted during the iteration
		}
		if k != nil {
			*k = x
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// MapKeys replaces reflect.Value.MapKeys.
func MapKeys(v reflect.Value) []reflect.Value {
	ks := v.MapKeys()
	sort.SliceStable(ks, func(i, j int) bool { return lessVal(ks[i], ks[j]) })
	if n := len(ks); n > 1 && gs != nil {
		r := Choose(KMap, n)
		ks = append(append([]reflect.Value(nil), ks[r:]...), ks[:r]...)
	}
	return ks
}

// MapsKeys and MapsValues replace the iterators of package maps.
func Maps_Keys[M ~map[K]V, K comparable, V any](m M) func(yield func(K) bool) {
	return func(yield func(K) bool) {
		it := Iter(m)
		var k K
		for it.Next(&k, nil) {
			if !yield(k) {
				return
			}
		}
	}
}
func Maps_Values[M ~map[K]V, K comparable, V any](m M) func(yield func(V) bool) {
	return func(yield func(V) bool) {
		it := Iter(m)
		var v V
		for it.Next(nil, &v) {
			if !yield(v) {
				return
			}
		}
	}
}
func Maps_All[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		it := Iter(m)
		var k K
		var v V
		for it.Next(&k, &v) {
			if !yield(k, v) {
				return
			}
		}
	}
}
