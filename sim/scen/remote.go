package scen

import (
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"net"
	"strconv"
	"strings"
	"syscall"

	"sourcegraph.com/sourcegraph/appdash"

	"vsim/eng"
	"vsim/rt"
	"vsim/user"
)

// The remote scenario (C08) drives RemoteCollectors against a CollectorServer over a faulty simulated network.
//
// ops: c Collect in task C on its collector, trace A, annotations of size class B drawn from E; x Close the collector;
// faults (task 99): P/H partition and heal host A, R reset the connections of collector A, K kill the server, S start it.

const wireLimit = 1 << 20

// ---- an encoder of the documented wire format, independent of the code under test ----

func wUvarint(b []byte, x uint64) []byte {
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x))
}

func wFixed(b []byte, tag byte, x uint64) []byte {
	b = append(b, tag)
	for i := 0; i < 8; i++ {
		b = append(b, byte(x>>(8*i)))
	}
	return b
}

func wBytes(b []byte, tag byte, p []byte) []byte {
	b = append(b, tag)
	b = wUvarint(b, uint64(len(p)))
	return append(b, p...)
}

// wirePacket encodes a collection. Flags: 1 omits the parent, 2 reverses the fields of the span ID, 4 adds unknown
// fields, 8 puts the annotations first, 16 omits empty values, 32 omits the trace, 64 the span, 128 the keys, 256 the
// span ID.
func wirePacket(id appdash.SpanID, as []appdash.Annotation, flags int) []byte {
	var sp, an []byte
	if flags&256 == 0 {
		f := [][]byte{wFixed(nil, 0x11, uint64(id.Trace)), wFixed(nil, 0x19, uint64(id.Span)), wFixed(nil, 0x21, uint64(id.Parent))}
		if flags&32 != 0 {
			f[0] = nil
		}
		if flags&64 != 0 {
			f[1] = nil
		}
		if flags&1 != 0 {
			f[2] = nil
		}
		if flags&2 != 0 {
			f[0], f[1], f[2] = f[2], f[0], f[1]
		}
		sp = append(sp, 0x0b)
		for _, x := range f {
			sp = append(sp, x...)
		}
		if flags&4 != 0 {
			sp = wBytes(sp, 0x7a, []byte("unknown"))
		}
		sp = append(sp, 0x0c)
	}
	for _, a := range as {
		an = append(an, 0x2b)
		if flags&2 != 0 {
			an = wBytes(an, 0x3a, a.Value)
		}
		if flags&128 == 0 {
			an = wBytes(an, 0x32, []byte(a.Key))
		}
		if flags&2 == 0 && !(flags&16 != 0 && len(a.Value) == 0) {
			an = wBytes(an, 0x3a, a.Value)
		}
		an = append(an, 0x2c)
	}
	var b []byte
	if flags&8 != 0 {
		b = append(an, sp...)
	} else {
		b = append(sp, an...)
	}
	if flags&4 != 0 {
		b = wFixed(b, 0x79, 12345) // field 15, fixed64
		b = append(b, 0x78, 0x05)  // field 15, varint
	}
	return b
}

func wireFrame(p []byte) []byte { return append(wUvarint(nil, uint64(len(p))), p...) }

func digest(b []byte) string {
	if len(b) <= 40 {
		return strconv.Quote(string(b))
	}
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%q...(%d bytes, %x)", b[:12], len(b), h.Sum64())
}

func renderCol(id appdash.SpanID, as []appdash.Annotation) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d/%d/%d", uint64(id.Trace), uint64(id.Span), uint64(id.Parent))
	for _, a := range as {
		b.WriteByte(' ')
		b.WriteString(digest([]byte(a.Key)))
		b.WriteByte('=')
		b.WriteString(digest(a.Value))
	}
	return b.String()
}

// ---- the server side ----

type arrival struct {
	what string
	seq  uint64
	at   int64
	op   int
}

type colServer struct {
	c       *eng.C
	host    *rt.Host
	node    *rt.Node
	l       net.Listener
	start   *rt.Task
	started int
	arr     []arrival
	slowP   float64
	slowMax int64
	errFor  func(id appdash.SpanID) error
	store   appdash.Collector
	debug   int64
	tls     bool
	byWhat  map[string]int
	foreign func(what string)
}

func (s *colServer) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	Keep(as)
	w := renderCol(id, as)
	op, ok := s.byWhat[w]
	if !ok {
		op = -1
		s.foreign(w)
	}
	s.arr = append(s.arr, arrival{w, rt.Seq(), rt.Now(), op})
	rt.Yield()
	if s.slowP > 0 && rt.Chance(rt.KHarness, s.slowP) {
		rt.CountFault(rt.FCollectorSlow)
		rt.Sleep(1 + rt.Range(rt.KHarness, s.slowMax, true))
	}
	if s.errFor != nil {
		if err := s.errFor(id); err != nil {
			return err
		}
	}
	if s.store != nil {
		return s.store.Collect(id, as...)
	}
	return nil
}

type nullWriter struct{}

func (nullWriter) Write(p []byte) (int, error) { return len(p), nil }

// up starts the server process.
func (s *colServer) up() {
	if s.node != nil && s.node.Alive {
		return
	}
	s.started++
	if s.started > 1 {
		rt.CountFault(rt.FRestart)
	}
	s.node = rt.NewNode(fmt.Sprintf("server%d", s.started), s.host)
	ready := rt.MakeChan[struct{}](0)
	s.start = rt.GoOn(s.node, "serve", func() {
		l, err := rt.Net_Listen("tcp", ":7701")
		if err != nil {
			panic(err)
		}
		if s.tls {
			l = rt.Tls_NewListener(l, nil)
		}
		s.l = l
		cs := appdash.NewServer(l, s)
		cs.Log = log.New(nullWriter{}, "", 0)
		cs.Debug, cs.Trace = s.debug&1 != 0, s.debug&2 != 0
		rt.Close(ready)
		cs.Start()
	})
	rt.Recv2(ready)
}

// ---- C08 ----

type rcol struct {
	node  *rt.Node
	rc    *appdash.RemoteCollector
	tasks int
}

type rcRec struct {
	i    int
	o    *eng.Op
	k    Call
	id   appdash.SpanID
	as   []appdash.Annotation
	size int
	arr  []int
	utf8 bool
}

// colAnns makes the annotations of an op.
func colAnns(r *rt.Rand, class int64) []appdash.Annotation {
	var as []appdash.Annotation
	n := []int{0, 1, 1, 2, 4, 8}[r.Intn(6)]
	blob := func(k int) []byte {
		b := make([]byte, k)
		for i := range b {
			b[i] = byte(r.U64())
		}
		return b
	}
	for i := 0; i < n; i++ {
		a := appdash.Annotation{Key: []string{"", "k", "Name", "_schema:log", "a=b", "\xe4\xb8\x96\xe7\x95\x8c"}[r.Intn(6)]}
		switch r.Intn(5) {
		case 0:
		case 1:
			a.Value = []byte{}
		case 2:
			a.Value = []byte("value")
		default:
			a.Value = blob(r.Intn(40))
		}
		as = append(as, a)
	}
	switch class {
	case 1: // hundreds of bytes
		as = append(as, appdash.Annotation{Key: "big", Value: blob(100 + r.Intn(1500))})
	case 2: // more than a window
		as = append(as, appdash.Annotation{Key: "big", Value: blob(30000 + r.Intn(90000))})
	case 3, 4, 5: // at the limit, just above, well above
		as = as[:0]
		as = append(as, appdash.Annotation{Key: "x"})
		over := len(wirePacket(appdash.SpanID{}, as, 0)) + 2 // a value this long needs a three byte length
		k := wireLimit - over
		if class == 4 {
			k += 1 + r.Intn(3)
		} else if class == 5 {
			k += 1 + r.Intn(200000)
		}
		v := make([]byte, k)
		x := r.U64()
		for i := range v {
			v[i] = byte(x >> (8 * uint(i%8)))
		}
		as[0].Value = v
	}
	return as
}

func genRemote(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	g := p.Cfg
	nc := 1 + r.Intn(3)
	g["nc"] = int64(nc)
	g["debug"] = int64(r.Intn(2))
	if r.Intn(4) == 0 {
		g["tls"] = 1
	}
	if r.Intn(3) == 0 {
		g["slow"] = pick(r, int64(100), 500)
		g["slowmax"] = logUniform(r, 10*ms)
	}
	tasks := nc + r.Intn(4)
	n := 4 + r.Intn(20)
	if deep && r.Intn(6) == 0 {
		n += 30
	}
	faulty := r.Intn(4) != 0
	big := r.Intn(40) == 0
	net := &p.Net
	net.DelayMax = pick(r, 0, 10*us, ms, 100*ms)
	net.Frag = pick(r, 0, 0.1, 0.6)
	net.ShortRead = pick(r, 0, 0.1, 0.6)
	net.Window = pick(r, 0, 0, 5000, 400)
	if big {
		net.Window = 1 << 18
		net.Frag, net.ShortRead = pick(r, 0, 0.02), 0
		net.DelayMax = pick(r, 0, 10*us)
	}
	if faulty {
		net.Reset = pick(r, 0, 0, 0.02, 0.1)
		net.Refuse = pick(r, 0, 0, 0.1, 0.4)
		net.AcceptErr = pick(r, 0, 0, 0.2)
		net.Stall = pick(r, 0, 0, 0.1)
		net.StallMax = logUniform(r, sec)
	}
	delay := pick(r, 0, 10*us, ms, 100*ms)
	bigs := 0
	for i := 0; i < n; i++ {
		t := r.Intn(tasks)
		o := eng.Op{K: "c", C: t, A: int64(1 + r.Intn(4)), E: int64(r.U64() >> 1)}
		switch r.Intn(12) {
		case 0:
			o.B = 1
		case 1:
			if net.Window == 0 && r.Intn(3) == 0 {
				o.B = 2
			}
		case 2, 3:
			if big && bigs < 2 {
				o.B = int64(3 + r.Intn(3))
				bigs++
			}
		case 4:
			if r.Intn(4) == 0 {
				o.K = "x"
			}
		}
		if delay > 0 && r.Intn(2) == 0 {
			o.D = logUniform(r, delay)
		}
		p.Ops = append(p.Ops, o)
	}
	if faulty && r.Intn(3) != 0 {
		span := int64(n)*delay/2 + 2*ms
		for i := 0; i < 1+r.Intn(5); i++ {
			o := eng.Op{K: pick(r, "P", "R", "K"), C: 99, A: int64(r.Intn(nc)), D: logUniform(r, span)}
			p.Ops = append(p.Ops, o)
			if o.K != "R" {
				p.Ops = append(p.Ops, eng.Op{K: map[string]string{"P": "H", "K": "S"}[o.K], C: 99, A: o.A, D: logUniform(r, span)})
			}
		}
	}
	return p
}

func runRemote(c *eng.C) {
	p := c.P
	s := &colServer{c: c, host: rt.NewHost("srv"), byWhat: map[string]int{}, slowP: float64(p.G("slow")) / 1000, slowMax: p.G("slowmax"), debug: p.G("debug") * 3, tls: p.G("tls") == 1}
	s.foreign = func(w string) {
		c.Fail(propOr2(c.P.For(), "C08", "C09"), "corrupt", "the server's collector received a collection nobody made: %s", short(w, 300))
	}
	s.up()
	cols := make([]*rcol, p.G("nc"))
	for i := range cols {
		n := rt.NewNode(fmt.Sprintf("app%d", i), nil)
		x := &rcol{node: n}
		cols[i] = x
		addr := "srv:7701"
		if s.tls {
			x.rc = appdash.NewTLSRemoteCollector(addr, nil)
		} else {
			x.rc = appdash.NewRemoteCollector(addr)
		}
		x.rc.Log = log.New(nullWriter{}, "", 0)
		x.rc.Debug = p.G("debug") == 1
	}
	var recs []*rcRec
	mine := map[*rcRec]*rcol{}
	closes := map[*rcol]bool{}
	newRec := func(i int, o *eng.Op, x *rcol) *rcRec {
		rr := rt.NewRand(uint64(o.E))
		r := &rcRec{i: i, o: o, id: appdash.SpanID{Trace: appdash.ID(o.A), Span: appdash.ID(i + 1), Parent: appdash.ID(o.E % 3)}, as: colAnns(&rr, o.B)}
		r.size = len(wirePacket(r.id, r.as, 0))
		recs = append(recs, r)
		mine[r] = x
		s.byWhat[renderCol(r.id, r.as)] = len(recs) - 1
		return r
	}
	do := func(r *rcRec, x *rcol) {
		as := append([]appdash.Annotation(nil), r.as...)
		DoIn(&r.k, func() error { return x.rc.Collect(r.id, as...) })
		user.Scribble(as)
		rt.Note("Collect %v (%d bytes) -> %v", r.id, r.size, r.k.Err)
	}
	// each collector has a task or several; the plan says which
	var ts []*rt.Task
	byTask := map[int]bool{}
	for i := range p.Ops {
		k := p.Ops[i].C
		if byTask[k] {
			continue
		}
		byTask[k] = true
		if k == 99 {
			ts = append(ts, rt.GoNamed("faults", func() {
				for i := range p.Ops {
					o := &p.Ops[i]
					if o.C != 99 {
						continue
					}
					Delay(o)
					x := cols[int(o.A)%len(cols)]
					switch o.K {
					case "P":
						rt.Partition(x.node.Host, s.host, true)
					case "H":
						rt.Partition(x.node.Host, s.host, false)
					case "R":
						for _, cn := range rt.Conns(x.node) {
							cn.Reset()
						}
					case "K":
						rt.Crash(s.node, "killed")
					case "S":
						s.up()
					}
				}
			}))
			continue
		}
		x := cols[k%len(cols)]
		x.tasks++
		ts = append(ts, rt.GoOn(x.node, fmt.Sprintf("client%d", k), func() {
			for i := range p.Ops {
				o := &p.Ops[i]
				if o.C != k {
					continue
				}
				Delay(o)
				if o.K == "x" {
					closes[x] = true
					x.rc.Close()
					continue
				}
				do(newRec(i, o, x), x)
			}
		}))
	}
	// end every partition some time, so that nobody waits for ever
	ended := false
	healer := rt.GoNamed("healer", func() {
		for k := 0; k < 600 && !ended; k++ {
			rt.Sleep(sec)
			if k == 300 {
				rt.HealAll()
				rt.Calm(true)
				s.up()
			}
		}
	})
	_ = healer
	for _, t := range ts {
		rt.Join(t, 0)
	}
	ended = true
	if c.Failed() {
		return
	}
	// the faults stop
	rt.HealAll()
	rt.Calm(true)
	s.up()
	rt.Sleep(5 * sec)
	faultEnd := rt.Seq()
	for ci, x := range cols {
		x := x
		var last *rcRec
		t := rt.GoOn(x.node, "probe", func() {
			for k := 0; k < 4; k++ {
				o := &eng.Op{K: "c", A: 9, E: int64(ci)*7 + int64(k)}
				last = newRec(1000+ci*10+k, o, x)
				do(last, x)
				rt.Sleep(sec)
			}
		})
		rt.Join(t, 0)
		if last.k.Err != nil {
			c.Fail("C08", "no-reconnect", "after the faults had stopped the fourth Collect in a row failed: %v", last.k.Err)
			return
		}
	}
	rt.Sleep(2 * sec)
	for ai, a := range s.arr {
		if a.op >= 0 {
			recs[a.op].arr = append(recs[a.op].arr, ai)
		}
	}
	for _, r := range recs {
		x := mine[r]
		dials := x.node.Dials
		big := r.size > wireLimit
		if len(r.arr) > 2 || len(r.arr) == 2 && len(dials) < 2 {
			c.Fail(propOr2(c.P.For(), "C08", "C09"), "duplicated", "the collection %v arrived %d times over %d connections", r.id, len(r.arr), len(dials))
			return
		}
		if r.arr != nil && s.arr[r.arr[0]].seq < r.k.Inv {
			c.Fail(propOr2(c.P.For(), "C08", "C09"), "corrupt", "a collection arrived before it was made")
		}
		if big {
			if r.k.Done && r.k.Err == nil {
				c.Fail("C08", "oversize-accepted", "a collection of %d bytes, which the server refuses, was reported as success", r.size)
			}
			continue
		}
		if r.k.Done && r.k.Err == nil {
			// it was written to some connection, whole and without an error
			put := false
			for _, cn := range dials {
				for _, f := range cn.Frames {
					put = put || f > r.k.Inv && f < r.k.Ret
				}
			}
			if !put {
				c.Fail("C08", "never-sent", "the collection %v (%d bytes) returned success although no connection had accepted it", r.id, r.size)
				return
			}
		}
		if r.k.Done && r.k.Err == nil && len(r.arr) == 0 {
			// was a connection it may have travelled on broken by the network or a crash?
			excuse := false
			for j, cn := range dials {
				end := ^uint64(0)
				if j+1 < len(dials) {
					end = dials[j+1].Dialed
				}
				from := r.k.Inv
				if x.tasks <= 1 {
					from = r.k.Ret // the connection in use when it returned
				}
				if cn.Dialed < r.k.Ret && from < end && cn.Faulted > 0 {
					excuse = true
				}
			}
			if !excuse {
				c.Fail(propOr2(c.P.For(), "C08", "C09"), "lost", "the collection %v (%d bytes) returned success and never arrived although no connection failed", r.id, r.size)
				return
			}
			c.Add("lost_with_connection", 1)
			if r.k.Inv > faultEnd && r.i%10 == 3 {
				c.Fail("C08", "no-reconnect", "after the faults had stopped the fourth collection in a row was lost")
			}
		}
		if r.k.Done && r.k.Err != nil && p.Net.Reset == 0 && p.Net.Refuse == 0 {
			quiet := true
			for _, o := range p.Ops {
				if o.C == 99 {
					quiet = false
				}
			}
			if quiet && !closes[x] {
				c.Fail("C08", "spurious-error", "Collect of %d bytes failed although nothing went wrong: %v", r.size, r.k.Err)
			}
		}
		c.Add("arrivals", int64(len(r.arr)))
	}
	for _, x := range cols {
		ok, sent := 0, 0
		for _, r := range recs {
			if mine[r] == x && r.k.Done && r.k.Err == nil && r.size <= wireLimit {
				ok++
			}
		}
		for _, cn := range x.node.Dials {
			sent += len(cn.Frames)
		}
		if sent < ok {
			c.Fail("C08", "never-sent", "%d collections returned success and the connections accepted only %d messages", ok, sent)
			return
		}
	}
	// order on a single connection
	for _, x := range cols {
		if len(x.node.Dials) != 1 {
			continue
		}
		var l []*rcRec
		for _, r := range recs {
			if mine[r] == x && len(r.arr) > 0 {
				l = append(l, r)
			}
		}
		for _, a := range l {
			for _, b := range l {
				if a.k.Ret != 0 && a.k.Ret < b.k.Inv && s.arr[a.arr[0]].seq > s.arr[b.arr[0]].seq {
					c.Fail("C08", "order", "%v was sent before %v on one connection and arrived after it", a.id, b.id)
					return
				}
			}
		}
	}
}

// ---- C09 ----

// The hostile scenario (C09) runs raw connections with hostile and well-formed input next to well-behaved clients.
//
// ops of raw clients (C < 50): o open a connection (closing the one before in manner B: 0 close, 1 reset, 2 keep idle,
// 3 half close); g well-formed frame with flags A; b malformed frame of kind A. Ops of clients C >= 50: c Collect.
// Task 99: a A accept errors of kind B.

type rawConn struct {
	cn    *rt.Conn
	dirty bool // something malformed was sent, or it was reset
	reset bool
	recs  []*rawRec
}

type rawRec struct {
	what  string
	must  bool
	id    appdash.SpanID
	n     int
	conn  *rawConn
	sent  bool
	order uint64
}

func genHostile(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	g := p.Cfg
	g["debug"] = int64(r.Intn(4))
	if r.Intn(3) == 0 {
		g["cerr"] = pick(r, int64(50), 300)
	}
	if r.Intn(3) == 0 {
		g["store"] = 1
	}
	if r.Intn(4) == 0 {
		g["slow"] = 300
		g["slowmax"] = logUniform(r, 5*ms)
	}
	net := &p.Net
	net.DelayMax = pick(r, 0, 10*us, ms)
	net.Frag = pick(r, 0, 0.2, 0.8)
	net.ShortRead = pick(r, 0, 0.2)
	net.AcceptErr = pick(r, 0, 0, 0.3)
	raws, goods := 1+r.Intn(4), r.Intn(3)
	n := 4 + r.Intn(26)
	if deep && r.Intn(6) == 0 {
		n += 30
	}
	delay := pick(r, 0, 10*us, ms)
	storm := r.Intn(30) == 0 // many short connections
	if storm {
		n = 80 + r.Intn(220)
	}
	for i := 0; i < n; i++ {
		o := eng.Op{C: r.Intn(raws), E: int64(r.U64() >> 1)}
		if storm && r.Intn(12) > 0 {
			if i%2 == 0 {
				o.K, o.B = "o", int64(r.Intn(2))
			} else {
				o.K, o.A = pick(r, "b", "b", "b", "g"), int64(r.Intn(14))
			}
			p.Ops = append(p.Ops, o)
			continue
		}
		switch k := r.Intn(10); {
		case k < 2:
			o.K, o.B = "o", int64(r.Intn(4))
		case k < 7:
			o.K, o.A = "g", int64(r.Intn(32))
			if r.Intn(2) == 0 {
				o.A = 0
			}
		default:
			o.K, o.A = "b", int64(r.Intn(14))
		}
		if goods > 0 && r.Intn(4) == 0 {
			o.K, o.C, o.A = "c", 50+r.Intn(goods), int64(1+r.Intn(3))
		}
		if r.Intn(25) == 0 {
			o = eng.Op{K: "a", C: 99, A: int64(1 + r.Intn(4)), B: int64(r.Intn(4))}
		}
		if delay > 0 && r.Intn(2) == 0 {
			o.D = logUniform(r, delay)
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func badFrame(r *rt.Rand, kind int64, id appdash.SpanID) (b []byte, parses bool) {
	as := []appdash.Annotation{Ann("bad")}
	switch kind {
	case 0:
		return wireFrame(wirePacket(id, as, 256)), false
	case 1:
		return wireFrame(wirePacket(id, as, 32)), false
	case 2:
		return wireFrame(wirePacket(id, as, 64)), false
	case 3:
		return wireFrame(wirePacket(id, as, 128)), false
	case 4:
		b := make([]byte, 1+r.Intn(60))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return wireFrame(b), true
	case 5:
		x := []uint64{wireLimit + 1, 2 * wireLimit, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1}[r.Intn(9)]
		return append(wUvarint(nil, x), "some data"...), false
	case 6:
		return []byte(strings.Repeat("\xff", 9+r.Intn(6)) + "\x7f"), false
	case 7:
		f := wireFrame(wirePacket(id, as, 0))
		return f[:1+r.Intn(len(f)-1)], false
	case 8:
		return []byte{0}, false
	case 9:
		f := wirePacket(id, as, 0)
		for k := 0; k < 1+r.Intn(3); k++ {
			f[r.Intn(len(f))] ^= byte(1 << uint(r.Intn(8)))
		}
		return wireFrame(f), true
	case 10: // trace as a varint
		f := wirePacket(id, as, 32)
		f = append(f[:1:1], append([]byte{0x10, 0x05}, f[1:]...)...)
		return wireFrame(f), false
	case 11: // group not ended
		f := wirePacket(id, nil, 0)
		return wireFrame(f[:len(f)-1]), false
	case 12:
		return []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n"), true
	}
	return []byte("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03" + strings.Repeat("\x8a", 100)), true
}

func runHostile(c *eng.C) {
	p := c.P
	s := &colServer{c: c, host: rt.NewHost("srv"), byWhat: map[string]int{}, slowP: float64(p.G("slow")) / 1000, slowMax: p.G("slowmax"), debug: p.G("debug")}
	tolerant := false
	s.foreign = func(w string) {
		if !tolerant {
			c.Fail(propOr2(c.P.For(), "C09", "C08"), "malformed-delivered", "the server's collector received something no well-formed packet contained: %s", short(w, 300))
		}
	}
	if p.G("store") == 1 {
		s.store = appdash.NewLocalCollector(appdash.NewMemoryStore())
	}
	cerr := float64(p.G("cerr")) / 1000
	hasErr := map[appdash.ID]bool{} // raw connections (trace IDs) on which the collector failed
	nerr := 0
	s.errFor = func(id appdash.SpanID) error {
		if cerr > 0 && id.Trace >= 100 && rt.Chance(rt.KHarness, cerr) {
			rt.CountFault(rt.FCollectorErr)
			nerr++
			hasErr[id.Trace] = true
			return errors.New("collector failed")
		}
		return nil
	}
	acceptErrs, acceptKind := 0, int64(0)
	rt.SetAcceptErr(func(l *rt.Listener) error {
		if acceptErrs == 0 {
			return nil
		}
		acceptErrs--
		switch acceptKind {
		case 0:
			return &net.OpError{Op: "accept", Net: "tcp", Err: syscall.EMFILE}
		case 1:
			return &net.OpError{Op: "accept", Net: "tcp", Err: syscall.ECONNABORTED}
		case 2:
			return errors.New("accept: something unexpected")
		}
		return io.ErrUnexpectedEOF
	})
	s.up()
	var all []*rawRec
	var conns []*rawConn
	goods := map[int]*appdash.RemoteCollector{}
	type goodRec struct {
		k    Call
		what string
		id   appdash.SpanID
	}
	var gr []*goodRec
	rawNode := rt.NewNode("raw", nil)
	goodNode := rt.NewNode("good", nil)
	open := func() *rawConn {
		cn, err := rt.DialSim("srv:7701")
		if err != nil {
			return nil
		}
		x := &rawConn{cn: cn}
		conns = append(conns, x)
		return x
	}
	cur := map[int]*rawConn{}
	var ts []*rt.Task
	seen := map[int]bool{}
	for i := range p.Ops {
		k := p.Ops[i].C
		if seen[k] {
			continue
		}
		seen[k] = true
		node := rawNode
		if k >= 50 {
			node = goodNode
			rc := appdash.NewRemoteCollector("srv:7701")
			rc.Log = log.New(nullWriter{}, "", 0)
			goods[k] = rc
		}
		ts = append(ts, rt.GoOn(node, fmt.Sprintf("client%d", k), func() {
			for i := range p.Ops {
				o := &p.Ops[i]
				if o.C != k {
					continue
				}
				Delay(o)
				rr := rt.NewRand(uint64(o.E))
				switch o.K {
				case "a":
					acceptErrs, acceptKind = int(o.A), o.B
					s.l.(*rt.Listener).WakeAccept()
				case "c":
					g := &goodRec{id: appdash.SpanID{Trace: appdash.ID(o.A), Span: appdash.ID(i + 1)}}
					as := colAnns(&rr, 0)
					g.what = renderCol(g.id, as)
					s.byWhat[g.what] = i
					gr = append(gr, g)
					DoIn(&g.k, func() error { return goods[k].Collect(g.id, as...) })
					rt.Note("well-behaved client: Collect %v -> %v", g.id, g.k.Err)
				case "o":
					if x := cur[k]; x != nil {
						switch o.B {
						case 0:
							x.cn.Close()
						case 1:
							x.reset = true
							x.cn.Reset()
							x.cn.Close()
						case 3:
							x.cn.CloseWrite()
						}
					}
					cur[k] = open()
				case "g", "b":
					if cur[k] == nil {
						cur[k] = open()
					}
					x := cur[k]
					if x == nil {
						continue
					}
					// every raw connection has its own trace
					id := appdash.SpanID{Trace: appdash.ID(100 + x.cn.ID), Span: appdash.ID(i + 1), Parent: appdash.ID(rr.Intn(3))}
					var f []byte
					if o.K == "g" {
						as := colAnns(&rr, 0)
						if o.A&1 != 0 {
							id.Parent = 0
						}
						q := &rawRec{id: id, conn: x, must: !x.dirty && !x.reset, what: renderCol(id, as)}
						s.byWhat[q.what] = i
						f = wireFrame(wirePacket(id, as, int(o.A)))
						all = append(all, q)
						x.recs = append(x.recs, q)
						_, err := x.cn.Write(f)
						q.sent = err == nil
						q.order = rt.Seq()
						rt.Note("raw connection %d: well-formed packet %v, flags %d -> %v", x.cn.ID, id, o.A, err)
					} else {
						x.dirty = true
						rt.CountFault(rt.FGarbageBytes)
						var tol bool
						id.Span |= 0xffff << 40 // no few flipped bits make it the ID of a well-formed packet
						f, tol = badFrame(&rr, o.A, id)
						tolerant = tolerant || tol
						_, err := x.cn.Write(f)
						rt.Note("raw connection %d: malformed packet of kind %d (%q) -> %v", x.cn.ID, o.A, short(string(f), 60), err)
						if o.A == 7 {
							x.cn.Close()
							cur[k] = nil
						}
					}
				}
			}
		}))
	}
	for _, t := range ts {
		rt.Join(t, 0)
	}
	rt.Calm(true)
	acceptErrs = 0
	rt.Sleep(2 * sec)
	if c.Failed() {
		return
	}
	if !s.node.Alive || s.start.Ended() {
		c.Fail("C09", "server-stopped", "the server stopped serving (%s)", s.node.Exit)
		return
	}
	// still serving, while hostile connections remain open
	probe := appdash.SpanID{Trace: 50, Span: 5000}
	s.byWhat[renderCol(probe, []appdash.Annotation{Ann("probe")})] = 5000
	var perr error
	t := rt.GoOn(goodNode, "probe", func() {
		rc := appdash.NewRemoteCollector("srv:7701")
		perr = rc.Collect(probe, Ann("probe"))
		rt.Sleep(sec)
		rc.Close()
	})
	rt.Join(t, 0)
	count := map[string]int{}
	first := map[string]uint64{}
	for _, a := range s.arr {
		count[a.what]++
		if count[a.what] == 1 {
			first[a.what] = a.seq
		}
	}
	if perr != nil || count[renderCol(probe, []appdash.Annotation{Ann("probe")})] != 1 {
		c.Fail("C09", "not-serving", "a new well-behaved client is not served any more (error %v)", perr)
		return
	}
	for _, g := range gr {
		if !g.k.Done || g.k.Err != nil {
			c.Fail(propOr2(c.P.For(), "C09", "C08"), "others-disturbed", "the Collect of a well-behaved client failed: %v", g.k.Err)
			return
		}
		if count[g.what] != 1 {
			c.Fail(propOr2(c.P.For(), "C09", "C08"), "others-disturbed", "a collection of a well-behaved client arrived %d times", count[g.what])
			return
		}
	}
	for _, q := range all {
		if count[q.what] > 1 {
			c.Fail(propOr2(c.P.For(), "C09", "C08"), "twice", "packet %v was delivered %d times", q.id, count[q.what])
			return
		}
		if q.must && q.sent && !q.conn.reset && !hasErr[q.id.Trace] && count[q.what] != 1 {
			c.Fail(propOr2(c.P.For(), "C09", "C08"), "well-formed-refused", "the well-formed packet %v, sent before anything malformed on its connection, was not delivered", q.id)
			return
		}
	}
	for _, x := range conns {
		for i := 1; i < len(x.recs); i++ {
			a, b := first[x.recs[i-1].what], first[x.recs[i].what]
			if a != 0 && b != 0 && a > b {
				c.Fail(propOr2(c.P.For(), "C09", "C08"), "order", "packets of one connection were delivered in another order")
				return
			}
		}
	}
	// everybody disconnects
	for _, x := range conns {
		x.cn.Close()
	}
	for _, k := range []int{50, 51, 52} {
		if rc := goods[k]; rc != nil {
			t := rt.GoOn(goodNode, "close", func() { rc.Close() })
			rt.Join(t, 0)
		}
	}
	rt.Sleep(10 * sec)
	if n := rt.OpenConns(s.node); n > 0 {
		c.Fail("C09", "connection-leak", "the server still holds %d connections after all clients disconnected", n)
		return
	}
	if l := rt.LiveTasks(s.node); len(l) != 1 {
		c.Fail("C09", "task-leak", "the server still runs %d tasks after all clients disconnected", len(l))
		return
	}
	t = rt.GoOn(s.node, "closer", func() { s.l.Close() })
	rt.Join(t, 0)
	rt.Sleep(sec)
	if !s.start.Ended() {
		c.Fail("C09", "does-not-stop", "Start does not return after the listener was closed")
	}
}

func init() {
	sr := &eng.Scenario{Name: "remote", Gen: genRemote, Run: runRemote}
	sh := &eng.Scenario{Name: "hostile", Gen: genHostile, Run: runHostile}
	eng.Register(&eng.PropCfg{ID: "C08", Scen: []eng.Weighted{{S: sr, W: 4}, {S: sh, W: 1}}, Quick: 150000, Deep: 15000000, QuickSec: 60, DeepSec: 600, Level: "exploration",
		Real: []string{"collector.go RemoteCollector and CollectorServer", "internal/wire", "gogo/protobuf framing and encoding"}, Stub: []string{"TCP and TLS (simulated connections)", "server's collector (records)", "clock, mutex and goroutine scheduler (simulated)"}})
	eng.Register(&eng.PropCfg{ID: "C09", Scen: []eng.Weighted{{S: sh, W: 4}, {S: sr, W: 1}}, Quick: 200000, Deep: 20000000, QuickSec: 60, DeepSec: 600, Level: "exploration",
		Real: []string{"collector.go CollectorServer and RemoteCollector", "internal/wire", "gogo/protobuf framing and decoding", "store.go MemoryStore behind it in a third of the runs"}, Stub: []string{"TCP (simulated connections)", "hostile clients (harness, own encoder of the wire format)", "clock, mutex and goroutine scheduler (simulated)"}})
}
