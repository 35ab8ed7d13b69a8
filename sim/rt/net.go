package rt

import (
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// NetCfg configures the simulated network (probabilities per operation).
type NetCfg struct {
	DelayMax  int64   // segments take up to this long (log-uniform)
	Frag      float64 // a write is cut into several segments
	Reset     float64 // the connection is reset during a write
	Refuse    float64 // a dial is refused
	AcceptErr float64 // Accept fails with EMFILE
	Stall     float64 // a segment is stalled for up to StallMax
	StallMax  int64
	ShortRead float64
	Window    int // send window in bytes (default 64 KiB)
}

type netState struct {
	cfg       NetCfg
	parts     []partition
	lis       []*Listener
	nextPort  int
	connSeq   int
	AcceptErr func(l *Listener) error
}

type partition struct{ a, b string }

type segment struct {
	data []byte
	fin  bool
	held bool
}

// pipe is one direction of a connection.
type pipe struct {
	buf      []byte
	fl       []segment // in flight, in order
	inFlight int
	eof      bool
	rst      bool // reader sees ECONNRESET once buf is drained
	finSent  bool
	lastArr  int64
	rq, wq   []waitRef
	from, to string
	rdClosed bool
	racer    byte // data sent happens before its receipt
}

// Conn is a simulated TCP connection.
type Conn struct {
	ID       int
	Node     *Node
	peer     *Conn
	in, out  *pipe
	la, ra   simAddr
	closed   bool
	rdl, wdl int64
	abort    func() error
	BytesIn  int
	BytesOut int
	Dialed   uint64 // when it was made
	Faulted  uint64 // when the simulator broke it
	tlsState int    // 0 plain, 1 client, 2 server needing handshake, 3 done

	Frames []uint64 // when each length-delimited message was accepted whole from a dialling side
	frLen  uint64
	frSh   uint
	frBody bool
}

// frames follows the length-delimited messages in the data a connection accepts.
func (c *Conn) frames(b []byte) {
	for len(b) > 0 {
		if !c.frBody {
			x := b[0]
			b = b[1:]
			c.frLen |= uint64(x&0x7f) << c.frSh
			c.frSh += 7
			c.frBody = x < 0x80
		}
		if c.frBody {
			k := min(c.frLen, uint64(len(b)))
			b = b[k:]
			if c.frLen -= k; c.frLen == 0 {
				c.frBody, c.frSh = false, 0
				c.Frames = append(c.Frames, Seq())
			}
		}
	}
}

// Net_TCPConn and Net_TCPListener stand for the TCP types of package net.
type Net_TCPConn = Conn
type Net_TCPListener = Listener

type simAddr = *net.TCPAddr

func mkAddr(h *Host, port int) simAddr {
	return &net.TCPAddr{IP: net.IPv4(10, 1, byte(h.ID>>8), byte(h.ID)), Port: port}
}

// Listener is a simulated TCP listener.
type Listener struct {
	Node    *Node
	addr    simAddr
	host    string
	port    int
	backlog []*Conn
	closed  bool
	q       []waitRef
	tls     bool
	Accepts int
	Errs    int
	dl      int64
}

// SetNet configures the network of the run.
func SetNet(c NetCfg) { gs.net.cfg = c }

// GetNet returns the network configuration.
func GetNet() NetCfg { return gs.net.cfg }

// SetAcceptErr installs a hook deciding scripted accept errors.
func SetAcceptErr(f func(l *Listener) error) { gs.net.AcceptErr = f }

// Partition separates two hosts or heals the separation.
func Partition(a, b *Host, on bool) {
	s := gs
	if on {
		s.net.parts = append(s.net.parts, partition{a.Name, b.Name})
		s.Fault(FNetPartition)
		s.Tracef("network partition between %s and %s", a.Name, b.Name)
		return
	}
	s.Tracef("network heals between %s and %s", a.Name, b.Name)
	var l []partition
	for _, p := range s.net.parts {
		if !(p.a == a.Name && p.b == b.Name || p.a == b.Name && p.b == a.Name) {
			l = append(l, p)
		}
	}
	s.net.parts = l
	s.release()
}

// HealAll ends all partitions.
func HealAll() {
	if len(gs.net.parts) > 0 {
		gs.net.parts = nil
		gs.Tracef("network heals")
		gs.release()
	}
}

func (s *Sim) parted(a, b string) bool {
	for _, p := range s.net.parts {
		if p.a == a && p.b == b || p.a == b && p.b == a {
			return true
		}
	}
	return false
}

// release delivers what partitions held back.
func (s *Sim) release() {
	for _, n := range s.nodes {
		for _, c := range n.conns {
			if !s.parted(c.out.from, c.out.to) {
				c.out.pump(s)
			}
			if !s.parted(c.in.from, c.in.to) {
				c.in.pump(s)
			}
		}
	}
}

func opErr(op string, c *Conn, e error) error {
	o := &net.OpError{Op: op, Net: "tcp", Err: e}
	if c != nil {
		o.Source, o.Addr = c.la, c.ra
	}
	return o
}

func sysErr(call string, e syscall.Errno) error { return os.NewSyscallError(call, e) }

// ---- pipe ----

// send puts a segment in flight.
func (p *pipe) send(s *Sim, seg segment) {
	d := int64(20_000)
	cf := &s.net.cfg
	if s.Quiet == 0 {
		if cf.DelayMax > 0 {
			if x := Range(KNetDelay, cf.DelayMax, true); x > 0 {
				d += x
				s.Fault(FNetDelay)
			}
		}
		if cf.Stall > 0 && Chance(KNetFault, cf.Stall) {
			d += Range(KNetDelay, cf.StallMax, false)
			s.Fault(FNetStall)
		}
	}
	at := s.now + d
	if at < p.lastArr {
		at = p.lastArr
	}
	p.lastArr = at
	seg.held = true
	p.fl = append(p.fl, seg)
	p.inFlight += len(seg.data)
	n := len(p.fl)
	_ = n
	s.afterCall(at-s.now, func() {
		// the first held segment becomes deliverable
		for i := range p.fl {
			if p.fl[i].held {
				p.fl[i].held = false
				break
			}
		}
		if !s.parted(p.from, p.to) {
			p.pump(s)
		}
	})
}

// pump moves deliverable segments to the reader.
func (p *pipe) pump(s *Sim) {
	did := false
	for len(p.fl) > 0 && !p.fl[0].held {
		seg := p.fl[0]
		p.fl = p.fl[1:]
		p.inFlight -= len(seg.data)
		if seg.fin {
			p.eof = true
		} else if !p.rdClosed {
			p.buf = append(p.buf, seg.data...)
		}
		did = true
	}
	if did {
		wakeAll(s, &p.rq)
	}
}

// reset kills a direction: what is in flight is lost.
func (p *pipe) reset(s *Sim) {
	p.fl = nil
	p.inFlight = 0
	p.rst = true
	wakeAll(s, &p.rq)
	wakeAll(s, &p.wq)
}

// ---- Conn ----

func (c *Conn) guard() *Sim {
	s := gs
	if s == nil {
		return nil
	}
	if s.cur.killed {
		s.killedOp(s.cur)
		return nil
	}
	return s
}

// waitIO parks until the pipe's queue is woken, the deadline passes or the abort hook fires.
func (c *Conn) waitIO(s *Sim, q *[]waitRef, dl int64, why string) {
	t := s.cur
	*q = append(*q, s.ref(t))
	var tm *timer
	if dl > 0 {
		tm = s.addTimer(dl, tmWake, t)
	}
	if c.abort != nil {
		ab := c.abort
		s.pollPark(t, func() bool { return ab() != nil }, why)
	} else {
		s.park(t, why)
	}
	if tm != nil {
		s.delTimer(tm)
	}
}

func (c *Conn) Read(b []byte) (int, error) {
	s := c.guard()
	if s == nil {
		return 0, net.ErrClosed
	}
	Yield()
	if c.tlsState == 2 {
		if err := c.serverHandshake(); err != nil {
			return 0, err
		}
	}
	return c.rawRead(s, b)
}

func (c *Conn) rawRead(s *Sim, b []byte) (int, error) {
	for {
		if s.cur.killed {
			return 0, net.ErrClosed
		}
		if c.closed {
			return 0, opErr("read", c, net.ErrClosed)
		}
		if c.rdl > 0 && s.now >= c.rdl {
			return 0, opErr("read", c, os.ErrDeadlineExceeded)
		}
		if c.abort != nil {
			if e := c.abort(); e != nil {
				return 0, e
			}
		}
		p := c.in
		if len(p.buf) > 0 {
			if len(b) == 0 {
				return 0, nil
			}
			n := copy(b, p.buf)
			if n > 1 && s.Quiet == 0 && s.net.cfg.ShortRead > 0 && Chance(KRead, s.net.cfg.ShortRead) {
				n = 1 + Choose(KRead, n)
				if n > len(b) {
					n = len(b)
				}
				s.Fault(FShortRead)
			}
			p.buf = p.buf[n:]
			if len(p.buf) == 0 {
				p.buf = nil
			}
			c.BytesIn += n
			wakeAll(s, &p.wq)
			raceAcq(unsafe.Pointer(&p.racer))
			raceWrite(b[:n])
			return n, nil
		}
		if p.rst {
			return 0, opErr("read", c, sysErr("read", syscall.ECONNRESET))
		}
		if p.eof {
			return 0, io.EOF
		}
		c.waitIO(s, &p.rq, c.rdl, "conn read")
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	s := c.guard()
	if s == nil {
		return 0, net.ErrClosed
	}
	Yield()
	if c.tlsState == 2 {
		if err := c.serverHandshake(); err != nil {
			return 0, err
		}
	}
	n, err := c.rawWrite(s, b)
	if c.Dialed != 0 {
		c.frames(b[:n])
	}
	return n, err
}

func (c *Conn) rawWrite(s *Sim, b []byte) (int, error) {
	p := c.out
	raceRead(b)
	raceRel(unsafe.Pointer(&p.racer))
	win := s.net.cfg.Window
	if win == 0 {
		win = 64 << 10
	}
	n := 0
	if s.Quiet == 0 && s.net.cfg.Reset > 0 && len(b) > 0 && Chance(KNetFault, s.net.cfg.Reset) {
		// part of the data is sent, then the connection breaks
		k := Choose(KNetFault, len(b)+1)
		if k > 0 && p.inFlight+len(p.buf)+k <= win && !c.closed && !p.rdClosed {
			p.send(s, segment{data: append([]byte(nil), b[:k]...)})
			if Choose(KNetFault, 2) == 1 { // it arrives first
				for i := range p.fl {
					p.fl[i].held = false
				}
				if !s.parted(p.from, p.to) {
					p.pump(s)
				}
			}
			n = k
		}
		s.Fault(FNetReset)
		s.Tracef("connection %d (%s-%s) is reset", c.ID, c.la, c.ra)
		c.fault(s)
		c.resetBoth(s)
		return n, opErr("write", c, sysErr("write", syscall.ECONNRESET))
	}
	for {
		if s.cur.killed {
			return n, net.ErrClosed
		}
		if c.closed || p.finSent {
			return n, opErr("write", c, net.ErrClosed)
		}
		if c.in.rst {
			return n, opErr("write", c, sysErr("write", syscall.EPIPE))
		}
		if c.wdl > 0 && s.now >= c.wdl {
			return n, opErr("write", c, os.ErrDeadlineExceeded)
		}
		if c.abort != nil {
			if e := c.abort(); e != nil {
				return n, e
			}
		}
		if len(b) == 0 {
			return n, nil
		}
		if p.rdClosed {
			// the peer closed: this data is answered by a reset
			n += len(b)
			s.afterCall(40_000, func() { c.resetBoth(s) })
			return n, nil
		}
		if free := win - p.inFlight - len(p.buf); free > 0 {
			k := len(b)
			if k > free {
				k = free
			}
			if k > 1 && s.Quiet == 0 && s.net.cfg.Frag > 0 && Chance(KNetChunk, s.net.cfg.Frag) {
				k = 1 + Choose(KNetChunk, k)
				s.Fault(FNetFragment)
			}
			if k > len(b) {
				k = len(b)
			}
			p.send(s, segment{data: append([]byte(nil), b[:k]...)})
			b = b[k:]
			n += k
			c.BytesOut += k
			continue
		}
		c.waitIO(s, &p.wq, c.wdl, "conn write")
	}
}

// resetBoth breaks the connection for both ends.
func (c *Conn) resetBoth(s *Sim) {
	c.out.reset(s)
	c.in.reset(s)
}

// Reset breaks a connection (fault injection by scenarios).
func (c *Conn) Reset() {
	gs.Fault(FNetReset)
	gs.Tracef("connection %d (%s-%s) is reset", c.ID, c.la, c.ra)
	c.fault(gs)
	c.resetBoth(gs)
}

// fault notes that the simulator broke the connection.
func (c *Conn) fault(s *Sim) {
	if c.Faulted == 0 {
		c.Faulted, c.peer.Faulted = s.steps+1, s.steps+1
	}
}

func (c *Conn) Close() error {
	s := gs
	if s == nil {
		return nil
	}
	if s.cur.killed {
		return nil
	}
	Yield()
	return c.close(s)
}

func (c *Conn) close(s *Sim) error {
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.closed = true
	if c.tlsState == 2 {
		c.tlsState = 3
	}
	wakeAll(s, &c.in.rq)
	wakeAll(s, &c.in.wq)
	wakeAll(s, &c.out.wq)
	c.in.rdClosed = true
	unread := len(c.in.buf) > 0 || c.in.inFlight > 0
	if unread && !c.in.rst {
		// closing with unread data resets the connection; what we sent and the peer has not received is lost
		c.in.buf = nil
		c.out.reset(s)
		wakeAll(s, &c.in.wq)
	} else if !c.out.finSent && !c.out.rst {
		c.out.finSent = true
		c.out.send(s, segment{fin: true})
	}
	l := c.Node.conns[:0]
	for _, x := range c.Node.conns {
		if x != c {
			l = append(l, x)
		}
	}
	c.Node.conns = l
	return nil
}

// CloseWrite sends a FIN.
func (c *Conn) CloseWrite() error {
	s := c.guard()
	if s == nil {
		return net.ErrClosed
	}
	if !c.out.finSent {
		c.out.finSent = true
		c.out.send(s, segment{fin: true})
	}
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return c.la }
func (c *Conn) RemoteAddr() net.Addr { return c.ra }

func dlNs(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := gs.now + int64(t.Sub(Time_Now()))
	if d <= 0 {
		d = 1
	}
	return d
}

func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	if s := c.guard(); s != nil {
		c.rdl = dlNs(t)
		wakeAll(s, &c.in.rq)
	}
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if s := c.guard(); s != nil {
		c.wdl = dlNs(t)
		wakeAll(s, &c.out.wq)
	}
	return nil
}
func (c *Conn) SetKeepAlive(bool) error                  { return nil }
func (c *Conn) SetKeepAlivePeriod(d time.Duration) error { return nil }
func (c *Conn) SetNoDelay(bool) error                    { return nil }
func (c *Conn) SetLinger(int) error                      { return nil }

// Closed tells whether this end was closed by its owner.
func (c *Conn) Closed() bool { return c.closed }

// PeerClosed tells whether the other end was closed.
func (c *Conn) PeerClosed() bool { return c.peer.closed }

// Broken tells whether the connection was reset.
func (c *Conn) Broken() bool { return c.in.rst || c.out.rst }

// SetAbort installs a function that makes blocked operations return its error once it is not nil.
func (c *Conn) SetAbort(f func() error) { c.abort = f }

// OpenConns counts the connections a process holds open.
func OpenConns(n *Node) int { return len(n.conns) }

// Conns lists the connections a process holds open.
func Conns(n *Node) []*Conn { return append([]*Conn(nil), n.conns...) }

func (s *Sim) netNodeDeath(n *Node) {
	for _, l := range n.lis {
		l.closed = true
		s.dropListener(l)
		for _, c := range l.backlog {
			c.fault(s)
			c.resetBoth(s)
		}
	}
	n.lis = nil
	for _, c := range append([]*Conn(nil), n.conns...) {
		c.fault(s)
		c.close(s)
	}
	n.conns = nil
}

func (s *Sim) dropListener(l *Listener) {
	for i, x := range s.net.lis {
		if x == l {
			s.net.lis = append(s.net.lis[:i], s.net.lis[i+1:]...)
			return
		}
	}
}

// ---- Listener ----

func splitAddr(addr string) (string, int, error) {
	h, p, err := net.SplitHostPort(addr)
	if err != nil {
		return "", 0, err
	}
	if p == "http" {
		p = "80"
	}
	n, err := strconv.Atoi(p)
	if err != nil {
		return "", 0, &net.AddrError{Err: "unknown port", Addr: addr}
	}
	return h, n, nil
}

func Net_Listen(network, addr string) (net.Listener, error) {
	l, err := listen(network, addr)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func listen(network, addr string) (*Listener, error) {
	s := gs
	if s.cur.killed {
		return nil, net.ErrClosed
	}
	Yield()
	h, p, err := splitAddr(addr)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	n := s.cur.Node
	if p == 0 {
		s.net.nextPort++
		p = 40000 + s.net.nextPort
	}
	for _, l := range s.net.lis {
		if l.port == p && l.Node.Host == n.Host {
			return nil, &net.OpError{Op: "listen", Net: network, Err: sysErr("bind", syscall.EADDRINUSE)}
		}
	}
	_ = h
	l := &Listener{Node: n, host: n.Host.Name, port: p, addr: mkAddr(n.Host, p)}
	s.net.lis = append(s.net.lis, l)
	n.lis = append(n.lis, l)
	return l, nil
}

// Net_ListenTCP listens; only the port of the address is used.
func Net_ListenTCP(network string, a *net.TCPAddr) (*Listener, error) {
	p := 0
	if a != nil {
		p = a.Port
	}
	return listen(network, fmt.Sprintf(":%d", p))
}

func (l *Listener) Accept() (net.Conn, error) {
	c, err := l.accept()
	if err != nil {
		return nil, err
	}
	return c, nil
}

// AcceptTCP is Accept with the concrete type.
func (l *Listener) AcceptTCP() (*Conn, error) { return l.accept() }

func (l *Listener) accept() (*Conn, error) {
	s := gs
	if s == nil {
		return nil, net.ErrClosed
	}
	if s.cur.killed {
		s.killedOp(s.cur)
		return nil, net.ErrClosed
	}
	Yield()
	for {
		if s.cur.killed {
			return nil, net.ErrClosed
		}
		if l.closed {
			l.Errs++
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		if s.net.AcceptErr != nil {
			if e := s.net.AcceptErr(l); e != nil {
				l.Errs++
				s.Fault(FAcceptErr)
				return nil, e
			}
		}
		if l.dl > 0 && s.now >= l.dl {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.ErrDeadlineExceeded}
		}
		if len(l.backlog) > 0 {
			if s.Quiet == 0 && s.net.cfg.AcceptErr > 0 && Chance(KAccept, s.net.cfg.AcceptErr) {
				l.Errs++
				s.Fault(FAcceptErr)
				return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: sysErr("accept4", syscall.EMFILE)}
			}
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			c.Node = l.Node
			l.Node.conns = append(l.Node.conns, c)
			l.Accepts++
			if l.tls {
				c.tlsState = 2
			}
			raceAcq(unsafe.Pointer(&c.in.racer))
			return c, nil
		}
		var tm *timer
		if l.dl > 0 {
			tm = s.addTimer(l.dl, tmWake, s.cur)
		}
		l.q = append(l.q, s.ref(s.cur))
		s.park(s.cur, "accept")
		if tm != nil {
			s.delTimer(tm)
		}
	}
}

// WakeAccept makes a blocked Accept look again (for scripted accept errors).
func (l *Listener) WakeAccept() { wakeAll(gs, &l.q) }

func (l *Listener) Close() error {
	s := gs
	if s == nil || s.cur.killed {
		return nil
	}
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	s.dropListener(l)
	for _, c := range l.backlog {
		c.fault(s)
		c.resetBoth(s)
	}
	l.backlog = nil
	wakeAll(s, &l.q)
	return nil
}

func (l *Listener) Addr() net.Addr                { return l.addr }
func (l *Listener) SetDeadline(t time.Time) error { l.dl = dlNs(t); return nil }

// Port returns the port listened on.
func (l *Listener) Port() int { return l.port }

// ---- Dial ----

func Net_Dial(network, addr string) (net.Conn, error) {
	c, err := dial(network, addr, 127e9)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func Net_DialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	if d <= 0 {
		d = 127e9
	}
	c, err := dial(network, addr, int64(d))
	if err != nil {
		return nil, err
	}
	return c, nil
}

// Net_Dialer replaces net.Dialer.
type Net_Dialer struct {
	Timeout   time.Duration
	KeepAlive time.Duration
	Deadline  time.Time
	DualStack bool
	LocalAddr net.Addr
}

func (d *Net_Dialer) Dial(network, addr string) (net.Conn, error) {
	return Net_DialTimeout(network, addr, d.Timeout)
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func dial(network, addr string, timeout int64) (*Conn, error) {
	s := gs
	if s == nil || s.cur.killed {
		return nil, net.ErrClosed
	}
	Yield()
	h, p, err := splitAddr(addr)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	me := s.cur.Node
	if h == "" || h == "localhost" || strings.HasPrefix(h, "127.") || h == "::1" {
		h = me.Host.Name
	}
	if strings.HasPrefix(h, "10.1.") {
		for _, x := range s.nodes {
			if mkAddr(x.Host, 0).IP.String() == h {
				h = x.Host.Name
			}
		}
	}
	fail := func(e error) error {
		return &net.OpError{Op: "dial", Net: network, Addr: strAddr(addr), Err: e}
	}
	end := s.now + timeout
	rtt := int64(100_000)
	if s.Quiet == 0 && s.net.cfg.DelayMax > 0 {
		rtt += Range(KNetDelay, s.net.cfg.DelayMax, true)
	}
	if rtt > timeout {
		Sleep(timeout)
		return nil, fail(timeoutErr{})
	}
	Sleep(rtt)
	for s.parted(me.Host.Name, h) {
		if s.now >= end {
			return nil, fail(timeoutErr{})
		}
		d := int64(200e6) // SYN retransmission
		if s.now+d > end {
			d = end - s.now
		}
		Sleep(d)
		if s.cur.killed {
			return nil, net.ErrClosed
		}
	}
	if s.Quiet == 0 && s.net.cfg.Refuse > 0 && Chance(KDial, s.net.cfg.Refuse) {
		s.Fault(FDialRefused)
		return nil, fail(sysErr("connect", syscall.ECONNREFUSED))
	}
	var l *Listener
	for _, x := range s.net.lis {
		if x.port == p && x.host == h {
			l = x
		}
	}
	if l == nil || l.closed {
		return nil, fail(sysErr("connect", syscall.ECONNREFUSED))
	}
	s.net.connSeq++
	s.net.nextPort++
	ca := mkAddr(me.Host, 50000+s.net.nextPort%15000)
	up := &pipe{from: me.Host.Name, to: l.host}
	down := &pipe{from: l.host, to: me.Host.Name}
	c := &Conn{ID: s.net.connSeq, Node: me, in: down, out: up, la: ca, ra: l.addr}
	r := &Conn{ID: s.net.connSeq, Node: l.Node, in: up, out: down, la: l.addr, ra: ca}
	c.peer, r.peer = r, c
	c.Dialed = s.steps
	me.conns = append(me.conns, c)
	me.Dials = append(me.Dials, c)
	raceRel(unsafe.Pointer(&up.racer))
	l.backlog = append(l.backlog, r)
	wakeOne(s, &l.q)
	s.Tracef("%s connects to %s (connection %d)", me.Name, addr, c.ID)
	return c, nil
}

// DialSim is Net_Dial returning the concrete type, for harness clients.
func DialSim(addr string) (*Conn, error) { return dial("tcp", addr, 127e9) }

// ---- TLS stand-in: a preface instead of cryptography ----

// It begins like a real hello does, so that a peer that does not speak TLS refuses it as it would refuse a real one.
const tlsHello = "\x16\x03\x01\x00\x20simulated hello......"

var errTLS = errors.New("tls: first record does not look like a TLS handshake")

func (c *Conn) serverHandshake() error {
	s := gs
	c.tlsState = 3
	b := make([]byte, len(tlsHello))
	for n := 0; n < len(b); {
		k, err := c.rawRead(s, b[n:])
		if err != nil {
			return err
		}
		n += k
		if string(b[:n]) != tlsHello[:n] {
			return errTLS
		}
	}
	_, err := c.rawWrite(s, b)
	return err
}

// Tls_Dial replaces tls.Dial.
func Tls_Dial(network, addr string, cfg *tls.Config) (*Conn, error) {
	c, err := dial(network, addr, 127e9)
	if err != nil {
		return nil, err
	}
	if err := c.clientHandshake(); err != nil {
		c.Close()
		return nil, err
	}
	return c, nil
}

func (c *Conn) clientHandshake() error {
	s := gs
	if _, err := c.rawWrite(s, []byte(tlsHello)); err != nil {
		return err
	}
	b := make([]byte, len(tlsHello))
	for n := 0; n < len(b); {
		k, err := c.rawRead(s, b[n:])
		if err != nil {
			return err
		}
		n += k
	}
	if string(b) != tlsHello {
		return errTLS
	}
	return nil
}

// Tls_Conn replaces tls.Conn.
type Tls_Conn = Conn

// Tls_Listen replaces tls.Listen.
func Tls_Listen(network, addr string, cfg *tls.Config) (net.Listener, error) {
	l, err := listen(network, addr)
	if err != nil {
		return nil, err
	}
	l.tls = true
	return l, nil
}

// Tls_NewListener replaces tls.NewListener.
func Tls_NewListener(l net.Listener, cfg *tls.Config) net.Listener {
	if x, ok := l.(*Listener); ok {
		x.tls = true
	}
	return l
}

type strAddr string

func (a strAddr) Network() string { return "tcp" }
func (a strAddr) String() string  { return string(a) }

// Tls_X509KeyPair accepts any non-empty pair.
func Tls_X509KeyPair(cert, key []byte) (tls.Certificate, error) {
	if len(cert) == 0 || len(key) == 0 {
		return tls.Certificate{}, errors.New("tls: failed to find any PEM data in certificate input")
	}
	return tls.Certificate{}, nil
}

// Tls_LoadX509KeyPair succeeds when both files exist.
func Tls_LoadX509KeyPair(cert, key string) (tls.Certificate, error) {
	if _, err := Os_ReadFile(cert); err != nil {
		return tls.Certificate{}, err
	}
	if _, err := Os_ReadFile(key); err != nil {
		return tls.Certificate{}, err
	}
	return tls.Certificate{}, nil
}
