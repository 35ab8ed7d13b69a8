//go:build web

package scen

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/jessevdk/go-flags"
	"sourcegraph.com/sourcegraph/appdash"
	appdashcmd "sourcegraph.com/sourcegraph/appdash/cmd/appdash"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"sourcegraph.com/sourcegraph/appdash/traceapp"

	"vsim/eng"
	"vsim/rt"
)

// The send scenario runs the send command of the appdash binary, from its command line on, against a collector server
// that may be missing, refuse, crash, be slow, or be out of reach. The demo scenario runs the demo command and lets
// visitors look at its pages and at the traces these link to.

// ---- send ----

// cfg: server (0 up, 1 never there, 2 killed at some time, 3 killed and started again), crash (when), proto (0 tcp, 1 tls, 2 tls
// to a tcp server, 3 unknown), serve: the server is the serve command
func genSend(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	g := p.Cfg
	g["proto"] = pick(r, int64(0), 0, 0, 1, 1, 2, 3)
	if r.Intn(20) > 0 && g["proto"] > 1 {
		g["proto"] = 0
	}
	switch r.Intn(8) {
	case 0:
		g["server"] = 1
	case 1:
		g["server"] = int64(2 + r.Intn(2))
		g["crash"] = logUniform(r, 20*ms)
	}
	g["debug"] = int64(r.Intn(4))
	net := &p.Net
	net.DelayMax = pick(r, 0, 10*us, ms)
	net.Frag = pick(r, 0, 0, 0.1)
	switch r.Intn(6) {
	case 0:
		net.Refuse = pick(r, 0.3, 1)
	case 1:
		net.Reset = pick(r, 0.0003, 0.003, 0.03)
		net.Refuse = pick(r, 0, 0.3)
	case 2:
		net.Stall, net.StallMax = 0.01, 100*ms
	case 3:
		net.AcceptErr = 0.3
	}
	if r.Intn(3) == 0 {
		g["slow"] = pick(r, int64(20), 200)
	}
	p.Ops = []eng.Op{{K: "x"}}
	p.MaxSteps = 20_000_000
	return p
}

func runSend(c *eng.C) {
	p := c.P
	log.SetFlags(0)
	log.SetOutput(nullWriter{})
	host := rt.NewHost("srv")
	mem := appdash.NewMemoryStore()
	slow := float64(p.G("slow")) / 1000
	var srv *rt.Node
	starts, kills := 0, 0
	up := func() {
		starts++
		srv = rt.NewNode(fmt.Sprintf("server%d", starts), host)
		ready := rt.MakeChan[struct{}](0)
		rt.GoOn(srv, "serve", func() {
			l, err := rt.Net_Listen("tcp", ":7701")
			if err != nil {
				panic(err)
			}
			if p.G("proto") == 1 {
				l = rt.Tls_NewListener(l, nil)
			}
			cs := appdash.NewServer(l, sendSink{mem, slow})
			cs.Log = log.New(nullWriter{}, "", 0)
			cs.Debug, cs.Trace = p.G("debug")&1 != 0, p.G("debug")&2 != 0
			rt.Close(ready)
			cs.Start()
		})
		rt.Recv2(ready)
	}
	if p.G("server") != 1 {
		up()
	}
	node := rt.NewNode("sender", rt.NewHost("client"))
	var err error
	done := false
	t := rt.GoOn(node, "main", func() {
		appdashcmd.Sim_reset()
		appdashcmd.CLI.Options &^= flags.PrintErrors
		a := []string{"send", "--collector", "srv:7701"}
		switch p.G("proto") {
		case 0:
			if p.G("debug")&2 != 0 {
				a = append(a, "--proto=tcp")
			}
		case 1, 2:
			a = append(a, "-p", "tls", "-s", "srv")
		case 3:
			a = append(a, "-p", "udp")
		}
		if p.G("debug")&1 != 0 {
			a = append(a, "-d")
		}
		_, e := appdashcmd.CLI.ParseArgs(a)
		if rt.Killed() {
			return
		}
		err, done = e, true
	})
	if p.G("server") > 1 {
		rt.GoNamed("killer", func() {
			rt.Sleep(1 + p.G("crash"))
			if done {
				return
			}
			kills++
			rt.CountFault(rt.FCrash)
			rt.Crash(srv, "killed")
			if p.G("server") == 3 {
				rt.CountFault(rt.FRestart)
				mem = appdash.NewMemoryStore()
				up()
			}
		})
	}
	rt.Join(t, 0)
	rt.Note("the send command returned %v", err)
	if c.Failed() {
		return
	}
	if !done {
		if node.Alive || !strings.Contains(node.Exit, "panic") {
			c.Fail("C27", "send-exit", "the send command ended the process: %s", node.Exit)
		}
		return
	}
	broken := kills > 0
	for _, x := range node.Dials {
		broken = broken || x.Faulted > 0
	}
	bad := p.G("proto") > 1 || p.G("server") == 1 || p.Net.Refuse > 0 || p.Net.Stall > 0
	rt.Calm(true)
	rt.Sleep(5 * sec)
	if err != nil {
		c.Add("failed sends", 1)
		if !bad && !broken {
			c.Fail("C27", "spurious-error", "the send command failed although nothing went wrong: %v", err)
			return
		}
	} else if p.G("proto") == 3 {
		c.Fail("C27", "error-hidden", "the send command succeeded with the unknown protocol udp")
		return
	} else if p.G("server") == 1 || p.G("proto") == 2 || p.Net.Refuse == 1 {
		c.Fail("C27", "error-hidden", "the send command succeeded although there is no server to send to")
		return
	}
	if srv == nil || !srv.Alive {
		return
	}
	var ts []*appdash.Trace
	var qerr error
	on(srv, "query", func() { ts, qerr = mem.Traces(appdash.TracesOpts{}) })
	if qerr != nil {
		c.Fail("C27", "query", "%v", qerr)
		return
	}
	whole := err == nil && !broken
	if whole && len(ts) != 60 {
		c.Fail("C27", "lost", "the send command succeeded, no connection failed, and %d of 60 traces were stored", len(ts))
		return
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID.Trace < ts[j].ID.Trace })
	for _, x := range ts {
		if why := sampleTrace(x, whole); why != "" {
			c.Fail("C27", "sample", "a trace of the sample data %s: %s", why, short(x.TreeString(), 1000))
			return
		}
	}
	if whole {
		c.Add("whole sends", 1)
	} else if err == nil {
		c.Add("broken sends", 1)
	}
}

type sendSink struct {
	m    *appdash.MemoryStore
	slow float64
}

func (s sendSink) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	if s.slow > 0 && rt.Chance(rt.KHarness, s.slow) {
		rt.CountFault(rt.FCollectorSlow)
		rt.Sleep(1 + rt.Range(rt.KHarness, 5*ms, true))
	}
	return s.m.Collect(id, as...)
}

// sampleTrace judges a trace of the sample data: a named root and under it a chain of named operations, one after the
// other, which together take as long as the root. Traces that may have lost spans are judged only for what is there.
func sampleTrace(t *appdash.Trace, whole bool) string {
	n := 0
	var total, sum time.Duration
	var next time.Time
	for x := t; x != nil; {
		var evs []appdash.Event
		if err := appdash.UnmarshalEvents(x.Annotations, &evs); err != nil {
			return fmt.Sprintf("has an unreadable span %v: %v", x.ID, err)
		}
		var q *sqltrace.SQLEvent
		name, nsql := "", 0
		for _, e := range evs {
			switch e := e.(type) {
			case sqltrace.SQLEvent:
				q = &e
				nsql++
			case *sqltrace.SQLEvent:
				q = e
				nsql++
			case appdash.SpanNameEvent:
				name += e.Name
			}
		}
		if !whole && nsql == 0 {
			// lost; the recorder's report of the loss may have arrived
			q = nil
		} else if nsql != 1 && whole || name == "" {
			return fmt.Sprintf("has a span %v with the name %q and %d queries", x.ID, name, nsql)
		}
		if q == nil {
			if len(x.Sub) == 0 {
				break
			}
			x = x.Sub[0]
			continue
		}
		d := q.ClientRecv.Sub(q.ClientSend)
		if d < 0 || q.Tag == "" || q.SQL == "" {
			return fmt.Sprintf("has a span %v with the query %+v", x.ID, *q)
		}
		switch {
		case n == 0:
			total, next = d, q.ClientSend
		default:
			sum += d
			if whole && !q.ClientSend.Equal(next) {
				return fmt.Sprintf("has an operation %v that does not begin when the one before it ends", x.ID)
			}
			next = q.ClientRecv
		}
		n++
		if whole && len(x.Sub) > 1 {
			return "is no chain"
		}
		if len(x.Sub) == 0 {
			break
		}
		x = x.Sub[0]
	}
	if !whole {
		return ""
	}
	if t.ID.Parent != 0 || t.ID.Span == 0 {
		return "has no root"
	}
	if n < 4 || n > 8 || sum != total {
		return fmt.Sprintf("took %v, its %d operations %v", total, n-1, sum)
	}
	return ""
}

// ---- demo ----

var demoPaths = []string{"/", "/api-calls", "/api-calls", "/api-calls", "/endpoint-A", "/endpoint-B", "/endpoint-C", "/other"}

// ops: v visit page A by visitor C; B: with a span of its own (1 span, 2 parent only); D: delay before
// cfg: net: the network fails
func genDemo(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	visitors := 1 + r.Intn(4)
	for i, n := 0, 1+r.Intn(8); i < n; i++ {
		o := eng.Op{K: "v", C: r.Intn(visitors), A: int64(r.Intn(len(demoPaths)))}
		if r.Intn(3) == 0 {
			o.B = int64(1 + r.Intn(2))
		}
		if r.Intn(2) == 0 {
			o.D = logUniform(r, 500*ms)
		}
		p.Ops = append(p.Ops, o)
	}
	p.Cfg["debug"] = int64(r.Intn(4))
	net := &p.Net
	net.DelayMax = pick(r, 0, 10*us, ms)
	net.Frag = pick(r, 0, 0, 0.1)
	if r.Intn(5) == 0 {
		p.Cfg["net"] = 1
		net.Reset = pick(r, 0.002, 0.02)
		net.Refuse = pick(r, 0, 0.1)
	}
	p.MaxSteps = 20_000_000
	return p
}

type demoVisit struct {
	o      *eng.Op
	path   string
	k      *Call
	status int
	body   string
	trace  string
	given  *appdash.SpanID
}

var reDemoLink = regexp.MustCompile(`href="http://localhost:8700(/traces/([0-9a-f]{16}))"`)

func runDemo(c *eng.C) {
	p := c.P
	log.SetFlags(0)
	log.SetOutput(nullWriter{})
	faulty := p.G("net") == 1
	host := rt.NewHost("demo")
	node := rt.NewNode("demo", host)
	ended := ""
	main := rt.GoOn(node, "main", func() {
		appdashcmd.Sim_reset()
		traceapp.Sim_reset()
		appdashcmd.CLI.Options &^= flags.PrintErrors
		a := []string{"demo"}
		if p.G("debug")&1 != 0 {
			a = append(a, "--debug")
		}
		if p.G("debug")&2 != 0 {
			a = append(a, "--trace")
		}
		_, err := appdashcmd.CLI.ParseArgs(a)
		if rt.Killed() {
			return
		}
		ended = fmt.Sprint(err)
	})
	up := false
	quietFor(func() {
		for i := 0; i < 2000 && !up; i++ {
			a, e1 := rt.DialSim("demo:8699")
			b, e2 := rt.DialSim("demo:8700")
			if a != nil {
				a.Close()
			}
			if b != nil {
				b.Close()
			}
			up = e1 == nil && e2 == nil
			if !up {
				rt.Sleep(ms)
			}
		}
	})
	if !up {
		c.Fail("C27", "demo-down", "the demo is not up after two seconds: %s %s", ended, node.Exit)
		return
	}
	get := func(u string, hdr http.Header) (int, string, *Call) {
		r, err := http.NewRequest("GET", u, nil)
		if err != nil {
			panic(err)
		}
		for k, v := range hdr {
			r.Header[k] = v
		}
		k := &Call{}
		status, body := 0, ""
		DoIn(k, func() error {
			resp, err := (&rt.HTTPTransport{}).RoundTrip(r)
			if err != nil {
				return err
			}
			b, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			status, body = resp.StatusCode, string(b)
			return err
		})
		return status, body, k
	}
	var vs []*demoVisit
	Clients(c, nil, func(i int, o *eng.Op) {
		if c.Failed() {
			return
		}
		v := &demoVisit{o: o, path: demoPaths[o.A]}
		h := http.Header{}
		switch o.B {
		case 1:
			v.given = &appdash.SpanID{Trace: appdash.ID(0xa0000 + i), Span: appdash.ID(0xb0000 + i), Parent: 5}
			h.Set("Span-ID", fmt.Sprintf("%016x/%016x/%016x", 0xa0000+i, 0xb0000+i, 5))
		case 2:
			v.given = &appdash.SpanID{Trace: appdash.ID(0xa0000 + i)}
			h.Set("Parent-Span-ID", fmt.Sprintf("%016x/%016x", 0xa0000+i, 0xb0000+i))
		}
		v.status, v.body, v.k = get("http://demo:8699"+v.path, h)
		if rt.Killed() {
			return
		}
		vs = append(vs, v)
		if v.k.Err != nil || v.status != 200 {
			if !faulty {
				c.Fail("C27", "demo-page", "%s is answered with %d %v", v.path, v.status, v.k.Err)
			}
			return
		}
		if m := reDemoLink.FindStringSubmatch(v.body); m != nil {
			v.trace = m[2]
			if !strings.Contains(v.body, "(trace ID is "+v.trace+")") {
				c.Fail("C27", "demo-page", "%s links to the trace %s and names another one: %s", v.path, v.trace, short(v.body, 500))
			}
		} else if v.path == "/" || v.path == "/api-calls" {
			c.Fail("C27", "demo-page", "%s has no link to its trace: %s", v.path, short(v.body, 500))
		}
		if v.given != nil && v.trace != "" && v.trace != fmt.Sprintf("%016x", uint64(v.given.Trace)) {
			c.Fail("C27", "demo-trace", "%s, requested under the trace %v, links to %s", v.path, v.given.Trace, v.trace)
		}
	})
	if c.Failed() || rt.Killed() {
		return
	}
	rt.Calm(true)
	rt.Sleep(5 * sec)
	if main.Ended() || !node.Alive {
		c.Fail("C27", "demo-down", "the demo stopped: %s %s", ended, node.Exit)
		return
	}
	linked := map[string]bool{}
	for _, v := range vs {
		if v.trace == "" {
			continue
		}
		if linked[v.trace] {
			c.Fail("C27", "demo-trace", "two visits link to the trace %s", v.trace)
			return
		}
		linked[v.trace] = true
		status, body, k := get("http://demo:8700/traces/"+v.trace, nil)
		if k.Err != nil || status != 200 {
			if !faulty || k.Err != nil {
				c.Fail("C27", "demo-link", "the trace page %s that %s links to is answered with %d %v", v.trace, v.path, status, k.Err)
				return
			}
			continue
		}
		m := reData.FindStringSubmatch(body)
		var items []vItem
		if m == nil || json.Unmarshal([]byte(m[1]), &items) != nil {
			c.Fail("C27", "demo-link", "the trace page of %s has no timeline: %s", v.path, short(body, 300))
			return
		}
		want := map[string]int64{v.path: 0}
		if v.path == "/api-calls" {
			want["/endpoint-A"], want["/endpoint-B"], want["/endpoint-C"] = 250, 75, 300
			want[v.path] = 625
		}
		// one span for the server's side of each request, one for the client's
		got, sent := map[string]int{}, map[string]int{}
		for _, it := range items {
			var longest int64
			for _, x := range it.Times {
				longest = max(longest, x.End-x.Start)
			}
			route, uri := it.Data["Server.Route"], it.Data["Client.Request.URI"]
			if route == "" {
				route = uri
				sent[uri]++
			} else {
				got[route]++
			}
			least, ok := want[route]
			if !ok || uri == v.path {
				c.Fail("C27", "demo-trace", "the trace that %s links to has a request of %q: %s", v.path, route, short(m[1], 1500))
				return
			}
			if longest < least-1 && !faulty {
				c.Fail("C27", "demo-time", "the span of %s in the trace of %s took %d ms", route, v.path, longest)
				return
			}
		}
		for _, route := range []string{v.path, "/endpoint-A", "/endpoint-B", "/endpoint-C"} {
			if _, ok := want[route]; !ok {
				continue
			}
			n := 1
			if route == v.path {
				n = 0
			}
			if !faulty && (got[route] != 1 || sent[route] != n) || got[route] > 1 || sent[route] > n {
				c.Fail("C27", "demo-trace", "the trace that %s links to has %d served and %d sent requests of %s: %s", v.path, got[route], sent[route], route, short(m[1], 1500))
				return
			}
		}
		c.Add("traces of visits", 1)
	}
}

func init() {
	ss := &eng.Scenario{Name: "send", Gen: genSend, Run: runSend}
	sd := &eng.Scenario{Name: "demo", Gen: genDemo, Run: runDemo}
	eng.Register(&eng.PropCfg{ID: "C27", Scen: []eng.Weighted{{S: ss, W: 1}, {S: sd, W: 2}}, Quick: 20000, Deep: 3000000, QuickSec: 60, DeepSec: 600, Level: "exploration",
		Real: []string{"cmd/appdash send and demo commands (command line, sample data, demo application)", "collector.go", "recorder.go, event.go, reflect.go", "httptrace", "traceapp", "store.go MemoryStore", "go-flags, gorilla/mux, html/template"},
		Stub: []string{"the connection handling of net/http (a small server and client), one default mux per process", "TCP and TLS (simulated connections; no cryptography)", "math/rand, clock, mutex and goroutine scheduler (simulated)"}})
}
