//go:build web

package scen

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"log"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/jessevdk/go-flags"
	"sourcegraph.com/sourcegraph/appdash"
	appdashcmd "sourcegraph.com/sourcegraph/appdash/cmd/appdash"
	"sourcegraph.com/sourcegraph/appdash/traceapp"

	"vsim/eng"
	"vsim/rt"
)

func init() { eng.Reset = append(eng.Reset, appdashcmd.Sim_reset) }

// The serve scenario (C21) runs the serve command of the appdash binary, from its command line on, over several
// incarnations on one host: it is killed at disk operations or at some time, the power is cut, the disk is slow, fails or
// is full, and it is started again, while applications go on sending spans to its collector port and browsers look at
// its web UI, with and without the credentials. What the server holds is judged by what the web UI shows.
//
// ops: c Collect len(X)+1 annotations for span B of trace A by client C; g GET the page of trace A; l GET the list; u upload trace
// A with B spans; h a request without (the right) credentials, of kind E
// cfg: interval, delete (age limit), gens, auth, tls, file, kill<g> (time after the start), crash<g> (disk event), power<g>, pause<g>

type svUnit struct {
	id   appdash.SpanID
	toks []string
	k    Call
	may  bool // false: must never be stored
}

type svSight struct {
	seq   uint64
	t     int64
	slept int64
}

type svWorld struct {
	c       *eng.C
	p       *eng.Plan
	host    *rt.Host
	node    *rt.Node
	main    *rt.Task
	gen     int
	planGen int
	deaths  int
	ready   bool
	injured bool
	killed  bool
	events  int
	crashAt int
	units   []*svUnit
	of      map[appdash.ID][]*svUnit
	must    map[*svUnit]*svSight
	apps    []*rt.Node
	rcs     []*appdash.RemoteCollector
	net     bool
	logs    []string
	file    string
	ended   string
	looks   int64
	kept    int64
}

const svUser, svPass = "admin", "s3cret:pass"

func genServe(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	g := p.Cfg
	g["interval"] = pick(r, 5*ms, 20*ms, 100*ms, 500*ms, 2*sec)
	gens := 1 + r.Intn(4)
	g["gens"] = int64(gens)
	g["file"] = int64(pick(r, 0, 0, 0, 1, 2, 3))
	if r.Intn(14) == 0 {
		g["file"] = 4 // none
	}
	if r.Intn(20) == 0 {
		g["interval"] = 0
	}
	switch r.Intn(8) {
	case 0:
		g["delete"] = 0
	case 1, 2, 3:
		g["delete"] = max(g["interval"]*pick(r, int64(3), 10), 200*ms)
	case 4:
		g["delete"] = max(g["interval"]*30, 200*ms)
	default:
		g["delete"] = 3600 * sec
	}
	if r.Intn(60) == 0 {
		g["defaults"] = 1
		g["interval"], g["delete"], g["file"] = 2*sec, 1800*sec, 1
	}
	if r.Intn(2) == 0 {
		g["auth"] = 1
	}
	if r.Intn(4) == 0 {
		g["tls"] = 1
	}
	if r.Intn(3) == 0 {
		g["debug"] = int64(1 + r.Intn(3))
	}
	if r.Intn(40) == 0 {
		g["sample"] = 1
	}
	if r.Intn(2) == 0 {
		g["mount"] = 1
	}
	if r.Intn(2) == 0 {
		g["slow"] = pick(r, int64(50), 200)
	}
	switch r.Intn(5) {
	case 0:
		g["eio"] = pick(r, int64(5), 20, 100)
	case 1:
		g["full"] = pick(r, int64(5), 20, 100)
	}
	if r.Intn(4) > 0 {
		g["nojump"] = 1
	}
	net := &p.Net
	net.DelayMax = pick(r, 0, 10*us, ms)
	net.Frag = pick(r, 0, 0, 0.1)
	if r.Intn(6) == 0 {
		net.Reset = pick(r, 0.01, 0.05)
		net.Refuse = pick(r, 0, 0.1)
		net.AcceptErr = pick(r, 0, 0.1)
	}
	iv := max(g["interval"], 5*ms)
	for k := 0; k < gens; k++ {
		if r.Intn(2) == 0 {
			g[fmt.Sprintf("crash%d", k)] = int64(1 + r.Intn(60))
		}
		g[fmt.Sprintf("kill%d", k)] = logUniform(r, 6*iv)
		if r.Intn(3) == 0 {
			g[fmt.Sprintf("kill%d", k)] += iv + logUniform(r, 20*ms)
		}
		if r.Intn(3) == 0 {
			g[fmt.Sprintf("power%d", k)] = 1
		}
		if k > 0 && r.Intn(6) == 0 {
			g[fmt.Sprintf("loaderr%d", k)] = 1 // the disk fails while the server starts
		}
		if k > 0 && r.Intn(6) == 0 {
			g[fmt.Sprintf("loadslow%d", k)] = min(3*iv, 500*ms) // the disk is slow while the server starts
			if k < gens-1 && r.Intn(3) > 0 {
				g[fmt.Sprintf("early%d", k)] = logUniform(r, 6*iv) // and it is killed this long after it was started
			}
		}
		if r.Intn(2) == 0 {
			g[fmt.Sprintf("pause%d", k)] = logUniform(r, 3*iv)
		}
	}
	clients := 1 + r.Intn(4)
	n := 4 + r.Intn(24)
	if r.Intn(30) == 0 {
		n += 100
	}
	spread := pick(r, iv/4, iv, 3*iv) * int64(gens)
	for i := 0; i < n; i++ {
		cl := r.Intn(clients)
		o := eng.Op{C: cl, A: int64(0x100*(cl+1) + r.Intn(3)), D: logUniform(r, max(spread*int64(clients)/int64(n)*2, 2))}
		if r.Intn(4) == 0 {
			o.D = 0
		}
		switch k := r.Intn(12); {
		case k < 5:
			o.K = "c"
			o.B = int64(1 + r.Intn(6))
			o.X = make([]byte, r.Intn(3))
			if r.Intn(30) == 0 {
				o.X = make([]byte, 200)
			}
		case k < 9:
			o.K = "g"
			o.A = int64(0x100*(1+r.Intn(clients)) + r.Intn(3))
		case k == 9:
			o.K = "l"
		case k == 10:
			o.K, o.A, o.B = "u", int64(0x5000+i), int64(1+r.Intn(4))
		default:
			o.K, o.E = "h", int64(r.Intn(40))
		}
		p.Ops = append(p.Ops, o)
	}
	p.MaxTime = 20000 * sec
	return p
}

func (w *svWorld) args() []string {
	p := w.p
	a := []string{"serve"}
	if p.G("defaults") == 0 {
		a = append(a, "--collector", ":7701", "--http=:7700", "--persist-interval", time.Duration(p.G("interval")).String(), "--delete-after="+time.Duration(p.G("delete")).String(), "-f", w.file)
	}
	if p.G("auth") == 1 {
		a = append(a, "--basic-auth", svUser+":"+svPass)
	}
	if p.G("tls") == 1 {
		a = append(a, "--tls-cert", "/data/cert.pem", "--tls-key", "/data/key.pem")
	}
	if d := p.G("debug"); d > 0 {
		a = append(a, "--debug")
		if d > 1 {
			a = append(a, "--trace")
		}
		if d > 2 {
			a = append(a, "--url", "http://appdash.example.com/")
		}
	}
	if p.G("sample") == 1 {
		a = append(a, "--sample-data")
	}
	return a
}

// start starts the next incarnation and waits until it serves; false: it did not come up.
func (w *svWorld) start() bool {
	c := w.c
	w.gen++
	if w.gen > 1 {
		rt.CountFault(rt.FRestart)
	}
	w.injured, w.killed, w.ready, w.ended = false, false, false, ""
	w.events = 0
	node := rt.NewNode(fmt.Sprintf("server%d", w.gen), w.host)
	w.node = node
	w.main = rt.GoOn(node, "main", func() {
		appdashcmd.Sim_reset()
		traceapp.Sim_reset()
		appdashcmd.CLI.Options &^= flags.PrintErrors
		_, err := appdashcmd.CLI.ParseArgs(w.args())
		if rt.Killed() {
			return
		}
		w.ended = fmt.Sprintf("the command returned %v", err)
		if err == nil {
			w.c.Fail("C21", "silent-end", "the serve command ended without an error")
		}
		rt.Os_Exit(1)
	})
	if d := w.p.G(fmt.Sprintf("early%d", w.planGen)); d > 0 {
		rt.GoNamed("early", func() {
			rt.Sleep(d)
			if w.node == node && node.Alive {
				w.crash()
			}
		})
	}
	slept := w.host.FS.SleptNow()
	for i := int64(0); i < 20000+(w.host.FS.SleptNow()-slept)/ms; i++ {
		if !node.Alive {
			break
		}
		if cn, err := rt.DialSim("srv:7700"); err == nil {
			cn.Close()
			w.ready = true
			return true
		}
		if rt.Join(w.main, 1*ms) {
			break
		}
	}
	if node.Alive {
		c.Fail("C21", "not-started", "incarnation %d of the server is not up after 20 s", w.gen)
	}

	return false
}

// died notes the end of an incarnation.
func (w *svWorld) died() {
	c, p := w.c, w.p
	now := rt.Now()
	w.deaths++
	if !w.killed && !w.injured {
		cls := "died"
		if !w.ready {
			cls = "refused"
		}
		c.Fail("C21", cls, "incarnation %d of the server ended by itself although nothing failed: %s %s", w.gen, w.ended, strings.Join(w.logs[max(0, len(w.logs)-3):], " | "))
		return
	}
	bound := p.G("interval") + 5*ms
	for _, u := range w.units {
		s := w.must[u]
		if s == nil {
			continue
		}
		switch {
		case s.t < 0: // restored, is in the file
		case w.file == "" || p.G("interval") == 0 || p.Strat.Jump > 0 || now-s.t <= bound+w.host.FS.SleptNow()-s.slept:
			delete(w.must, u)
		}
	}
	w.kept = int64(len(w.must))
}

func (w *svWorld) crash() {
	w.killed = true
	rt.Crash(w.node, "killed")
}

func (w *svWorld) unit(id appdash.SpanID, n int, may bool) *svUnit {
	u := &svUnit{id: id, may: may}
	for k := 0; k <= n; k++ {
		u.toks = append(u.toks, fmt.Sprintf("tok%d.%d.", len(w.units), k))
	}
	w.units = append(w.units, u)
	w.of[id.Trace] = append(w.of[id.Trace], u)
	return u
}

func (u *svUnit) anns() []appdash.Annotation {
	var as []appdash.Annotation
	for _, t := range u.toks {
		as = append(as, appdash.Annotation{Key: t, Value: []byte("v" + t)})
	}
	return as
}

func (w *svWorld) send(rc *appdash.RemoteCollector, u *svUnit) {
	DoIn(&u.k, func() error { return rc.Collect(u.id, u.anns()...) })
}

// expired tells whether the age limit allows the trace's deletion by now.
func (w *svWorld) expired(id appdash.ID, now int64) bool {
	d := w.p.G("delete")
	if d == 0 || len(w.of[id]) == 0 {
		return false
	}
	first := int64(1 << 62)
	for _, u := range w.of[id] {
		if u.k.Inv > 0 {
			first = min(first, u.k.T0)
		}
	}
	return now-first >= d
}

// saw judges what was shown of a trace.
func (w *svWorld) saw(what string, id appdash.ID, t wTrace, k *Call, deaths int) {
	c := w.c
	have := map[string]string{}
	for _, s := range t.ids() {
		for _, a := range t[s].anns {
			tok, val, _ := strings.Cut(a, "=")
			if _, ok := have[tok]; ok && !w.net && w.deaths == 0 { // (a client sends again when the connection breaks)
				c.Fail("C21", "twice", "%s shows the annotation %s twice", what, tok)
				return
			}
			have[tok] = fmt.Sprintf("%v<%v", s, t[s].parent)
			if val != "v"+tok {
				c.Fail("C21", "altered", "%s shows the annotation %q", what, a)
				return
			}
		}
	}
	// (formatting of IDs yields: other tasks run)
	same := func() bool { return deaths == w.deaths && w.node.Alive }
	expired := w.expired(id, k.T1)
	n := 0
	for _, u := range w.of[id] {
		got := 0
		for _, tok := range u.toks {
			if h, ok := have[tok]; ok {
				got++
				if h != fmt.Sprintf("%v<%v", u.id.Span, u.id.Parent) {
					c.Fail("C21", "altered", "%s shows the annotation %s in span %s, it was collected for %v", what, tok, h, u.id)
					return
				}
			}
		}
		n += got
		switch {
		case got > 0 && (!u.may || u.k.Inv == 0 || u.k.Inv > k.Ret):
			c.Fail("C21", "alien", "%s shows %v, which was not sent or was refused", what, u.toks)
			return
		case got > 0 && got < len(u.toks):
			c.Fail("C21", "partial", "%s shows %d of the %d annotations of a collection for %v", what, got, len(u.toks), u.id)
			return
		case got == 0 && same() && !expired && w.must[u] != nil && w.must[u].seq < k.Inv:
			c.Fail("C21", "lost", "%s does not show %v of span %v, which the server held (incarnation %d now)", what, u.toks, u.id, w.gen)
			return
		case got > 0 && same() && w.must[u] == nil && !expired:
			w.must[u] = &svSight{seq: k.Ret, t: k.T1, slept: w.host.FS.SleptNow()}
		}
	}
	if n != len(have) {
		c.Fail("C21", "alien", "%s shows annotations that nobody sent: %v", what, t)
	}
}

// forget drops expectations about traces that the age limit allows to be deleted.
func (w *svWorld) forget() {
	now := rt.Now()
	for _, u := range w.units {
		if w.must[u] != nil && w.expired(u.id.Trace, now) {
			delete(w.must, u)
		}
	}
}

// req makes a request to the web UI.
func (w *svWorld) req(method, pq, body string, auth bool, hdr ...string) *wResp {
	return w.reqOn(&rt.HTTPTransport{}, method, pq, body, auth, hdr...)
}

func (w *svWorld) reqOn(tr http.RoundTripper, method, pq, body string, auth bool, hdr ...string) *wResp {
	q := &wResp{}
	scheme := "http"
	if w.p.G("tls") == 1 {
		scheme = "https"
	}
	r, err := http.NewRequest(method, scheme+"://srv:7700"+pq, strings.NewReader(body))
	if err != nil {
		panic(err)
	}
	if body == "" {
		r.Body, r.ContentLength = nil, 0
	}
	if auth && w.p.G("auth") == 1 {
		r.SetBasicAuth(svUser, svPass)
	}
	for i := 0; i+1 < len(hdr); i += 2 {
		r.Header.Add(hdr[i], hdr[i+1])
	}
	var resp *http.Response
	DoIn(&q.k, func() (err error) { resp, err = tr.RoundTrip(r); return })
	if rt.Killed() {
		return q
	}
	if q.k.Err == nil {
		q.status = resp.StatusCode
		b, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		q.body, q.whole = string(b), err == nil
		q.k.Err = err
		q.k.Ret, q.k.T1 = rt.Seq(), rt.Now()
	}
	w.looks++
	return q
}

// look GETs the page of a trace and judges it.
func (w *svWorld) look(id appdash.ID, when string) (wTrace, bool) {
	c := w.c
	deaths := w.deaths
	w.forget()
	q := w.req("GET", "/traces/"+id.String(), "", true)
	if rt.Killed() || q.k.Err != nil {
		return nil, false
	}
	what := fmt.Sprintf("the page of trace %v %s", id, when)
	if deaths != w.deaths {
		what += " (crashed meanwhile)"
	}
	t := wTrace{}
	switch {
	case q.status == 200:
		m := reArea.FindStringSubmatch(q.body)
		if m == nil {
			c.Fail("C21", "page", "%s has no export: %s", what, short(q.body, 200))
			return nil, false
		}
		j := strings.TrimSpace(html.UnescapeString(m[1]))
		var err error
		if t, err = wParse(strings.TrimSuffix(strings.TrimPrefix(j, "["), "]"), id); err != nil {
			c.Fail("C21", "page", "%s: %v", what, err)
			return nil, false
		}
	case q.status == 401:
		c.Fail("C21", "locked-out", "%s is refused with the right credentials", what)
		return nil, false
	case q.status != 404 && q.status != 500 || !strings.Contains(q.body, "not found"):
		c.Fail("C21", "page", "%s: status %d %s", what, q.status, short(q.body, 200))
		return nil, false
	}
	w.saw(what, id, t, &q.k, deaths)
	return t, true
}

// list GETs the list of traces and judges it.
func (w *svWorld) list(when string) (map[appdash.ID]bool, bool) {
	c := w.c
	deaths := w.deaths
	w.forget()
	q := w.req("GET", "/traces", "", true)
	if rt.Killed() || q.k.Err != nil {
		return nil, false
	}
	if q.status != 200 {
		c.Fail("C21", "page", "the list of traces %s: status %d %s", when, q.status, short(q.body, 200))
		return nil, false
	}
	seen := map[appdash.ID]bool{}
	for _, m := range reList.FindAllStringSubmatch(q.body, -1) {
		text := html.UnescapeString(m[1])
		var h wJSON
		if err := json.Unmarshal([]byte(text), &h); err != nil {
			c.Fail("C21", "page", "the list of traces %s: %v", when, err)
			return nil, false
		}
		v, _ := strconv.ParseUint(h.ID.Trace, 16, 64)
		id := appdash.ID(v)
		if len(w.of[id]) == 0 {
			if w.p.G("sample") == 0 {
				c.Fail("C21", "alien", "the list of traces %s has the trace %v, which nobody sent", when, id)
				return nil, false
			}
			continue
		}
		if us := w.of[id]; !us[0].may {
			c.Fail("C21", "unauthorised", "the list of traces %s has the trace %v, whose upload was refused", when, id)
			return nil, false
		}
		t, err := wParse(text, id)
		if err != nil || seen[id] {
			c.Fail("C21", "page", "the list of traces %s has of trace %v: %v %v", when, id, err, seen[id])
			return nil, false
		}
		seen[id] = true
		w.saw(fmt.Sprintf("the entry of %v in the list of traces %s", id, when), id, t, &q.k, deaths)
	}
	for _, id := range w.traces() {
		if !seen[id] && !c.Failed() {
			w.saw(fmt.Sprintf("the list of traces %s, without trace %v,", when, id), id, wTrace{}, &q.k, deaths)
		}
	}
	return seen, true
}

// traces are the IDs in use.
func (w *svWorld) traces() []appdash.ID {
	var ids []appdash.ID
	for id := range w.of {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

// upload uploads a trace of n spans.
func (w *svWorld) upload(id appdash.ID, n int, auth bool, hdr ...string) {
	deaths := w.deaths
	may := auth || w.p.G("auth") == 0
	var us []*svUnit
	var l []wGenSpan
	for k := 1; k <= n; k++ {
		u := w.unit(appdash.SpanID{Trace: id, Span: appdash.ID(k), Parent: appdash.ID(k / 2)}, k%3, may)
		u.k.Inv, u.k.T0 = rt.Seq(), rt.Now()
		us = append(us, u)
		l = append(l, wGenSpan{u.id, u.anns()})
	}
	q := w.req("POST", "/traces/upload", wMarshal([]any{wTree(l)}), auth, hdr...)
	if rt.Killed() || q.k.Err != nil {
		return
	}
	if !may {
		w.refused("an upload", q)
		return
	}
	if q.status != 200 {
		w.c.Fail("C21", "upload", "an upload is answered with %d %s", q.status, short(q.body, 200))
		return
	}
	if deaths == w.deaths && w.node.Alive && !w.expired(id, q.k.T1) {
		for _, u := range us {
			w.must[u] = &svSight{seq: q.k.Ret, t: q.k.T1, slept: w.host.FS.SleptNow()}
		}
	}
}

// refused judges the answer to a request without the credentials.
func (w *svWorld) refused(what string, q *wResp) {
	if q.status != 401 && q.status != 400 && q.status != 405 || strings.Contains(q.body, "tok") || strings.Contains(q.body, "data-") || strings.Contains(q.body, "<html") {
		w.c.Fail("C21", "unauthorised", "%s without the credentials is answered with %d: %s", what, q.status, short(q.body, 200))
	}
}

// hostile makes a request without the right credentials.
func (w *svWorld) hostile(n int, o *eng.Op) {
	b64 := func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
	good := b64(svUser + ":" + svPass)
	hdrs := [][]string{
		nil,
		{"Authorization", ""},
		{"Authorization", "Basic "},
		{"Authorization", "Basic"},
		{"Authorization", "Basic " + b64(svUser+":")},
		{"Authorization", "Basic " + b64(":"+svPass)},
		{"Authorization", "Basic " + b64(":")},
		{"Authorization", "Basic " + b64(svUser+":"+svPass+"x")},
		{"Authorization", "Basic " + b64(svUser+":"+svPass[:len(svPass)-1])},
		{"Authorization", "Basic " + b64(svUser+":s3cret")},
		{"Authorization", "Basic " + b64(strings.ToUpper(svUser)+":"+svPass)},
		{"Authorization", "Basic " + b64(svUser+":"+strings.ToUpper(svPass))},
		{"Authorization", "Basic " + b64(svUser+":S3cret:pass")},
		{"Authorization", "Basic " + b64(svPass+":"+svUser)},
		{"Authorization", "Basic " + good[:len(good)-4]},
		{"Authorization", "Basic " + good[:4]},
		{"Authorization", "Basic " + good[:len(good)/2] + strings.Repeat("A", len(good)-len(good)/2)},
		{"Authorization", strings.Repeat("A", len("Basic "+good))},
		{"Authorization", strings.Repeat("\x20", 3) + "Bearer " + good},
		{"Authorization", "Digest username=\"" + svUser + "\""},
		{"Proxy-Authorization", "Basic " + good},
		{"Cookie", "authorization=Basic " + good},
		{"X-Authorization", "Basic " + good},
		{"X-Forwarded-For", "127.0.0.1", "X-Real-Ip", "127.0.0.1"},
		{"Referer", "http://" + svUser + ":" + svPass + "@srv/"},
		{"Upgrade", "websocket", "Connection", "Upgrade"},
		{"X-Http-Method-Override", "OPTIONS"},
	}
	id := appdash.ID(0x100*(1+n%4) + n%3)
	link := appdash.ID(0x7000 + n)
	paths := []string{"/", "/traces", "/traces/" + id.String(), "/traces/" + id.String() + "/profile", "/aggregate", "/dashboard", "/static/x.js", "/debug/pprof/", "/debug/pprof/goroutine?debug=2", "//traces", "/./traces", "/traces/../traces", "/traces?authorization=" + good, "/traces/upload", "/%74races", "/traces/" + id.String() + "/0000000000000001", wPermalink(link, `{"ID":{"Trace":"`+link.String()+`","Span":"1","Parent":"0"}}`), "/favicon.ico", "/nonexistent"}
	w.of[link] = []*svUnit{{id: appdash.SpanID{Trace: link, Span: 1}, may: w.p.G("auth") == 0}}
	methods := []string{"GET", "GET", "GET", "HEAD", "POST", "OPTIONS", "PUT"}
	x := rt.Mix(w.p.Seed, uint64(n), uint64(o.E))
	h := hdrs[x%uint64(len(hdrs))]
	if x>>20%4 == 0 {
		w.upload(appdash.ID(0x6000+n), 1+n%3, false, h...)
		return
	}
	m, pa := methods[x>>32%uint64(len(methods))], paths[x>>40%uint64(len(paths))]
	body := ""
	if m == "POST" || m == "PUT" {
		body = "[]"
	}
	tr := &rt.HTTPTransport{KeepAlive: true}
	if x>>52%2 == 0 {
		// someone else uses the connection first, with credentials (through a proxy, say)
		first := "/"
		if m == "GET" && x>>53%2 == 0 {
			first = pa
			w.of[link][0].may = true
		}
		w.reqOn(tr, "GET", first, "", true)
	}
	q := w.reqOn(tr, m, pa, body, false, h...)
	if rt.Killed() || q.k.Err != nil {
		return
	}
	what := fmt.Sprintf("%s %s %q", m, short(pa, 60), h)
	if w.p.G("auth") == 1 {
		w.refused(what, q)
	} else if q.status == 401 {
		w.c.Fail("C21", "locked-out", "%s is answered with 401 although no authentication is configured", what)
	}
}

func (w *svWorld) op(n int, o *eng.Op) {
	id := appdash.ID(o.A)
	switch o.K {
	case "c":
		u := w.unit(appdash.SpanID{Trace: id, Span: appdash.ID(o.B), Parent: appdash.ID(o.B / 2)}, len(o.X), true)
		w.send(w.rcs[o.C], u)
	case "g":
		w.look(id, "")
	case "l":
		w.list("")
	case "u":
		w.upload(id, int(o.B), true)
	case "h":
		w.hostile(n, o)
	}
}

func runServe(c *eng.C) {
	p := c.P
	w := &svWorld{c: c, p: p, host: rt.NewHost("srv"), of: map[appdash.ID][]*svUnit{}, must: map[*svUnit]*svSight{}}
	w.net = p.Net.Reset > 0 || p.Net.Refuse > 0 || p.Net.AcceptErr > 0
	w.file = []string{"/data/appdash.gob", "/tmp/appdash.gob", "/data/../data/a b.gob", "/data/x/store", ""}[p.G("file")]
	log.SetFlags(0)
	rt.SetLogHook(func(s string) { w.logs = append(w.logs, s) })
	fs := w.host.FS
	if p.G("file") == 3 {
		fs.Mkdir("/data/x")
	}
	fs.Put("/data/cert.pem", []byte("cert"))
	fs.Put("/data/key.pem", []byte("key"))
	if p.G("mount") == 1 {
		fs.Mounts = []string{"/tmp"}
	}
	cfg := rt.DiskFaults{EIO: float64(p.G("eio")) / 1000, Full: float64(p.G("full")) / 1000, Slow: float64(p.G("slow")) / 1000}
	fs.OnFail = func(op, name string) { w.injured = true }
	fs.OnEvent = func(op string) {
		w.events++
		if w.events == w.crashAt && w.node.Alive {
			w.crash()
		}
	}
	for i := 0; i < 4; i++ {
		w.apps = append(w.apps, rt.NewNode(fmt.Sprintf("app%d", i), rt.NewHost(fmt.Sprintf("app%d", i))))
		var rc *appdash.RemoteCollector
		if p.G("tls") == 1 {
			rc = appdash.NewTLSRemoteCollector("srv:7701", nil)
		} else {
			rc = appdash.NewRemoteCollector("srv:7701")
		}
		w.rcs = append(w.rcs, rc)
	}
	gens := int(p.G("gens"))
	var ts []*rt.Task
	left := 0
	begin := func() {
		for cl := 0; cl < 4; cl++ {
			cl := cl
			left++
			ts = append(ts, rt.GoOn(w.apps[cl], fmt.Sprintf("client%d", cl), func() {
				for i := range p.Ops {
					o := &p.Ops[i]
					if o.C != cl || c.Failed() {
						continue
					}
					Delay(o)
					w.op(i, o)
				}
				left--
			}))
		}
	}
	fails := 0
	for g := 0; ; {
		last := g == gens-1
		w.crashAt = int(p.G(fmt.Sprintf("crash%d", g)))
		fs.Cfg = cfg
		if last {
			w.crashAt = 0
		}
		if fails > 1 || last {
			fs.Cfg = rt.DiskFaults{Slow: cfg.Slow}
		}
		if p.G(fmt.Sprintf("loaderr%d", g)) == 1 && fails <= 1 {
			fs.Cfg.EIO = 0.3
		}
		if d := p.G(fmt.Sprintf("loadslow%d", g)); d > 0 {
			fs.Cfg.Slow, fs.Cfg.SlowMax = 0.5, d
		}
		w.planGen = g
		up := w.start()
		w.planGen = -1
		fs.Cfg.Slow, fs.Cfg.SlowMax = cfg.Slow, 0
		if fs.Cfg.EIO == 0.3 {
			fs.Cfg.EIO = cfg.EIO
			if last {
				fs.Cfg.EIO = 0
			}
		}
		if c.Failed() {
			return
		}
		if ts == nil {
			begin()
		}
		if up {
			w.restored()
			if c.Failed() {
				return
			}
		}
		if last && up {
			break
		}
		kill := p.G(fmt.Sprintf("kill%d", g))
		if up && w.node.Alive && !rt.Join(w.main, kill) && w.node.Alive {
			w.crash()
		}
		w.died()
		if c.Failed() {
			return
		}
		if p.G(fmt.Sprintf("power%d", g)) == 1 && !last {
			fs.PowerLoss()
			w.must = map[*svUnit]*svSight{}
		}
		if d := p.G(fmt.Sprintf("pause%d", g)); d > 0 {
			rt.Sleep(d)
		}
		if !up {
			if fails++; fails > 20 {
				return
			}
			if !last {
				g++
			}
			continue
		}
		g++
	}
	// the last incarnation; let the clients end
	for i := 0; i < 100000 && left > 0 && w.node.Alive && !c.Failed(); i++ {
		rt.Sleep(10 * ms)
	}
	if c.Failed() {
		return
	}
	fs.Cfg = rt.DiskFaults{}
	rt.Calm(true)
	rt.Sleep(300 * ms)
	w.final()
	c.Add("looks", w.looks)
	for _, pn := range rt.HandlerPanics() {
		c.Fail("C21", "handler-panic", "a panic left the handler: %s\n%s", pn.Value, short(pn.Stack, 1500))
		return
	}
}

// restored checks what a new incarnation has, by looking at every trace that has to be there.
func (w *svWorld) restored() {
	for _, id := range w.traces() {
		has := false
		for _, u := range w.of[id] {
			has = has || w.must[u] != nil
		}
		if !has {
			continue
		}
		for try := 0; try < 5 && w.node.Alive; try++ {
			if _, ok := w.look(id, fmt.Sprintf("after restart %d", w.gen)); ok || w.c.Failed() {
				break
			}
		}
		if w.c.Failed() {
			return
		}
	}
}

// final checks the last incarnation, with everything working.
func (w *svWorld) final() {
	c, p := w.c, w.p
	if !w.node.Alive {
		w.died()
		return
	}
	rc := appdash.NewRemoteCollector("srv:7701")
	if p.G("tls") == 1 {
		rc = appdash.NewTLSRemoteCollector("srv:7701", nil)
	}
	old, ok := w.list("in the end")
	if !ok || c.Failed() {
		if !c.Failed() {
			c.Fail("C21", "no-answer", "the web UI does not answer in the end")
		}
		return
	}
	// restored and other traces are open to further data
	n := 0
	for _, id := range w.traces() {
		if !old[id] || n >= 4 {
			continue
		}
		n++
		if w.expired(id, rt.Now()+2*sec) {
			continue
		}
		us := []*svUnit{w.unit(appdash.SpanID{Trace: id, Span: 1}, 1, true), w.unit(appdash.SpanID{Trace: id, Span: 0x77, Parent: 1}, 0, true)}
		for _, u := range us {
			w.send(rc, u)
			if u.k.Err != nil {
				w.send(rc, u)
			}
			if u.k.Err != nil {
				c.Fail("C21", "closed", "data for the trace %v cannot be sent: %v", id, u.k.Err)
				return
			}
		}
		shown := false
		for i := 0; i < 100 && !shown; i++ {
			if _, ok := w.look(id, "after more data"); !ok {
				if !c.Failed() {
					c.Fail("C21", "no-answer", "the web UI does not answer in the end")
				}
				return
			}
			shown = w.must[us[0]] != nil && w.must[us[1]] != nil || w.expired(id, rt.Now()+100*ms)
			rt.Sleep(10 * ms)
		}
		if c.Failed() {
			return
		}
		if !shown {
			c.Fail("C21", "closed", "data sent for the existing trace %v is not shown", id)
			return
		}
	}
	d := p.G("delete")
	iv := p.G("interval")
	if d > 0 && (iv == 0 || d/iv < 100 || p.G("defaults") == 1 && p.G("gens") > 2) {
		// the age limit applies to all of them
		rt.Sleep(ms)
		t0 := rt.Now()
		var fresh []*svUnit
		for i := 0; i < 20; i++ {
			rt.Sleep(d / 8)
			u := w.unit(appdash.SpanID{Trace: appdash.ID(0x9000 + i), Span: 1}, 0, true)
			w.send(rc, u)
			if u.k.Err != nil {
				w.send(rc, u)
			}
			if u.k.Err != nil {
				c.Fail("C21", "closed", "data cannot be sent: %v", u.k.Err)
				return
			}
			fresh = append(fresh, u)
		}
		rt.Sleep(20 * ms)
		now, ok := w.list("after the age limit")
		if !ok || c.Failed() {
			return
		}
		for _, id := range w.traces() {
			if now[id] && id < 0x9000 {
				c.Fail("C21", "age-limit", "the trace %v is still there %v after its last data; traces are to be deleted after %v", id, time.Duration(rt.Now()-t0), time.Duration(d))
				return
			}
		}
		for _, u := range fresh {
			if !now[u.id.Trace] && rt.Now()-u.k.T0 < d-10*ms {
				c.Fail("C21", "young", "the trace %v is not there %v after it was sent; traces are to be deleted after %v", u.id.Trace, time.Duration(rt.Now()-u.k.T0), time.Duration(d))
				return
			}
		}
	}
	// one more crash, with everything working
	if iv > 0 && w.file != "" {
		if _, ok := w.list("before the last crash"); !ok {
			return
		}
		rt.Sleep(iv + 6*ms)
		w.crash()
		w.died()
		if c.Failed() {
			return
		}
		w.crashAt = 0
		if !w.start() {
			w.died()
			if !c.Failed() {
				c.Fail("C21", "not-started", "the server does not start")
			}
			return
		}
		w.restored()
		w.list("after the last crash")
	}
}

func init() {
	sc := &eng.Scenario{Name: "serve", Gen: genServe, Run: runServe}
	eng.Register(&eng.PropCfg{ID: "C21", Scen: []eng.Weighted{{S: sc, W: 1}}, Quick: 20000, Deep: 3000000, QuickSec: 100, DeepSec: 600, Level: "exploration",
		Real: []string{"cmd/appdash (command line, ServeCmd.Execute, basic auth)", "traceapp", "store.go, collector.go, recent store, persistence", "go-flags, gorilla/mux, html/template, encoding/gob, gogo/protobuf"},
		Stub: []string{"the connection handling of net/http (a small server and client)", "TCP and TLS (simulated connections; no cryptography)", "disk with crash and power-loss semantics (simulated)", "clock, timers, mutex and goroutine scheduler (simulated)"}})
}
