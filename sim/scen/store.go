package scen

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"sourcegraph.com/sourcegraph/appdash"

	"vsim/eng"
	"vsim/rt"
	"vsim/user"
)

// The store scenarios drive a MemoryStore from several tasks.
//
// ops: c Collect trace A span B parent E with len(X) annotations; t Trace(A); q Traces; d Delete(A[,B]);
// m Trace(A) and rearrange what it returns; w Write and restore; x restore from damaged data.

type stEv struct {
	kind string // c t q d w
	tr   []appdash.ID
	id   appdash.SpanID
	toks []string
	read []string // canonical traces, sorted
	err  error
}

// model state: canonical traces joined by ";", each "T{S<P:a,b S<P:...}"
type mtrace struct {
	id    appdash.ID
	spans []SpanC
}

func parseState(st string) []mtrace {
	var l []mtrace
	if st == "" {
		return l
	}
	for _, p := range strings.Split(st, ";") {
		var m mtrace
		i := strings.IndexByte(p, '{')
		fmt.Sscan(p[:i], (*uint64)(&m.id))
		body := p[i+1 : len(p)-1]
		for _, s := range strings.Split(body, " ") {
			var sc SpanC
			j := strings.IndexByte(s, '<')
			k := strings.IndexByte(s, ':')
			fmt.Sscan(s[:j], (*uint64)(&sc.Span))
			fmt.Sscan(s[j+1:k], (*uint64)(&sc.Parent))
			if s[k+1:] != "" {
				sc.Toks = strings.Split(s[k+1:], ",")
			}
			m.spans = append(m.spans, sc)
		}
		l = append(l, m)
	}
	return l
}

func fmtState(l []mtrace) string {
	var p []string
	for _, m := range l {
		t := TraceC{ID: m.id, Spans: m.spans}
		p = append(p, t.String())
	}
	return strings.Join(p, ";")
}

func splitState(st string) []string {
	if st == "" {
		return nil
	}
	return strings.Split(st, ";")
}

func traceOf(st string, id appdash.ID) string {
	pre := fmt.Sprintf("%d{", uint64(id))
	for _, p := range splitState(st) {
		if strings.HasPrefix(p, pre) {
			return p
		}
	}
	return ""
}

func stStep(st string, v any) (string, bool) {
	e := v.(*stEv)
	switch e.kind {
	case "c":
		l := parseState(st)
		k := sort.Search(len(l), func(i int) bool { return l[i].id >= e.id.Trace })
		if k == len(l) || l[k].id != e.id.Trace {
			l = append(l, mtrace{})
			copy(l[k+1:], l[k:])
			l[k] = mtrace{id: e.id.Trace}
		}
		m := &l[k]
		j := sort.Search(len(m.spans), func(i int) bool { return m.spans[i].Span >= e.id.Span })
		if j == len(m.spans) || m.spans[j].Span != e.id.Span {
			m.spans = append(m.spans, SpanC{})
			copy(m.spans[j+1:], m.spans[j:])
			m.spans[j] = SpanC{Span: e.id.Span, Parent: e.id.Parent}
		}
		m.spans[j].Toks = append(m.spans[j].Toks, e.toks...)
		return fmtState(l), true
	case "d":
		var out []string
		for _, p := range splitState(st) {
			keep := true
			for _, id := range e.tr {
				keep = keep && !strings.HasPrefix(p, fmt.Sprintf("%d{", uint64(id)))
			}
			if keep {
				out = append(out, p)
			}
		}
		return strings.Join(out, ";"), true
	case "t":
		want := traceOf(st, e.tr[0])
		got := ""
		if len(e.read) > 0 {
			got = e.read[0]
		}
		return st, got == want
	case "q", "w":
		return st, strings.Join(e.read, ";") == st
	}
	panic("bad event")
}

func stateSort(l []string) []string {
	l = append([]string(nil), l...)
	num := func(s string) uint64 {
		var x uint64
		fmt.Sscan(s[:strings.IndexByte(s, '{')], &x)
		return x
	}
	sort.Slice(l, func(i, j int) bool { return num(l[i]) < num(l[j]) })
	return l
}

// content reads everything out of a store.
func content(q appdash.Queryer, strict bool) ([]string, error) {
	ts, err := q.Traces(appdash.TracesOpts{})
	if err != nil {
		return nil, err
	}
	return canonAll(ts, strict)
}

func canonAll(ts []*appdash.Trace, strict bool) ([]string, error) {
	var l []string
	seen := map[appdash.ID]bool{}
	for _, t := range ts {
		c, err := Canon(t, strict)
		if err != nil {
			return nil, err
		}
		if seen[c.ID] {
			return nil, fmt.Errorf("trace %d is listed twice", uint64(c.ID))
		}
		seen[c.ID] = true
		l = append(l, c.String())
	}
	return stateSort(l), nil
}

// genSpans makes the spans of one trace: id and parent pairs.
func genSpans(r *rt.Rand, n int, ill bool) [][2]int64 {
	var l [][2]int64
	ids := make([]int64, n)
	for i := range ids {
		ids[i] = int64(i + 1)
	}
	shuffle(r, n, func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	deep := r.Intn(3) == 0
	for i := 0; i < n; i++ {
		p := int64(0)
		if i > 0 {
			if deep {
				p = ids[i-1]
			} else {
				p = ids[r.Intn(i)]
			}
		}
		l = append(l, [2]int64{ids[i], p})
	}
	switch r.Intn(6) {
	case 0: // the root never arrives
		if n > 1 {
			l = l[1:]
		}
	case 1: // some inner span never arrives
		if n > 2 {
			k := r.Intn(n)
			l = append(l[:k], l[k+1:]...)
		}
	}
	if ill && len(l) > 0 {
		for k := 0; k < 1+r.Intn(2); k++ {
			x := &l[r.Intn(len(l))]
			switch r.Intn(4) {
			case 0:
				x[1] = x[0] // its own parent
			case 1:
				x[1] = l[r.Intn(len(l))][0] // perhaps a cycle
			case 2:
				x[1] = 0 // perhaps a second root
			case 3:
				old := x[0]
				x[0] = 0 // span ID 0
				for i := range l {
					if l[i][1] == old {
						l[i][1] = 0
					}
				}
			}
		}
		seen := map[int64]bool{}
		var u [][2]int64
		for _, x := range l {
			if !seen[x[0]] {
				seen[x[0]] = true
				u = append(u, x)
			}
		}
		l = u
	}
	return l
}

func wellFormed(l [][2]int64) bool {
	par := map[int64]int64{}
	roots := 0
	for _, x := range l {
		par[x[0]] = x[1]
		if x[1] == 0 {
			roots++
		}
		if x[0] == 0 {
			return false
		}
	}
	if roots > 1 {
		return false
	}
	for _, x := range l {
		p, n := x[0], 0
		for {
			q, ok := par[p]
			if !ok {
				break
			}
			p = q
			if n++; n > len(l)+1 {
				return false
			}
		}
	}
	return true
}

func genStore(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	clients := pick(r, 1, 2, 2, 3, 3, 4)
	traces := 1 + r.Intn(3)
	ill := prop == "C01" && r.Intn(4) == 0
	p.Cfg["strict"] = 1
	// rarely a large trace, or spans with many annotations: collected by few clients, or the search of linearizations takes too long
	big := prop != "C01" && r.Intn(40) == 0
	fat := r.Intn(40) == 0
	if big || fat && prop != "C01" {
		clients, traces = 1+r.Intn(2), 1
	}
	var col []eng.Op
	for t := 0; t < traces; t++ {
		n := 1 + r.Intn(6)
		if prop == "C01" {
			n = 1 + r.Intn(9)
			if r.Intn(40) == 0 || deep && r.Intn(5) == 0 {
				n = 10 + r.Intn(20)
				if r.Intn(20) == 0 {
					n = 40 + r.Intn(60)
				}
			}
		} else if big {
			n = 8 + r.Intn(30)
		} else if r.Intn(2) == 0 || fat {
			n = 1 + r.Intn(3)
		}
		sp := genSpans(r, n, ill)
		if !wellFormed(sp) {
			p.Cfg["strict"] = 0
		}
		for _, s := range sp {
			calls := 1
			if r.Intn(2) == 0 {
				calls += r.Intn(3)
				if fat {
					calls += r.Intn(10)
				}
			}
			for ; calls > 0; calls-- {
				na := r.Intn(3)
				if fat && r.Intn(3) == 0 {
					na = r.Intn(40)
				}
				col = append(col, eng.Op{K: "c", A: int64(t + 1), B: s[0], E: s[1], X: make([]byte, na)})
			}
		}
	}
	shuffle(r, len(col), func(i, j int) { col[i], col[j] = col[j], col[i] })
	most := 44
	if big {
		most = 70
		col = col[:min(len(col), 50)]
	} else if prop != "C01" && len(col) > 18 {
		col = col[:18]
	}
	ops := col
	rd := 0
	dels := prop == "C01" && len(col) <= 40 && r.Intn(6) == 0
	switch prop {
	case "C01":
		rd = r.Intn(4)
		if dels {
			rd++
		}
	case "C02":
		rd = 3 + r.Intn(10)
	case "C03":
		rd = r.Intn(4)
	}
	for ; rd > 0; rd-- {
		o := eng.Op{A: int64(1 + r.Intn(traces+1)), B: int64(1 + r.Intn(traces))}
		switch k := r.Intn(10); {
		case dels && r.Intn(2) == 0:
			o.K = "d"
			if r.Intn(2) == 0 {
				o.B = 0
			}
		case prop == "C01":
			o.K = pick(r, "t", "q")
		case k < 4:
			o.K = pick(r, "t", "t", "q", "m")
		case k < 6:
			o.K = "q"
		case k < 8:
			o.K = "m"
		default:
			o.K = "d"
			if r.Intn(2) == 0 {
				o.B = 0
			}
		}
		ops = append(ops, o)
	}
	if prop == "C03" {
		for k := 1 + r.Intn(3); k > 0; k-- {
			o := eng.Op{K: "w", A: int64(r.Intn(3)), B: logUniform(r, 200)}
			if r.Intn(3) == 0 {
				o.K, o.B = "x", int64(r.Intn(1000))
			}
			ops = append(ops, o)
		}
	}
	// reads, writes and deletions anywhere
	for i := len(col); i < len(ops); i++ {
		j := r.Intn(i + 1)
		o := ops[i]
		copy(ops[j+1:i+1], ops[j:i])
		ops[j] = o
	}
	if len(ops) > most && prop != "C01" {
		ops = ops[:most]
	}
	for i := range ops {
		ops[i].C = r.Intn(clients)
		if r.Intn(6) == 0 {
			ops[i].D = logUniform(r, 2*ms)
		}
	}
	p.Ops = ops
	if r.Intn(2) == 0 {
		p.Cfg["share"] = 1
	}
	if prop == "C03" {
		// what happens to both stores after the restore: drawn from a seed
		p.Cfg["after"] = int64(r.U64() >> 1)
		p.Cfg["naft"] = int64(2 + r.Intn(12))
	}
	return p
}

type snap struct {
	tr    *appdash.Trace
	exact string
	what  string
}

// slowWriter yields and sometimes sleeps, so that other tasks run during a write.
type slowWriter struct {
	b     bytes.Buffer
	chunk int
	slow  bool
}

func (w *slowWriter) Write(p []byte) (int, error) {
	for i := 0; i < len(p); i += w.chunk {
		j := i + w.chunk
		if j > len(p) {
			j = len(p)
		}
		w.b.Write(p[i:j])
		rt.Yield()
		if w.slow {
			rt.Sleep(100 * us)
		}
	}
	return len(p), nil
}

var errRead = errors.New("simulated read error")

// chunkReader returns small reads and ends after cut bytes with err.
type chunkReader struct {
	b     []byte
	chunk int
	cut   int
	err   error
	pos   int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	rt.Yield()
	end := len(r.b)
	if r.cut >= 0 && r.cut < end {
		end = r.cut
	}
	if r.pos >= end {
		if r.cut >= 0 && r.err != nil {
			rt.CountFault(rt.FReadErr)
			return 0, r.err
		}
		return 0, io.EOF
	}
	n := len(p)
	if n > r.chunk {
		n = r.chunk
	}
	if n > end-r.pos {
		n = end - r.pos
	}
	copy(p, r.b[r.pos:r.pos+n])
	r.pos += n
	return n, nil
}

// caller hands annotations over, reusing one buffer with spare capacity if told to.
type caller struct {
	share bool
	buf   []appdash.Annotation
}

func (k *caller) anns(toks []string) []appdash.Annotation {
	var as []appdash.Annotation
	if k.share {
		if k.buf == nil {
			k.buf = make([]appdash.Annotation, 0, 8)
		}
		as = k.buf[:0]
	}
	for _, t := range toks {
		as = append(as, Ann(t))
	}
	if k.share {
		k.buf = as[:0]
	}
	return as
}

func opToks(i int, o *eng.Op) []string {
	var l []string
	for j := range o.X {
		l = append(l, fmt.Sprintf("%d.%d", i, j))
	}
	return l
}

func runStore(c *eng.C) {
	p := c.P
	st := appdash.NewMemoryStore()
	strict := p.G("strict") == 1
	var hist []Lin
	var snaps []snap
	callers := map[int]*caller{}
	rec := func(k *Call, e *stEv) {
		hist = append(hist, Lin{k.Inv, k.Ret, e})
	}
	checkSnaps := func(when string) {
		for i := range snaps {
			if s := &snaps[i]; s.tr != nil {
				if now := Exact(s.tr); now != s.exact {
					c.Fail("C02", "snapshot-changed", "a trace returned by %s changed later (seen %s): was %s, is %s", s.what, when, short(s.exact, 600), short(now, 600))
					s.tr = nil
				}
			}
		}
	}
	badTree := func(what string, err error) { c.Fail(propOr(p.For(), "C01", "C02"), "bad-tree", "%s: %v", what, err) }
	var images [][]byte
	do := func(i int, o *eng.Op) {
		id := appdash.ID(o.A)
		switch o.K {
		case "c":
			cl := callers[o.C]
			if cl == nil {
				cl = &caller{share: p.G("share") == 1}
				callers[o.C] = cl
			}
			e := &stEv{kind: "c", id: appdash.SpanID{Trace: id, Span: appdash.ID(o.B), Parent: appdash.ID(o.E)}, toks: opToks(i, o)}
			as := cl.anns(e.toks)
			k := Do(func() error { return st.Collect(e.id, as...) })
			if k.Err != nil {
				c.Fail(p.For(), "collect-error", "Collect on a memory store failed: %v", k.Err)
			}
			rec(k, e)
			if cl.share {
				user.Scribble(as)
			}
		case "t", "m":
			e := &stEv{kind: "t", tr: []appdash.ID{id}}
			var t *appdash.Trace
			k := Do(func() (err error) { t, err = st.Trace(id); return })
			KeepTraces(t)
			e.err = k.Err
			switch {
			case k.Err == appdash.ErrTraceNotFound:
				if t != nil {
					c.Fail("C02", "read", "Trace returned a trace and not-found")
				}
			case k.Err != nil:
				c.Fail("C02", "read", "Trace failed: %v", k.Err)
			default:
				tc, err := Canon(t, strict)
				if err != nil {
					badTree(fmt.Sprintf("Trace(%d)", o.A), err)
					return
				}
				if tc.ID != id {
					c.Fail("C02", "read", "Trace(%d) returned trace %d", o.A, uint64(tc.ID))
				}
				e.read = []string{tc.String()}
				if o.K == "m" {
					rearrange(t, i)
				} else {
					snaps = append(snaps, snap{t, Exact(t), fmt.Sprintf("Trace(%d)", o.A)})
				}
			}
			rec(k, e)
		case "q":
			e := &stEv{kind: "q"}
			var ts []*appdash.Trace
			k := Do(func() (err error) { ts, err = st.Traces(appdash.TracesOpts{}); return })
			KeepTraces(ts...)
			if k.Err != nil {
				c.Fail("C02", "read", "Traces failed: %v", k.Err)
				return
			}
			l, err := canonAll(ts, strict)
			if err != nil {
				badTree("Traces", err)
				return
			}
			e.read = l
			for _, t := range ts {
				snaps = append(snaps, snap{t, Exact(t), "Traces"})
			}
			rec(k, e)
		case "d":
			e := &stEv{kind: "d", tr: []appdash.ID{id}}
			if o.B > 0 && o.B != o.A {
				e.tr = append(e.tr, appdash.ID(o.B))
			}
			k := Do(func() error { return st.Delete(e.tr...) })
			if k.Err != nil {
				c.Fail("C02", "delete-error", "Delete failed: %v", k.Err)
			}
			rec(k, e)
		case "w", "x":
			w := &slowWriter{chunk: 1 + int(o.B%61), slow: o.A == 1}
			k := Do(func() error { return st.Write(w) })
			if k.Err != nil {
				c.Fail("C03", "write-error", "Write failed although the writer did not: %v", k.Err)
				return
			}
			img := append([]byte(nil), w.b.Bytes()...)
			r2 := appdash.NewMemoryStore()
			if _, err := r2.ReadFrom(&chunkReader{b: img, chunk: 1 + int(o.B%97), cut: -1}); err != nil {
				c.Fail("C03", "restore-error", "an image just written cannot be read back: %v", err)
				return
			}
			l, err := content(r2, strict)
			if err != nil {
				c.Fail("C03", "bad-image", "the restored store is malformed: %v", err)
				return
			}
			rec(k, &stEv{kind: "w", read: l})
			images = append(images, img)
			if o.K == "x" {
				failedRestore(c, img, o, strict)
			}
		}
		checkSnaps("during the run")
	}
	single := true
	for i := range p.Ops {
		single = single && p.Ops[i].C == p.Ops[0].C
	}
	Clients(c, nil, func(i int, o *eng.Op) {
		do(i, o)
		if single && p.For() == "C01" && !c.Failed() && (len(p.Ops) < 60 || i%16 == 0) {
			checkAssembly(c, st, hist, strict)
		}
	})
	if c.Failed() {
		return
	}
	checkSnaps("at the end")
	checkAssembly(c, st, hist, strict)
	if c.Failed() {
		return
	}
	del := false
	for _, h := range hist {
		del = del || h.V.(*stEv).kind == "d"
	}
	if len(hist) <= 64 && (p.For() != "C01" || del) {
		prop := propOr2(p.For(), "C02", "C01")
		l, err := content(st, strict)
		if err != nil {
			badTree("the content at the end", err)
			return
		}
		hist = append(hist, Lin{rt.Seq(), rt.Seq(), &stEv{kind: "q", read: l}})
		c.Add("histories_checked", 1)
		c.Add("history_ops", int64(len(hist)))
		switch r, best := Linearizable("", hist, stStep); r {
		case 0:
			// is it the images or the reads?
			var noW []Lin
			for _, h := range hist {
				if h.V.(*stEv).kind != "w" {
					noW = append(noW, h)
				}
			}
			if len(noW) < len(hist) {
				if r2, _ := Linearizable("", noW, stStep); r2 == 1 {
					prop = "C03"
				}
			}
			cls := "not-linearizable"
			if prop == "C03" {
				cls = "image-not-an-instant"
			}
			c.Fail(prop, cls, "no order of the %d calls explains the results (longest explained prefix %d): %s", len(hist), best, short(describe(hist), 1500))
		case -1:
			c.Add("histories_undecided", 1)
		}
	}
	if p.For() == "C03" && len(images) > 0 {
		after(c, st, strict)
	}
}

func propOr(p string, l ...string) string {
	for _, x := range l {
		if x == p {
			return p
		}
	}
	if p == "C03" {
		return p
	}
	return l[0]
}

func describe(h []Lin) string {
	var b strings.Builder
	for _, x := range h {
		e := x.V.(*stEv)
		fmt.Fprintf(&b, "[%d-%d %s", x.Inv, x.Ret, e.kind)
		switch e.kind {
		case "c":
			fmt.Fprintf(&b, " %d/%d<%d %s", uint64(e.id.Trace), uint64(e.id.Span), uint64(e.id.Parent), join(e.toks))
		case "d", "t":
			fmt.Fprintf(&b, " %v", e.tr)
		}
		if e.read != nil {
			fmt.Fprintf(&b, " -> %s", strings.Join(e.read, ";"))
		}
		b.WriteString("] ")
	}
	return b.String()
}

// rearrange changes a returned trace in every way that is not a change of value bytes.
func rearrange(t *appdash.Trace, n int) {
	for i, j := 0, len(t.Sub)-1; i < j; i, j = i+1, j-1 {
		t.Sub[i], t.Sub[j] = t.Sub[j], t.Sub[i]
	}
	for i := range t.Annotations {
		t.Annotations[i] = appdash.Annotation{Key: "mine", Value: []byte("mine")}
	}
	t.Annotations = append(t.Annotations, appdash.Annotation{Key: "more", Value: []byte("more")})
	t.Sub = append(t.Sub, &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: 77, Span: 78, Parent: 79}}})
	for _, s := range t.Sub {
		if s.Span.ID.Trace != 77 {
			rearrange(s, n)
		}
	}
	t.Span.ID.Parent += 1000
	if n%2 == 0 {
		t.Sub = t.Sub[:len(t.Sub)/2]
	}
}

// checkAssembly compares the store with what the finished collections must have produced.
func checkAssembly(c *eng.C, st *appdash.MemoryStore, hist []Lin, strict bool) {
	type sp struct {
		id    appdash.SpanID
		calls []Lin
	}
	var order []appdash.SpanID
	spans := map[[2]appdash.ID]*sp{}
	var trs []appdash.ID
	for _, h := range hist {
		e := h.V.(*stEv)
		switch e.kind {
		case "d":
			return // deletions: the linearizability check covers it
		case "c":
			k := [2]appdash.ID{e.id.Trace, e.id.Span}
			if spans[k] == nil {
				spans[k] = &sp{id: e.id}
				order = append(order, e.id)
			}
			spans[k].calls = append(spans[k].calls, h)
			has := false
			for _, t := range trs {
				has = has || t == e.id.Trace
			}
			if !has {
				trs = append(trs, e.id.Trace)
			}
		}
	}
	all, err := st.Traces(appdash.TracesOpts{})
	if err != nil || len(all) != len(trs) {
		c.Fail("C01", "traces", "%d traces were collected, Traces returns %d (%v)", len(trs), len(all), err)
		return
	}
	for _, tid := range trs {
		t, err := st.Trace(tid)
		if err != nil {
			c.Fail("C01", "lost-trace", "trace %d was collected but: %v", uint64(tid), err)
			return
		}
		tc, err := Canon(t, strict)
		if err != nil {
			c.Fail("C01", "bad-tree", "%v", err)
			return
		}
		n := 0
		for _, id := range order {
			if id.Trace != tid {
				continue
			}
			n++
			s := spans[[2]appdash.ID{id.Trace, id.Span}]
			got := tc.Find(id.Span)
			if got == nil {
				c.Fail("C01", "lost-span", "span %d (parent %d) was collected but is not in trace %d: %v", uint64(id.Span), uint64(id.Parent), uint64(tid), tc)
				return
			}
			if f := t.FindSpan(id.Span); f == nil || f.Span.ID.Span != id.Span {
				c.Fail("C01", "find-span", "FindSpan(%d) does not find the span in %v", uint64(id.Span), tc)
				return
			}
			if why := checkOrder(got.Toks, s.calls); why != "" {
				c.Fail("C01", "annotations", "span %d of trace %d: %s; stored %v", uint64(id.Span), uint64(tid), why, got.Toks)
				return
			}
		}
		if n != len(tc.Spans) {
			c.Fail("C01", "extra-span", "%d spans were collected for trace %d, it has %d: %v", n, uint64(tid), len(tc.Spans), tc)
			return
		}
		c.Add("traces_checked", 1)
	}
}

// checkOrder checks that toks is the concatenation of the calls' tokens in an order that respects real time.
func checkOrder(toks []string, calls []Lin) string {
	rest := append([]Lin(nil), calls...)
	i := 0
	var used []Lin
	for i < len(toks) {
		found := -1
		for k, h := range rest {
			e := h.V.(*stEv)
			if len(e.toks) > 0 && e.toks[0] == toks[i] && i+len(e.toks) <= len(toks) && join(e.toks) == join(toks[i:i+len(e.toks)]) {
				found = k
				break
			}
		}
		if found < 0 {
			return fmt.Sprintf("annotation %s at position %d is foreign, repeated or torn", toks[i], i)
		}
		h := rest[found]
		for _, o := range rest {
			if o.Ret < h.Inv && len(o.V.(*stEv).toks) > 0 {
				return fmt.Sprintf("annotations %v of a call are stored before those of a call that had returned earlier, %v", h.V.(*stEv).toks, o.V.(*stEv).toks)
			}
		}
		used = append(used, h)
		rest = append(rest[:found], rest[found+1:]...)
		i += len(h.V.(*stEv).toks)
	}
	for _, o := range rest {
		if len(o.V.(*stEv).toks) > 0 {
			return fmt.Sprintf("annotations %v are missing", o.V.(*stEv).toks)
		}
	}
	return ""
}

// after restores the final store into a second one and drives both with the same calls.
func after(c *eng.C, st *appdash.MemoryStore, strict bool) {
	var b bytes.Buffer
	if err := st.Write(&b); err != nil {
		c.Fail("C03", "write-error", "%v", err)
		return
	}
	r2 := appdash.NewMemoryStore()
	if _, err := r2.ReadFrom(bytes.NewReader(b.Bytes())); err != nil {
		c.Fail("C03", "restore-error", "%v", err)
		return
	}
	r := rt.NewRand(uint64(c.P.G("after")))
	cmp := func(what string) bool {
		x, e1 := content(st, strict)
		y, e2 := content(r2, strict)
		if e1 != nil || e2 != nil {
			c.Fail("C03", "bad-tree", "after %s: original %v, restored %v", what, e1, e2)
			return false
		}
		if strings.Join(x, ";") != strings.Join(y, ";") {
			c.Fail("C03", "restored-differs", "after %s the restored store differs from the saved one: saved %s, restored %s", what, short(strings.Join(x, ";"), 700), short(strings.Join(y, ";"), 700))
			return false
		}
		return true
	}
	if !cmp("the restore") {
		return
	}
	for i := 0; i < int(c.P.G("naft")); i++ {
		t := appdash.ID(1 + r.Intn(4))
		if r.Intn(6) == 0 {
			st.Delete(t)
			r2.Delete(t)
			if !cmp(fmt.Sprintf("Delete(%d)", uint64(t))) {
				return
			}
			continue
		}
		id := appdash.SpanID{Trace: t, Span: appdash.ID(1 + r.Intn(8)), Parent: appdash.ID(r.Intn(8))}
		if tr, err := st.Trace(t); err == nil {
			if all := spansOf(tr, nil); r.Intn(3) == 0 {
				// a span the trace has, wherever it is, or a child of it
				sort.Slice(all, func(i, j int) bool { return all[i].Span < all[j].Span })
				f := all[r.Intn(len(all))]
				if id.Span = f.Span; r.Intn(3) == 0 {
					id.Span, id.Parent = appdash.ID(100+i), f.Span
				}
			}
			if f := tr.FindSpan(id.Span); f != nil {
				id = f.Span.ID
			} else if id.Parent == 0 {
				id.Parent = appdash.ID(20 + i) // no second root
			}
		}
		if strict && makesCycle(st, id) {
			continue
		}
		as := []appdash.Annotation{Ann(fmt.Sprintf("after%d", i))}
		if err := st.Collect(id, as...); err != nil {
			c.Fail("C03", "collect-error", "%v", err)
			return
		}
		if err := r2.Collect(id, as...); err != nil {
			c.Fail("C03", "collect-error", "the restored store refuses %v: %v", id, err)
			return
		}
		c.Add("steps_after_restore", 1)
		if !cmp(fmt.Sprintf("Collect(%d/%d, parent %d)", uint64(id.Trace), uint64(id.Span), uint64(id.Parent))) {
			return
		}
	}
}

// spansOf appends the IDs of the spans of a tree, in no particular order.
func spansOf(t *appdash.Trace, ids []appdash.SpanID) []appdash.SpanID {
	ids = append(ids, t.Span.ID)
	for _, s := range t.Sub {
		ids = spansOf(s, ids)
	}
	return ids
}

// makesCycle tells whether collecting id would make parent links cyclic.
func makesCycle(st *appdash.MemoryStore, id appdash.SpanID) bool {
	t, err := st.Trace(id.Trace)
	if err != nil {
		return id.Span == id.Parent
	}
	p := id.Parent
	for n := 0; n < 50; n++ {
		if p == id.Span {
			return true
		}
		f := t.FindSpan(p)
		if f == nil {
			return false
		}
		p = f.Span.ID.Parent
	}
	return true
}

// failedRestore feeds a damaged image to a store that has content of its own and checks that nothing changes.
func failedRestore(c *eng.C, img []byte, o *eng.Op, strict bool) {
	s := appdash.NewMemoryStore()
	own := []appdash.SpanID{{Trace: 1, Span: 2, Parent: 1}, {Trace: 1, Span: 1}, {Trace: 9, Span: 4, Parent: 3}}
	for i, id := range own {
		s.Collect(id, Ann(fmt.Sprintf("own%d", i)))
	}
	before, _ := content(s, strict)
	cut := int(o.B) * len(img) / 1000
	if cut >= len(img) {
		cut = len(img) - 1
	}
	r := &chunkReader{b: img, chunk: 7, cut: cut}
	if o.A == 1 {
		r.err = errRead
	}
	rt.CountFault(rt.FTruncate)
	if _, err := s.ReadFrom(r); err == nil {
		c.Fail("C03", "truncated-accepted", "an image cut from %d to %d bytes was restored without an error", len(img), cut)
		return
	}
	now, err := content(s, strict)
	if err != nil || strings.Join(now, ";") != strings.Join(before, ";") {
		c.Fail("C03", "failed-restore-changed", "a failed restore (cut at %d of %d) changed the store from %v to %v (%v)", cut, len(img), before, now, err)
		return
	}
	// and it goes on working
	id := appdash.SpanID{Trace: 1, Span: 3, Parent: 2}
	s.Collect(id, Ann("later"))
	s.Collect(own[0], Ann("later2"))
	t, err := s.Trace(1)
	if err != nil || t.FindSpan(3) == nil || len(t.FindSpan(2).Annotations) != 2 {
		c.Fail("C03", "failed-restore-changed", "after a failed restore the store no longer takes data: %v", err)
	}
}

var storeScen = &eng.Scenario{Name: "store", Gen: genStore, Run: runStore}

func init() {
	real := []string{"store.go MemoryStore", "trace.go", "span.go"}
	stub := []string{"sync.Mutex and the goroutine scheduler (simulated)", "io.Writer/io.Reader given to Write/ReadFrom"}
	eng.Register(&eng.PropCfg{ID: "C01", Scen: []eng.Weighted{{S: storeScen, W: 1}}, Quick: 600000, Deep: 40000000, QuickSec: 40, DeepSec: 600, Level: "exploration", Real: real, Stub: stub})
	eng.Register(&eng.PropCfg{ID: "C02", Scen: []eng.Weighted{{S: storeScen, W: 1}}, Quick: 400000, Deep: 40000000, QuickSec: 40, DeepSec: 600, Level: "exploration", Real: real, Stub: stub})
	eng.Register(&eng.PropCfg{ID: "C03", Scen: []eng.Weighted{{S: storeScen, W: 1}}, Quick: 400000, Deep: 40000000, QuickSec: 40, DeepSec: 600, Level: "exploration", Real: append(real, "encoding/gob"), Stub: stub})
}
