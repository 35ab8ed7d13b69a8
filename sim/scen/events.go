package scen

import (
	"encoding/json"
	"fmt"
	"log"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"

	"vsim/eng"
	"vsim/rt"
)

// The events scenario records generated events, several of different types on a span, from several tasks of processes
// that have just started (nothing about the types is known yet), lets them travel to a store, and reads them back
// while more are recorded and after the store was saved and restored.
//
// ops: e record a span of events (A: value seed, B: set of event types, E: bit 0 annotations of other schemas,
// bit 1 shuffled tags); h collect annotations that carry the schema of a registered event and nonsense (A seed);
// r read an earlier span back (A which)
// cfg: path 0 the store itself, 1 chunked, 2 network; restore: at the end through Write and ReadFrom; chunk (interval)

type evInner struct {
	X int16
	Y string `trace:"why"`
	D time.Duration
}

type evScalars struct {
	B   bool    `trace:"Sc.B"`
	I   int     `trace:"Sc.I"`
	I8  int8    `trace:"Sc.I8"`
	I16 int16   `trace:"Sc.I16"`
	I32 int32   `trace:"Sc.I32"`
	I64 int64   `trace:"Sc.I64"`
	U   uint    `trace:"Sc.U"`
	U8  uint8   `trace:"Sc.U8"`
	U16 uint16  `trace:"Sc.U16"`
	U32 uint32  `trace:"Sc.U32"`
	U64 uint64  `trace:"Sc.U64"`
	F32 float32 `trace:"Sc.F32"`
	F64 float64 `trace:"Sc.F64"`
	S   string  `trace:"Sc.S"`
	s   string
}

type evTimes struct {
	D  time.Duration   `trace:"Tm.D"`
	Ds []time.Duration `trace:"Tm.Ds"`
	T  time.Time       `trace:"Tm.T"`
	Z  int64           `trace:"Tm.Z"`
}

type evNest struct {
	One   evInner  `trace:"Nest.One"`
	Two   *evInner `trace:"Nest.Two"`
	Three struct {
		In   evInner
		Last bool
	} `trace:"Nest.Zed"`
}

type evLists struct {
	Item   []int64   `trace:"List.Item"`
	Items  []string  `trace:"List.Items"`
	ItemsN [3]uint16 `trace:"List.ItemsN"`
	Last   string    `trace:"List.Last"`
}

type evMaps struct {
	E    map[string]float64 `trace:"Map.E"`
	M    map[string]string  `trace:"Map.M"`
	N    map[string]int     `trace:"Map.N"`
	Last string             `trace:"Map.Z"`
}

type evPtrs struct {
	B    *bool      `trace:"Ptr.B"`
	I    *int       `trace:"Ptr.I"`
	S    *string    `trace:"Ptr.S"`
	T    *time.Time `trace:"Ptr.T"`
	Last string     `trace:"Ptr.Z"`
}

// evOwn converts itself.
type evOwn struct {
	A, B string
	N    int
}

func (evScalars) Schema() string { return "sim-scalars" }
func (evTimes) Schema() string   { return "sim-times" }
func (evNest) Schema() string    { return "sim-nest" }
func (evLists) Schema() string   { return "sim-lists" }
func (evMaps) Schema() string    { return "sim-maps" }
func (evPtrs) Schema() string    { return "sim-ptrs" }
func (evOwn) Schema() string     { return "sim-own" }

func (e evOwn) MarshalEvent() (appdash.Annotations, error) {
	b, _ := json.Marshal(struct {
		A, B string
		N    int
	}{e.A, e.B, e.N})
	return appdash.Annotations{{Key: "own", Value: b}}, nil
}

func (evOwn) UnmarshalEvent(as appdash.Annotations) (appdash.Event, error) {
	var v struct {
		A, B string
		N    int
	}
	err := json.Unmarshal([]byte(as.StringMap()["own"]), &v)
	return evOwn{v.A, v.B, v.N}, err
}

func evRegister() {
	for _, e := range []appdash.Event{evScalars{}, evTimes{}, evNest{}, evLists{}, evMaps{}, evPtrs{}, evOwn{}} {
		appdash.RegisterEvent(e)
	}
}

const evKinds = 14

func evString(r *rt.Rand) string {
	switch r.Intn(10) {
	case 0:
		return ""
	case 1:
		return pick(r, ".", "a.b", "_schema:name", "0", "true", " ", "\x00", "\xff\xfe", "é", "日本", "\n", "a=b", "NaN", "-")
	case 2:
		return strings.Repeat(pick(r, "x", "\"", "<", "é"), 1+r.Intn(600))
	}
	b := make([]byte, 1+r.Intn(12))
	for i := range b {
		b[i] = "abcXYZ019./_-: "[r.Intn(15)]
	}
	return string(b)
}

func evInt(r *rt.Rand, bits int) int64 {
	switch r.Intn(5) {
	case 0:
		return 0
	case 1:
		return math.MaxInt64 >> uint(64-bits)
	case 2:
		return math.MinInt64 >> uint(64-bits)
	}
	return int64(r.U64()) >> uint(64-bits)
}

func evUint(r *rt.Rand, bits int) uint64 {
	if r.Intn(5) == 0 {
		return pick(r, uint64(0), math.MaxUint64) >> uint(64-bits)
	}
	return r.U64() >> uint(64-bits)
}

func evFloat(r *rt.Rand) float64 {
	switch r.Intn(6) {
	case 0:
		return pick(r, 0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1e21, 1<<53+1)
	case 1:
		return float64(r.Intn(100000)) / 100
	}
	return (r.F() - 0.5) * math.Pow(10, float64(r.Intn(60)-30))
}

func evDur(r *rt.Rand) time.Duration {
	d := time.Duration(logUniform(r, 1<<50))
	if r.Intn(8) == 0 {
		d = 0
	}
	if r.Intn(4) == 0 {
		d = -d
	}
	return d
}

func evTime(r *rt.Rand) time.Time {
	t := time.Unix(r.Int63n(1<<33), r.Int63n(1e9))
	switch r.Intn(6) {
	case 0:
		t = time.Unix(r.Int63n(1<<33), pick(r, int64(0), 1, 999999999, 1000, 100000000))
	case 1:
		t = time.Date(1+r.Intn(9998), 1, 1, 0, 0, 0, r.Intn(1e9), time.UTC)
	}
	if r.Intn(3) == 0 {
		return t.In(time.FixedZone("", (r.Intn(1681)-840)*60))
	}
	return t.UTC()
}

func evIn(r *rt.Rand) evInner { return evInner{int16(evInt(r, 16)), evString(r), evDur(r)} }

func evStrings(r *rt.Rand, canon bool) map[string]string {
	n := pick(r, 0, 0, 1, 2, 3, 12)
	if n == 0 && r.Intn(2) == 0 {
		return nil
	}
	m := map[string]string{}
	for i := 0; i < n; i++ {
		k := evString(r)
		if canon {
			k = pick(r, "Host", "X-A", "X-B", "Accept", "Cookie", "A", "Zz")
		}
		m[k] = evString(r)
	}
	return m
}

// evMake makes an event of kind k.
func evMake(k int, r *rt.Rand) appdash.Event {
	switch k {
	case 0:
		return appdash.SpanName(evString(r))
	case 1:
		if r.Intn(2) == 0 {
			return appdash.LogWithTimestamp(evString(r), evTime(r))
		}
		return appdash.Msg(evString(r))
	case 2:
		return appdash.Timespan{S: evTime(r), E: evTime(r)}
	case 3:
		return sqltrace.SQLEvent{SQL: evString(r), Tag: evString(r), ClientSend: evTime(r), ClientRecv: evTime(r)}
	case 4:
		return httptrace.ServerEvent{
			Request:  httptrace.RequestInfo{Method: "GET", Proto: "HTTP/1.1", URI: evString(r), Host: evString(r), RemoteAddr: evString(r), ContentLength: evInt(r, 64), Headers: evStrings(r, true)},
			Response: httptrace.ResponseInfo{ContentLength: evInt(r, 64), StatusCode: r.Intn(600), Headers: evStrings(r, true)},
			Route:    evString(r), User: evString(r), ServerRecv: evTime(r), ServerSend: evTime(r)}
	case 5:
		return httptrace.ClientEvent{
			Request:    httptrace.RequestInfo{Method: "POST", Proto: "HTTP/1.0", URI: evString(r), Host: evString(r), RemoteAddr: evString(r), ContentLength: evInt(r, 64), Headers: evStrings(r, true)},
			Response:   httptrace.ResponseInfo{ContentLength: evInt(r, 64), StatusCode: r.Intn(600), Headers: evStrings(r, true)},
			ClientSend: evTime(r), ClientRecv: evTime(r)}
	case 6:
		return evScalars{B: r.Intn(2) == 0, I: int(evInt(r, 64)), I8: int8(evInt(r, 8)), I16: int16(evInt(r, 16)), I32: int32(evInt(r, 32)), I64: evInt(r, 64),
			U: uint(evUint(r, 64)), U8: uint8(evUint(r, 8)), U16: uint16(evUint(r, 16)), U32: uint32(evUint(r, 32)), U64: evUint(r, 64),
			F32: float32(evFloat(r)), F64: evFloat(r), S: evString(r)}
	case 7:
		e := evTimes{T: evTime(r), D: evDur(r), Z: evInt(r, 64)}
		for i := pick(r, 0, 1, 3); i > 0; i-- {
			e.Ds = append(e.Ds, evDur(r))
		}
		return e
	case 8:
		e := evNest{One: evIn(r)}
		if r.Intn(3) > 0 {
			i := evIn(r)
			e.Two = &i
		}
		e.Three.In, e.Three.Last = evIn(r), r.Intn(2) == 0
		return e
	case 9:
		e := evLists{ItemsN: [3]uint16{uint16(r.U64()), 0, uint16(r.U64())}, Last: evString(r)}
		for i := pick(r, 0, 1, 2, 11, 102); i > 0; i-- {
			e.Item = append(e.Item, evInt(r, 64))
		}
		for i := pick(r, 0, 1, 2, 11); i > 0; i-- {
			e.Items = append(e.Items, evString(r))
		}
		return e
	case 10:
		e := evMaps{M: evStrings(r, false), Last: evString(r)}
		for i := pick(r, 0, 1, 3); i > 0; i-- {
			if e.N == nil {
				e.N = map[string]int{}
			}
			e.N[evString(r)] = int(evInt(r, 64))
		}
		for i := pick(r, 0, 1, 3); i > 0; i-- {
			if e.E == nil {
				e.E = map[string]float64{}
			}
			e.E[evString(r)] = evFloat(r)
		}
		return e
	case 11:
		e := evPtrs{Last: evString(r)}
		if r.Intn(2) == 0 {
			b := r.Intn(2) == 0
			e.B = &b
		}
		if r.Intn(2) == 0 {
			i := int(evInt(r, 64))
			e.I = &i
		}
		if r.Intn(2) == 0 {
			s := evString(r)
			e.S = &s
		}
		if r.Intn(2) == 0 {
			t := evTime(r)
			e.T = &t
		}
		return e
	case 12:
		return evOwn{strings.ToValidUTF8(evString(r), ""), strings.ToValidUTF8(evString(r), ""), r.Intn(1000)}
	case 13:
		return evUnknown{evString(r), r.Intn(100)}
	}
	panic(k)
}

// evUnknown is not registered with the readers.
type evUnknown struct {
	Q string `trace:"Unknown.Q"`
	R int    `trace:"Unknown.R"`
}

func (evUnknown) Schema() string { return "sim-unknown" }

// evText renders an event so that equal events, and only those, have the same text: instants instead of times,
// nil and empty lists and maps alike.
func evText(e appdash.Event) string {
	var b strings.Builder
	var put func(v reflect.Value)
	put = func(v reflect.Value) {
		if v.Type() == reflect.TypeOf(time.Time{}) {
			t := reflect.New(v.Type()).Elem()
			t.Set(v)
			fmt.Fprintf(&b, "@%s", t.Interface().(time.Time).UTC().Format("2006-01-02T15:04:05.999999999"))
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			b.WriteByte('&')
			put(v.Elem())
		case reflect.Struct:
			b.WriteByte('{')
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath != "" {
					continue
				}
				b.WriteString(" " + v.Type().Field(i).Name + ":")
				put(v.Field(i))
			}
			b.WriteByte('}')
		case reflect.Slice, reflect.Array:
			b.WriteByte('[')
			for i := 0; i < v.Len(); i++ {
				put(v.Index(i))
				b.WriteByte(' ')
			}
			b.WriteByte(']')
		case reflect.Map:
			ks := v.MapKeys()
			sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
			b.WriteString("map[")
			for _, k := range ks {
				fmt.Fprintf(&b, "%q:", k.String())
				put(v.MapIndex(k))
				b.WriteByte(' ')
			}
			b.WriteByte(']')
		case reflect.String:
			fmt.Fprintf(&b, "%q", v.String())
		case reflect.Bool:
			fmt.Fprint(&b, v.Bool())
		case reflect.Float32, reflect.Float64:
			fmt.Fprintf(&b, "%x", v.Float())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			fmt.Fprint(&b, v.Uint())
		default:
			fmt.Fprint(&b, v.Int())
		}
	}
	b.WriteString(e.Schema())
	put(reflect.ValueOf(e))
	return b.String()
}

type evSpan struct {
	id     appdash.SpanID
	want   map[string]string // schema -> text
	order  []string
	times  []appdash.TimespanEvent
	sent   bool
	synced bool
}

func genEvents(r *rt.Rand, prop string, deep bool) *eng.Plan {
	p := &eng.Plan{Cfg: map[string]int64{}}
	p.Cfg["path"] = int64(r.Intn(3))
	p.Cfg["chunk"] = pick(r, 10*ms, 500*ms)
	p.Cfg["restore"] = int64(r.Intn(2))
	clients := 1 + r.Intn(4)
	n := 1 + r.Intn(10)
	if r.Intn(20) == 0 {
		n += r.Intn(40)
	}
	hot := 0
	if r.Intn(2) == 0 {
		hot = 1 << uint(r.Intn(evKinds)) // all tasks meet the same type at once
	}
	for i := 0; i < n; i++ {
		o := eng.Op{K: pick(r, "e", "e", "e", "e", "h", "r"), C: r.Intn(clients), A: int64(r.U64() >> 1), E: int64(r.Intn(4))}
		for k := 1 + r.Intn(3); k > 0; k-- {
			o.B |= 1 << uint(r.Intn(evKinds))
		}
		if r.Intn(12) == 0 {
			o.B = 1<<evKinds - 1
		}
		o.B |= int64(hot)
		if r.Intn(3) == 0 {
			o.D = logUniform(r, 20*ms)
		}
		p.Ops = append(p.Ops, o)
	}
	if p.Cfg["path"] == 2 {
		p.Net.DelayMax = pick(r, 0, us, ms)
		p.Net.Frag = pick(r, 0, 0.1, 0.5)
	}
	return p
}

func runEvents(c *eng.C) {
	p := c.P
	evRegister()
	log.SetFlags(0)
	store := appdash.NewMemoryStore()
	var back appdash.Collector = store
	snode := rt.NewNode("server", rt.NewHost("srv"))
	if p.G("path") == 2 {
		l := make(chan error, 1)
		t := rt.GoOn(snode, "listen", func() {
			ln, err := rt.Net_Listen("tcp", ":7701")
			if err == nil {
				s := appdash.NewServer(ln, appdash.NewLocalCollector(store))
				s.Log = log.New(nullWriter{}, "", 0)
				rt.GoOn(snode, "serve", func() { s.Start() })
			}
			l <- err
		})
		rt.Join(t, 0)
		if err := <-l; err != nil {
			c.Fail("C23", "harness", "listen: %v", err)
			return
		}
	}
	spans := make([]*evSpan, len(p.Ops))
	ccs := map[int]*appdash.ChunkedCollector{}
	anode := rt.NewNode("app", rt.NewHost("app"))
	for i := range p.Ops {
		k := p.Ops[i].C
		if ccs[k] == nil {
			ccs[k] = &appdash.ChunkedCollector{Collector: back, MinInterval: time.Duration(p.G("chunk"))}
		}
	}
	rcs := make([]*appdash.RemoteCollector, 8)
	for i := range rcs {
		rcs[i] = appdash.NewRemoteCollector("srv:7701")
	}
	// check reads a span back; it was collected before.
	check := func(s *evSpan, st *appdash.MemoryStore, when string) {
		tr, err := st.Trace(s.id.Trace)
		if rt.Killed() || c.Failed() {
			return
		}
		if err != nil {
			c.Fail("C23", "lost", "the trace of a finished span %s: %v", when, err)
			return
		}
		var evs []appdash.Event
		if err := appdash.UnmarshalEvents(tr.Annotations, &evs); err != nil {
			if !rt.Killed() {
				c.Fail("C23", "error", "converting the annotations back %s: %v", when, err)
			}
			return
		}
		var start, end time.Time
		sane := true // the nanoseconds since 1970 of the others do not fit
		for _, t := range s.times {
			sane = sane && yearOK(t.Start()) && yearOK(t.End())
			if a := t.Start(); start.IsZero() || a.Before(start) {
				start = a
			}
			if z := t.End(); end.IsZero() || z.After(end) {
				end = z
			}
		}
		sp, err := tr.TimespanEvent()
		if rt.Killed() || c.Failed() {
			return
		}
		got := map[string]string{}
		for _, e := range evs {
			if _, ok := got[e.Schema()]; ok {
				c.Fail("C23", "twice", "an event of schema %q came out twice %s", e.Schema(), when)
				return
			}
			got[e.Schema()] = evText(e)
			if _, ok := s.want[e.Schema()]; !ok {
				c.Fail("C23", "alien", "an event of schema %q came out %s, none was recorded on the span", e.Schema(), when)
				return
			}
		}
		for _, sc := range s.order {
			if got[sc] == "" {
				c.Fail("C23", "missing", "the event %s did not come out %s", short(s.want[sc], 300), when)
				return
			}
			if got[sc] != s.want[sc] {
				c.Fail("C23", "altered", "the event %s came out as %s %s", short(s.want[sc], 1500), short(got[sc], 1500), when)
				return
			}
		}
		if len(s.times) > 0 && sane {
			if err != nil {
				c.Fail("C23", "timespan", "the time span of a span with events in [%v %v] %s: %v", start.UTC(), end.UTC(), when, err)
			} else if !sp.Start().Equal(start) || !sp.End().Equal(end) {
				c.Fail("C23", "timespan", "the time span of a span with events in [%v %v] is [%v %v] %s", start.UTC(), end.UTC(), sp.Start().UTC(), sp.End().UTC(), when)
			}
		} else if len(s.times) == 0 && err == nil {
			c.Fail("C23", "timespan", "a span without timespan events has one %s", when)
		}
		c.Add("events read back", int64(len(evs)))
	}
	do := func(i int, o *eng.Op) {
		r := rt.NewRand(uint64(o.A))
		coll := back
		switch p.G("path") {
		case 1:
			coll = ccs[o.C]
		case 2:
			coll = rcs[o.C]
		}
		id := appdash.SpanID{Trace: appdash.ID(100 + i), Span: appdash.ID(1 + i)}
		switch o.K {
		case "e":
			s := &evSpan{id: id, want: map[string]string{}}
			rec := appdash.NewRecorder(s.id, coll)
			var kinds []int
			for k := 0; k < evKinds; k++ {
				if o.B>>uint(k)&1 != 0 {
					kinds = append(kinds, k)
				}
			}
			if o.E&2 != 0 {
				shuffle(&r, len(kinds), func(a, b int) { kinds[a], kinds[b] = kinds[b], kinds[a] })
			}
			for _, k := range kinds {
				e := evMake(k, &r)
				if k != 13 {
					s.want[e.Schema()] = evText(e)
					s.order = append(s.order, e.Schema())
				}
				if t, ok := e.(appdash.TimespanEvent); ok {
					s.times = append(s.times, t)
				}
				rec.Event(e)
				if rt.Killed() {
					return
				}
			}
			var errs []error
			rec.Finish()
			errs = rec.Errors()
			if rt.Killed() {
				return
			}
			if len(errs) > 0 {
				c.Fail("C23", "refused", "recording %d events failed: %v", len(kinds), errs)
				return
			}
			if o.E&1 != 0 {
				coll.Collect(s.id, appdash.Annotation{Key: "_schema:other"}, appdash.Annotation{Key: "Other.Field", Value: []byte("1")}, appdash.Annotation{Key: "zzz"}, appdash.Annotation{Key: "A", Value: []byte("x")})
				if rt.Killed() {
					return
				}
			}
			s.sent, s.synced = true, p.G("path") == 0
			spans[i] = s
		case "h":
			as := evHostile(&r)
			coll.Collect(id, as...)
			if rt.Killed() {
				return
			}
			if p.G("path") == 0 {
				tr, err := store.Trace(id.Trace)
				if rt.Killed() || err != nil {
					return
				}
				evNoPanic(c, tr)
			}
		case "r":
			if i == 0 {
				return
			}
			if s := spans[int(uint64(o.A)%uint64(i))]; s != nil && s.synced {
				check(s, store, "while others are recorded")
			}
		}
	}
	Clients(c, anode, do)
	if rt.Killed() || c.Failed() {
		return
	}
	switch p.G("path") {
	case 1:
		for k := 0; k < 8; k++ {
			if ccs[k] != nil {
				if err := ccs[k].Flush(); err != nil {
					c.Fail("C23", "flush", "flush: %v", err)
				}
				ccs[k].Stop()
			}
		}
	}
	quietFor(func() { rt.Sleep(5 * sec) }) // automatic flushes in progress, data on its way
	where := "in the end"
	st := store
	if p.G("restore") == 1 {
		var buf strings.Builder
		if err := store.Write(&buf); err != nil {
			c.Fail("C23", "save", "%v", err)
			return
		}
		st = appdash.NewMemoryStore()
		if _, err := st.ReadFrom(strings.NewReader(buf.String())); err != nil {
			c.Fail("C23", "restore", "%v", err)
			return
		}
		where = "after the store was saved and restored"
	}
	for i, s := range spans {
		if s != nil && s.sent {
			check(s, st, where)
		} else if p.Ops[i].K == "h" {
			if tr, err := st.Trace(appdash.ID(100 + i)); err == nil {
				evNoPanic(c, tr)
			}
		}
		if c.Failed() {
			return
		}
	}
}

func yearOK(t time.Time) bool { return t.Year() > 1700 && t.Year() < 2200 }

// evHostile makes annotations that claim to be registered events.
func evHostile(r *rt.Rand) []appdash.Annotation {
	schemas := []string{"HTTPServer", "HTTPClient", "SQL", "log", "msg", "name", "timespan", "Timespan", "", "nope"}
	keys := []string{"Server.Request.Headers", "Server.Request.Headers.", "Server.Request.Headers.X", "Server.Request.ContentLength", "Server.Response.StatusCode", "Server.Recv", "Server.Send", "Server", "Server.", "Client.Send", "ClientSend", "ClientRecv", "SQL", "SQL.x", "Time", "Time.x", "Msg", "S", "E", "S.E", "Span.Start", "Span.End", "Span", "Name", "Name.1", "", ".", "..", "0"}
	vals := []string{"", "x", "-1", "99999999999999999999", "true", "2014-05-16T12:28:38Z", "2014-13-45T99:99:99Z", "0001-01-01T00:00:00Z", "\xff", "NaN", "1e999"}
	var as []appdash.Annotation
	for i := 1 + r.Intn(3); i > 0; i-- {
		as = append(as, appdash.Annotation{Key: "_schema:" + schemas[r.Intn(len(schemas))]})
	}
	for i := r.Intn(12); i > 0; i-- {
		as = append(as, appdash.Annotation{Key: keys[r.Intn(len(keys))], Value: []byte(vals[r.Intn(len(vals))])})
	}
	shuffle(r, len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	return as
}

// evNoPanic converts nonsense back: anything but a panic will do.
func evNoPanic(c *eng.C, tr *appdash.Trace) {
	defer func() {
		if rt.Killed() {
			return
		}
		if e := recover(); e != nil {
			c.Fail("C23", "panic", "converting the annotations %q back panics: %v", fmt.Sprint(tr.Annotations), e)
		}
	}()
	var evs []appdash.Event
	appdash.UnmarshalEvents(tr.Annotations, &evs)
	tr.TimespanEvent()
	c.Add("nonsense converted", 1)
}

func init() {
	sc := &eng.Scenario{Name: "events", Gen: genEvents, Run: runEvents}
	eng.Register(&eng.PropCfg{ID: "C23", Scen: []eng.Weighted{{S: sc, W: 1}}, Quick: 300000, Deep: 40000000, QuickSec: 40, DeepSec: 600, Level: "exploration",
		Real: []string{"event.go", "reflect.go", "recorder.go", "span.go", "trace.go TimespanEvent", "store.go MemoryStore", "collector.go", "httptrace and sqltrace event types", "encoding/gob"},
		Stub: []string{"network (simulated)", "goroutine scheduler, mutexes, clock (simulated)"}})
}
