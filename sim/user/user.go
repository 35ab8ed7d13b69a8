// Package user touches data as the users of the code under test may. In race-detector builds it is the only harness
// package whose accesses the detector sees.
package user

import (
	"net/http"

	"sourcegraph.com/sourcegraph/appdash"
)

var sum int

// ReadAnns reads annotations.
func ReadAnns(as []appdash.Annotation) {
	n := 0
	for i := range as {
		n += len(as[i].Key)
		for _, b := range as[i].Value {
			n += int(b)
		}
	}
	use(n)
}

//go:norace
func use(n int) { sum += n }

// Scribble overwrites annotations that were handed over by value.
func Scribble(as []appdash.Annotation) {
	for i := range as {
		as[i] = appdash.Annotation{Key: "reused", Value: []byte("buffer")}
	}
}

// ReadTrace reads a trace.
func ReadTrace(t *appdash.Trace) { readTrace(t, 0) }

func readTrace(t *appdash.Trace, depth int) {
	if t == nil || depth > 200 {
		return
	}
	use(int(t.Span.ID.Trace + t.Span.ID.Span + t.Span.ID.Parent))
	ReadAnns(t.Annotations)
	for _, s := range t.Sub {
		readTrace(s, depth+1)
	}
}

// ReadRequest reads a request that was given to a RoundTripper.
func ReadRequest(r *http.Request) {
	n := len(r.Method) + len(r.Host) + int(r.ContentLength)
	for k, vs := range r.Header {
		n += len(k)
		for _, v := range vs {
			n += len(v)
		}
	}
	if r.URL != nil {
		n += len(r.URL.Path) + len(r.URL.RawQuery) + len(r.URL.Host)
	}
	use(n)
}

// ScribbleMap changes a map.
func ScribbleMap(m map[string]string) {
	for k := range m {
		m[k] = "changed"
	}
	m["more"] = "x"
}
