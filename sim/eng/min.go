package eng

import (
	"fmt"
	"time"

	"vsim/rt"
)

// Minimise shrinks the plan and the decisions of a failing run while the same class of violation remains.
func Minimise(p *Plan, v Violation, budget time.Duration) (*Plan, []rt.Decision, string) {
	end := time.Now().Add(budget)
	tries := 0
	same := func(o *Outcome) bool {
		if o.Err != "" {
			return false
		}
		for _, x := range o.Viol {
			if x.Class == v.Class {
				return true
			}
		}
		return false
	}
	left := func() bool { return time.Now().Before(end) }
	run := func(q *Plan, d []rt.Decision) (*Outcome, bool) {
		tries++
		o := Exec(q, d, true, false)
		return o, same(o)
	}
	o := Exec(p, nil, false, false)
	if !same(o) {
		return p, nil, "the run does not fail again from its seed"
	}
	cur, dec := p, o.Res.Dec
	n0, d0 := len(p.Ops), len(dec)
	if _, ok := run(cur, dec); !ok {
		return p, nil, "the recorded decisions do not reproduce the run"
	}
	minDec := func() {
		if _, ok := run(cur, nil); ok {
			dec = nil
			return
		}
		// ddmin over the decisions
		n := 2
		for len(dec) > 0 && left() {
			sz := (len(dec) + n - 1) / n
			shrunk := false
			for i := 0; i < len(dec) && left(); i += sz {
				j := i + sz
				if j > len(dec) {
					j = len(dec)
				}
				cand := append(append([]rt.Decision(nil), dec[:i]...), dec[j:]...)
				if o, ok := run(cur, cand); ok {
					dec = cand
					if len(o.Res.Dec) < len(dec) {
						dec = o.Res.Dec
					}
					shrunk = true
					break
				}
			}
			if !shrunk {
				if sz == 1 {
					break
				}
				n *= 2
				if n > len(dec) {
					n = len(dec)
				}
			} else if n > 2 {
				n--
			}
		}
	}
	minOps := func() bool {
		changed := false
		sz := len(cur.Ops) / 2
		for sz >= 1 && left() {
			for i := 0; i < len(cur.Ops) && left(); {
				j := i + sz
				if j > len(cur.Ops) {
					j = len(cur.Ops)
				}
				q := cur.Clone()
				q.Ops = append(append([]Op(nil), cur.Ops[:i]...), cur.Ops[j:]...)
				ok := false
				var o *Outcome
				if o, ok = run(q, dec); ok {
					dec = o.Res.Dec
				} else {
					// another schedule may be needed: search a little
					for k := uint64(0); k < 12 && left(); k++ {
						q2 := q.Clone()
						q2.Seed = rt.Mix(p.Seed, 77, k)
						tries++
						if o := Exec(q2, nil, false, false); same(o) {
							ok = true
							q = q2
							dec = o.Res.Dec
							break
						}
					}
				}
				if ok {
					cur = q
					changed = true
				} else {
					i = j
				}
			}
			sz /= 2
		}
		return changed
	}
	minDec()
	for round := 0; round < 3 && left(); round++ {
		ch := minOps()
		minDec()
		if !ch {
			break
		}
	}
	// delays to zero
	for i := range cur.Ops {
		if !left() {
			break
		}
		if cur.Ops[i].D != 0 {
			q := cur.Clone()
			q.Ops[i].D = 0
			if o, ok := run(q, dec); ok {
				cur = q
				if len(o.Res.Dec) <= len(dec) {
					dec = o.Res.Dec
				}
			}
		}
	}
	return cur, dec, fmt.Sprintf("%d -> %d operations, %d -> %d decisions in %d runs", n0, len(cur.Ops), d0, len(dec), tries)
}
