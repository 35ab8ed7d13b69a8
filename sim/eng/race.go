package eng

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"vsim/rt"
)

// The race detector writes its reports to the file RaceLog; they are attributed to the run during which they appear.
var (
	RaceLog  string
	raceOff  int64
	raceBase int
	// RaceOther counts the reports about accesses of the harness.
	RaceOther int64
	// RaceDebug prints them.
	RaceDebug bool
)

func raceStart() {
	if RaceLog == "" {
		return
	}
	raceBase = rt.RaceErrors()
	if fi, err := os.Stat(RaceLog); err == nil {
		raceOff = fi.Size()
	}
}

// raceReports returns the races of the run that are the business of the code under test.
func raceReports(skip [][2]int) []string {
	if RaceLog == "" || rt.RaceErrors() == raceBase {
		return nil
	}
	f, err := os.Open(RaceLog)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil {
		panic(err)
	}
	b := make([]byte, fi.Size()-raceOff)
	if _, err := f.ReadAt(b, raceOff); err != nil {
		panic(err)
	}
	var out []string
	seen := map[string]bool{}
	n := raceBase
	for _, r := range strings.Split(string(b), "WARNING: DATA RACE\n")[1:] {
		n++
		ok := true
		for _, s := range skip {
			ok = ok && !(n > s[0] && n <= s[1])
		}
		if !ok {
			continue
		}
		if m, own := raceMessage(r); own {
			if !seen[m] {
				if RaceDebug {
					fmt.Fprintln(os.Stderr, m, "\n", r)
				}
				seen[m] = true
				out = append(out, m)
			}
		} else {
			RaceOther++
		}
	}
	return out
}

type access struct {
	kind, owner, where string
}

func raceMessage(r string) (string, bool) {
	var acc []access
	lines := strings.Split(r, "\n")
	for i := 0; i < len(lines) && len(acc) < 2; i++ {
		l := strings.ToLower(lines[i])
		kind := ""
		for _, k := range []string{"write at", "read at"} {
			if strings.Contains(l, k) && strings.Contains(l, " by ") {
				kind = k[:len(k)-3]
			}
		}
		if kind == "" {
			continue
		}
		a := access{kind: kind}
		for j := i + 1; j+1 < len(lines) && strings.HasPrefix(lines[j], "  "); j += 2 {
			fn := strings.TrimSpace(lines[j])
			if o := frameOwner(fn); o != "" {
				a.owner = o
				a.where = fn + " at " + pos(lines[j+1])
				break
			}
		}
		acc = append(acc, a)
	}
	if len(acc) < 2 {
		return "unreadable race report: " + r, false
	}
	app, good := false, true
	for _, a := range acc {
		app = app || a.owner == "app"
		good = good && (a.owner == "app" || a.owner == "dep" || a.owner == "user")
	}
	m := fmt.Sprintf("unsynchronised accesses to the same memory: %s in %s, and %s in %s", acc[0].kind, acc[0].where, acc[1].kind, acc[1].where)
	return m, app && good
}

func pos(l string) string {
	l = strings.TrimSpace(l)
	if i := strings.Index(l, " +0x"); i >= 0 {
		l = l[:i]
	}
	// the line of the instrumented copy; the last yield point before it tells the original one
	if i := strings.LastIndexByte(l, ':'); i >= 0 {
		if n, err := strconv.Atoi(l[i+1:]); err == nil {
			if src, err := os.ReadFile(l[:i]); err == nil {
				ls := strings.Split(string(src), "\n")
				for k := n - 1; k >= 0 && k > n-8 && k < len(ls); k-- {
					if j := strings.Index(ls[k], "_rt.Y("); j >= 0 {
						var id int32
						if _, err := fmt.Sscanf(ls[k][j:], "_rt.Y(%d)", &id); err == nil {
							return siteName(id)
						}
					}
				}
			}
		}
	}
	if i := strings.LastIndex(l, "/appdash/"); i >= 0 {
		l = l[i+9:]
	}
	return l
}

// frameOwner tells whose frame it is; "" for libraries.
func frameOwner(fn string) string {
	switch {
	case strings.HasPrefix(fn, "sourcegraph.com/sourcegraph/appdash"):
		return "app"
	case strings.HasPrefix(fn, "github.com/opentracing/basictracer-go"):
		return "dep"
	case strings.HasPrefix(fn, "vsim/user."):
		return "user"
	case strings.HasPrefix(fn, "vsim/rt."):
		// what the simulator does to memory of its own does not count, what it does on behalf of the code does
		for _, p := range []string{"raceRead", "raceWrite", "Iter", "(*MapIter", "MapKeys", "Maps_", "Zero"} {
			if strings.HasPrefix(fn[len("vsim/rt."):], p) {
				return ""
			}
		}
		return "harness"
	case strings.HasPrefix(fn, "vsim/"), strings.HasPrefix(fn, "main."):
		return "harness"
	}
	return ""
}
