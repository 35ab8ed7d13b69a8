// Command instr builds the simulator against the working tree of the repository: it copies the packages under test
// to a build tree, instruments the copies and compiles the simulator with them.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"vsim/instr"
)

const mod = "sourcegraph.com/sourcegraph/appdash"

var (
	repo = flag.String("repo", "/repo", "repository")
	out  = flag.String("out", "", "build tree")
	sim  = flag.String("sim", "", "simulator module")
	race = flag.Bool("race", false, "build with the race detector")
	bt   = "github.com/opentracing/basictracer-go"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	var last error
	for lv := instr.Full; lv <= instr.NoYields; lv++ {
		if last = build(lv); last == nil {
			os.WriteFile(filepath.Join(*out, "level"), []byte(fmt.Sprint(int(lv))), 0644)
			return
		}
		fmt.Fprintf(os.Stderr, "instr: level %d: %v\n", lv, last)
	}
	die("cannot build the simulator against %s", *repo)
}

func copyTree(from, to string, keep func(rel string, dir bool) bool) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if fi.IsDir() {
			if rel != "." && !keep(rel, true) {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(to, rel), 0755)
		}
		if !fi.Mode().IsRegular() || !keep(rel, false) {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0644)
	})
}

func modFile(path string) string {
	b, err := os.ReadFile(filepath.Join(*repo, path))
	if err != nil {
		b, err = os.ReadFile("/opt/vp/mod/" + path)
		if err != nil {
			die("%v", err)
		}
	}
	return string(b)
}

func run(dir string, env []string, name string, args ...string) error {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	if err := c.Run(); err != nil {
		s := b.String()
		if len(s) > 1500 {
			s = s[:1500]
		}
		return fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, s)
	}
	return nil
}

// poolOverlay makes sync.Pool hand nothing on, so that the pools inside libraries order nobody.
func poolOverlay(B string) (string, error) {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", err
	}
	file := filepath.Join(strings.TrimSpace(string(out)), "src/sync/pool.go")
	b, err := os.ReadFile(file)
	if err != nil {
		return "", err
	}
	s := string(b)
	const put, get = "func (p *Pool) Put(x any) {\n", "func (p *Pool) Get() any {\n"
	if strings.Count(s, put) != 1 || strings.Count(s, get) != 1 {
		return "", fmt.Errorf("unexpected text of %s", file)
	}
	s = strings.Replace(s, put, put+"\tif race.Enabled {\n\t\treturn\n\t}\n", 1)
	s = strings.Replace(s, get, get+"\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n", 1)
	mine, ov := filepath.Join(B, "pool.go"), filepath.Join(B, "overlay.json")
	if err := os.WriteFile(mine, []byte(s), 0644); err != nil {
		return "", err
	}
	j, _ := json.Marshal(map[string]any{"Replace": map[string]string{file: mine}})
	return ov, os.WriteFile(ov, j, 0644)
}

func build(lv instr.Level) error {
	B := *out
	ad, btd, data := filepath.Join(B, "appdash"), filepath.Join(B, "basictracer"), filepath.Join(B, "appdash-data")
	for _, d := range []string{ad, btd, data} {
		os.RemoveAll(d)
	}
	if err := copyTree(*repo, ad, func(rel string, dir bool) bool {
		b := filepath.Base(rel)
		if dir {
			return !strings.HasPrefix(b, ".") && b != "examples" && b != "python" && b != "testdata"
		}
		return !strings.HasSuffix(b, "_test.go") && b != "go.mod" && b != "go.sum"
	}); err != nil {
		return err
	}
	os.MkdirAll(data, 0755)
	os.WriteFile(filepath.Join(data, "data.go"), []byte("package data\n\nimport \"net/http\"\n\n// Data stands for the static assets.\nvar Data http.FileSystem = http.Dir(\"/nonexistent\")\n"), 0644)
	os.WriteFile(filepath.Join(data, "go.mod"), []byte("module sourcegraph.com/sourcegraph/appdash-data\n\ngo 1.21\n"), 0644)
	gomod, gosum := modFile("go.mod"), modFile("go.sum")
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GO111MODULE=on", "GOFLAGS=-mod=mod")
	// the version of basictracer the repository uses
	ver := ""
	for _, l := range strings.Split(gomod, "\n") {
		f := strings.Fields(l)
		for i, x := range f {
			if x == bt && i+1 < len(f) {
				ver = f[i+1]
			}
		}
	}
	gp, err := exec.Command("go", "env", "GOMODCACHE").Output()
	if err != nil {
		return err
	}
	src := filepath.Join(strings.TrimSpace(string(gp)), bt+"@"+ver)
	if err := copyTree(src, btd, func(rel string, dir bool) bool {
		b := filepath.Base(rel)
		if dir {
			return b != "examples" && b != "tools"
		}
		return !strings.HasSuffix(b, "_test.go")
	}); err != nil {
		return err
	}
	// generics need go1.18; the loop variable semantics stay those before go1.22
	if b, err := os.ReadFile(filepath.Join(btd, "go.mod")); err == nil {
		ls := strings.Split(string(b), "\n")
		for i, l := range ls {
			if strings.HasPrefix(l, "go ") {
				ls[i] = "go 1.21"
			}
		}
		os.WriteFile(filepath.Join(btd, "go.mod"), []byte(strings.Join(ls, "\n")), 0644)
	}
	repl := fmt.Sprintf("\nrequire sourcegraph.com/sourcegraph/appdash-data v0.0.0\nreplace sourcegraph.com/sourcegraph/appdash-data => %s\nreplace %s => %s\n", data, bt, btd)
	vs := fmt.Sprintf("require vsim v0.0.0\nreplace vsim => %s\n", *sim)
	os.WriteFile(filepath.Join(ad, "go.mod"), []byte(gomod+repl+vs), 0644)
	os.WriteFile(filepath.Join(ad, "go.sum"), []byte(gosum), 0644)
	pkgs := []string{mod, mod + "/httptrace", mod + "/sqltrace", mod + "/opentracing", mod + "/traceapp", mod + "/cmd/appdash"}
	all, err := instr.List(ad, append(pkgs, bt), env)
	if err != nil {
		return err
	}
	tab, err := instr.LoadTable(filepath.Join(*sim, "rt"))
	if err != nil {
		return err
	}
	in := &instr.Instr{Table: tab, Level: lv}
	rel := func(f string) string {
		if strings.HasPrefix(f, ad+"/") {
			return f[len(ad)+1:]
		}
		return strings.TrimPrefix(f, B+"/")
	}
	web := true
	for _, n := range append([]string{bt}, pkgs...) {
		p := all[n]
		if p == nil || len(p.GoFiles) == 0 {
			return fmt.Errorf("package %s not found", n)
		}
		nn := ""
		if p.Name == "main" {
			nn = "appdashcmd"
		}
		if err := in.Package(p, all, nn, rel); err != nil {
			if strings.HasSuffix(n, "/traceapp") || strings.HasSuffix(n, "/cmd/appdash") {
				fmt.Fprintf(os.Stderr, "instr: %s: %v (web properties cannot be checked)\n", n, err)
				web = false
				continue
			}
			return fmt.Errorf("%s: %v", n, err)
		}
	}
	sb, _ := json.Marshal(in.Sites)
	os.WriteFile(filepath.Join(B, "sites.json"), sb, 0644)
	simmod, err := os.ReadFile(filepath.Join(*sim, "go.mod"))
	if err != nil {
		return err
	}
	req := ""
	for _, l := range strings.Split(gomod, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "module ") || strings.HasPrefix(t, "go ") {
			continue
		}
		req += l + "\n"
	}
	os.WriteFile(filepath.Join(B, "go.mod"), []byte(string(simmod)+req+repl+fmt.Sprintf("require %s v0.0.0\nreplace %s => %s\n", mod, mod, ad)), 0644)
	os.WriteFile(filepath.Join(B, "go.sum"), []byte(gosum), 0644)
	args := []string{"build", "-modfile=" + filepath.Join(B, "go.mod")}
	if *race {
		args = append(args, "-race")
		// the specialised allocation functions, which the packages compiled without instrumentation would call, do not
		// tell the detector that the memory is new
		env = append(env, "GOEXPERIMENT=nosizespecializedmalloc")
		for _, p := range []string{"rt", "scen", "eng", "cmd/simrun"} {
			args = append(args, "-gcflags=vsim/"+p+"=-race=false")
		}
		ov, err := poolOverlay(B)
		if err != nil {
			return err
		}
		args = append(args, "-overlay="+ov)
	}
	try := func(tags string) error {
		a := append([]string{}, args...)
		if tags != "" {
			a = append(a, "-tags", tags)
		}
		return run(*sim, env, "go", append(a, "-o", filepath.Join(B, "simrun"), "./cmd/simrun")...)
	}
	if web {
		if err := try("web"); err == nil {
			return nil
		} else {
			fmt.Fprintf(os.Stderr, "instr: with web: %v\n", err)
		}
	}
	return try("")
}
