// vp decides one property: it loads the harnesses of the property and the code
// they call from the current tree, explores them symbolically, replays every
// counterexample natively and writes the evidence file.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/engine/exec"
)

var (
	verif   = flag.String("verif", "/verif", "verification tree")
	repo    = flag.String("repo", "/repo", "tree under check (informational)")
	prop    = flag.String("property", "", "property id")
	only    = flag.String("harness", "", "regexp of harness names")
	tier    = flag.String("tier", "quick", "quick or thorough")
	budget  = flag.Int("budget", 0, "seconds of exploration")
	workers = flag.Int("workers", 0, "parallel workers")
	debug   = flag.Bool("debug", false, "")
	noev    = flag.Bool("noevidence", false, "do not write evidence")
	cross   = flag.Bool("cross", false, "cross-check unsat answers with cvc5")
	verbose = flag.Bool("v", false, "")
)

type finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

const modPath = "github.com/cybergarage/go-sqlparser"

func load(dir string) (*exec.Program, *ssa.Package) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, "./props")
	if err != nil {
		die("load: %v", err)
	}
	if packages.PrintErrors(pkgs) > 0 {
		die("the harnesses do not compile against the current tree")
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &exec.Program{Prog: prog, Pkgs: map[string]*ssa.Package{}, Repo: modPath}
	for _, x := range prog.AllPackages() {
		p.Pkgs[x.Pkg.Path()] = x
	}
	exec.Prepare(p)
	// packages of the module and the harness are initialised eagerly in
	// dependency order
	seen := map[string]bool{}
	var visit func(q *packages.Package)
	visit = func(q *packages.Package) {
		if seen[q.PkgPath] {
			return
		}
		seen[q.PkgPath] = true
		var names []string
		for n := range q.Imports {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			visit(q.Imports[n])
		}
		if strings.HasPrefix(q.PkgPath, modPath) || strings.HasPrefix(q.PkgPath, "verif/harness") || strings.Contains(q.PkgPath, "go-safecast") {
			if !strings.HasSuffix(q.PkgPath, "sqlite/antlr") {
				p.Eager = append(p.Eager, p.Pkgs[q.PkgPath])
			}
		}
	}
	visit(pkgs[0])
	return p, ps[0]
}

func goBuild(dir, out, pkg string, extra ...string) error {
	args := append([]string{"build", "-o", out}, extra...)
	cmd := osexec.Command("go", append(args, pkg)...)
	cmd.Dir = dir
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("go build %s: %v\n%s", pkg, err, b)
	}
	return nil
}

type job struct {
	Harness string         `json:"harness"`
	Inputs  map[string]any `json:"inputs"`
	Sched   []int          `json:"sched,omitempty"`
	Tier    int            `json:"tier"`
	Words   []string       `json:"words,omitempty"`
	Repeat  int            `json:"repeat"`
	Until   string         `json:"until,omitempty"`
}

type outcome struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Panic  string   `json:"panic"`
	Covers []string `json:"covers"`
	Obs    []struct{ Label, Val string }
}

type replayer struct {
	dir   string // harness dir
	bdir  string
	bin   string
	race  string
	sched string
	words []string
	tier  int
}

func (r *replayer) run(bin string, js []job, limit time.Duration) ([]outcome, string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := osexec.CommandContext(ctx, bin)
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, j := range js {
		j.Words = r.words
		j.Tier = r.tier
		enc.Encode(j)
	}
	cmd.Stdin = &in
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66")
	err := cmd.Run()
	var os_ []outcome
	sc := bufio.NewScanner(&out)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		var o outcome
		if json.Unmarshal(sc.Bytes(), &o) == nil {
			os_ = append(os_, o)
		}
	}
	e := errb.String()
	if len(e) > 20000 {
		e = e[:20000]
	}
	return os_, e, err
}

// schedBuild builds the replay binary with package sync replaced by symsync in
// the files of the tree that import it.
func (r *replayer) schedBuild() (string, error) {
	if r.sched != "" {
		return r.sched, nil
	}
	ov := map[string]map[string]string{"Replace": {}}
	odir := filepath.Join(r.bdir, "overlay")
	os.MkdirAll(odir, 0o755)
	n := 0
	filepath.Walk(filepath.Join(*repo, "sql"), func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, _ := os.ReadFile(p)
		if !bytes.Contains(b, []byte("\"sync\"")) {
			return nil
		}
		nb := regexp.MustCompile(`(?m)^(\s*(?:import\s+)?)(\w+\s+)?"sync"`).ReplaceAllFunc(b, func(x []byte) []byte {
			if bytes.Contains(bytes.TrimSpace(x), []byte(" ")) && !bytes.HasPrefix(bytes.TrimSpace(x), []byte("import")) {
				return bytes.Replace(x, []byte(`"sync"`), []byte(`"verif/harness/symsync"`), 1)
			}
			return bytes.Replace(x, []byte(`"sync"`), []byte(`sync "verif/harness/symsync"`), 1)
		})
		f := filepath.Join(odir, strconv.Itoa(n)+".go")
		n++
		os.WriteFile(f, nb, 0o644)
		ov["Replace"][p] = f
		return nil
	})
	of := filepath.Join(r.bdir, "overlay.json")
	b, _ := json.Marshal(ov)
	os.WriteFile(of, b, 0o644)
	bin := filepath.Join(r.bdir, "replay-sched")
	if err := goBuild(r.dir, bin, "./cmd/replay", "-overlay", of); err != nil {
		return "", err
	}
	r.sched = bin
	return bin, nil
}

func (r *replayer) raceBuild() (string, error) {
	if r.race != "" {
		return r.race, nil
	}
	bin := filepath.Join(r.bdir, "replay-race")
	if err := goBuild(r.dir, bin, "./cmd/replay", "-race"); err != nil {
		return "", err
	}
	r.race = bin
	return bin, nil
}

// confirm replays a counterexample against the real code.
func (r *replayer) confirm(h string, v *exec.Violation) (bool, string, job) {
	j := job{Harness: h, Inputs: v.Inputs, Until: v.Label, Tier: r.tier}
	if v.MapIter {
		j.Repeat = 3000
	}
	if v.Race {
		bin, err := r.raceBuild()
		if err != nil {
			return false, err.Error(), j
		}
		j.Repeat = 300
		j.Until = "data-race"
		_, e, _ := r.run(bin, []job{j}, 120*time.Second)
		if strings.Contains(e, "DATA RACE") || strings.Contains(e, "concurrent map") {
			return true, firstLines(e, 30), j
		}
		return false, "race detector reported nothing", j
	}
	bin := r.bin
	if len(v.Sched) > 0 {
		b, err := r.schedBuild()
		if err != nil {
			return false, err.Error(), j
		}
		bin = b
		j.Sched = v.Sched
		j.Repeat = 0
	}
	limit := 120 * time.Second
	if v.Label == "termination" {
		limit = 20 * time.Second
	}
	o, e, err := r.run(bin, []job{j}, limit)
	if len(o) == 0 && v.Label == "termination" {
		return true, "the native run does not end: " + firstLines(e, 5), j
	}
	if len(o) == 0 {
		if err != nil && (strings.Contains(e, "panic:") || strings.Contains(e, "fatal error:")) {
			return true, "process died: " + firstLines(e, 12), j
		}
		return false, fmt.Sprintf("no outcome (%v) %s", err, firstLines(e, 5)), j
	}
	x := o[0]
	switch {
	case x.Status == "panic":
		return true, "panic: " + x.Panic, j
	case x.Status == "assert" && v.Label != "panic":
		return true, "assertion failed: " + x.Label, j
	}
	return false, "native run: " + x.Status + " " + x.Label, j
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func main() {
	flag.Parse()
	t0 := time.Now()
	exec.SetDebug(*debug)
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	if *workers == 0 {
		*workers = runtime.NumCPU()
		if *workers > 8 {
			*workers = 8
		}
	}
	tierN := 0
	if *tier == "thorough" {
		tierN = 1
	}
	if *budget == 0 {
		*budget = 300
		if tierN == 1 {
			*budget = 3600
		}
	}
	bdir, err := os.MkdirTemp("", "vp-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(bdir)
	exit := func(c int) { os.RemoveAll(bdir); os.Exit(c) }
	hdir := filepath.Join(*verif, "harness")

	// build helper and replay binaries from the current tree while loading
	rep := &replayer{dir: hdir, bdir: bdir, bin: filepath.Join(bdir, "replay"), tier: tierN}
	errc := make(chan error, 2)
	go func() { errc <- goBuild(hdir, filepath.Join(bdir, "parsehelper"), "./cmd/parsehelper") }()
	go func() { errc <- goBuild(hdir, rep.bin, "./cmd/replay") }()
	p, hp := load(hdir)
	for i := 0; i < 2; i++ {
		if err := <-errc; err != nil {
			os.RemoveAll(bdir)
			die("%v", err)
		}
	}
	pool, err := exec.NewParsePool(filepath.Join(bdir, "parsehelper"), *workers)
	if err != nil {
		die("parse helper: %v", err)
	}
	defer pool.Close()
	p.ParseDump = pool.Parse
	p.Keywords = pool.Keys
	rep.words = pool.Keys
	loadT := time.Since(t0)

	// harnesses
	var names []string
	for n, m := range hp.Members {
		if f, ok := m.(*ssa.Function); ok && len(f.Params) == 0 && strings.HasPrefix(n, *prop+"_") {
			if *only == "" || regexp.MustCompile(*only).MatchString(n) {
				if strings.HasSuffix(n, "_Thorough") && tierN == 0 {
					continue
				}
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		die("no harness for property %s", *prop)
	}

	var known []finding
	if b, err := os.ReadFile(filepath.Join(*verif, "known_findings.json")); err == nil {
		var kf struct{ Findings []finding }
		if err := json.Unmarshal(b, &kf); err != nil {
			die("known_findings.json: %v", err)
		}
		known = kf.Findings
	}
	isKnown := func(id string) *finding {
		for i := range known {
			if known[i].ID == id && known[i].Property == *prop && known[i].Status == "known" {
				return &known[i]
			}
		}
		return nil
	}

	evDir := filepath.Join(*verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	deadline := time.Now().Add(time.Duration(*budget) * time.Second)
	var reps []*exec.Report
	viol := 0
	var confirmedV []map[string]any
	var unconfirmed []string
	validated, mismatched, cutRun := 0, 0, 0
	var mismatches []string
	knownSeen := map[string]bool{}
	var samples []any
	for i, n := range names {
		left := time.Until(deadline)
		share := left / time.Duration(len(names)-i)
		if share < 5*time.Second {
			share = 5 * time.Second
		}
		// unused time is passed on; a harness may take up to three shares
		share *= 3
		if share > left && left > 5*time.Second {
			share = left
		}
		cfg := &exec.Config{Workers: *workers, MaxSteps: 5_000_000, Deadline: time.Now().Add(share), SolverMS: 20000,
			SolverBin: []string{"z3", "-in", "-smt2"}, PermMax: 3, Preempt: 3, Seed: seed, MaxViol: 6, StopOnViol: true, Witness: 2, Tier: tierN}
		if tierN == 1 {
			cfg.SolverMS = 60000
			cfg.PermMax = 4
			cfg.Preempt = 5
		}
		if *cross {
			cfg.CrossBin = []string{"cvc5", "--incremental", "--lang=smt2"}
		}
		perLabel := map[string]bool{}
		native := func(n string, v *exec.Violation, o outcome) {
			if v.Label == "" {
				v.Label = "panic"
			}
			if perLabel[v.Label] {
				return
			}
			perLabel[v.Label] = true
			viol++
			msg := "assertion failed: " + o.Label
			if o.Status == "panic" {
				msg = "panic: " + o.Panic
			}
			path := report(*prop, n, v, msg, evDir, viol, job{Harness: n, Inputs: v.Inputs})
			confirmedV = append(confirmedV, map[string]any{"harness": n, "label": v.Label, "inputs": v.Inputs, "native": msg, "replay": path})
		}
		r := exec.Explore(p, hp.Func(n), cfg)
		reps = append(reps, r)
		// native validation of completed paths
		var js []job
		for _, w := range r.Witnesses {
			if len(w.Sched) > 0 {
				continue
			}
			js = append(js, job{Harness: n, Inputs: w.Inputs})
		}
		if len(js) > 0 {
			os_, e, err := rep.run(rep.bin, js, 120*time.Second)
			if err != nil && len(os_) < len(js) {
				mismatches = append(mismatches, n+": native run died: "+firstLines(e, 6))
				mismatched++
			}
			k := 0
			for _, w := range r.Witnesses {
				if len(w.Sched) > 0 {
					continue
				}
				if k >= len(os_) {
					break
				}
				o := os_[k]
				k++
				bad := ""
				if (o.Status == "assert" || o.Status == "panic") && !w.Known {
					native(n, &exec.Violation{Label: o.Label, Msg: "assertion fails in the native run of a path's inputs", Inputs: w.Inputs}, o)
				}
				if o.Status != "ok" {
					bad = "native " + o.Status + " " + o.Label + o.Panic
				} else if !w.MapIter {
					for x, ob := range w.Obs {
						if x >= len(o.Obs) || (ob.Val != "?" && o.Obs[x].Val != "?" && (ob.Label != o.Obs[x].Label || ob.Val != o.Obs[x].Val)) {
							nv := "missing"
							if x < len(o.Obs) {
								nv = o.Obs[x].Label + "=" + o.Obs[x].Val
							}
							bad = "observed " + ob.Label + "=" + ob.Val + " natively " + nv
							break
						}
					}
				}
				if bad != "" {
					mismatched++
					if len(mismatches) < 10 {
						ib, _ := json.Marshal(w.Inputs)
						mismatches = append(mismatches, n+": "+bad+" inputs "+string(ib))
					}
				} else {
					validated++
				}
			}
		}
		js = nil
		for _, w := range r.Cut {
			js = append(js, job{Harness: n, Inputs: w.Inputs})
		}
		if len(js) > 0 {
			os_, _, _ := rep.run(rep.bin, js, 60*time.Second)
			for k, o := range os_ {
				cutRun++
				if k < len(r.Cut) && (o.Status == "assert" || o.Status == "panic") {
					native(n, &exec.Violation{Label: o.Label, Msg: "fails in the native run of a path that was cut off (" + r.Cut[k].Why + ")", Inputs: r.Cut[k].Inputs}, o)
				}
			}
		}
		for _, w := range r.Witnesses {
			if len(samples) < 12 && len(w.Inputs) > 0 {
				samples = append(samples, map[string]any{"harness": n, "inputs": w.Inputs})
				break
			}
		}
		// counterexamples
		for id, v := range r.Known {
			ok, msg, _ := rep.confirm(n, v)
			f := isKnown(id)
			if f == nil {
				if ok {
					v.Msg += " (finding " + id + " is not listed as known for this property)"
					viol++
					report(*prop, n, v, msg, evDir, viol, job{Harness: n, Inputs: v.Inputs, Sched: v.Sched})
				}
				continue
			}
			if ok && !knownSeen[id] {
				knownSeen[id] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *prop, id, f.What)
			}
		}
		for _, v := range r.Violations {
			if perLabel[v.Label] {
				continue
			}
			ok, msg, j := rep.confirm(n, v)
			if !ok {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s (%s): %s", n, v.Label, v.Msg, msg))
				if *verbose {
					ib, _ := json.Marshal(v.Inputs)
					fmt.Printf("unconfirmed %s %s %s: %s inputs=%s\n", n, v.Label, v.Msg, msg, ib)
				}
				continue
			}
			perLabel[v.Label] = true
			viol++
			path := report(*prop, n, v, msg, evDir, viol, j)
			confirmedV = append(confirmedV, map[string]any{"harness": n, "label": v.Label, "inputs": v.Inputs, "native": msg, "replay": path})
		}
		if *verbose {
			fmt.Printf("%-40s paths=%d done=%d infeas=%d asserts=%d/%d steps=%d queries=%d solver=%.1fs wall=%.1fs parses=%d viol=%d inc=%q\n", n, r.Paths, r.Completed, r.Infeasible, r.AssertDis, r.Asserts, r.Steps, r.Queries, r.SolverTime.Seconds(), r.Wall.Seconds(), r.Parses, len(r.Violations), r.Incomplete)
			for k, c := range r.Aborted {
				fmt.Printf("    aborted %d: %s\n", c, k)
			}
			for k, c := range r.Unknowns {
				fmt.Printf("    unknown %d: %s\n", c, k)
			}
			for _, c := range coverLabels(hp.Func(n)) {
				if r.Covers[c] == 0 {
					fmt.Printf("    NOT COVERED: %s\n", c)
				}
			}
		}
	}
	if *verbose {
		for _, s := range mismatches {
			fmt.Println("MISMATCH", s)
		}
		fmt.Printf("load %.1fs total %.1fs validated=%d mismatched=%d\n", loadT.Seconds(), time.Since(t0).Seconds(), validated, mismatched)
	}
	if !*noev {
		writeEvidence(evDir, reps, hp, t0, seed, viol, validated, mismatched, cutRun, mismatches, unconfirmed, confirmedV, samples, knownSeen, loadT)
	}
	pool.Close()
	if viol > 0 {
		exit(1)
	}
	exit(0)
}

func report(prop, h string, v *exec.Violation, msg, evDir string, n int, j job) string {
	path := filepath.Join(evDir, fmt.Sprintf("replay-%s-%d.json", prop, n))
	b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": h, "assertion": v.Label, "detail": v.Msg, "inputs": v.Inputs, "schedule": v.Sched, "native": msg, "job": j,
		"how": "feed the value of 'job' as one line to the replay binary: cd /verif/harness && go run ./cmd/replay"}, "", " ")
	os.WriteFile(path, b, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	fmt.Printf("  harness %s: %s: %s\n  native replay: %s\n", h, v.Label, v.Msg, firstLines(msg, 4))
	ib, _ := json.Marshal(v.Inputs)
	fmt.Printf("  inputs: %s\n", ib)
	return path
}

// coverLabels lists the labels of sym.Cover calls in a harness function.
func coverLabels(f *ssa.Function) []string {
	var out []string
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil {
						if g.String() == "verif/harness/sym.Cover" {
							if k, ok := c.Call.Args[0].(*ssa.Const); ok {
								out = append(out, strings.Trim(k.Value.ExactString(), `"`))
							}
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(f)
	sort.Strings(out)
	return out
}
