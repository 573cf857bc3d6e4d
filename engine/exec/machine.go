package exec

import (
	"fmt"
	"go/types"
	"math/bits"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// Program is the loaded SSA program, shared between workers.
type Program struct {
	Prog      *ssa.Program
	Pkgs      map[string]*ssa.Package
	Eager     []*ssa.Package // initialised eagerly, in order
	Repo      string         // module path whose functions are reported
	ParseDump func(q string) (*ParseResult, error)
	Keywords  []string // SQL keywords of the lexer (upper case)
	mu        sync.Mutex
	built     map[*ssa.Package]bool
}

func (p *Program) ensureBuilt(pkg *ssa.Package) {
	if pkg == nil {
		return
	}
	p.mu.Lock()
	if !p.built[pkg] {
		p.built[pkg] = true
		pkg.Build()
	}
	p.mu.Unlock()
}

// Config bounds a run.
type Config struct {
	Workers    int
	MaxSteps   int // per path
	MaxPaths   int
	Deadline   time.Time
	SolverMS   int
	SolverBin  []string
	CrossBin   []string
	Tier       int // 0 quick, 1 thorough
	PermMax    int // map iteration orders: all permutations up to this size
	Preempt    int // max preemptive context switches (<0: unbounded)
	Seed       int64
	MaxViol    int
	StopOnViol bool
	Witness    int // how many completed paths to keep as native-validation witnesses
}

// Item is a path prefix waiting to be explored.
type item struct {
	prefix []int64
	model  smt.Model
}

// Input is one symbolic input of a path, for replay.
type Input struct {
	Name string
	Kind string // int, uint, bool, float, str, choose
	W    int
	t    *smt.Term
	s    Str
	c    int64
}

// Violation is a counterexample.
type Violation struct {
	Label   string
	Msg     string
	Inputs  map[string]any
	Sched   []int
	Trace   []string
	Known   string
	MapIter bool
	Race    bool
}

// Witness is a completed path with a model, to be re-run natively.
type Witness struct {
	Inputs  map[string]any
	Sched   []int
	Covers  []string
	Obs     []ObsVal // values observed (sym.Observe), evaluated under the model
	MapIter bool
	Known   bool   // inside the declared region of a known finding
	Why     string // of a cut path
}

type ObsVal struct {
	Label string
	Val   string
}

// Report is the outcome of exploring one harness.
type Report struct {
	Harness                string
	Paths                  int
	Completed              int
	Infeasible             int
	Aborted                map[string]int
	Asserts                int
	AssertDis              int // discharged by solver or folding
	Covers                 map[string]int
	Steps                  int64
	Queries                int
	CacheHits              int
	SatN, UnsatN, UnknownN int
	SolverTime             time.Duration
	MaxQuery               time.Duration
	CrossN, CrossBad       int
	Funcs                  map[string]int64
	Violations             []*Violation
	Known                  map[string]*Violation
	Witnesses              []*Witness
	Cut                    []*Witness // inputs of paths that could not be followed to their end
	Wall                   time.Duration
	Incomplete             string
	Forks                  map[string]int
	Unknowns               map[string]int
	Parses                 int
	MaxDepth               int
	Assumes                map[string]int
}

type undoRec struct {
	p  *Value
	v  Value
	fn func()
}

type abortKind int

const (
	abInfeasible abortKind = iota
	abUnsupported
	abBound
	abDone // normal end requested by sym.Stop
	abKilled
)

// pathAbort unwinds the interpreter.
type pathAbort struct {
	kind abortKind
	msg  string
}

// targetPanic is a Go panic in the interpreted program.
type targetPanic struct {
	v   Value // Iface
	msg string
}

type fnInfo struct {
	regs   map[ssa.Value]int
	n      int
	intr   intrinsic
	name   string
	report bool
	count  int64
	noBody bool
}

// Machine is one worker.
type Machine struct {
	P      *Program
	cfg    *Config
	ctx    *smt.Ctx
	solver *smt.Solver
	sh     *shared

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	initBad map[string]string
	fns     map[*ssa.Function]*fnInfo
	consts  map[*ssa.Const]Value
	methods map[methKey]*ssa.Function
	implC   map[implKey]bool
	undo    []undoRec
	logging bool
	inInit  int

	// per path
	prefix     []int64
	pos        int
	decs       []int64
	pc         []*smt.Term
	pcset      map[int]bool
	ev         *smt.Evaluator
	steps      int
	inputs     []*Input
	names      map[string]int
	covers     map[string]bool
	obs        []obsRec
	knowns     []knownRec
	locks      map[*Value]*lockState
	onces      map[*Value]bool
	depth      int
	mapIter    bool
	mapDir     map[*MapV]int
	trace      []string
	noTrack    int
	side       map[*Value]any // side tables for opaque receiver state
	uuidN      int
	nowN       int64
	freshN     int
	errText    bool // formatting the text of an error
	digits     map[*smt.Term]Str
	fbits      map[*smt.Term]*smt.Term
	parseTok   map[*Value]Str
	sched      *scheduler
	allowPanic string
	caller     *frame

	rep *Report
}

type obsRec struct {
	label string
	v     Value
	t     types.Type
}

type knownRec struct {
	id string
	c  *smt.Term
}

type methKey struct {
	t    types.Type
	name string
}
type implKey struct {
	t types.Type
	i types.Type
}

type shared struct {
	mu     sync.Mutex
	cond   *sync.Cond
	stack  []item
	active int
	stop   bool
	reason string
	paths  int
	viols  int
	seen   map[string]bool
}

func newMachine(p *Program, cfg *Config, sh *shared) *Machine {
	m := &Machine{P: p, cfg: cfg, sh: sh,
		ctx:     smt.NewCtx(),
		solver:  smt.NewSolver(cfg.SolverMS, cfg.SolverBin...),
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, initBad: map[string]string{},
		fns: map[*ssa.Function]*fnInfo{}, consts: map[*ssa.Const]Value{},
		methods: map[methKey]*ssa.Function{}, implC: map[implKey]bool{},
	}
	if len(cfg.CrossBin) > 0 {
		m.solver.Cross = smt.NewSolver(cfg.SolverMS, cfg.CrossBin...)
	}
	m.rep = newReport()
	m.resetPath(nil, nil)
	return m
}

func newReport() *Report {
	return &Report{Aborted: map[string]int{}, Covers: map[string]int{}, Funcs: map[string]int64{}, Known: map[string]*Violation{},
		Forks: map[string]int{}, Unknowns: map[string]int{}, Assumes: map[string]int{}}
}

func (m *Machine) resetPath(prefix []int64, model smt.Model) {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := m.undo[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.p = u.v
		}
	}
	m.undo = m.undo[:0]
	m.prefix, m.pos = prefix, 0
	m.decs = nil
	m.pc = nil
	m.pcset = map[int]bool{}
	if model == nil {
		model = smt.Model{}
	}
	m.ev = smt.NewEvaluator(model)
	m.steps = 0
	m.inputs = nil
	m.names = map[string]int{}
	m.covers = map[string]bool{}
	m.obs = nil
	m.knowns = nil
	m.locks = map[*Value]*lockState{}
	m.onces = map[*Value]bool{}
	m.depth = 0
	m.mapIter = false
	m.mapDir = nil
	m.trace = nil
	m.noTrack = 0
	m.side = map[*Value]any{}
	m.uuidN = 0
	m.nowN = 0
	m.freshN = 0
	m.errText = false
	m.digits = map[*smt.Term]Str{}
	m.fbits = map[*smt.Term]*smt.Term{}
	m.parseTok = map[*Value]Str{}
	m.sched = nil
	m.caller = nil
}

func (m *Machine) undoFn(f func()) { m.undo = append(m.undo, undoRec{fn: f}) }

func (m *Machine) unsupported(msg string) {
	panic(pathAbort{abUnsupported, msg})
}
func (m *Machine) bound(msg string) {
	panic(pathAbort{abBound, msg})
}

// rtPanic raises a run-time panic in the interpreted program.
func (m *Machine) rtPanic(msg string) {
	panic(targetPanic{v: m.rtErr(msg), msg: "runtime error: " + msg})
}

func (m *Machine) rtErr(msg string) Value {
	if rt := m.P.Pkgs["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			return Iface{t: t.Type(), v: conc(msg)}
		}
	}
	return Iface{t: types.Typ[types.String], v: conc("runtime error: " + msg)}
}

// ---- path decisions ----

func (m *Machine) addPC(t *smt.Term) {
	if t.IsTrue() || m.pcset[t.ID] {
		return
	}
	if t.Op == smt.OpAnd {
		m.addPC(t.Args[0])
		m.addPC(t.Args[1])
		return
	}
	m.pcset[t.ID] = true
	m.pc = append(m.pc, t)
}

// slice returns the path constraints transitively sharing variables with ts.
func (m *Machine) slice(ts ...*smt.Term) []*smt.Term {
	vars := map[int]bool{}
	for _, t := range ts {
		for _, v := range t.Vars() {
			vars[v.ID] = true
		}
	}
	out := append([]*smt.Term(nil), ts...)
	used := make([]bool, len(m.pc))
	for changed := true; changed; {
		changed = false
		for i, c := range m.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.Vars() {
				if vars[v.ID] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, c)
				for _, v := range c.Vars() {
					vars[v.ID] = true
				}
			}
		}
	}
	return out
}

// check decides pc ∧ t. On Sat a full model (merged with the current one).
func (m *Machine) check(t *smt.Term) (smt.Result, smt.Model) {
	if t.IsFalse() {
		return smt.Unsat, nil
	}
	if v, ok := m.ev.Eval(t); ok && v == 1 && m.modelOK() {
		return smt.Sat, m.ev.M
	}
	r, mod := m.solver.Check(m.slice(t))
	if r != smt.Sat {
		return r, nil
	}
	return r, m.merge(mod)
}

func (m *Machine) merge(mod smt.Model) smt.Model {
	nm := make(smt.Model, len(m.ev.M)+len(mod))
	for k, v := range m.ev.M {
		nm[k] = v
	}
	for k, v := range mod {
		nm[k] = v
	}
	return nm
}

// modelOK: the current model satisfies pc whenever we are past the prefix.
func (m *Machine) modelOK() bool { return m.pos >= len(m.prefix) && m.ev.M != nil }

func (m *Machine) setModel(mod smt.Model) { m.ev = smt.NewEvaluator(mod) }

func (m *Machine) push(prefix []int64, mod smt.Model) {
	m.sh.mu.Lock()
	m.sh.stack = append(m.sh.stack, item{prefix, mod})
	m.sh.mu.Unlock()
	m.sh.cond.Signal()
}

func (m *Machine) withDec(d int64) []int64 {
	p := make([]int64, len(m.decs)+1)
	copy(p, m.decs)
	p[len(m.decs)] = d
	return p
}

func (m *Machine) noSym(what string) {
	if m.inInit > 0 {
		panic(pathAbort{abUnsupported, "symbolic decision during package init: " + what})
	}
}

// branch decides a boolean, forking when both sides are feasible.
func (m *Machine) branch(c *smt.Term) bool {
	if c.IsConst() {
		return c.Val == 1
	}
	if m.pcset[c.ID] {
		return true
	}
	nc := m.ctx.Not(c)
	if m.pcset[nc.ID] {
		return false
	}
	m.noSym("branch")
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.decs = append(m.decs, d)
		if d == 1 {
			m.addPC(c)
		} else {
			m.addPC(nc)
		}
		return d == 1
	}
	v, ok := m.ev.Eval(c)
	if !ok {
		// contains uninterpreted functions: ask for a side
		r, mod := m.solver.Check(m.slice(c))
		if r == smt.Sat {
			m.setModel(m.merge(mod))
			v = 1
		} else if r == smt.Unsat {
			v = 0
		} else {
			m.rep.Unknowns["branch(uf)"]++
			m.bound("solver unknown on branch")
		}
	}
	side, other := c, nc
	d := int64(1)
	if v == 0 {
		side, other = nc, c
		d = 0
	}
	r, mod := m.solver.Check(m.slice(other))
	switch r {
	case smt.Sat:
		m.push(m.withDec(1-d), m.merge(mod))
		m.decs = append(m.decs, d)
		m.pos = len(m.prefix)
		m.forkAt()
	case smt.Unknown:
		m.rep.Unknowns[m.where()]++
		m.decs = append(m.decs, d)
	default:
		// only one side feasible: still record for deterministic replay
		m.decs = append(m.decs, d)
	}
	m.addPC(side)
	return d == 1
}

func (m *Machine) where() string {
	if m.caller != nil {
		return m.caller.fn.String()
	}
	return "?"
}

func (m *Machine) forkAt() {
	m.rep.Forks[m.where()]++
}

// choose makes an n-way nondeterministic choice (no constraint).
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	m.noSym("choose")
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.decs = append(m.decs, d)
		return int(d)
	}
	for i := n - 1; i >= 1; i-- {
		m.push(m.withDec(int64(i)), m.ev.M)
	}
	m.decs = append(m.decs, 0)
	return 0
}

// concretize forks over the feasible values of t, at most max of them.
func (m *Machine) concretize(t *smt.Term, max int) uint64 {
	for i := 0; ; i++ {
		if t.IsConst() {
			return t.Val
		}
		if i >= max {
			m.bound("concretisation bound")
		}
		m.noSym("concretize")
		var v uint64
		if m.pos < len(m.prefix) {
			v = uint64(m.prefix[m.pos])
			m.pos++
		} else {
			x, ok := m.ev.Eval(t)
			if !ok {
				m.unsupported("concretize uninterpreted")
			}
			v = x
		}
		m.decs = append(m.decs, int64(v))
		var k *smt.Term
		switch t.Sort.K {
		case smt.SBV:
			k = m.ctx.BVConst(v, t.Sort.W)
		case smt.SBool:
			k = m.ctx.Bool(v == 1)
		default:
			m.unsupported("concretize float")
		}
		if m.branch(m.ctx.Eq(t, k)) {
			return v
		}
	}
}

func (m *Machine) concInt(t *smt.Term) int64 {
	if t.IsConst() {
		return t.Int()
	}
	v := m.concretize(t, 64)
	return m.ctx.BVConst(v, t.Sort.W).Int()
}

// assume adds a constraint; infeasible paths end.
func (m *Machine) assume(c *smt.Term) {
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		panic(pathAbort{abInfeasible, ""})
	}
	if m.pos < len(m.prefix) {
		// The item's model satisfies everything on the prefix.
		m.addPC(c)
		return
	}
	if v, ok := m.ev.Eval(c); ok && v == 1 {
		m.addPC(c)
		return
	}
	r, mod := m.solver.Check(m.slice(c))
	switch r {
	case smt.Sat:
		m.addPC(c)
		m.setModel(m.merge(mod))
	case smt.Unsat:
		panic(pathAbort{abInfeasible, ""})
	default:
		m.rep.Unknowns["assume"]++
		m.bound("solver unknown on assume")
	}
}

// mustBe reports whether c is implied by the path condition.
func (m *Machine) mustBe(c *smt.Term) bool {
	if c.IsConst() {
		return c.Val == 1
	}
	r, _ := m.check(m.ctx.Not(c))
	return r == smt.Unsat
}

// assert checks c on the current path.
func (m *Machine) assert(c *smt.Term, label string) {
	m.rep.Asserts++
	if c.IsTrue() {
		m.rep.AssertDis++
		return
	}
	nc := m.ctx.Not(c)
	if m.pos < len(m.prefix) {
		// Already checked on the run that created this prefix: the assertion
		// was evaluated before the fork. Its truth was then assumed.
		m.rep.Asserts--
		m.addPC(c)
		return
	}
	r, mod := m.check(nc)
	switch r {
	case smt.Unsat:
		m.rep.AssertDis++
		m.addPC(c)
		return
	case smt.Unknown:
		m.rep.Unknowns["assert "+label]++
	case smt.Sat:
		m.violate(label, "assertion violated", mod, nc)
		// continue on the side where it holds
		if r2, mod2 := m.check(c); r2 == smt.Sat {
			m.addPC(c)
			m.setModel(mod2)
			return
		}
		panic(pathAbort{abDone, "violated"})
	}
	m.addPC(c)
}

// violate records a counterexample with model mod; extra is the negated
// assertion (used to separate known findings).
func (m *Machine) violate(label, msg string, mod smt.Model, extra *smt.Term) {
	// Is the violation confined to a declared known-finding region?
	kid := ""
	if len(m.knowns) > 0 {
		outside := extra
		for _, k := range m.knowns {
			outside = m.ctx.And(outside, m.ctx.Not(k.c))
		}
		r, mod2 := m.check(outside)
		if r == smt.Sat {
			mod = mod2
		} else {
			for _, k := range m.knowns {
				if r, mod3 := m.check(m.ctx.And(extra, k.c)); r == smt.Sat {
					kid, mod = k.id, mod3
					break
				}
			}
		}
	}
	v := &Violation{Label: label, Msg: msg, Inputs: m.inputVals(mod), Trace: append([]string(nil), m.trace...), Known: kid, MapIter: m.mapIter}
	if m.sched != nil {
		v.Sched = append([]int(nil), m.sched.log...)
	}
	if kid != "" {
		if m.rep.Known[kid] == nil {
			m.rep.Known[kid] = v
		}
		return
	}
	n := 0
	for _, x := range m.rep.Violations {
		if x.Label == label {
			n++
		}
	}
	if n < 3 && len(m.rep.Violations) < m.cfg.MaxViol {
		m.rep.Violations = append(m.rep.Violations, v)
	}
	m.sh.mu.Lock()
	m.sh.viols++
	if m.cfg.StopOnViol && m.sh.viols >= m.cfg.MaxViol {
		m.sh.stop = true
		if m.sh.reason == "" {
			m.sh.reason = "stopped after violations"
		}
	}
	m.sh.mu.Unlock()
}

func (m *Machine) inputVals(mod smt.Model) map[string]any {
	out := map[string]any{}
	ev := smt.NewEvaluator(mod)
	for _, in := range m.inputs {
		out[in.Name] = inputVal(m, ev, in)
	}
	return out
}

func inputVal(m *Machine, ev *smt.Evaluator, in *Input) any {
	switch in.Kind {
	case "choose":
		return in.c
	case "str":
		return evalStr(m, ev, in.s)
	case "bool":
		v, _ := ev.Eval(in.t)
		return v == 1
	case "float":
		v, _ := ev.Eval(in.t)
		return fmt.Sprintf("bits:%016x", v)
	case "uint":
		v, _ := ev.Eval(in.t)
		return fmt.Sprintf("%d", v)
	default:
		v, _ := ev.Eval(in.t)
		return fmt.Sprintf("%d", m.ctx.BVConst(v, in.W).Int())
	}
}

func evalStr(m *Machine, ev *smt.Evaluator, s Str) string {
	if s.b == nil {
		return s.s
	}
	buf := make([]byte, len(s.b))
	for i, t := range s.b {
		v, _ := ev.Eval(t)
		buf[i] = byte(v)
	}
	return string(buf)
}

// ---- driver ----

// Explore runs harness over all paths within cfg.
func Explore(p *Program, fn *ssa.Function, cfg *Config) *Report {
	t0 := time.Now()
	sh := &shared{seen: map[string]bool{}}
	sh.cond = sync.NewCond(&sh.mu)
	sh.stack = []item{{}}
	if cfg.Workers < 1 {
		cfg.Workers = 1
	}
	var wg sync.WaitGroup
	reps := make([]*Report, cfg.Workers)
	done := make(chan struct{})
	if !cfg.Deadline.IsZero() {
		go func() {
			select {
			case <-done:
			case <-time.After(time.Until(cfg.Deadline)):
				sh.mu.Lock()
				sh.stop = true
				sh.reason = "time budget"
				sh.mu.Unlock()
				sh.cond.Broadcast()
			}
		}()
	}
	for i := 0; i < cfg.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			reps[i] = worker(p, fn, cfg, sh, i)
		}(i)
	}
	wg.Wait()
	close(done)
	out := newReport()
	out.Harness = fn.Name()
	for _, r := range reps {
		if r == nil {
			continue
		}
		out.add(r)
	}
	out.Wall = time.Since(t0)
	if sh.stop {
		out.Incomplete = sh.reason
	}
	sort.Slice(out.Violations, func(i, j int) bool { return out.Violations[i].Label < out.Violations[j].Label })
	return out
}

func (o *Report) add(r *Report) {
	o.Paths += r.Paths
	o.Completed += r.Completed
	o.Infeasible += r.Infeasible
	o.Asserts += r.Asserts
	o.AssertDis += r.AssertDis
	o.Steps += r.Steps
	o.Queries += r.Queries
	o.CacheHits += r.CacheHits
	o.SatN += r.SatN
	o.UnsatN += r.UnsatN
	o.UnknownN += r.UnknownN
	o.SolverTime += r.SolverTime
	o.CrossN += r.CrossN
	o.CrossBad += r.CrossBad
	o.Parses += r.Parses
	if r.MaxQuery > o.MaxQuery {
		o.MaxQuery = r.MaxQuery
	}
	if r.MaxDepth > o.MaxDepth {
		o.MaxDepth = r.MaxDepth
	}
	for k, v := range r.Aborted {
		o.Aborted[k] += v
	}
	for k, v := range r.Covers {
		o.Covers[k] += v
	}
	for k, v := range r.Funcs {
		o.Funcs[k] += v
	}
	for k, v := range r.Forks {
		o.Forks[k] += v
	}
	for k, v := range r.Unknowns {
		o.Unknowns[k] += v
	}
	for k, v := range r.Assumes {
		o.Assumes[k] += v
	}
	o.Violations = append(o.Violations, r.Violations...)
	o.Witnesses = append(o.Witnesses, r.Witnesses...)
	o.Cut = append(o.Cut, r.Cut...)
	for k, v := range r.Known {
		if o.Known[k] == nil {
			o.Known[k] = v
		}
	}
}

func worker(p *Program, fn *ssa.Function, cfg *Config, sh *shared, id int) (rep *Report) {
	m := newMachine(p, cfg, sh)
	defer m.solver.Close()
	rep = m.rep
	defer func() {
		rep.Queries = m.solver.Queries
		rep.CacheHits = m.solver.CacheHit
		rep.SatN, rep.UnsatN, rep.UnknownN = m.solver.SatN, m.solver.UnsatN, m.solver.UnknownN
		rep.SolverTime = m.solver.Time
		rep.MaxQuery = m.solver.MaxTime
		rep.CrossN, rep.CrossBad = m.solver.CrossN, m.solver.CrossBad
		for f, info := range m.fns {
			if info.count > 0 && info.report {
				rep.Funcs[f.String()] += info.count
			}
		}
	}()
	inited := false
	for {
		sh.mu.Lock()
		for len(sh.stack) == 0 && sh.active > 0 && !sh.stop {
			sh.cond.Wait()
		}
		if sh.stop || len(sh.stack) == 0 {
			sh.mu.Unlock()
			sh.cond.Broadcast()
			return
		}
		it := sh.stack[len(sh.stack)-1]
		sh.stack = sh.stack[:len(sh.stack)-1]
		sh.active++
		sh.paths++
		if cfg.MaxPaths > 0 && sh.paths > cfg.MaxPaths {
			sh.stop = true
			sh.reason = "path budget"
			sh.active--
			sh.mu.Unlock()
			sh.cond.Broadcast()
			return
		}
		sh.mu.Unlock()
		if !inited {
			inited = true
			m.initAll()
		}
		if m.ctx.Size() > 3_000_000 {
			// Bound memory: start a fresh term context.
			old := m.solver
			n := newMachine(p, cfg, sh)
			n.rep = m.rep
			n.solver.Queries, n.solver.SatN, n.solver.UnsatN, n.solver.UnknownN, n.solver.Time, n.solver.MaxTime = old.Queries, old.SatN, old.UnsatN, old.UnknownN, old.Time, old.MaxTime
			n.solver.CacheHit, n.solver.CrossN, n.solver.CrossBad = old.CacheHit, old.CrossN, old.CrossBad
			for f, info := range m.fns {
				if info.count > 0 && info.report {
					m.rep.Funcs[f.String()] += info.count
				}
			}
			old.Close()
			m = n
			m.initAll()
		}
		m.runPath(fn, it)
		sh.mu.Lock()
		sh.active--
		sh.mu.Unlock()
		sh.cond.Broadcast()
	}
}

func (m *Machine) initAll() {
	for _, p := range m.P.Eager {
		m.ensureInit(p)
	}
}

func (m *Machine) runPath(fn *ssa.Function, it item) {
	m.resetPath(it.prefix, it.model)
	m.rep.Paths++
	m.logging = true
	defer func() {
		m.logging = false
		m.rep.Steps += int64(m.steps)
		if len(m.decs) > m.rep.MaxDepth {
			m.rep.MaxDepth = len(m.decs)
		}
	}()
	defer m.endSched()
	var out any
	func() {
		defer func() { out = recover() }()
		m.callFn(nil, fn, nil, nil)
	}()
	if m.sched != nil && m.sched.fail != nil && out == nil {
		out = m.sched.fail
	}
	switch x := out.(type) {
	case nil:
		m.complete()
	case pathAbort:
		switch x.kind {
		case abInfeasible:
			m.rep.Infeasible++
		case abUnsupported:
			m.rep.Aborted["unsupported: "+x.msg]++
			m.cut(x.msg)
		case abBound:
			m.rep.Aborted["bound: "+x.msg]++
			if x.msg == "step budget per path" || x.msg == "call depth" {
				m.violate("termination", x.msg+" at "+strings.Join(m.trace, " < "), m.ev.M, m.ctx.True())
			} else if x.msg != "stopped" {
				m.cut(x.msg)
			}
		case abDone:
			m.complete()
		}
	case targetPanic:
		m.violate("panic", "uncaught panic: "+x.msg+" at "+strings.Join(m.trace, " < "), m.ev.M, m.ctx.True())
		m.rep.Completed++
	default:
		m.rep.Aborted[fmt.Sprintf("internal: %v", x)]++
		if debugPanics {
			panic(x)
		}
	}
}

var debugPanics = false

// SetDebug makes internal errors fatal.
func SetDebug(b bool) { debugPanics = b }

// cut keeps the inputs of a path that could not be followed to its end, to be
// run natively.
func (m *Machine) cut(msg string) {
	if len(m.knowns) > 0 || m.sched != nil {
		return
	}
	n := 0
	for _, w := range m.rep.Cut {
		if w.Why == msg {
			n++
		}
	}
	if n < 12 && len(m.rep.Cut) < 60 {
		m.rep.Cut = append(m.rep.Cut, &Witness{Inputs: m.inputVals(m.ev.M), Why: msg})
	}
}

func (m *Machine) complete() {
	m.rep.Completed++
	for k := range m.covers {
		m.rep.Covers[k]++
	}
	if m.cfg.Witness > 0 {
		n := len(m.rep.Witnesses)
		keep := n < m.cfg.Witness
		// thin out: keep at power-of-two path counts as well
		if !keep && bits.OnesCount(uint(m.rep.Completed)) == 1 {
			keep = true
		}
		if keep {
			w := &Witness{Inputs: m.inputVals(m.ev.M), MapIter: m.mapIter, Known: len(m.knowns) > 0}
			if m.sched != nil {
				w.Sched = append([]int(nil), m.sched.log...)
			}
			for k := range m.covers {
				w.Covers = append(w.Covers, k)
			}
			sort.Strings(w.Covers)
			ev := smt.NewEvaluator(m.ev.M)
			for _, o := range m.obs {
				w.Obs = append(w.Obs, ObsVal{o.label, m.showUnder(ev, o.v)})
			}
			m.rep.Witnesses = append(m.rep.Witnesses, w)
		}
	}
}

// showUnder renders an observed value under a model.
func (m *Machine) showUnder(ev *smt.Evaluator, v Value) string {
	switch v := v.(type) {
	case Iface:
		if v.t == nil {
			return "<nil>"
		}
		switch x := v.v.(type) {
		case *smt.Term:
			b, ok := ev.Eval(x)
			if !ok {
				return "?"
			}
			switch x.Sort.K {
			case smt.SBool:
				return fmt.Sprint(b == 1)
			case smt.SFP:
				return fmt.Sprintf("%016x", b)
			}
			_, signed, _ := intInfo(v.t)
			if signed {
				return fmt.Sprint(m.ctx.BVConst(b, x.Sort.W).Int())
			}
			return fmt.Sprint(b)
		case Str:
			return fmt.Sprintf("%q", evalStr(m, ev, x))
		}
		return "?"
	}
	return "?"
}
