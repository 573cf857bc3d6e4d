package smt

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver drives one SMT-LIB2 process.
type Solver struct {
	bin      []string
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	Queries  int
	SatN     int
	UnsatN   int
	UnknownN int
	Time     time.Duration
	MaxTime  time.Duration
	Timeout  int // ms
	cache    map[string]cached
	CacheHit int
	// OneShot resets the process before every query, so that the solver
	// preprocesses the whole query instead of working incrementally.
	OneShot bool
	// Hard takes the queries the incremental process gives up on.
	Hard  *Solver
	HardN int
	// Cross, when set, is consulted for every verdict and must agree.
	Cross    *Solver
	CrossN   int
	CrossBad int
}

type cached struct {
	r Result
	m Model
}

const easyMS = 200

func NewSolver(timeoutMS int, bin ...string) *Solver {
	if len(bin) == 0 {
		bin = []string{"z3", "-in"}
	}
	s := &Solver{bin: bin, Timeout: timeoutMS, cache: map[string]cached{}}
	if bin[0] == "z3" && timeoutMS > easyMS {
		hard := "z3-new"
		if _, err := exec.LookPath(hard); err != nil {
			hard = "z3"
		}
		s.Hard = &Solver{bin: []string{hard, "-in"}, Timeout: timeoutMS, OneShot: true}
		s.Timeout = easyMS
	}
	return s
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	if strings.Contains(s.bin[0], "cvc5") {
		fmt.Fprintf(s.in, "(set-logic ALL)\n(set-option :produce-models true)\n(set-option :tlimit-per %d)\n", s.Timeout)
	} else {
		fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-option :timeout %d)\n", s.Timeout)
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	if s.Cross != nil {
		s.Cross.Close()
	}
	if s.Hard != nil {
		s.Hard.Close()
	}
}

// Check decides the conjunction of cs. On Sat a model for the variables in cs
// is returned.
func (s *Solver) Check(cs []*Term) (Result, Model) {
	ids := make([]int, 0, len(cs))
	for _, c := range cs {
		if c.IsFalse() {
			return Unsat, nil
		}
		if c.IsTrue() {
			continue
		}
		ids = append(ids, c.ID)
	}
	if len(ids) == 0 {
		return Sat, Model{}
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, id := range ids {
		kb.WriteString(strconv.Itoa(id))
		kb.WriteByte(',')
	}
	k := kb.String()
	if c, ok := s.cache[k]; ok {
		s.CacheHit++
		return c.r, c.m
	}
	r, m := s.check(cs)
	if s.Cross != nil && r != Unknown {
		r2, _ := s.Cross.check(cs)
		s.CrossN++
		if r2 != Unknown && r2 != r {
			s.CrossBad++
			r, m = Unknown, nil
		}
	}
	s.cache[k] = cached{r, m}
	return r, m
}

func (s *Solver) check(cs []*Term) (Result, Model) {
	t0 := time.Now()
	r, m, err := s.query(cs)
	if err != nil {
		if dir := os.Getenv("VP_SLOW"); dir != "" {
			sc, _ := Script(cs)
			os.WriteFile(fmt.Sprintf("%s/e%d.smt2", dir, t0.UnixNano()), []byte("; "+err.Error()+"\n"+sc+"(check-sat)\n"), 0o644)
		}
		s.Close()
		r = Unknown
	}
	if r == Unknown && s.Hard != nil {
		s.HardN++
		r, m = s.Hard.check(cs)
	}
	d := time.Since(t0)
	if dir := os.Getenv("VP_SLOW"); dir != "" && d > 500*time.Millisecond {
		sc, _ := Script(cs)
		os.WriteFile(fmt.Sprintf("%s/q%d-%d.smt2", dir, t0.UnixNano(), d.Milliseconds()), []byte(sc+"(check-sat)\n"), 0o644)
	}
	s.Queries++
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	switch r {
	case Sat:
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnknownN++
	}
	return r, m
}

// Script renders the query as an SMT-LIB2 script.
func Script(cs []*Term) (string, []*Term) {
	var b strings.Builder
	p := &printer{b: &b, named: map[int]string{}, seen: map[int]int{}, ufs: map[string]bool{}}
	for _, c := range cs {
		p.count(c)
	}
	var vars []*Term
	for _, v := range p.vars {
		fmt.Fprintf(&b, "(declare-const |%s| %s)\n", v.Name, v.Sort)
		vars = append(vars, v)
	}
	for _, c := range cs {
		s := p.expr(c)
		fmt.Fprintf(&b, "(assert %s)\n", s)
	}
	return b.String(), vars
}

func (s *Solver) query(cs []*Term) (Result, Model, error) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil, err
		}
	}
	script, vars := Script(cs)
	pre := "(push 1)\n"
	if s.OneShot {
		pre = fmt.Sprintf("(reset)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.Timeout)
	}
	if _, err := io.WriteString(s.in, pre+script+"(check-sat)\n"); err != nil {
		return Unknown, nil, err
	}
	type lr struct {
		s   string
		err error
	}
	// Guard against a solver ignoring its own timeout.
	ch := make(chan lr, 1)
	go func() {
		l, err := s.out.ReadString('\n')
		ch <- lr{l, err}
	}()
	var line string
	select {
	case x := <-ch:
		if x.err != nil {
			return Unknown, nil, x.err
		}
		line = strings.TrimSpace(x.s)
	case <-time.After(time.Duration(s.Timeout)*time.Millisecond + 5*time.Second):
		s.cmd.Process.Kill()
		<-ch
		return Unknown, nil, fmt.Errorf("solver timeout")
	}
	var res Result
	var m Model
	switch line {
	case "sat":
		res = Sat
		m = Model{}
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(&q, "|%s| ", v.Name)
			}
			q.WriteString("))\n")
			if _, err := io.WriteString(s.in, q.String()); err != nil {
				return Unknown, nil, err
			}
			sx, err := readSexp(s.out)
			if err != nil {
				return Unknown, nil, err
			}
			if err := parseModel(sx, vars, m); err != nil {
				return Unknown, nil, err
			}
		}
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	if s.OneShot {
		return res, m, nil
	}
	if _, err := io.WriteString(s.in, "(pop 1)\n"); err != nil {
		return res, m, nil
	}
	return res, m, nil
}

// readSexp reads one balanced s-expression.
func readSexp(r *bufio.Reader) (string, error) {
	var b strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		b.WriteByte(c)
		if inBar {
			if c == '|' {
				inBar = false
			}
			continue
		}
		switch c {
		case '|':
			inBar = true
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				// consume rest of line
				r.ReadString('\n')
				return b.String(), nil
			}
		}
	}
}

type sexp struct {
	atom string
	list []sexp
}

func parseSexp(s string, i int) (sexp, int) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
		i++
	}
	if s[i] == '(' {
		i++
		var l []sexp
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
				i++
			}
			if s[i] == ')' {
				return sexp{list: l}, i + 1
			}
			var e sexp
			e, i = parseSexp(s, i)
			l = append(l, e)
		}
	}
	j := i
	if s[i] == '|' {
		j++
		for s[j] != '|' {
			j++
		}
		return sexp{atom: s[i+1 : j]}, j + 1
	}
	for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
		j++
	}
	return sexp{atom: s[i:j]}, j
}

func parseModel(s string, vars []*Term, m Model) error {
	if strings.Contains(s, "(error") {
		return fmt.Errorf("solver error: %s", s)
	}
	e, _ := parseSexp(s, 0)
	if len(e.list) != len(vars) {
		return fmt.Errorf("model size %d != %d", len(e.list), len(vars))
	}
	for i, p := range e.list {
		v, err := parseVal(p.list[1], vars[i].Sort)
		if err != nil {
			return err
		}
		m[vars[i].Name] = v
	}
	return nil
}

func parseVal(e sexp, s Sort) (uint64, error) {
	switch {
	case e.atom == "true":
		return 1, nil
	case e.atom == "false":
		return 0, nil
	case strings.HasPrefix(e.atom, "#x"):
		return strconv.ParseUint(e.atom[2:], 16, 64)
	case strings.HasPrefix(e.atom, "#b"):
		return strconv.ParseUint(e.atom[2:], 2, 64)
	case len(e.list) == 4 && e.list[0].atom == "fp":
		sg, err := parseVal(e.list[1], s)
		if err != nil {
			return 0, err
		}
		ex, err := parseVal(e.list[2], s)
		if err != nil {
			return 0, err
		}
		ma, err := parseVal(e.list[3], s)
		if err != nil {
			return 0, err
		}
		if s.W == 32 {
			return sg<<31 | ex<<23 | ma, nil
		}
		return sg<<63 | ex<<52 | ma, nil
	case len(e.list) >= 3 && e.list[0].atom == "_":
		switch e.list[1].atom {
		case "+zero":
			return 0, nil
		case "-zero":
			return fToBits(math.Copysign(0, -1), s.W), nil
		case "+oo":
			return fToBits(math.Inf(1), s.W), nil
		case "-oo":
			return fToBits(math.Inf(-1), s.W), nil
		case "NaN":
			return fToBits(math.NaN(), s.W), nil
		}
		if strings.HasPrefix(e.list[1].atom, "bv") {
			return strconv.ParseUint(e.list[1].atom[2:], 10, 64)
		}
	}
	return 0, fmt.Errorf("cannot parse value %+v", e)
}

type printer struct {
	b     *strings.Builder
	named map[int]string
	seen  map[int]int
	vars  []*Term
	ufs   map[string]bool
}

func (p *printer) count(t *Term) {
	p.seen[t.ID]++
	if p.seen[t.ID] > 1 {
		return
	}
	if t.Op == OpVar {
		p.vars = append(p.vars, t)
	}
	if t.Op == OpUF && !p.ufs[t.Name] {
		p.ufs[t.Name] = true
		fmt.Fprintf(p.b, "(declare-fun |%s| (", t.Name)
		for _, a := range t.Args {
			fmt.Fprintf(p.b, "%s ", a.Sort)
		}
		fmt.Fprintf(p.b, ") %s)\n", t.Sort)
	}
	for _, a := range t.Args {
		p.count(a)
	}
}

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpBVAdd: "bvadd", OpBVSub: "bvsub", OpBVMul: "bvmul", OpBVUDiv: "bvudiv", OpBVSDiv: "bvsdiv",
	OpBVURem: "bvurem", OpBVSRem: "bvsrem", OpBVAnd: "bvand", OpBVOr: "bvor", OpBVXor: "bvxor",
	OpBVNot: "bvnot", OpBVNeg: "bvneg", OpBVShl: "bvshl", OpBVLshr: "bvlshr", OpBVAshr: "bvashr",
	OpBVUlt: "bvult", OpBVUle: "bvule", OpBVSlt: "bvslt", OpBVSle: "bvsle",
	OpFAdd: "fp.add RNE", OpFSub: "fp.sub RNE", OpFMul: "fp.mul RNE", OpFDiv: "fp.div RNE",
	OpFNeg: "fp.neg", OpFAbs: "fp.abs", OpFSqrt: "fp.sqrt RNE",
	OpFEq: "fp.eq", OpFLt: "fp.lt", OpFLe: "fp.leq", OpFIsNaN: "fp.isNaN", OpFIsInf: "fp.isInfinite",
}

func fpParams(w int) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func (p *printer) expr(t *Term) string {
	if n, ok := p.named[t.ID]; ok {
		return n
	}
	s := p.expr0(t)
	if p.seen[t.ID] > 1 && len(t.Args) > 0 {
		n := fmt.Sprintf("$%d", t.ID)
		fmt.Fprintf(p.b, "(define-fun %s () %s %s)\n", n, t.Sort, s)
		p.named[t.ID] = n
		return n
	}
	return s
}

func (p *printer) expr0(t *Term) string {
	switch t.Op {
	case OpConst:
		switch t.Sort.K {
		case SBool:
			if t.Val == 1 {
				return "true"
			}
			return "false"
		case SBV:
			if t.Sort.W%4 == 0 {
				return fmt.Sprintf("#x%0*x", t.Sort.W/4, t.Val)
			}
			return fmt.Sprintf("#b%0*b", t.Sort.W, t.Val)
		default:
			f := t.Float()
			if f != f {
				return fmt.Sprintf("(_ NaN %s)", fpParams(t.Sort.W))
			}
			if t.Sort.W == 32 {
				return fmt.Sprintf("(fp #b%b #b%08b #b%023b)", t.Val>>31&1, t.Val>>23&0xff, t.Val&0x7fffff)
			}
			return fmt.Sprintf("(fp #b%b #b%011b #b%052b)", t.Val>>63&1, t.Val>>52&0x7ff, t.Val&(1<<52-1))
		}
	case OpVar:
		return "|" + t.Name + "|"
	}
	args := make([]string, len(t.Args))
	for i, a := range t.Args {
		args[i] = p.expr(a)
	}
	as := strings.Join(args, " ")
	switch t.Op {
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.Val)+t.Sort.W-1, t.Val, as)
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.Sort.W-t.Args[0].Sort.W, as)
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.Sort.W-t.Args[0].Sort.W, as)
	case OpFRound:
		return fmt.Sprintf("(fp.roundToIntegral %s %s)", []string{"RTN", "RTP", "RTZ", "RNA", "RNE"}[t.Val], as)
	case OpFToSBV:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.Sort.W, as)
	case OpFToUBV:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.Sort.W, as)
	case OpSBVToF:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpParams(t.Sort.W), as)
	case OpUBVToF:
		return fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpParams(t.Sort.W), as)
	case OpFToF:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpParams(t.Sort.W), as)
	case OpBVToFBits:
		return fmt.Sprintf("((_ to_fp %s) %s)", fpParams(t.Sort.W), as)
	case OpUF:
		if len(args) == 0 {
			return "|" + t.Name + "|"
		}
		return fmt.Sprintf("(|%s| %s)", t.Name, as)
	}
	return fmt.Sprintf("(%s %s)", opNames[t.Op], as)
}
