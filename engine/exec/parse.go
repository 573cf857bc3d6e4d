package exec

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"os/exec"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// The generated lexer and parser are table driven: their behaviour depends on
// each character only through the lexer's character classes, and the tree only
// on the token types. For a text with symbolic bytes the parse step
//   1. takes the text under the current model as representative,
//   2. runs the real lexer and parser (built from the tree under check) on it,
//   3. builds the condition under which every byte stays in the class that
//      gives the same token boundaries and types, and forks on it,
//   4. imports the tree with the symbolic text of each token.
// The other side of the fork is explored with another representative, so all
// token sequences the text can have are covered (bounded by MaxClasses).

type PTok struct {
	T int    `json:"t"`
	C int    `json:"c"`
	A int    `json:"a"`
	B int    `json:"b"`
	I int    `json:"i"`
	L int    `json:"l"`
	K int    `json:"k"`
	X string `json:"x"`
	N string `json:"n"`
}
type PField struct {
	F  string `json:"f"`
	N  int    `json:"n"`
	T  int    `json:"t"`
	Ns []int  `json:"ns"`
	Ts []int  `json:"ts"`
	K  string `json:"k"`
}
type PNode struct {
	K    string   `json:"k"`
	T    string   `json:"T"`
	P    int      `json:"p"`
	Inv  int      `json:"inv"`
	Rule int      `json:"rule"`
	S    int      `json:"s"`
	E    int      `json:"e"`
	Ch   []int    `json:"ch"`
	F    []PField `json:"fs"`
	Tok  int      `json:"tok"`
}
type PErr struct {
	L   int    `json:"l"`
	C   int    `json:"c"`
	Msg string `json:"m"`
	Tok int    `json:"tok"`
}

// ParseResult is a native parse.
type ParseResult struct {
	Panic  string   `json:"panic"`
	Tokens []PTok   `json:"tokens"`
	Nodes  []PNode  `json:"nodes"`
	Root   int      `json:"root"`
	LexE   []PErr   `json:"lexe"`
	ParE   []PErr   `json:"pare"`
	Keys   []string `json:"keys"`
}

// ParsePool runs helper processes.
type ParsePool struct {
	bin   string
	procs chan *parseProc
	mu    sync.Mutex
	cache map[string]*ParseResult
	Keys  []string
}

type parseProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startProc(bin string) (*parseProc, []string, error) {
	cmd := exec.Command(bin)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, nil, err
	}
	p := &parseProc{cmd, in, bufio.NewReaderSize(out, 1<<20)}
	r, err := p.read()
	if err != nil {
		return nil, nil, err
	}
	return p, r.Keys, nil
}

func (p *parseProc) read() (*ParseResult, error) {
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	var r ParseResult
	if err := json.Unmarshal(line, &r); err != nil {
		return nil, err
	}
	return &r, nil
}

// NewParsePool starts n helpers.
func NewParsePool(bin string, n int) (*ParsePool, error) {
	pp := &ParsePool{bin: bin, procs: make(chan *parseProc, n), cache: map[string]*ParseResult{}}
	for i := 0; i < n; i++ {
		p, keys, err := startProc(bin)
		if err != nil {
			return nil, err
		}
		pp.Keys = keys
		pp.procs <- p
	}
	return pp, nil
}

// Close ends the helpers.
func (pp *ParsePool) Close() {
	for len(pp.procs) > 0 {
		p := <-pp.procs
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
}

// Parse parses natively.
func (pp *ParsePool) Parse(q string) (*ParseResult, error) {
	pp.mu.Lock()
	if r := pp.cache[q]; r != nil {
		pp.mu.Unlock()
		return r, nil
	}
	pp.mu.Unlock()
	p := <-pp.procs
	b, _ := json.Marshal([]byte(q))
	p.in.Write(append(b, '\n'))
	r, err := p.read()
	if err != nil {
		p.cmd.Process.Kill()
		p.cmd.Wait()
		np, _, err2 := startProc(pp.bin)
		if err2 != nil {
			return nil, err2
		}
		pp.procs <- np
		// The helper died: a fatal error in the lexer or parser.
		return &ParseResult{Panic: "helper died: " + err.Error()}, nil
	}
	pp.procs <- p
	pp.mu.Lock()
	if len(pp.cache) < 20000 {
		pp.cache[q] = r
	}
	pp.mu.Unlock()
	return r, nil
}

const (
	antlrPkg   = "github.com/antlr4-go/antlr/v4"
	maxClasses = 2000
)

func genPkg(m *Machine) string { return m.P.Repo + "/sql/parser/sqlite/antlr" }

// allocT allocates a zero T and returns a pointer.
func (m *Machine) allocT(t types.Type) *Value {
	p := new(Value)
	*p = m.zero(t)
	return p
}

// setField sets a (possibly promoted through embedded struct) field by name.
func (m *Machine) setField(t types.Type, s Struct, name string, v Value) bool {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			s[i] = v
			return true
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				if m.setField(f.Type(), s[i].(Struct), name, v) {
					return true
				}
			}
		}
	}
	return false
}

func (m *Machine) getField(t types.Type, s Struct, name string) Value {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s[i]
		}
	}
	return nil
}

// recognizer allocates T{*Base{*BaseRecognizer}}.
func (m *Machine) recognizer(pkg, typ, base string) *Value {
	t := m.pkgType(pkg, typ)
	bt := m.pkgType(antlrPkg, base)
	rt := m.pkgType(antlrPkg, "BaseRecognizer")
	r := m.allocT(rt)
	b := m.allocT(bt)
	if !m.setField(bt, (*b).(Struct), "BaseRecognizer", r) {
		m.unsupported("antlr layout: " + base)
	}
	p := m.allocT(t)
	if !m.setField(t, (*p).(Struct), base, b) {
		m.unsupported("antlr layout: " + typ)
	}
	m.side[p] = recInfo{rec: r}
	return p
}

type recInfo struct {
	rec *Value
	src any
}

func (m *Machine) listeners(p *Value) []Value {
	ri := m.side[p].(recInfo)
	rt := m.pkgType(antlrPkg, "BaseRecognizer")
	l, _ := m.getField(rt, (*ri.rec).(Struct), "listeners").(Slice)
	return l
}

func (m *Machine) notify(p *Value, errs []PErr, toks []Value) {
	for _, e := range errs {
		for _, l := range m.listeners(p) {
			li := l.(Iface)
			if li.t == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			f := m.methodByName(li.t, "SyntaxError")
			if f == nil {
				m.unsupported("error listener without SyntaxError")
			}
			var sym Value = Iface{}
			if e.Tok >= 0 && toks != nil {
				sym = toks[e.Tok]
			}
			m.callFn(m.caller, f, []Value{copyVal(li.v), Iface{}, sym, m.ctx.Int(int64(e.L)), m.ctx.Int(int64(e.C)), conc(e.Msg), Iface{}}, nil)
		}
	}
}

// repOf chooses the representative of s; the choice is a recorded decision.
func (m *Machine) repOf(s Str) string {
	if s.b == nil {
		return s.s
	}
	n := len(s.b)
	buf := make([]byte, n)
	for i := 0; i < n; i += 7 {
		var d int64
		if m.pos < len(m.prefix) {
			d = m.prefix[m.pos]
			m.pos++
		} else {
			for k := 0; k < 7 && i+k < n; k++ {
				v, _ := m.ev.Eval(s.b[i+k])
				d |= int64(v) << (8 * k)
			}
		}
		m.decs = append(m.decs, d)
		for k := 0; k < 7 && i+k < n; k++ {
			buf[i+k] = byte(d >> (8 * k))
		}
	}
	return string(buf)
}

func isIdc(c byte) bool {
	return c == '_' || (c >= '0' && c <= '9') || (c|32 >= 'a' && c|32 <= 'z')
}

// classCond is the condition that text s lexes like rep.
func (m *Machine) classCond(s Str, rep string, r *ParseResult) *smt.Term {
	c := m.ctx
	cond := c.True()
	if s.b == nil {
		return cond
	}
	// rune index -> byte offset
	var off []int
	for i := 0; i < len(rep); {
		off = append(off, i)
		_, k := utf8.DecodeRuneInString(rep[i:])
		i += k
	}
	off = append(off, len(rep))
	covered := make([]bool, len(rep))
	add := func(t *smt.Term) { cond = c.And(cond, t) }
	exact := func(i int) {
		if !s.b[i].IsConst() {
			add(c.Eq(s.b[i], c.BVConst(uint64(rep[i]), 8)))
		}
	}
	for _, t := range r.Tokens {
		if t.T < 0 || t.A < 0 || t.B < t.A || t.B+1 >= len(off)+0 && t.B+1 > len(off)-1 {
			continue
		}
		lo, hi := off[t.A], off[t.B+1]
		anySym := false
		for i := lo; i < hi; i++ {
			covered[i] = true
			if !s.b[i].IsConst() {
				anySym = true
			}
		}
		if !anySym {
			continue
		}
		txt := rep[lo:hi]
		// directly adjacent characters that maximal munch could absorb
		glued := false
		if lo > 0 && (isIdc(rep[lo-1]) || strings.IndexByte(`.'"$?:@`+"`", rep[lo-1]) >= 0) && (isIdc(txt[0]) || txt[0] == '.') {
			glued = true
			// a qualified name a.b: the dot before an identifier is safe
			if rep[lo-1] == '.' && !(txt[0] >= '0' && txt[0] <= '9') && !(lo > 1 && rep[lo-2] >= '0' && rep[lo-2] <= '9') {
				glued = false
			}
			if rep[lo-1] == '\'' || rep[lo-1] == '"' || rep[lo-1] == '`' {
				// after a closed quote an identifier starts a new token
				glued = false
			}
		}
		if hi < len(rep) {
			nx := rep[hi]
			last := txt[len(txt)-1]
			if isIdc(last) && (isIdc(nx) || nx == '\'') {
				glued = true
			}
			if last >= '0' && last <= '9' && nx == '.' {
				glued = true
			}
		}
		up := strings.ToUpper(txt)
		allIdc := true
		for i := 0; i < len(txt); i++ {
			if !isIdc(txt[i]) {
				allIdc = false
			}
		}
		switch {
		case glued:
			for i := lo; i < hi; i++ {
				exact(i)
			}
		case t.N == "IDENTIFIER" && allIdc:
			for i := lo; i < hi; i++ {
				if !s.b[i].IsConst() {
					add(m.inClass(s.b[i], "ident", i == lo))
				}
			}
			add(m.notWord(s.sub(lo, hi), m.P.Keywords))
		case t.N == "IDENTIFIER" || t.N == "STRING_LITERAL":
			q := txt[0]
			cl := q
			if q == '[' {
				cl = ']'
			}
			exact(lo)
			exact(hi - 1)
			for i := lo + 1; i < hi-1; i++ {
				if s.b[i].IsConst() {
					continue
				}
				if rep[i] == cl {
					exact(i)
				} else {
					add(c.Not(c.Eq(s.b[i], c.BVConst(uint64(cl), 8))))
					add(c.BVCmp(smt.OpBVUlt, s.b[i], c.BVConst(0x80, 8)))
				}
			}
		case t.N == "NUMERIC_LITERAL" && !strings.ContainsAny(up, "X"):
			for i := lo; i < hi; i++ {
				if rep[i] >= '0' && rep[i] <= '9' {
					if !s.b[i].IsConst() {
						if i == lo && hi < len(rep) || true {
							add(m.isDigit(s.b[i]))
						}
					}
				} else {
					exact(i)
				}
			}
		case t.N == "NUMERIC_LITERAL" && len(txt) > 2 && up[1] == 'X':
			// the digits of 0x...
			for i := lo; i < hi; i++ {
				if i > lo+1 && rep[i] >= '0' && rep[i] <= '9' && !s.b[i].IsConst() {
					add(m.isDigit(s.b[i]))
				} else {
					exact(i)
				}
			}
		case t.N == "BLOB_LITERAL":
			exact(lo)
			exact(lo + 1)
			exact(hi - 1)
			for i := lo + 2; i < hi-1; i++ {
				if rep[i] == '\'' || s.b[i].IsConst() {
					exact(i)
				} else {
					add(c.Not(c.Eq(s.b[i], c.BVConst('\'', 8))))
					add(c.BVCmp(smt.OpBVUlt, s.b[i], c.BVConst(0x80, 8)))
				}
			}
		case t.N == "BIND_PARAMETER":
			exact(lo)
			for i := lo + 1; i < hi; i++ {
				if s.b[i].IsConst() {
					continue
				}
				switch {
				case rep[lo+1] >= '0' && rep[lo+1] <= '9' && rep[i] >= '0' && rep[i] <= '9':
					add(m.isDigit(s.b[i]))
				case isIdc(rep[i]):
					add(m.inClass(s.b[i], "ident", i == lo+1))
				default:
					exact(i)
				}
			}
		case t.N == "SPACES" && len(txt) == 1:
			sp := c.False()
			for _, ch := range []byte{' ', '\t', '\v', '\r', '\n'} {
				sp = c.Or(sp, c.Eq(s.b[lo], c.BVConst(uint64(ch), 8)))
			}
			add(sp)
		case allIdc && !(txt[0] >= '0' && txt[0] <= '9') && m.isKey(up):
			for i := lo; i < hi; i++ {
				if !s.b[i].IsConst() {
					add(c.Eq(m.toUpperB(s.b[i]), c.BVConst(uint64(up[i-lo]), 8)))
				}
			}
		default:
			for i := lo; i < hi; i++ {
				exact(i)
			}
		}
	}
	for i := range rep {
		if i < len(covered) && !covered[i] {
			exact(i)
		}
	}
	for i := 0; i < len(rep); i++ {
		if !covered[i] {
			exact(i)
		}
	}
	return cond
}

func (m *Machine) isKey(up string) bool {
	for _, k := range m.P.Keywords {
		if k == up {
			return true
		}
	}
	return false
}

// importTree builds the tree in the interpreter's heap.
func (m *Machine) importTree(r *ParseResult, s Str, rep string) (root Value, toks []Value) {
	gp := genPkg(m)
	ct := m.pkgType(antlrPkg, "CommonToken")
	ctp := m.ptrTo(ct)
	var off []int
	for i := 0; i < len(rep); {
		off = append(off, i)
		_, k := utf8.DecodeRuneInString(rep[i:])
		i += k
	}
	off = append(off, len(rep))
	toks = make([]Value, len(r.Tokens))
	for i, t := range r.Tokens {
		p := m.allocT(ct)
		st := (*p).(Struct)
		txt := conc(t.X)
		if t.T >= 0 && t.A >= 0 && t.B >= t.A && t.B+1 < len(off) {
			txt = s.sub(off[t.A], off[t.B+1])
		}
		for _, f := range []struct {
			n string
			v int
		}{{"tokenType", t.T}, {"channel", t.C}, {"start", t.A}, {"stop", t.B}, {"tokenIndex", t.I}, {"line", t.L}, {"column", t.K}} {
			if !m.setField(ct, st, f.n, m.ctx.Int(int64(f.v))) {
				m.unsupported("antlr token layout")
			}
		}
		m.setField(ct, st, "text", txt)
		toks[i] = Iface{ctp, p}
	}
	tok := func(i int) Value {
		if i < 0 {
			return Iface{}
		}
		return toks[i]
	}
	tt := m.pkgType(antlrPkg, "TerminalNodeImpl")
	et := m.pkgType(antlrPkg, "ErrorNodeImpl")
	nodes := make([]Iface, len(r.Nodes))
	typs := make([]types.Type, len(r.Nodes))
	for i, n := range r.Nodes {
		switch n.K {
		case "ctx":
			t := m.pkgType(gp, n.T)
			typs[i] = t
			nodes[i] = Iface{m.ptrTo(t), m.allocT(t)}
		case "term":
			typs[i] = tt
			nodes[i] = Iface{m.ptrTo(tt), m.allocT(tt)}
		case "err":
			p := m.allocT(et)
			in := m.allocT(tt)
			m.setField(et, (*p).(Struct), "TerminalNodeImpl", in)
			typs[i] = et
			nodes[i] = Iface{m.ptrTo(et), p}
		}
	}
	node := func(i int) Value {
		if i < 0 {
			return Iface{}
		}
		return nodes[i]
	}
	for i, n := range r.Nodes {
		p := nodes[i].v.(*Value)
		st := (*p).(Struct)
		switch n.K {
		case "term", "err":
			if n.K == "err" {
				in := m.getField(et, st, "TerminalNodeImpl").(*Value)
				st = (*in).(Struct)
			}
			m.setField(tt, st, "parentCtx", node(n.P))
			m.setField(tt, st, "symbol", tok(n.Tok))
		case "ctx":
			t := typs[i]
			m.setField(t, st, "parentCtx", node(n.P))
			m.setField(t, st, "invokingState", m.ctx.Int(int64(n.Inv)))
			m.setField(t, st, "RuleIndex", m.ctx.Int(int64(n.Rule)))
			m.setField(t, st, "start", tok(n.S))
			m.setField(t, st, "stop", tok(n.E))
			ch := make(Slice, len(n.Ch))
			for k, c := range n.Ch {
				ch[k] = node(c)
			}
			if len(ch) == 0 {
				ch = nil
			}
			m.setField(t, st, "children", ch)
			for _, f := range n.F {
				var v Value
				switch f.K {
				case "t":
					v = tok(f.T)
				case "n":
					v = node(f.N)
				case "ns":
					sl := make(Slice, len(f.Ns))
					for k, c := range f.Ns {
						sl[k] = node(c)
					}
					v = sl
				case "ts":
					sl := make(Slice, len(f.Ts))
					for k, c := range f.Ts {
						sl[k] = tok(c)
					}
					v = sl
				}
				if !m.setField(t, st, f.F, v) {
					m.unsupported("parse tree field " + n.T + "." + f.F)
				}
			}
		}
	}
	return nodes[r.Root], toks
}

func (m *Machine) nativeParse(rep string) *ParseResult {
	m.rep.Parses++
	r, err := m.P.ParseDump(rep)
	if err != nil {
		m.unsupported("native parse: " + err.Error())
	}
	return r
}

// registerParse adds the ANTLR entry points; names depend on the module path.
func registerParse(repo string) {
	I := intrinsics
	gp := repo + "/sql/parser/sqlite/antlr"
	ptr := func(m *Machine, v Value) *Value {
		if i, ok := v.(Iface); ok {
			v = i.v
		}
		p, ok := v.(*Value)
		if !ok || p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p
	}
	I[antlrPkg+".NewInputStream"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		p := m.allocT(m.pkgType(antlrPkg, "InputStream"))
		m.side[p] = a[0].(Str)
		return p, true
	}
	I[gp+".NewSQLiteLexer"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		p := m.recognizer(gp, "SQLiteLexer", "BaseLexer")
		ri := m.side[p].(recInfo)
		s, ok := m.side[ptr(m, a[0])].(Str)
		if !ok {
			m.unsupported("lexer over an unknown character stream")
		}
		ri.src = s
		m.side[p] = ri
		return p, true
	}
	I[antlrPkg+".NewCommonTokenStream"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if ch := a[1].(*smt.Term); !ch.IsConst() || ch.Int() != 0 {
			m.unsupported("token stream channel")
		}
		p := m.allocT(m.pkgType(antlrPkg, "CommonTokenStream"))
		lex := ptr(m, a[0])
		if _, ok := m.side[lex].(recInfo); !ok {
			m.unsupported("token stream over an unknown lexer")
		}
		m.side[p] = lex
		return p, true
	}
	I[gp+".NewSQLiteParser"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		p := m.recognizer(gp, "SQLiteParser", "BaseParser")
		ri := m.side[p].(recInfo)
		lex, ok := m.side[ptr(m, a[0])].(*Value)
		if !ok {
			m.unsupported("parser over an unknown token stream")
		}
		ri.src = lex
		m.side[p] = ri
		return p, true
	}
	I["(*"+gp+".SQLiteParser).Parse"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		p := ptr(m, a[0])
		ri, ok := m.side[p].(recInfo)
		if !ok {
			m.unsupported("parse on an unknown parser")
		}
		lex := ri.src.(*Value)
		s := m.side[lex].(recInfo).src.(Str)
		for k := 0; ; k++ {
			if k >= maxClasses {
				m.bound("number of token classes of one text")
			}
			rep := m.repOf(s)
			r := m.nativeParse(rep)
			if r.Panic != "" {
				panic(targetPanic{msg: "lexer/parser: " + r.Panic, v: conc(r.Panic)})
			}
			if !m.branch(m.classCond(s, rep, r)) {
				continue
			}
			root, toks := m.importTree(r, s, rep)
			m.notify(lex, r.LexE, nil)
			m.notify(p, r.ParE, toks)
			return root, true
		}
	}
}

var registered = map[string]bool{}

// Prepare registers intrinsics that depend on the program.
func Prepare(p *Program) {
	if !registered[p.Repo] {
		registered[p.Repo] = true
		registerParse(p.Repo)
	}
	if p.built == nil {
		p.built = map[*ssa.Package]bool{}
	}
	_ = fmt.Sprint
}
