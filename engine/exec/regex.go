package exec

import (
	"regexp"
	"regexp/syntax"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// Symbolic regexp matching over ASCII text of concrete length: the compiled
// NFA is unrolled over the positions; each state's reachability is a term.

func (m *Machine) reOf(v Value) *regexp.Regexp {
	p, ok := v.(*Value)
	if !ok || p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	o, ok := (*p).(*Opaque)
	if !ok || o.kind != "regexp" {
		m.unsupported("regexp value")
	}
	return o.data.(*regexp.Regexp)
}

func (m *Machine) reMatch(re *regexp.Regexp, s Str) *smt.Term {
	if s.b == nil {
		return m.ctx.Bool(re.MatchString(s.s))
	}
	m.needASCII(s)
	c := m.ctx
	ast, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		m.unsupported("regexp syntax")
	}
	prog, err := syntax.Compile(ast.Simplify())
	if err != nil {
		m.unsupported("regexp compile")
	}
	n := s.Len()
	isWord := func(b *smt.Term) *smt.Term { return m.inClass(b, "ident", false) }
	emptyOK := func(op syntax.EmptyOp, p int) *smt.Term {
		r := c.True()
		at := func(i int) *smt.Term {
			if i < 0 || i >= n {
				return c.False()
			}
			return isWord(m.at(s, i))
		}
		nl := func(i int) *smt.Term { return c.Eq(m.at(s, i), c.BVConst('\n', 8)) }
		if op&syntax.EmptyBeginText != 0 {
			r = c.And(r, c.Bool(p == 0))
		}
		if op&syntax.EmptyEndText != 0 {
			r = c.And(r, c.Bool(p == n))
		}
		if op&syntax.EmptyBeginLine != 0 && p != 0 {
			r = c.And(r, nl(p-1))
		}
		if op&syntax.EmptyEndLine != 0 && p != n {
			r = c.And(r, nl(p))
		}
		if op&syntax.EmptyWordBoundary != 0 {
			r = c.And(r, c.Not(c.Eq(at(p-1), at(p))))
		}
		if op&syntax.EmptyNoWordBoundary != 0 {
			r = c.And(r, c.Eq(at(p-1), at(p)))
		}
		return r
	}
	cur := make([]*smt.Term, len(prog.Inst))
	matched := c.False()
	for p := 0; p <= n; p++ {
		for i := range cur {
			if cur[i] == nil {
				cur[i] = c.False()
			}
		}
		cur[prog.Start] = c.True() // unanchored start at each position
		// epsilon closure to a fixpoint
		for changed := true; changed; {
			changed = false
			add := func(to uint32, t *smt.Term) {
				nt := c.Or(cur[to], t)
				if nt != cur[to] {
					cur[to] = nt
					changed = true
				}
			}
			for i := range prog.Inst {
				if cur[i].IsFalse() {
					continue
				}
				in := &prog.Inst[i]
				switch in.Op {
				case syntax.InstAlt, syntax.InstAltMatch:
					add(in.Out, cur[i])
					add(in.Arg, cur[i])
				case syntax.InstCapture, syntax.InstNop:
					add(in.Out, cur[i])
				case syntax.InstEmptyWidth:
					add(in.Out, c.And(cur[i], emptyOK(syntax.EmptyOp(in.Arg), p)))
				}
			}
			if c.Size() > 2_000_000 {
				m.bound("regexp closure")
			}
		}
		for i := range prog.Inst {
			if prog.Inst[i].Op == syntax.InstMatch {
				matched = c.Or(matched, cur[i])
			}
		}
		if p == n {
			break
		}
		next := make([]*smt.Term, len(prog.Inst))
		b := m.at(s, p)
		for i := range prog.Inst {
			in := &prog.Inst[i]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			default:
				continue
			}
			if cur[i].IsFalse() {
				continue
			}
			ok := c.False()
			for v := 0; v < 0x80; v++ {
				if in.MatchRune(rune(v)) {
					lo := v
					for v+1 < 0x80 && in.MatchRune(rune(v+1)) {
						v++
					}
					ok = c.Or(ok, c.And(c.BVCmp(smt.OpBVUle, c.BVConst(uint64(lo), 8), b), c.BVCmp(smt.OpBVUle, b, c.BVConst(uint64(v), 8))))
				}
			}
			t := c.And(cur[i], ok)
			if next[in.Out] == nil {
				next[in.Out] = t
			} else {
				next[in.Out] = c.Or(next[in.Out], t)
			}
		}
		cur = next
	}
	return matched
}

func init() {
	I := intrinsics
	comp := func(must bool) intrinsic {
		return func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			s := a[0].(Str)
			if s.b != nil {
				m.unsupported("symbolic regular expression")
			}
			re, err := regexp.Compile(s.s)
			if err != nil {
				if must {
					m.rtPanic("regexp: Compile: " + err.Error())
				}
				return Tuple{(*Value)(nil), m.newErr(conc(err.Error()))}, true
			}
			p := new(Value)
			*p = &Opaque{kind: "regexp", data: re}
			if must {
				return p, true
			}
			return Tuple{p, Iface{}}, true
		}
	}
	I["regexp.MustCompile"] = comp(true)
	I["regexp.Compile"] = comp(false)
	I["(*regexp.Regexp).MatchString"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return m.reMatch(m.reOf(a[0]), a[1].(Str)), true
	}
	I["regexp.MatchString"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[0].(Str)
		if s.b != nil {
			m.unsupported("symbolic regular expression")
		}
		re, err := regexp.Compile(s.s)
		if err != nil {
			return Tuple{m.ctx.False(), m.newErr(conc(err.Error()))}, true
		}
		return Tuple{m.reMatch(re, a[1].(Str)), Iface{}}, true
	}
	strs := func(ss []string) Value {
		if ss == nil {
			return Slice(nil)
		}
		out := make(Slice, len(ss))
		for i, s := range ss {
			out[i] = conc(s)
		}
		return out
	}
	// Match positions depend only on which character class of the expression
	// each byte is in: fork on the classes and cut the symbolic text.
	I["(*regexp.Regexp).FindStringSubmatch"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[1].(Str)
		re := m.reOf(a[0])
		if s.b == nil {
			return strs(re.FindStringSubmatch(s.s)), true
		}
		ix := re.FindStringSubmatchIndex(m.classRep(re, s))
		if ix == nil {
			return Slice(nil), true
		}
		out := make(Slice, len(ix)/2)
		for i := range out {
			if ix[2*i] >= 0 {
				out[i] = s.sub(ix[2*i], ix[2*i+1])
			} else {
				out[i] = Str{}
			}
		}
		return out, true
	}
	I["(*regexp.Regexp).FindString"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[1].(Str)
		re := m.reOf(a[0])
		if s.b == nil {
			return conc(re.FindString(s.s)), true
		}
		ix := re.FindStringIndex(m.classRep(re, s))
		if ix == nil {
			return Str{}, true
		}
		return s.sub(ix[0], ix[1]), true
	}
	I["(*regexp.Regexp).ReplaceAllString"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return conc(m.reOf(a[0]).ReplaceAllString(m.concStr(a[1].(Str)), m.concStr(a[2].(Str)))), true
	}
	I["(*regexp.Regexp).String"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return conc(m.reOf(a[0]).String()), true
	}
}

// concStr forks until s is concrete.
func (m *Machine) concStr(s Str) string {
	if s.b == nil {
		return s.s
	}
	buf := make([]byte, len(s.b))
	for i, t := range s.b {
		buf[i] = byte(m.concretize(t, 128))
	}
	return string(buf)
}

// classRep forks each byte into one class of the alphabet partition induced by
// the expression and returns a representative text.
func (m *Machine) classRep(re *regexp.Regexp, s Str) string {
	m.needASCII(s)
	ast, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		m.unsupported("regexp syntax")
	}
	prog, err := syntax.Compile(ast.Simplify())
	if err != nil {
		m.unsupported("regexp compile")
	}
	sig := func(v int) string {
		var b []byte
		for i := range prog.Inst {
			in := &prog.Inst[i]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if in.MatchRune(rune(v)) {
					b = append(b, '1')
				} else {
					b = append(b, '0')
				}
			}
		}
		w := v == '_' || (v >= '0' && v <= '9') || (v|32 >= 'a' && v|32 <= 'z')
		if w {
			b = append(b, 'w')
		}
		if v == '\n' {
			b = append(b, 'n')
		}
		return string(b)
	}
	classes := map[string][]int{}
	var order []string
	for v := 0; v < 0x80; v++ {
		k := sig(v)
		if classes[k] == nil {
			order = append(order, k)
		}
		classes[k] = append(classes[k], v)
	}
	c := m.ctx
	buf := make([]byte, s.Len())
	for i := range buf {
		b := m.at(s, i)
		if b.IsConst() {
			buf[i] = byte(b.Val)
			continue
		}
		found := false
		for _, k := range order {
			in := c.False()
			vs := classes[k]
			for j := 0; j < len(vs); j++ {
				lo := vs[j]
				for j+1 < len(vs) && vs[j+1] == vs[j]+1 {
					j++
				}
				in = c.Or(in, c.And(c.BVCmp(smt.OpBVUle, c.BVConst(uint64(lo), 8), b), c.BVCmp(smt.OpBVUle, b, c.BVConst(uint64(vs[j]), 8))))
			}
			if m.branch(in) {
				buf[i] = byte(vs[0])
				found = true
				break
			}
		}
		if !found {
			m.bound("non-ASCII symbolic byte")
		}
	}
	return string(buf)
}
