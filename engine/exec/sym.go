package exec

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

const symPkg = "verif/harness/sym."

func (m *Machine) ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

func (m *Machine) inputName(v Value) string {
	s := v.(Str)
	if s.b != nil {
		m.unsupported("symbolic input name")
	}
	n := s.s
	m.names[n]++
	if k := m.names[n]; k > 1 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (m *Machine) newInput(name, kind string, w int, s smt.Sort) *smt.Term {
	t := m.ctx.Var("in!"+name, s)
	m.inputs = append(m.inputs, &Input{Name: name, Kind: kind, W: w, t: t})
	return t
}

func (m *Machine) inClass(b *smt.Term, class string, first bool) *smt.Term {
	c := m.ctx
	rng := func(lo, hi byte) *smt.Term {
		return c.And(c.BVCmp(smt.OpBVUle, c.BVConst(uint64(lo), 8), b), c.BVCmp(smt.OpBVUle, b, c.BVConst(uint64(hi), 8)))
	}
	is := func(ch byte) *smt.Term { return c.Eq(b, c.BVConst(uint64(ch), 8)) }
	switch class {
	case "ident":
		al := c.Or(c.Or(rng('a', 'z'), rng('A', 'Z')), is('_'))
		if first {
			return al
		}
		return c.Or(al, rng('0', '9'))
	case "lower":
		return rng('a', 'z')
	case "letter":
		return c.Or(rng('a', 'z'), rng('A', 'Z'))
	case "digit":
		return rng('0', '9')
	case "digit1": // no leading zero
		if first {
			return rng('1', '9')
		}
		return rng('0', '9')
	case "text": // printable ASCII
		return rng(0x20, 0x7e)
	case "textnq": // printable ASCII without quotes
		return c.And(rng(0x20, 0x7e), c.Not(c.Or(c.Or(is('\''), is('"')), is('`'))))
	case "name": // printable ASCII without back quotes and dots
		return c.And(rng(0x20, 0x7e), c.Not(c.Or(is('`'), is('.'))))
	case "ascii":
		return c.BVCmp(smt.OpBVUlt, b, c.BVConst(0x80, 8))
	case "byte":
		return c.True()
	}
	// an explicit set: "[...]"
	if len(class) > 2 && class[0] == '[' {
		r := c.False()
		for i := 1; i < len(class)-1; i++ {
			r = c.Or(r, is(class[i]))
		}
		return r
	}
	m.unsupported("string class " + class)
	return nil
}

func (m *Machine) symStr(name string, lo, hi int, class string) Str {
	n := lo + m.choose(hi-lo+1)
	b := make([]*smt.Term, n)
	cons := m.ctx.True()
	for i := range b {
		b[i] = m.ctx.Var(fmt.Sprintf("in!%s[%d]/%d", name, i, n), smt.BV(8))
		cons = m.ctx.And(cons, m.inClass(b[i], class, i == 0))
	}
	s := Str{}
	if n > 0 {
		s = mkStr(b)
	}
	m.inputs = append(m.inputs, &Input{Name: name, Kind: "str", s: s})
	m.assume(cons)
	return s
}

// notWord is the condition that s differs, ignoring case, from all words.
func (m *Machine) notWord(s Str, words []string) *smt.Term {
	c := m.ctx
	r := c.True()
	var low []*smt.Term
	for _, w := range words {
		if len(w) != s.Len() {
			continue
		}
		if low == nil {
			low = make([]*smt.Term, s.Len())
			for i := range low {
				low[i] = m.toLowerB(m.at(s, i))
			}
		}
		eq := c.True()
		for i := range low {
			ch := w[i]
			if ch >= 'A' && ch <= 'Z' {
				ch += 32
			}
			eq = c.And(eq, c.Eq(low[i], c.BVConst(uint64(ch), 8)))
		}
		r = c.And(r, c.Not(eq))
	}
	return r
}

func init() {
	S := func(name string, f func(m *Machine, a []Value) Value) {
		intrinsics[symPkg+name] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return f(m, a), true }
	}
	ci := func(m *Machine, v Value) int {
		t := v.(*smt.Term)
		if !t.IsConst() {
			m.unsupported("symbolic bound in sym call")
		}
		return int(t.Int())
	}
	cs := func(m *Machine, v Value) string {
		s := v.(Str)
		if s.b != nil {
			m.unsupported("symbolic label")
		}
		return s.s
	}
	S("Choose", func(m *Machine, a []Value) Value {
		name := m.inputName(a[0])
		k := m.choose(ci(m, a[1]))
		m.inputs = append(m.inputs, &Input{Name: name, Kind: "choose", c: int64(k)})
		return m.ctx.Int(int64(k))
	})
	S("Bool", func(m *Machine, a []Value) Value { return m.newInput(m.inputName(a[0]), "bool", 1, smt.Bool) })
	ints := []struct {
		n string
		w int
		s bool
	}{{"Int", 64, true}, {"Int64", 64, true}, {"Int32", 32, true}, {"Int16", 16, true}, {"Int8", 8, true},
		{"Uint", 64, false}, {"Uint64", 64, false}, {"Uint32", 32, false}, {"Uint16", 16, false}, {"Uint8", 8, false}}
	for _, x := range ints {
		S(x.n, func(m *Machine, a []Value) Value {
			k := "int"
			if !x.s {
				k = "uint"
			}
			return m.newInput(m.inputName(a[0]), k, x.w, smt.BV(x.w))
		})
	}
	S("Float64", func(m *Machine, a []Value) Value {
		// carried as a bit pattern so that every value, NaNs included, replays
		n := m.inputName(a[0])
		return m.newInput(n, "float", 64, smt.FP(64))
	})
	S("Float32", func(m *Machine, a []Value) Value {
		return m.newInput(m.inputName(a[0]), "float", 32, smt.FP(32))
	})
	S("IntRange", func(m *Machine, a []Value) Value {
		t := m.newInput(m.inputName(a[0]), "int", 64, smt.BV(64))
		c := m.ctx
		m.assume(c.And(c.BVCmp(smt.OpBVSle, a[1].(*smt.Term), t), c.BVCmp(smt.OpBVSle, t, a[2].(*smt.Term))))
		return t
	})
	S("Str", func(m *Machine, a []Value) Value {
		return m.symStr(m.inputName(a[0]), ci(m, a[1]), ci(m, a[2]), cs(m, a[3]))
	})
	S("Ident", func(m *Machine, a []Value) Value {
		s := m.symStr(m.inputName(a[0]), ci(m, a[1]), ci(m, a[2]), "ident")
		m.assume(m.notWord(s, m.P.Keywords))
		return s
	})
	S("Assume", func(m *Machine, a []Value) Value { m.assume(a[0].(*smt.Term)); return nil })
	S("Assert", func(m *Machine, a []Value) Value {
		m.assert(a[0].(*smt.Term), cs(m, a[1]))
		return nil
	})
	S("Fail", func(m *Machine, a []Value) Value { m.assert(m.ctx.False(), cs(m, a[0])); return nil })
	S("Cover", func(m *Machine, a []Value) Value { m.covers[cs(m, a[0])] = true; return nil })
	S("Observe", func(m *Machine, a []Value) Value {
		m.obs = append(m.obs, obsRec{label: cs(m, a[0]), v: a[1]})
		return nil
	})
	S("Known", func(m *Machine, a []Value) Value {
		m.knowns = append(m.knowns, knownRec{cs(m, a[0]), a[1].(*smt.Term)})
		return nil
	})
	S("Unknow", func(m *Machine, a []Value) Value { m.knowns = nil; return nil })
	S("Stop", func(m *Machine, a []Value) Value { panic(pathAbort{abDone, "stop"}) })
	fold := func(and bool) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			r := m.ctx.Bool(and)
			for _, x := range a[0].(Slice) {
				if and {
					r = m.ctx.And(r, x.(*smt.Term))
				} else {
					r = m.ctx.Or(r, x.(*smt.Term))
				}
			}
			return r
		}
	}
	S("And", fold(true))
	S("Or", fold(false))
	S("Not", func(m *Machine, a []Value) Value { return m.ctx.Not(a[0].(*smt.Term)) })
	S("Implies", func(m *Machine, a []Value) Value {
		return m.ctx.Or(m.ctx.Not(a[0].(*smt.Term)), a[1].(*smt.Term))
	})
	S("Ite", func(m *Machine, a []Value) Value {
		x, ok1 := a[1].(*smt.Term)
		y, ok2 := a[2].(*smt.Term)
		if ok1 && ok2 {
			return m.ctx.Ite(a[0].(*smt.Term), x, y)
		}
		if m.branch(a[0].(*smt.Term)) {
			return a[1]
		}
		return a[2]
	})
	S("SameBits", func(m *Machine, a []Value) Value { return m.ctx.Eq(a[0].(*smt.Term), a[1].(*smt.Term)) })
	S("Tier", func(m *Machine, a []Value) Value { return m.ctx.Int(int64(m.cfg.Tier)) })
	S("Symbolic", func(m *Machine, a []Value) Value { return m.ctx.True() })
	S("IsKeyword", func(m *Machine, a []Value) Value { return m.ctx.Not(m.notWord(a[0].(Str), m.P.Keywords)) })
	S("Keywords", func(m *Machine, a []Value) Value {
		out := make(Slice, len(m.P.Keywords))
		for i, k := range m.P.Keywords {
			out[i] = conc(k)
		}
		return out
	})
	// Panics reports whether f panics (path-wise).
	S("Panics", func(m *Machine, a []Value) (res Value) {
		depth, caller := m.depth, m.caller
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(targetPanic); ok {
					m.depth, m.caller = depth, caller
					m.trace = nil
					res = m.ctx.True()
					return
				}
				panic(x)
			}
		}()
		m.call(m.caller, a[0], nil)
		return m.ctx.False()
	})
	// Go runs the closures as goroutines and waits for all of them.
	S("Go", func(m *Machine, a []Value) Value {
		m.startSched()
		var gs []*gor
		for _, f := range a[0].(Slice) {
			gs = append(gs, m.spawn(m.caller, f, nil))
		}
		m.blockUntil(func() bool {
			for _, g := range gs {
				if !g.done {
					return false
				}
			}
			return true
		})
		for _, g := range gs {
			m.sched.cur.vc.join(g.vc)
		}
		return nil
	})
	S("Yield", func(m *Machine, a []Value) Value { m.yieldPoint(); return nil })
}
