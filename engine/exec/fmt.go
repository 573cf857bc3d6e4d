package exec

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// Symbolic fmt: the subset of verbs and operand shapes that formatting in the
// checked code uses. Anything else ends the path as unsupported.

func (m *Machine) nativeBasic(v Value, t types.Type) (any, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch x := v.(type) {
	case Str:
		if x.b != nil {
			return nil, false
		}
		return x.s, true
	case *smt.Term:
		if !x.IsConst() {
			return nil, false
		}
		switch b.Kind() {
		case types.Bool:
			return x.Val == 1, true
		case types.Float64:
			return x.Float(), true
		case types.Float32:
			return float32(x.Float()), true
		case types.Uint8:
			return uint8(x.Val), true
		}
		if _, signed, ok := intInfo(t); ok {
			if signed {
				return x.Int(), true
			}
			return x.Val, true
		}
	}
	return nil, false
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// callText calls Error or String on v, with fmt's panic handling.
func (m *Machine) callText(i Iface, meth string) (s Str, ok bool) {
	f := m.methodByName(i.t, meth)
	if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || !isString(f.Signature.Results().At(0).Type()) {
		return Str{}, false
	}
	defer func() {
		if x := recover(); x != nil {
			tp, is := x.(targetPanic)
			if !is {
				panic(x)
			}
			ok = true
			if p, isp := i.v.(*Value); isp && p == nil {
				s = conc("<nil>")
				return
			}
			s = conc("%!v(PANIC=" + meth + " method: " + tp.msg + ")")
		}
	}()
	depth, caller, et := m.depth, m.caller, m.errText
	m.errText = false
	defer func() { m.depth, m.caller, m.errText = depth, caller, et }()
	r := m.callFn(m.caller, f, []Value{copyVal(i.v)}, nil)
	return r.(Str), true
}

func (m *Machine) fmtFloat(t *smt.Term, verb byte) Str {
	w := t.Sort.W
	if t.IsConst() {
		if w == 32 {
			return conc(fmt.Sprintf("%"+string(verb), float32(t.Float())))
		}
		return conc(fmt.Sprintf("%"+string(verb), t.Float()))
	}
	if verb != 'v' && verb != 'g' {
		m.bound("formatting of a symbolic float")
	}
	c := m.ctx
	rt := c.FUn(smt.OpFRound, t, t.Sort, 2)
	lim := 1e15
	if w == 32 {
		lim = 1e7
	}
	small := c.And(c.FCmp(smt.OpFEq, rt, t), c.FCmp(smt.OpFLt, c.FUn(smt.OpFAbs, t, t.Sort, 0), c.FPConst(lim, w)))
	negz := c.Eq(t, c.FPConst(negZero, w))
	if m.branch(c.And(small, c.Not(negz))) {
		return m.itoa(c.FUn(smt.OpFToSBV, t, smt.BV(64), 0), true)
	}
	m.bound("formatting of a symbolic non-integral float")
	return Str{}
}

var negZero = func() float64 { z := 0.0; return -z }()

func (m *Machine) quoteStr(s Str) Str {
	if s.b == nil {
		return conc(strconv.Quote(s.s))
	}
	c := m.ctx
	parts := []Str{conc(`"`)}
	for i := 0; i < s.Len(); i++ {
		b := m.at(s, i)
		if b.IsConst() {
			if b.Val >= 0x80 {
				m.bound("quoting non-ASCII symbolic text")
			}
			q := strconv.Quote(string(rune(b.Val)))
			parts = append(parts, conc(q[1:len(q)-1]))
			continue
		}
		plain := c.And(c.BVCmp(smt.OpBVUle, c.BVConst(0x20, 8), b), c.BVCmp(smt.OpBVUlt, b, c.BVConst(0x7f, 8)))
		if !m.branch(plain) {
			m.bound("quoting non-printable symbolic text")
		}
		if m.branch(c.Or(c.Eq(b, c.BVConst('"', 8)), c.Eq(b, c.BVConst('\\', 8)))) {
			parts = append(parts, conc(`\`))
		}
		parts = append(parts, Str{b: []*smt.Term{b}})
	}
	parts = append(parts, conc(`"`))
	return m.concat(parts...)
}

// fmtVal formats one operand.
func (m *Machine) fmtVal(i Iface, verb byte, plus, sharp bool, d int) Str {
	if d > 12 {
		m.bound("fmt depth")
	}
	if verb == 'T' {
		if i.t == nil {
			return conc("<nil>")
		}
		return conc(shortType(i.t))
	}
	if i.t == nil {
		if verb == 'v' {
			return conc("<nil>")
		}
		return conc("%!" + string(verb) + "(<nil>)")
	}
	if sharp {
		m.unsupported("fmt flag #")
	}
	if verb == 'w' {
		verb = 'v'
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
		for _, meth := range []string{"Error", "String"} {
			if s, ok := m.callText(i, meth); ok {
				if verb == 'q' {
					return m.quoteStr(s)
				}
				return s
			}
		}
	}
	if nv, ok := m.nativeBasic(i.v, i.t); ok {
		return conc(fmt.Sprintf("%"+string(verb), nv))
	}
	bad := func() Str { return conc("%!" + string(verb) + "(" + shortType(i.t) + "=?)") }
	switch x := i.v.(type) {
	case Str:
		switch verb {
		case 's', 'v':
			return x
		case 'q':
			return m.quoteStr(x)
		}
		return bad()
	case *smt.Term:
		if m.errText {
			// The text of an error is not modelled where it would need the
			// digits of a symbolic number.
			return conc("<symbolic " + shortType(i.t) + ">")
		}
		switch x.Sort.K {
		case smt.SBool:
			if verb != 'v' && verb != 't' {
				return bad()
			}
			if m.branch(x) {
				return conc("true")
			}
			return conc("false")
		case smt.SFP:
			return m.fmtFloat(x, verb)
		}
		if verb != 'd' && verb != 'v' {
			m.bound("fmt verb " + string(verb) + " on symbolic integer")
		}
		_, signed, _ := intInfo(i.t)
		return m.itoa(x, signed)
	}
	switch u := i.t.Underlying().(type) {
	case *types.Slice, *types.Array:
		var elems []Value
		var et types.Type
		if sl, ok := u.(*types.Slice); ok {
			elems, et = i.v.(Slice), sl.Elem()
		} else {
			elems, et = i.v.(Array), u.(*types.Array).Elem()
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'q' || verb == 'x') {
			if verb == 's' {
				return m.convert(types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]), Slice(elems)).(Str)
			}
			m.unsupported("fmt of bytes")
		}
		parts := []Str{conc("[")}
		for k, e := range elems {
			if k > 0 {
				parts = append(parts, conc(" "))
			}
			parts = append(parts, m.fmtVal(m.asIface(et, e), verb, plus, sharp, d+1))
		}
		parts = append(parts, conc("]"))
		return m.concat(parts...)
	case *types.Map:
		mp := i.v.(*MapV)
		parts := []Str{conc("map[")}
		if mp != nil {
			type kv struct{ k, v Value }
			var kvs []kv
			for _, e := range mp.entries {
				kvs = append(kvs, kv{e.k, e.v})
			}
			sort.SliceStable(kvs, func(a, b int) bool {
				switch x := kvs[a].k.(type) {
				case Str:
					return m.branch(m.strLess(x, kvs[b].k.(Str)))
				case *smt.Term:
					if x.IsConst() && kvs[b].k.(*smt.Term).IsConst() {
						return x.Int() < kvs[b].k.(*smt.Term).Int()
					}
				}
				m.unsupported("fmt of a map with such keys")
				return false
			})
			for k, e := range kvs {
				if k > 0 {
					parts = append(parts, conc(" "))
				}
				parts = append(parts, m.fmtVal(m.asIface(u.Key(), e.k), verb, plus, sharp, d+1), conc(":"),
					m.fmtVal(m.asIface(u.Elem(), e.v), verb, plus, sharp, d+1))
			}
		}
		parts = append(parts, conc("]"))
		return m.concat(parts...)
	case *types.Struct:
		parts := []Str{conc("{")}
		for k, e := range i.v.(Struct) {
			if k > 0 {
				parts = append(parts, conc(" "))
			}
			if plus {
				parts = append(parts, conc(u.Field(k).Name()+":"))
			}
			parts = append(parts, m.fmtField(m.asIface(u.Field(k).Type(), e), u.Field(k).Exported(), verb, plus, sharp, d+1))
		}
		parts = append(parts, conc("}"))
		return m.concat(parts...)
	case *types.Pointer:
		p, ok := i.v.(*Value)
		if ok && p == nil {
			return conc("<nil>")
		}
		if ok && d == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return m.concat(conc("&"), m.fmtVal(Iface{u.Elem(), *p}, verb, plus, sharp, d+1))
			}
		}
		return conc("0xc000000000")
	case *types.Signature, *types.Chan:
		return conc("0xc000000000")
	}
	m.unsupported("fmt of " + i.t.String())
	return Str{}
}

// fmtField: unexported fields are printed without calling methods.
func (m *Machine) fmtField(i Iface, exported bool, verb byte, plus, sharp bool, d int) Str {
	if exported || i.t == nil {
		return m.fmtVal(i, verb, plus, sharp, d)
	}
	if _, ok := i.t.Underlying().(*types.Basic); ok {
		return m.fmtVal(Iface{i.t.Underlying(), i.v}, verb, plus, sharp, d)
	}
	return m.fmtVal(i, verb, plus, sharp, d)
}

// asIface wraps an element of static type t.
func (m *Machine) asIface(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok {
		if _, isI := t.Underlying().(*types.Interface); isI {
			return i
		}
	}
	return Iface{t, v}
}

// sprintf formats; wrapped receives operands of %w.
func (m *Machine) sprintf(format Str, args []Value, wrapped *[]Iface) Str {
	if format.b != nil {
		// A format that carries caller data: only literal text is modelled.
		c := m.ctx
		for i := 0; i < format.Len(); i++ {
			if m.branch(c.Eq(m.at(format, i), c.BVConst('%', 8))) {
				m.bound("symbolic format string with a verb")
			}
		}
		if len(args) > 0 {
			m.bound("symbolic format string with operands")
		}
		return format
	}
	f := format.s
	var parts []Str
	n := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			parts = append(parts, conc(f[i:]))
			break
		}
		parts = append(parts, conc(f[i:i+j]))
		i += j + 1
		st := i
		plus, sharp := false, false
		for i < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[i]) >= 0 {
			if f[i] == '+' {
				plus = true
			}
			if f[i] == '#' {
				sharp = true
			}
			i++
		}
		if i >= len(f) {
			parts = append(parts, conc("%!(NOVERB)"))
			break
		}
		flags := f[st:i]
		verb := f[i]
		i++
		if verb == '%' {
			parts = append(parts, conc("%"))
			continue
		}
		if n >= len(args) {
			parts = append(parts, conc("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[n].(Iface)
		n++
		if verb == 'w' && wrapped != nil && a.t != nil && m.methodByName(a.t, "Error") != nil {
			*wrapped = append(*wrapped, a)
		}
		if fl := strings.Trim(flags, "+"); fl != "" {
			if a.t != nil {
				if nv, ok := m.nativeBasic(a.v, a.t); ok && m.methodByName(a.t, "String") == nil && m.methodByName(a.t, "Error") == nil {
					parts = append(parts, conc(fmt.Sprintf("%"+flags+string(verb), nv)))
					continue
				}
			}
			m.unsupported("fmt flags %" + flags + string(verb))
		}
		parts = append(parts, m.fmtVal(a, verb, plus, sharp, 0))
	}
	if n < len(args) {
		parts = append(parts, conc("%!(EXTRA "))
		for k, a := range args[n:] {
			if k > 0 {
				parts = append(parts, conc(", "))
			}
			i := a.(Iface)
			if i.t == nil {
				parts = append(parts, conc("<nil>"))
				continue
			}
			parts = append(parts, conc(shortType(i.t)+"="), m.fmtVal(i, 'v', false, false, 0))
		}
		parts = append(parts, conc(")"))
	}
	return m.concat(parts...)
}

func (m *Machine) sprint(args []Value, ln bool) Str {
	var parts []Str
	prevStr := false
	for k, a := range args {
		i := a.(Iface)
		isS := false
		if i.t != nil {
			b, ok := i.t.(*types.Basic)
			isS = ok && b.Kind() == types.String
		}
		if k > 0 && (ln || (!isS && !prevStr)) {
			parts = append(parts, conc(" "))
		}
		parts = append(parts, m.fmtVal(i, 'v', false, false, 0))
		prevStr = isS
	}
	if ln {
		parts = append(parts, conc("\n"))
	}
	return m.concat(parts...)
}

func (m *Machine) pkgType(pkg, name string) types.Type {
	p := m.P.Pkgs[pkg]
	if p == nil {
		m.unsupported("package " + pkg + " not loaded")
	}
	t := p.Pkg.Scope().Lookup(name)
	if t == nil {
		m.unsupported("type " + pkg + "." + name + " not found")
	}
	return t.Type()
}

func (m *Machine) newErr(s Str) Iface {
	t := m.pkgType("errors", "errorString")
	p := new(Value)
	*p = Struct{s}
	return Iface{types.NewPointer(t), p}
}

func init() {
	I := intrinsics
	sl := func(v Value) []Value { return []Value(v.(Slice)) }
	I["fmt.Sprintf"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return m.sprintf(a[0].(Str), sl(a[1]), nil), true
	}
	I["fmt.Sprint"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return m.sprint(sl(a[0]), false), true
	}
	I["fmt.Sprintln"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return m.sprint(sl(a[0]), true), true
	}
	I["fmt.Errorf"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		var w []Iface
		m.errText = true
		s := m.sprintf(a[0].(Str), sl(a[1]), &w)
		m.errText = false
		switch len(w) {
		case 0:
			return m.newErr(s), true
		case 1:
			t := m.pkgType("fmt", "wrapError")
			p := new(Value)
			*p = Struct{s, w[0]}
			return Iface{m.ptrTo(t), p}, true
		}
		t := m.pkgType("fmt", "wrapErrors")
		es := make(Slice, len(w))
		for i := range w {
			es[i] = w[i]
		}
		p := new(Value)
		*p = Struct{s, es}
		return Iface{m.ptrTo(t), p}, true
	}
	I["errors.New"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return m.newErr(a[0].(Str)), true
	}
	out := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return Tuple{m.ctx.Int(0), Iface{}}, true
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		I[n] = out
	}
	// Fprintf and friends write through the real Writer's method.
	fp := func(format func(m *Machine, a []Value) Str) intrinsic {
		return func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			s := format(m, a)
			w := a[0].(Iface)
			if w.t == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			f := m.methodByName(w.t, "Write")
			if f == nil {
				m.unsupported("Fprintf writer")
			}
			bs := m.bytesOf(s)
			buf := make(Slice, len(bs))
			for i := range bs {
				buf[i] = bs[i]
			}
			return m.callFn(m.caller, f, []Value{copyVal(w.v), buf}, nil), true
		}
	}
	I["fmt.Fprintf"] = fp(func(m *Machine, a []Value) Str { return m.sprintf(a[1].(Str), sl(a[2]), nil) })
	I["fmt.Fprint"] = fp(func(m *Machine, a []Value) Str { return m.sprint(sl(a[1]), false) })
	I["fmt.Fprintln"] = fp(func(m *Machine, a []Value) Str { return m.sprint(sl(a[1]), true) })
}
