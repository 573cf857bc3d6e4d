// Package exec executes Go SSA symbolically.
package exec

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// Value is one of: *smt.Term, Str, *Value (pointer), *SymElem, Struct, Array,
// Slice, *MapV, Iface, *Closure, *ssa.Function, *ssa.Builtin, Tuple, *Opaque,
// *iter, *ChanV.
type Value any

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

// Opaque is a native object the engine carries without looking inside.
type Opaque struct {
	kind string
	data any
}

// SymElem is a pointer to elems[idx] with a symbolic in-range idx.
type SymElem struct {
	elems []Value
	idx   *smt.Term
}

// Str is a string of concrete length. b == nil means fully concrete.
type Str struct {
	s string
	b []*smt.Term
}

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s Str) Concrete() bool { return s.b == nil }

func (m *Machine) at(s Str, i int) *smt.Term {
	if s.b != nil {
		return s.b[i]
	}
	return m.ctx.BVConst(uint64(s.s[i]), 8)
}

func conc(s string) Str { return Str{s: s} }

// mkStr normalises a byte list.
func mkStr(b []*smt.Term) Str {
	for _, t := range b {
		if !t.IsConst() {
			return Str{b: b}
		}
	}
	buf := make([]byte, len(b))
	for i, t := range b {
		buf[i] = byte(t.Val)
	}
	return Str{s: string(buf)}
}

func (m *Machine) bytesOf(s Str) []*smt.Term {
	if s.b != nil {
		return s.b
	}
	out := make([]*smt.Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = m.ctx.BVConst(uint64(s.s[i]), 8)
	}
	return out
}

func (s Str) sub(lo, hi int) Str {
	if s.b == nil {
		return Str{s: s.s[lo:hi]}
	}
	return mkStr(s.b[lo:hi:hi])
}

func (m *Machine) concat(ss ...Str) Str {
	all := true
	n := 0
	for _, s := range ss {
		n += s.Len()
		if s.b != nil {
			all = false
		}
	}
	if all {
		var b strings.Builder
		b.Grow(n)
		for _, s := range ss {
			b.WriteString(s.s)
		}
		return Str{s: b.String()}
	}
	out := make([]*smt.Term, 0, n)
	for _, s := range ss {
		out = append(out, m.bytesOf(s)...)
	}
	return Str{b: out}
}

func (m *Machine) strEq(a, b Str) *smt.Term {
	if a.Len() != b.Len() {
		return m.ctx.False()
	}
	if a.b == nil && b.b == nil {
		return m.ctx.Bool(a.s == b.s)
	}
	r := m.ctx.True()
	for i := 0; i < a.Len(); i++ {
		r = m.ctx.And(r, m.ctx.Eq(m.at(a, i), m.at(b, i)))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

// strLess is a < b (lexicographic).
func (m *Machine) strLess(a, b Str) *smt.Term {
	if a.b == nil && b.b == nil {
		return m.ctx.Bool(a.s < b.s)
	}
	n := min(a.Len(), b.Len())
	r := m.ctx.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := m.at(a, i), m.at(b, i)
		r = m.ctx.Or(m.ctx.BVCmp(smt.OpBVUlt, x, y), m.ctx.And(m.ctx.Eq(x, y), r))
	}
	return r
}

// MapV is an insertion-ordered map.
type MapV struct {
	kt      types.Type
	entries []*mapEntry
	idx     map[string]*mapEntry // canonical concrete keys
	symN    int                  // entries with symbolic keys
	n       int                  // live entries
}

type mapEntry struct {
	k, v Value
	ck   string
	conc bool
	dead bool
}

func newMap(kt types.Type) *MapV { return &MapV{kt: kt, idx: map[string]*mapEntry{}} }

// canon returns a canonical string for a fully concrete key.
func canon(v Value) (string, bool) {
	switch v := v.(type) {
	case *smt.Term:
		if !v.IsConst() {
			return "", false
		}
		if v.Sort.K == smt.SFP {
			f := v.Float()
			if f == 0 {
				return "f0", true
			}
			if f != f {
				return "", false
			}
			return fmt.Sprintf("f%x", v.Val), true
		}
		return fmt.Sprintf("i%d", v.Val), true
	case Str:
		if v.b != nil {
			return "", false
		}
		return "s" + v.s, true
	case Struct:
		return canonList([]Value(v))
	case Array:
		return canonList([]Value(v))
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		s, ok := canon(v.v)
		return v.t.String() + ":" + s, ok
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case *Opaque:
		return fmt.Sprintf("o%p", v), true
	case *MapV:
		return fmt.Sprintf("m%p", v), true
	}
	return "", false
}

func canonList(l []Value) (string, bool) {
	var b strings.Builder
	for _, x := range l {
		s, ok := canon(x)
		if !ok {
			return "", false
		}
		fmt.Fprintf(&b, "%d:%s;", len(s), s)
	}
	return b.String(), true
}

func (m *Machine) mapFind(mp *MapV, k Value) *mapEntry {
	if mp == nil {
		return nil
	}
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		m.rtPanic("hash of unhashable type " + i.t.String())
	}
	ck, ok := canon(k)
	if ok {
		if e := mp.idx[ck]; e != nil {
			return e
		}
		if mp.symN == 0 {
			return nil
		}
		for _, e := range mp.entries {
			if !e.dead && !e.conc && m.branch(m.eq(mp.kt, e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range mp.entries {
		if !e.dead && m.branch(m.eq(mp.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *MapV, k, v Value) {
	if mp == nil {
		m.rtPanic("assignment to entry in nil map")
	}
	if e := m.mapFind(mp, k); e != nil {
		if m.logging {
			old := e.v
			m.undoFn(func() { e.v = old })
		}
		e.v = v
		return
	}
	ck, ok := canon(k)
	e := &mapEntry{k: k, v: v, ck: ck, conc: ok}
	mp.entries = append(mp.entries, e)
	mp.n++
	if ok {
		mp.idx[ck] = e
	} else {
		mp.symN++
	}
	if m.logging {
		m.undoFn(func() { mp.remove(e) })
	}
}

func (mp *MapV) remove(e *mapEntry) {
	if e.dead {
		return
	}
	e.dead = true
	mp.n--
	if e.conc {
		delete(mp.idx, e.ck)
	} else {
		mp.symN--
	}
	for i, x := range mp.entries {
		if x == e {
			ne := make([]*mapEntry, 0, len(mp.entries))
			ne = append(ne, mp.entries[:i]...)
			mp.entries = append(ne, mp.entries[i+1:]...)
			break
		}
	}
}

func (mp *MapV) restore(e *mapEntry, pos int) {
	e.dead = false
	mp.n++
	if e.conc {
		mp.idx[e.ck] = e
	} else {
		mp.symN++
	}
	ne := make([]*mapEntry, 0, len(mp.entries)+1)
	ne = append(ne, mp.entries[:pos]...)
	ne = append(ne, e)
	mp.entries = append(ne, mp.entries[pos:]...)
}

func (m *Machine) mapDelete(mp *MapV, k Value) {
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	pos := 0
	for i, x := range mp.entries {
		if x == e {
			pos = i
		}
	}
	mp.remove(e)
	if m.logging {
		m.undoFn(func() { mp.restore(e, pos) })
	}
}

// intInfo reports width and signedness of an integer-like basic type.
func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func floatWidth(t types.Type) (int, bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false
	}
	switch b.Kind() {
	case types.Float32:
		return 32, true
	case types.Float64, types.UntypedFloat:
		return 64, true
	}
	return 0, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// zero returns the zero value of t.
func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		if isString(u) {
			return Str{}
		}
		if isBool(u) {
			return m.ctx.False()
		}
		if w, _, ok := intInfo(u); ok {
			return m.ctx.BVConst(0, w)
		}
		if w, ok := floatWidth(u); ok {
			return m.ctx.FPConst(0, w)
		}
		return &Opaque{kind: "complex"}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if u.Len() > 0 {
			z := m.zero(u.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = m.zero(u.At(i).Type())
		}
		return tu
	}
	m.unsupported("zero of " + t.String())
	return nil
}

// copyVal copies value types.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

func (m *Machine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		m.unsupported("const of type param " + tp.String())
	}
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		m.unsupported("const " + c.String())
	}
	switch {
	case isString(u):
		if c.Value.Kind() == constant.String {
			return conc(constant.StringVal(c.Value))
		}
		return conc(string(rune(c.Int64())))
	case isBool(u):
		return m.ctx.Bool(constant.BoolVal(c.Value))
	}
	if w, signed, ok := intInfo(u); ok {
		if signed {
			return m.ctx.BVConst(uint64(c.Int64()), w)
		}
		return m.ctx.BVConst(c.Uint64(), w)
	}
	if w, ok := floatWidth(u); ok {
		f := c.Float64()
		if w == 32 {
			f = float64(float32(f))
		}
		return m.ctx.FPConst(f, w)
	}
	if u.Kind() == types.UnsafePointer {
		return (*Value)(nil)
	}
	return &Opaque{kind: "complex"}
}

func isNilFunc(v Value) bool {
	c, ok := v.(*Closure)
	return ok && c == nil
}

// eq builds the term for a == b at type t.
func (m *Machine) eq(t types.Type, a, b Value) *smt.Term {
	switch x := a.(type) {
	case *smt.Term:
		y := b.(*smt.Term)
		if x.Sort.K == smt.SFP {
			return m.ctx.FCmp(smt.OpFEq, x, y)
		}
		return m.ctx.Eq(x, y)
	case Str:
		return m.strEq(x, b.(Str))
	case *Value:
		y, ok := b.(*Value)
		if !ok {
			if _, isSym := b.(*SymElem); isSym {
				m.unsupported("comparison of symbolic element pointers")
			}
			return m.ctx.False()
		}
		return m.ctx.Bool(x == y)
	case Struct:
		y := b.(Struct)
		st := t.Underlying().(*types.Struct)
		r := m.ctx.True()
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = m.ctx.And(r, m.eq(st.Field(i).Type(), x[i], y[i]))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case Array:
		y := b.(Array)
		et := t.Underlying().(*types.Array).Elem()
		r := m.ctx.True()
		for i := range x {
			r = m.ctx.And(r, m.eq(et, x[i], y[i]))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			m.unsupported("interface comparison with concrete value")
		}
		if x.t == nil || y.t == nil {
			return m.ctx.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return m.ctx.False()
		}
		if !types.Comparable(x.t) {
			m.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return m.eq(x.t, x.v, y.v)
	case *MapV:
		y, _ := b.(*MapV)
		return m.ctx.Bool(x == y)
	case *Closure:
		if y, ok := b.(*Closure); ok {
			return m.ctx.Bool(x == y)
		}
		return m.ctx.False()
	case *ssa.Function:
		return m.ctx.Bool(a == b)
	case Slice:
		y, _ := b.(Slice)
		return m.ctx.Bool(x == nil && y == nil)
	case *Opaque:
		return m.ctx.Bool(a == b)
	case *ChanV:
		return m.ctx.Bool(a == b)
	}
	m.unsupported(fmt.Sprintf("comparison of %T", a))
	return nil
}
