package exec

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// intrinsic models a function. ok=false means: interpret the real body.
type intrinsic func(m *Machine, fn *ssa.Function, args []Value) (Value, bool)

var intrinsics = map[string]intrinsic{}

// native functions called directly when every argument is concrete.
var natives = map[string]any{
	"strings.Compare": strings.Compare, "strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny,
	"strings.ContainsRune": strings.ContainsRune, "strings.Count": strings.Count, "strings.EqualFold": strings.EqualFold,
	"strings.Fields": strings.Fields, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte, "strings.IndexAny": strings.IndexAny,
	"strings.IndexRune": strings.IndexRune, "strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.Title": strings.Title,
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.Trim": strings.Trim,
	"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.TrimPrefix": strings.TrimPrefix,
	"strings.TrimSuffix": strings.TrimSuffix, "strings.TrimSpace": strings.TrimSpace, "strings.Join": strings.Join,
	"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint,
	"strconv.FormatFloat": strconv.FormatFloat, "strconv.FormatBool": strconv.FormatBool, "strconv.Quote": strconv.Quote,
	"math.Abs": math.Abs, "math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Round": math.Round, "math.Trunc": math.Trunc,
	"math.Sqrt": math.Sqrt, "math.Log": math.Log, "math.Log10": math.Log10, "math.Log2": math.Log2, "math.Exp": math.Exp, "math.Pow": math.Pow,
	"math.Mod": math.Mod, "math.Sin": math.Sin, "math.Cos": math.Cos, "math.Tan": math.Tan, "math.IsNaN": math.IsNaN,
	"math.IsInf": math.IsInf, "math.Inf": math.Inf, "math.NaN": math.NaN, "math.Max": math.Max, "math.Min": math.Min,
	"math.Float64bits": math.Float64bits, "math.Float64frombits": math.Float64frombits, "math.RoundToEven": math.RoundToEven,
	"math.Float32bits": math.Float32bits, "math.Float32frombits": math.Float32frombits, "math.Copysign": math.Copysign, "math.Signbit": math.Signbit,
	"math.Hypot": math.Hypot, "math.Cbrt": math.Cbrt, "math.Asin": math.Asin, "math.Acos": math.Acos, "math.Atan": math.Atan, "math.Atan2": math.Atan2,
	"math.Sinh": math.Sinh, "math.Cosh": math.Cosh, "math.Tanh": math.Tanh, "math.Exp2": math.Exp2, "math.Log1p": math.Log1p, "math.Expm1": math.Expm1,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower,
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.ToUpper": unicode.ToUpper,
	"unicode.ToLower": unicode.ToLower, "unicode.IsNumber": unicode.IsNumber, "unicode.IsPunct": unicode.IsPunct,
	"unicode.IsPrint": unicode.IsPrint, "unicode.IsControl": unicode.IsControl,
	"unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneCountInString": utf8.RuneCountInString,
}

// toNative converts a concrete value to reflect form.
func toNative(v Value, t reflect.Type) (reflect.Value, bool) {
	switch x := v.(type) {
	case *smt.Term:
		if !x.IsConst() {
			return reflect.Value{}, false
		}
		r := reflect.New(t).Elem()
		switch t.Kind() {
		case reflect.Bool:
			r.SetBool(x.Val == 1)
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			r.SetInt(x.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			r.SetUint(x.Val)
		case reflect.Float32, reflect.Float64:
			r.SetFloat(x.Float())
		default:
			return reflect.Value{}, false
		}
		return r, true
	case Str:
		if x.b != nil || t.Kind() != reflect.String {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(x.s), true
	case Slice:
		if t.Kind() != reflect.Slice {
			return reflect.Value{}, false
		}
		r := reflect.MakeSlice(t, len(x), len(x))
		for i, e := range x {
			n, ok := toNative(e, t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			r.Index(i).Set(n)
		}
		return r, true
	}
	return reflect.Value{}, false
}

func (m *Machine) fromNative(v reflect.Value) Value {
	switch v.Kind() {
	case reflect.Bool:
		return m.ctx.Bool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return m.ctx.BVConst(uint64(v.Int()), v.Type().Bits())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return m.ctx.BVConst(v.Uint(), v.Type().Bits())
	case reflect.Float32, reflect.Float64:
		return m.ctx.FPConst(v.Float(), v.Type().Bits())
	case reflect.String:
		return conc(v.String())
	case reflect.Slice:
		out := make(Slice, v.Len())
		for i := range out {
			out[i] = m.fromNative(v.Index(i))
		}
		return out
	}
	m.unsupported("fromNative " + v.Kind().String())
	return nil
}

func (m *Machine) callNative(f any, args []Value) (Value, bool) {
	rf := reflect.ValueOf(f)
	rt := rf.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		v, ok := toNative(a, rt.In(i))
		if !ok {
			return nil, false
		}
		in[i] = v
	}
	var out []reflect.Value
	if rt.IsVariadic() {
		out = rf.CallSlice(in)
	} else {
		out = rf.Call(in)
	}
	if len(out) == 1 {
		return m.fromNative(out[0]), true
	}
	t := make(Tuple, len(out))
	for i, o := range out {
		t[i] = m.fromNative(o)
	}
	return t, true
}

func lookupIntrinsic(name string, fn *ssa.Function) intrinsic {
	in := intrinsics[name]
	nat := natives[name]
	switch {
	case in != nil && nat != nil:
		return func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			if v, ok := m.callNative(nat, args); ok {
				return v, true
			}
			return in(m, fn, args)
		}
	case nat != nil:
		return func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			return m.callNative(nat, args)
		}
	case in != nil:
		return in
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Signature.Recv() != nil {
		if n, ok := deref(fn.Signature.Recv().Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
			pkg = n.Obj().Pkg().Path()
		}
	}
	switch pkg {
	case "github.com/cybergarage/go-logger/log", "log", "internal/godebug", "internal/race", "internal/msan", "internal/asan":
		if fn.Synthetic == "package initializer" {
			return nil
		}
		return func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			return m.zeroResults(fn), true
		}
	}
	return nil
}

func (m *Machine) isUpper(b *smt.Term) *smt.Term {
	c := m.ctx
	return c.And(c.BVCmp(smt.OpBVUle, c.BVConst('A', b.Sort.W), b), c.BVCmp(smt.OpBVUle, b, c.BVConst('Z', b.Sort.W)))
}
func (m *Machine) isLower(b *smt.Term) *smt.Term {
	c := m.ctx
	return c.And(c.BVCmp(smt.OpBVUle, c.BVConst('a', b.Sort.W), b), c.BVCmp(smt.OpBVUle, b, c.BVConst('z', b.Sort.W)))
}
func (m *Machine) isDigit(b *smt.Term) *smt.Term {
	c := m.ctx
	return c.And(c.BVCmp(smt.OpBVUle, c.BVConst('0', b.Sort.W), b), c.BVCmp(smt.OpBVUle, b, c.BVConst('9', b.Sort.W)))
}
func (m *Machine) toUpperB(b *smt.Term) *smt.Term {
	c := m.ctx
	return c.Ite(m.isLower(b), c.BVBin(smt.OpBVSub, b, c.BVConst(32, b.Sort.W)), b)
}
func (m *Machine) toLowerB(b *smt.Term) *smt.Term {
	c := m.ctx
	return c.Ite(m.isUpper(b), c.BVBin(smt.OpBVAdd, b, c.BVConst(32, b.Sort.W)), b)
}

// needASCII ensures symbolic bytes are ASCII on this path (bound).
func (m *Machine) needASCII(s Str) {
	if s.b == nil {
		return
	}
	for _, t := range s.b {
		if t.IsConst() {
			if t.Val >= 0x80 {
				m.bound("mixed symbolic and non-ASCII text")
			}
			continue
		}
		if !m.branch(m.ctx.BVCmp(smt.OpBVUlt, t, m.ctx.BVConst(0x80, 8))) {
			m.bound("non-ASCII symbolic byte")
		}
	}
}

func (m *Machine) isSpaceB(b *smt.Term) *smt.Term {
	c := m.ctx
	r := c.Eq(b, c.BVConst(' ', b.Sort.W))
	return c.Or(r, c.And(c.BVCmp(smt.OpBVUle, c.BVConst(9, b.Sort.W), b), c.BVCmp(smt.OpBVUle, b, c.BVConst(13, b.Sort.W))))
}

func (m *Machine) matchAt(s, sub Str, i int) *smt.Term {
	r := m.ctx.True()
	for j := 0; j < sub.Len(); j++ {
		r = m.ctx.And(r, m.ctx.Eq(m.at(s, i+j), m.at(sub, j)))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

// indexFrom finds the first match at or after i, forking.
func (m *Machine) indexFrom(s, sub Str, i int) int {
	for ; i+sub.Len() <= s.Len(); i++ {
		if m.branch(m.matchAt(s, sub, i)) {
			return i
		}
	}
	return -1
}

// inSet is membership of b in a cutset.
func (m *Machine) inSet(b *smt.Term, set Str) *smt.Term {
	r := m.ctx.False()
	for i := 0; i < set.Len(); i++ {
		r = m.ctx.Or(r, m.ctx.Eq(b, m.at(set, i)))
	}
	return r
}

func (m *Machine) trimBy(s Str, left, right bool, pred func(*smt.Term) *smt.Term) Str {
	lo, hi := 0, s.Len()
	if left {
		for lo < hi && m.branch(pred(m.at(s, lo))) {
			lo++
		}
	}
	if right {
		for hi > lo && m.branch(pred(m.at(s, hi-1))) {
			hi--
		}
	}
	return s.sub(lo, hi)
}

func (m *Machine) replaceN(s, old, nw Str, n int) Str {
	if old.Len() == 0 {
		m.unsupported("Replace with empty old")
	}
	var parts []Str
	start := 0
	for n != 0 {
		j := m.indexFrom(s, old, start)
		if j < 0 {
			break
		}
		parts = append(parts, s.sub(start, j), nw)
		start = j + old.Len()
		n--
	}
	parts = append(parts, s.sub(start, s.Len()))
	return m.concat(parts...)
}

func (m *Machine) splitN(s, sep Str, n int) Slice {
	if sep.Len() == 0 {
		m.unsupported("Split with empty separator")
	}
	if n == 0 {
		return Slice(nil)
	}
	out := Slice{}
	start := 0
	for n < 0 || len(out) < n-1 {
		j := m.indexFrom(s, sep, start)
		if j < 0 {
			break
		}
		out = append(out, s.sub(start, j))
		start = j + sep.Len()
	}
	return append(out, s.sub(start, s.Len()))
}

func (m *Machine) strs(v Value) []Str {
	sl := v.(Slice)
	out := make([]Str, len(sl))
	for i, x := range sl {
		out[i] = x.(Str)
	}
	return out
}

// itoa renders a symbolic integer in decimal, forking on sign and length.
func (m *Machine) itoa(t *smt.Term, signed bool) Str {
	c := m.ctx
	if t.IsConst() {
		if signed {
			return conc(strconv.FormatInt(t.Int(), 10))
		}
		return conc(strconv.FormatUint(t.Val, 10))
	}
	w := t.Sort.W
	neg := false
	if signed && m.branch(c.BVCmp(smt.OpBVSlt, t, c.BVConst(0, w))) {
		neg = true
		t = c.BVNeg(t)
	}
	t = c.Resize(t, 64, false)
	digits := 1
	pow := uint64(10)
	for digits < 20 {
		if m.branch(c.BVCmp(smt.OpBVUlt, t, c.BVConst(pow, 64))) {
			break
		}
		digits++
		if digits == 20 {
			break
		}
		pow *= 10
	}
	// Introduce fresh digits d_k with sum d_k*10^k == t to avoid division.
	if s, ok := m.digits[t]; ok {
		if neg {
			return m.concat(conc("-"), s)
		}
		return s
	}
	m.freshN++
	did := m.freshN
	out := make([]*smt.Term, digits)
	if digits <= 18 {
		sum := c.BVConst(0, 64)
		var cons []*smt.Term
		p := uint64(1)
		for i := digits - 1; i >= 0; i-- {
			d := c.Var(fmt.Sprintf("digit!%d!%d!%d", did, digits, i), smt.BV(8))
			cons = append(cons, c.BVCmp(smt.OpBVUle, d, c.BVConst(9, 8)))
			sum = c.BVBin(smt.OpBVAdd, sum, c.BVBin(smt.OpBVMul, c.Resize(d, 64, false), c.BVConst(p, 64)))
			out[i] = c.BVBin(smt.OpBVAdd, d, c.BVConst('0', 8))
			p *= 10
		}
		all := c.Eq(sum, t)
		for _, k := range cons {
			all = c.And(all, k)
		}
		if v, ok := m.ev.Eval(t); ok && m.pos >= len(m.prefix) {
			nm := m.merge(nil)
			for i := digits - 1; i >= 0; i-- {
				nm[fmt.Sprintf("digit!%d!%d!%d", did, digits, i)] = v % 10
				v /= 10
			}
			m.setModel(nm)
		}
		m.define(all)
	} else {
		x := t
		for i := digits - 1; i >= 0; i-- {
			d := c.Extract(c.BVBin(smt.OpBVURem, x, c.BVConst(10, 64)), 0, 8)
			out[i] = c.BVBin(smt.OpBVAdd, d, c.BVConst('0', 8))
			x = c.BVBin(smt.OpBVUDiv, x, c.BVConst(10, 64))
		}
	}
	s := mkStr(out)
	m.digits[t] = s
	if neg {
		s = m.concat(conc("-"), s)
	}
	return s
}

// define adds a constraint introducing fresh variables that is satisfiable for
// every value of the old ones; the model is repaired.
func (m *Machine) define(cst *smt.Term) {
	m.assume(cst)
}

func (m *Machine) fresh(prefix string, s smt.Sort) *smt.Term {
	m.freshN++
	return m.ctx.Var(fmt.Sprintf("%s!%d", prefix, m.freshN), s)
}

func retTuple(vs ...Value) Value { return Tuple(vs) }

func (m *Machine) errNil() Value { return Iface{} }

func init() {
	I := intrinsics
	strFn := func(name string, f func(m *Machine, a []Value) Value) {
		I["strings."+name] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			return f(m, args), true
		}
	}
	strFn("ToUpper", func(m *Machine, a []Value) Value {
		s := a[0].(Str)
		m.needASCII(s)
		b := make([]*smt.Term, s.Len())
		for i := range b {
			b[i] = m.toUpperB(m.at(s, i))
		}
		return mkStr(b)
	})
	strFn("ToLower", func(m *Machine, a []Value) Value {
		s := a[0].(Str)
		m.needASCII(s)
		b := make([]*smt.Term, s.Len())
		for i := range b {
			b[i] = m.toLowerB(m.at(s, i))
		}
		return mkStr(b)
	})
	strFn("EqualFold", func(m *Machine, a []Value) Value {
		x, y := a[0].(Str), a[1].(Str)
		m.needASCII(x)
		m.needASCII(y)
		if x.Len() != y.Len() {
			return m.ctx.False()
		}
		r := m.ctx.True()
		for i := 0; i < x.Len(); i++ {
			r = m.ctx.And(r, m.ctx.Eq(m.toLowerB(m.at(x, i)), m.toLowerB(m.at(y, i))))
		}
		return r
	})
	strFn("HasPrefix", func(m *Machine, a []Value) Value {
		s, p := a[0].(Str), a[1].(Str)
		if s.Len() < p.Len() {
			return m.ctx.False()
		}
		return m.matchAt(s, p, 0)
	})
	strFn("HasSuffix", func(m *Machine, a []Value) Value {
		s, p := a[0].(Str), a[1].(Str)
		if s.Len() < p.Len() {
			return m.ctx.False()
		}
		return m.matchAt(s, p, s.Len()-p.Len())
	})
	strFn("Contains", func(m *Machine, a []Value) Value {
		s, p := a[0].(Str), a[1].(Str)
		r := m.ctx.False()
		for i := 0; i+p.Len() <= s.Len(); i++ {
			r = m.ctx.Or(r, m.matchAt(s, p, i))
		}
		return r
	})
	strFn("ContainsAny", func(m *Machine, a []Value) Value {
		s, p := a[0].(Str), a[1].(Str)
		r := m.ctx.False()
		for i := 0; i < s.Len(); i++ {
			r = m.ctx.Or(r, m.inSet(m.at(s, i), p))
		}
		return r
	})
	runeByte := func(m *Machine, t *smt.Term) *smt.Term {
		if t.IsConst() && t.Val >= 0x80 {
			m.bound("non-ASCII rune search in symbolic text")
		}
		return m.ctx.Extract(t, 0, 8)
	}
	strFn("ContainsRune", func(m *Machine, a []Value) Value {
		s := a[0].(Str)
		b := runeByte(m, a[1].(*smt.Term))
		return m.inSet(b, s)
	})
	strFn("Index", func(m *Machine, a []Value) Value {
		return m.ctx.Int(int64(m.indexFrom(a[0].(Str), a[1].(Str), 0)))
	})
	idxByte := func(m *Machine, a []Value) Value {
		s := a[0].(Str)
		b := a[1].(*smt.Term)
		if b.Sort.W != 8 {
			b = runeByte(m, b)
		}
		for i := 0; i < s.Len(); i++ {
			if m.branch(m.ctx.Eq(m.at(s, i), b)) {
				return m.ctx.Int(int64(i))
			}
		}
		return m.ctx.Int(-1)
	}
	strFn("IndexByte", idxByte)
	strFn("IndexRune", idxByte)
	I["internal/bytealg.IndexByteString"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return idxByte(m, a), true }
	I["internal/stringslite.IndexByte"] = I["internal/bytealg.IndexByteString"]
	I["internal/stringslite.Index"] = I["strings.Index"]
	I["internal/stringslite.HasPrefix"] = I["strings.HasPrefix"]
	I["internal/stringslite.HasSuffix"] = I["strings.HasSuffix"]
	I["internal/bytealg.CountString"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[0].(Str)
		r := m.ctx.Int(0)
		for i := 0; i < s.Len(); i++ {
			r = m.ctx.BVBin(smt.OpBVAdd, r, m.ctx.Ite(m.ctx.Eq(m.at(s, i), a[1].(*smt.Term)), m.ctx.Int(1), m.ctx.Int(0)))
		}
		return r, true
	}
	I["internal/bytealg.IndexByte"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[0].(Slice)
		for i := range s {
			if m.branch(m.ctx.Eq(s[i].(*smt.Term), a[1].(*smt.Term))) {
				return m.ctx.Int(int64(i)), true
			}
		}
		return m.ctx.Int(-1), true
	}
	I["internal/bytealg.MakeNoZero"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		n := int(m.concInt(a[0].(*smt.Term)))
		s := make(Slice, n)
		for i := range s {
			s[i] = m.ctx.BVConst(0, 8)
		}
		return s, true
	}
	I["internal/bytealg.Equal"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := a[0].(Slice), a[1].(Slice)
		if len(x) != len(y) {
			return m.ctx.False(), true
		}
		r := m.ctx.True()
		for i := range x {
			r = m.ctx.And(r, m.ctx.Eq(x[i].(*smt.Term), y[i].(*smt.Term)))
		}
		return r, true
	}
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	I["internal/bytealg.CompareString"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := a[0].(Str), a[1].(Str)
		c := m.ctx
		return c.Ite(m.strEq(x, y), c.Int(0), c.Ite(m.strLess(x, y), c.Int(-1), c.Int(1))), true
	}
	I["strings.Compare"] = I["internal/bytealg.CompareString"]
	strFn("IndexAny", func(m *Machine, a []Value) Value {
		s := a[0].(Str)
		for i := 0; i < s.Len(); i++ {
			if m.branch(m.inSet(m.at(s, i), a[1].(Str))) {
				return m.ctx.Int(int64(i))
			}
		}
		return m.ctx.Int(-1)
	})
	strFn("LastIndex", func(m *Machine, a []Value) Value {
		s, p := a[0].(Str), a[1].(Str)
		for i := s.Len() - p.Len(); i >= 0; i-- {
			if m.branch(m.matchAt(s, p, i)) {
				return m.ctx.Int(int64(i))
			}
		}
		return m.ctx.Int(-1)
	})
	strFn("Count", func(m *Machine, a []Value) Value {
		s, p := a[0].(Str), a[1].(Str)
		if p.Len() == 0 {
			return m.ctx.Int(int64(s.Len() + 1))
		}
		n, i := 0, 0
		for {
			j := m.indexFrom(s, p, i)
			if j < 0 {
				return m.ctx.Int(int64(n))
			}
			n++
			i = j + p.Len()
		}
	})
	strFn("Join", func(m *Machine, a []Value) Value {
		ss := m.strs(a[0])
		sep := a[1].(Str)
		var parts []Str
		for i, s := range ss {
			if i > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, s)
		}
		return m.concat(parts...)
	})
	strFn("Trim", func(m *Machine, a []Value) Value {
		return m.trimBy(a[0].(Str), true, true, func(b *smt.Term) *smt.Term { return m.inSet(b, a[1].(Str)) })
	})
	strFn("TrimLeft", func(m *Machine, a []Value) Value {
		return m.trimBy(a[0].(Str), true, false, func(b *smt.Term) *smt.Term { return m.inSet(b, a[1].(Str)) })
	})
	strFn("TrimRight", func(m *Machine, a []Value) Value {
		return m.trimBy(a[0].(Str), false, true, func(b *smt.Term) *smt.Term { return m.inSet(b, a[1].(Str)) })
	})
	strFn("TrimSpace", func(m *Machine, a []Value) Value {
		m.needASCII(a[0].(Str))
		return m.trimBy(a[0].(Str), true, true, m.isSpaceB)
	})
	trimFunc := func(l, r bool) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			m.needASCII(a[0].(Str))
			s := a[0].(Str)
			for i := 0; i < s.Len(); i++ {
				if t := m.at(s, i); t.IsConst() && t.Val >= 0x80 {
					m.bound("TrimFunc on non-ASCII text")
				}
			}
			return m.trimBy(s, l, r, func(b *smt.Term) *smt.Term {
				return m.call(m.caller, a[1], []Value{m.ctx.Resize(b, 32, false)}).(*smt.Term)
			})
		}
	}
	strFn("TrimFunc", trimFunc(true, true))
	strFn("TrimLeftFunc", trimFunc(true, false))
	strFn("TrimRightFunc", trimFunc(false, true))
	strFn("TrimPrefix", func(m *Machine, a []Value) Value {
		s, p := a[0].(Str), a[1].(Str)
		if s.Len() >= p.Len() && m.branch(m.matchAt(s, p, 0)) {
			return s.sub(p.Len(), s.Len())
		}
		return s
	})
	strFn("TrimSuffix", func(m *Machine, a []Value) Value {
		s, p := a[0].(Str), a[1].(Str)
		if s.Len() >= p.Len() && m.branch(m.matchAt(s, p, s.Len()-p.Len())) {
			return s.sub(0, s.Len()-p.Len())
		}
		return s
	})
	strFn("ReplaceAll", func(m *Machine, a []Value) Value {
		return m.replaceN(a[0].(Str), a[1].(Str), a[2].(Str), -1)
	})
	strFn("Replace", func(m *Machine, a []Value) Value {
		return m.replaceN(a[0].(Str), a[1].(Str), a[2].(Str), int(m.concInt(a[3].(*smt.Term))))
	})
	strFn("Split", func(m *Machine, a []Value) Value {
		return m.splitN(a[0].(Str), a[1].(Str), -1)
	})
	strFn("SplitN", func(m *Machine, a []Value) Value {
		return m.splitN(a[0].(Str), a[1].(Str), int(m.concInt(a[2].(*smt.Term))))
	})
	strFn("Repeat", func(m *Machine, a []Value) Value {
		n := int(m.concInt(a[1].(*smt.Term)))
		if n < 0 {
			m.rtPanic("strings: negative Repeat count")
		}
		var parts []Str
		for i := 0; i < n; i++ {
			parts = append(parts, a[0].(Str))
		}
		return m.concat(parts...)
	})
	strFn("Cut", func(m *Machine, a []Value) Value {
		s, p := a[0].(Str), a[1].(Str)
		if i := m.indexFrom(s, p, 0); i >= 0 {
			return Tuple{s.sub(0, i), s.sub(i+p.Len(), s.Len()), m.ctx.True()}
		}
		return Tuple{s, Str{}, m.ctx.False()}
	})
	strFn("Clone", func(m *Machine, a []Value) Value { return a[0] })
	I["internal/stringslite.Clone"] = I["strings.Clone"]
	strFn("Fields", func(m *Machine, a []Value) Value {
		s := a[0].(Str)
		m.needASCII(s)
		out := Slice{}
		start := -1
		for i := 0; i < s.Len(); i++ {
			if m.branch(m.isSpaceB(m.at(s, i))) {
				if start >= 0 {
					out = append(out, s.sub(start, i))
					start = -1
				}
			} else if start < 0 {
				start = i
			}
		}
		if start >= 0 {
			out = append(out, s.sub(start, s.Len()))
		}
		return out
	})
	// unicode predicates on symbolic ASCII runes
	uni := func(name string, f func(m *Machine, t *smt.Term) *smt.Term) {
		I["unicode."+name] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			t := a[0].(*smt.Term)
			if !m.branch(m.ctx.BVCmp(smt.OpBVUlt, t, m.ctx.BVConst(0x80, 32))) {
				m.bound("non-ASCII symbolic rune")
			}
			return f(m, t), true
		}
	}
	uni("IsSpace", func(m *Machine, t *smt.Term) *smt.Term { return m.isSpaceB(t) })
	uni("IsUpper", func(m *Machine, t *smt.Term) *smt.Term { return m.isUpper(t) })
	uni("IsLower", func(m *Machine, t *smt.Term) *smt.Term { return m.isLower(t) })
	uni("IsLetter", func(m *Machine, t *smt.Term) *smt.Term { return m.ctx.Or(m.isUpper(t), m.isLower(t)) })
	uni("IsDigit", func(m *Machine, t *smt.Term) *smt.Term { return m.isDigit(t) })
	uni("IsNumber", func(m *Machine, t *smt.Term) *smt.Term { return m.isDigit(t) })
	uni("ToUpper", func(m *Machine, t *smt.Term) *smt.Term { return m.toUpperB(t) })
	uni("ToLower", func(m *Machine, t *smt.Term) *smt.Term { return m.toLowerB(t) })

	// strconv
	I["strconv.Itoa"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return m.itoa(a[0].(*smt.Term), true), true
	}
	I["strconv.FormatInt"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if b := a[1].(*smt.Term); !b.IsConst() || b.Val != 10 {
			m.unsupported("FormatInt base")
		}
		return m.itoa(a[0].(*smt.Term), true), true
	}
	I["strconv.FormatUint"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if b := a[1].(*smt.Term); !b.IsConst() || b.Val != 10 {
			m.unsupported("FormatUint base")
		}
		return m.itoa(a[0].(*smt.Term), false), true
	}
	I["strconv.FormatBool"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if m.branch(a[0].(*smt.Term)) {
			return conc("true"), true
		}
		return conc("false"), true
	}
	I["strconv.FormatFloat"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		t := a[0].(*smt.Term)
		if !t.IsConst() {
			// Integral values in a modest range render as integers in every
			// shortest format used here.
			c := m.ctx
			f := a[1].(*smt.Term)
			p := a[2].(*smt.Term)
			if f.IsConst() && p.IsConst() && p.Int() == -1 && (f.Val == 'f' || f.Val == 'g') {
				rt := c.FUn(smt.OpFRound, t, t.Sort, 2)
				lim := 1e15
				if f.Val == 'g' {
					lim = 1e6
				}
				if a[3].(*smt.Term).Val == 32 {
					lim = 1e6
				}
				small := c.And(c.FCmp(smt.OpFEq, rt, t), c.FCmp(smt.OpFLt, c.FUn(smt.OpFAbs, t, t.Sort, 0), c.FPConst(lim, t.Sort.W)))
				negz := c.Eq(t, c.FPConst(math.Copysign(0, -1), t.Sort.W))
				if m.branch(c.And(small, c.Not(negz))) {
					return m.itoa(c.FUn(smt.OpFToSBV, t, smt.BV(64), 0), true), true
				}
			}
			m.bound("formatting of a symbolic non-integral float")
		}
		m.unsupported("FormatFloat arguments")
		return nil, true
	}
	// math on symbolic floats
	mf := func(name string, f func(m *Machine, a []*smt.Term) *smt.Term) {
		I["math."+name] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			ts := make([]*smt.Term, len(args))
			for i, a := range args {
				ts[i] = a.(*smt.Term)
			}
			return f(m, ts), true
		}
	}
	for i, n := range []string{"Floor", "Ceil", "Trunc", "Round", "RoundToEven"} {
		mode := uint64(i)
		mf(n, func(m *Machine, a []*smt.Term) *smt.Term { return m.ctx.FUn(smt.OpFRound, a[0], a[0].Sort, mode) })
	}
	I["math.floor"], I["math.ceil"], I["math.trunc"] = I["math.Floor"], I["math.Ceil"], I["math.Trunc"]
	mf("Abs", func(m *Machine, a []*smt.Term) *smt.Term { return m.ctx.FUn(smt.OpFAbs, a[0], a[0].Sort, 0) })
	mf("Sqrt", func(m *Machine, a []*smt.Term) *smt.Term { return m.ctx.FUn(smt.OpFSqrt, a[0], a[0].Sort, 0) })
	I["math.sqrt"] = I["math.Sqrt"]
	mf("IsNaN", func(m *Machine, a []*smt.Term) *smt.Term { return m.ctx.FUn(smt.OpFIsNaN, a[0], smt.Bool, 0) })
	mf("IsInf", func(m *Machine, a []*smt.Term) *smt.Term {
		c := m.ctx
		if !a[1].IsConst() {
			m.unsupported("math.IsInf sign")
		}
		s := a[1].Int()
		r := c.False()
		if s >= 0 {
			r = c.Or(r, c.Eq(a[0], c.FPConst(math.Inf(1), 64)))
		}
		if s <= 0 {
			r = c.Or(r, c.Eq(a[0], c.FPConst(math.Inf(-1), 64)))
		}
		return r
	})
	mf("Float64frombits", func(m *Machine, a []*smt.Term) *smt.Term { return m.ctx.FUn(smt.OpBVToFBits, a[0], smt.FP(64), 0) })
	mf("Float64bits", func(m *Machine, a []*smt.Term) *smt.Term {
		if b, ok := m.fbits[a[0]]; ok {
			return b
		}
		b := m.fresh("bits", smt.BV(64))
		m.fbits[a[0]] = b
		m.define(m.ctx.And(m.ctx.Eq(m.ctx.FUn(smt.OpBVToFBits, b, smt.FP(64), 0), a[0]),
			m.ctx.Or(m.ctx.Not(m.ctx.FUn(smt.OpFIsNaN, a[0], smt.Bool, 0)), m.ctx.Eq(b, m.ctx.BVConst(0x7ff8000000000000, 64)))))
		return b
	})
	mf("Float32frombits", func(m *Machine, a []*smt.Term) *smt.Term { return m.ctx.FUn(smt.OpBVToFBits, a[0], smt.FP(32), 0) })
	mf("Float32bits", func(m *Machine, a []*smt.Term) *smt.Term {
		if b, ok := m.fbits[a[0]]; ok {
			return b
		}
		b := m.fresh("bits", smt.BV(32))
		m.fbits[a[0]] = b
		m.define(m.ctx.And(m.ctx.Eq(m.ctx.FUn(smt.OpBVToFBits, b, smt.FP(32), 0), a[0]),
			m.ctx.Or(m.ctx.Not(m.ctx.FUn(smt.OpFIsNaN, a[0], smt.Bool, 0)), m.ctx.Eq(b, m.ctx.BVConst(0x7fc00000, 32)))))
		return b
	})
	// the copies of strconv reinterpret memory
	for _, w := range []string{"64", "32"} {
		I["internal/strconv.float"+w+"frombits"] = I["math.Float"+w+"frombits"]
		I["internal/strconv.float"+w+"bits"] = I["math.Float"+w+"bits"]
	}
	for _, n := range []string{"Log", "Log10", "Log2", "Exp", "Pow", "Mod", "Sin", "Cos", "Tan", "Hypot", "Cbrt", "Asin", "Acos", "Atan", "Atan2", "Sinh", "Cosh", "Tanh", "Exp2", "Log1p", "Expm1"} {
		nm := "math_" + n
		mf(n, func(m *Machine, a []*smt.Term) *smt.Term { return m.ctx.UF(nm, smt.FP(64), a...) })
	}
	maxmin := func(isMax bool) func(m *Machine, a []*smt.Term) *smt.Term {
		return func(m *Machine, a []*smt.Term) *smt.Term {
			c := m.ctx
			x, y := a[0], a[1]
			inf := c.FPConst(math.Inf(1), 64)
			lt := c.FCmp(smt.OpFLt, x, y)
			if !isMax {
				inf = c.FPConst(math.Inf(-1), 64)
				lt = c.FCmp(smt.OpFLt, y, x)
			}
			nan := c.Or(c.FUn(smt.OpFIsNaN, x, smt.Bool, 0), c.FUn(smt.OpFIsNaN, y, smt.Bool, 0))
			anyInf := c.Or(c.Eq(x, inf), c.Eq(y, inf))
			zeros := c.And(c.FCmp(smt.OpFEq, x, c.FPConst(0, 64)), c.FCmp(smt.OpFEq, y, c.FPConst(0, 64)))
			nz := c.FPConst(math.Copysign(0, -1), 64)
			var zr *smt.Term
			if isMax {
				zr = c.Ite(c.Eq(x, nz), y, x)
			} else {
				zr = c.Ite(c.Eq(x, nz), x, y)
			}
			return c.Ite(anyInf, inf, c.Ite(nan, c.FPConst(math.NaN(), 64), c.Ite(zeros, zr, c.Ite(lt, y, x))))
		}
	}
	mf("Max", maxmin(true))
	mf("Min", maxmin(false))

	I["maps.clone"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		i := a[0].(Iface)
		mp, ok := i.v.(*MapV)
		if !ok || mp == nil {
			return i, true
		}
		if m.sched != nil {
			m.sched.accessMap(m, mp, false)
		}
		c := &MapV{kt: mp.kt, idx: map[string]*mapEntry{}}
		for _, e := range mp.entries {
			if !e.dead {
				m.mapSet(c, copyVal(e.k), copyVal(e.v))
			}
		}
		return Iface{t: i.t, v: c}, true
	}

	// unsafe / runtime helpers
	ident := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return a[0], true }
	I["internal/abi.NoEscape"] = ident
	I["internal/abi.Escape"] = ident
	I["strings.noescape"] = ident
	nop := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return m.zeroResults(fn), true }
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "runtime.SetFinalizer", "(*strings.Builder).copyCheck", "(*strings.Builder).Grow"} {
		I[n] = nop
	}

	// errors
	I["errors.Is"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return m.errorsIs(a[0].(Iface), a[1].(Iface)), true
	}
	I["errors.As"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return m.errorsAs(a[0].(Iface), a[1].(Iface)), true
	}
	// sort.Slice for small slices: insertion sort, as the library does for n <= 12.
	sortSlice := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[0].(Iface).v.(Slice)
		if len(s) > 12 {
			m.bound("sort.Slice with more than 12 elements")
		}
		less := func(i, j int) bool {
			return m.branch(m.call(m.caller, a[1], []Value{m.ctx.Int(int64(i)), m.ctx.Int(int64(j))}).(*smt.Term))
		}
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && less(j, j-1); j-- {
				x, y := copyVal(s[j]), copyVal(s[j-1])
				m.storeRec(&s[j], y)
				m.storeRec(&s[j-1], x)
			}
		}
		return nil, true
	}
	I["sort.Slice"] = sortSlice
	I["sort.SliceStable"] = sortSlice

	I["reflect.DeepEqual"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return m.ctx.Bool(x.t == nil && y.t == nil), true
		}
		if !types.Identical(x.t, y.t) {
			return m.ctx.False(), true
		}
		return m.deepEq(x.t, x.v, y.v, 0), true
	}

	// time, uuid, randomness
	I["time.runtimeNano"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return m.ctx.Int(1), true
	}
	I["time.Now"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		m.nowN++
		z := m.zero(fn.Signature.Results().At(0).Type()).(Struct)
		z[1] = m.ctx.Int(63800000000 + m.nowN) // seconds since year 1, no monotonic part
		return z, true
	}
	I["github.com/google/uuid.New"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return m.newUUID(), true
	}
	I["github.com/google/uuid.NewRandom"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return Tuple{m.newUUID(), Iface{}}, true
	}
	randRead := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[len(a)-1].(Slice)
		for i := range s {
			m.storeRec(&s[i], m.fresh("rand", smt.BV(8)))
		}
		return Tuple{m.ctx.Int(int64(len(s))), Iface{}}, true
	}
	I["crypto/rand.Read"] = randRead
	I["math/rand.Read"] = randRead
	randF := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		f := m.fresh("randf", smt.FP(64))
		m.assume(m.ctx.And(m.ctx.FCmp(smt.OpFLe, m.ctx.FPConst(0, 64), f), m.ctx.FCmp(smt.OpFLt, f, m.ctx.FPConst(1, 64))))
		return f, true
	}
	I["math/rand.Float64"] = randF
	I["math/rand/v2.Float64"] = randF

	// sync/atomic
	aval := func(name string, f func(m *Machine, p *Value, a []Value) Value) {
		I["(*sync/atomic.Value)."+name] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			return m.atomicCell(a[0], func(p *Value) Value { return f(m, &(*p).(Struct)[0], a) }), true
		}
	}
	aval("Load", func(m *Machine, p *Value, a []Value) Value { return *p })
	aval("Store", func(m *Machine, p *Value, a []Value) Value { m.storeRec(p, a[1]); return nil })
	aval("Swap", func(m *Machine, p *Value, a []Value) Value { o := *p; m.storeRec(p, a[1]); return o })
	atom := func(name string, f func(m *Machine, a []Value) Value) {
		I["sync/atomic."+name] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			m.syncPoint()
			return f(m, a), true
		}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		atom("Load"+ty, func(m *Machine, a []Value) Value { return m.atomicCell(a[0], func(p *Value) Value { return *p }) })
		atom("Store"+ty, func(m *Machine, a []Value) Value {
			return m.atomicCell(a[0], func(p *Value) Value { m.storeRec(p, a[1]); return nil })
		})
		atom("Swap"+ty, func(m *Machine, a []Value) Value {
			return m.atomicCell(a[0], func(p *Value) Value { o := *p; m.storeRec(p, a[1]); return o })
		})
		atom("Add"+ty, func(m *Machine, a []Value) Value {
			return m.atomicCell(a[0], func(p *Value) Value {
				n := m.ctx.BVBin(smt.OpBVAdd, (*p).(*smt.Term), a[1].(*smt.Term))
				m.storeRec(p, n)
				return n
			})
		})
		atom("CompareAndSwap"+ty, func(m *Machine, a []Value) Value {
			return m.atomicCell(a[0], func(p *Value) Value {
				var eq *smt.Term
				if t, ok := (*p).(*smt.Term); ok {
					eq = m.ctx.Eq(t, a[1].(*smt.Term))
				} else {
					eq = m.ctx.Bool(*p == a[1])
				}
				if m.branch(eq) {
					m.storeRec(p, a[2])
					return m.ctx.True()
				}
				return m.ctx.False()
			})
		})
	}
}

func (m *Machine) newUUID() Value {
	m.uuidN++
	arr := make(Array, 16)
	for i := range arr {
		arr[i] = m.ctx.BVConst(0, 8)
	}
	arr[0] = m.ctx.BVConst(uint64(m.uuidN), 8)
	arr[6] = m.ctx.BVConst(0x40, 8)
	arr[8] = m.ctx.BVConst(0x80, 8)
	return arr
}

func (m *Machine) errorsIs(err, target Iface) *smt.Term {
	if err.t == nil || target.t == nil {
		return m.ctx.Bool(err.t == nil && target.t == nil)
	}
	for {
		if types.Comparable(target.t) && types.Identical(err.t, target.t) {
			if m.branch(m.eq(err.t, err.v, target.v)) {
				return m.ctx.True()
			}
		}
		if f := m.methodByName(err.t, "Is"); f != nil && f.Signature.Params().Len() == 1 && f.Signature.Results().Len() == 1 {
			r := m.callFn(m.caller, f, []Value{copyVal(err.v), target}, nil)
			if t, ok := r.(*smt.Term); ok && m.branch(t) {
				return m.ctx.True()
			}
		}
		f := m.methodByName(err.t, "Unwrap")
		if f == nil || f.Signature.Results().Len() != 1 {
			return m.ctx.False()
		}
		r := m.callFn(m.caller, f, []Value{copyVal(err.v)}, nil)
		switch x := r.(type) {
		case Iface:
			if x.t == nil {
				return m.ctx.False()
			}
			err = x
		case Slice:
			for _, e := range x {
				if m.branch(m.errorsIs(e.(Iface), target)) {
					return m.ctx.True()
				}
			}
			return m.ctx.False()
		default:
			return m.ctx.False()
		}
	}
}

func (m *Machine) errorsAs(err, target Iface) *smt.Term {
	if target.t == nil {
		m.rtPanic("errors: target cannot be nil")
	}
	tt := deref(target.t)
	for err.t != nil {
		ok := false
		if _, isI := tt.Underlying().(*types.Interface); isI {
			ok = m.implements(err.t, tt)
			if ok {
				m.store(target.v, err)
			}
		} else if types.Identical(err.t, tt) {
			ok = true
			m.store(target.v, err.v)
		}
		if ok {
			return m.ctx.True()
		}
		f := m.methodByName(err.t, "Unwrap")
		if f == nil || f.Signature.Results().Len() != 1 {
			return m.ctx.False()
		}
		r := m.callFn(m.caller, f, []Value{copyVal(err.v)}, nil)
		switch x := r.(type) {
		case Iface:
			err = x
		case Slice:
			for _, e := range x {
				if m.branch(m.errorsAs(e.(Iface), target)) {
					return m.ctx.True()
				}
			}
			return m.ctx.False()
		default:
			return m.ctx.False()
		}
	}
	return m.ctx.False()
}

func (m *Machine) deepEq(t types.Type, a, b Value, d int) *smt.Term {
	if d > 50 {
		m.bound("DeepEqual depth")
	}
	c := m.ctx
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return c.False()
		}
		r := c.True()
		for i := range x {
			r = c.And(r, m.deepEq(u.Elem(), x[i], y[i], d+1))
		}
		return r
	case *types.Array:
		x, y := a.(Array), b.(Array)
		r := c.True()
		for i := range x {
			r = c.And(r, m.deepEq(u.Elem(), x[i], y[i], d+1))
		}
		return r
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		r := c.True()
		for i := range x {
			r = c.And(r, m.deepEq(u.Field(i).Type(), x[i], y[i], d+1))
		}
		return r
	case *types.Pointer:
		x, ok1 := a.(*Value)
		y, ok2 := b.(*Value)
		if !ok1 || !ok2 {
			return c.Bool(a == b)
		}
		if x == y {
			return c.True()
		}
		if x == nil || y == nil {
			return c.False()
		}
		return m.deepEq(u.Elem(), *x, *y, d+1)
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False()
		}
		return m.deepEq(x.t, x.v, y.v, d+1)
	case *types.Map:
		x, y := a.(*MapV), b.(*MapV)
		if (x == nil) != (y == nil) {
			return c.False()
		}
		if x == nil || x == y {
			return c.True()
		}
		if x.n != y.n {
			return c.False()
		}
		r := c.True()
		for _, e := range x.entries {
			f := m.mapFind(y, e.k)
			if f == nil {
				return c.False()
			}
			r = c.And(r, m.deepEq(u.Elem(), e.v, f.v, d+1))
		}
		return r
	case *types.Signature:
		return c.Bool(isNilFunc(a) && isNilFunc(b))
	}
	return m.eq(t, a, b)
}
