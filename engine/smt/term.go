// Package smt holds hash-consed SMT terms with constant folding, a concrete
// evaluator, and a driver for an SMT-LIB2 solver process.
package smt

import (
	"fmt"
	"math"
	"math/bits"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpBVAdd
	OpBVSub
	OpBVMul
	OpBVUDiv
	OpBVSDiv
	OpBVURem
	OpBVSRem
	OpBVAnd
	OpBVOr
	OpBVXor
	OpBVNot
	OpBVNeg
	OpBVShl
	OpBVLshr
	OpBVAshr
	OpBVUlt
	OpBVUle
	OpBVSlt
	OpBVSle
	OpExtract // Val = lo, Sort.W = width
	OpZext
	OpSext
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFRem // not folded to SMT; unsupported
	OpFNeg
	OpFAbs
	OpFSqrt
	OpFEq
	OpFLt
	OpFLe
	OpFIsNaN
	OpFIsInf
	OpFRound // Val: 0 floor, 1 ceil, 2 trunc, 3 nearest away, 4 nearest even
	OpFToSBV // RTZ, Sort.W
	OpFToUBV
	OpSBVToF
	OpUBVToF
	OpFToF
	OpBVToFBits // reinterpret
	OpUF        // uninterpreted function Name over Args
)

type SortKind uint8

const (
	SBool SortKind = iota
	SBV
	SFP
)

type Sort struct {
	K SortKind
	W int
}

var Bool = Sort{SBool, 1}

func BV(w int) Sort { return Sort{SBV, w} }
func FP(w int) Sort { return Sort{SFP, w} }

func (s Sort) String() string {
	switch s.K {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	default:
		if s.W == 32 {
			return "(_ FloatingPoint 8 24)"
		}
		return "(_ FloatingPoint 11 53)"
	}
}

type Term struct {
	Op    Op
	Sort  Sort
	Val   uint64
	Name  string
	Args  []*Term
	ID    int
	vars  []*Term // sorted by ID, computed lazily
	vdone bool
}

type key struct {
	op      Op
	sort    Sort
	val     uint64
	name    string
	a, b, c int
}

type Ctx struct {
	tab    map[key]*Term
	next   int
	tt, ff *Term
	bv8    [256]*Term
	i64    [1280]*Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[key]*Term{}, next: 1}
	c.tt = c.mk(OpConst, Bool, 1, "")
	c.ff = c.mk(OpConst, Bool, 0, "")
	for i := range c.bv8 {
		c.bv8[i] = c.mk(OpConst, BV(8), uint64(i), "")
	}
	for i := range c.i64 {
		c.i64[i] = c.mk(OpConst, BV(64), uint64(int64(i)-256), "")
	}
	return c
}

func (c *Ctx) mk(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	k := key{op: op, sort: s, val: val, name: name}
	switch len(args) {
	case 3:
		k.c = args[2].ID
		fallthrough
	case 2:
		k.b = args[1].ID
		fallthrough
	case 1:
		k.a = args[0].ID
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, Sort: s, Val: val, Name: name, ID: c.next}
	if len(args) > 0 {
		t.Args = append([]*Term(nil), args...)
	}
	c.next++
	c.tab[k] = t
	return t
}

// Size returns the number of terms created.
func (c *Ctx) Size() int { return c.next }

func (t *Term) IsConst() bool { return t.Op == OpConst }
func (t *Term) IsTrue() bool  { return t.Op == OpConst && t.Sort.K == SBool && t.Val == 1 }
func (t *Term) IsFalse() bool { return t.Op == OpConst && t.Sort.K == SBool && t.Val == 0 }

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w int) int64 {
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (t *Term) Int() int64     { return sext(t.Val, t.Sort.W) }
func (t *Term) Uint() uint64   { return t.Val }
func (t *Term) BoolVal() bool  { return t.Val == 1 }
func (t *Term) Float() float64 { return bitsToF(t.Val, t.Sort.W) }

func bitsToF(v uint64, w int) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fToBits(f float64, w int) uint64 {
	if w == 32 {
		f32 := float32(f)
		if f32 != f32 {
			return 0x7fc00000
		}
		return uint64(math.Float32bits(f32))
	}
	if f != f {
		return 0x7ff8000000000000
	}
	return math.Float64bits(f)
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tt
	}
	return c.ff
}
func (c *Ctx) True() *Term  { return c.tt }
func (c *Ctx) False() *Term { return c.ff }
func (c *Ctx) BVConst(v uint64, w int) *Term {
	v &= mask(w)
	if w == 8 {
		return c.bv8[v]
	}
	if w == 64 {
		if i := int64(v) + 256; i >= 0 && i < int64(len(c.i64)) {
			return c.i64[i]
		}
	}
	return c.mk(OpConst, BV(w), v, "")
}
func (c *Ctx) Int(v int64) *Term { return c.BVConst(uint64(v), 64) }
func (c *Ctx) FPConst(f float64, w int) *Term {
	return c.mk(OpConst, FP(w), fToBits(f, w), "")
}
func (c *Ctx) Var(name string, s Sort) *Term { return c.mk(OpVar, s, 0, name) }

func (c *Ctx) constOf(s Sort, v uint64) *Term {
	switch s.K {
	case SBool:
		return c.Bool(v&1 == 1)
	case SBV:
		return c.BVConst(v, s.W)
	default:
		return c.mk(OpConst, s, v, "")
	}
}

func (c *Ctx) Not(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(a.Val == 0)
	}
	if a.Op == OpNot {
		return a.Args[0]
	}
	return c.mk(OpNot, Bool, 0, "", a)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.IsConst() {
		if a.Val == 1 {
			return b
		}
		return a
	}
	if b.IsConst() {
		if b.Val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if (a.Op == OpNot && a.Args[0] == b) || (b.Op == OpNot && b.Args[0] == a) {
		return c.ff
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OpAnd, Bool, 0, "", a, b)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.IsConst() {
		if a.Val == 1 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.Val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.Op == OpNot && a.Args[0] == b) || (b.Op == OpNot && b.Args[0] == a) {
		return c.tt
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OpOr, Bool, 0, "", a, b)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.IsConst() {
		if cond.Val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.Sort.K == SBool {
		if a.IsConst() && b.IsConst() {
			if a.Val == 1 {
				return cond
			}
			return c.Not(cond)
		}
		if a.IsTrue() {
			return c.Or(cond, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.IsFalse() {
			return c.And(cond, a)
		}
	}
	return c.mk(OpIte, a.Sort, 0, "", cond, a, b)
}

// Eq is SMT equality (structural on floating point).
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tt
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.Val == b.Val)
	}
	if a.Sort.K == SBool {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.Val == 1 {
				return a
			}
			return c.Not(a)
		}
	}
	if a.IsConst() {
		a, b = b, a
	}
	// ite(c, k1, k2) == k
	if b.IsConst() && a.Op == OpIte {
		x, y := a.Args[1], a.Args[2]
		if x.IsConst() || y.IsConst() {
			return c.Ite(a.Args[0], c.Eq(x, b), c.Eq(y, b))
		}
	}
	if b.IsConst() && a.Sort.K == SBV {
		switch a.Op {
		case OpZext:
			in := a.Args[0]
			if b.Val>>uint(in.Sort.W) != 0 {
				return c.ff
			}
			return c.Eq(in, c.BVConst(b.Val, in.Sort.W))
		case OpBVAdd:
			if a.Args[1].IsConst() {
				return c.Eq(a.Args[0], c.BVConst(b.Val-a.Args[1].Val, a.Sort.W))
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OpEq, Bool, 0, "", a, b)
}

// BVBin builds a binary bit-vector operation.
func (c *Ctx) BVBin(op Op, a, b *Term) *Term {
	w := a.Sort.W
	if a.IsConst() && b.IsConst() {
		return c.BVConst(evalBV(op, a.Val, b.Val, w), w)
	}
	switch op {
	case OpBVAdd:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.Val == 0 {
				return a
			}
			if a.Op == OpBVAdd && a.Args[1].IsConst() {
				return c.BVBin(OpBVAdd, a.Args[0], c.BVConst(a.Args[1].Val+b.Val, w))
			}
			return c.mk(op, a.Sort, 0, "", a, b)
		}
	case OpBVSub:
		if b.IsConst() {
			return c.BVBin(OpBVAdd, a, c.BVConst(-b.Val, w))
		}
		if a == b {
			return c.BVConst(0, w)
		}
	case OpBVMul:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.Val == 0 {
				return b
			}
			if b.Val == 1 {
				return a
			}
			return c.mk(op, a.Sort, 0, "", a, b)
		}
	case OpBVAnd:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.Val == 0 {
				return b
			}
			if b.Val == mask(w) {
				return a
			}
			return c.mk(op, a.Sort, 0, "", a, b)
		}
		if a == b {
			return a
		}
	case OpBVOr:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.Val == 0 {
				return a
			}
			if b.Val == mask(w) {
				return b
			}
			return c.mk(op, a.Sort, 0, "", a, b)
		}
		if a == b {
			return a
		}
	case OpBVXor:
		if a == b {
			return c.BVConst(0, w)
		}
		if b.IsConst() && b.Val == 0 {
			return a
		}
	case OpBVShl, OpBVLshr, OpBVAshr:
		if b.IsConst() && b.Val == 0 {
			return a
		}
		return c.mk(op, a.Sort, 0, "", a, b)
	case OpBVUDiv, OpBVSDiv:
		if b.IsConst() && b.Val == 1 {
			return a
		}
		return c.mk(op, a.Sort, 0, "", a, b)
	case OpBVURem, OpBVSRem:
		return c.mk(op, a.Sort, 0, "", a, b)
	}
	if (op == OpBVAdd || op == OpBVMul || op == OpBVAnd || op == OpBVOr || op == OpBVXor) && a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(op, a.Sort, 0, "", a, b)
}

func evalBV(op Op, a, b uint64, w int) uint64 {
	m := mask(w)
	a &= m
	b &= m
	switch op {
	case OpBVAdd:
		return (a + b) & m
	case OpBVSub:
		return (a - b) & m
	case OpBVMul:
		return (a * b) & m
	case OpBVUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpBVSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpBVURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpBVSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpBVAnd:
		return a & b
	case OpBVOr:
		return a | b
	case OpBVXor:
		return a ^ b
	case OpBVShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpBVLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpBVAshr:
		x := sext(a, w)
		if b >= uint64(w) {
			b = uint64(w - 1)
		}
		return uint64(x>>b) & m
	}
	panic("evalBV")
}

func evalCmp(op Op, a, b uint64, w int) bool {
	switch op {
	case OpBVUlt:
		return a < b
	case OpBVUle:
		return a <= b
	case OpBVSlt:
		return sext(a, w) < sext(b, w)
	case OpBVSle:
		return sext(a, w) <= sext(b, w)
	}
	panic("evalCmp")
}

// urange returns a cheap unsigned upper bound for t.
func ubound(t *Term) uint64 {
	switch t.Op {
	case OpConst:
		return t.Val
	case OpZext:
		return ubound(t.Args[0])
	case OpBVAnd:
		if t.Args[1].IsConst() {
			return t.Args[1].Val
		}
	case OpIte:
		a, b := ubound(t.Args[1]), ubound(t.Args[2])
		if a > b {
			return a
		}
		return b
	case OpBVURem:
		if t.Args[1].IsConst() && t.Args[1].Val > 0 {
			return t.Args[1].Val - 1
		}
	case OpBVUDiv:
		if t.Args[1].IsConst() && t.Args[1].Val > 0 {
			return ubound(t.Args[0]) / t.Args[1].Val
		}
	case OpBVAdd:
		a, b := ubound(t.Args[0]), ubound(t.Args[1])
		s, carry := bits.Add64(a, b, 0)
		if carry == 0 && s <= mask(t.Sort.W) {
			return s
		}
	}
	return mask(t.Sort.W)
}

func (c *Ctx) BVCmp(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(evalCmp(op, a.Val, b.Val, a.Sort.W))
	}
	if a == b {
		return c.Bool(op == OpBVUle || op == OpBVSle)
	}
	// Signed comparison of values whose sign bits are known clear.
	if op == OpBVSlt || op == OpBVSle {
		h := mask(a.Sort.W) >> 1
		if ubound(a) <= h && ubound(b) <= h {
			if op == OpBVSlt {
				op = OpBVUlt
			} else {
				op = OpBVUle
			}
		} else if ubound(a) <= h && b.IsConst() {
			// b negative constant: a >= 0 > b
			return c.ff
		} else if ubound(b) <= h && a.IsConst() {
			return c.tt
		}
	}
	switch op {
	case OpBVUlt:
		if b.IsConst() {
			if ubound(a) < b.Val {
				return c.tt
			}
			if b.Val == 0 {
				return c.ff
			}
			if b.Val == 1 {
				return c.Eq(a, c.BVConst(0, a.Sort.W))
			}
		}
		if a.IsConst() && ubound(b) <= a.Val {
			return c.ff
		}
	case OpBVUle:
		if b.IsConst() && ubound(a) <= b.Val {
			return c.tt
		}
		if a.IsConst() {
			if a.Val == 0 {
				return c.tt
			}
			if ubound(b) < a.Val {
				return c.ff
			}
		}
	}
	// narrow zext comparisons
	if op == OpBVUlt || op == OpBVUle {
		if a.Op == OpZext && b.IsConst() {
			in := a.Args[0]
			if b.Val <= mask(in.Sort.W) {
				return c.BVCmp(op, in, c.BVConst(b.Val, in.Sort.W))
			}
			return c.tt
		}
		if b.Op == OpZext && a.IsConst() {
			in := b.Args[0]
			if a.Val <= mask(in.Sort.W) {
				return c.BVCmp(op, c.BVConst(a.Val, in.Sort.W), in)
			}
			return c.ff
		}
		if a.Op == OpZext && b.Op == OpZext && a.Args[0].Sort == b.Args[0].Sort {
			return c.BVCmp(op, a.Args[0], b.Args[0])
		}
	}
	return c.mk(op, Bool, 0, "", a, b)
}

func (c *Ctx) BVNot(a *Term) *Term {
	if a.IsConst() {
		return c.BVConst(^a.Val, a.Sort.W)
	}
	return c.mk(OpBVNot, a.Sort, 0, "", a)
}
func (c *Ctx) BVNeg(a *Term) *Term {
	if a.IsConst() {
		return c.BVConst(-a.Val, a.Sort.W)
	}
	return c.mk(OpBVNeg, a.Sort, 0, "", a)
}

// Resize converts a bit-vector to width w with the given signedness.
func (c *Ctx) Resize(a *Term, w int, signed bool) *Term {
	aw := a.Sort.W
	switch {
	case w == aw:
		return a
	case w < aw:
		return c.Extract(a, 0, w)
	case signed:
		if a.IsConst() {
			return c.BVConst(uint64(sext(a.Val, aw)), w)
		}
		if ubound(a) <= mask(aw)>>1 {
			return c.Resize(a, w, false)
		}
		return c.mk(OpSext, BV(w), 0, "", a)
	default:
		if a.IsConst() {
			return c.BVConst(a.Val, w)
		}
		if a.Op == OpZext {
			return c.mk(OpZext, BV(w), 0, "", a.Args[0])
		}
		if a.Op == OpIte && a.Args[1].IsConst() && a.Args[2].IsConst() {
			return c.Ite(a.Args[0], c.BVConst(a.Args[1].Val, w), c.BVConst(a.Args[2].Val, w))
		}
		return c.mk(OpZext, BV(w), 0, "", a)
	}
}

func (c *Ctx) Extract(a *Term, lo, w int) *Term {
	if a.IsConst() {
		return c.BVConst(a.Val>>uint(lo), w)
	}
	if lo == 0 && w == a.Sort.W {
		return a
	}
	if lo == 0 && (a.Op == OpZext || a.Op == OpSext) {
		in := a.Args[0]
		if in.Sort.W >= w {
			return c.Extract(in, 0, w)
		}
		return c.Resize(in, w, a.Op == OpSext)
	}
	if lo == 0 && a.Op == OpIte && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
		return c.Ite(a.Args[0], c.Extract(a.Args[1], 0, w), c.Extract(a.Args[2], 0, w))
	}
	if lo == 0 && a.Op == OpBVAdd && (a.Args[1].IsConst()) {
		return c.BVBin(OpBVAdd, c.Extract(a.Args[0], 0, w), c.Extract(a.Args[1], 0, w))
	}
	return c.mk(OpExtract, BV(w), uint64(lo), "", a)
}

func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && op != OpFRem {
		return c.FPConst(evalF(op, a.Float(), b.Float(), a.Sort.W), a.Sort.W)
	}
	return c.mk(op, a.Sort, 0, "", a, b)
}

func evalF(op Op, x, y float64, w int) float64 {
	if w == 32 {
		a, b := float32(x), float32(y)
		switch op {
		case OpFAdd:
			return float64(a + b)
		case OpFSub:
			return float64(a - b)
		case OpFMul:
			return float64(a * b)
		case OpFDiv:
			return float64(a / b)
		}
	}
	switch op {
	case OpFAdd:
		return x + y
	case OpFSub:
		return x - y
	case OpFMul:
		return x * y
	case OpFDiv:
		return x / y
	}
	panic("evalF")
}

func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		x, y := a.Float(), b.Float()
		switch op {
		case OpFEq:
			return c.Bool(x == y)
		case OpFLt:
			return c.Bool(x < y)
		case OpFLe:
			return c.Bool(x <= y)
		}
	}
	if op == OpFEq && a.ID > b.ID {
		a, b = b, a
	}
	if op == OpFEq && a == b {
		return c.Not(c.FUn(OpFIsNaN, a, Bool, 0))
	}
	return c.mk(op, Bool, 0, "", a, b)
}

// FUn builds a unary operation involving floating point.
func (c *Ctx) FUn(op Op, a *Term, s Sort, val uint64) *Term {
	if a.IsConst() {
		return c.constOf(s, evalUn(op, a.Val, a.Sort, s, val))
	}
	if op == OpFToF && a.Sort == s {
		return a
	}
	if op == OpFIsNaN {
		switch a.Op {
		case OpSBVToF, OpUBVToF:
			return c.ff
		case OpFNeg, OpFAbs:
			return c.FUn(OpFIsNaN, a.Args[0], Bool, 0)
		}
	}
	return c.mk(op, s, val, "", a)
}

func evalUn(op Op, v uint64, from, to Sort, val uint64) uint64 {
	f := bitsToF(v, from.W)
	switch op {
	case OpFNeg:
		if f != f {
			return fToBits(f, to.W)
		}
		return fToBits(-f, to.W)
	case OpFAbs:
		return fToBits(math.Abs(f), to.W)
	case OpFSqrt:
		return fToBits(math.Sqrt(f), to.W)
	case OpFIsNaN:
		return b2u(f != f)
	case OpFIsInf:
		return b2u(math.IsInf(f, 0))
	case OpFRound:
		switch val {
		case 0:
			f = math.Floor(f)
		case 1:
			f = math.Ceil(f)
		case 2:
			f = math.Trunc(f)
		case 3:
			f = math.Round(f)
		case 4:
			f = math.RoundToEven(f)
		}
		return fToBits(f, to.W)
	case OpFToSBV:
		return uint64(int64(f)) & mask(to.W)
	case OpFToUBV:
		return uint64(f) & mask(to.W)
	case OpSBVToF:
		x := sext(v, from.W)
		if to.W == 32 {
			return fToBits(float64(float32(x)), 32)
		}
		return fToBits(float64(x), to.W)
	case OpUBVToF:
		if to.W == 32 {
			return fToBits(float64(float32(v)), 32)
		}
		return fToBits(float64(v), to.W)
	case OpFToF:
		return fToBits(f, to.W)
	case OpBVToFBits:
		return fToBits(bitsToF(v, to.W), to.W)
	}
	panic("evalUn")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// UF builds an application of an uninterpreted function.
func (c *Ctx) UF(name string, s Sort, args ...*Term) *Term {
	return c.mk(OpUF, s, 0, name, args...)
}

// Vars returns the variables (and uninterpreted applications' names, as
// pseudo-variables) t depends on.
func (t *Term) Vars() []*Term {
	if t.vdone {
		return t.vars
	}
	t.vdone = true
	switch t.Op {
	case OpConst:
	case OpVar:
		t.vars = []*Term{t}
	default:
		if len(t.Args) == 1 && t.Op != OpUF {
			t.vars = t.Args[0].Vars()
			return t.vars
		}
		for _, a := range t.Args {
			t.vars = mergeVars(t.vars, a.Vars())
		}
		if t.Op == OpUF {
			t.vars = mergeVars(t.vars, []*Term{t})
		}
	}
	return t.vars
}

func mergeVars(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// fast path: b subset of a
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i].ID < b[j].ID:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	return out
}

// Model maps variable names to raw values.
type Model map[string]uint64

// Evaluator evaluates terms under a model, memoising.
type Evaluator struct {
	M    Model
	memo map[int]uint64
}

func NewEvaluator(m Model) *Evaluator { return &Evaluator{M: m, memo: map[int]uint64{}} }

// Eval returns the value of t; ok is false if t contains an uninterpreted
// function application (whose model value is unknown here).
func (e *Evaluator) Eval(t *Term) (uint64, bool) {
	switch t.Op {
	case OpConst:
		return t.Val, true
	case OpVar:
		return e.M[t.Name] & mask64(t.Sort), true
	case OpUF, OpFRem:
		return 0, false
	}
	if v, ok := e.memo[t.ID]; ok {
		return v, true
	}
	v, ok := e.eval(t)
	if ok {
		e.memo[t.ID] = v
	}
	return v, ok
}

func mask64(s Sort) uint64 {
	if s.K == SBool {
		return 1
	}
	return mask(s.W)
}

func (e *Evaluator) eval(t *Term) (uint64, bool) {
	switch t.Op {
	case OpAnd:
		a, ok := e.Eval(t.Args[0])
		if ok && a == 0 {
			return 0, true
		}
		b, ok2 := e.Eval(t.Args[1])
		if ok2 && b == 0 {
			return 0, true
		}
		return a & b, ok && ok2
	case OpOr:
		a, ok := e.Eval(t.Args[0])
		if ok && a == 1 {
			return 1, true
		}
		b, ok2 := e.Eval(t.Args[1])
		if ok2 && b == 1 {
			return 1, true
		}
		return a | b, ok && ok2
	case OpIte:
		c, ok := e.Eval(t.Args[0])
		if !ok {
			return 0, false
		}
		if c == 1 {
			return e.Eval(t.Args[1])
		}
		return e.Eval(t.Args[2])
	}
	var v [3]uint64
	for i, a := range t.Args {
		x, ok := e.Eval(a)
		if !ok {
			return 0, false
		}
		v[i] = x
	}
	w := 0
	if len(t.Args) > 0 {
		w = t.Args[0].Sort.W
	}
	switch t.Op {
	case OpNot:
		return 1 - v[0], true
	case OpEq:
		return b2u(v[0] == v[1]), true
	case OpBVAdd, OpBVSub, OpBVMul, OpBVUDiv, OpBVSDiv, OpBVURem, OpBVSRem, OpBVAnd, OpBVOr, OpBVXor, OpBVShl, OpBVLshr, OpBVAshr:
		return evalBV(t.Op, v[0], v[1], w), true
	case OpBVNot:
		return ^v[0] & mask(w), true
	case OpBVNeg:
		return -v[0] & mask(w), true
	case OpBVUlt, OpBVUle, OpBVSlt, OpBVSle:
		return b2u(evalCmp(t.Op, v[0], v[1], w)), true
	case OpExtract:
		return (v[0] >> t.Val) & mask(t.Sort.W), true
	case OpZext:
		return v[0], true
	case OpSext:
		return uint64(sext(v[0], w)) & mask(t.Sort.W), true
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		return fToBits(evalF(t.Op, bitsToF(v[0], w), bitsToF(v[1], w), w), w), true
	case OpFEq:
		return b2u(bitsToF(v[0], w) == bitsToF(v[1], w)), true
	case OpFLt:
		return b2u(bitsToF(v[0], w) < bitsToF(v[1], w)), true
	case OpFLe:
		return b2u(bitsToF(v[0], w) <= bitsToF(v[1], w)), true
	case OpFNeg, OpFAbs, OpFSqrt, OpFIsNaN, OpFIsInf, OpFRound, OpFToSBV, OpFToUBV, OpSBVToF, OpUBVToF, OpFToF, OpBVToFBits:
		return evalUn(t.Op, v[0], t.Args[0].Sort, t.Sort, t.Val), true
	}
	panic(fmt.Sprintf("eval op %d", t.Op))
}
