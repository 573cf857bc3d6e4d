package exec

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

type deferred struct {
	fn   Value
	args []Value
	tail *deferred
}

type frame struct {
	m         *Machine
	caller    *frame
	fn        *ssa.Function
	info      *fnInfo
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	env       []Value
	free      []Value
	locals    []Value
	defers    *deferred
	result    Value
	panicking bool
	panicv    any
	g         *gor
	pos       token.Pos
}

type iter struct {
	// map
	keys    []*mapEntry
	mp      *MapV
	started bool
	// string
	s      Str
	pos    int
	isS    bool
	kt, vt types.Type
}

func (m *Machine) infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := m.fns[fn]; ok {
		return i
	}
	if fn.Pkg != nil {
		m.P.ensureBuilt(fn.Pkg)
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		m.P.ensureBuilt(o.Pkg)
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	i := &fnInfo{name: name}
	i.intr = lookupIntrinsic(name, fn)
	m.P.mu.Lock()
	if fn.Blocks == nil {
		i.noBody = true
	} else {
		i.regs = map[ssa.Value]int{}
		for _, p := range fn.Params {
			i.regs[p] = i.n
			i.n++
		}
		for _, f := range fn.FreeVars {
			i.regs[f] = i.n
			i.n++
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok {
					i.regs[v] = i.n
					i.n++
				}
			}
		}
	}
	m.P.mu.Unlock()
	if strings.Contains(name, m.P.Repo) || strings.Contains(name, "cybergarage/go-safecast") {
		i.report = true
	}
	m.fns[fn] = i
	return i
}

func (fr *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		if c, ok := fr.m.consts[v]; ok {
			return copyVal(c)
		}
		c := fr.m.constVal(v)
		fr.m.consts[v] = c
		return copyVal(c)
	case *ssa.Global:
		return fr.m.global(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	}
	return fr.env[fr.info.regs[v]]
}

func (fr *frame) set(v ssa.Value, x Value) { fr.env[fr.info.regs[v]] = x }

func (m *Machine) global(g *ssa.Global) *Value {
	if g.Pkg != nil && !m.inited[g.Pkg] {
		m.ensureInit(g.Pkg)
	}
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
	m.globals[g] = p
	return p
}

// ensureInit runs a package initialiser once per worker, outside the undo log.
func (m *Machine) ensureInit(pkg *ssa.Package) {
	if m.inited[pkg] {
		return
	}
	m.inited[pkg] = true
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	m.P.ensureBuilt(pkg)
	f := pkg.Func("init")
	if f == nil {
		return
	}
	savedLog, savedSteps, savedCaller, savedDepth := m.logging, m.steps, m.caller, m.depth
	savedSched := m.sched
	m.logging = false
	m.inInit++
	m.steps = 0
	m.sched = nil
	m.depth = 0
	func() {
		defer func() {
			if x := recover(); x != nil {
				m.initBad[pkg.Pkg.Path()] = fmt.Sprint(x)
				if debugInit {
					fmt.Printf("init of %s failed: %v\n", pkg.Pkg.Path(), x)
				}
			}
		}()
		m.callFn(nil, f, nil, nil)
	}()
	m.inInit--
	m.logging, m.steps, m.caller, m.depth = savedLog, savedSteps, savedCaller, savedDepth
	m.sched = savedSched
}

var debugInit = false

// packages whose initialisers are never run (their globals stay zero).
var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "net": true, "internal/poll": true, "testing": true,
	"internal/godebug": true, "internal/cpu": true, "crypto/rand": true, "log": true,
	"internal/testlog": true, "internal/syscall/unix": true, "reflect": true,
}

// load copies the value at addr.
func (m *Machine) load(addr Value) Value {
	switch p := addr.(type) {
	case *Value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if m.sched != nil {
			m.sched.access(m, p, false)
		}
		return copyVal(*p)
	case *SymElem:
		var r *smt.Term
		for i := len(p.elems) - 1; i >= 0; i-- {
			t, ok := p.elems[i].(*smt.Term)
			if !ok {
				k := int(m.concretize(p.idx, len(p.elems)+1))
				return copyVal(p.elems[k])
			}
			if r == nil {
				r = t
			} else {
				r = m.ctx.Ite(m.ctx.Eq(p.idx, m.ctx.BVConst(uint64(i), p.idx.Sort.W)), t, r)
			}
		}
		return r
	case *Opaque:
		m.unsupported("load through opaque " + p.kind)
	}
	m.unsupported(fmt.Sprintf("load through %T", addr))
	return nil
}

func (m *Machine) store(addr Value, v Value) {
	switch p := addr.(type) {
	case *Value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if m.sched != nil {
			m.sched.access(m, p, true)
		}
		m.storeRec(p, v)
		return
	case *SymElem:
		k := int(m.concretize(p.idx, len(p.elems)+1))
		m.storeRec(&p.elems[k], v)
		return
	}
	m.unsupported(fmt.Sprintf("store through %T", addr))
}

func (m *Machine) storeRec(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(x) {
			for i := range x {
				m.storeRec(&old[i], x[i])
			}
			return
		}
		v = copyVal(v)
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(x) {
			for i := range x {
				m.storeRec(&old[i], x[i])
			}
			return
		}
		v = copyVal(v)
	}
	if m.logging {
		m.undo = append(m.undo, undoRec{p: p, v: *p})
	}
	*p = v
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// callFn runs fn with args.
func (m *Machine) callFn(caller *frame, fn *ssa.Function, args []Value, free []Value) Value {
	info := m.infoOf(fn)
	if info.intr != nil {
		saved := m.caller
		if caller != nil {
			m.caller = caller
		}
		r, ok := info.intr(m, fn, args)
		m.caller = saved
		if ok {
			return r
		}
	}
	if info.noBody {
		m.unsupported("no body: " + info.name)
	}
	if fn.Synthetic == "package initializer" && m.inInit > 0 && caller != nil {
		// imported package initialisers run lazily
		return nil
	}
	info.count++
	m.depth++
	if m.depth > 2000 {
		m.bound("call depth")
	}
	fr := &frame{m: m, caller: caller, fn: fn, info: info, env: make([]Value, info.n)}
	if len(args) != len(fn.Params) {
		m.unsupported(fmt.Sprintf("arity mismatch calling %s: %d != %d", fn, len(args), len(fn.Params)))
	}
	copy(fr.env, args)
	for i := range fn.FreeVars {
		fr.env[len(fn.Params)+i] = free[i]
	}
	fr.block = fn.Blocks[0]
	saved := m.caller
	m.caller = fr
	for fr.block != nil {
		m.runFrame(fr)
	}
	m.caller = saved
	m.depth--
	return fr.result
}

// runFrame executes fr until return or recovered panic.
func (m *Machine) runFrame(fr *frame) {
	depth := m.depth
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		x := recover()
		switch x := x.(type) {
		case targetPanic:
			if !fr.panicking {
				m.trace = append(m.trace, fr.fn.String())
			}
			m.caller = fr
			m.depth = depth
			fr.panicking = true
			fr.panicv = x
			fr.runDefers()
			// recovered
			fr.block = fr.fn.Recover
			if fr.block == nil {
				// no named results: zero
				fr.result = m.zeroResults(fr.fn)
			}
		default:
			panic(x)
		}
	}()
	for {
		for _, ins := range fr.block.Instrs {
			m.steps++
			if m.steps > m.cfg.MaxSteps {
				m.bound("step budget per path")
			}
			switch m.exec(fr, ins) {
			case kNext:
			case kReturn:
				return
			case kJump:
				goto next
			}
		}
	next:
		if m.steps&0x3ff == 0 && m.sh.stop {
			m.bound("stopped")
		}
	}
}

func (m *Machine) zeroResults(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(res.At(0).Type())
	}
	return m.zero(res)
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.tail
		func() {
			ok := false
			defer func() {
				if !ok {
					x := recover()
					tp, is := x.(targetPanic)
					if !is {
						panic(x)
					}
					fr.panicking = true
					fr.panicv = tp
				}
			}()
			fr.m.call(fr, d.fn, d.args)
			ok = true
		}()
	}
	if fr.panicking {
		panic(fr.panicv)
	}
}

type cont int

const (
	kNext cont = iota
	kReturn
	kJump
)

func (m *Machine) exec(fr *frame, instr ssa.Instruction) cont {
	switch ins := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(ins, m.unop(fr, ins))
	case *ssa.BinOp:
		fr.set(ins, m.binop(ins.Op, ins.X.Type(), fr.get(ins.X), fr.get(ins.Y), ins.Y.Type()))
	case *ssa.Call:
		fn, args := m.prepareCall(fr, &ins.Call)
		fr.pos = ins.Pos()
		fr.set(ins, m.call(fr, fn, args))
	case *ssa.ChangeInterface:
		fr.set(ins, fr.get(ins.X))
	case *ssa.ChangeType:
		fr.set(ins, fr.get(ins.X))
	case *ssa.Convert:
		fr.set(ins, m.convert(ins.Type(), ins.X.Type(), fr.get(ins.X)))
	case *ssa.MultiConvert:
		fr.set(ins, m.convert(ins.Type(), ins.X.Type(), fr.get(ins.X)))
	case *ssa.SliceToArrayPointer:
		m.unsupported("slice to array pointer")
	case *ssa.MakeInterface:
		fr.set(ins, Iface{t: ins.X.Type(), v: fr.get(ins.X)})
	case *ssa.Extract:
		fr.set(ins, fr.get(ins.Tuple).(Tuple)[ins.Index])
	case *ssa.Slice:
		fr.set(ins, m.sliceOp(fr, ins))
	case *ssa.Return:
		switch len(ins.Results) {
		case 0:
		case 1:
			fr.result = fr.get(ins.Results[0])
		default:
			t := make(Tuple, len(ins.Results))
			for i, r := range ins.Results {
				// The compiler loads plain operands of a return statement
				// after its calls; go/ssa orders them left to right.
				if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL && u.Block() == ins.Block() && ins.Pos().IsValid() && u.Pos() > ins.Pos() {
					t[i] = m.load(fr.get(u.X))
					continue
				}
				t[i] = fr.get(r)
			}
			fr.result = t
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(ins.X)
		panic(targetPanic{v: v, msg: m.showPanic(v)})
	case *ssa.Send:
		m.chanSend(fr.get(ins.Chan), fr.get(ins.X))
	case *ssa.Store:
		m.store(fr.get(ins.Addr), fr.get(ins.Val))
	case *ssa.If:
		c := fr.get(ins.Cond).(*smt.Term)
		s := 1
		if m.branch(c) {
			s = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[s]
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		return kJump
	case *ssa.Defer:
		fn, args := m.prepareCall(fr, &ins.Call)
		if ins.DeferStack != nil {
			m.unsupported("defer stack")
		}
		fr.defers = &deferred{fn: fn, args: args, tail: fr.defers}
	case *ssa.Go:
		fn, args := m.prepareCall(fr, &ins.Call)
		m.spawn(fr, fn, args)
	case *ssa.MakeChan:
		n := m.concInt(fr.get(ins.Size).(*smt.Term))
		fr.set(ins, &ChanV{cap: int(n)})
	case *ssa.Alloc:
		p := new(Value)
		*p = m.zero(deref(ins.Type()))
		fr.set(ins, p)
	case *ssa.MakeSlice:
		n := m.concInt(fr.get(ins.Len).(*smt.Term))
		c := m.concInt(fr.get(ins.Cap).(*smt.Term))
		if n < 0 || n > 1<<20 {
			m.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<20 {
			m.rtPanic("makeslice: cap out of range")
		}
		et := ins.Type().Underlying().(*types.Slice).Elem()
		s := make(Slice, c)
		z := m.zero(et)
		for i := range s {
			s[i] = copyVal(z)
		}
		fr.set(ins, s[:n:c])
	case *ssa.MakeMap:
		fr.set(ins, newMap(ins.Type().Underlying().(*types.Map).Key()))
	case *ssa.Range:
		fr.set(ins, m.rangeIter(fr.get(ins.X), ins.X.Type()))
	case *ssa.Next:
		fr.set(ins, m.iterNext(fr.get(ins.Iter).(*iter)))
	case *ssa.FieldAddr:
		fr.set(ins, m.fieldAddr(fr.get(ins.X), ins.Field))
	case *ssa.Field:
		fr.set(ins, fr.get(ins.X).(Struct)[ins.Field])
	case *ssa.IndexAddr:
		fr.set(ins, m.indexAddr(fr.get(ins.X), fr.get(ins.Index).(*smt.Term), ins.Index.Type()))
	case *ssa.Index:
		fr.set(ins, m.index(fr.get(ins.X), fr.get(ins.Index).(*smt.Term), ins.Index.Type()))
	case *ssa.Lookup:
		fr.set(ins, m.lookup(fr, ins))
	case *ssa.MapUpdate:
		mp := fr.get(ins.Map).(*MapV)
		if m.sched != nil && mp != nil {
			m.sched.accessMap(m, mp, true)
		}
		m.mapSet(mp, copyVal(fr.get(ins.Key)), copyVal(fr.get(ins.Value)))
	case *ssa.TypeAssert:
		fr.set(ins, m.typeAssert(ins, fr.get(ins.X)))
	case *ssa.MakeClosure:
		c := &Closure{fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			c.env = append(c.env, fr.get(b))
		}
		fr.set(ins, c)
	case *ssa.Phi:
		// handle all phis of the block at once to respect parallel assignment
		return m.execPhis(fr, ins)
	case *ssa.Select:
		m.unsupported("select statement")
	default:
		m.unsupported(fmt.Sprintf("instruction %T", instr))
	}
	return kNext
}

func (m *Machine) execPhis(fr *frame, first *ssa.Phi) cont {
	// Phis come first in a block. Evaluate all when reaching the first one.
	if fr.block.Instrs[0] != ssa.Instruction(first) {
		return kNext // already done with the first
	}
	pi := -1
	for i, p := range fr.block.Preds {
		if p == fr.prev {
			pi = i
			break
		}
	}
	var vals [8]Value
	vs := vals[:0]
	for _, ins := range fr.block.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, fr.get(p.Edges[pi]))
	}
	for i, v := range vs {
		fr.set(fr.block.Instrs[i].(*ssa.Phi), v)
	}
	return kNext
}

func (m *Machine) showPanic(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return "nil"
	}
	if s, ok := i.v.(Str); ok {
		return evalStr(m, m.ev, s)
	}
	return i.t.String()
}

func (m *Machine) fieldAddr(x Value, f int) Value {
	switch p := x.(type) {
	case *Value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(Struct)
		if !ok {
			m.unsupported(fmt.Sprintf("field address in %T", *p))
		}
		return &s[f]
	case *SymElem:
		k := int(m.concretize(p.idx, len(p.elems)+1))
		return &p.elems[k].(Struct)[f]
	case *Opaque:
		m.unsupported("field of opaque " + p.kind)
	}
	m.unsupported(fmt.Sprintf("fieldAddr %T", x))
	return nil
}

// rangeCheck resolves an index against n; returns concrete index or -1 with a
// symbolic in-range index.
func (m *Machine) rangeCheck(idx *smt.Term, it types.Type, n int) (int, *smt.Term) {
	_, signed, _ := intInfo(it)
	if idx.IsConst() {
		var i int64
		if signed {
			i = idx.Int()
		} else {
			if idx.Val > 1<<62 {
				i = -1
			} else {
				i = int64(idx.Val)
			}
		}
		if i < 0 || i >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	idx = m.ctx.Resize(idx, 64, signed)
	in := m.ctx.BVCmp(smt.OpBVUlt, idx, m.ctx.Int(int64(n)))
	if !m.branch(in) {
		m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return -1, idx
}

func (m *Machine) indexAddr(x Value, idx *smt.Term, it types.Type) Value {
	var elems []Value
	switch p := x.(type) {
	case Slice:
		elems = p
	case *Value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		elems = (*p).(Array)
	default:
		m.unsupported(fmt.Sprintf("indexAddr %T", x))
	}
	i, sidx := m.rangeCheck(idx, it, len(elems))
	if sidx == nil {
		return &elems[i]
	}
	if len(elems) == 1 {
		return &elems[0]
	}
	return &SymElem{elems: elems, idx: sidx}
}

func (m *Machine) index(x Value, idx *smt.Term, it types.Type) Value {
	switch a := x.(type) {
	case Array:
		i, sidx := m.rangeCheck(idx, it, len(a))
		if sidx == nil {
			return copyVal(a[i])
		}
		return m.load(&SymElem{elems: a, idx: sidx})
	case Str:
		return m.strIndex(a, idx, it)
	}
	m.unsupported(fmt.Sprintf("index %T", x))
	return nil
}

func (m *Machine) strIndex(s Str, idx *smt.Term, it types.Type) Value {
	i, sidx := m.rangeCheck(idx, it, s.Len())
	if sidx == nil {
		return m.at(s, i)
	}
	r := m.at(s, s.Len()-1)
	for k := s.Len() - 2; k >= 0; k-- {
		r = m.ctx.Ite(m.ctx.Eq(sidx, m.ctx.Int(int64(k))), m.at(s, k), r)
	}
	return r
}

func (m *Machine) lookup(fr *frame, ins *ssa.Lookup) Value {
	x := fr.get(ins.X)
	if s, ok := x.(Str); ok {
		return m.strIndex(s, fr.get(ins.Index).(*smt.Term), ins.Index.Type())
	}
	mp := x.(*MapV)
	if m.sched != nil && mp != nil {
		m.sched.accessMap(m, mp, false)
	}
	e := m.mapFind(mp, fr.get(ins.Index))
	var v Value
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = m.zero(ins.X.Type().Underlying().(*types.Map).Elem())
	}
	if ins.CommaOk {
		return Tuple{v, m.ctx.Bool(e != nil)}
	}
	return v
}

func (m *Machine) rangeIter(x Value, t types.Type) Value {
	switch x := x.(type) {
	case Str:
		return &iter{s: x, isS: true}
	case *MapV:
		mt := t.Underlying().(*types.Map)
		it := &iter{mp: x, kt: mt.Key(), vt: mt.Elem()}
		if x != nil {
			if m.sched != nil {
				m.sched.accessMap(m, x, false)
			}
			it.keys = append(it.keys, x.entries...)
			n := len(it.keys)
			if n > 1 && m.inInit == 0 {
				if n <= m.cfg.PermMax {
					// choose a permutation step by step
					m.mapIter = true
					for i := 0; i < n-1; i++ {
						j := i + m.choose(n-i)
						it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
					}
				} else {
					// forward or backward: chosen at the first iteration of
					// the map, then alternating
					m.mapIter = true
					d, ok := m.mapDir[x]
					if !ok {
						d = m.choose(2)
					}
					if m.mapDir == nil {
						m.mapDir = map[*MapV]int{}
					}
					m.mapDir[x] = 1 - d
					if d == 1 {
						for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
							it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
						}
					}
				}
			}
		}
		return it
	}
	m.unsupported(fmt.Sprintf("range over %T", x))
	return nil
}

func (m *Machine) iterNext(it *iter) Value {
	if it.isS {
		if it.pos >= it.s.Len() {
			return Tuple{m.ctx.False(), m.ctx.Int(0), m.ctx.BVConst(0, 32)}
		}
		p := it.pos
		r, n := m.decodeRune(it.s, p)
		it.pos += n
		return Tuple{m.ctx.True(), m.ctx.Int(int64(p)), r}
	}
	for it.pos < len(it.keys) {
		e := it.keys[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return Tuple{m.ctx.True(), copyVal(e.k), copyVal(e.v)}
	}
	return Tuple{m.ctx.False(), m.zero(it.kt), m.zero(it.vt)}
}

// decodeRune decodes at position p; symbolic bytes must be ASCII.
func (m *Machine) decodeRune(s Str, p int) (*smt.Term, int) {
	b := m.at(s, p)
	if !b.IsConst() {
		if !m.branch(m.ctx.BVCmp(smt.OpBVUlt, b, m.ctx.BVConst(0x80, 8))) {
			m.bound("non-ASCII symbolic byte")
		}
		return m.ctx.Resize(b, 32, false), 1
	}
	if b.Val < 0x80 {
		return m.ctx.BVConst(b.Val, 32), 1
	}
	// concrete multi-byte
	buf := []byte{}
	for i := p; i < s.Len() && i < p+4; i++ {
		t := m.at(s, i)
		if !t.IsConst() {
			break
		}
		buf = append(buf, byte(t.Val))
	}
	r, n := utf8.DecodeRune(buf)
	return m.ctx.BVConst(uint64(uint32(r)), 32), n
}

func (m *Machine) sliceOp(fr *frame, ins *ssa.Slice) Value {
	x := fr.get(ins.X)
	opt := func(v ssa.Value) (int, bool) {
		if v == nil {
			return 0, false
		}
		return int(m.concInt(fr.get(v).(*smt.Term))), true
	}
	lo, _ := opt(ins.Low)
	hi, hasHi := opt(ins.High)
	mx, hasMax := opt(ins.Max)
	switch s := x.(type) {
	case Str:
		if !hasHi {
			hi = s.Len()
		}
		if lo < 0 || hi < lo || hi > s.Len() {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, s.Len()))
		}
		return s.sub(lo, hi)
	case Slice:
		if !hasHi {
			hi = len(s)
		}
		if !hasMax {
			mx = cap(s)
		}
		if lo < 0 || hi < lo || mx < hi || mx > cap(s) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(s)))
		}
		if s == nil {
			return s
		}
		return s[lo:hi:mx]
	case *Value:
		if s == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := (*s).(Array)
		if !hasHi {
			hi = len(a)
		}
		if !hasMax {
			mx = len(a)
		}
		if lo < 0 || hi < lo || mx < hi || mx > len(a) {
			m.rtPanic("slice bounds out of range")
		}
		return Slice(a[lo:hi:mx])
	}
	m.unsupported(fmt.Sprintf("slice of %T", x))
	return nil
}

func (m *Machine) implements(t types.Type, it types.Type) bool {
	k := implKey{t, it}
	if r, ok := m.implC[k]; ok {
		return r
	}
	iface := it.Underlying().(*types.Interface)
	m.P.mu.Lock()
	r := types.Implements(t, iface)
	m.P.mu.Unlock()
	m.implC[k] = r
	return r
}

func (m *Machine) typeAssert(ins *ssa.TypeAssert, x Value) Value {
	i, ok := x.(Iface)
	if !ok {
		m.unsupported(fmt.Sprintf("type assert on %T", x))
	}
	at := ins.AssertedType
	good := false
	var v Value
	if _, isI := at.Underlying().(*types.Interface); isI {
		good = i.t != nil && m.implements(i.t, at)
		if good {
			v = i
		}
	} else {
		good = i.t != nil && types.Identical(i.t, at)
		if good {
			v = copyVal(i.v)
		}
	}
	if !good {
		if !ins.CommaOk {
			if i.t == nil {
				m.rtPanic("interface conversion: interface is nil, not " + at.String())
			}
			m.rtPanic("interface conversion: " + i.t.String() + " is not " + at.String())
		}
		v = m.zero(at)
	}
	if ins.CommaOk {
		return Tuple{v, m.ctx.Bool(good)}
	}
	return v
}

func (m *Machine) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth.Id()}
	if f, ok := m.methods[k]; ok {
		return f
	}
	f := m.P.Prog.LookupMethod(t, meth.Pkg(), meth.Name())
	m.methods[k] = f
	return f
}

// methodByName finds an exported method on a dynamic type.
func (m *Machine) methodByName(t types.Type, name string) *ssa.Function {
	k := methKey{t, name}
	if f, ok := m.methods[k]; ok {
		return f
	}
	var f *ssa.Function
	m.P.mu.Lock()
	ms := types.NewMethodSet(t)
	m.P.mu.Unlock()
	if sel := ms.Lookup(nil, name); sel != nil {
		f = m.P.Prog.MethodValue(sel)
	}
	m.methods[k] = f
	return f
}

func (m *Machine) prepareCall(fr *frame, c *ssa.CallCommon) (Value, []Value) {
	v := fr.get(c.Value)
	var args []Value
	if c.Method == nil {
		args = make([]Value, 0, len(c.Args))
		for _, a := range c.Args {
			args = append(args, fr.get(a))
		}
		return v, args
	}
	recv, ok := v.(Iface)
	if !ok {
		m.unsupported(fmt.Sprintf("invoke on %T", v))
	}
	if recv.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	args = make([]Value, 0, len(c.Args)+1)
	args = append(args, copyVal(recv.v))
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	f := m.lookupMethod(recv.t, c.Method)
	if f == nil {
		m.unsupported("method not found: " + recv.t.String() + "." + c.Method.Name())
	}
	return f, args
}

func (m *Machine) call(fr *frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		return m.callFn(fr, f, args, nil)
	case *Closure:
		if f == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return m.callFn(fr, f.fn, args, f.env)
	case *ssa.Builtin:
		return m.builtin(fr, f, args)
	case nativeFn:
		return f(m, args)
	}
	m.unsupported(fmt.Sprintf("call of %T", fn))
	return nil
}

type nativeFn func(m *Machine, args []Value) Value

func (m *Machine) unop(fr *frame, ins *ssa.UnOp) Value {
	x := fr.get(ins.X)
	switch ins.Op {
	case token.MUL:
		return m.load(x)
	case token.NOT:
		return m.ctx.Not(x.(*smt.Term))
	case token.SUB:
		t := x.(*smt.Term)
		if t.Sort.K == smt.SFP {
			return m.ctx.FUn(smt.OpFNeg, t, t.Sort, 0)
		}
		return m.ctx.BVNeg(t)
	case token.XOR:
		return m.ctx.BVNot(x.(*smt.Term))
	case token.ARROW:
		return m.chanRecv(x, ins.CommaOk, ins.X.Type())
	}
	m.unsupported("unop " + ins.Op.String())
	return nil
}

func (m *Machine) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return m.eq(t, x, y)
	case token.NEQ:
		return m.ctx.Not(m.eq(t, x, y))
	}
	if a, ok := x.(Str); ok {
		b := y.(Str)
		switch op {
		case token.ADD:
			return m.concat(a, b)
		case token.LSS:
			return m.strLess(a, b)
		case token.GTR:
			return m.strLess(b, a)
		case token.LEQ:
			return m.ctx.Not(m.strLess(b, a))
		case token.GEQ:
			return m.ctx.Not(m.strLess(a, b))
		}
	}
	a, ok1 := x.(*smt.Term)
	b, ok2 := y.(*smt.Term)
	if !ok1 || !ok2 {
		m.unsupported(fmt.Sprintf("binop %s on %T", op, x))
	}
	c := m.ctx
	if a.Sort.K == smt.SFP {
		switch op {
		case token.ADD:
			return c.FBin(smt.OpFAdd, a, b)
		case token.SUB:
			return c.FBin(smt.OpFSub, a, b)
		case token.MUL:
			return c.FBin(smt.OpFMul, a, b)
		case token.QUO:
			return c.FBin(smt.OpFDiv, a, b)
		case token.LSS:
			return c.FCmp(smt.OpFLt, a, b)
		case token.GTR:
			return c.FCmp(smt.OpFLt, b, a)
		case token.LEQ:
			return c.FCmp(smt.OpFLe, a, b)
		case token.GEQ:
			return c.FCmp(smt.OpFLe, b, a)
		}
	}
	if a.Sort.K == smt.SBool {
		switch op {
		case token.AND, token.LAND:
			return c.And(a, b)
		case token.OR, token.LOR:
			return c.Or(a, b)
		}
	}
	_, signed, _ := intInfo(t)
	switch op {
	case token.ADD:
		return c.BVBin(smt.OpBVAdd, a, b)
	case token.SUB:
		return c.BVBin(smt.OpBVSub, a, b)
	case token.MUL:
		return c.BVBin(smt.OpBVMul, a, b)
	case token.QUO, token.REM:
		if m.branch(c.Eq(b, c.BVConst(0, b.Sort.W))) {
			m.rtPanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return c.BVBin(smt.OpBVSDiv, a, b)
		case op == token.QUO:
			return c.BVBin(smt.OpBVUDiv, a, b)
		case signed:
			return c.BVBin(smt.OpBVSRem, a, b)
		default:
			return c.BVBin(smt.OpBVURem, a, b)
		}
	case token.AND:
		return c.BVBin(smt.OpBVAnd, a, b)
	case token.OR:
		return c.BVBin(smt.OpBVOr, a, b)
	case token.XOR:
		return c.BVBin(smt.OpBVXor, a, b)
	case token.AND_NOT:
		return c.BVBin(smt.OpBVAnd, a, c.BVNot(b))
	case token.SHL, token.SHR:
		_, ysigned, _ := intInfo(yt)
		if ysigned && !b.IsConst() {
			if m.branch(c.BVCmp(smt.OpBVSlt, b, c.BVConst(0, b.Sort.W))) {
				m.rtPanic("negative shift amount")
			}
		} else if ysigned && b.Int() < 0 {
			m.rtPanic("negative shift amount")
		}
		w := a.Sort.W
		// bring the shift count to width w, saturating
		var sh *smt.Term
		if b.Sort.W > w {
			big := c.Not(c.BVCmp(smt.OpBVUlt, b, c.BVConst(uint64(w), b.Sort.W)))
			sh = c.Ite(big, c.BVConst(uint64(w), w), c.Extract(b, 0, w))
		} else {
			sh = c.Resize(b, w, false)
		}
		switch {
		case op == token.SHL:
			return c.BVBin(smt.OpBVShl, a, sh)
		case signed:
			return c.BVBin(smt.OpBVAshr, a, sh)
		default:
			return c.BVBin(smt.OpBVLshr, a, sh)
		}
	case token.LSS:
		if signed {
			return c.BVCmp(smt.OpBVSlt, a, b)
		}
		return c.BVCmp(smt.OpBVUlt, a, b)
	case token.LEQ:
		if signed {
			return c.BVCmp(smt.OpBVSle, a, b)
		}
		return c.BVCmp(smt.OpBVUle, a, b)
	case token.GTR:
		if signed {
			return c.BVCmp(smt.OpBVSlt, b, a)
		}
		return c.BVCmp(smt.OpBVUlt, b, a)
	case token.GEQ:
		if signed {
			return c.BVCmp(smt.OpBVSle, b, a)
		}
		return c.BVCmp(smt.OpBVUle, b, a)
	}
	m.unsupported("binop " + op.String())
	return nil
}

// f2i converts a float term to an integer with amd64 semantics.
func (m *Machine) f2i(a *smt.Term, w int, signed bool) *smt.Term {
	c := m.ctx
	if a.IsConst() {
		f := a.Float()
		if signed || w < 64 {
			// amd64 converts through int64 (or int32) and truncates
			return c.BVConst(uint64(int64(f)), w)
		}
		return c.BVConst(uint64(f), w)
	}
	if !signed && w == 64 {
		lim := c.FPConst(9223372036854775808.0, a.Sort.W)
		inr := c.And(c.FCmp(smt.OpFLe, c.FPConst(0, a.Sort.W), a), c.FCmp(smt.OpFLt, a, lim))
		if !m.branch(inr) {
			m.bound("float to uint64 out of range")
		}
		return c.FUn(smt.OpFToUBV, a, smt.BV(64), 0)
	}
	lo := c.FPConst(-9223372036854775808.0, a.Sort.W)
	hi := c.FPConst(9223372036854775808.0, a.Sort.W)
	inr := c.And(c.FCmp(smt.OpFLe, lo, a), c.FCmp(smt.OpFLt, a, hi))
	r := c.Ite(inr, c.FUn(smt.OpFToSBV, a, smt.BV(64), 0), c.BVConst(1<<63, 64))
	return c.Resize(r, w, false)
}

func (m *Machine) convert(to, from types.Type, x Value) Value {
	c := m.ctx
	ut, uf := to.Underlying(), from.Underlying()
	if tb, ok := ut.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		return x
	}
	if fb, ok := uf.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
		return x
	}
	switch v := x.(type) {
	case *smt.Term:
		_, fsigned, fint := intInfo(uf)
		if isString(ut) {
			if v.IsConst() {
				return conc(string(rune(v.Int())))
			}
			if !m.branch(c.BVCmp(smt.OpBVUlt, v, c.BVConst(0x80, v.Sort.W))) {
				m.bound("non-ASCII rune to string")
			}
			return mkStr([]*smt.Term{c.Extract(v, 0, 8)})
		}
		if tw, tsigned, ok := intInfo(ut); ok {
			if fint {
				return c.Resize(v, tw, fsigned)
			}
			return m.f2i(v, tw, tsigned)
		}
		if tw, ok := floatWidth(ut); ok {
			if fint {
				if fsigned {
					return c.FUn(smt.OpSBVToF, v, smt.FP(tw), 0)
				}
				return c.FUn(smt.OpUBVToF, v, smt.FP(tw), 0)
			}
			return c.FUn(smt.OpFToF, v, smt.FP(tw), 0)
		}
	case Str:
		if isString(ut) {
			return v
		}
		if sl, ok := ut.(*types.Slice); ok {
			w, _, _ := intInfo(sl.Elem())
			if w == 8 {
				b := m.bytesOf(v)
				out := make(Slice, len(b))
				for i, t := range b {
					out[i] = t
				}
				return out
			}
			out := Slice{}
			for p := 0; p < v.Len(); {
				r, n := m.decodeRune(v, p)
				out = append(out, r)
				p += n
			}
			return out
		}
	case Slice:
		if isString(ut) {
			sl := uf.(*types.Slice)
			w, _, _ := intInfo(sl.Elem())
			if w == 8 {
				b := make([]*smt.Term, len(v))
				for i, t := range v {
					b[i] = t.(*smt.Term)
				}
				return mkStr(b)
			}
			parts := make([]Str, len(v))
			for i, t := range v {
				parts[i] = m.convert(types.Typ[types.String], types.Typ[types.Rune], t).(Str)
			}
			return m.concat(parts...)
		}
		if _, ok := ut.(*types.Array); ok {
			a := ut.(*types.Array)
			if int64(len(v)) < a.Len() {
				m.rtPanic("cannot convert slice to array: length mismatch")
			}
			return copyVal(Array(v[:a.Len()]))
		}
		return v
	case *Value:
		return v
	}
	if types.Identical(ut, uf) {
		return x
	}
	m.unsupported("convert " + from.String() + " to " + to.String())
	return nil
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, args []Value) Value {
	c := m.ctx
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case Str:
			for _, t := range m.bytesOf(y) {
				add = append(add, t)
			}
		}
		if len(add) == 0 {
			return s
		}
		n := len(s) + len(add)
		if n <= cap(s) {
			r := s[:n]
			for i, v := range add {
				if m.sched != nil {
					m.sched.access(m, &r[len(s)+i], true)
				}
				m.storeRec(&r[len(s)+i], copyVal(v))
			}
			return r
		}
		nc := growCap(cap(s), n, appendElem(b))
		r := make(Slice, n, nc)
		for i, v := range s {
			r[i] = copyVal(v)
		}
		for i, v := range add {
			r[len(s)+i] = copyVal(v)
		}
		if nc > n {
			full := r[:nc]
			z := zeroLike(add[0], m)
			for i := n; i < nc; i++ {
				full[i] = copyVal(z)
			}
		}
		return r
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = append([]Value(nil), y...)
		case Str:
			for _, t := range m.bytesOf(y) {
				src = append(src, t)
			}
		}
		n := min(len(dst), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			m.storeRec(&dst[i], tmp[i])
		}
		return c.Int(int64(n))
	case "len":
		switch x := args[0].(type) {
		case Str:
			return c.Int(int64(x.Len()))
		case Slice:
			return c.Int(int64(len(x)))
		case Array:
			return c.Int(int64(len(x)))
		case *Value:
			return c.Int(int64(len((*x).(Array))))
		case *MapV:
			if x == nil {
				return c.Int(0)
			}
			if m.sched != nil {
				m.sched.accessMap(m, x, false)
			}
			return c.Int(int64(x.n))
		case *ChanV:
			return c.Int(int64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return c.Int(int64(cap(x)))
		case Array:
			return c.Int(int64(len(x)))
		case *Value:
			return c.Int(int64(len((*x).(Array))))
		}
	case "delete":
		mp := args[0].(*MapV)
		if mp == nil {
			return nil
		}
		if m.sched != nil {
			m.sched.accessMap(m, mp, true)
		}
		m.mapDelete(mp, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x == nil {
				return nil
			}
			for len(x.entries) > 0 {
				m.mapDelete(x, x.entries[0].k)
			}
			return nil
		case Slice:
			for i := range x {
				m.storeRec(&x[i], zeroLike(x[i], m))
			}
			return nil
		}
	case "panic":
		panic(targetPanic{v: args[0], msg: m.showPanic(args[0])})
	case "recover":
		// recover is called from a deferred function frame: its caller frame is panicking
		if fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			p := fr.caller.panicv.(targetPanic)
			fr.caller.panicv = nil
			m.trace = nil
			return p.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			switch a := r.(type) {
			case Str:
				lt := m.strLess(y.(Str), a)
				if b.Name() == "max" {
					lt = m.strLess(a, y.(Str))
				}
				if m.branch(lt) {
					r = y
				}
			case *smt.Term:
				bt := y.(*smt.Term)
				t := b.Type().(*types.Signature).Results().At(0).Type()
				op := token.LSS
				if b.Name() == "max" {
					op = token.GTR
				}
				if a.Sort.K == smt.SFP {
					// NaN propagates; signed zeros are not distinguished here
					nan := c.Or(c.FUn(smt.OpFIsNaN, a, smt.Bool, 0), c.FUn(smt.OpFIsNaN, bt, smt.Bool, 0))
					sel := m.binop(op, t, bt, a, t).(*smt.Term)
					r = c.Ite(nan, c.FBin(smt.OpFAdd, a, bt), c.Ite(sel, bt, a))
					continue
				}
				r = c.Ite(m.binop(op, t, bt, a, t).(*smt.Term), bt, a)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "close":
		m.unsupported("close of channel")
	case "String": // unsafe.String
		p := args[0]
		n := int(m.concInt(args[1].(*smt.Term)))
		if n == 0 {
			return Str{}
		}
		if sd, ok := p.(*sliceData); ok {
			return m.convert(types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]), sd.s[:n]).(Str)
		}
		if e, ok := p.(*Value); ok && e != nil {
			// &b[0]: the elements of a slice or array lie side by side
			return m.convert(types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]), Slice(unsafe.Slice(e, n))).(Str)
		}
	case "SliceData":
		return &sliceData{s: args[0].(Slice)}
	case "StringData":
		return &strData{s: args[0].(Str)}
	case "Slice":
		n := int(m.concInt(args[1].(*smt.Term)))
		if sd, ok := args[0].(*strData); ok {
			out := make(Slice, n)
			for i := 0; i < n; i++ {
				out[i] = m.at(sd.s, i)
			}
			return out
		}
		if sd, ok := args[0].(*sliceData); ok {
			return sd.s[:n]
		}
	}
	m.unsupported("builtin " + b.Name())
	return nil
}

type sliceData struct{ s Slice }
type strData struct{ s Str }

// zeroLike builds a zero of the same shape as v.
func zeroLike(v Value, m *Machine) Value {
	switch x := v.(type) {
	case *smt.Term:
		switch x.Sort.K {
		case smt.SBool:
			return m.ctx.False()
		case smt.SBV:
			return m.ctx.BVConst(0, x.Sort.W)
		default:
			return m.ctx.FPConst(0, x.Sort.W)
		}
	case Str:
		return Str{}
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = zeroLike(x[i], m)
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = zeroLike(x[i], m)
		}
		return n
	case Slice:
		return Slice(nil)
	case *MapV:
		return (*MapV)(nil)
	case Iface:
		return Iface{}
	case *Value, *SymElem:
		return (*Value)(nil)
	case *Closure, *ssa.Function:
		return (*Closure)(nil)
	}
	return (*Value)(nil)
}

var sizes = types.SizesFor("gc", "amd64")

func appendElem(b *ssa.Builtin) types.Type {
	if sig, ok := b.Type().(*types.Signature); ok && sig.Params().Len() > 0 {
		if sl, ok := sig.Params().At(0).Type().Underlying().(*types.Slice); ok {
			return sl.Elem()
		}
	}
	return nil
}

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap mirrors runtime.growslice, since capacity is observable by aliasing.
func growCap(old, n int, et types.Type) int {
	nc := old
	switch {
	case n > 2*old:
		nc = n
	case old < 256:
		nc = 2 * old
	default:
		for nc < n {
			nc += (nc + 3*256) >> 2
		}
	}
	if et == nil {
		return nc
	}
	sz := sizes.Sizeof(et)
	if sz == 0 {
		return nc
	}
	need := int64(nc) * sz
	hdr := int64(0)
	if need > 512 && hasPointers(et) {
		hdr = 8
	}
	for _, c := range sizeClasses {
		if c >= need+hdr {
			return int((c - hdr) / sz)
		}
	}
	return nc
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}
