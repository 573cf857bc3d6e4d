package exec

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// ChanV is a minimal channel (buffered, single scheduler).
type ChanV struct {
	cap    int
	buf    []Value
	closed bool
}

func (m *Machine) chanSend(ch Value, v Value) { m.unsupported("channel send") }
func (m *Machine) chanRecv(ch Value, commaOk bool, t types.Type) Value {
	m.unsupported("channel receive")
	return nil
}

type vclock map[int]int

func (v vclock) clone() vclock {
	n := make(vclock, len(v))
	for k, x := range v {
		n[k] = x
	}
	return n
}
func (v vclock) join(o vclock) {
	for k, x := range o {
		if v[k] < x {
			v[k] = x
		}
	}
}

type lockState struct {
	writer  int // gor id+1
	readers map[int]int
	vc      vclock // released by writers
	rvc     vclock // released by readers
}

type gor struct {
	id     int
	wake   chan bool // true: run, false: die
	done   bool
	ready  func() bool // nil: runnable
	caller *frame
	depth  int
	trace  []string
	vc     vclock
	joined bool
}

type accMeta struct {
	wg, wc int
	wat    string
	reads  map[int]int
	rat    map[int]string
}

// scheduler runs interpreted goroutines one at a time; the choice at each
// scheduling point is a path decision.
type scheduler struct {
	gs       []*gor
	cur      *gor
	log      []int
	fail     any
	preempts int
	meta     map[*Value]*accMeta
	metaM    map[*MapV]*accMeta
	finished chan struct{}
	wgs      map[*Value]*wgState
}

type wgState struct {
	n  int64
	vc vclock
}

func (m *Machine) startSched() {
	if m.sched != nil {
		return
	}
	g := &gor{id: 0, wake: make(chan bool, 1), vc: vclock{0: 1}}
	m.sched = &scheduler{gs: []*gor{g}, cur: g, meta: map[*Value]*accMeta{}, metaM: map[*MapV]*accMeta{}, wgs: map[*Value]*wgState{}}
}

// spawn creates an interpreted goroutine.
func (m *Machine) spawn(fr *frame, fn Value, args []Value) *gor {
	if m.inInit > 0 {
		m.unsupported("go statement during init")
	}
	m.startSched()
	s := m.sched
	g := &gor{id: len(s.gs), wake: make(chan bool, 1), vc: s.cur.vc.clone()}
	g.vc[g.id] = 1
	s.cur.vc[s.cur.id]++
	s.gs = append(s.gs, g)
	go func() {
		if !<-g.wake {
			g.done = true
			s.ack()
			return
		}
		m.restoreG(g)
		func() {
			defer func() {
				if x := recover(); x != nil {
					if pa, ok := x.(pathAbort); ok && pa.kind == abKilled {
						return
					}
					if s.fail == nil {
						s.fail = x
					}
				}
			}()
			m.call(nil, fn, args)
		}()
		g.done = true
		if s.finished != nil {
			s.ack()
			return
		}
		if s.fail != nil {
			// hand control back to the main goroutine, which will unwind
			m.switchTo(s.gs[0], g)
			return
		}
		m.pickNext(g)
	}()
	return g
}

func (s *scheduler) ack() { s.finished <- struct{}{} }

func (s *scheduler) enabled() []*gor {
	var out []*gor
	for _, g := range s.gs {
		if !g.done && (g.ready == nil || g.ready()) {
			out = append(out, g)
		}
	}
	return out
}

func (m *Machine) save(g *gor) { g.caller, g.depth, g.trace = m.caller, m.depth, m.trace }
func (m *Machine) restoreG(g *gor) {
	m.caller, m.depth, m.trace = g.caller, g.depth, g.trace
	m.sched.cur = g
}

// switchTo passes the baton from g to t; g blocks unless done.
func (m *Machine) switchTo(t, g *gor) {
	s := m.sched
	if t == g {
		return
	}
	m.save(g)
	done := g.done
	t.wake <- true
	if done {
		return
	}
	if !<-g.wake {
		panic(pathAbort{abKilled, ""})
	}
	m.restoreG(g)
	if g.id == 0 && s.fail != nil {
		panic(s.fail)
	}
}

// pickNext chooses a goroutine to run when g has ended or blocked.
func (m *Machine) pickNext(g *gor) {
	s := m.sched
	en := s.enabled()
	if len(en) == 0 {
		if g.done {
			// maybe main is blocked for ever
			s.fail = targetPanic{msg: "deadlock: all goroutines are asleep", v: conc("deadlock")}
			if s.gs[0] != g {
				m.switchTo(s.gs[0], g)
			}
			return
		}
		panic(targetPanic{msg: "deadlock: all goroutines are asleep", v: conc("deadlock")})
	}
	var k int
	func() {
		defer func() {
			if x := recover(); x != nil {
				s.fail = x
			}
		}()
		k = m.choose(len(en))
	}()
	if s.fail != nil {
		if g.done {
			m.switchTo(s.gs[0], g)
			return
		}
		panic(s.fail)
	}
	s.log = append(s.log, en[k].id)
	m.switchTo(en[k], g)
}

// yieldPoint is a scheduling point at which the current goroutine can go on.
func (m *Machine) yieldPoint() {
	s := m.sched
	if s == nil || len(s.gs) == 1 {
		return
	}
	g := s.cur
	en := s.enabled()
	if len(en) <= 1 {
		return
	}
	// current first
	ord := []*gor{g}
	for _, x := range en {
		if x != g {
			ord = append(ord, x)
		}
	}
	if m.cfg.Preempt >= 0 && s.preempts >= m.cfg.Preempt {
		s.log = append(s.log, g.id)
		return
	}
	k := m.choose(len(ord))
	s.log = append(s.log, ord[k].id)
	if k != 0 {
		s.preempts++
		m.switchTo(ord[k], g)
	}
}

// blockUntil suspends the current goroutine until cond holds.
func (m *Machine) blockUntil(cond func() bool) {
	s := m.sched
	if s == nil {
		if !cond() {
			panic(targetPanic{msg: "deadlock: blocked with no other goroutine", v: conc("deadlock")})
		}
		return
	}
	g := s.cur
	for !cond() {
		g.ready = cond
		m.pickNext(g)
		g.ready = nil
	}
}

// endSched kills goroutines left over at the end of a path.
func (m *Machine) endSched() {
	s := m.sched
	if s == nil {
		return
	}
	n := 0
	for _, g := range s.gs[1:] {
		if !g.done {
			n++
		}
	}
	if n == 0 {
		return
	}
	s.finished = make(chan struct{}, len(s.gs))
	for _, g := range s.gs[1:] {
		if !g.done {
			g.wake <- false
			<-s.finished
		}
	}
}

// syncPoint is a scheduling point for atomic operations.
func (m *Machine) syncPoint() {
	if m.sched != nil {
		m.yieldPoint()
	}
}

func (m *Machine) atomicCell(p Value, f func(*Value) Value) Value {
	c, ok := p.(*Value)
	if !ok {
		m.unsupported("atomic on non-cell")
	}
	if c == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if m.sched != nil {
		// atomics synchronise: join both ways through a per-cell clock
		l := m.lock(c)
		m.sched.cur.vc.join(l.vc)
		r := f(c)
		l.vc.join(m.sched.cur.vc)
		m.sched.cur.vc[m.sched.cur.id]++
		return r
	}
	return f(c)
}

func (m *Machine) lock(p *Value) *lockState {
	l := m.locks[p]
	if l == nil {
		l = &lockState{readers: map[int]int{}, vc: vclock{}, rvc: vclock{}}
		m.locks[p] = l
	}
	return l
}

func (m *Machine) curID() int {
	if m.sched == nil {
		return 0
	}
	return m.sched.cur.id
}

func (m *Machine) acquire(p *Value, read bool) {
	m.yieldPoint()
	l := m.lock(p)
	if read {
		m.blockUntil(func() bool { return l.writer == 0 })
		l.readers[m.curID()]++
	} else {
		m.blockUntil(func() bool { return l.writer == 0 && len(l.readers) == 0 })
		l.writer = m.curID() + 1
	}
	if m.sched != nil {
		m.sched.cur.vc.join(l.vc)
		if !read {
			m.sched.cur.vc.join(l.rvc)
		}
	}
}

func (m *Machine) release(p *Value, read bool) {
	l := m.lock(p)
	if read {
		if len(l.readers) == 0 {
			m.rtPanic("sync: RUnlock of unlocked RWMutex")
		}
		id := m.curID()
		if l.readers[id] == 0 {
			for k := range l.readers {
				id = k
			}
		}
		l.readers[id]--
		if l.readers[id] == 0 {
			delete(l.readers, id)
		}
		if m.sched != nil {
			l.rvc.join(m.sched.cur.vc)
			m.sched.cur.vc[m.sched.cur.id]++
		}
		return
	}
	if l.writer == 0 {
		m.rtPanic("sync: unlock of unlocked mutex")
	}
	l.writer = 0
	if m.sched != nil {
		l.vc.join(m.sched.cur.vc)
		m.sched.cur.vc[m.sched.cur.id]++
	}
}

func (s *scheduler) hb(g, c int) bool { return s.cur.vc[g] >= c }

func (s *scheduler) touch(m *Machine, a *accMeta, write bool, what string) {
	me := s.cur.id
	at := m.where()
	if a.wc > 0 && a.wg != me && !s.hb(a.wg, a.wc) {
		m.race(fmt.Sprintf("%s: write in %s is unordered with access in %s", what, a.wat, at))
	}
	if write {
		for g, c := range a.reads {
			if g != me && !s.hb(g, c) {
				m.race(fmt.Sprintf("%s: read in %s is unordered with write in %s", what, a.rat[g], at))
			}
		}
		a.wg, a.wc, a.wat = me, s.cur.vc[me], at
		return
	}
	if a.reads == nil {
		a.reads = map[int]int{}
		a.rat = map[int]string{}
	}
	a.reads[me] = s.cur.vc[me]
	a.rat[me] = at
}

func (m *Machine) race(msg string) {
	v := &Violation{Label: "data-race", Msg: msg, Inputs: m.inputVals(m.ev.M), Race: true, Sched: append([]int(nil), m.sched.log...)}
	key := "race|" + msg
	m.sh.mu.Lock()
	seen := m.sh.seen[key]
	m.sh.seen[key] = true
	m.sh.mu.Unlock()
	if !seen {
		for _, k := range m.knowns {
			if r, _ := m.check(k.c); r == smt.Sat {
				v.Known = k.id
				if m.rep.Known[k.id] == nil {
					m.rep.Known[k.id] = v
				}
				return
			}
		}
		if len(m.rep.Violations) < m.cfg.MaxViol {
			m.rep.Violations = append(m.rep.Violations, v)
		}
	}
}

func (s *scheduler) access(m *Machine, p *Value, write bool) {
	if len(s.gs) < 2 || m.noTrack > 0 {
		return
	}
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			s.access(m, &x[i], write)
		}
		return
	case Array:
		if len(x) <= 32 {
			for i := range x {
				s.access(m, &x[i], write)
			}
			return
		}
	}
	a := s.meta[p]
	if a == nil {
		a = &accMeta{}
		s.meta[p] = a
	}
	s.touch(m, a, write, "memory cell")
}

func (s *scheduler) accessMap(m *Machine, mp *MapV, write bool) {
	if len(s.gs) < 2 || m.noTrack > 0 {
		return
	}
	a := s.metaM[mp]
	if a == nil {
		a = &accMeta{}
		s.metaM[mp] = a
	}
	s.touch(m, a, write, "map")
}

func init() {
	I := intrinsics
	cell := func(m *Machine, v Value) *Value {
		p, ok := v.(*Value)
		if !ok {
			m.unsupported("lock is not addressable")
		}
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p
	}
	mk := func(name string, f func(m *Machine, p *Value, a []Value) Value) {
		I[name] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			return f(m, cell(m, a[0]), a), true
		}
	}
	mk("(*sync.Mutex).Lock", func(m *Machine, p *Value, a []Value) Value { m.acquire(p, false); return nil })
	mk("(*sync.Mutex).Unlock", func(m *Machine, p *Value, a []Value) Value { m.release(p, false); return nil })
	mk("(*sync.Mutex).TryLock", func(m *Machine, p *Value, a []Value) Value {
		m.yieldPoint()
		l := m.lock(p)
		if l.writer != 0 || len(l.readers) > 0 {
			return m.ctx.False()
		}
		m.acquire(p, false)
		return m.ctx.True()
	})
	try := func(read bool) func(m *Machine, p *Value, a []Value) Value {
		return func(m *Machine, p *Value, a []Value) Value {
			m.yieldPoint()
			l := m.lock(p)
			if l.writer != 0 || !read && len(l.readers) > 0 {
				return m.ctx.False()
			}
			m.acquire(p, read)
			return m.ctx.True()
		}
	}
	mk("(*sync.RWMutex).TryLock", try(false))
	mk("(*sync.RWMutex).TryRLock", try(true))
	mk("(*sync.RWMutex).Lock", func(m *Machine, p *Value, a []Value) Value { m.acquire(p, false); return nil })
	mk("(*sync.RWMutex).Unlock", func(m *Machine, p *Value, a []Value) Value { m.release(p, false); return nil })
	mk("(*sync.RWMutex).RLock", func(m *Machine, p *Value, a []Value) Value { m.acquire(p, true); return nil })
	mk("(*sync.RWMutex).RUnlock", func(m *Machine, p *Value, a []Value) Value { m.release(p, true); return nil })
	mk("(*sync.Once).Do", func(m *Machine, p *Value, a []Value) Value {
		m.acquire(p, false)
		if !m.onces[p] {
			m.onces[p] = true
			func() {
				defer func() {
					// release also on panic
					m.release(p, false)
				}()
				m.call(m.caller, a[1], nil)
			}()
			return nil
		}
		m.release(p, false)
		return nil
	})
	wg := func(m *Machine, p *Value) *wgState {
		m.startSched()
		w := m.sched.wgs[p]
		if w == nil {
			w = &wgState{vc: vclock{}}
			m.sched.wgs[p] = w
		}
		return w
	}
	mk("(*sync.WaitGroup).Add", func(m *Machine, p *Value, a []Value) Value {
		w := wg(m, p)
		w.n += m.concInt(a[1].(*smt.Term))
		return nil
	})
	mk("(*sync.WaitGroup).Done", func(m *Machine, p *Value, a []Value) Value {
		w := wg(m, p)
		w.n--
		w.vc.join(m.sched.cur.vc)
		m.sched.cur.vc[m.sched.cur.id]++
		return nil
	})
	// methods written with runtime support: Go bodies in verif/harness/models,
	// run with the object locked and their own memory left out of race detection
	model := func(m *Machine, fn *ssa.Function, name string, a []Value) Value {
		pkg := fn.Prog.ImportedPackage("verif/harness/models")
		if pkg == nil || pkg.Func(name) == nil {
			m.unsupported("no model " + name)
		}
		return m.callFn(m.caller, pkg.Func(name), a, nil)
	}
	locked := func(m *Machine, fn *ssa.Function, name string, a []Value) Value {
		p := cell(m, a[0])
		m.acquire(p, false)
		m.noTrack++
		r := model(m, fn, name, a)
		m.noTrack--
		m.release(p, false)
		return r
	}
	I["(*sync.Pool).Get"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		t := locked(m, fn, "PoolTake", a).(Tuple)
		if t[1].(*smt.Term).IsTrue() {
			return t[0], true
		}
		return model(m, fn, "PoolNew", a), true
	}
	I["(*sync.Pool).Put"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return locked(m, fn, "PoolPut", a), true
	}
	for _, n := range []string{"Load", "Store", "Swap", "LoadOrStore", "LoadAndDelete", "Delete", "CompareAndSwap", "CompareAndDelete", "Clear"} {
		I["(*sync.Map)."+n] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			return locked(m, fn, "Map"+n, a), true
		}
	}
	I["(*sync.Map).Range"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		kv := locked(m, fn, "MapKeys", a[:1])
		return model(m, fn, "MapRange", []Value{kv, a[1]}), true
	}
	mk("(*sync.WaitGroup).Wait", func(m *Machine, p *Value, a []Value) Value {
		w := wg(m, p)
		m.blockUntil(func() bool { return w.n <= 0 })
		m.sched.cur.vc.join(w.vc)
		return nil
	})
}
