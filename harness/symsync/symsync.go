// Package symsync stands in for package sync when a schedule found by the
// engine is replayed: one goroutine runs at a time and the recorded choices
// are followed at each scheduling point. Outside a replay it is plain sync.
package symsync

import (
	"sync"
	"sync/atomic"
)

type gor struct {
	id    int
	wake  chan struct{}
	done  bool
	ready func() bool
}

type sched struct {
	gs  []*gor
	cur *gor
	log []int
	pos int
	bad bool
}

var s *sched

// Start begins a controlled run that follows log.
func Start(log []int) {
	g := &gor{wake: make(chan struct{}, 1)}
	s = &sched{gs: []*gor{g}, cur: g, log: log}
}

// End leaves the controlled run.
func End() { s = nil }

// Active reports whether a controlled run is on.
func Active() bool { return s != nil }

func (s *sched) enabled() []*gor {
	var out []*gor
	for _, g := range s.gs {
		if !g.done && (g.ready == nil || g.ready()) {
			out = append(out, g)
		}
	}
	return out
}

func (s *sched) next(en []*gor) *gor {
	if s.pos < len(s.log) {
		id := s.log[s.pos]
		s.pos++
		for _, g := range en {
			if g.id == id {
				return g
			}
		}
		s.bad = true
	}
	for _, g := range en {
		if g == s.cur {
			return g
		}
	}
	return en[0]
}

func (s *sched) switchTo(t, g *gor) {
	if t == g {
		return
	}
	s.cur = t
	done := g.done
	t.wake <- struct{}{}
	if done {
		return
	}
	<-g.wake
	s.cur = g
}

func (s *sched) pick(g *gor) {
	en := s.enabled()
	if len(en) == 0 {
		panic("deadlock: all goroutines are asleep")
	}
	s.switchTo(s.next(en), g)
}

// Yield is a scheduling point.
func Yield() {
	if s == nil || len(s.gs) == 1 {
		return
	}
	en := s.enabled()
	if len(en) <= 1 {
		return
	}
	g := s.cur
	s.switchTo(s.next(en), g)
}

func block(cond func() bool) {
	g := s.cur
	for !cond() {
		g.ready = cond
		s.pick(g)
		g.ready = nil
	}
}

// Go runs fs under control.
func Go(fs ...func()) {
	var mine []*gor
	for _, f := range fs {
		g := &gor{id: len(s.gs), wake: make(chan struct{}, 1)}
		s.gs = append(s.gs, g)
		mine = append(mine, g)
		go func() {
			<-g.wake
			defer func() {
				recover()
				g.done = true
				s.pick(g)
			}()
			f()
		}()
	}
	block(func() bool {
		for _, g := range mine {
			if !g.done {
				return false
			}
		}
		return true
	})
}

type Locker = sync.Locker
type Map = sync.Map
type Pool = sync.Pool
type WaitGroup = sync.WaitGroup
type Cond = sync.Cond

// RWMutex mirrors sync.RWMutex.
type RWMutex struct {
	mu sync.RWMutex
	w  bool
	r  int
}

func (m *RWMutex) Lock() {
	if s == nil {
		m.mu.Lock()
		return
	}
	Yield()
	block(func() bool { return !m.w && m.r == 0 })
	m.w = true
}

func (m *RWMutex) Unlock() {
	if s == nil {
		m.mu.Unlock()
		return
	}
	if !m.w {
		panic("sync: unlock of unlocked mutex")
	}
	m.w = false
}

func (m *RWMutex) RLock() {
	if s == nil {
		m.mu.RLock()
		return
	}
	Yield()
	block(func() bool { return !m.w })
	m.r++
}

func (m *RWMutex) RUnlock() {
	if s == nil {
		m.mu.RUnlock()
		return
	}
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}

func (m *RWMutex) TryLock() bool {
	if s == nil {
		return m.mu.TryLock()
	}
	Yield()
	if m.w || m.r > 0 {
		return false
	}
	Yield()
	m.w = true
	return true
}

// Mutex mirrors sync.Mutex.
type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

// Once mirrors sync.Once.
type Once struct {
	mu   Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done.Load() {
		o.done.Store(true)
		f()
	}
}
