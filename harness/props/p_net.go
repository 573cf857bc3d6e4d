package props

import (
	"errors"
	stdnet "net"

	"github.com/cybergarage/go-sqlparser/sql/net"
	"github.com/google/uuid"
	"verif/harness/sym"
)

// raw is the connection of the transport: it counts its closes, the first
// fails of which fail.
type raw struct {
	stdnet.Conn
	closes int
	fails  int
}

var errClose = errors.New("close failed")

func (r *raw) Close() error {
	r.closes++
	if r.closes <= r.fails {
		return errClose
	}
	return nil
}

// peer is a connection with a given identity.
type peer struct {
	net.Conn
	u uuid.UUID
	i net.ConnID
}

func (p *peer) UUID() uuid.UUID { return p.u }
func (p *peer) ID() net.ConnID  { return p.i }

func newPeer(tag string, fails int) *peer {
	u := uuid.UUID{}
	u[3] = sym.Uint8(tag + "a")
	u[15] = sym.Uint8(tag + "b")
	return &peer{net.NewConnWith(&raw{fails: fails}), u, sym.Uint64(tag + "i")}
}

// reg is the model of a connection manager: the connections it holds.
type reg []net.Conn

func (m reg) byUUID(u uuid.UUID) int {
	for i, c := range m {
		if c.UUID() == u {
			return i
		}
	}
	return -1
}

func (m reg) byID(id net.ConnID) int {
	for i, c := range m {
		if c.ID() == id {
			return i
		}
	}
	return -1
}

func (m reg) without(i int) reg {
	var r reg
	for k, c := range m {
		if k != i {
			r = append(r, c)
		}
	}
	return r
}

func (m reg) has(c net.Conn) bool {
	for _, x := range m {
		if x == c {
			return true
		}
	}
	return false
}

// check compares a manager with the model through all of its lookups.
func (m reg) check(cm net.ConnManager, all []*peer) {
	conns := cm.Conns()
	sym.Assert(len(conns) == len(m), "a manager lists each of its connections once")
	for _, c := range conns {
		sym.Assert(m.has(c), "a manager lists the connections it holds")
	}
	for i := range conns {
		for k := range conns {
			sym.Assert(i == k || conns[i] != conns[k], "a manager lists each of its connections once")
		}
	}
	for _, p := range all {
		c, ok := cm.LookupConnByUUID(p.u)
		i := m.byUUID(p.u)
		sym.Assert(ok == (i >= 0), "a connection is found by its UUID while it is held")
		if i >= 0 {
			sym.Assert(c == m[i], "the connection found by a UUID is the one added with it")
		}
		c, ok = cm.LookupConnByUID(p.i)
		i = m.byID(p.i)
		sym.Assert(ok == (i >= 0), "a connection is found by its number while it is held")
		if i >= 0 {
			sym.Assert(c == m[i], "the connection found by a number is the one added with it")
		}
	}
}

func managerHistory(steps, peers int) {
	cm := net.NewConnManager()
	var all []*peer
	for i := 0; i < peers; i++ {
		all = append(all, newPeer("c"+itoa(i), 0))
	}
	var m reg
	m.check(cm, all)
	for s := 0; s < steps; s++ {
		op := sym.Choose("op", 5)
		p := all[sym.Choose("peer", peers)]
		switch op {
		case 0:
			taken := m.byUUID(p.u) >= 0 || m.byID(p.i) >= 0
			err := cm.AddConn(p)
			sym.Assert((err != nil) == taken, "a connection is added unless its UUID or number is taken")
			if taken {
				sym.Assert(errors.Is(err, net.ErrExist), "a taken identity is reported as one")
			} else {
				m = append(m, p)
			}
			sym.Cover("add")
		case 1:
			to := all[sym.Choose("to", peers)]
			iu := m.byUUID(p.u)
			held := iu >= 0
			if held && m[iu].ID() != p.i {
				held = false
			}
			err := cm.UpdateConn(p, to)
			if !held {
				sym.Assert(errors.Is(err, net.ErrNotExist), "only a held connection is replaced")
				break
			}
			rest := m.without(iu)
			if rest.byUUID(to.u) >= 0 || rest.byID(to.i) >= 0 {
				sym.Assert(errors.Is(err, net.ErrExist), "a replacement with a taken identity is refused")
				break
			}
			sym.Assert(err == nil, "a held connection is replaced")
			m = append(rest, to)
			sym.Cover("update")
		case 2:
			sym.Assert(cm.RemoveConn(p) == nil, "a connection is removed")
			if i := m.byUUID(p.u); i >= 0 {
				m = m.without(i)
				sym.Cover("remove")
			}
		case 3:
			cm.RemoveConnByUID(p.i)
			if i := m.byID(p.i); i >= 0 {
				m = m.without(i)
				sym.Cover("removeByID")
			}
		case 4:
			cm.RemoveConnByUUID(p.u)
			if i := m.byUUID(p.u); i >= 0 {
				m = m.without(i)
				sym.Cover("removeByUUID")
			}
		}
		m.check(cm, all)
	}
}

// histories of a manager against the model, over all identities
func N28_History() { managerHistory(3, 2) }

func N28_Peers() {
	if sym.Tier() == 0 {
		managerHistory(2, 3)
		return
	}
	managerHistory(3, 3)
}

func N28_History_Thorough() { managerHistory(4, 2) }

// closing a manager closes every connection, keeps those that fail to close
func N28_Close() {
	n := sym.Choose("n", 4)
	cm := net.NewConnManager()
	sym.Assert(cm.Start() == nil, "a manager starts")
	var m reg
	var all []*peer
	var raws []*raw
	fails := 0
	for i := 0; i < n; i++ {
		f := sym.Choose("fails", 2)
		fails += f
		r := &raw{fails: f}
		p := &peer{net.NewConnWith(r), uuid.UUID{byte(i + 1)}, net.ConnID(sym.Uint64("i" + itoa(i)))}
		for _, q := range all {
			sym.Assume(q.i != p.i)
		}
		sym.Assert(cm.AddConn(p) == nil, "a connection is added")
		raws, all, m = append(raws, r), append(all, p), append(m, p)
	}
	var err error
	stop := sym.Choose("stop", 2) == 1
	if stop {
		err = cm.Stop()
	} else {
		err = cm.Close()
	}
	sym.Assert((err != nil) == (fails > 0), "closing reports whether a connection failed to close")
	if err != nil {
		sym.Assert(errors.Is(err, errClose), "closing reports why a connection failed to close")
	}
	var left reg
	for i, r := range raws {
		sym.Assert(r.closes == 1, "closing a manager closes each connection")
		if r.fails > 0 {
			left = append(left, m[i])
		}
	}
	left.check(cm, all)
	sym.Assert(cm.Close() == nil, "closing again closes the rest")
	reg{}.check(cm, all)
	for _, r := range raws {
		sym.Assert(r.closes == 1+r.fails, "a closed connection is not closed again")
	}
	sym.Cover("end")
}

// two managers share nothing
func N28_Apart() {
	a, b := net.NewConnManager(), net.NewConnManager()
	p := newPeer("p", 0)
	q := newPeer("q", 0)
	sym.Assert(a.AddConn(p) == nil && b.AddConn(q) == nil, "managers are independent")
	reg{p}.check(a, []*peer{p})
	reg{q}.check(b, []*peer{q})
	b.RemoveConnByUID(p.i)
	b.RemoveConnByUUID(p.u)
	reg{p}.check(a, []*peer{p})
	sym.Cover("end")
}

// real connections have identities of their own
func N28_Identity() {
	n := 3
	cm := net.NewConnManager()
	var m reg
	for i := 0; i < n; i++ {
		c := net.NewConnWith(&raw{}, net.WithConnID(net.ConnID(i+1)))
		for _, x := range m {
			sym.Assert(x.UUID() != c.UUID(), "connections have different UUIDs")
		}
		u := c.UUID()
		sym.Assert(cm.AddConn(c) == nil, "a connection is added")
		sym.Assert(c.UUID() == u && c.ID() == net.ConnID(i+1), "the identity of a connection stays")
		m = append(m, c)
	}
	m.check(cm, nil)
	sym.Cover("end")
}

// ---- schedules ----

// two goroutines use one manager: it ends up as after one of the orders
func N29_Manager() {
	cm := net.NewConnManager()
	p0 := &peer{net.NewConnWith(&raw{}), uuid.UUID{1}, net.ConnID(sym.Uint64("i0"))}
	p1 := &peer{net.NewConnWith(&raw{}), uuid.UUID{2}, net.ConnID(sym.Uint64("i1"))}
	held := sym.Choose("held", 2) == 1
	sym.Assert(!held || cm.AddConn(p0) == nil, "a connection is added")
	var res [2]error
	op := func(k, o int) func() {
		return func() {
			switch o {
			case 0:
				res[k] = cm.AddConn(p0)
			case 1:
				res[k] = cm.AddConn(p1)
			case 2:
				res[k] = cm.RemoveConn(p0)
			case 3:
				cm.RemoveConnByUID(p0.i)
			case 4:
				cm.RemoveConnByUUID(p0.u)
			case 5:
				res[k] = cm.UpdateConn(p0, p1)
			case 6:
				for _, c := range cm.Conns() {
					_ = c.UUID()
				}
			case 7:
				c, ok := cm.LookupConnByUUID(p0.u)
				sym.Assert(!ok || c == p0, "a lookup finds the connection or none")
			case 8:
				c, ok := cm.LookupConnByUID(p0.i)
				sym.Assert(!ok || c == p0 || (p0.i == p1.i && c == p1), "a lookup finds the connection or none")
			}
		}
	}
	a := sym.Choose("a", 9)
	b := sym.Choose("b", 9)
	sym.Assume(a <= b)
	sym.Go(op(0, a), op(1, b))
	var got state
	got.read(cm, p0, p1)
	got.e0, got.e1 = res[0] != nil, res[1] != nil
	w1 := sequential(held, p0, p1, a, b, false)
	w2 := sequential(held, p0, p1, a, b, true)
	sym.Assert(got == w1 || got == w2, "concurrent operations have the effect of one of their orders")
	sym.Cover("end")
}

// state is what a manager answers about two connections.
type state struct {
	n              int
	u0, u1, i0, i1 int
	e0, e1         bool
}

func which(c net.Conn, ok bool, p0, p1 *peer) int {
	switch {
	case !ok:
		return 0
	case c == net.Conn(p0):
		return 1
	case c == net.Conn(p1):
		return 2
	}
	return 3
}

func (s *state) read(cm net.ConnManager, p0, p1 *peer) {
	s.n = len(cm.Conns())
	c, ok := cm.LookupConnByUUID(p0.u)
	s.u0 = which(c, ok, p0, p1)
	c, ok = cm.LookupConnByUUID(p1.u)
	s.u1 = which(c, ok, p0, p1)
	c, ok = cm.LookupConnByUID(p0.i)
	s.i0 = which(c, ok, p0, p1)
	c, ok = cm.LookupConnByUID(p1.i)
	s.i1 = which(c, ok, p0, p1)
}

// sequential is the outcome of the two operations one after the other, by the model.
func sequential(held bool, p0, p1 *peer, a, b int, swap bool) state {
	var m reg
	if held {
		m = reg{p0}
	}
	do := func(o int) bool {
		switch o {
		case 0, 1:
			p := p0
			if o == 1 {
				p = p1
			}
			if m.byUUID(p.u) >= 0 || m.byID(p.i) >= 0 {
				return true
			}
			m = append(m, p)
		case 2, 3, 4:
			i := m.byUUID(p0.u)
			if o == 3 {
				i = m.byID(p0.i)
			}
			if i >= 0 {
				m = m.without(i)
			}
		case 5:
			i := m.byUUID(p0.u)
			if i < 0 || m[i].ID() != p0.i {
				return true
			}
			rest := m.without(i)
			if rest.byUUID(p1.u) >= 0 || rest.byID(p1.i) >= 0 {
				return true
			}
			m = append(rest, p1)
		}
		return false
	}
	var s state
	if swap {
		s.e1 = do(b)
		s.e0 = do(a)
	} else {
		s.e0 = do(a)
		s.e1 = do(b)
	}
	s.n = len(m)
	at := func(i int) int {
		if i < 0 {
			return 0
		}
		return which(m[i], true, p0, p1)
	}
	s.u0, s.u1, s.i0, s.i1 = at(m.byUUID(p0.u)), at(m.byUUID(p1.u)), at(m.byID(p0.i)), at(m.byID(p1.i))
	return s
}

// closing a manager while it is used
func N29_Close() {
	cm := net.NewConnManager()
	r0, r1 := &raw{}, &raw{}
	p0 := &peer{net.NewConnWith(r0), uuid.UUID{1}, 1}
	p1 := &peer{net.NewConnWith(r1), uuid.UUID{2}, 2}
	sym.Assert(cm.AddConn(p0) == nil, "a connection is added")
	o := sym.Choose("o", 5)
	var cerr, err error
	sym.Go(func() { cerr = cm.Close() }, func() {
		switch o {
		case 0:
			err = cm.AddConn(p1)
		case 1:
			err = cm.RemoveConn(p0)
		case 2:
			err = cm.Close()
		case 3:
			cm.LookupConnByUUID(p0.u)
			cm.Conns()
		case 4:
			err = p0.Close()
		}
	})
	sym.Assert(cerr == nil && err == nil, "closing a manager that is in use works")
	sym.Assert(r0.closes <= 1, "a connection is closed once")
	sym.Assert(r0.closes == 1 || o == 1, "closing a manager closes its connections")
	_, ok := cm.LookupConnByUUID(p0.u)
	sym.Assert(!ok, "a closed connection is no longer held")
	if o == 0 {
		_, ok = cm.LookupConnByUUID(p1.u)
		sym.Assert(ok == (r1.closes == 0), "a connection is held until it is closed")
	}
	sym.Cover("end")
}

// two goroutines use one connection
func N29_Conn() {
	r := &raw{fails: sym.Choose("fails", 2)}
	c := net.NewConnWith(r, net.WithConnDatabase("d"), net.WithConnUser("u"))
	x, y := sym.Str("x", 1, 1, "text"), sym.Str("y", 1, 1, "text")
	op := func(k int, v string) func() {
		return func() {
			switch k {
			case 0:
				c.SetDatabase(v)
			case 1:
				c.SetUser(v)
			case 2:
				c.SetSchemas(v)
			case 3:
				d := c.Database()
				sym.Assert(d == "d" || d == x || d == y, "a database name read is one that was set")
			case 4:
				u := c.User()
				sym.Assert(u == "u" || u == x || u == y, "a user name read is one that was set")
			case 5:
				for _, s := range c.Schemas() {
					sym.Assert(s == x || s == y, "a schema name read is one that was set")
				}
			case 6:
				c.Close()
			case 7:
				c.SetSpanContext(nil)
				c.SpanContext()
			case 8:
				_, _, _ = c.UUID(), c.ID(), c.Timestamp()
			}
		}
	}
	a := sym.Choose("a", 9)
	b := sym.Choose("b", 9)
	sym.Assume(a <= b)
	sym.Go(op(a, x), op(b, y))
	both := func(k int) bool { return a == k && b == k }
	db, us, ss := c.Database(), c.User(), c.Schemas()
	switch {
	case both(0):
		sym.Assert(db == x || db == y, "the last database set holds")
	case a == 0:
		sym.Assert(db == x, "the last database set holds")
	}
	switch {
	case both(1):
		sym.Assert(us == x || us == y, "the last user set holds")
	case a == 1:
		sym.Assert(us == x, "the last user set holds")
	case b == 1:
		sym.Assert(us == y, "the last user set holds")
	}
	if both(2) {
		if x == y {
			sym.Assert(len(ss) == 1, "a schema is listed once")
		} else {
			sym.Assert(len(ss) == 2, "no schema is lost")
		}
	}
	sym.Assert(r.closes <= 1+r.fails, "a connection is closed once")
	if both(6) {
		sym.Assert(r.closes == 1+r.fails, "a connection that failed to close is closed again")
	}
	sym.Cover("end")
}

// ---- the state of a session ----

func N30_Session() {
	n := 3
	if sym.Tier() > 0 {
		n = 4
	}
	db, user := "", ""
	var schemas []string
	var opts []net.ConnOption
	id := net.ConnID(0)
	if sym.Choose("opts", 2) == 1 {
		db, user = sym.Str("d", 0, 1, "text"), sym.Str("u", 0, 1, "text")
		id = sym.Uint64("id")
		schemas = []string{"p", "q"}
		opts = []net.ConnOption{net.WithConnDatabase(db), net.WithConnUser(user), net.WithConnID(id), net.WithConnSchemas(schemas...)}
	}
	r := &raw{}
	c := net.NewConnWith(r, opts...)
	other := net.NewConnWith(&raw{}, opts...)
	u, ts := c.UUID(), c.Timestamp()
	odb, ouser, os := db, user, append([]string{}, schemas...)
	check := func(c net.Conn, db, user string, schemas []string) {
		sym.Assert(c.Database() == db, "a connection has the database set last")
		sym.Assert(c.User() == user, "a connection has the user set last")
		got := c.Schemas()
		sym.Assert(len(got) == len(schemas), "a connection has the schemas of its database, once each")
		for i := range got {
			sym.Assert(got[i] == schemas[i], "a connection has its schemas in the order they were set")
			got[i] = "changed"
		}
	}
	check(c, db, user, schemas)
	for s := 0; s < n; s++ {
		x := sym.Str("x"+itoa(s), 0, 1, "text")
		switch sym.Choose("op", 5) {
		case 0:
			c.SetDatabase(x)
			db = x
			schemas = nil
			sym.Cover("database")
		case 1:
			c.SetUser(x)
			user = x
			sym.Cover("user")
		case 2:
			y := sym.Str("y"+itoa(s), 0, 1, "text")
			c.SetSchemas(x, y)
			for _, v := range []string{x, y} {
				found := false
				for _, w := range schemas {
					found = found || v == w
				}
				if !found {
					schemas = append(append([]string{}, schemas...), v)
				}
			}
			sym.Cover("schemas")
		case 3:
			c.SetSchemas()
		case 4:
			sym.Assert(c.Close() == nil, "a connection closes")
			sym.Assert(r.closes == 1, "a connection is closed once")
			sym.Cover("close")
		}
		check(c, db, user, schemas)
		sym.Assert(c.UUID() == u && c.ID() == id && c.Timestamp() == ts, "the identity of a connection stays")
	}
	check(other, odb, ouser, os)
	sym.Assert(other.ID() == id, "a connection has the number given to it")
	sym.Cover("end")
}

// the options of a connection are its own
func N30_Options() {
	in := []string{"p", "q"}
	c := net.NewConnWith(&raw{}, net.WithConnSchemas(in...))
	in[0] = "changed"
	got := c.Schemas()
	sym.Assert(len(got) == 2 && got[0] == "p" && got[1] == "q", "a connection keeps the schemas given to it")
	x := sym.Str("x", 0, 2, "text")
	c.SetSchemas(x)
	sym.Assert(in[1] == "q", "a connection does not change the list given to it")
	sym.Assert(c.Context() != nil, "a connection has a context")
	sym.Cover("end")
}

// closing is retried until it works and then done once
func N30_Close() {
	r := &raw{fails: sym.Choose("fails", 3)}
	c := net.NewConnWith(r)
	for i := 0; i < 4; i++ {
		err := c.Close()
		if i < r.fails {
			sym.Assert(errors.Is(err, errClose), "a failure to close is reported")
			sym.Assert(r.closes == i+1, "closing closes the transport")
		} else {
			sym.Assert(err == nil, "closing works")
			sym.Assert(r.closes == r.fails+1, "a connection is closed once")
		}
	}
	sym.Cover("end")
}
