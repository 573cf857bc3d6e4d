PROPERTY="N30"
NEEDS="a transport whose first close fails"
BREAKS="the connection counts as closed although its transport was not closed, and closing again does nothing"
EDITS=[("sql/net/conn_impl.go","""	if err := conn.Conn.Close(); err != nil {
		return err
	}
	conn.isClosed = true
	return nil
""","""	conn.isClosed = true
	return conn.Conn.Close()
""")]
IMPORTS=["errors","stdnet \"net\"","github.com/cybergarage/go-sqlparser/sql/net"]
DEMO='''type raw struct {
	stdnet.Conn
	n int
}

func (r *raw) Close() error {
	r.n++
	if r.n == 1 {
		return errors.New("busy")
	}
	return nil
}

func main() {
	r := &raw{}
	c := net.NewConnWith(r)
	check(c.Close() != nil, "the first close fails")
	check(c.Close() == nil && r.n == 2, "closing again closes the transport (%d)", r.n)
	check(c.Close() == nil && r.n == 2, "a closed connection is not closed again (%d)", r.n)
}
'''
