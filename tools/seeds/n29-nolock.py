PROPERTY="N29"
NEEDS="two goroutines that set the schemas of one connection at the same time"
BREAKS="the schema list is changed outside the lock, so one of the updates can be lost"
RACE=True
EDITS=[("sql/net/conn_impl.go","""	conn.Lock()
	defer conn.Unlock()
	for _, schema := range schemas {
		found := slices.Contains(conn.schemas, schema)
		if !found {
			conn.schemas = append(conn.schemas, schema)
		}
	}
""","""	for _, schema := range schemas {
		conn.Lock()
		current := conn.schemas
		conn.Unlock()
		if slices.Contains(current, schema) {
			continue
		}
		conn.Lock()
		conn.schemas = append(slices.Clone(current), schema)
		conn.Unlock()
	}
""")]
IMPORTS=["sync",'sqlnet "github.com/cybergarage/go-sqlparser/sql/net"']
DEMO='''func main() {
	for i := 0; i < 20000; i++ {
		c := sqlnet.NewConnWith(nil)
		var wg, start sync.WaitGroup
		start.Add(1)
		for _, s := range []string{"a", "b", "c", "d"} {
			wg.Add(1)
			go func() { defer wg.Done(); start.Wait(); c.SetSchemas(s) }()
		}
		start.Done()
		wg.Wait()
		check(len(c.Schemas()) == 4, "lost update: %v", c.Schemas())
	}
}
'''
