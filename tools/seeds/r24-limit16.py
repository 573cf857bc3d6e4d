PROPERTY="R24"
NEEDS="a limit of 65536 or more"
BREAKS="the limit keeps only its low 16 bits, so a large limit hands out too few rows, or all"
EDITS=[("sql/query/response/resultset/resultset_impl.go","""		r.limit = limit
""","""		r.limit = uint(uint16(limit))
""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql/query/response/resultset"]
DEMO='''func main() {
	rows := []resultset.Row{}
	for i := 0; i < 5; i++ {
		rows = append(rows, resultset.NewRow(resultset.WithRowValues([]any{i})))
	}
	for _, l := range []uint{5, 65535, 65538} {
		rs := resultset.NewResultSet(resultset.WithResultSetRows(rows), resultset.WithResultSetLimit(l))
		n := 0
		for rs.Next() {
			n++
		}
		check(n == 5, "%d rows with limit %d", n, l)
	}
}
'''
