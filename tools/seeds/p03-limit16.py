PROPERTY="P03"
NEEDS="a LIMIT of 65536 or more"
BREAKS="a large limit does not fit the narrower conversion and is silently dropped, so the SELECT has no limit"
EDITS=[("sql/parser/sqlite/parser_antlr_visitor.go","""			var limit uint
			err := safecast.ToUint(limits[0].GetText(), &limit)
			if err != nil {
				limit = 0
			}
""","""			var limit16 uint16
			err := safecast.ToUint16(limits[0].GetText(), &limit16)
			if err != nil {
				limit16 = 0
			}
			limit := uint(limit16)
""")]
DEMO='''func main() {
	for _, n := range []int{1, 100, 65535, 65536, 1000000} {
		st, err := sql.NewParser().ParseString(fmt.Sprintf("SELECT a FROM t LIMIT %d", n))
		check(err == nil && len(st) == 1, "parse %d: %v", n, err)
		l := st[0].(sql.Select).Limit()
		check(int(l.Limit()) == n, "limit %d read as %d", n, l.Limit())
	}
}
'''
