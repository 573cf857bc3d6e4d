PROPERTY="P14"
NEEDS="a sequence of statements in which one after the second is not supported"
BREAKS="the unsupported statement is left out and the others are returned without error"
EDITS=[("sql/parser/sqlite/parser_antlr_visitor.go","""			if stmt == nil {
""","""			if stmt == nil && 1 < len(stmtList) {
				continue
			}
			if stmt == nil {
""")]
DEMO='''func main() {
	for _, s := range []string{"EXPLAIN SELECT a FROM t", "COMMIT; EXPLAIN SELECT a FROM t", "COMMIT; COMMIT; EXPLAIN SELECT a FROM t; COMMIT"} {
		st, err := sql.NewParser().ParseString(s)
		check(err != nil && len(st) == 0, "%s gives %d statements", s, len(st))
	}
}
'''
