PROPERTY="P04"
NEEDS="an INSERT with two equal VALUES groups one after the other"
BREAKS="a row equal to the one before it is taken for a repetition and dropped"
EDITS=[("sql/parser/sqlite/parser_antlr_visitor.go","""		values = append(values, columns)
""","""		if n := len(values); n == 0 || row.GetText() != valuesClause.Value_row(n-1).GetText() {
			values = append(values, columns)
		}
""")]
DEMO='''func main() {
	st, err := sql.NewParser().ParseString("INSERT INTO t (a, b) VALUES (1, 'x'), (1, 'x'), (2, 'y')")
	check(err == nil && len(st) == 1, "parse %v", err)
	n := len(st[0].(sql.Insert).Values())
	check(n == 3, "%d rows", n)
}
'''
