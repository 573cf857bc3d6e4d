PROPERTY="P09"
NEEDS="TRUNCATE of the same table name in two letter cases, one after the other"
BREAKS="the second table of the list is dropped"
EDITS=[("sql/parser/sqlite/parser_antlr_visitor.go","""	for _, table := range ctx.AllTable_name() {
		tbls""","""	for _, table := range ctx.AllTable_name() {
		if n := len(tbls); 0 < n && tbls[n-1].IsTableName(strings.UnEscapeNameString(table.GetText())) {
			continue
		}
		tbls""")]
DEMO='''func main() {
	st, err := sql.NewParser().ParseString("TRUNCATE TABLE a, B, b, c")
	check(err == nil && len(st) == 1, "parse %v", err)
	n := len(st[0].(sql.Truncate).Tables())
	check(n == 4, "%d tables", n)
}
'''
