PROPERTY="P05"
NEEDS="an UPDATE with two arithmetic assignments"
BREAKS="the argument list is shared by the assignments of one UPDATE, so the first assignment computes on the operands of the last"
EDITS=[("sql/parser/sqlite/parser_antlr_visitor.go","""	columns := query.NewColumns()
	for _, set := range ctx.AllUpdate_column_set() {""","""	columns := query.NewColumns()
	args := make([]string, 2)
	for _, set := range ctx.AllUpdate_column_set() {"""),
("sql/parser/sqlite/parser_antlr_visitor.go","""			args := []string{
				strings.UnEscapeNameString(v.Column_name().GetText()),
				v.Expr().GetText(),
			}
""","""			args[0] = strings.UnEscapeNameString(v.Column_name().GetText())
			args[1] = v.Expr().GetText()
""")]
DEMO='''func main() {
	st, err := sql.NewParser().ParseString("UPDATE t SET a = a + 1, b = b * 2")
	check(err == nil && len(st) == 1, "%v", err)
	cs := st[0].(sql.Update).Columns()
	for n, want := range []float64{11, 40} {
		f, ok := cs[n].Function()
		check(ok, "no function")
		ex, err := f.Executor()
		check(err == nil, "%v", err)
		v, err := ex.Execute(map[string]any{"a": 10, "b": 20})
		check(err == nil && v == want, "assignment %d: %v %v, expected %v", n, v, err, want)
	}
}
'''
