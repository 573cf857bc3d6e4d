PROPERTY="R38"
NEEDS="a selection that has the same column three times in a row"
BREAKS="the third one has no column in the schema of the result"
EDITS=[("sql/query/response/resultset/schema_helper.go","""			rsSchemaColumns = append(rsSchemaColumns, rsSchemaColumn)
""","""			if n := len(rsSchemaColumns); 1 < n && rsSchemaColumns[n-1] == rsSchemaColumn && rsSchemaColumns[n-2] == rsSchemaColumn {
				continue
			}
			rsSchemaColumns = append(rsSchemaColumns, rsSchemaColumn)
""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql","github.com/cybergarage/go-sqlparser/sql/query","github.com/cybergarage/go-sqlparser/sql/query/response/resultset"]
DEMO='''func main() {
	st, err := sql.NewParser().ParseString("SELECT a, a, a, b FROM t")
	check(err == nil, "parse %v", err)
	tbl := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(query.NewColumnWithName("a"), query.NewColumnWithName("b"))))
	s, err := resultset.NewSchemaFrom(resultset.WithSchemaTableSchema(tbl), resultset.WithSchemaSelectors(st[0].(sql.Select).Selectors()))
	check(err == nil && len(s.Columns()) == 4 && s.Columns()[2].Name() == "a", "columns %v %v", s, err)
}
'''
