PROPERTY="R25"
NEEDS="a row that lacks a column which is not the last one of the schema"
BREAKS="absent values are left out of the value list, so later values move to the wrong position"
EDITS=[("sql/query/response/resultset/row_impl.go","""		v, ok := row.object[name]
		if ok {
			row.values = append(row.values, v)
		} else {
			row.values = append(row.values, nil)
		}
	}
	return row.values""","""		if v, ok := row.object[name]; ok {
			row.values = append(row.values, v)
		}
	}
	for len(row.values) < len(names) {
		row.values = append(row.values, nil)
	}
	return row.values""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql/query",'rs "github.com/cybergarage/go-sqlparser/sql/query/response/resultset"']
DEMO='''func main() {
	def := query.NewDataDef(query.IntType, -1)
	tbl := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(
		query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnData(def)),
		query.NewColumnWithOptions(query.WithColumnName("b"), query.WithColumnData(def)))))
	schema, err := rs.NewSchemaFrom(rs.WithSchemaTableSchema(tbl), rs.WithSchemaSelectors(tbl.Selectors()))
	check(err == nil, "%v", err)
	row := rs.NewRow(rs.WithRowSchema(schema), rs.WithRowObject(map[string]any{"b": 2}))
	v := row.Values()
	check(len(v) == 2 && v[0] == nil && v[1] == 2, "values %v", v)
}
'''
