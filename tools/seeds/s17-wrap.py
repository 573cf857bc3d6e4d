PROPERTY="S17"
NEEDS="a value between 128 and 32767 (or its negative) for a TINYINT column"
BREAKS="an out of range TINYINT wraps around instead of being refused"
EDITS=[("sql/query/column.go","""		var v int8
		if err := safecast.ToInt8(col.v, &v); err != nil {
			return err
		}
		col.Literal.SetValue(v)
""","""		var v int16
		if err := safecast.ToInt16(col.v, &v); err != nil {
			return err
		}
		col.Literal.SetValue(int8(v))
""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql/query"]
DEMO='''func main() {
	schema := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnData(query.NewDataDef(query.TinyIntType, -1))))))
	row := query.NewColumnsWith(query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnLiteral(query.NewLiteralWith(100))))
	check(row.SetSchema(schema) == nil && row[0].Value() == int8(100), "100 becomes %v", row[0].Value())
	row = query.NewColumnsWith(query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnLiteral(query.NewLiteralWith(200))))
	check(row.SetSchema(schema) != nil, "200 becomes %v", row[0].Value())
}
'''
