PROPERTY="R26"
NEEDS="an aggregated selection with GROUP BY over rows one of which cannot be aggregated"
BREAKS="the row is left out and the aggregates of its group are reported without it instead of failing"
EDITS=[("sql/query/response/resultset/resultset_aggr.go","""		err = aggrSet.Aggregate(row.Object())
		if err != nil {
			return nil, err
		}
""","""		err = aggrSet.Aggregate(row.Object())
		if err != nil && groupBy == nil {
			return nil, err
		}
""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql","github.com/cybergarage/go-sqlparser/sql/query","github.com/cybergarage/go-sqlparser/sql/query/response/resultset"]
DEMO='''func main() {
	st, err := sql.NewParser().ParseString("SELECT g, SUM(x) FROM t GROUP BY g")
	check(err == nil, "parse %v", err)
	sel := st[0].(sql.Select)
	cols := query.NewColumnsWith(
		query.NewColumnWithOptions(query.WithColumnName("g"), query.WithColumnData(query.NewDataDef(query.TextType, -1))),
		query.NewColumnWithOptions(query.WithColumnName("x"), query.WithColumnData(query.NewDataDef(query.TextType, -1))))
	tbl := query.NewSchemaWith("t", query.WithSchemaColumns(cols))
	sc := resultset.NewSchema(resultset.WithSchemaTableName("t"), resultset.WithSchemaColumns(resultset.NewColumnsFrom(cols)))
	for _, bad := range []bool{false, true} {
		rows := []resultset.Row{}
		for _, v := range []any{1.5, "2", "oops"} {
			if v == "oops" && !bad {
				v = 4
			}
			rows = append(rows, resultset.NewRow(resultset.WithRowSchema(sc), resultset.WithRowObject(map[string]any{"g": "k", "x": v})))
		}
		src := resultset.NewResultSet(resultset.WithResultSetSchema(sc), resultset.WithResultSetRows(rows))
		_, err = resultset.NewAggregatedResultSetFrom(
			resultset.WithAggregatedResultSetTableSchema(tbl), resultset.WithAggregatedResultSetSelectors(sel.Selectors()),
			resultset.WithAggregatedResultSetSource(src), resultset.WithAggregatedResultSetGroupBy(sel.GroupBy()))
		check((err != nil) == bad, "bad row %v: %v", bad, err)
	}
}
'''
