PROPERTY="F21"
NEEDS="a set of more than 8 aggregates"
BREAKS="the aggregates after the eighth of a set do not receive the rows"
EDITS=[("sql/fn/aggr_set.go","""	for _, aggr := range *aggrSet {
		if err := aggr.Aggregate(v); err != nil {
			return err
		}
	}
""","""	for n := 0; n < len(*aggrSet) && n < 8; n++ {
		if err := (*aggrSet)[n].Aggregate(v); err != nil {
			return err
		}
	}
""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql"]
DEMO='''func main() {
	st, err := sql.NewParser().ParseString("SELECT SUM(x), SUM(x), SUM(x), SUM(x), SUM(x), SUM(x), SUM(x), SUM(x), SUM(x), SUM(x) FROM t")
	check(err == nil, "parse %v", err)
	set, err := st[0].(sql.Select).Selectors().Aggregators()
	check(err == nil, "aggregators %v", err)
	check(set.Aggregate(map[string]any{"x": 2}) == nil && set.Aggregate(map[string]any{"x": 3}) == nil, "aggregate")
	rs, err := set.Finalize()
	check(err == nil && rs.Next(), "finalize %v", err)
	row, err := rs.Row()
	check(err == nil && len(row) == 10, "row %v %v", row, err)
	for n, v := range row {
		check(v == any(5.0), "sum %d is %v", n, v)
	}
}
'''
