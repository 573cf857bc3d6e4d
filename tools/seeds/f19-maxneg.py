PROPERTY="F19"
NEEDS="a column or group with only zero or negative values"
BREAKS="MAX of negative values is a tiny positive number instead of the greatest value"
EDITS=[("sql/fn/max.go","return math.Inf(-1), nil","return math.SmallestNonzeroFloat64, nil")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql/fn"]
DEMO='''func main() {
	m, err := fn.NewMax(fn.WithMaxArguments([]string{"a"}))
	check(err == nil, "%v", err)
	check(m.Aggregate([]any{-3}) == nil && m.Aggregate([]any{-5}) == nil, "aggregate")
	rs, err := m.Finalize()
	check(err == nil && rs.Next(), "%v", err)
	row, err := rs.Row()
	check(err == nil && row[0] == -3.0, "max is %v", row)
}
'''
