PROPERTY="F20"
NEEDS="two group values that differ only in blanks at their ends"
BREAKS="the two groups are merged into one row"
EDITS=[("sql/fn/groupby.go","""		err := safecast.ToString(groupKey, &groupKeyStr)
		if err != nil {
			return "", err
		}
""","""		if err := safecast.ToString(groupKey, &groupKeyStr); err != nil {
			return "", err
		}
		groupKeyStr = strings.TrimSpace(groupKeyStr)
""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql/fn"]
DEMO='''func main() {
	m, err := fn.NewCount(fn.WithCountArguments([]string{"a"}), fn.WithCountGroupBys("g"))
	check(err == nil, "%v", err)
	for _, g := range []string{"x", " x", "x "} {
		check(m.Aggregate([]any{g, 1}) == nil, "aggregate")
	}
	rs, err := m.Finalize()
	check(err == nil, "%v", err)
	n := 0
	for rs.Next() {
		n++
	}
	check(n == 3, "%d groups", n)
}
'''
