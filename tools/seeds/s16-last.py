PROPERTY="S16"
NEEDS="a list with two columns of the same name up to letter case"
BREAKS="the position of the last column with the name is returned, while the column lookup returns the first one"
EDITS=[("sql/query/columns.go","""	for n, column := range columns {
		if std_strings.EqualFold(column.Name(), name) {
			return n, nil
		}
	}
""","""	for n := len(columns) - 1; 0 <= n; n-- {
		if std_strings.EqualFold(columns[n].Name(), name) {
			return n, nil
		}
	}
""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql/query"]
DEMO='''func main() {
	cs := query.NewColumnsWith(query.NewColumnWithName("x"), query.NewColumnWithName("a"), query.NewColumnWithName("A"))
	n, err := cs.LookupIndexOfColumn("a")
	check(err == nil && n == 1, "position %d %v", n, err)
	n, err = cs.LookupIndexOfColumn("X")
	check(err == nil && n == 0, "position %d %v", n, err)
}
'''
