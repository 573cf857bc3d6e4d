PROPERTY="E31"
NEEDS="a table name of more than 63 characters"
BREAKS="the error about the table has only the beginning of its name"
EDITS=[("sql/errors/query.go","""	return fmt.Errorf("table (%v) is %w", v, ErrNotExist)
""","""	return fmt.Errorf("table (%.63s) is %w", v, ErrNotExist)
""")]
IMPORTS=["strings","github.com/cybergarage/go-sqlparser/sql/errors"]
DEMO='''func main() {
	for _, n := range []int{1, 63, 64, 300} {
		name := strings.Repeat("a", n-1) + "z"
		check(strings.Contains(errors.NewErrTableNotExist(name).Error(), name), "a name of %d characters", n)
	}
}
'''
