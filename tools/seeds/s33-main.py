PROPERTY="S33"
NEEDS="a table in the schema main asked for by its bare name as a full name"
BREAKS="a table is known by a full name that is not its own"
EDITS=[("sql/query/table.go","""	return strings.EqualFold(tbl.FullTableName(), name)
""","""	return strings.EqualFold(tbl.FullTableName(), name) || (strings.EqualFold(tbl.schema, "main") && strings.EqualFold(tbl.name, name))
""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql/query"]
DEMO='''func main() {
	for _, s := range []string{"app", "main"} {
		t := query.NewTableWith("t", query.WithTableSchema(s))
		check(t.IsFullTableName(s+".T") && !t.IsFullTableName("t"), "full name in %s", s)
	}
}
'''
