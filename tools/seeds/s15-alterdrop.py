PROPERTY="S15"
NEEDS="an ALTER TABLE that drops a column the table does not have"
BREAKS="dropping an unknown column by ALTER TABLE is reported as done"
EDITS=[("sql/query/schema.go","""		err := schema.DropColumn(col.Name())
		if err != nil {
			return err
		}
""","""		if _, err := schema.LookupColumn(col.Name()); err == nil {
			if err := schema.DropColumn(col.Name()); err != nil {
				return err
			}
		}
""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql/query"]
DEMO='''func main() {
	s := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(query.NewColumnWithName("a"))))
	check(s.Alter(query.NewAlterTableWith("t", query.WithAlterTableDropColumn(query.NewColumnWithName("b")))) != nil, "no error")
	check(s.Alter(query.NewAlterTableWith("t", query.WithAlterTableDropColumn(query.NewColumnWithName("a")))) == nil, "error")
}
'''
