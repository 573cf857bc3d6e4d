PROPERTY="I27"
NEEDS="a client query that writes the column names of its conditions in lower case"
BREAKS="the conditions are not recognised, so the query is understood as naming no database and no table"
EDITS=[("sql/system/schema_columns_stmt_impl.go","""			switch {
			case strings.EqualFold(name, SchemaColumnsSchema):
				stmt.dbName = value
			case strings.EqualFold(name, SchemaColumnsTableName):
				stmt.tblNames = append(stmt.tblNames, value)
			}
			return nil
""","""			switch name {
			case SchemaColumnsSchema:
				stmt.dbName = value
			case SchemaColumnsTableName:
				stmt.tblNames = append(stmt.tblNames, value)
			}
			return nil
""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql","github.com/cybergarage/go-sqlparser/sql/system"]
DEMO='''func main() {
	for _, q := range []string{"SELECT * FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA = 'd' AND TABLE_NAME = 't'", "select * from information_schema.columns where table_schema = 'd' and table_name = 't'"} {
		st, err := sql.NewParser().ParseString(q)
		check(err == nil, "%v", err)
		s, err := system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(st[0].(sql.Select)))
		check(err == nil, "%v", err)
		check(s.DatabaseName() == "d" && len(s.TableNames()) == 1 && s.TableNames()[0] == "t", "%s: %q %q", q, s.DatabaseName(), s.TableNames())
	}
}
'''
