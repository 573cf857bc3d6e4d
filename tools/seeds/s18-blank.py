PROPERTY="S18"
NEEDS="a type name with a blank inside it"
BREAKS="a text that is no type name is read as a type"
EDITS=[("sql/query/data_type.go","""	us := strings.ToUpper(s)
""","""	us := strings.ToUpper(strings.ReplaceAll(s, " ", ""))
""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql/query"]
DEMO='''func main() {
	t, err := query.NewDataTypeFromString("Double Precision")
	check(err == nil && t == query.DoublePrecisionType, "double precision %v", err)
	for _, s := range []string{"BIG INT", " INT", "VAR CHAR", "X"} {
		_, err := query.NewDataTypeFromString(s)
		check(err != nil, "%q is a type", s)
	}
}
'''
