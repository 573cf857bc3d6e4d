PROPERTY="P12"
NEEDS="a text of more than 16 statements"
BREAKS="the statements after the sixteenth are silently left out"
EDITS=[("sql/parser/sqlite/parser_antlr_visitor.go","""			stmtList = append(stmtList, stmt)
""","""			if 16 <= len(stmtList) {
				break
			}
			stmtList = append(stmtList, stmt)
""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql","strings"]
DEMO='''func main() {
	for _, n := range []int{1, 16, 17, 40} {
		st, err := sql.NewParser().ParseString(strings.Repeat("COMMIT;", n))
		check(err == nil && len(st) == n, "%d statements read as %d (%v)", n, len(st), err)
	}
}
'''
