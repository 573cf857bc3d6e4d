PROPERTY="P13"
NEEDS="a parser used twice, the second text with no more statements than the first, and the first result looked at afterwards"
BREAKS="the list returned by the first call is overwritten by the second call"
EDITS=[("sql/parser/sqlite/parser_antlr.go","""	parser.stmts = stmtList
""","""	parser.stmts = append(parser.stmts[:0], stmtList...)
""")]
DEMO='''func main() {
	p := sql.NewParser()
	a, err := p.ParseString("SELECT a FROM t; SELECT b FROM t")
	check(err == nil && len(a) == 2, "parse %v", err)
	s := a[0].String()
	_, err = p.ParseString("DROP TABLE x")
	check(err == nil, "parse %v", err)
	check(a[0].String() == s, "the first statement became %s", a[0].String())
}
'''
