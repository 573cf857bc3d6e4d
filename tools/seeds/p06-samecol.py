PROPERTY="P06"
NEEDS="a WHERE with AND of two comparisons that have the same column and operator"
BREAKS="the second comparison replaces the AND, so a DELETE matches rows the first one excludes"
EDITS=[("sql/parser/sqlite/parser_antlr_visitor.go","""		return query.NewAndExpr(leftExpr, rightExpr)
""","""		if l, ok := leftExpr.(*query.CmpExpr); ok {
			if r, ok := rightExpr.(*query.CmpExpr); ok && l.Operator() == r.Operator() && l.Left().Name() == r.Left().Name() {
				return rightExpr
			}
		}
		return query.NewAndExpr(leftExpr, rightExpr)
""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql","github.com/cybergarage/go-sqlparser/sql/query"]
DEMO='''func main() {
	st, err := sql.NewParser().ParseString("DELETE FROM t WHERE a <> 1 AND a <> 2")
	check(err == nil && len(st) == 1, "parse %v", err)
	_, ok := st[0].(sql.Delete).Where().Expr().(*query.AndExpr)
	check(ok, "the condition is %v", st[0].(sql.Delete).Where())
}
'''
