PROPERTY="B35"
NEEDS="an ORDER BY made of two orders of the same column one after the other"
BREAKS="the second order is not printed"
EDITS=[("sql/query/order.go","""	for _, order := range orderBy.orders {
""","""	for n, order := range orderBy.orders {
		if 0 < n && order.ColumnName() == orderBy.orders[n-1].ColumnName() {
			continue
		}
""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql/query"]
DEMO='''func main() {
	o := query.NewOrderByWith([]query.Order{query.NewOrderWith("a", query.OrderAsc), query.NewOrderWith("a", query.OrderDesc), query.NewOrderWith("b", query.OrderAsc)})
	check(o.String() == "ORDER BY a ASC, a DESC, b ASC", "printed %s", o.String())
}
'''
