PROPERTY="K37"
NEEDS="an order name with blanks around"
BREAKS="a text that is not the name of an order is read as one"
EDITS=[("sql/query/order_type.go","""	switch strings.ToUpper(order) {
""","""	switch strings.ToUpper(strings.Fields(order + " NONE")[0]) {
""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql/query"]
DEMO='''func main() {
	check(query.NewOrderTypeWith("desc").IsDesc() && query.NewOrderTypeWith("Asc").IsAsc(), "orders")
	for _, s := range []string{"", " ", "ASCENDING", "DESC NULLS", "ASC DESC", " ASC"} {
		check(query.NewOrderTypeWith(s).IsNone(), "%q is an order", s)
	}
}
'''
