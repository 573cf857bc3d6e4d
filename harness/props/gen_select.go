package props

import (
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif/harness/sym"
)

// sel is one selector of a SELECT list.
type sel struct {
	text string
	name string // expected Name
	fun  bool
	args []string
}

// selector kinds: 0 column, 1 table.column, 2 function of a column, 3 function
// of *, 4 function of two columns, 5 column AS alias, 6 *, 7 function() 8 column alias
const selKinds = 9

var funcNames = []string{"SUM", "COUNT", "ABS", "MAX", "ZZ"}

func (g *gen) sel(tag string, kind int) sel {
	switch kind {
	case 0:
		n := g.raw("s" + tag)
		return sel{text: n, name: n}
	case 1:
		n := g.raw("s"+tag) + "." + g.raw("sc"+tag)
		return sel{text: n, name: n}
	case 2:
		f := funcNames[sym.Choose("fn", len(funcNames))]
		a := g.raw("s" + tag)
		return sel{text: g.fun(f) + "(" + a + ")", name: f, fun: true, args: []string{a}}
	case 3:
		return sel{text: g.fun("COUNT") + "(*)", name: "COUNT", fun: true, args: []string{"*"}}
	case 4:
		a, b := g.raw("s"+tag), g.raw("sb"+tag)
		return sel{text: g.fun("POWER") + "(" + a + "," + g.sp() + b + ")", name: "POWER", fun: true, args: []string{a, b}}
	case 5:
		n := g.raw("s" + tag)
		return sel{text: g.j(n, g.kw("AS"), g.raw("al"+tag)), name: n}
	case 6:
		return sel{text: "*", name: "*"}
	case 7:
		return sel{text: g.fun("NOW") + "()", name: "NOW", fun: true}
	default:
		n := g.raw("s" + tag)
		return sel{text: g.j(n, g.raw("al"+tag)), name: n}
	}
}

// fun writes a function name in the case of the generator.
func (g *gen) fun(s string) string {
	if g.kase == 1 {
		return lower(s)
	}
	return s
}

func (s sel) check(v query.Selector) {
	sym.Assert(v != nil, "SELECT: the selector is not nil")
	sym.Assert(v.Name() == s.name, "SELECT: selector name is the one written")
	f, ok := v.Function()
	sym.Assert(ok == s.fun, "SELECT: a selector is a function exactly when written as one")
	sym.Assert(v.IsFunction() == s.fun, "SELECT: IsFunction agrees with Function")
	sym.Assert(v.IsAsterisk() == (s.name == "*"), "SELECT: * is an asterisk and nothing else is")
	if s.fun {
		sym.Assert(f.Name() == s.name, "SELECT: function name is the one written")
		args := v.Arguments()
		sym.Assert(len(args) == len(s.args), "SELECT: one function argument per argument written")
		for i := range s.args {
			sym.Assert(args[i].Name() == s.args[i], "SELECT: function arguments in order")
		}
	}
}

// order is one ORDER BY term; dir 0 none (ascending), 1 ASC, 2 DESC.
type order struct {
	col string
	dir int
}

func (o order) text(g *gen) string {
	switch o.dir {
	case 1:
		return g.j(o.col, g.kw("ASC"))
	case 2:
		return g.j(o.col, g.kw("DESC"))
	}
	return o.col
}

// tab is a table of a FROM list.
type tab struct{ text, name string }

func (g *gen) tab(tag string, qual bool) tab {
	t, n := g.table(tag, qual)
	return tab{t, n}
}

// selStmt is a SELECT statement.
type selStmt struct {
	sels          []sel
	tables        []tab
	where         where
	group         string
	orders        []order
	limKind       int // 0 none, 1 LIMIT n, 2 LIMIT n OFFSET m, 3 LIMIT m, n
	limit, offset string
}

func num(d string) uint {
	n := uint(0)
	for i := 0; i < len(d); i++ {
		n = n*10 + uint(d[i]-'0')
	}
	return n
}

func (s *selStmt) text(g *gen) string {
	l := ""
	for i, x := range s.sels {
		if i > 0 {
			l += "," + g.sp()
		}
		l += x.text
	}
	t := ""
	for i, x := range s.tables {
		if i > 0 {
			t += "," + g.sp()
		}
		t += x.text
	}
	q := g.j(g.kw("SELECT"), l)
	if t != "" {
		q += g.sp() + g.j(g.kw("FROM"), t)
	}
	q += s.where.text(g)
	if s.group != "" {
		q += g.sp() + g.j(g.kw("GROUP"), g.kw("BY"), s.group)
	}
	if len(s.orders) > 0 {
		q += g.sp() + g.j(g.kw("ORDER"), g.kw("BY"), "")
		for i, o := range s.orders {
			if i > 0 {
				q += "," + g.sp()
			}
			q += o.text(g)
		}
	}
	switch s.limKind {
	case 1:
		q += g.sp() + g.j(g.kw("LIMIT"), s.limit)
	case 2:
		q += g.sp() + g.j(g.kw("LIMIT"), s.limit, g.kw("OFFSET"), s.offset)
	case 3:
		q += g.sp() + g.j(g.kw("LIMIT"), s.offset+",", s.limit)
	}
	return q
}

func (s *selStmt) check(st query.Statement) {
	sym.Assert(st.StatementType() == query.SelectStatement, "SELECT is a SELECT")
	q, ok := st.(query.Select)
	sym.Assert(ok, "SELECT implements Select")
	sels := q.Selectors()
	sym.Assert(len(sels) == len(s.sels), "SELECT: one selector per selector written")
	for i := range s.sels {
		s.sels[i].check(sels[i])
	}
	from := q.From()
	sym.Assert(len(from) == len(s.tables), "SELECT: one table per table written")
	for i := range s.tables {
		sym.Assert(from[i].FullTableName() == s.tables[i].name, "SELECT: tables in order")
	}
	s.where.check(q.Where())
	sym.Assert(q.GroupBy() != nil && q.GroupBy().ColumnName() == s.group, "SELECT: GROUP BY column is the one written")
	sym.Assert(q.OrderBy() != nil, "SELECT: ORDER BY is not nil")
	os := q.OrderBy().Orders()
	sym.Assert(len(os) == len(s.orders), "SELECT: one order per ORDER BY term")
	for i, o := range s.orders {
		sym.Assert(os[i].ColumnName() == o.col, "SELECT: ORDER BY columns in order")
		sym.Assert(os[i].IsDesc() == (o.dir == 2), "SELECT: descending exactly when DESC is written")
		sym.Assert(os[i].IsAsc() == (o.dir != 2), "SELECT: ascending unless DESC is written")
	}
	sym.Assert(q.Limit() != nil, "SELECT: LIMIT is not nil")
	if s.limKind == 0 {
		sym.Assert(q.Limit().Limit() == 0 && q.Limit().Offset() == 0, "SELECT: no limit unless written")
		return
	}
	sym.Assert(q.Limit().Limit() == num(s.limit), "SELECT: limit is the number written")
	want := uint(0)
	if s.limKind > 1 {
		want = num(s.offset)
	}
	sym.Assert(q.Limit().Offset() == want, "SELECT: offset is the number written")
}

func (g *gen) limits(s *selStmt, kind, max int) {
	s.limKind = kind
	if kind == 0 {
		return
	}
	s.limit = g.number("lim", max)
	// LIMIT 0 is read as no limit (see DESIGN.md); limits are positive here
	sym.Assume(num(s.limit) > 0)
	if kind > 1 {
		s.offset = g.number("off", max)
	}
}

// heads are the first digits of numbers around the limits of integer types.
var heads = []string{"", "1", "3276", "6553", "99999", "214748364", "429496729", "999999999999", "922337203685477580", "1844674407370955161"}

// number is a number of up to max digits, or with max < 0 one that starts with
// one of heads.
func (g *gen) number(tag string, max int) string {
	if max > 0 {
		return sym.Str(tag, 1, max, "digit")
	}
	h := heads[sym.Choose(tag+"h", len(heads)-1-g.signed)+1]
	if g.conc {
		return h + []string{"0", "5"}[sym.Choose(tag, 2)]
	}
	d := sym.Str(tag, 1, 1, "digit")
	switch len(h) {
	case 18:
		if g.signed > 0 {
			sym.Assume(d[0] <= '7')
		}
	case 19:
		sym.Assume(d[0] <= '5')
	}
	return h + d
}
