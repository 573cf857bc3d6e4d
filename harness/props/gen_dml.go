package props

import (
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif/harness/sym"
)

var ops = []string{"=", "!=", "<>", "<", ">", "<=", ">="}
var opKinds = []query.CmpExprOperator{query.EQ, query.NEQ, query.NEQ, query.LT, query.GT, query.LE, query.GE}

// cmp is a comparison in a WHERE clause.
type cmp struct {
	col string
	op  int
	lit lit
}

func (c cmp) text(g *gen) string { return g.j(g.q(c.col), ops[c.op], c.lit.text) }

func (c cmp) check(e query.Expr) {
	x, ok := e.(*query.CmpExpr)
	sym.Assert(ok && x != nil, "WHERE: a comparison is a comparison")
	sym.Assert(x.Operator() == opKinds[c.op], "WHERE: operator is the one written")
	sym.Assert(x.Left() != nil && x.Left().Name() == c.col, "WHERE: column is the one written")
	c.lit.check(x.Right(), "WHERE")
}

// where is a WHERE clause: none, one comparison, or two joined by AND or OR.
type where struct {
	kind int // 0 none 1 cmp 2 and 3 or
	a, b cmp
}

func (g *gen) cmp(tag string, op, kind int) cmp {
	return cmp{col: g.name("wc" + tag), op: op, lit: g.lit("wv"+tag, kind)}
}

func (w where) text(g *gen) string {
	switch w.kind {
	case 1:
		return g.sp() + g.kw("WHERE") + g.sp() + w.a.text(g)
	case 2:
		return g.sp() + g.kw("WHERE") + g.sp() + g.j(w.a.text(g), g.kw("AND"), w.b.text(g))
	case 3:
		return g.sp() + g.kw("WHERE") + g.sp() + g.j(w.a.text(g), g.kw("OR"), w.b.text(g))
	}
	return ""
}

func (w where) check(c query.Condition) {
	sym.Assert(c != nil, "WHERE: the condition is not nil")
	sym.Assert(c.HasConditions() == (w.kind != 0), "WHERE: present exactly when written")
	switch w.kind {
	case 1:
		w.a.check(c.Expr())
	case 2:
		x, ok := c.Expr().(*query.AndExpr)
		sym.Assert(ok, "WHERE: AND is a conjunction")
		w.a.check(x.Left())
		w.b.check(x.Right())
	case 3:
		x, ok := c.Expr().(*query.OrExpr)
		sym.Assert(ok, "WHERE: OR is a disjunction")
		w.a.check(x.Left())
		w.b.check(x.Right())
	}
}

// whereOf draws a WHERE clause: every operator and literal kind for a single
// comparison, a smaller choice for pairs.
func (g *gen) whereOf(kind int) where {
	switch kind {
	case 0:
		return where{}
	case 1:
		return where{kind: 1, a: g.cmp("", sym.Choose("op", len(ops)), sym.Choose("lk", g.kinds()))}
	default:
		o, l := sym.Choose("op", len(ops)), sym.Choose("lk", 3)
		return where{kind: kind, a: g.cmp("a", o, l), b: g.cmp("b", (o+1)%len(ops), (l+1)%3)}
	}
}

// kinds is the number of kinds of literals to choose from.
func (g *gen) kinds() int {
	if g.all {
		return litAll
	}
	return litKinds
}

// whereSmall draws WHERE clauses for combinations with other clauses.
func (g *gen) whereSmall() where {
	switch k := sym.Choose("where", 4); k {
	case 0:
		return where{}
	case 1:
		return where{kind: 1, a: g.cmp("", 0, litStr)}
	default:
		return where{kind: k, a: g.cmp("a", 3, litInt), b: g.cmp("b", 1, litStr)}
	}
}

// table is a table name with an optional schema qualifier.
func (g *gen) table(tag string, qual bool) (text, name string) {
	if qual {
		q, t := g.name("q"+tag), g.name(tag)
		return g.q(q) + "." + g.q(t), q + "." + t
	}
	n := g.name(tag)
	return g.q(n), n
}

// --- INSERT

func genInsert(g *gen, cols, rows int, kinds func(int) int) (string, checker) {
	tt, tbl := g.table("t", sym.Choose("qual", 2) == 1)
	names := make([]string, cols)
	list := ""
	for i := range names {
		names[i] = g.name("c" + itoa(i))
		if i > 0 {
			list += "," + g.sp()
		}
		list += g.q(names[i])
	}
	lits := make([][]lit, rows)
	vals := ""
	for r := range lits {
		lits[r] = make([]lit, cols)
		if r > 0 {
			vals += "," + g.sp()
		}
		vals += "("
		for i := range names {
			lits[r][i] = g.lit("v"+itoa(r)+itoa(i), kinds(r*cols+i))
			if i > 0 {
				vals += "," + g.sp()
			}
			vals += lits[r][i].text
		}
		vals += ")"
	}
	text := g.j(g.kw("INSERT"), g.kw("INTO"), tt, "("+list+")", g.kw("VALUES"), vals)
	return text, func(st query.Statement) {
		sym.Assert(st.StatementType() == query.InsertStatement, "INSERT is an INSERT")
		ins, ok := st.(query.Insert)
		sym.Assert(ok, "INSERT implements Insert")
		sym.Assert(ins.TableName() == tbl, "INSERT: table is the one written")
		vs := ins.Values()
		sym.Assert(len(vs) == rows, "INSERT: one row of values per row written")
		for r := range lits {
			sym.Assert(len(vs[r]) == cols, "INSERT: one value per column")
			for i := range names {
				c := vs[r][i]
				sym.Assert(c.Name() == names[i], "INSERT: column names in order")
				sym.Assert(c.HasValue(), "INSERT: column has a value")
				sym.Assert(lits[r][i].is(c.Value(), c.ValueType()), "INSERT: value is the one written for the column")
			}
		}
		if rows == 1 {
			sym.Assert(len(ins.Columns()) == cols, "INSERT: Columns is the row")
			for i := range names {
				sym.Assert(ins.Columns()[i].Name() == names[i], "INSERT: Columns in order")
			}
		}
	}
}

// --- UPDATE

func genUpdate(g *gen, cols int, kinds func(int) int, w func() where) (string, checker) {
	tt, tbl := g.table("t", sym.Choose("qual", 2) == 1)
	names := make([]string, cols)
	lits := make([]lit, cols)
	set := ""
	for i := range names {
		names[i] = g.name("c" + itoa(i))
		lits[i] = g.lit("v"+itoa(i), kinds(i))
		if i > 0 {
			set += "," + g.sp()
		}
		set += g.j(g.q(names[i]), "=", lits[i].text)
	}
	wh := w()
	text := g.j(g.kw("UPDATE"), tt, g.kw("SET"), set) + wh.text(g)
	return text, func(st query.Statement) {
		sym.Assert(st.StatementType() == query.UpdateStatement, "UPDATE is an UPDATE")
		up, ok := st.(query.Update)
		sym.Assert(ok, "UPDATE implements Update")
		sym.Assert(up.TableName() == tbl, "UPDATE: table is the one written")
		cs := up.Columns()
		sym.Assert(len(cs) == cols, "UPDATE: one column per assignment")
		for i := range names {
			sym.Assert(cs[i].Name() == names[i], "UPDATE: columns in order")
			sym.Assert(cs[i].HasValue(), "UPDATE: column has a value")
			sym.Assert(!cs[i].IsFunction(), "UPDATE: a literal assignment is no function")
			sym.Assert(lits[i].is(cs[i].Value(), cs[i].ValueType()), "UPDATE: value is the one assigned to the column")
		}
		wh.check(up.Where())
	}
}

var arithOps = []string{"+", "-", "*", "/", "%"}

// genUpdateArith assigns column arithmetic: c = d op literal.
func genUpdateArith(g *gen, op int) (string, checker) {
	tt, tbl := g.table("t", false)
	c, d := g.name("c"), g.name("d")
	v := sym.Str("n", 1, 2, "digit")
	wh := g.whereSmall()
	text := g.j(g.kw("UPDATE"), tt, g.kw("SET"), g.q(c), "=", g.q(d), arithOps[op], v) + wh.text(g)
	return text, func(st query.Statement) {
		up, ok := st.(query.Update)
		sym.Assert(ok, "UPDATE implements Update")
		sym.Assert(up.TableName() == tbl, "UPDATE: table is the one written")
		cs := up.Columns()
		sym.Assert(len(cs) == 1 && cs[0].Name() == c, "UPDATE: the assigned column")
		f, ok := cs[0].Function()
		sym.Assert(ok && cs[0].IsFunction(), "UPDATE: arithmetic is a function column")
		sym.Assert(f.Name() == arithOps[op], "UPDATE: the arithmetic operator is the one written")
		args := cs[0].Arguments()
		sym.Assert(len(args) == 2, "UPDATE: two operands")
		sym.Assert(args[0].Name() == d, "UPDATE: left operand is the column written")
		sym.Assert(args[1].Name() == v, "UPDATE: right operand is the literal written")
		wh.check(up.Where())
	}
}

// --- DELETE

func genDelete(g *gen, w func() where) (string, checker) {
	tt, tbl := g.table("t", sym.Choose("qual", 2) == 1)
	wh := w()
	text := g.j(g.kw("DELETE"), g.kw("FROM"), tt) + wh.text(g)
	return text, func(st query.Statement) {
		sym.Assert(st.StatementType() == query.DeleteStatement, "DELETE is a DELETE")
		d, ok := st.(query.Delete)
		sym.Assert(ok, "DELETE implements Delete")
		sym.Assert(d.TableName() == tbl, "DELETE: table is the one written")
		sym.Assert(d.HasConditions() == (wh.kind != 0), "DELETE: has conditions exactly when written")
		wh.check(d.Where())
	}
}

func itoa(i int) string {
	if i > 9 {
		return itoa(i/10) + itoa(i%10)
	}
	return string(rune('0' + i))
}
