package props

import (
	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif/harness/sym"
)

// concText is a statement with a name of its own and its meaning.
func concText(tag string, kind int) (string, checker) {
	g := &gen{max: 1, litLen: 1, plain: true, conc: true}
	g.focus = -1
	g.lfocus = -1
	n := sym.Str(tag, 1, 1, "[xyz]")
	switch kind {
	case 0:
		return genInsert(g, 2, 2, rotate(0))
	case 1:
		return "UPDATE t SET " + n + " = " + n + " + 1, b = 'v' WHERE c = NULL OR d <= 2", func(st query.Statement) {
			u, ok := st.(query.Update)
			sym.Assert(ok && u.Columns()[0].Name() == n && u.Columns()[0].IsFunction(), "the statement is the one written")
			sym.Assert(u.Where().HasConditions(), "the statement is the one written")
		}
	case 2:
		return "CREATE TABLE " + n + " (a INT PRIMARY KEY, b VARCHAR(9), INDEX i (b))", func(st query.Statement) {
			c, ok := st.(query.CreateTable)
			sym.Assert(ok && c.TableName() == n, "the statement is the one written")
			sym.Assert(len(c.Schema().Columns()) == 2 && len(c.Schema().Indexes()) == 2, "the statement is the one written")
			sym.Assert(c.Schema().Columns()[1].DataTypeSize() == 9, "the statement is the one written")
		}
	case 3:
		return "SELECT a, SUM(" + n + ") FROM t WHERE a = 'v' GROUP BY a ORDER BY a DESC LIMIT 3, 4", func(st query.Statement) {
			s, ok := st.(query.Select)
			sym.Assert(ok && len(s.Selectors()) == 2 && s.Selectors()[1].Arguments()[0].Name() == n, "the statement is the one written")
			sym.Assert(s.Limit().Offset() == 3 && s.Limit().Limit() == 4 && s.OrderBy().Orders()[0].IsDesc(), "the statement is the one written")
			sym.Assert(s.From()[0].TableName() == "t" && s.GroupBy().ColumnName() == "a", "the statement is the one written")
		}
	case 4:
		return "ALTER TABLE " + n + " ADD COLUMN c DOUBLE; DROP TABLE IF EXISTS a, b", func(st query.Statement) {
			a, ok := st.(query.AlterTable)
			c, has := a.AddColumn()
			sym.Assert(ok && has && a.TableName() == n && c.DataType() == query.DoubleType, "the statement is the one written")
		}
	case 5:
		return "BOGUS " + n, nil
	default:
		return "CREATE INDEX " + n + " ON t (a, b)", func(st query.Statement) {
			c, ok := st.(query.CreateIndex)
			sym.Assert(ok && c.Index().Name() == n, "the statement is the one written")
		}
	}
}

const concKinds = 7

// C36_Parsers: two goroutines parse with a parser each.
func C36_Parsers() {
	a, b := sym.Choose("a", concKinds), sym.Choose("b", concKinds)
	sym.Assume(a <= b)
	ta, ca := concText("x", a)
	tb, cb := concText("y", b)
	run := func(t string, c checker) func() {
		return func() {
			sts, err := sql.NewParser().ParseString(t)
			if c == nil {
				sym.Assert(err != nil && len(sts) == 0, "a malformed text is refused")
				return
			}
			sym.Assert(err == nil && len(sts) >= 1, "a statement parses beside another")
			c(sts[0])
			sym.Assert(sts[0].String() != "", "a statement prints beside another")
		}
	}
	sym.Go(run(ta, ca), run(tb, cb))
	sym.Cover("end")
}

// C36_Statement: two goroutines read one statement.
func C36_Statement() {
	t, c := concText("x", []int{0, 1, 2, 3, 4, 6}[sym.Choose("a", 6)])
	sts, err := sql.NewParser().ParseString(t)
	sym.Assert(err == nil && len(sts) >= 1, "a supported statement parses")
	var s [2]string
	sym.Go(func() { s[0] = sts[0].String(); c(sts[0]) }, func() { c(sts[0]); s[1] = sts[0].String() })
	sym.Assert(s[0] == s[1], "both print the same text")
	sym.Cover("end")
}

// C36_Aggregates: two goroutines aggregate with an aggregate each.
func C36_Aggregates() {
	k, l := sym.Choose("k", 5), sym.Choose("l", 5)
	sym.Assume(k <= l)
	grouped := sym.Choose("grouped", 2) == 1
	x, y := float64(sym.Int32("x")), float64(sym.Int32("y"))
	work := func(k int, v float64, res *float64) func() {
		return func() {
			var groups []string
			if grouped {
				groups = []string{"g"}
			}
			a, err := fn.NewAggregatorForName(aggrNames[k], fn.WithAggregatorArguments([]string{"v"}), fn.WithAggregatorGroupBys(groups...))
			sym.Assert(err == nil, "an aggregate is made beside another")
			for i := 0; i < 2; i++ {
				sym.Assert(a.Aggregate(map[string]any{"g": "a", "v": v}) == nil, "a row is aggregated beside another")
			}
			rs, err := a.Finalize()
			sym.Assert(err == nil && rs.Next(), "an aggregate has a result")
			r, err := rs.Row()
			sym.Assert(err == nil && len(r) == 1+len(groups), "an aggregate has a result")
			f, ok := r[len(r)-1].(float64)
			sym.Assert(ok, "an aggregate has a number")
			*res = f
		}
	}
	var r, s float64
	sym.Go(work(k, x, &r), work(l, y, &s))
	want := func(k int, v float64) float64 {
		switch k {
		case 0:
			return v + v
		case 4:
			return 2
		}
		return v
	}
	sym.Assert(r == want(k, x), "an aggregate is not affected by another")
	sym.Assert(s == want(l, y), "an aggregate is not affected by another")
	sym.Cover("end")
}

// C36_Functions: two goroutines evaluate functions of their own.
func C36_Functions() {
	ns := []string{"ABS", "upper", "FLOOR", "+", "PI", "Trim", "NOW", "SQRT"}
	a, b := sym.Choose("a", len(ns)), sym.Choose("b", len(ns))
	sym.Assume(a <= b)
	v := sym.Int32("v")
	sym.Assume(v > 0)
	work := func(k int, s string) func() {
		return func() {
			var x fn.Executor
			var err error
			if ns[k] == "+" {
				x, err = fn.NewArithOperatorFor("+")
			} else {
				x, err = fn.NewExecutorForName(ns[k])
			}
			sym.Assert(err == nil, "a function is found beside another")
			switch k {
			case 0, 2:
				r, err := x.Execute([]any{v})
				sym.Assert(err == nil && r != nil, "a function has a value")
				if k == 0 {
					sym.Assert(r == any(float64(v)), "a function is not affected by another")
				}
			case 1, 5:
				r, err := x.Execute([]any{s})
				want := s
				if k == 1 {
					want = upper(s)
				}
				sym.Assert(err == nil && r == any(want), "a function is not affected by another")
			case 3:
				r, err := x.Execute([]any{v, 1})
				sym.Assert(err == nil && r == any(float64(v)+1), "a function is not affected by another")
			case 7:
				r, err := x.Execute([]any{16})
				sym.Assert(err == nil && r == any(4.0), "a function is not affected by another")
			default:
				_, err := x.Execute([]any{})
				sym.Assert(err == nil, "a function has a value")
			}
		}
	}
	sym.Go(work(a, "left"), work(b, "right"))
	sym.Cover("end")
}

func upper(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 'a' - 'A'
		}
	}
	return string(b)
}

// C36_Schema: two goroutines give their rows the types of one table, and look
// up its columns.
func C36_Schema() {
	s := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(
		query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnData(query.NewDataDef(query.IntType, 7))),
		query.NewColumnWithOptions(query.WithColumnName("b"), query.WithColumnData(query.NewDataDef(query.TextType, 3))))),
		query.WithSchemaIndexes(query.Indexes{idxOf("i")}))
	ops := []int{sym.Choose("a", 4), sym.Choose("b", 4)}
	sym.Assume(ops[0] <= ops[1])
	v := sym.Int32("v")
	work := func(k int) func() {
		return func() {
			switch ops[k] {
			case 0:
				c := query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnLiteral(query.NewLiteralWith(int64(v)+0)))
				sym.Assert(query.NewColumnsWith(c).SetSchema(s) == nil, "a row takes the types of the table")
				sym.Assert(c.Value() == any(v), "a row takes the types of the table")
			case 1:
				c := query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnLiteral(query.NewLiteralWith(nil)))
				sym.Assert(query.NewColumnsWith(c).SetSchema(s) == nil, "a row takes the types of the table")
				sym.Assert(c.Value() == nil, "NULL stays NULL")
			case 2:
				c, err := s.LookupColumn("B")
				sym.Assert(err == nil && c.Name() == "b", "a column is found")
				_, err = s.LookupIndex("x")
				sym.Assert(err != nil, "an index is not found")
				sym.Assert(len(s.Selectors()) == 2 && len(s.Columns().Copy()) == 2, "the columns are listed")
			default:
				t, err := query.NewDataTypeFromString("varchar")
				sym.Assert(err == nil && t == query.VarCharType, "a type is found")
				sym.Assert(query.BigIntType.String() == "BIGINT", "a type has its name")
			}
		}
	}
	sym.Go(work(0), work(1))
	sym.Cover("end")
}
