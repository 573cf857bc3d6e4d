package props

import (
	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif/harness/sym"
)

var concReads = []string{
	"SELECT * FROM t",
	"SELECT a, b AS c FROM s.t, u WHERE a = 'x' AND b != 2 GROUP BY a ORDER BY a, b DESC LIMIT 2 OFFSET 1",
	"SELECT 1",
	"INSERT INTO s.t (a, b, c) VALUES (1, 'x', NULL), (2.5, 'it''s', TRUE)",
	"INSERT INTO t (a) VALUES (?)",
	"UPDATE s.t SET a = 1, b = b * 2, c = NULL WHERE a <> 1 OR b >= 'x'",
	"DELETE FROM s.t WHERE a < 1",
	"DELETE FROM t",
	"CREATE TABLE IF NOT EXISTS s.t (a INT, b VARCHAR(10), c DOUBLE, KEY k (b), PRIMARY KEY (a, b))",
	"ALTER TABLE s.t ADD COLUMN a INT",
	"ALTER TABLE t DROP COLUMN a",
	"ALTER TABLE t RENAME COLUMN a TO b",
	"ALTER TABLE t RENAME TO u",
	"ALTER TABLE t ADD INDEX i (a, b)",
	"ALTER TABLE t ADD PRIMARY KEY (a)",
	"CREATE INDEX IF NOT EXISTS i ON t (a, b)",
	"DROP INDEX IF EXISTS i",
	"DROP TABLE IF EXISTS s.a, b",
	"TRUNCATE TABLE a, b",
	"CREATE DATABASE IF NOT EXISTS d",
	"DROP DATABASE d",
	"ALTER DATABASE a RENAME TO b",
	"USE d",
	"COPY t (a, b) FROM 'f' CSV",
	"VACUUM t",
	"BEGIN",
	"ROLLBACK",
}

// C36_Read: two goroutines read one statement of any kind with all its
// accessors, as they are or after each other's printing.
func C36_Read() {
	text := concReads[sym.Choose("text", len(concReads))]
	sts, err := sql.NewParser().ParseString(text)
	sym.Assert(err == nil && len(sts) == 1, "a supported statement parses")
	alone, err := sql.NewParser().ParseString(text)
	sym.Assert(err == nil && len(alone) == 1, "a supported statement parses")
	want := alone[0].String()
	var s [2]string
	order := sym.Choose("order", 3)
	read := func(k int) func() {
		return func() {
			if order == k {
				use(sts[0])
			}
			s[k] = sts[0].String()
			if order != k {
				use(sts[0])
			}
		}
	}
	sym.Go(read(0), read(1))
	sym.Assert(s[0] == want && s[1] == want, "a statement prints the same beside another reader")
	sym.Cover("end")
}

// concFunc evaluates a function by name; the arguments are in every domain.
func concFunc(name string, v any, viaFunction bool) any {
	args := []any{v}
	names := []string{"v"}
	switch name {
	case "POWER", "MOD":
		args, names = []any{v, 2}, []string{"v", "w"}
	case "PI", "NOW", "RAND", "CURRENT_TIMESTAMP":
		args, names = []any{}, nil
	case "UPPER", "LOWER", "TRIM":
		args = []any{" aB "}
	}
	var x fn.Executor
	var err error
	if viaFunction {
		list := fn.NewArguments()
		for _, n := range names {
			list = append(list, fn.NewArgumentWith(n))
		}
		x, err = fn.NewFunction(fn.WithFunctionName(name), fn.WithFunctionArguments(list...)).Executor()
	} else {
		x, err = fn.NewExecutorForName(name)
	}
	sym.Assert(err == nil && x != nil, "a function is found beside another")
	if x == nil {
		return nil
	}
	var in any = args
	if viaFunction && len(names) > 0 {
		row := map[string]any{"v": args[0], "w": 2}
		in = row
	}
	r, err := x.Execute(in)
	sym.Assert(err == nil, "a function has a value beside another")
	return r
}

// C36_AnyFunction: two goroutines evaluate functions of their own, of every
// name, looked up by name or by a Function, the same one or another.
func C36_AnyFunction() {
	ns := []string{"ABS", "CEIL", "FLOOR", "ROUND", "SQRT", "LOG", "LOG10", "EXP", "POWER", "MOD", "SIN", "COS", "TAN", "RAND", "PI", "UPPER", "LOWER", "TRIM", "CURRENT_TIMESTAMP", "NOW"}
	a := sym.Choose("a", len(ns))
	b := a
	if sym.Choose("other", 2) == 1 {
		b = (a + 7) % len(ns)
	}
	via := sym.Choose("via", 2) == 1
	var alone, both [2]any
	alone[0], alone[1] = concFunc(ns[a], 4.0, via), concFunc(ns[b], 9.0, via)
	sym.Go(func() { both[0] = concFunc(ns[a], 4.0, via) }, func() { both[1] = concFunc(ns[b], 9.0, via) })
	for k, n := range []string{ns[a], ns[b]} {
		if n != "RAND" && n != "NOW" && n != "CURRENT_TIMESTAMP" {
			sym.Assert(both[k] == alone[k], "a function gives the same value beside another")
		}
	}
	sym.Cover("end")
}

// concAggr feeds rows of one form to an aggregate, or a set of two, and lists
// the result.
func concAggr(k, form int, v float64) [][]any {
	groups := []string{}
	if form > 0 {
		groups = append(groups, "g")
	}
	opts := []fn.AggregatorOption{fn.WithAggregatorArguments([]string{"v"}), fn.WithAggregatorGroupBys(groups...)}
	rows := []any{map[string]any{"g": "a", "v": v}, map[string]any{"g": nil, "v": nil}, map[string]any{"g": "b", "v": v + 1}}
	var rs fn.ResultSet
	var err error
	if form == 3 {
		set, e := fn.NewAggregatorSetForNames([]string{aggrNames[k], "COUNT"}, opts...)
		sym.Assert(e == nil, "an aggregate set is made beside another")
		for _, r := range rows {
			sym.Assert(set.Aggregate(r) == nil, "a row is aggregated beside another")
		}
		rs, err = set.Finalize()
	} else {
		a, e := fn.NewAggregatorForName(aggrNames[k], opts...)
		sym.Assert(e == nil, "an aggregate is made beside another")
		for _, r := range rows {
			sym.Assert(a.Aggregate(r) == nil, "a row is aggregated beside another")
		}
		if form == 2 {
			rs, err = a.Finalize(fn.OrderByDesc)
		} else {
			rs, err = a.Finalize()
		}
		if form == 1 {
			sym.Assert(a.Reset() == nil, "an aggregate is reset beside another")
		}
	}
	sym.Assert(err == nil, "an aggregate has a result beside another")
	var out [][]any
	for rs.Next() {
		r, err := rs.Row()
		sym.Assert(err == nil, "an aggregate has rows beside another")
		out = append(out, r)
	}
	return out
}

// C36_AnyAggregate: two goroutines aggregate over rows of their own, with one
// aggregate or a set, with and without groups and order.
func C36_AnyAggregate() {
	k, l := sym.Choose("k", 5), sym.Choose("l", 5)
	sym.Assume(k <= l)
	form := sym.Choose("form", 4)
	var both [2][][]any
	alone := [][][]any{concAggr(k, form, 3), concAggr(l, form, 8)}
	sym.Go(func() { both[0] = concAggr(k, form, 3) }, func() { both[1] = concAggr(l, form, 8) })
	for i := range both {
		sym.Assert(len(both[i]) == len(alone[i]), "an aggregate has the same rows beside another")
		for n := range both[i] {
			found := false
			for _, r := range alone[i] {
				same := len(r) == len(both[i][n])
				for c := 0; same && c < len(r); c++ {
					same = r[c] == both[i][n][c]
				}
				found = found || same
			}
			sym.Assert(found, "an aggregate has the same rows beside another")
		}
	}
	sym.Cover("end")
}

// C36_Bind: two goroutines bind and parse with parsers of their own.
func C36_Bind() {
	v := sym.Str("v", 1, 1, "[x'?]")
	n := sym.IntRange("n", 0, 99)
	texts := []string{"INSERT INTO t (a, b) VALUES (?, ?)", "UPDATE t SET a = $1 WHERE b = $2", "SELECT * FROM t WHERE a = ? AND b = ?"}
	a, b := sym.Choose("a", len(texts)), sym.Choose("b", len(texts))
	sym.Assume(a <= b)
	work := func(q string) func() {
		return func() {
			st := bound1(q, par{v, lit{val: v, str: true}}, par{n, lit{val: dec(n)}})
			var x, y any
			switch s := st.(type) {
			case query.Insert:
				x, y = s.Values()[0][0].Value(), s.Values()[0][1].Value()
			case query.Update:
				x, y = s.Columns()[0].Value(), s.Where().Expr().(*query.CmpExpr).Right().Value()
			case query.Select:
				e := s.Where().Expr().(*query.AndExpr)
				x, y = e.Left().(*query.CmpExpr).Right().Value(), e.Right().(*query.CmpExpr).Right().Value()
			}
			sym.Assert(x == any(v) && y == any(dec(n)), "parameters are bound beside another")
		}
	}
	sym.Go(work(texts[a]), work(texts[b]))
	sym.Cover("end")
}
