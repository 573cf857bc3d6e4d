package props

import (
	"errors"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif/harness/sym"
)

// ---- K37: kinds and their names

var stmtNames = []struct {
	t query.StatementType
	s string
}{
	{query.CreateDatabaseStatement, "CREATE DATABASE"}, {query.CreateTableStatement, "CREATE TABLE"}, {query.CreateIndexStatement, "CREATE INDEX"},
	{query.InsertStatement, "INSERT"}, {query.SelectStatement, "SELECT"}, {query.UpdateStatement, "UPDATE"}, {query.DeleteStatement, "DELETE"},
	{query.DropDatabaseStatement, "DROP DATABASE"}, {query.DropTableStatement, "DROP TABLE"}, {query.DropIndexStatement, "DROP INDEX"},
	{query.AlterDatabaseStatement, "ALTER DATABASE"}, {query.AlterTableStatement, "ALTER TABLE"}, {query.AlterIndexStatement, "ALTER INDEX"},
	{query.CopyStatement, "COPY"}, {query.CommitStatement, "COMMIT"}, {query.VacuumStatement, "VACUUM"}, {query.TruncateStatement, "TRUNCATE"},
	{query.BeginStatement, "BEGIN"}, {query.RollbackStatement, "ROLLBACK"}, {query.UseStatement, "USE"},
}

// every kind of statement has its name, and no other number has one
func K37_Statements() {
	t := query.StatementType(sym.Uint8("t"))
	want := ""
	for _, s := range stmtNames {
		want = sym.Ite(t == s.t, s.s, want)
	}
	sym.Assert(t.String() == want, "a kind of statement has its own name")
	sym.Cover("end")
}

// a parsed statement is of the kind it starts with
func K37_Parsed() {
	g := &gen{max: 1, litLen: 1, plain: true, focus: -1, lfocus: -1}
	text, _ := anyStatement(g, sym.Choose("kind", stmtKinds))
	st := parse1(text)
	n := st.StatementType().String()
	sym.Assert(n != "" && len(text) >= len(n) && text[:len(n)] == n, "a statement is of the kind it starts with")
	p := st.String()
	sym.Assert(len(p) >= len(n) && p[:len(n)] == n, "a statement prints with the name of its kind")
	sym.Cover("end")
}

func K37_Orders() {
	t := query.OrderType(sym.Uint8("t"))
	asc, desc := t == query.OrderAsc, t == query.OrderDesc
	sym.Assert(t.IsAsc() == asc && t.IsDesc() == desc, "an order is ascending, descending or neither")
	sym.Assert(t.IsNone() == (t == query.OrderNone), "an order is ascending, descending or neither")
	sym.Assert(t.String() == sym.Ite(asc, "ASC", sym.Ite(desc, "DESC", "NONE")), "an order has its name")
	w := sym.Str("w", 0, 5, "ascii")
	got := query.NewOrderTypeWith(w)
	want := query.OrderNone
	if sameFold(w, "ASC") {
		want = query.OrderAsc
		sym.Cover("asc")
	} else if sameFold(w, "DESC") {
		want = query.OrderDesc
		sym.Cover("desc")
	}
	sym.Assert(got == want, "an order is known by its name in any letter case, and by nothing else")
	sym.Cover("end")
}

func K37_Order() {
	t := []query.OrderType{query.OrderNone, query.OrderAsc, query.OrderDesc}[sym.Choose("t", 3)]
	c := sym.Str("c", 1, 2, "ident")
	o := query.NewOrderWith(c, t)
	sym.Assert(o.ColumnName() == c && o.Type() == t, "an order has the column and direction given")
	sym.Assert(o.IsAsc() == (t == query.OrderAsc) && o.IsDesc() == (t == query.OrderDesc) && o.IsNone() == (t == query.OrderNone), "an order has the direction given")
	switch t {
	case query.OrderAsc:
		sym.Assert(o.String() == c+" ASC", "an order prints its column and direction")
	case query.OrderDesc:
		sym.Assert(o.String() == c+" DESC", "an order prints its column and direction")
	default:
		sym.Assert(o.String() == "", "no order prints as nothing")
	}
	e := query.NewOrder()
	sym.Assert(e.IsNone() && e.ColumnName() == "" && e.String() == "", "an empty order is none")
	sym.Assert(len(query.NewOrderBy().Orders()) == 0 && query.NewOrderBy().String() == "", "an empty ORDER BY is empty")
	sym.Cover("end")
}

func K37_Limits() {
	a, b := sym.Uint("a"), sym.Uint("b")
	l := query.NewLimitWith(a, b)
	sym.Assert(l.Offset() == a && l.Limit() == b, "a limit has the numbers given")
	c, d := sym.Uint("c"), sym.Uint("d")
	l.SetLimit(c).SetOffset(d)
	sym.Assert(l.Offset() == d && l.Limit() == c, "a limit has the numbers set last")
	e := query.NewLimit()
	sym.Assert(e.Offset() == 0 && e.Limit() == 0 && e.String() == "", "no limit is no limit")
	n := sym.Str("n", 0, 2, "ident")
	g := query.NewGroupBy()
	sym.Assert(g.ColumnName() == "" && g.String() == "", "no group is no group")
	sym.Assert(g.SetColumn(n).ColumnName() == n && query.NewGroupByWith(n).ColumnName() == n, "a group has the column given")
	if n != "" {
		sym.Assert(g.String() == "GROUP BY "+n, "a group prints its column")
	}
	sym.Cover("end")
}

// flags are independent of each other
func K37_Constraints() {
	c := query.Constraint(sym.IntRange("c", 0, 7))
	sym.Assert(c.IsPrimaryKey() == (c&query.PrimaryKeyConstraint != 0) && query.PrimaryKeyConstraint.IsPrimaryKey(), "a constraint has its flags")
	sym.Assert(c.IsNotNull() == (c&query.NotNullConstraint != 0) && query.NotNullConstraint.IsNotNull(), "a constraint has its flags")
	sym.Assert(c.IsUnique() == (c&query.UniqueConstraint != 0) && query.UniqueConstraint.IsUnique(), "a constraint has its flags")
	n := 0
	for _, b := range []bool{c.IsPrimaryKey(), c.IsNotNull(), c.IsUnique()} {
		n += sym.Ite(b, 1, 0)
	}
	sym.Assert((n == 0) == (c == query.ConstraintNone), "only no constraint has no flag")
	sym.Assert(query.ConstraintNone.String() == "" && query.PrimaryKeyConstraint.String() == "PRIMARY KEY" && query.NotNullConstraint.String() == "NOT NULL" && query.UniqueConstraint.String() == "UNIQUE", "a constraint has its name")
	t := query.IndexType(sym.Uint8("t"))
	sym.Assert(t.String() == sym.Ite(t == query.PrimaryIndex, "PRIMARY KEY", sym.Ite(t == query.SecondaryIndex, "INDEX", "UNKNOWN KEY")), "a kind of index has its name")
	f := query.CopyFormat(sym.Uint8("f"))
	sym.Assert(f.String() == sym.Ite(f == query.CopyFormatText, "TEXT", sym.Ite(f == query.CopyFormatCSV, "CSV", sym.Ite(f == query.CopyFormatBinary, "BINARY", ""))), "a format has its name")
	sym.Cover("end")
}

func K37_Operators() {
	o := query.CmpExprOperator(sym.Uint8("o"))
	want := ""
	for _, x := range []struct {
		o query.CmpExprOperator
		s string
	}{{query.EQ, "="}, {query.NEQ, "!="}, {query.LT, "<"}, {query.GT, ">"}, {query.LE, "<="}, {query.GE, ">="}, {query.IN, "IN"}, {query.NIN, "NOT IN"}} {
		want = sym.Ite(o == x.o, x.s, want)
	}
	sym.Assert(o.String() == want, "an operator has its own sign")
	sym.Cover("end")
}

func K37_Literals() {
	s := sym.Str("s", 0, 2, "text")
	l := query.NewLiteral()
	sym.Assert(l.Value() == nil && l.IsNull() && l.ValueType() == query.UnknownLiteral && l.String() == "NULL", "a new literal is NULL")
	sym.Assert(l.SetValue(s).SetValueType(query.StringLiteral) == l, "a literal takes a value")
	sym.Assert(l.Value() == any(s) && l.ValueType() == query.StringLiteral, "a literal has the value and kind set last")
	sym.Assert(!l.IsNull() && !l.IsPlaceHolder() && l.HasValue(), "a string is never NULL nor a place holder")
	sym.Assert(l.String() == escaped(s) && l.ValueString() == escaped(s), "a string prints in quotes")
	q := sym.Str("q", 0, 2, "text")
	sym.Assert(l.Equal(q) == (s == q), "a string literal equals its own text only")
	l.SetValueType(query.UnknownLiteral)
	sym.Assert(l.IsPlaceHolder() == (s == "?"), "only ? is a place holder")
	sym.Assert(l.IsAsterisk() == (s == "*"), "only * is an asterisk")
	sym.Assert(l.String() == s, "a literal that is no string prints as it is")
	b := query.NewBindParamWith(s)
	sym.Assert(b.Name() == s && b.String() == s, "a parameter has its name")
	sym.Assert(len(query.NewBindParams()) == 0, "a new list of parameters is empty")
	d := query.NewDatabaseWith(s)
	sym.Assert(d.DatabaseName() == s, "a database has its name")
	sym.Assert(query.NewIfExistsWith(true).IfExists() && !query.NewIfExistsWith(false).IfExists(), "an option is the one given")
	sym.Assert(query.NewIfNotExistsWith(true).IfNotExists() && !query.NewIfNotExistsWith(false).IfNotExists(), "an option is the one given")
	sym.Cover("end")
}

// ---- F23: the rest of the function API

// the registered names are those of the functions, once each
func F23_Registered() {
	ns := fn.RegisteredFunctionNames()
	sym.Assert(len(ns) == len(scalars)+len(aggrNames), "every function is registered once")
	for i, n := range ns {
		s, a := isFn(n)
		sym.Assert(s || a, "a registered name is the name of a function")
		for _, m := range ns[:i] {
			sym.Assert(m != n, "every function is registered once")
		}
		sym.Assert(fn.IsRegisteredFunction(n), "a registered name is registered")
		f := fn.NewFunction(fn.WithFunctionName(n))
		_, err := f.Executor()
		sym.Assert((err == nil) == s, "a registered function can be executed or aggregated")
	}
	sym.Assert(!fn.IsRegisteredFunction(""), "no name is no function")
	sym.Cover("end")
}

func F23_Arguments() {
	n := sym.Choose("n", 4)
	var ss []string
	text := ""
	for i := 0; i < n; i++ {
		s := sym.Str("a"+itoa(i), 1, 2, "text")
		ss = append(ss, s)
		if i > 0 {
			text += ", "
		}
		text += s
	}
	as := fn.NewArgumentStrings(ss...)
	sym.Assert(names(ss).same(as.Names()), "arguments are those given, in order")
	sym.Assert(as.String() == text, "arguments print in order")
	star := n == 0
	if n == 1 {
		star = ss[0] == "*"
	}
	sym.Assert(as.IsAsterisk() == star, "only * or no argument stands for all columns")
	q := sym.Str("q", 1, 2, "text")
	c := fn.NewArgumentsWith(as...)
	for i := range as {
		sym.Assert(as[i].Name() == ss[i] && as[i].String() == ss[i], "an argument has its name")
		sym.Assert(as[i].IsName(q) == (ss[i] == q), "an argument is known by its own name")
		sym.Assert(as[i].IsAsterisk() == (ss[i] == "*"), "only * is an asterisk")
		as[i] = "changed"
	}
	sym.Assert(names(ss).same(c.Names()), "a copy of arguments does not change")
	ss2 := append([]string{}, ss...)
	f := fn.NewFunction(fn.WithFunctionName("zz"), fn.WithFunctionArguments(c...))
	sym.Assert(names(ss2).same(f.Arguments().Names()), "a function has the arguments given")
	sym.Assert(f.String() == "ZZ("+text+")", "a function prints its name and arguments")
	for i := range c {
		c[i] = "changed"
	}
	sym.Assert(names(ss2).same(f.Arguments().Names()), "a function does not share its arguments")
	sym.Cover("end")
}

// functions made from an executor, an aggregator or a cast are those
func F23_Made() {
	x := sym.Int32("x")
	switch sym.Choose("k", 3) {
	case 0:
		cast := fn.NewCastFunctionWith("MyCast", func(v any) (any, error) {
			i, ok := v.(int32)
			if !ok {
				return nil, errors.New("no")
			}
			return int64(i) + 1, nil
		})
		sym.Assert(cast.Name() == "MyCast" && cast.Type() == fn.CastFunction, "a cast has its name and type")
		v, err := cast.Execute([]any{x})
		sym.Assert(err == nil && v == any(int64(x)+1), "a cast is applied to its argument")
		_, err = cast.Execute([]any{"s"})
		sym.Assert(err != nil, "a cast that fails fails")
		_, err = cast.Execute([]any{x, x})
		sym.Assert(err != nil, "a cast has one argument")
		_, err = cast.Execute([]any{})
		sym.Assert(err != nil, "a cast has one argument")
		f := fn.NewFunction(fn.WithFunctionExecutor(cast))
		e, err := f.Executor()
		sym.Assert(err == nil && e == cast && f.Type() == fn.CastFunction && f.Name() == "MyCast", "a function made from an executor is that")
		sym.Assert(!f.IsAggregator() && f.IsType(fn.CastFunction), "a function made from an executor is that")
	case 1:
		k := sym.Choose("a", 5)
		a, err := fn.NewAggregatorForName(aggrNames[k], fn.WithAggregatorArguments([]string{"v"}))
		sym.Assert(err == nil && a.Name() == aggrNames[k], "an aggregate is made")
		f := fn.NewFunction(fn.WithFunctionAggregator(a))
		b, err := f.Aggregator()
		sym.Assert(err == nil && b == a && f.IsAggregator() && f.Name() == aggrNames[k], "a function made from an aggregate is that")
	default:
		f := fn.NewFunction(fn.WithFunctionName("zz"), fn.WithFunctionType(fn.SessionFunction))
		sym.Assert(f.Type() == fn.SessionFunction && f.Name() == "ZZ", "a function has the type given")
		g, ok := f.Function()
		sym.Assert(ok && g == f && f.IsFunction(), "a function is a function")
	}
	sym.Cover("end")
}

// rows and maps
func F23_Rows() {
	n, m := sym.Choose("cols", 4), sym.Choose("vals", 4)
	var cols []string
	var vs []any
	for i := 0; i < n; i++ {
		cols = append(cols, "c"+itoa(i))
	}
	for i := 0; i < m; i++ {
		vs = append(vs, sym.Int64("v"+itoa(i)))
	}
	mp := fn.NewMapWithRow(cols, fn.NewRow(vs...))
	sym.Assert(len(mp) == n, "a row as a map has its columns")
	for i, c := range cols {
		v, ok := mp[c]
		sym.Assert(ok, "a row as a map has its columns")
		if i < m {
			sym.Assert(v == vs[i], "a row as a map has its values")
		} else {
			sym.Assert(v == nil, "values a row does not have are NULL")
		}
	}
	cp := fn.NewMapWithMap(mp)
	sym.Assert(len(cp) == n, "a copy of a map has its columns")
	for c := range mp {
		sym.Assert(cp[c] == mp[c], "a copy of a map has its values")
	}
	cp["new"] = 1
	sym.Assert(len(mp) == n, "a copy of a map does not share its columns")
	r := fn.NewRow(vs...).Append(any(7), "x")
	sym.Assert(len(r) == m+2 && r[m] == any(7) && r[m+1] == any("x"), "values are appended to a row")
	for i := range vs {
		sym.Assert(r[i] == vs[i], "a row keeps its values")
	}
	sym.Cover("end")
}

// the selectors of a SELECT as a list
func F23_Selectors() {
	n := sym.Choose("n", 4)
	var ns []string
	s := query.NewSelectors()
	var cols []query.Column
	fns := 0
	for i := 0; i < n; i++ {
		switch sym.Choose("k"+itoa(i), 3) {
		case 0:
			c := sym.Str("c"+itoa(i), 1, 2, "[*ab]")
			x := query.NewColumnWithName(c)
			cols = append(cols, x)
			s = append(s, x)
			ns = append(ns, c)
		case 1:
			s = append(s, fn.NewFunction(fn.WithFunctionName("abs"), fn.WithFunctionArguments("x")))
			ns = append(ns, "ABS(x)")
			fns++
		default:
			s = append(s, fn.NewFunction(fn.WithFunctionName("SUM"), fn.WithFunctionArguments("*")))
			ns = append(ns, "SUM(*)")
			fns++
		}
	}
	sym.Assert(s.Len() == n && len(s.Selectors()) == n, "a list has one selector per selector")
	sym.Assert(names(ns).same(s.Names()), "selectors are named as they are written, in order")
	text := ""
	for i, x := range ns {
		if i > 0 {
			text += ", "
		}
		text += x
	}
	sym.Assert(s.String() == text, "selectors print in order")
	got := s.Columns()
	sym.Assert(len(got) == len(cols), "the columns are the selectors that are columns")
	for i := range cols {
		sym.Assert(got[i] == cols[i], "the columns are the selectors that are columns")
	}
	star := n == 0
	if n == 1 {
		star = ns[0] == "*"
	}
	sym.Assert(s.IsAsterisk() == star, "only * or an empty list stands for all columns")
	sym.Assert(s.HasFunction() == (fns > 0) && len(s.Functions()) == fns, "functions are selectors that are functions")
	c := query.NewSelectorsWith(s...)
	for i := range s {
		s[i] = query.NewColumnWithName("changed")
	}
	sym.Assert(names(ns).same(c.Names()), "a copy of selectors does not change")
	cs := query.NewSelectorsWithColums(cols...)
	sym.Assert(len(cs) == len(cols), "selectors made from columns are the columns")
	for i := range cols {
		sym.Assert(cs[i].Name() == cols[i].Name(), "selectors made from columns are the columns")
	}
	sym.Cover("end")
}

// executors by name and by type
func F23_Executors() {
	fs := []string{"ABS", "UPPER", "SQRT", "NOW", "ZZ"}
	types := []fn.FunctionType{fn.MathFunction, fn.StringFunction, fn.MathFunction, fn.TimeFunction, fn.UnknownFunctionType}
	a, b := sym.Choose("a", 5), sym.Choose("b", 5)
	s := query.NewSelectorsWith(
		fn.NewFunction(fn.WithFunctionName(lower(fs[a])), fn.WithFunctionArguments("x")), query.NewColumnWithName("c"),
		fn.NewFunction(fn.WithFunctionName(fs[b]), fn.WithFunctionArguments("y")))
	t := types[sym.Choose("t", 4)]
	es, err := s.ExecutorsForType(t)
	bad := a == 4 || b == 4
	sym.Assert((err != nil) == bad, "an unknown function cannot be executed")
	if !bad {
		var want []string
		if types[a] == t {
			want = append(want, fs[a])
		}
		if types[b] == t {
			want = append(want, fs[b])
		}
		sym.Assert(len(es) == len(want), "the functions of a type are those written")
		for i := range want {
			sym.Assert(es[i].Name() == want[i] && es[i].Type() == t, "the functions of a type are in order")
		}
	}
	q := fs[sym.Choose("q", 5)]
	e, err := s.LookupExecutor(q)
	has := q == fs[a] || q == fs[b]
	if has && q != "ZZ" {
		sym.Assert(err == nil && e.Name() == q, "a function is found by its name")
		first := "x"
		if q != fs[a] {
			first = "y"
		}
		sym.Assert(names{first}.same(e.Arguments()), "a function is found with its arguments")
	} else {
		sym.Assert(err != nil && e == nil, "a function that is not there is not found")
	}
	sym.Cover("end")
}

// the aggregates of a SELECT, with its group
func F23_SelectAggregators() {
	grouped := sym.Choose("grouped", 2) == 1
	text := "SELECT SUM(v), COUNT(v) FROM t"
	if grouped {
		text += " GROUP BY g"
	}
	st := parse1(text)
	h, ok := st.(interface {
		Aggregators() (query.AggregatorSet, error)
	})
	sym.Assert(ok, "a SELECT has aggregates")
	set, err := h.Aggregators()
	sym.Assert(err == nil && len(set) == 2, "a SELECT has the aggregates written")
	x, y := sym.Int8("x"), sym.Int8("y")
	same := sym.Choose("same", 2) == 1
	g2 := "b"
	if same {
		g2 = "a"
	}
	sym.Assert(set.Aggregate(map[string]any{"g": "a", "v": x}) == nil, "a row is aggregated")
	sym.Assert(set.Aggregate(map[string]any{"g": g2, "v": y}) == nil, "a row is aggregated")
	rs, err := set.Finalize()
	sym.Assert(err == nil, "the aggregates have a result")
	var want [][]any
	switch {
	case !grouped:
		want = [][]any{{float64(x) + float64(y), 2.0}}
	case same:
		want = [][]any{{"a", float64(x) + float64(y), 2.0}}
	default:
		want = [][]any{{"a", float64(x), 1.0}, {"b", float64(y), 1.0}}
	}
	n := 0
	for rs.Next() {
		r, err := rs.Row()
		sym.Assert(err == nil && n < len(want), "one row per group")
		hit := false
		for _, w := range want {
			ok := len(r) == len(w)
			for i := range w {
				ok = sym.And(ok, i < len(r) && r[i] == w[i])
			}
			hit = sym.Or(hit, ok)
		}
		sym.Assert(hit, "the row of a group has its aggregates")
		n++
	}
	sym.Assert(n == len(want), "one row per group")
	sym.Cover("end")
}

// errors about statements
func E31_Statements() {
	n := sym.Ident("n", 1, 2)
	st := parse1("DELETE FROM " + n + " WHERE a = 1")
	var err, want error
	if sym.Choose("k", 2) == 0 {
		err, want = query.NewErrStatementInvalid(st), query.ErrInvalid
	} else {
		err, want = query.NewErrStatementNotSupported(st), query.ErrNotSupported
	}
	for _, s := range []error{query.ErrInvalid, query.ErrNotFound, query.ErrNotSupported, query.ErrNotSet} {
		sym.Assert(errors.Is(err, s) == (s == want), "an error is of its kind and of no other")
	}
	sym.Assert(contains(err.Error(), st.String()), "an error has the statement it is about")
	sym.Cover("end")
}
