package props

import (
	"errors"

	sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"verif/harness/sym"
)

// ---- S15

// conDef is a definition with a constraint.
type conDef struct {
	query.ColumnDef
	c query.Constraint
}

// Constraint returns the constraint.
func (d conDef) Constraint() query.Constraint { return d.c }

// the objects of a history: columns of any types and constraints, primary and secondary indexes, and the same object twice
func S15_Objects() {
	cons := []query.Constraint{query.ConstraintNone, query.PrimaryKeyConstraint, query.NotNullConstraint, query.UniqueConstraint}
	var cols []query.Column
	for i := 0; i < 4; i++ {
		cols = append(cols, query.NewColumnWithOptions(query.WithColumnName([]string{"a", "b", "B", "id"}[i]),
			query.WithColumnData(conDef{query.NewDataDef([]query.DataType{query.IntType, query.TextType, query.DoubleType, query.BigIntType}[i], -1), cons[i]})))
	}
	ics := query.NewColumnsWith(cols[0], cols[1])
	idxs := []query.Index{query.NewPrimaryIndexWith(ics), query.NewSecondaryIndexWith("a", ics), query.NewSecondaryIndexWith("i", query.NewColumnsWith(cols[3])), query.NewIndexWith("I", query.UnknownIndex, query.NewColumns())}
	c0, i0 := sym.Choose("cols", 3), sym.Choose("idxs", 3)
	cm, im := append([]query.Column{}, cols[:c0]...), append([]query.Index{}, idxs[2-i0:2]...)
	s := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(cm...)), query.WithSchemaIndexes(append(query.NewIndexes(), im...)))
	for k := 0; k < 3; k++ {
		op := sym.Choose("op"+itoa(k), 4)
		w := sym.Choose("w"+itoa(k), 4)
		switch op {
		case 0:
			sym.Assert(s.AddColumn(cols[w]) == nil, "a column is added")
			cm = append(cm, cols[w])
		case 1:
			sym.Assert(s.AddIndex(idxs[w]) == nil, "an index is added")
			im = append(im, idxs[w])
		case 2:
			n := []string{"A", "b", "iD", "i"}[w]
			at := -1
			for i, c := range cm {
				if sameFold(c.Name(), n) {
					at = i
					break
				}
			}
			err := s.DropColumn(n)
			if at < 0 {
				sym.Assert(notFound(err), "dropping a column that is not there is refused")
			} else {
				sym.Assert(err == nil, "a column is dropped")
				cm = append(append([]query.Column{}, cm[:at]...), cm[at+1:]...)
			}
		default:
			n := []string{"A", "PRIMARY", "i", "b"}[w]
			at := -1
			for i, c := range im {
				if sameFold(c.Name(), n) {
					at = i
					break
				}
			}
			err := s.DropIndex(n)
			if at < 0 {
				sym.Assert(notFound(err), "dropping an index that is not there is refused")
			} else {
				sym.Assert(err == nil, "an index is dropped")
				im = append(append([]query.Index{}, im[:at]...), im[at+1:]...)
			}
		}
		gc, gi := s.Columns(), s.Indexes()
		sym.Assert(len(gc) == len(cm) && len(gi) == len(im), "the schema has the columns and indexes of its history")
		for i := range cm {
			sym.Assert(gc[i] == cm[i], "the schema has the columns of its history, in order")
		}
		for i := range im {
			sym.Assert(gi[i] == im[i], "the schema has the indexes of its history, in order")
		}
	}
	sym.Cover("end")
}

// ---- S16

func S16_AsteriskNames() {
	x := sym.Str("x", 0, 3, "ascii")
	cols := query.NewColumnsWith(query.NewColumnWithName(x))
	sym.Assert(cols.IsAsterisk() == (x == "*") && cols[0].IsAsterisk() == (x == "*"), "only a star stands for all columns")
	n := 1 + sym.Choose("n", 4)
	for i := 0; i < n; i++ {
		cols = append(cols, query.NewColumnWithName([]string{"*", "", "a"}[sym.Choose("y", 3)]))
	}
	sym.Assert(!cols.IsAsterisk(), "a list of several columns does not stand for all columns")
	sym.Cover("end")
}

// ---- S17

// rows of many columns
func S17_Many() {
	n := counts[sym.Choose("n", len(counts))]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	x := sym.Int16("x")
	defs, row := query.NewColumns(), query.NewColumns()
	for i := 0; i < n; i++ {
		t := []query.DataType{query.TinyIntType, query.BigIntType, query.SmallIntType}[i%3]
		if i == at {
			t = query.TinyIntType
		}
		defs = append(defs, query.NewColumnWithOptions(query.WithColumnName("c"+itoa(i)), query.WithColumnData(query.NewDataDef(t, -1))))
	}
	back := sym.Choose("order", 2) == 1
	for i := 0; i < n; i++ {
		j := i
		if back {
			j = n - 1 - i
		}
		v := any(j)
		if j == at {
			v = x
		} else if j > 100 {
			v = 5
		}
		row = append(row, query.NewColumnWithOptions(query.WithColumnName("C"+itoa(j)), query.WithColumnLiteral(query.NewLiteralWith(v))))
	}
	err := row.SetSchema(query.NewSchemaWith("t", query.WithSchemaColumns(defs)))
	if x < -128 || x > 127 {
		sym.Assert(err != nil, "a number out of the range of the column type is refused")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil, "a row that fits its table is accepted")
	for i, c := range row {
		j := i
		if back {
			j = n - 1 - i
		}
		if j == at {
			v, ok := c.Value().(int8)
			sym.Assert(ok && int16(v) == x, "each value of a row takes the type of its own column")
			continue
		}
		w := j
		if j > 100 {
			w = 5
		}
		switch j % 3 {
		case 0:
			sym.Assert(c.Value() == any(int8(w)), "each value of a row takes the type of its own column")
		case 1:
			sym.Assert(c.Value() == any(int64(w)), "each value of a row takes the type of its own column")
		default:
			sym.Assert(c.Value() == any(int16(w)), "each value of a row takes the type of its own column")
		}
	}
	sym.Cover("accepted")
}

// texts that are no truth values
func S17_NoTruth() {
	s := ""
	switch sym.Choose("form", 4) {
	case 0:
		s = []string{"", " ", "yes", "no", "on", "off", "2", "-1", "0.0", "truee", "tru", "01", "null ", "10", " true", "true "}[sym.Choose("word", 16)]
	case 1:
		s = "true" + sym.Str("s", 1, 2, "text")
	case 2:
		s = sym.Str("s", 1, 1, "[2-9 -]")
	default:
		s = sym.Str("s", 1, 1, "[01]") + sym.Str("r", 1, 2, "digit")
	}
	l := query.NewLiteralWith(s)
	if sym.Choose("quote", 2) == 1 {
		l.SetValueType(query.StringLiteral)
	}
	_, err := coerce(query.BooleanType, l)
	sym.Assert(err != nil, "a text that is no truth value is refused")
	sym.Cover("end")
}

// ---- F21

// many aggregates, many groups
func F21_Wide() {
	w, n := 3, counts[sym.Choose("n", len(counts))]
	if sym.Choose("wide", 2) == 1 {
		w, n = n, 3
	}
	var list []fn.Aggregator
	cols := names{"g"}
	for i := 0; i < w; i++ {
		a, err := fn.NewAggregatorForName(aggrNames[i%5], fn.WithAggregatorArguments([]string{"c" + itoa(i)}))
		sym.Assert(err == nil, "an aggregate function is found by its name")
		list = append(list, a)
		cols = append(cols, aggrNames[i%5]+"(c"+itoa(i)+")")
	}
	set := fn.NewAggregatorSetWith(list)
	sym.Assert(set.Reset(fn.NewGroupBy("g")) == nil, "a set of aggregates can be reset")
	atR := []int{0, n / 2, n - 1}[sym.Choose("atr", 3)]
	atC := []int{0, w / 2, w - 1}[sym.Choose("atc", 3)]
	x := float64(sym.Int8("x"))
	cell := func(r, c, k int) float64 {
		if k == 0 && r == atR && c == atC {
			return x
		}
		return float64((r*3+c*5+k)%7 - 3)
	}
	for k := 0; k < 2; k++ {
		for r := 0; r < n; r++ {
			m := map[string]any{"g": r}
			for c := 0; c < w; c++ {
				m["c"+itoa(c)] = cell(r, c, k)
			}
			sym.Assert(set.Aggregate(m) == nil, "a row is aggregated by every aggregate")
		}
	}
	rs, err := set.Finalize()
	sym.Assert(err == nil && cols.same(rs.Columns()), "the result has the group columns once, then every aggregate")
	for r := 0; r < n; r++ {
		sym.Assert(rs.Next(), "every group has a row")
		row, err := rs.Row()
		sym.Assert(err == nil && len(row) == len(cols) && row[0] == r, "a row has a value for every column")
		for c := 0; c < w; c++ {
			var t total
			t.add(cell(r, c, 0))
			t.add(cell(r, c, 1))
			t.check(c%5, row[1+c])
		}
	}
	sym.Assert(!rs.Next(), "there is one row for each group")
	sym.Cover("end")
}

// ---- F22

// arithmetic of large numbers
func F22_Large() {
	vals := []int{2147483647, 2147483648, -2147483649, 4294967296, 9007199254740991, 1 << 40, -(1 << 52), 1000000007}
	x, y := vals[sym.Choose("x", len(vals))], vals[sym.Choose("y", len(vals))]
	if sym.Choose("small", 2) == 1 {
		y = 7
	}
	args := []any{x, y}
	if sym.Choose("float", 2) == 1 {
		args = []any{float64(x), float64(y)}
	}
	op := sym.Choose("op", 5)
	v, err := run([]int{fAdd, fSub, fMul, fDiv, fRem}[op], args...)
	f, ok := v.(float64)
	sym.Assert(err == nil && ok, "arithmetic has a value")
	a, b := float64(x), float64(y)
	want := []float64{a + b, a - b, a * b, a / b, float64(x % y)}[op]
	sym.Assert(f == want, "arithmetic computes with large numbers")
	sym.Cover("end")
}

// a NULL is no number, and the name of a column is not its value
func F22_NullColumn() {
	k := sym.Choose("fn", len(scalars))
	s := scalars[k]
	if s.args == 0 {
		sym.Stop()
	}
	c := sym.Str("c", 1, 2, "ident")
	sym.Assume(c != "d")
	args := []string{c, "d"}[:s.args]
	ex, err := fn.NewExecutorForName(s.name, fn.WithExecutorArguments(args))
	sym.Assert(err == nil, "a function is found by its name")
	var row any = map[string]any{c: nil, "d": 1.0}
	if sym.Choose("map", 2) == 1 {
		row = fn.Map{c: nil, "d": 1.0}
	}
	v, err := ex.Execute(row)
	if err == nil && v != nil {
		t, ok := v.(string)
		sym.Assert(ok && t == "", "a NULL is no number and no text")
	}
	sym.Cover("end")
}

// ---- F23

// names with blanks around are no function names
func F23_Blanks() {
	var w string
	if i := sym.Choose("fn", len(scalars)+len(aggrNames)); i < len(scalars) {
		w = scalars[i].name
	} else {
		w = aggrNames[i-len(scalars)]
	}
	b := []string{" ", "\t", "\n", "  ", "\x00", "#", "`", "\""}[sym.Choose("blank", 8)]
	switch sym.Choose("side", 3) {
	case 0:
		w += b
	case 1:
		w = b + w
	default:
		w = b + w + b
	}
	_, err := fn.NewExecutorForName(w)
	sym.Assert(err != nil, "a word that names no function is no function")
	_, err = fn.NewAggregatorForName(w, fn.WithAggregatorArguments([]string{"x"}))
	sym.Assert(err != nil, "a word that names no aggregate is no aggregate")
	_, err = fn.NewFunctionTypeForName(w)
	sym.Assert(err != nil, "a word that names no function has no type")
	f := fn.NewFunction(fn.WithFunctionName(w), fn.WithFunctionArguments(fn.NewArgumentWith("x")))
	_, err = f.Executor()
	_, err2 := f.Aggregator()
	sym.Assert(err != nil && err2 != nil && !f.IsAggregator(), "an unknown function is reported and not executed")
	sym.Cover("end")
}

// ---- R26

// a row that cannot be aggregated fails the whole, also with groups and among many
func R26_BadRowOfGroup() {
	k := sym.Choose("aggr", 4)
	st := selectOf("SELECT g, COUNT(*), " + aggrNames[k] + "(x) FROM t GROUP BY g")
	n := []int{1, 2, 9, 33}[sym.Choose("n", 4)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	bad := sym.Str("s", 1, 2, "[g-m]")
	var ms []map[string]any
	for i := 0; i < n; i++ {
		ms = append(ms, map[string]any{"g": "k" + itoa(i%3), "x": float64(i), "y": 1.0})
	}
	ms[at]["x"] = bad
	rs, err := aggregated(people(), st, ms)
	sym.Assert(err != nil && rs == nil, "a row that cannot be aggregated is an error")
	sym.Cover("end")
}

func aggregated(tbl query.Schema, st query.Select, ms []map[string]any) (resultset.ResultSet, error) {
	src := resultset.NewSchema(resultset.WithSchemaDatabaseName("d"), resultset.WithSchemaTableName("t"),
		resultset.WithSchemaColumns([]resultset.Column{rsCol("g", query.TextType), rsCol("x", query.DoubleType), rsCol("y", query.DoubleType)}))
	srs, err := resultset.NewResultSetFrom(resultset.WithResultSetSchema(src), resultset.WithResultSetRowsOf(ms))
	sym.Assert(err == nil, "rows are a result")
	opts := []resultset.AggregatedResultSetOptions{
		resultset.WithAggregatedResultSetTableSchema(tbl), resultset.WithAggregatedResultSetSelectors(st.Selectors()),
		resultset.WithAggregatedResultSetSource(srs),
	}
	if st.GroupBy().ColumnName() != "" {
		opts = append(opts, resultset.WithAggregatedResultSetGroupBy(st.GroupBy()))
	}
	return resultset.NewAggregatedResultSetFrom(opts...)
}

// many rows, many groups, tables with keys and constraints
func R26_Many() {
	n := counts[sym.Choose("n", len(counts)-1)]
	groups := []int{1, 2, 7, n}[sym.Choose("groups", 4)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	con := []query.Constraint{query.ConstraintNone, query.PrimaryKeyConstraint, query.NotNullConstraint, query.UniqueConstraint}[sym.Choose("constraint", 4)]
	tbl := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(
		query.NewColumnWithOptions(query.WithColumnName("g"), query.WithColumnData(conDef{query.NewDataDef(query.TextType, -1), con})),
		query.NewColumnWithOptions(query.WithColumnName("x"), query.WithColumnData(query.NewDataDef(query.DoubleType, -1))),
		query.NewColumnWithOptions(query.WithColumnName("y"), query.WithColumnData(query.NewDataDef(query.DoubleType, -1))))))
	st := selectOf("SELECT g, SUM(x), COUNT(*), MAX(y), MIN(x), AVG(y) FROM t GROUP BY g")
	x := float64(sym.Int8("x"))
	var ms []map[string]any
	var ts, tu []total
	var size []int
	var keys []string
	for i := 0; i < n; i++ {
		k := (i * 5) % groups
		key := "k" + itoa(k)
		j := -1
		for h := range keys {
			if keys[h] == key {
				j = h
			}
		}
		if j < 0 {
			j = len(keys)
			keys, size, ts, tu = append(keys, key), append(size, 0), append(ts, total{}), append(tu, total{})
		}
		v, w := float64(i%7-3), float64(i%5)
		if i == at {
			v = x
		}
		ms = append(ms, map[string]any{"g": key, "x": v, "y": w})
		size[j]++
		ts[j].add(v)
		tu[j].add(w)
	}
	rs, err := aggregated(tbl, st, ms)
	sym.Assert(err == nil, "a selection with aggregates has a result")
	for j := range keys {
		sym.Assert(rs.Next(), "every group has a row")
		row, err := rs.Row()
		sym.Assert(err == nil && len(row.Values()) == 6, "a row has the columns of the selection")
		vs := row.Values()
		sym.Assert(vs[0] == any(keys[j]) && vs[2] == any(float64(size[j])), "the row of a group has the key of the group and the number of its rows")
		ts[j].check(0, vs[1])
		tu[j].check(3, vs[3])
		ts[j].check(2, vs[4])
		tu[j].check(1, vs[5])
	}
	sym.Assert(!rs.Next(), "there is one row for each group")
	_, err = rs.Row()
	sym.Assert(errors.Is(err, sqlerrors.ErrNoRows), "after the last row there is none")
	sym.Cover("end")
}
