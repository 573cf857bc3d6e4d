package props

import (
	"errors"

	sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"verif/harness/sym"
)

func rsCol(name string, t query.DataType) resultset.Column {
	return resultset.NewColumn(resultset.WithColumnName(name), resultset.WithColumnType(t))
}

func noRow(r resultset.Row, err error) {
	sym.Assert(r == nil && errors.Is(err, sqlerrors.ErrNoRows), "there is no row before the first step and after the last")
}

// ---- R24: the cursor

// cursor walks a result set of n rows, with any offset and limit.
func cursor(n, steps int) {
	var rows []resultset.Row
	var vals []any
	for i := 0; i < n; i++ {
		v := sym.Int("v" + itoa(i))
		vals = append(vals, v)
		rows = append(rows, resultset.NewRow(resultset.WithRowObject(map[string]any{"a": v, "b": "x"})))
	}
	opts := []resultset.ResultSetOption{resultset.WithResultSetRows(rows)}
	schema := sym.Choose("schema", 2) == 1
	if schema {
		opts = append(opts, resultset.WithResultSetSchema(resultset.NewSchema(
			resultset.WithSchemaTableName("t"), resultset.WithSchemaColumns([]resultset.Column{rsCol("a", query.IntType)}))))
	}
	lo, window := uint(0), uint(n)
	if sym.Choose("offset", 2) == 1 {
		lo = sym.Uint("off")
		opts = append(opts, resultset.WithResultSetOffset(lo))
		window = sym.Ite(lo < uint(n), uint(n)-lo, 0)
	}
	if sym.Choose("limit", 2) == 1 {
		limit := sym.Uint("lim")
		opts = append(opts, resultset.WithResultSetLimit(limit))
		window = sym.Ite(sym.And(limit > 0, limit < window), limit, window)
	}
	affected := sym.Uint("affected")
	opts = append(opts, resultset.WithResultSetRowsAffected(affected))
	var rs resultset.ResultSet
	if sym.Choose("ctor", 2) == 0 {
		rs = resultset.NewResultSet(opts...)
	} else {
		var err error
		rs, err = resultset.NewResultSetFrom(opts...)
		sym.Assert(err == nil, "a result set can be made")
	}
	sym.Assert(rs.RowsAffected() == affected, "a result set has its number of affected rows")
	sym.Assert((rs.Schema() != nil) == schema, "a result set has its schema")
	noRow(rs.Row())
	for i := 0; i < steps; i++ {
		more := rs.Next()
		sym.Assert(more == (uint(i) < window), "a result set has the rows of its window and no others")
		if !more {
			noRow(rs.Row())
			continue
		}
		row, err := rs.Row()
		sym.Assert(err == nil && row != nil, "there is a row after every step of the window")
		again, err := rs.Row()
		sym.Assert(err == nil, "reading a row does not step")
		x, err := row.ValueBy("a")
		y, err2 := again.ValueBy("a")
		sym.Assert(err == nil && err2 == nil && x == y, "reading a row does not step")
		for j := range vals {
			sym.Assert(sym.Implies(lo+uint(i) == uint(j), x == vals[j]), "the rows of the window come in order, each once")
		}
		_, err = row.ValueBy("b")
		sym.Assert((err == nil) == !schema, "a row has the columns of the schema")
	}
	sym.Assert(rs.Close() == nil, "a result set can be closed")
	sym.Cover("end")
}

func R24_Window()          { n := sym.Choose("rows", 4); cursor(n, n+2) }
func R24_Longer_Thorough() { n := 4 + sym.Choose("rows", 3); cursor(n, n+3) }

// rows given as maps
func R24_Maps() {
	n := sym.Choose("rows", 3)
	var ms []map[string]any
	for i := 0; i < n; i++ {
		ms = append(ms, map[string]any{"a": sym.Int("v" + itoa(i))})
	}
	var rs resultset.ResultSet
	var err error
	if sym.Choose("how", 2) == 0 {
		rs, err = resultset.NewResultSetFrom(resultset.WithResultSetRowsOf(ms))
	} else {
		rows, e := resultset.NewRowsFromMapRows(ms)
		sym.Assert(e == nil && len(rows) == n, "maps are rows")
		rs, err = resultset.NewResultSetFrom(resultset.WithResultSetRowsOf(rows))
	}
	sym.Assert(err == nil, "maps are rows")
	for i := 0; i < n; i++ {
		sym.Assert(rs.Next(), "every map is a row")
		row, err := rs.Row()
		sym.Assert(err == nil, "every map is a row")
		v, err := row.ValueBy("a")
		sym.Assert(err == nil && v == ms[i]["a"], "the rows come in order")
	}
	sym.Assert(!rs.Next(), "there are no other rows")
	_, err = resultset.NewResultSetFrom(resultset.WithResultSetRowsOf(sym.Int("x")))
	sym.Assert(err != nil, "what is no list of rows is refused")
	sym.Cover("end")
}

// ---- R25: rows

// views reads a row by position, by name and as a whole.
func views(row resultset.Row, ns []string, vs []any, extra int) {
	switch sym.Choose("first", 3) {
	case 1:
		row.Values()
	case 2:
		if len(ns) > 0 {
			row.ValueBy(ns[0])
		}
	}
	obj := row.Object()
	sym.Assert(len(obj) == len(ns), "a row has a value for each of its columns")
	got := row.Values()
	sym.Assert(len(got) == len(vs)+extra, "a row lists a value for each of its columns")
	for i := range ns {
		sym.Assert(got[i] == vs[i], "the values of a row are in the order of its columns")
		v, ok := obj[ns[i]]
		sym.Assert(ok && v == vs[i], "a row names the value of each column")
		v, err := row.ValueBy(ns[i])
		sym.Assert(err == nil && v == vs[i], "a value is found by the name of its column")
		v, err = row.ValueAt(i)
		sym.Assert(err == nil && v == vs[i], "a value is found by its position")
	}
	at := sym.Int("at")
	v, err := row.ValueAt(at)
	if sym.Or(at < 0, at >= len(vs)+extra) {
		sym.Assert(v == nil && errors.Is(err, sqlerrors.ErrNotExist), "a position outside the row is an error")
		var x int
		sym.Assert(errors.Is(row.ScanAt(at, &x), sqlerrors.ErrNotExist), "a position outside the row is an error")
		sym.Cover("outside")
	} else {
		sym.Assert(err == nil, "every position of the row has a value")
		sym.Cover("inside")
	}
	n := sym.Str("n", 0, 2, "[abc1]")
	known := false
	for _, x := range ns {
		known = sym.Or(known, x == n)
	}
	v, err = row.ValueBy(n)
	if !known {
		sym.Assert(v == nil && errors.Is(err, sqlerrors.ErrNotExist), "a name the row does not have is an error")
		var x int
		sym.Assert(errors.Is(row.ScanBy(n, &x), sqlerrors.ErrNotExist), "a name the row does not have is an error")
		sym.Cover("unknown")
	} else {
		sym.Assert(err == nil, "every name of the row has a value")
	}
}

func cols3() resultset.Schema {
	return resultset.NewSchema(resultset.WithSchemaTableName("t"),
		resultset.WithSchemaColumns([]resultset.Column{rsCol("b", query.IntType), rsCol("a", query.TextType), rsCol("c", query.IntType)}))
}

func cell(tag string) any {
	switch sym.Choose(tag+"k", 3) {
	case 0:
		return sym.Int(tag)
	case 1:
		return sym.Str(tag, 0, 1, "text")
	}
	return nil
}

func R25_Views() {
	x, y, z := cell("x"), cell("y"), cell("z")
	switch sym.Choose("form", 6) {
	case 0: // an object under a schema
		views(resultset.NewRow(resultset.WithRowObject(map[string]any{"a": y, "b": x, "c": z}), resultset.WithRowSchema(cols3())),
			[]string{"b", "a", "c"}, []any{x, y, z}, 0)
	case 1: // values under a schema
		views(resultset.NewRow(resultset.WithRowValues([]any{x, y, z}), resultset.WithRowSchema(cols3())),
			[]string{"b", "a", "c"}, []any{x, y, z}, 0)
	case 2: // an object: names in order
		views(resultset.NewRow(resultset.WithRowObject(map[string]any{"a": y, "b": x, "c": z})), []string{"a", "b", "c"}, []any{y, x, z}, 0)
	case 3: // values: numbered
		views(resultset.NewRow(resultset.WithRowValues([]any{x, y})), []string{"1", "2"}, []any{x, y}, 0)
	case 4: // no columns
		views(resultset.NewRow(), nil, nil, 0)
	default: // an object without values for some columns of the schema
		mask := sym.Choose("mask", 8)
		obj := map[string]any{}
		want := []any{nil, nil, nil}
		for i, v := range []any{x, y, z} {
			if mask>>uint(i)&1 == 1 {
				obj[[]string{"b", "a", "c"}[i]] = v
				want[i] = v
			}
		}
		r := resultset.NewRow(resultset.WithRowObject(obj), resultset.WithRowSchema(cols3()))
		first := sym.Choose("first", 2) == 1
		if first {
			r.Object()
		}
		for i, n := range []string{"b", "a", "c"} {
			v, err := r.ValueAt(i)
			sym.Assert(err == nil && v == want[i], "a column without a value is NULL, the others keep their place")
			if mask>>uint(i)&1 == 1 {
				v, err := r.ValueBy(n)
				sym.Assert(err == nil && v == want[i], "a value is found by the name of its column")
			}
		}
		vs := r.Values()
		sym.Assert(len(vs) == 3 && vs[0] == want[0] && vs[1] == want[1] && vs[2] == want[2], "a column without a value is NULL, the others keep their place")
		sym.Cover("hole")
	}
}

// fewer values than columns
func R25_ShortValues() {
	n := sym.Choose("n", 4)
	vs := []any{}
	for i := 0; i < n; i++ {
		vs = append(vs, cell("x"+itoa(i)))
	}
	r := resultset.NewRow(resultset.WithRowValues(vs), resultset.WithRowSchema(cols3()))
	for i, name := range []string{"b", "a", "c"} {
		var want any
		if i < n {
			want = vs[i]
			v, err := r.ValueAt(i)
			sym.Assert(err == nil && v == want, "a value is found by its position")
		}
		v, err := r.ValueBy(name)
		sym.Assert(err == nil && v == want, "a value is found by the name of its column, and a missing one is NULL")
		v, ok := r.Object()[name]
		sym.Assert(ok && v == want, "a row names the value of each column, and a missing one is NULL")
	}
	sym.Cover("end")
}

// many columns
func R25_Wide() {
	n := counts[sym.Choose("count", len(counts))]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	x := cell("x")
	var cs []resultset.Column
	var vs []any
	var ns []string
	obj := map[string]any{}
	for i := 0; i < n; i++ {
		// neither the order of the names nor of the columns is alphabetical
		name := "c" + itoa((i*7)%n) + "_" + itoa(i)
		var v any = i
		if i == at {
			v = x
		}
		cs, vs, ns = append(cs, rsCol(name, query.IntType)), append(vs, v), append(ns, name)
		obj[name] = v
	}
	s := resultset.NewSchema(resultset.WithSchemaTableName("t"), resultset.WithSchemaColumns(cs))
	opt := resultset.WithRowValues(vs)
	if sym.Choose("how", 2) == 1 {
		opt = resultset.WithRowObject(obj)
	}
	r := resultset.NewRow(opt, resultset.WithRowSchema(s))
	got, all := r.Values(), r.Object()
	sym.Assert(len(got) == n && len(all) == n, "a row has a value for each of its columns")
	for i := 0; i < n; i++ {
		v, err := r.ValueAt(i)
		w, err2 := r.ValueBy(ns[i])
		sym.Assert(err == nil && err2 == nil && v == vs[i] && w == vs[i] && got[i] == vs[i] && all[ns[i]] == vs[i], "a value is the same by position, by name and as a whole")
	}
	_, err := r.ValueAt(n)
	sym.Assert(err != nil, "a position outside the row is an error")
	sym.Cover("end")
}

// scanning into variables
func R25_Scan() {
	i := sym.IntRange("i", -999, 999)
	s := sym.Str("s", 0, 2, "text")
	f := sym.Float64("f")
	sym.Assume(f == f)
	row := resultset.NewRow(resultset.WithRowValues([]any{i, s, f}), resultset.WithRowSchema(cols3()))
	var a int
	var b string
	var c float64
	switch sym.Choose("how", 5) {
	case 0:
		sym.Assert(row.Scan(&a, &b, &c) == nil, "a row is scanned")
		sym.Assert(a == i && b == s && c == f, "each variable has the value of its column")
	case 1:
		sym.Assert(row.ScanAt(0, &a) == nil && row.ScanAt(1, &b) == nil && row.ScanAt(2, &c) == nil, "a row is scanned by position")
		sym.Assert(a == i && b == s && c == f, "each variable has the value of its column")
	case 2:
		sym.Assert(row.ScanBy("b", &a) == nil && row.ScanBy("a", &b) == nil && row.ScanBy("c", &c) == nil, "a row is scanned by name")
		sym.Assert(a == i && b == s && c == f, "each variable has the value of its column")
	case 3:
		sym.Assert(row.Scan(&a) == nil && a == i, "the first columns can be scanned alone")
		var d float64
		sym.Assert(row.ScanAt(0, &d) == nil && d == float64(i), "an integer can be scanned as a number")
		var e int64
		sym.Assert(row.ScanBy("b", &e) == nil && e == int64(i), "an integer can be scanned as an integer of another width")
	default:
		var d int
		sym.Assert(errors.Is(row.Scan(&a, &b, &c, &d), sqlerrors.ErrNotExist), "more variables than columns are refused")
		sym.Assume(sym.And(len(s) > 0, s >= "a"))
		sym.Assert(row.ScanAt(1, &d) != nil, "a text that is no number is not scanned as one")
	}
	sym.Cover("end")
}

// ---- R26: projections and aggregations

func people(types ...string) query.Schema {
	st, ok := parse1("CREATE TABLE t (g TEXT, x DOUBLE, y DOUBLE)").(query.CreateTable)
	sym.Assert(ok, "a table definition is read")
	return st.Schema()
}

func selectOf(text string) query.Select {
	st, ok := parse1(text).(query.Select)
	sym.Assert(ok, "a selection is read")
	return st
}

// the columns of a selection, computed from each row
func R26_Projection() {
	forms := [][]string{{"x"}, {"y", "g"}, {"ABS(x)"}, {"g", "ABS(y)", "x"}, {"FLOOR(x)", "g"}, {"POWER(x, y)", "y"}}
	f := forms[sym.Choose("form", len(forms))]
	list := ""
	for i, c := range f {
		if i > 0 {
			list += ", "
		}
		list += c
	}
	up := sym.Choose("case", 2) == 1
	for _, c := range f {
		if up && c != "x" && c != "y" && c != "g" {
			// the argument of a function is looked up as it is written
			sym.Stop()
		}
	}
	text := "SELECT " + list + " FROM t"
	if up {
		text = "SELECT " + upperCols(list) + " FROM t"
	}
	st := selectOf(text)
	schema, err := resultset.NewSchemaFrom(resultset.WithSchemaDatabaseName("d"), resultset.WithSchemaTableSchema(people()), resultset.WithSchemaSelectors(st.Selectors()))
	sym.Assert(err == nil, "a selection of a table has a schema")
	sym.Assert(schema.DatabaseName() == "d" && schema.TableName() == "t", "a schema names its database and table")
	sym.Assert(len(schema.Columns()) == len(f) && len(schema.Selectors()) == len(f), "a schema has the columns of the selection")
	n := 2
	var ms []map[string]any
	for i := 0; i < n; i++ {
		x, y := sym.Float64("x"+itoa(i)), sym.Float64("y"+itoa(i))
		sym.Assume(sym.And(sym.And(x > -1000, x < 1000), sym.And(y >= 0, y < 1000)))
		if f[0] == "POWER(x, y)" {
			x, y = 3, 2
		}
		ms = append(ms, map[string]any{"g": sym.Str("g"+itoa(i), 0, 1, "text"), "x": x, "y": y})
	}
	rs, err := resultset.NewResultSetFrom(resultset.WithResultSetSchema(schema), resultset.WithResultSetRowsOf(ms))
	sym.Assert(err == nil, "a selection has a result")
	for i := 0; i < n; i++ {
		sym.Assert(rs.Next(), "every row has a result")
		row, err := rs.Row()
		sym.Assert(err == nil, "every row has a result")
		vs := row.Values()
		sym.Assert(len(vs) == len(f), "a row has the columns of the selection")
		for j, c := range f {
			col := schema.Columns()[j]
			byName, err := row.ValueBy(col.Name())
			sym.Assert(err == nil && byName == vs[j], "a value is found by the name of its column")
			x, _ := ms[i]["x"].(float64)
			y, _ := ms[i]["y"].(float64)
			switch c {
			case "ABS(x)":
				sym.Assert(col.IsFunction() && vs[j] == sym.Ite(x < 0, -x, x), "a function is computed from the row")
			case "ABS(y)":
				sym.Assert(col.IsFunction() && vs[j] == y, "a function is computed from the row")
			case "FLOOR(x)":
				v, ok := vs[j].(int)
				sym.Assert(col.IsFunction() && ok && float64(v) <= x && x < float64(v)+1, "a function is computed from the row")
			case "POWER(x, y)":
				sym.Assert(vs[j] == 9.0, "a function is computed from the row")
			default:
				sym.Assert(!col.IsFunction() && vs[j] == ms[i][c], "a column of a row is the one selected")
				lc, err := schema.LookupColumn(col.Name())
				sym.Assert(err == nil && lc == col, "a column of a schema is found by its name")
				want := query.DoubleType
				if c == "g" {
					want = query.TextType
				}
				sym.Assert(col.DataType() == want, "a column has the type of the table definition")
			}
		}
		sym.Assert(len(ms[i]) == 3, "a projection does not change the row")
	}
	sym.Assert(!rs.Next(), "there are no other rows")
	sym.Cover("end")
}

func upperCols(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

// a column the table does not have
func R26_UnknownColumn() {
	c := sym.Ident("c", 1, 2)
	st := selectOf("SELECT " + c + " FROM t")
	_, err := resultset.NewSchemaFrom(resultset.WithSchemaTableSchema(people()), resultset.WithSchemaSelectors(st.Selectors()))
	known := sym.Or(sym.Or(sameFold(c, "g"), sameFold(c, "x")), sameFold(c, "y"))
	if known {
		sym.Assert(err == nil, "a column of the table can be selected")
		sym.Cover("known")
	} else {
		sym.Assert(notFound(err), "a column the table does not have is refused")
		sym.Cover("unknown")
	}
}

// r26 aggregates n rows by the groups of one column, or all of them.
func r26(n int, grouped bool, keys int) {
	k := sym.Choose("aggr", len(aggrNames))
	count := sym.Choose("count", 2) == 1
	list, want := aggrNames[k]+"(x)", names{aggrNames[k] + "(x)"}
	if count {
		list += ", COUNT(*)"
		want = append(want, "COUNT(*)")
	}
	text := "SELECT " + list + " FROM t"
	front := false
	if grouped {
		front = sym.Choose("front", 2) == 1
		if front {
			text, want = "SELECT g, "+list+" FROM t GROUP BY g", append(names{"g"}, want...)
		} else {
			text, want = "SELECT "+list+", g FROM t GROUP BY g", append(want, "g")
		}
	}
	st := selectOf(text)
	var gs []*group
	var size []int
	if !grouped {
		gs, size = []*group{{}}, []int{0}
	}
	var ms []map[string]any
	for i := 0; i < n; i++ {
		var g any
		if sym.Choose("gk"+itoa(i), keys) == 0 {
			g = sym.Str("g"+itoa(i), 0, 1, "[ab]")
		}
		var x any
		v := sym.Float64("x" + itoa(i))
		sym.Assume(v == v)
		some := sym.Choose("null"+itoa(i), 2) == 0
		if some {
			x = v
		}
		ms = append(ms, map[string]any{"g": g, "x": x, "y": 1.0})
		at := -1
		for j := range gs {
			if !grouped || sameKey(gs[j].key[0], g) {
				at = j
				break
			}
		}
		if at < 0 {
			at = len(gs)
			gs, size = append(gs, &group{key: []any{g}}), append(size, 0)
		}
		size[at]++
		if some {
			gs[at].t.add(v)
		}
	}
	src := resultset.NewSchema(resultset.WithSchemaDatabaseName("d"), resultset.WithSchemaTableName("t"),
		resultset.WithSchemaColumns([]resultset.Column{rsCol("g", query.TextType), rsCol("x", query.DoubleType), rsCol("y", query.DoubleType)}))
	srs, err := resultset.NewResultSetFrom(resultset.WithResultSetSchema(src), resultset.WithResultSetRowsOf(ms))
	sym.Assert(err == nil, "rows are a result")
	opts := []resultset.AggregatedResultSetOptions{
		resultset.WithAggregatedResultSetTableSchema(people()), resultset.WithAggregatedResultSetSelectors(st.Selectors()),
		resultset.WithAggregatedResultSetSource(srs),
	}
	if grouped || sym.Choose("gb", 2) == 1 {
		opts = append(opts, resultset.WithAggregatedResultSetGroupBy(st.GroupBy()))
	}
	rs, err := resultset.NewAggregatedResultSetFrom(opts...)
	sym.Assert(err == nil, "a selection with aggregates has a result")
	sym.Assert(rs.Schema().DatabaseName() == "d" && rs.Schema().TableName() == "t", "the result names its database and table")
	cols := rs.Schema().Columns()
	sym.Assert(len(cols) == len(want), "the result has the columns of the selection")
	for i := range want {
		sym.Assert(cols[i].Name() == want[i], "the columns of the result are in the order of the selection")
		sym.Assert(cols[i].IsFunction() == (want[i] != "g"), "the aggregates of the result are functions")
	}
	for i := range gs {
		sym.Assert(rs.Next(), "every group has a row")
		row, err := rs.Row()
		sym.Assert(err == nil, "every group has a row")
		vs := row.Values()
		sym.Assert(len(vs) == len(want), "a row has the columns of the selection")
		for j, w := range want {
			v, err := row.ValueBy(w)
			sym.Assert(err == nil && sameAny(v, vs[j]), "a value is found by the name of its column")
			switch w {
			case "g":
				sym.Assert(sameKey(gs[i].key[0], vs[j]), "the row of a group has the key of the group")
			case "COUNT(*)":
				sym.Assert(vs[j] == float64(size[i]), "COUNT(*) is the number of rows of the group")
			default:
				gs[i].t.check(k, vs[j])
			}
		}
	}
	sym.Assert(!rs.Next(), "there is one row for each group")
	sym.Cover("end")
}

func sameAny(a, b any) bool {
	x, ok := a.(float64)
	y, ok2 := b.(float64)
	if ok && ok2 {
		return sym.Or(x == y, sym.And(x != x, y != y))
	}
	return a == b
}

func R26_Groups()           { r26(2, true, 2) }
func R26_All()              { r26(sym.Choose("rows", 3), false, 1) }
func R26_Groups3_Thorough() { r26(3, true, 2) }

// a selection without aggregates is left as it is; what is missing is refused
func R26_Options() {
	st := selectOf("SELECT x FROM t")
	if sym.Choose("aggr", 2) == 1 {
		st = selectOf("SELECT SUM(x) FROM t")
	}
	rs := resultset.NewResultSet(resultset.WithResultSetSchema(cols3()))
	opts := []resultset.AggregatedResultSetOptions{
		resultset.WithAggregatedResultSetTableSchema(people()), resultset.WithAggregatedResultSetSelectors(st.Selectors()),
		resultset.WithAggregatedResultSetSource(rs),
	}
	miss := sym.Choose("missing", 4)
	if miss < 3 {
		opts = append(opts[:miss], opts[miss+1:]...)
	}
	got, err := resultset.NewAggregatedResultSetFrom(opts...)
	if miss < 3 {
		sym.Assert(err != nil && got == nil, "an aggregation needs a table, a selection and rows")
	} else if !st.HasAggregator() {
		sym.Assert(err == nil && got == rs, "a selection without aggregates is left as it is")
	} else {
		sym.Assert(err == nil && got.Next(), "an aggregation without groups has a row")
	}
	sym.Cover("end")
}

// a row that cannot be aggregated fails the whole
func R26_BadRow() {
	k := sym.Choose("aggr", 4)
	st := selectOf("SELECT " + aggrNames[k] + "(x) FROM t")
	bad := sym.Str("s", 1, 2, "[g-m]")
	at := sym.Choose("at", 2)
	ms := []map[string]any{{"x": 1.0}, {"x": 2.0}}
	ms[at]["x"] = bad
	src := resultset.NewSchema(resultset.WithSchemaColumns([]resultset.Column{rsCol("x", query.DoubleType)}))
	srs, err := resultset.NewResultSetFrom(resultset.WithResultSetSchema(src), resultset.WithResultSetRowsOf(ms))
	sym.Assert(err == nil, "rows are a result")
	rs, err := resultset.NewAggregatedResultSetFrom(resultset.WithAggregatedResultSetTableSchema(people()),
		resultset.WithAggregatedResultSetSelectors(st.Selectors()), resultset.WithAggregatedResultSetSource(srs))
	sym.Assert(err != nil && rs == nil, "a row that cannot be aggregated is an error")
	sym.Cover("end")
}

var _ = fn.AggregateFunction
