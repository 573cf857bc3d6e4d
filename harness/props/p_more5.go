package props

import (
	"errors"
	"time"

	sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/net"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"github.com/cybergarage/go-sqlparser/sql/system"
	"github.com/google/uuid"
	"verif/harness/sym"
)

// ---- N28

// stubborn is a transport that fails to close for a reason of its own.
type stubborn struct {
	raw
	err error
}

func (s *stubborn) Close() error {
	s.closes++
	if s.closes <= s.fails {
		return s.err
	}
	return nil
}

// closing a manager reports every connection that failed to close
func N28_Reasons() {
	n := 1 + sym.Choose("n", 4)
	cm := net.NewConnManager()
	var rs []*stubborn
	for i := 0; i < n; i++ {
		r := &stubborn{err: errors.New("reason " + itoa(i))}
		r.fails = sym.Choose("fails", 3)
		rs = append(rs, r)
		sym.Assert(cm.AddConn(&peer{net.NewConnWith(r), uuid.UUID{byte(i + 1)}, net.ConnID(i)}) == nil, "a connection is added")
	}
	for k := 0; k < 3; k++ {
		err := cm.Close()
		left := 0
		for i, r := range rs {
			f := r.fails > k
			if f {
				left++
			}
			sym.Assert(errors.Is(err, r.err) == f, "closing reports each connection that failed to close")
			_, ok := cm.LookupConnByUID(uint64(i))
			sym.Assert(ok == f, "a connection that failed to close is kept")
		}
		sym.Assert((err == nil) == (left == 0) && len(cm.Conns()) == left, "closing reports whether a connection failed to close")
	}
	sym.Cover("end")
}

// ---- E31

// errors about values of any kind
func E31_Any() {
	vals := []any{7, int64(-3), 2.5, true, nil, []byte("ab"), []string{"p", "q"}, sqlerrors.ErrExist, sqlerrors.NewErrNotSupported("z"), errors.New("own"),
		query.NewColumnWithName("cc"), map[string]any{"k": 1}, "%w", "%!v(MISSING)", struct{}{}, uint8(255)}
	texts := []string{"7", "-3", "2.5", "true", "nil", "", "q", "exist", "not supported", "own", "cc", "k", "%w", "%!v(MISSING)", "", "255"}
	i := sym.Choose("v", len(vals))
	var err, want error
	switch sym.Choose("k", 3) {
	case 0:
		err, want = sqlerrors.NewErrColumnNotExist(vals[i]), sqlerrors.ErrNotExist
	case 1:
		err, want = sqlerrors.NewErrColumnValueNotExist(vals[i]), sqlerrors.ErrNotExist
	default:
		err, want = sqlerrors.NewErrGroupByColumnValueNotFound(vals[i]), sqlerrors.ErrNotFound
	}
	for _, s := range sentinels {
		sym.Assert(errors.Is(err, s) == (s == want), "an error is of its kind and of no other")
	}
	sym.Assert(contains(err.Error(), texts[i]) && contains(err.Error(), "column"), "an error names what it is about")
	sym.Cover("end")
}

// ---- R38

// columns of functions are found by their own names only
func R38_Functions() {
	f := []string{"ABS(x)", "SUM(x)", "x", "MAX(ABS)"}
	names := []string{"ABS(x)", "SUM(x)", "x", "MAX(ABS)", "ABS", "SUM", "MAX", "sum(x)", "X", "", "abs"}
	st := selectOf("SELECT ABS(x), SUM(x), x, MAX(ABS) FROM t")
	var cs []resultset.Column
	for i, s := range st.Selectors() {
		if fx, ok := s.Function(); ok {
			cs = append(cs, resultset.NewColumn(resultset.WithColumnName(f[i]), resultset.WithColumnType(query.FloatType), resultset.WithColumnFunction(fx)))
		} else {
			cs = append(cs, resultset.NewColumn(resultset.WithColumnName(f[i])))
		}
	}
	s := resultset.NewSchema(resultset.WithSchemaColumns(cs))
	q := sym.Choose("q", len(names))
	c, err := s.LookupColumn(names[q])
	if q < len(f) {
		sym.Assert(err == nil && c == cs[q], "a column is found by its name")
	} else {
		sym.Assert(errors.Is(err, query.ErrNotFound), "a column that is not there is not found")
	}
	for i := range cs {
		fx, ok := cs[i].Function()
		sym.Assert(ok == (i != 2) && cs[i].IsFunction() == ok, "a function column has its function")
		if ok {
			sym.Assert(fx.Name() == []string{"ABS", "SUM", "", "MAX"}[i], "a function column has its function")
		}
	}
	sym.Cover("end")
}

// selections of many columns, repeated ones among them
func R38_Many() {
	n := counts[sym.Choose("n", len(counts))]
	at := []int{0, 1, n / 2, n - 1}[sym.Choose("at", 4)]
	step := sym.Choose("step", 3)
	k := 3
	if step == 2 {
		k = n
	}
	var cols []query.Column
	for i := 0; i < k; i++ {
		cols = append(cols, query.NewColumnWithOptions(query.WithColumnName("c"+itoa(i)), query.WithColumnData(query.NewDataDef(allTypes[i%len(allTypes)], i))))
	}
	tbl := query.NewSchemaWith("tt", query.WithSchemaColumns(query.NewColumnsWith(cols...)))
	var sel query.Selectors
	var want []int
	fs := selectOf("SELECT ABS(c1), ABS(c1) FROM tt").Selectors()
	for i := 0; i < n; i++ {
		j := 1
		if step > 0 {
			j = i % k
		}
		if i == at {
			j = -1
			sel = append(sel, fs[0])
		} else {
			sel = append(sel, query.NewColumnWithName("c"+itoa(j)))
		}
		want = append(want, j)
	}
	s, err := resultset.NewSchemaFrom(resultset.WithSchemaDatabaseName("db"), resultset.WithSchemaTableSchema(tbl), resultset.WithSchemaSelectors(sel))
	sym.Assert(err == nil && len(s.Columns()) == n && s.DatabaseName() == "db", "a selection has a column for each selector")
	for i, j := range want {
		c := s.Columns()[i]
		_, ok := c.Function()
		if j >= 0 {
			sym.Assert(!ok && c.Name() == "c"+itoa(j) && c.DataType() == cols[j].DataType(), "a selected column is that of the table")
		} else {
			sym.Assert(ok && c.DataType() == query.FloatType, "a selected function is a column of its own")
		}
	}
	sel = append(sel, query.NewColumnWithName("cx"))
	_, err = resultset.NewSchemaFrom(resultset.WithSchemaTableSchema(tbl), resultset.WithSchemaSelectors(sel))
	sym.Assert(errors.Is(err, query.ErrNotFound), "a selection of an unknown column is refused")
	sym.Cover("end")
}

// rows of values at the edges of their kinds
func R38_Edges() {
	t0, t1 := time.Time{}, time.Unix(5, 0)
	vals := []any{t0, t1, &t0, &t1, "", "NULL", "1", false, 0, 0.0, float32(0), []byte{}, []byte(nil), uint8(255), int8(-128), uint64(1 << 63), uint(0), int16(-1), uint32(1 << 31), int64(0)}
	types := []query.DataType{query.TimeStampType, query.TimeStampType, query.TimeStampType, query.TimeStampType, query.VarCharType, query.VarCharType, query.VarCharType, query.BooleanType,
		query.IntType, query.DoubleType, query.FloatType, query.BlobType, query.BlobType, query.TinyIntType, query.TinyIntType, query.BigIntType, query.IntType, query.SmallIntType, query.IntType, query.BigIntType}
	i := sym.Choose("v", len(vals))
	n := []string{"", "a", "*", "ABS(x)", "1"}[sym.Choose("n", 5)]
	t, err := query.NewDataTypeForValue(vals[i])
	sym.Assert(err == nil && t == types[i], "a value is given the type of its kind")
	s, err := resultset.NewSchemaFrom(resultset.WithSchemaRowObject(map[string]any{n: vals[i], "zz": "z"}))
	sym.Assert(err == nil && len(s.Columns()) == 2, "a row has a column for each value")
	c, err := s.LookupColumn(n)
	sym.Assert(err == nil && c.DataType() == types[i] && c.Name() == n, "a column has the type of its value")
	sym.Cover("end")
}

// ---- S18

// words that differ from the name of a type in a character are no types
func S18_Around() {
	t := query.BigIntType + query.DataType(sym.Choose("type", int(query.SmallSerialType)))
	s := t.String()
	at := sym.Choose("at", len(s)+1)
	x := sym.Str("x", 1, 1, "ascii")
	w := ""
	switch sym.Choose("how", 5) {
	case 0:
		w = s[:at] + x + s[at:]
	case 1:
		if at == len(s) {
			sym.Stop()
		}
		w = s[:at] + x + s[at+1:]
	case 2:
		if at == len(s) {
			sym.Stop()
		}
		w = s[:at] + s[at+1:]
	case 3:
		if at > 0 {
			sym.Stop()
		}
		w = s + []string{" UNSIGNED", "(10)", "()", "[]", " (10)", ";", "\x00", " NOT NULL", " VARYING", "8"}[sym.Choose("suffix", 10)]
	default:
		if at > 0 {
			sym.Stop()
		}
		w = []string{" ", "(", "'", "\"", "`", "SQL_", "pg_", "N", "UNSIGNED "}[sym.Choose("prefix", 9)] + s
	}
	typ := false
	for b := query.BigIntType; b <= query.SmallSerialType; b++ {
		n := b.String()
		typ = sym.Or(typ, len(n) == len(w) && sameFold(n, w), b == query.DoublePrecisionType && len(w) == len("DOUBLEPRECISION") && sameFold("DOUBLEPRECISION", w))
	}
	sym.Assume(!typ)
	got, err := query.NewDataTypeFromString(w)
	sym.Assert(err != nil && got == query.UnknownData, "no other word is a type")
	_, err = query.NewDataTypeFrom([]byte(w))
	sym.Assert(err != nil, "no other word is a type")
	_, err = query.NewDataDefFrom(w, 3)
	sym.Assert(err != nil, "no other word is a type")
	sym.Cover("end")
}

// ---- I27

// columns and tables of any names are described
func I27_Names() {
	names := []string{"", " ", "*", "id", "ID", "TABLE_NAME", "a.b", "'", "1", "é"}
	types := []query.DataType{query.IntType, query.VarCharType, query.DoublePrecisionType}
	a, b, t := sym.Choose("a", len(names)), sym.Choose("b", len(names)), sym.Choose("t", len(names))
	cs := query.NewColumnsWith(
		query.NewColumnWithOptions(query.WithColumnName(names[a]), query.WithColumnData(query.NewDataDef(types[0], -1))),
		query.NewColumnWithOptions(query.WithColumnName(names[b]), query.WithColumnData(query.NewDataDef(types[1], 10))),
	)
	one := query.NewSchemaWith(names[t], query.WithSchemaColumns(cs[:1]))
	two := query.NewSchemaWith("x", query.WithSchemaColumns(cs))
	again := query.NewSchemaWith(names[t], query.WithSchemaColumns(cs[1:]))
	schemas := [][]query.Schema{{one}, {one, two}, {two, one}, {one, again}, {one, one}}[sym.Choose("schemas", 5)]
	rs, err := system.NewSchemaColumnsResultSetFromSchemas(schemas)
	sym.Assert(err == nil, "schemas are described")
	back, err := system.NewSchemaColumnsResultSetFromResultSet(rs)
	sym.Assert(err == nil, "a description is read back")
	got := back.Columns()
	i := 0
	for _, s := range schemas {
		for _, c := range s.Columns() {
			sym.Assert(i < len(got) && got[i].Table() == s.TableName() && got[i].Name() == c.Name() && got[i].DataType() == c.DataType(), "a description read back has every column with its table, name and type")
			i++
		}
	}
	sym.Assert(i == len(got), "a description read back has only the columns of the schemas")
	sym.Cover("end")
}

// ---- R25

// scanning a row gives the same as scanning its values one by one
func R25_ScanAll() {
	vals := []any{nil, "5", "x", 5, 2.5, true, []byte("b"), int8(-1)}
	v, w := vals[sym.Choose("v", len(vals))], vals[sym.Choose("w", len(vals))]
	k := sym.Choose("to", 5)
	to := func() (any, func() any) {
		switch k {
		case 0:
			x := "old"
			return &x, func() any { return x }
		case 1:
			x := 77
			return &x, func() any { return x }
		case 2:
			x := 7.5
			return &x, func() any { return x }
		case 3:
			x := true
			return &x, func() any { return x }
		default:
			x := int8(7)
			return &x, func() any { return x }
		}
	}
	sc := resultset.NewSchema(resultset.WithSchemaColumns([]resultset.Column{resultset.NewColumn(resultset.WithColumnName("a")), resultset.NewColumn(resultset.WithColumnName("b"))}))
	row := resultset.NewRow(resultset.WithRowSchema(sc), resultset.WithRowValues([]any{v, w}))
	if sym.Choose("object", 2) == 1 {
		row = resultset.NewRow(resultset.WithRowSchema(sc), resultset.WithRowObject(map[string]any{"a": v, "b": w}))
	}
	p, pv := to()
	q, qv := to()
	err := row.Scan(p, q)
	a, av := to()
	b, bv := to()
	e0, e1 := row.ScanAt(0, a), row.ScanAt(1, b)
	c, cv := to()
	d, dv := to()
	e2, e3 := row.ScanBy("a", c), row.ScanBy("b", d)
	sym.Assert((e0 == nil) == (e2 == nil) && (e1 == nil) == (e3 == nil) && av() == cv() && bv() == dv(), "scanning by position and by name gives the same")
	sym.Assert((err == nil) == (e0 == nil && e1 == nil), "scanning a row fails when one of its values cannot be scanned")
	if err == nil {
		sym.Assert(pv() == av() && qv() == bv(), "scanning a row gives the same as scanning its values")
		sym.Cover("scanned")
	} else {
		sym.Cover("refused")
	}
}

// ---- F19, F20

// several arguments with NULLs of their own, in one or two groups
func manyArgs(groups int) {
	k := sym.Choose("aggr", 5)
	args := []string{"x", "y", "z", "u"}
	rows := [][4]float64{{3, -4, 5, 100}, {1, 0, -7, 50}, {8, 2, 2, -25}, {-6, 9, 1, 12.5}}
	x := float64(sym.Int8("x"))
	// the NULLs: one for each row, at a place of its own, and one more argument that is NULL throughout
	first, all := sym.Choose("null", 5), sym.Choose("all", 5)
	form := sym.Choose("form", 4)
	gs, cols := []string{}, args
	if groups > 0 {
		gs, cols = []string{"g"}, []string{"g", "x", "y", "z", "u"}
	}
	a := newAggr(k, args, gs...)
	var ts [2][4]total
	for i, r := range rows {
		var row []any
		if groups > 0 {
			row = append(row, "k"+itoa(i%groups))
		}
		for j := range r {
			v := r[j]
			if i == 1 && j == 2 {
				v = x
			}
			if j == all || first < 4 && (first+i)%4 == j && i < 3 {
				row = append(row, nil)
				continue
			}
			row = append(row, v)
			g := 0
			if groups > 0 {
				g = i % groups
			}
			ts[g][j].add(v)
		}
		sym.Assert(a.Aggregate(feed(form, cols, row)) == nil, "a row is aggregated")
	}
	rs, err := a.Finalize()
	sym.Assert(err == nil, "an aggregation has a result")
	for g := 0; g < max(groups, 1); g++ {
		sym.Assert(rs.Next(), "every group has a row")
		row, err := rs.Row()
		sym.Assert(err == nil && len(row) == len(cols), "a row has its columns")
		for j := range args {
			ts[g][j].check(k, row[len(cols)-4+j])
		}
	}
	sym.Assert(!rs.Next(), "there is one row for each group")
	sym.Cover("end")
}

func F19_Args()      { manyArgs(0) }
func F20_Args()      { manyArgs(1 + sym.Choose("groups", 2)) }
func F19_GroupArgs() { manyArgs(1 + sym.Choose("groups", 2)) }

// a result handed out stays as it is when more rows come and when another is asked for
func F20_Kept() {
	k := sym.Choose("aggr", 5)
	ng := 1 + sym.Choose("keys", 5)
	var gs []string
	for i := 0; i < ng; i++ {
		gs = append(gs, "g"+itoa(i))
	}
	a := newAggr(k, []string{"x"}, gs...)
	put := func(key string, x float64) {
		var row []any
		for i := 0; i < ng; i++ {
			row = append(row, key)
		}
		sym.Assert(a.Aggregate(append(row, x)) == nil, "a row is aggregated")
	}
	walk := func(rs fn.ResultSet, err error) []fn.Row {
		sym.Assert(err == nil, "an aggregation has a result")
		var rows []fn.Row
		for rs.Next() {
			r, err := rs.Row()
			sym.Assert(err == nil && len(r) == ng+1, "a row has its columns")
			rows = append(rows, r)
		}
		return rows
	}
	x := float64(sym.Int8("x"))
	var t, u, v total
	put("b", 3)
	put("a", x)
	t.add(3)
	u.add(x)
	first, err := a.Finalize(fn.OrderByAsc)
	early := sym.Choose("early", 2) == 1
	var rows []fn.Row
	if early {
		rows = walk(first, err)
	}
	put("b", 5)
	put("c", 1)
	w := t
	w.add(5)
	v.add(1)
	later := walk(a.Finalize([]fn.OrderBy{fn.OrderByAsc, fn.OrderByDesc}[sym.Choose("dir", 2)]))
	if !early {
		rows = walk(first, err)
	}
	sym.Assert(len(rows) == 2 && len(later) == 3, "there is one row for each group")
	sym.Assert(rows[0][0] == any("a") && rows[1][ng-1] == any("b"), "a result has the groups it had")
	u.check(k, rows[0][ng])
	t.check(k, rows[1][ng])
	w.check(k, later[1][ng])
	for _, r := range later {
		switch r[0] {
		case any("a"):
			u.check(k, r[ng])
		case any("b"):
			w.check(k, r[ng])
		default:
			sym.Assert(r[0] == any("c"), "a result has the groups of the rows")
			v.check(k, r[ng])
		}
	}
	sym.Cover("end")
}
