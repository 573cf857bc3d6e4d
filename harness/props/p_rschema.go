package props

import (
	"errors"

	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"verif/harness/sym"
)

// ---- R24: many rows

// manyRows walks n rows with an offset and a limit around the places where something may break.
func manyRows(n int) {
	var rows []resultset.Row
	v := sym.Int("v")
	for i := 0; i < n; i++ {
		rows = append(rows, resultset.NewRow(resultset.WithRowObject(map[string]any{"a": v, "i": i})))
	}
	offs := []int{0, 1, n / 2, n - 1, n, n + 1}
	lims := []int{0, 1, n / 2, n - 1, n, n + 1}
	off, lim := offs[sym.Choose("off", 6)], lims[sym.Choose("lim", 6)]
	opts := []resultset.ResultSetOption{resultset.WithResultSetRows(rows), resultset.WithResultSetOffset(uint(off)), resultset.WithResultSetLimit(uint(lim))}
	if sym.Choose("schema", 2) == 1 {
		opts = append(opts, resultset.WithResultSetSchema(resultset.NewSchema(
			resultset.WithSchemaColumns([]resultset.Column{rsCol("i", query.IntType), rsCol("a", query.IntType)}))))
	}
	rs := resultset.NewResultSet(opts...)
	want := 0
	if off < n {
		want = n - off
	}
	if lim > 0 && lim < want {
		want = lim
	}
	got := 0
	for rs.Next() {
		r, err := rs.Row()
		sym.Assert(err == nil, "there is a row after every step of the window")
		i, err := r.ValueBy("i")
		x, err2 := r.ValueBy("a")
		sym.Assert(err == nil && err2 == nil && i == off+got && x == v, "the rows of the window come in order, each once")
		got++
		sym.Assert(got <= want, "a result set has the rows of its window and no others")
	}
	sym.Assert(got == want, "a result set has the rows of its window and no others")
	noRow(rs.Row())
	sym.Assert(!rs.Next(), "a result set has an end")
	noRow(rs.Row())
	sym.Cover("end")
}

func R24_Many()          { manyRows([]int{7, 17, 65}[sym.Choose("n", 3)]) }
func R24_More_Thorough() { manyRows([]int{129, 257, 300}[sym.Choose("n", 3)]) }

// ---- R38: the schema of a result

var allConstraints = []query.Constraint{query.ConstraintNone, query.PrimaryKeyConstraint, query.NotNullConstraint, query.UniqueConstraint}

// a column of a result is what it was made of
func R38_Column() {
	name := sym.Str("n", 0, 2, "ascii")
	t := allTypes[sym.Choose("type", len(allTypes))]
	c := allConstraints[sym.Choose("con", 4)]
	var col resultset.Column
	switch sym.Choose("how", 3) {
	case 0:
		col = resultset.NewColumn(resultset.WithColumnName(name), resultset.WithColumnType(t), resultset.WithColumnConstraint(c))
	case 1:
		q := query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnData(query.NewDataDef(t, 3)))
		c = query.ConstraintNone
		var err error
		col, err = resultset.NewColumnFrom(q)
		sym.Assert(err == nil, "a table column is a result column")
	default:
		q := query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnData(query.NewDataDef(t, 3)))
		c = query.ConstraintNone
		p := query.NewColumnWithName("p")
		cs := resultset.NewColumnsFrom(query.NewColumnsWith(p, q))
		sym.Assert(len(cs) == 2 && cs[0].Name() == "p", "table columns are result columns, in order")
		col = cs[1]
	}
	sym.Assert(col.Name() == name && col.DataType() == t && col.Constraint() == c, "a result column has the name, type and constraint given")
	sym.Assert(col.IsAsterisk() == (name == "*"), "only * stands for all columns")
	_, ok := col.Function()
	sym.Assert(!ok && !col.IsFunction() && len(col.Arguments()) == 0, "a plain column is no function")
	sym.Assert(col.String() == name, "a result column prints as its name")
	sym.Cover("end")
}

// the columns of a result are found by their names
func R38_Lookup() {
	n := sym.Choose("cols", 4)
	var cs []resultset.Column
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, sym.Str("n"+itoa(i), 0, 2, "ascii"))
		cs = append(cs, resultset.NewColumn(resultset.WithColumnName(names[i]), resultset.WithColumnType(query.DataType(i))))
	}
	db, tbl := sym.Str("db", 0, 1, "ascii"), sym.Str("tbl", 0, 1, "ascii")
	opts := []resultset.SchemaOption{resultset.WithSchemaDatabaseName(db), resultset.WithSchemaTableName(tbl), resultset.WithSchemaColumns(cs)}
	var s resultset.Schema
	if sym.Choose("ctor", 2) == 0 {
		s = resultset.NewSchema(opts...)
	} else {
		var err error
		s, err = resultset.NewSchemaFrom(opts...)
		sym.Assert(err == nil, "a schema can be made")
	}
	sym.Assert(s.DatabaseName() == db && s.TableName() == tbl, "a result schema has its database and table")
	sym.Assert(len(s.Columns()) == n && len(s.Selectors()) == n, "a result schema has its columns")
	for i := range cs {
		sym.Assert(s.Columns()[i] == cs[i] && s.Selectors()[i].Name() == names[i], "a result schema has its columns in order")
	}
	q := sym.Str("q", 0, 2, "ascii")
	at := -1
	for i := n - 1; i >= 0; i-- {
		if names[i] == q {
			at = i
		}
	}
	c, err := s.LookupColumn(q)
	if at < 0 {
		sym.Assert(err != nil && errors.Is(err, query.ErrNotFound), "a column that is not there is not found")
	} else {
		sym.Assert(err == nil && c == cs[at], "a column is found by its name")
	}
	sym.Cover("end")
}

// a schema of a row has a column for each value
func R38_RowObject() {
	a, b := sym.Str("a", 1, 1, "ascii"), sym.Str("b", 1, 1, "ascii")
	sym.Assume(a != b)
	vals := []any{int8(1), uint16(2), int32(3), int64(4), 5, float32(1.5), 2.5, true, "s", []byte{1}}
	types := []query.DataType{query.TinyIntType, query.SmallIntType, query.IntType, query.BigIntType, query.IntType, query.FloatType, query.DoubleType, query.BooleanType, query.VarCharType, query.BlobType}
	i, j := sym.Choose("x", len(vals)), sym.Choose("y", len(vals)+1)
	obj := map[string]any{a: vals[i]}
	if j < len(vals) {
		obj[b] = vals[j]
	} else {
		obj[b] = struct{}{}
	}
	s, err := resultset.NewSchemaFrom(resultset.WithSchemaRowObject(obj))
	if j == len(vals) {
		sym.Assert(err != nil && s == nil, "a value without a type is refused")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil && len(s.Columns()) == 2, "a row has a column for each value")
	x, err := s.LookupColumn(a)
	sym.Assert(err == nil && x.DataType() == types[i], "a column has the type of its value")
	y, err := s.LookupColumn(b)
	sym.Assert(err == nil && y.DataType() == types[j], "a column has the type of its value")
	sym.Cover("end")
}

// the schema of a selection
func R38_Selection() {
	names := []string{"ab", "ac", "b"}
	types := []query.DataType{query.BigIntType, query.TextType, query.DoubleType}
	var cols []query.Column
	for i := range names {
		cols = append(cols, query.NewColumnWithOptions(query.WithColumnName(names[i]), query.WithColumnData(query.NewDataDef(types[i], 0))))
	}
	tbl := query.NewSchemaWith("tt", query.WithSchemaColumns(query.NewColumnsWith(cols...)))
	n := 1 + sym.Choose("n", 2)
	text := "SELECT "
	var want []int
	for i := 0; i < n; i++ {
		k := sym.Choose("c"+itoa(i), 4)
		want = append(want, k)
		if i > 0 {
			text += ", "
		}
		text += append(names, "ABS(b)")[k]
	}
	st := selectOf(text + " FROM tt")
	s, err := resultset.NewSchemaFrom(resultset.WithSchemaTableSchema(tbl), resultset.WithSchemaSelectors(st.Selectors()))
	sym.Assert(err == nil && s.TableName() == "tt" && len(s.Columns()) == n, "a selection has a schema")
	for i, k := range want {
		c := s.Columns()[i]
		f, ok := c.Function()
		if k < 3 {
			sym.Assert(c.Name() == names[k] && c.DataType() == types[k] && !ok, "a selected column is that of the table")
		} else {
			sym.Assert(ok && f.Name() == "ABS" && c.DataType() == query.FloatType && len(c.Arguments()) == 1 && c.IsFunction(), "a selected function is a column of its own")
		}
	}
	_, err = resultset.NewSchemaFrom(resultset.WithSchemaSelectors(st.Selectors()))
	sym.Assert(err != nil, "a selection needs a table")
	sym.Cover("end")
}
