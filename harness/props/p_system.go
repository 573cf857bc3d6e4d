package props

import (
	"errors"

	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"github.com/cybergarage/go-sqlparser/sql/system"
	"verif/harness/sym"
)

func textMax() int {
	if sym.Tier() > 0 {
		return 3
	}
	return 2
}

// isEq tells whether an expression compares a column with a text for equality.
func isEq(e query.Expr, col, val string) bool {
	c, ok := e.(*query.CmpExpr)
	if !ok || c.Operator() != query.EQ || !sameFold(c.Left().Name(), col) {
		return false
	}
	v, ok := c.Right().Value().(string)
	return ok && v == val
}

// the statement generated for a database and a table asks for them
func I27_Generate() {
	db := ""
	var opts []system.SchemaColumnsStatementOption
	if sym.Choose("db", 2) == 1 {
		db = sym.Str("d", 1, textMax(), "text")
		opts = append(opts, system.WithSchemaColumnsStatementDatabaseName(db))
	}
	var tables []string
	if sym.Choose("tables", 2) == 1 {
		tables = []string{sym.Str("t", 0, textMax(), "text")}
		opts = append(opts, system.WithSchemaColumnsStatementTableNames(tables))
	}
	st, err := system.NewSchemaColumnsStatement(opts...)
	sym.Assert(err == nil, "the columns of any table can be asked for")
	sym.Assert(st.DatabaseName() == db, "a column query has its database")
	sym.Assert(len(st.TableNames()) == len(tables) && (len(tables) == 0 || st.TableNames()[0] == tables[0]), "a column query has its tables")
	sel := st.Statement()
	sym.Assert(sel.Selectors().IsAsterisk(), "a column query asks for all of the description")
	sym.Assert(system.IsSchemaColumsQuery(sel), "a column query is recognised")
	where := sel.Where().Expr()
	switch {
	case db == "" && len(tables) == 0:
		sym.Assert(where == nil, "a query for all columns has no condition")
		sym.Cover("all")
		return
	case len(tables) == 0:
		sym.Assert(isEq(where, "TABLE_SCHEMA", db), "a column query is restricted to its database")
		sym.Cover("db")
	case db == "":
		sym.Assert(isEq(where, "TABLE_NAME", tables[0]), "a column query is restricted to its table")
		sym.Cover("table")
	default:
		and, ok := where.(*query.AndExpr)
		sym.Assert(ok && isEq(and.Left(), "TABLE_SCHEMA", db) && isEq(and.Right(), "TABLE_NAME", tables[0]), "a column query is restricted to its database and table")
		sym.Cover("both")
	}
	// reading the statement back finds what was asked for
	back, err := system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(sel))
	sym.Assert(err == nil, "a generated column query is understood")
	sym.Assert(back.DatabaseName() == db, "a column query read back has its database")
	sym.Assert(len(back.TableNames()) == len(tables), "a column query read back has its tables")
	for i, t := range tables {
		sym.Assert(back.TableNames()[i] == t, "a column query read back has its tables")
	}
}

// a statement sent by a client is understood whatever its letter case
func I27_Understand() {
	names := []string{"TABLE_SCHEMA", "TABLE_NAME"}
	cond := func(tag string, col int, op string) (string, string) {
		v := sym.Str(tag, 0, textMax(), "textnq")
		n := names[col]
		if sym.Choose("case"+tag, 2) == 1 {
			n = lower(n)
		}
		return n + " " + op + " '" + v + "'", v
	}
	from := []string{"information_schema.COLUMNS", "INFORMATION_SCHEMA.columns", "Information_Schema.Columns"}[sym.Choose("from", 3)]
	ops := []string{"=", "<", ">=", "<>"}
	form := sym.Choose("form", 4)
	c0 := sym.Choose("c0", 2)
	a, av := cond("a", c0, "=")
	text := "SELECT * FROM " + from + " WHERE " + a
	wantDB, wantTables := "", []string{}
	add := func(c int, v string) {
		if c == 0 {
			wantDB = v
		} else {
			wantTables = append(wantTables, v)
		}
	}
	add(c0, av)
	bad := false
	switch form {
	case 1:
		b, bv := cond("b", 1, "=")
		text += " AND " + b
		add(1, bv)
	case 2:
		b, _ := cond("b", 1, "=")
		text += " OR " + b
		bad = true
	case 3:
		b, _ := cond("b", 1, ops[1+sym.Choose("op", 3)])
		text += " AND " + b
		bad = true
	}
	sel := selectOf(text)
	sym.Assert(system.IsSchemaColumsQuery(sel), "a column query is recognised in any letter case")
	st, err := system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(sel))
	if bad {
		sym.Assert(errors.Is(err, system.ErrInvalid), "a condition that does not name columns is refused")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil, "a column query is understood")
	sym.Assert(st.Statement() == sel, "a column query keeps its statement")
	sym.Assert(st.DatabaseName() == wantDB, "a column query has the database of its condition")
	got := st.TableNames()
	sym.Assert(len(got) == len(wantTables), "a column query has the tables of its condition")
	for i := range got {
		sym.Assert(got[i] == wantTables[i], "a column query has the tables of its condition")
	}
	sym.Cover("understood")
}

// other statements are not column queries
func I27_Other() {
	s, t := sym.Ident("s", 1, 2), sym.Ident("t", 1, 2)
	sym.Assume(sym.And(!sym.IsKeyword(s), !sym.IsKeyword(t)))
	text := ""
	switch sym.Choose("form", 5) {
	case 0:
		text = "SELECT * FROM " + t
	case 1:
		text = "SELECT * FROM " + s + "." + t
	case 2:
		text = "SELECT * FROM " + s + ".COLUMNS"
	case 3:
		text = "SELECT * FROM information_schema." + t
	case 4:
		text = "SELECT * FROM information_schema.COLUMNS, " + t
	}
	sym.Assert(!system.IsSchemaColumsQuery(selectOf(text)), "another query is not taken for a column query")
	sym.Cover("end")
}

// queries by table names
func I27_Tables() {
	n := sym.Choose("n", 3)
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, sym.Str("t"+itoa(i), 0, textMax(), "text"))
	}
	sel, err := system.NewSchemaColumnsQueryFromTableNames(names)
	sym.Assert(err == nil, "the columns of any tables can be asked for")
	sym.Assert(system.IsSchemaColumsQuery(sel), "a column query is recognised")
	where := sel.Where().Expr()
	switch n {
	case 0:
		sym.Assert(where == nil, "a query for all columns has no condition")
	case 1:
		sym.Assert(isEq(where, "TABLE_NAME", names[0]), "a column query is restricted to its table")
	case 2:
		or, ok := where.(*query.OrExpr)
		sym.Assert(ok && isEq(or.Left(), "TABLE_NAME", names[0]) && isEq(or.Right(), "TABLE_NAME", names[1]), "a column query is restricted to its tables")
		sym.Cover("two")
	}
	sym.Cover("end")
}

// the description of schemas, and reading it back
func I27_Describe() {
	n := sym.Choose("schemas", 3)
	type want struct {
		table, name string
		typ         query.DataType
	}
	var ws []want
	var schemas []query.Schema
	for i := 0; i < n; i++ {
		t := sym.Ident("t"+itoa(i), 1, 1)
		var cols []query.Column
		k := sym.Choose("cols", 3-i)
		for j := 0; j < k; j++ {
			name := sym.Ident("c"+itoa(i)+itoa(j), 1, 1)
			typ := query.TextType
			if i == 0 && j == 0 {
				typ = query.BigIntType + query.DataType(sym.Choose("type", int(query.SmallSerialType)))
			} else if j == 1 {
				typ = query.DoubleType
			}
			cols = append(cols, query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnData(query.NewDataDef(typ, -1))))
			ws = append(ws, want{t, name, typ})
		}
		schemas = append(schemas, query.NewSchemaWith(t, query.WithSchemaColumns(query.NewColumnsWith(cols...))))
	}
	rs, err := system.NewSchemaColumnsResultSetFromSchemas(schemas)
	sym.Assert(err == nil, "schemas are described")
	sc := rs.Schema()
	sym.Assert(sc.DatabaseName() == system.InformationSchema && sc.TableName() == system.InformationSchemaColumns, "a description names its own table")
	heads := []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "DATA_TYPE"}
	sym.Assert(len(sc.Columns()) == len(heads), "a description has its columns")
	for i, h := range heads {
		sym.Assert(sc.Columns()[i].Name() == h && sc.Columns()[i].DataType() == query.TextType, "a description has its columns")
	}
	if sym.Choose("read", 2) == 0 {
		for _, w := range ws {
			sym.Assert(rs.Next(), "every column is described")
			row, err := rs.Row()
			sym.Assert(err == nil, "every column is described")
			vs := row.Values()
			sym.Assert(len(vs) == 5, "a description has a value for each of its columns")
			sym.Assert(vs[0] == "def" && vs[2] == w.table && vs[3] == w.name && vs[4] == w.typ.String(), "a column is described by its table, name and type")
		}
		sym.Assert(!rs.Next(), "only columns are described")
		sym.Cover("rows")
		return
	}
	back, err := system.NewSchemaColumnsResultSetFromResultSet(rs)
	sym.Assert(err == nil, "a description is read back")
	got := back.Columns()
	sym.Assert(len(got) == len(ws), "a description read back has every column")
	for i, w := range ws {
		c := got[i]
		sym.Assert(c.Catalog() == "def" && c.Table() == w.table && c.Name() == w.name && c.DataType() == w.typ, "a column read back has its table, name and type")
		found, err := back.LookupColumn(w.name)
		sym.Assert(err == nil, "a described column is found by its name")
		for k := 0; k <= i; k++ {
			if sameFold(ws[k].name, w.name) {
				sym.Assert(found == got[k], "the first column of a name is found")
				break
			}
		}
	}
	x := sym.Ident("x", 1, 1)
	found, err := back.LookupColumn(x)
	has := -1
	for i := len(ws) - 1; i >= 0; i-- {
		if sameFold(ws[i].name, x) {
			has = i
		}
	}
	if has >= 0 {
		sym.Assert(err == nil && found == got[has], "a described column is found in any letter case")
		sym.Cover("found")
	} else {
		sym.Assert(errors.Is(err, system.ErrNotFound), "a column that is not described is not found")
		sym.Cover("absent")
	}
}

// a result of another engine is read the same way
func I27_Foreign() {
	heads := []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "DATA_TYPE"}
	var cols []resultset.Column
	drop := 5
	if sym.Choose("drop", 2) == 1 {
		drop = 4
	}
	without := sym.Choose("without", 6)
	obj := map[string]any{}
	vals := []any{sym.Str("a", 0, 1, "text"), sym.Str("b", 0, 2, "text"), sym.Str("c", 0, 2, "text"), sym.Str("d", 0, 2, "text"), "varchar"}
	asBytes := sym.Choose("bytes", 2) == 1
	for i, h := range heads {
		if i != without {
			cols = append(cols, resultset.NewColumn(resultset.WithColumnName(h), resultset.WithColumnType(query.TextType)))
		}
		if i == drop {
			continue
		}
		obj[h] = vals[i]
		if asBytes {
			obj[h] = []byte(vals[i].(string))
		}
	}
	if drop != 4 && sym.Choose("bad", 2) == 1 {
		obj["DATA_TYPE"] = "nosuch"
	}
	schema := resultset.NewSchema(resultset.WithSchemaDatabaseName("d"), resultset.WithSchemaTableName("t"), resultset.WithSchemaColumns(cols))
	rs := resultset.NewResultSet(resultset.WithResultSetSchema(schema), resultset.WithResultSetRows([]resultset.Row{
		resultset.NewRow(resultset.WithRowObject(obj), resultset.WithRowSchema(schema)),
	}))
	back, err := system.NewSchemaColumnsResultSetFromResultSet(rs)
	if drop < 5 || without < 5 || obj["DATA_TYPE"] == any("nosuch") {
		sym.Assert(err != nil, "an incomplete description is refused")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil && len(back.Columns()) == 1, "a description is read")
	c := back.Columns()[0]
	sym.Assert(c.Catalog() == vals[0] && c.Schema() == vals[1] && c.Table() == vals[2] && c.Name() == vals[3] && c.DataType() == query.VarCharType, "a column has the values of its description")
	sym.Cover("read")
}
