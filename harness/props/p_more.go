package props

import (
	"errors"

	sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/net"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"github.com/cybergarage/go-sqlparser/sql/system"
	"github.com/google/uuid"
	"verif/harness/sym"
)

// ---- I27

// words that are close to the name of the column table are other tables
func I27_OtherWords() {
	text := ""
	switch sym.Choose("form", 8) {
	case 0:
		text = sym.Ident("t", 7, 7)
		sym.Assume(!sym.IsKeyword(text))
	case 1:
		text = "columns"
	case 2:
		text = "information_schema"
	case 3:
		text = "information_schema.COLUMN" + sym.Str("t", 0, 2, "ident")
		sym.Assume(!sameFold(text, "information_schema.COLUMNS"))
	case 4:
		text = sym.Ident("t", 1, 2) + "information_schema.COLUMNS"
	case 5:
		text = "information_schem" + sym.Str("t", 0, 2, "ident") + ".COLUMNS"
		sym.Assume(!sameFold(text, "information_schema.COLUMNS"))
	case 6:
		text = "information_schema.TABLES"
	default:
		s, t := sym.Ident("s", 1, 3), "COLUMNS"
		sym.Assume(!sym.IsKeyword(s))
		text = s + "." + t
	}
	sym.Assert(!system.IsSchemaColumsQuery(selectOf("SELECT * FROM "+text)), "another query is not taken for a column query")
	sym.Cover("end")
}

// longer names of databases and tables
func I27_Words() {
	n := 3 + sym.Choose("n", 6)
	db, tbl := sym.Str("d", n, n, "ident"), sym.Str("t", n, n, "ident")
	st, err := system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementDatabaseName(db), system.WithSchemaColumnsStatementTableNames([]string{tbl}))
	sym.Assert(err == nil && st.DatabaseName() == db && len(st.TableNames()) == 1 && st.TableNames()[0] == tbl, "a column query has its database and table")
	and, ok := st.Statement().Where().Expr().(*query.AndExpr)
	sym.Assert(ok && isEq(and.Left(), "TABLE_SCHEMA", db) && isEq(and.Right(), "TABLE_NAME", tbl), "a column query is restricted to its database and table")
	back, err := system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(st.Statement()))
	sym.Assert(err == nil && back.DatabaseName() == db && len(back.TableNames()) == 1 && back.TableNames()[0] == tbl, "a column query read back has its database and table")
	sel := selectOf("SELECT * FROM information_schema.columns WHERE table_name = '" + tbl + "' AND table_schema = '" + db + "'")
	back, err = system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(sel))
	sym.Assert(err == nil && back.DatabaseName() == db && len(back.TableNames()) == 1 && back.TableNames()[0] == tbl, "a column query is understood")
	sym.Cover("end")
}

// queries for many tables
func I27_ManyTables() {
	n := 3 + sym.Choose("n", 8)
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	x := sym.Str("t", 0, 2, "textnq")
	var ts []string
	for i := 0; i < n; i++ {
		t := "t" + itoa(i)
		if i == at {
			t = x
		}
		ts = append(ts, t)
	}
	sel, err := system.NewSchemaColumnsQueryFromTableNames(ts)
	if err != nil { // the grammar has no conditions of more than two comparisons
		sym.Cover("end")
		return
	}
	sym.Assert(system.IsSchemaColumsQuery(sel), "a column query is recognised")
	var found []string
	var walk func(e query.Expr)
	walk = func(e query.Expr) {
		switch e := e.(type) {
		case *query.OrExpr:
			walk(e.Left())
			walk(e.Right())
		case *query.CmpExpr:
			sym.Assert(e.Operator() == query.EQ && sameFold(e.Left().Name(), "TABLE_NAME"), "a column query is restricted to its tables")
			v, ok := e.Right().Value().(string)
			sym.Assert(ok, "a column query is restricted to its tables")
			found = append(found, v)
		default:
			sym.Fail("a column query is restricted to its tables")
		}
	}
	walk(sel.Where().Expr())
	sym.Assert(names(ts).same(found), "a column query is restricted to its tables, or refused")
	sym.Cover("end")
}

// the description of many columns and many tables
func I27_Many() {
	wide := sym.Choose("wide", 2) == 1
	n := counts[sym.Choose("n", len(counts)-1)]
	tables, cols := 2, n
	if !wide {
		tables, cols = n, 2
	}
	at := []int{0, tables*cols/2 + 1, tables*cols - 1}[sym.Choose("at", 3)]
	x := sym.Str("x", 1, 3, "ident")
	type want struct {
		table, name string
		typ         query.DataType
	}
	var ws []want
	var schemas []query.Schema
	for i := 0; i < tables; i++ {
		t := "T" + itoa(i)
		var cs []query.Column
		for j := 0; j < cols; j++ {
			name := "c_" + itoa(i) + "_" + itoa(j)
			typ := query.BigIntType + query.DataType((i*5+j)%int(query.SmallSerialType))
			if len(ws) == at {
				name = x
			}
			cs = append(cs, query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnData(query.NewDataDef(typ, -1))))
			ws = append(ws, want{t, name, typ})
		}
		schemas = append(schemas, query.NewSchemaWith(t, query.WithSchemaColumns(query.NewColumnsWith(cs...))))
	}
	rs, err := system.NewSchemaColumnsResultSetFromSchemas(schemas)
	sym.Assert(err == nil, "schemas are described")
	back, err := system.NewSchemaColumnsResultSetFromResultSet(rs)
	sym.Assert(err == nil, "a description is read back")
	got := back.Columns()
	sym.Assert(len(got) == len(ws), "a description read back has every column")
	for i, w := range ws {
		c := got[i]
		sym.Assert(c.Table() == w.table && c.Name() == w.name && c.DataType() == w.typ, "a column read back has its table, name and type")
		if i == 0 || i == at || i == len(ws)-1 {
			found, err := back.LookupColumn(upper(w.name))
			sym.Assert(err == nil && found == c, "a described column is found by its name in any letter case")
		}
	}
	_, err = back.LookupColumn("d")
	sym.Assert(errors.Is(err, system.ErrNotFound) || sameFold(x, "d"), "a column that is not described is not found")
	sym.Cover("end")
}

// ---- N28

// many connections: one is removed, replaced or refused, the others stay
func N28_Many() {
	n := []int{4, 5, 8, 17, 33, 65}[sym.Choose("n", 6)]
	cm := net.NewConnManager()
	var m reg
	var all []*peer
	add := func(i int, id net.ConnID) *peer {
		u := uuid.UUID{}
		u[0], u[15] = byte(i), byte(i*7)
		p := &peer{net.NewConnWith(&raw{}), u, id}
		all = append(all, p)
		return p
	}
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	odd := sym.Uint64("i")
	sym.Assume(sym.Or(odd == 0, odd > 1000))
	for i := 0; i < n; i++ {
		id := net.ConnID(i + 1)
		if i == at {
			id = odd
		}
		p := add(i, id)
		sym.Assert(cm.AddConn(p) == nil, "a connection is added")
		m = append(m, p)
	}
	m.check(cm, all)
	p := all[at]
	switch sym.Choose("op", 6) {
	case 0:
		sym.Assert(cm.RemoveConn(p) == nil, "a connection is removed")
		m = m.without(at)
	case 1:
		cm.RemoveConnByUID(odd)
		m = m.without(at)
	case 2:
		cm.RemoveConnByUUID(p.u)
		m = m.without(at)
	case 3:
		q := add(n, 500)
		sym.Assert(cm.UpdateConn(p, q) == nil, "a held connection is replaced")
		m = append(m.without(at), q)
	case 4:
		q := add(n, odd)
		sym.Assert(errors.Is(cm.AddConn(q), net.ErrExist), "a taken identity is reported as one")
	default:
		sym.Assert(cm.Close() == nil, "a manager closes")
		m = nil
	}
	m.check(cm, all)
	sym.Cover("end")
}

// ---- N30

func N30_Words() {
	n := 2 + sym.Choose("n", 7)
	x, y, z := sym.Str("x", n, n, "ident"), sym.Str("y", 1, 2, "ident"), sym.Str("z", n, n, "ident")
	c := net.NewConnWith(&raw{}, net.WithConnDatabase(x), net.WithConnUser(z))
	sym.Assert(c.Database() == x && c.User() == z, "a connection has the database and user given to it")
	c.SetDatabase(z)
	c.SetUser(x)
	sym.Assert(c.Database() == z && c.User() == x, "a connection has the database and user set last")
	var want names
	set := func(vs ...string) {
		c.SetSchemas(vs...)
		for _, v := range vs {
			found := false
			for _, w := range want {
				found = found || w == v
			}
			if !found {
				want = append(want, v)
			}
		}
	}
	switch sym.Choose("how", 3) {
	case 0:
		set(x)
		set(y, z)
	case 1:
		set(y)
		set(x, x)
		set(z)
	default:
		set(x, y, z)
	}
	sym.Assert(want.same(c.Schemas()), "a connection has its schemas once each in the order they were set")
	if sym.Choose("again", 2) == 1 {
		c.SetDatabase(z)
		sym.Assert(c.Database() == z && len(c.Schemas()) == 0, "the schemas are cleared when the database is set")
		c.SetSchemas(x)
		sym.Assert(names{x}.same(c.Schemas()), "a connection has its schemas once each in the order they were set")
	}
	sym.Cover("end")
}

func N30_Many() {
	n := counts[sym.Choose("n", len(counts))]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	x := sym.Str("x", 0, 2, "text")
	c := net.NewConnWith(&raw{})
	var want names
	one := sym.Choose("one", 2) == 1
	var batch []string
	for i := 0; i < n; i++ {
		s := "s" + itoa(i) + "_"
		if i == at {
			s = x
		}
		want = append(want, s)
		if one {
			c.SetSchemas(s)
		} else {
			batch = append(batch, s)
		}
	}
	if !one {
		c.SetSchemas(batch...)
	}
	sym.Assert(want.same(c.Schemas()), "a connection has its schemas once each in the order they were set")
	c.SetSchemas(x)
	sym.Assert(want.same(c.Schemas()), "a schema that is set already is not listed again")
	sym.Cover("end")
}

// ---- R25

// many values without names are numbered
func R25_Numbered() {
	n := counts[sym.Choose("n", len(counts))]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	x := cell("x")
	var vs []any
	for i := 0; i < n; i++ {
		var v any = i * 3
		if i == at {
			v = x
		}
		vs = append(vs, v)
	}
	r := resultset.NewRow(resultset.WithRowValues(vs))
	sym.Assert(len(r.Object()) == n && len(r.Values()) == n, "a row has a value for each of its columns")
	for i, want := range vs {
		v, err := r.ValueAt(i)
		w, err2 := r.ValueBy(itoa(i + 1))
		sym.Assert(err == nil && err2 == nil && v == want && w == want, "a value is the same by position and by number")
	}
	_, err := r.ValueBy(itoa(n + 1))
	sym.Assert(errors.Is(err, sqlerrors.ErrNotExist), "a name the row does not have is an error")
	_, err = r.ValueBy("0")
	sym.Assert(errors.Is(err, sqlerrors.ErrNotExist), "a name the row does not have is an error")
	sym.Cover("end")
}

// names of several characters
func R25_Words() {
	n := 2 + sym.Choose("n", 6)
	p, q := sym.Str("p", n, n, "ident"), sym.Str("q", n, n, "ident")
	sym.Assume(p != q)
	x, y := cell("x"), cell("y")
	s := resultset.NewSchema(resultset.WithSchemaTableName("t"), resultset.WithSchemaColumns([]resultset.Column{rsCol(p, query.IntType), rsCol(q, query.IntType)}))
	opt := resultset.WithRowValues([]any{x, y})
	if sym.Choose("how", 2) == 1 {
		opt = resultset.WithRowObject(map[string]any{q: y, p: x})
	}
	r := resultset.NewRow(opt, resultset.WithRowSchema(s))
	v, err := r.ValueBy(p)
	w, err2 := r.ValueBy(q)
	sym.Assert(err == nil && err2 == nil && v == x && w == y, "a value is found by the name of its column")
	vs := r.Values()
	sym.Assert(len(vs) == 2 && vs[0] == x && vs[1] == y, "the values of a row are in the order of its columns")
	_, err = r.ValueBy(sym.Str("o", 1, 1, "ident"))
	sym.Assert(errors.Is(err, sqlerrors.ErrNotExist), "a name the row does not have is an error")
	sym.Cover("end")
}

// ---- F23

// words with other characters are no functions
func F23_OddWords() {
	var w string
	if i := sym.Choose("fn", len(scalars)+len(aggrNames)); i < len(scalars) {
		w = scalars[i].name
	} else {
		w = aggrNames[i-len(scalars)]
	}
	switch sym.Choose("side", 3) {
	case 0:
		w = w[:len(w)-1]
	case 1:
		w += sym.Str("s", 1, 1, "[_ .,;*+$#@!]")
	default:
		w = sym.Str("s", 1, 1, "[_ .,;*+$#@!]") + w
	}
	if w == "" {
		sym.Stop()
	}
	_, err := fn.NewExecutorForName(w)
	scalar, aggr := isFn(w)
	sym.Assert((err == nil) == scalar, "a word that names no function is no function")
	_, err = fn.NewAggregatorForName(w, fn.WithAggregatorArguments([]string{"x"}))
	sym.Assert((err == nil) == aggr, "a word that names no aggregate is no aggregate")
	sym.Cover("end")
}

// ---- E31

// long names are in the message as a whole
func E31_Long() {
	n := []int{8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 300}[sym.Choose("n", 14)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	x := string(b) + sym.Str("x", 0, 2, "text")
	var err, want error
	switch sym.Choose("k", 15) {
	case 0:
		err, want = sqlerrors.NewErrNotImplemented(x), sqlerrors.ErrNotImplemented
	case 1:
		err, want = sqlerrors.NewErrNotExist(x), sqlerrors.ErrNotExist
	case 2:
		err, want = sqlerrors.NewErrExist(x), sqlerrors.ErrExist
	case 3:
		err, want = sqlerrors.NewErrNotSupported(x), sqlerrors.ErrNotSupported
	case 4:
		err, want = sqlerrors.NewErrDatabaseNotExist(x), sqlerrors.ErrNotExist
	case 5:
		err, want = sqlerrors.NewErrTableNotExist(x), sqlerrors.ErrNotExist
	case 6:
		err, want = sqlerrors.NewErrDatabaseExist(x), sqlerrors.ErrExist
	case 7:
		err, want = sqlerrors.NewErrTableExist(x), sqlerrors.ErrExist
	case 8:
		err, want = sqlerrors.NewErrColumnNotExist(x), sqlerrors.ErrNotExist
	case 9:
		err, want = sqlerrors.NewErrColumnValueNotExist(x), sqlerrors.ErrNotExist
	case 10:
		err, want = sqlerrors.NewErrGroupByColumnValueNotFound(x), sqlerrors.ErrNotFound
	case 11:
		err, want = sqlerrors.NewErrPreparedStatementNotExist(x), sqlerrors.ErrNotExist
	case 12:
		err, want = sqlerrors.NewErrPreparedPortalNotExist(x), sqlerrors.ErrNotExist
	case 13:
		err, want = sqlerrors.NewErrMultiplePreparedStatementNotSupported(x), sqlerrors.ErrNotSupported
	case 14:
		err, want = sqlerrors.NewErrMultipleTableNotSupported(x), sqlerrors.ErrNotSupported
	}
	for _, s := range sentinels {
		sym.Assert(errors.Is(err, s) == (s == want), "an error is of its kind and of no other")
	}
	sym.Assert(contains(err.Error(), x), "an error names what it is about")
	sym.Cover("end")
}
