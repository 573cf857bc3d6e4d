package props

import (
	"errors"

	sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif/harness/sym"
)

// names is the model of a list of columns or indexes: their names in order.
type names []string

func (m names) find(s string) int {
	for i, x := range m {
		if sameFold(x, s) {
			return i
		}
	}
	return -1
}

func (m names) without(i int) names {
	var r names
	for k, x := range m {
		if k != i {
			r = append(r, x)
		}
	}
	return r
}

func (m names) with(s string) names {
	var r names
	r = append(r, m...)
	return append(r, s)
}

// same compares a list of names with the model in one condition.
func (m names) same(got []string) bool {
	if len(got) != len(m) {
		return false
	}
	ok := true
	for i := range m {
		ok = sym.And(ok, got[i] == m[i])
	}
	return ok
}

func colOf(name string) query.Column {
	return query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnData(query.NewDataDef(query.IntType, -1)))
}

func idxOf(name string) query.Index {
	return query.NewSecondaryIndexWith(name, query.NewColumnsWith(colOf("x")))
}

func notFound(err error) bool { return errors.Is(err, query.ErrNotFound) }

func checkSchema(s query.Schema, cols, idxs names) {
	sym.Assert(cols.same(s.Columns().Names()), "the schema has the columns of its history, in order")
	sym.Assert(idxs.same(s.Indexes().IndexNames()), "the schema has the indexes of its history, in order")
	sels := s.Selectors()
	sym.Assert(len(sels) == len(cols), "the selectors of a schema are its columns")
	for i := range sels {
		sym.Assert(sels[i].Name() == cols[i], "the selectors of a schema are its columns")
	}
}

// snapshots are the lists handed out so far and what they held.
type snapshots struct {
	cols []query.Columns
	idxs []query.Indexes
	cm   []names
	im   []names
}

func (p *snapshots) take(s query.Schema, cm, im names) {
	p.cols = append(p.cols, s.Columns())
	p.idxs = append(p.idxs, s.Indexes())
	p.cm = append(p.cm, cm)
	p.im = append(p.im, im)
}

func (p *snapshots) check() {
	for i := range p.cols {
		sym.Assert(p.cm[i].same(p.cols[i].Names()), "a column list handed out earlier does not change")
		sym.Assert(p.im[i].same(p.idxs[i].IndexNames()), "an index list handed out earlier does not change")
	}
}

// evolve runs a history of steps over a schema with n columns and m indexes.
func evolve(n, m, steps, ops int, alter bool) {
	var cm, im names
	cols, idxs := query.NewColumns(), query.NewIndexes()
	for i := 0; i < n; i++ {
		c := sym.Str("c"+itoa(i), 1, 1, "letter")
		cm = append(cm, c)
		cols = append(cols, colOf(c))
	}
	for i := 0; i < m; i++ {
		x := sym.Str("i"+itoa(i), 1, 1, "letter")
		im = append(im, x)
		idxs = append(idxs, idxOf(x))
	}
	s := query.NewSchemaWith("t", query.WithSchemaColumns(cols), query.WithSchemaIndexes(idxs))
	var snap snapshots
	snap.take(s, cm, im)
	for k := 0; k < steps; k++ {
		arg := sym.Str("n"+itoa(k), 1, 1, "letter")
		op := sym.Choose("op"+itoa(k), ops)
		var err error
		do := func(direct func() error, opt query.AlterTableOption) {
			if alter {
				err = s.Alter(query.NewAlterTableWith("t", opt))
				return
			}
			err = direct()
		}
		switch op {
		case 0:
			do(func() error { return s.AddColumn(colOf(arg)) }, query.WithAlterTableAddColumn(colOf(arg)))
			sym.Assert(err == nil, "adding a column succeeds")
			cm = cm.with(arg)
		case 1:
			do(func() error { return s.DropColumn(arg) }, query.WithAlterTableDropColumn(query.NewColumnWithName(arg)))
			if i := cm.find(arg); i >= 0 {
				sym.Assert(err == nil, "dropping a column of the table succeeds")
				cm = cm.without(i)
				sym.Cover("column dropped")
			} else {
				sym.Assert(notFound(err), "dropping a column the table does not have is refused")
			}
		case 2:
			do(func() error { return s.AddIndex(idxOf(arg)) }, query.WithAlterTableAddIndex(idxOf(arg)))
			sym.Assert(err == nil, "adding an index succeeds")
			im = im.with(arg)
		case 3:
			do(func() error { return s.DropIndex(arg) }, query.WithAlterTableDropIndex(idxOf(arg)))
			if i := im.find(arg); i >= 0 {
				sym.Assert(err == nil, "dropping an index of the table succeeds")
				im = im.without(i)
				sym.Cover("index dropped")
			} else {
				sym.Assert(notFound(err), "dropping an index the table does not have is refused")
			}
		case 4:
			do(nil, query.WithAlterTableRenameTo(query.NewTableWith(arg)))
			sym.Assert(errors.Is(err, sqlerrors.ErrNotImplemented), "renaming a table is refused, not ignored")
		default:
			do(nil, query.WithAlterTableRenameColumn(query.NewColumnWithName(arg), query.NewColumnWithName("z")))
			sym.Assert(errors.Is(err, sqlerrors.ErrNotImplemented), "renaming a column is refused, not ignored")
		}
		checkSchema(s, cm, im)
		sym.Assert(s.TableName() == "t", "altering keeps the table name")
		snap.take(s, cm, im)
	}
	snap.check()
	sym.Cover("end")
}

func S15_Direct() { evolve(2, 1, 3, 4, false) }
func S15_Alter()  { evolve(2, 1, 2, 6, true) }

func S15_Longer_Thorough()      { evolve(3, 2, 4, 4, false) }
func S15_AlterLonger_Thorough() { evolve(2, 2, 4, 6, true) }

// a table definition that is altered by parsed statements
func s15Statements(steps int) {
	c := sym.Str("c", 1, 1, "lower")
	st, ok := parse1("CREATE TABLE t (c" + c + " INT, d TEXT, PRIMARY KEY (d))").(query.CreateTable)
	sym.Assert(ok, "a table definition is read")
	s := st.Schema()
	cm, im := names{"c" + c, "d"}, names{"d"}
	var snap snapshots
	snap.take(s, cm, im)
	for k := 0; k < steps; k++ {
		x := "c" + sym.Str("x"+itoa(k), 1, 1, "letter")
		text := ""
		op := sym.Choose("op"+itoa(k), 5)
		switch op {
		case 0:
			text = "ALTER TABLE t ADD " + x + " DOUBLE"
		case 1:
			text = "ALTER TABLE t DROP COLUMN " + x
		case 2:
			text = "ALTER TABLE t ADD INDEX " + x + " (d)"
		case 3:
			text = "CREATE INDEX " + x + " ON t (d)"
		default:
			text = "DROP INDEX t." + x
		}
		p := parse1(text)
		var a query.AlterTable
		var err error
		switch v := p.(type) {
		case query.AlterTable:
			a = v
		case query.CreateIndex:
			a, err = query.NewAlterTableFrom(v)
		case query.DropIndex:
			a, err = query.NewAlterTableFrom(v)
		}
		sym.Assert(err == nil && a != nil, "an index statement is an alteration of its table")
		sym.Assert(a.TableName() == "t", "an alteration names its table")
		err = s.Alter(a)
		switch op {
		case 0:
			sym.Assert(err == nil, "adding a column succeeds")
			cm = cm.with(x)
			col, e := s.Columns().ColumnAt(len(cm) - 1)
			sym.Assert(e == nil && col.DataType() == query.DoubleType, "an added column has its type")
		case 1:
			if i := cm.find(x); i >= 0 {
				sym.Assert(err == nil, "dropping a column of the table succeeds")
				cm = cm.without(i)
				sym.Cover("column dropped")
			} else {
				sym.Assert(notFound(err), "dropping a column the table does not have is refused")
			}
		case 2, 3:
			sym.Assert(err == nil, "adding an index succeeds")
			im = im.with(x)
			ix := s.Indexes()[len(im)-1]
			sym.Assert(ix.Type() == query.SecondaryIndex && len(ix.Columns()) == 1 && ix.Columns()[0].Name() == "d", "an added index has its columns")
		default:
			if i := im.find(x); i >= 0 {
				sym.Assert(err == nil, "dropping an index of the table succeeds")
				im = im.without(i)
				sym.Cover("index dropped")
			} else {
				sym.Assert(notFound(err), "dropping an index the table does not have is refused")
			}
		}
		checkSchema(s, cm, im)
		snap.take(s, cm, im)
	}
	snap.check()
	sym.Cover("end")
}

func S15_Statements()           { s15Statements(2) }
func S15_Statements3_Thorough() { s15Statements(3) }

// two schemas built from one list do not see each other's changes
func S15_Independent() {
	cols := make(query.Columns, 0, 4)
	cols = append(cols, colOf("a"), colOf("b"))
	idxs := make(query.Indexes, 0, 4)
	idxs = append(idxs, idxOf("i"), idxOf("j"))
	s1 := query.NewSchemaWith("t", query.WithSchemaColumns(cols), query.WithSchemaIndexes(idxs))
	s2 := query.NewSchemaWith("u", query.WithSchemaColumns(cols), query.WithSchemaIndexes(idxs))
	if sym.Choose("from", 2) == 1 {
		s2 = query.NewSchemaWith("u", query.WithSchemaColumns(s1.Columns()), query.WithSchemaIndexes(s1.Indexes()))
	}
	c1, c2 := names{"a", "b"}, names{"a", "b"}
	i1, i2 := names{"i", "j"}, names{"i", "j"}
	for k := 0; k < 3; k++ {
		s, c, i := s1, &c1, &i1
		if sym.Choose("which"+itoa(k), 2) == 1 {
			s, c, i = s2, &c2, &i2
		}
		n := sym.Str("n"+itoa(k), 1, 1, "lower")
		switch sym.Choose("op"+itoa(k), 4) {
		case 0:
			_ = s.AddColumn(colOf(n))
			*c = c.with(n)
		case 1:
			_ = s.DropColumn(n)
			*c = c.without(c.find(n))
		case 2:
			_ = s.AddIndex(idxOf(n))
			*i = i.with(n)
		default:
			_ = s.DropIndex(n)
			*i = i.without(i.find(n))
		}
		checkSchema(s1, c1, i1)
		checkSchema(s2, c2, i2)
	}
	sym.Assert(names{"a", "b"}.same(cols.Names()), "the list a schema was built from does not change")
	sym.Assert(names{"i", "j"}.same(idxs.IndexNames()), "the list a schema was built from does not change")
	sym.Cover("end")
}

// ---- S16: lookups

func s16(n, max int) { s16c(n, 1, max, "ident", "") }

func s16c(n, min, max int, class, prefix string) {
	var m names
	cols, idxs := query.NewColumns(), query.NewIndexes()
	for i := 0; i < n; i++ {
		c := prefix + sym.Str("c"+itoa(i), min, max, class)
		m = append(m, c)
		cols = append(cols, query.NewColumnWithName(c))
		idxs = append(idxs, idxOf(c))
	}
	s := query.NewSchemaWith("t", query.WithSchemaColumns(cols), query.WithSchemaIndexes(idxs))
	x := prefix + sym.Str("x", min, max, class)
	at := m.find(x)
	col, err := cols.LookupColumn(x)
	pos, perr := cols.LookupIndexOfColumn(x)
	scol, serr := s.LookupColumn(x)
	ix, ierr := idxs.LookupIndex(x)
	ipos, iperr := idxs.LookupIndexOfIndex(x)
	six, sierr := s.LookupIndex(x)
	if at >= 0 {
		sym.Assert(err == nil && perr == nil && serr == nil, "a column is found by its name in any letter case")
		sym.Assert(pos == at && col == cols[at] && scol == cols[at], "a lookup finds the first column with the name")
		sym.Assert(ierr == nil && iperr == nil && sierr == nil, "an index is found by its name in any letter case")
		sym.Assert(ipos == at && ix == idxs[at] && six == idxs[at], "a lookup finds the first index with the name")
		sym.Cover("found")
	} else {
		sym.Assert(notFound(err) && notFound(perr) && notFound(serr), "a lookup of an unknown column reports not found")
		sym.Assert(col == nil && scol == nil && pos < 0, "a failed lookup has no result")
		sym.Assert(notFound(ierr) && notFound(iperr) && notFound(sierr), "a lookup of an unknown index reports not found")
		sym.Assert(ix == nil && six == nil && ipos < 0, "a failed lookup has no result")
		sym.Cover("missing")
	}
	sym.Assert(m.same(cols.Names()) && m.same(cols.ColumnNames()) && m.same(idxs.IndexNames()), "the names are listed in order")
	sym.Assert(cols.Len() == n, "the length is the number of columns")
}

func S16_Lookup()           { s16(2, 2) }
func S16_Lookup3()          { s16(3, 1) }
func S16_Longer_Thorough()  { s16(3, 3) }
func S16_Lookup4_Thorough() { s16(4, 2) }

// any position is answered
func S16_Position() {
	n := sym.Choose("n", 4)
	cols := query.NewColumns()
	sels := query.NewSelectors()
	for i := 0; i < n; i++ {
		cols = append(cols, query.NewColumnWithName(itoa(i)))
	}
	sels = append(sels, cols.Selectors()...)
	at := sym.Int("at")
	col, err := cols.ColumnAt(at)
	if sym.And(at >= 0, at < n) {
		sym.Assert(err == nil, "a position in the list is found")
		for i := 0; i < n; i++ {
			sym.Assert(sym.Implies(at == i, col == cols[i]), "a position names its column")
		}
		sym.Cover("in range")
	} else {
		sym.Assert(err != nil && col == nil, "a position outside the list is an error")
		sym.Cover("out of range")
	}
	sym.Assert(len(sels) == n, "every column is a selector")
	for i := 0; i < n; i++ {
		sym.Assert(sels[i].Name() == itoa(i), "every column is a selector")
	}
}

// a copy of a column list is a list of its own
func S16_Copy() {
	v := sym.Str("v", 0, 1, "text")
	w := sym.Str("w", 0, 1, "text")
	n := sym.Str("n", 1, 2, "ident")
	cols := query.NewColumnsWith(
		query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnLiteral(query.NewLiteralWith(v, query.WithLiteralType(query.StringLiteral)))),
		query.NewColumnWithOptions(query.WithColumnName("b"), query.WithColumnData(query.NewDataDef(query.VarCharType, 9))),
	)
	cp := cols.Copy()
	sym.Assert(len(cp) == 2 && cp[0].Name() == n && cp[1].Name() == "b", "a copy has the same columns")
	sym.Assert(cp[0].HasValue() && cp[0].Value() == v && cp[0].ValueType() == query.StringLiteral, "a copy has the same values")
	sym.Assert(!cp[1].HasValue() && cp[1].DataType() == query.VarCharType && cp[1].DataTypeSize() == 9, "a copy has the same definitions")
	sym.Assert(!cp[0].IsFunction() && cp[0].DataType() == query.UnknownData, "a copy has the same definitions")
	a, b := cols, cp
	if sym.Choose("dir", 2) == 1 {
		a, b = cp, cols
	}
	switch sym.Choose("change", 4) {
	case 0:
		sym.Assert(a[0].SetValue(w) == nil, "a value can be set")
		sym.Assert(a[0].Value() == w, "a column has the value it was given")
	case 1:
		sym.Assert(a[1].SetValue(w) == nil, "a value can be set")
		sym.Assert(a[1].Value() == w, "a column has the value it was given")
	case 2:
		a[0] = query.NewColumnWithName("z")
	default:
		s := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(
			query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnData(query.NewDataDef(query.TextType, 5))),
			query.NewColumnWithOptions(query.WithColumnName("b"), query.WithColumnData(query.NewDataDef(query.TextType, 5))))))
		sym.Assume(!sameFold(n, "b"))
		sym.Assert(a.SetSchema(s) == nil, "text values fit text columns")
		sym.Assert(a[0].DataType() == query.TextType && a[1].DataTypeSize() == 5, "applying a schema gives the columns its types")
	}
	sym.Assert(b[0].Name() == n && b[0].Value() == v, "changing a copy does not change the other list")
	sym.Assert(!b[1].HasValue() && b[1].DataType() == query.VarCharType && b[1].DataTypeSize() == 9, "changing a copy does not change the other list")
	sym.Cover("end")
}

// the star
func S16_Asterisk() {
	switch sym.Choose("k", 3) {
	case 0:
		sym.Assert(query.NewColumns().IsAsterisk(), "an empty column list stands for all columns")
	case 1:
		x := sym.Str("x", 1, 2, "[*a_]")
		cols := query.NewColumnsWith(query.NewColumnWithName(x))
		sym.Assert(cols.IsAsterisk() == (x == "*"), "only a star stands for all columns")
		sym.Assert(cols[0].IsAsterisk() == (x == "*"), "only a star stands for all columns")
		y := sym.Str("y", 1, 2, "ident")
		sym.Assert(query.NewColumnWithName(y).IsName(y), "a column has its name")
	default:
		x := sym.Str("x", 1, 2, "ident")
		sym.Assert(!query.NewColumnsWith(query.NewColumnWithName(x), query.NewColumnWithName("b")).IsAsterisk(), "named columns do not stand for all columns")
	}
	sym.Cover("end")
}
