package props

import (
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif/harness/sym"
)

// ---- S16: any characters, long names, long lists

func S16_AnyNames() { s16c(2, 0, 2, "ascii", "") }
func S16_Words()    { s16c(1, 3, 8, "ascii", "") }
func S16_LongNames() {
	s16c(2, 0, 1, "ascii", []string{name64, name64 + name64 + name64 + name64}[sym.Choose("prefix", 2)])
}

// manyNames are n names, one of them symbolic, and a name to look for.
func manyNames(n int) (names, string) {
	places := []int{0, n / 2, n - 1}
	at := places[sym.Choose("at", 3)]
	var m names
	for i := 0; i < n; i++ {
		if i == at {
			m = append(m, sym.Str("c", 1, 2, "ident"))
		} else {
			m = append(m, "Col_"+itoa(i))
		}
	}
	switch k := sym.Choose("q", 5); k {
	case 0:
		return m, sym.Str("x", 1, 2, "ident")
	case 1:
		return m, "col_" + itoa(n)
	default:
		return m, strings.ToUpper("Col_" + itoa(places[k-2]))
	}
}

func S16_Many() {
	n := counts[sym.Choose("n", len(counts)-1+sym.Tier())]
	m, x := manyNames(n)
	cols, idxs := query.NewColumns(), query.NewIndexes()
	for i := range m {
		cols = append(cols, colOf(m[i]))
		idxs = append(idxs, idxOf(m[i]))
	}
	at := m.find(x)
	c, err := cols.LookupColumn(x)
	pos, perr := cols.LookupIndexOfColumn(x)
	ix, ierr := idxs.LookupIndex(x)
	ipos, iperr := idxs.LookupIndexOfIndex(x)
	if at < 0 {
		sym.Assert(notFound(err) && notFound(perr) && notFound(ierr) && notFound(iperr), "what is not in a list is not found")
		sym.Cover("missing")
	} else {
		sym.Assert(err == nil && perr == nil && pos == at && c == cols[at], "a lookup finds the first column with the name")
		sym.Assert(ierr == nil && iperr == nil && ipos == at && ix == idxs[at], "a lookup finds the first index with the name")
		sym.Cover("found")
	}
	sym.Assert(m.same(cols.Names()) && m.same(cols.ColumnNames()) && m.same(idxs.IndexNames()), "the names are listed in order")
	cp := cols.Copy()
	sym.Assert(m.same(cp.Names()) && cols.Len() == n, "a copy has the same columns")
	for i := range cp {
		sym.Assert(cp[i] != cols[i], "a copy has columns of its own")
		y, err := cols.ColumnAt(i)
		sym.Assert(err == nil && y == cols[i], "a position names its column")
	}
}

// a copy has arguments and functions of its own
func S16_CopyArguments() {
	a, b := sym.Str("a", 1, 1, "ident"), sym.Str("b", 1, 1, "ident")
	col := query.NewColumnWithOptions(query.WithColumnName("c"), query.WithColumnArguments([]string{a, "z"}),
		query.WithColumnLiteral(query.NewLiteralWith(5)))
	cp := col.Copy()
	sym.Assert(len(cp.Arguments()) == 2 && cp.Arguments()[0].Name() == a && cp.Arguments()[1].Name() == "z", "a copy has the same arguments")
	x, y := col, cp
	if sym.Choose("dir", 2) == 1 {
		x, y = cp, col
	}
	x.Arguments()[0] = fn.NewArgumentWith(b)
	sym.Assert(y.Arguments()[0].Name() == a, "changing the arguments of a copy does not change the other")
	sym.Assert(x.SetValue(6) == nil && y.Value() == 5, "changing the value of a copy does not change the other")
	sym.Cover("end")
}

// ---- S15: tables with many columns

func S15_Many() {
	n := counts[sym.Choose("n", len(counts)-1+sym.Tier())]
	m, x := manyNames(n)
	im := append(names{}, m...)
	cols, idxs := query.NewColumns(), query.NewIndexes()
	for i := range m {
		cols = append(cols, colOf(m[i]))
		idxs = append(idxs, idxOf(m[i]))
	}
	s := query.NewSchemaWith("t", query.WithSchemaColumns(cols), query.WithSchemaIndexes(idxs))
	var snap snapshots
	snap.take(s, m, im)
	for k := 0; k < 2; k++ {
		at := m.find(x)
		err := s.DropColumn(x)
		sym.Assert((err == nil) == (at >= 0), "a column is dropped when it is there")
		if at >= 0 {
			m = m.without(at)
			sym.Cover("dropped")
		} else {
			sym.Assert(notFound(err), "dropping a column the table does not have is refused")
		}
		checkSchema(s, m, im)
		at = im.find(x)
		err = s.DropIndex(x)
		sym.Assert((err == nil) == (at >= 0), "an index is dropped when it is there")
		if at >= 0 {
			im = im.without(at)
		} else {
			sym.Assert(notFound(err), "dropping an index the table does not have is refused")
		}
		checkSchema(s, m, im)
		if k == 0 {
			sym.Assert(s.AddColumn(colOf(x)) == nil && s.AddIndex(idxOf("z")) == nil, "columns and indexes can be added")
			m, im = m.with(x), im.with("z")
			checkSchema(s, m, im)
			snap.take(s, m, im)
		}
	}
	snap.check()
	sym.Cover("end")
}

// growing from nothing, with lists taken at every step
func S15_Grow() {
	n := 6 + 10*sym.Choose("n", 2)
	s := query.NewSchemaWith("t")
	var m, im names
	var snap snapshots
	for i := 0; i < n; i++ {
		snap.take(s, m, im)
		c := "c" + itoa(i)
		if i == 3 {
			c = sym.Str("c", 1, 2, "ident")
		}
		sym.Assert(s.AddColumn(colOf(c)) == nil && s.AddIndex(idxOf(c)) == nil, "columns and indexes can be added")
		m, im = m.with(c), im.with(c)
		checkSchema(s, m, im)
	}
	end := sym.Choose("end", 3)
	for i := 0; i < n; i++ {
		snap.take(s, m, im)
		k := []int{0, len(m) - 1, len(m) / 2}[end]
		c := m[k]
		at := m.find(c)
		sym.Assert(s.DropColumn(c) == nil, "a column is dropped when it is there")
		m = m.without(at)
		checkSchema(s, m, im)
	}
	snap.check()
	sym.Cover("end")
}

// the names of a schema
func S15_Names() {
	n := sym.Str("n", 0, 3, "ident")
	s := query.NewSchemaWith(n)
	sym.Assert(s.TableName() == n && s.SchemaName() == n && s.FullTableName() == n, "a schema has its name")
	sym.Assert(len(s.Columns()) == 0 && len(s.Indexes()) == 0 && len(s.Selectors()) == 0, "a new schema is empty")
	sym.Assert(notFound(s.DropColumn(n)) && notFound(s.DropIndex(n)), "nothing can be dropped from an empty schema")
	sym.Cover("end")
}

// ---- S17: narrow floats out of range

func S17_Float32Range() {
	f := sym.Float32("f")
	sym.Assume(sym.Not(sym.And(f >= -(1<<63), f < 1<<63)))
	t := intTypes[sym.Choose("type", len(intTypes))]
	_, err := coerce(t, query.NewLiteralWith(f))
	sym.Assert(err != nil, "a number out of the range of the column type is refused")
	sym.Cover("end")
}
