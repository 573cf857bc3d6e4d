package props

import (
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif/harness/sym"
)

// built checks a statement made with the constructors: it prints as text that
// parses to what it was made of.
func built(s query.Statement, c checker) {
	text := s.String()
	p := parse1(text)
	sym.Assert(p.StatementType() == s.StatementType(), "the parsed statement is of the kind of the one built")
	c(p)
	sym.Assert(p.String() == text, "the parsed statement prints as the one built")
	sym.Assert(s.String() == text, "printing does not change the statement")
	sym.Cover("end")
}

const goKinds = 14

var oneFifth = 0.2

// goLit is a Go value and the literal it stands for.
func goLit(tag string, kind int) (any, []query.LiteralOption, lit) {
	small := func() (uint, string, bool) {
		d := sym.Str(tag, 1, 2, "digit")
		sym.Assume(len(d) == 1 || d[0] != '0')
		neg := sym.Choose(tag+"neg", 2) == 1
		if neg {
			sym.Assume(d[0] != '0')
			return num(d), "-" + d, true
		}
		return num(d), d, false
	}
	same := func(v any, s string) (any, []query.LiteralOption, lit) { return v, nil, lit{text: s, val: s} }
	switch kind {
	case 0:
		s := sym.Str(tag, 0, 1+sym.Tier(), "text")
		return s, []query.LiteralOption{query.WithLiteralType(query.StringLiteral)}, lit{val: s, str: true}
	case 1:
		return nil, nil, lit{val: "NULL", null: true}
	case 2:
		return same(true, "true")
	case 3:
		return same(false, "false")
	case 4:
		return same("?", "?")
	case 5:
		i := sym.Choose(tag+"f", 10)
		v := []float64{1.5, -0.25, 1e21, 1e-7, 3, -123456.789, 0.1 + oneFifth, 1234567.890625, 1.7976931348623157e308, 5e-324}[i]
		return same(v, []string{"1.5", "-0.25", "1e+21", "1e-07", "3", "-123456.789", "0.30000000000000004", "1.234567890625e+06", "1.7976931348623157e+308", "5e-324"}[i])
	case 6:
		i := sym.Choose(tag+"i", 4)
		v := []int64{-9223372036854775808, 9223372036854775807, 2147483648, -1000000}[i]
		return same(v, []string{"-9223372036854775808", "9223372036854775807", "2147483648", "-1000000"}[i])
	case 7:
		return same(uint64(18446744073709551615), "18446744073709551615")
	case 8:
		n, s, neg := small()
		v := int(n)
		if neg {
			v = -v
		}
		return same(v, s)
	case 9:
		n, s, neg := small()
		v := int8(n)
		if neg {
			v = -v
		}
		return same(v, s)
	case 10:
		n, s, neg := small()
		v := int32(n)
		if neg {
			v = -v
		}
		return same(v, s)
	case 11:
		n, s, neg := small()
		sym.Assume(!neg)
		return same(uint8(n), s)
	case 12:
		n, s, neg := small()
		sym.Assume(!neg)
		return same(uint(n), s)
	default:
		i := sym.Choose(tag+"f", 4)
		return same([]float32{0.5, -2, 0.1, 16777216}[i], []string{"0.5", "-2", "0.1", "1.6777216e+07"}[i])
	}
}

func goLiteral(tag string, kind int) (*query.Literal, lit) {
	v, opts, l := goLit(tag, kind)
	l.bind = kind == 4
	return query.NewLiteralWith(v, opts...), l
}

// mk builds a comparison.
func (c *cmp) mk(v *query.Literal, which int) query.Expr {
	col := query.NewColumnWithName(c.col)
	if which == 0 {
		return query.NewCmpExprWith(opKinds[c.op], col, v)
	}
	switch opKinds[c.op] {
	case query.EQ:
		return query.NewEQWith(col, v)
	case query.NEQ:
		return query.NewNEQWith(col, v)
	case query.LT:
		return query.NewLTWith(col, v)
	case query.GT:
		return query.NewGTWith(col, v)
	case query.LE:
		return query.NewLEWith(col, v)
	default:
		return query.NewGEWith(col, v)
	}
}

// mkWhere builds a condition and its description.
func mkWhere(g *gen, kind, lk int) (query.Condition, where) {
	if kind == 0 {
		return query.NewCondition(), where{}
	}
	which := 0
	if lk == 0 {
		which = sym.Choose("ctor", 2)
	}
	op := 3
	if lk == 0 {
		op = sym.Choose("op", len(ops))
	}
	la, wa := goLiteral("wa", lk)
	a := cmp{col: g.raw("ca"), op: op, lit: wa}
	ea := a.mk(la, which)
	if kind == 1 {
		return query.NewConditionWith(ea), where{kind: 1, a: a}
	}
	lb, wb := goLiteral("wb", 1+(lk+1)%3)
	b := cmp{col: g.raw("cb"), op: (op + 2) % len(ops), lit: wb}
	eb := b.mk(lb, which)
	if kind == 2 {
		return query.NewConditionWith(query.NewAndExpr(ea, eb)), where{kind: 2, a: a, b: b}
	}
	return query.NewConditionWith(query.NewOrExpr(ea, eb)), where{kind: 3, a: a, b: b}
}

// mkTable builds a table.
func mkTable(g *gen, tag string, qual bool) (query.Table, string) {
	n := g.raw(tag)
	if !qual {
		return query.NewTableWith(n), n
	}
	switch sym.Choose("qual"+tag, 3) {
	case 0:
		return query.NewTableWith(n), n
	case 1:
		q := g.raw("q" + tag)
		return query.NewTableWith(n, query.WithTableSchema(q)), q + "." + n
	default:
		q := g.raw("q" + tag)
		return query.NewTableWith(q + "." + n), q + "." + n
	}
}

func (s sel) mk() query.Selector {
	if !s.fun {
		return query.NewColumnWithName(s.name)
	}
	var args []fn.Argument
	for _, a := range s.args {
		args = append(args, fn.NewArgumentWith(a))
	}
	return fn.NewFunction(fn.WithFunctionName(lower(s.name)), fn.WithFunctionArguments(args...))
}

func B35_Select() { buildSelect(newGen(2, 2)) }

func buildSelect(g *gen) {
	s := &selStmt{}
	sels := query.NewSelectors()
	k := sym.Choose("k", 8)
	for i, n := 0, sym.Choose("n", 3); i < n; i++ {
		kind := (k + i*3) % 8
		if kind == 5 {
			kind = 0
		}
		x := g.sel(itoa(i), kind)
		s.sels = append(s.sels, x)
		sels = append(sels, x.mk())
	}
	if len(sels) == 0 {
		s.sels = []sel{{text: "*", name: "*"}}
	}
	t, full := mkTable(g, "t", true)
	s.tables = []tab{{full, full}}
	tables := query.NewTablesWith(t)
	if sym.Choose("more", 2) == 1 {
		s.tables = append(s.tables, tab{"u", "u"})
		tables = append(tables, query.NewTableWith("u"))
	}
	st := query.NewSelectWith(sels, tables, query.NewCondition())
	built(st, s.check)
}

func B35_SelectClauses() { buildSelectClauses(newGen(1, 2)) }

func buildSelectClauses(g *gen) {
	s := &selStmt{sels: []sel{{text: "a", name: "a"}}, tables: []tab{{"t", "t"}}}
	var opts []query.SelectOption
	cond, w := mkWhere(g, sym.Choose("where", 4), 5)
	s.where = w
	if sym.Choose("grp", 2) == 1 {
		s.group = g.raw("gb")
		opts = append(opts, query.WithSelectGroupBy(s.group))
	}
	var os []query.Order
	for i, n := 0, sym.Choose("ord", 3); i < n; i++ {
		o := order{g.raw("ob" + itoa(i)), 1 + (sym.Choose("dir", 2)+i)%2}
		t := query.OrderAsc
		if o.dir == 2 {
			t = query.OrderDesc
		}
		s.orders = append(s.orders, o)
		os = append(os, query.NewOrderWith(o.col, t))
	}
	if len(os) > 0 {
		opts = append(opts, query.WithSelectOrderBy(query.NewOrderByWith(os)))
	}
	if k := sym.Choose("lim", 3); k > 0 {
		s.limit = sym.Str("limit", 1, 1, "digit")
		sym.Assume(num(s.limit) > 0)
		s.limKind = k
		off := uint(0)
		if k == 2 {
			s.offset = sym.Str("offset", 1, 1, "digit")
			off = num(s.offset)
		}
		opts = append(opts, query.WithSelectLimit(off, num(s.limit)))
	}
	st := query.NewSelectWith(query.NewSelectorsWith(query.NewColumnWithName("a")), query.NewTablesWith(query.NewTableWith("t")), cond, opts...)
	built(st, s.check)
}

func B35_SelectWhere() {
	g := newGen(2, 2)
	s := &selStmt{sels: []sel{{text: "a", name: "a"}}, tables: []tab{{"t", "t"}}}
	cond, w := mkWhere(g, 1+sym.Choose("where", 3), sym.Choose("lk", goKinds))
	s.where = w
	st := query.NewSelectWith(query.NewSelectorsWithColums(query.NewColumnWithName("a")), query.NewTablesWith(query.NewTableWith("t")), cond)
	built(st, s.check)
}

func B35_Insert() {
	k := sym.Choose("kind", goKinds)
	g := newGen(1, 1)
	if k%7 == 0 {
		g = newGen(2, 2)
	}
	t, full := mkTable(g, "t", k%7 == 0)
	cols, rows := 1+sym.Choose("cols", 2), 1+sym.Choose("rows", 2)
	ns := make([]string, cols)
	for i := range ns {
		ns[i] = g.raw("c" + itoa(i))
	}
	var values []query.Columns
	ls := make([][]lit, rows)
	for r := 0; r < rows; r++ {
		row := query.NewColumns()
		for i := range ns {
			kind := k
			if r+i > 0 {
				kind = 1 + (r*cols+i)%3
			}
			v, l := goLiteral("v"+itoa(r)+itoa(i), kind)
			ls[r] = append(ls[r], l)
			row = append(row, query.NewColumnWithOptions(query.WithColumnName(ns[i]), query.WithColumnLiteral(v)))
		}
		values = append(values, row)
	}
	st := query.NewInsertWith(t, values)
	built(st, func(p query.Statement) {
		ins, ok := p.(query.Insert)
		sym.Assert(ok && ins.TableName() == full, "INSERT: the table is the one given")
		vs := ins.Values()
		sym.Assert(len(vs) == rows, "INSERT: one row per row given")
		for r := range vs {
			sym.Assert(len(vs[r]) == cols, "INSERT: one value per column")
			for i, c := range vs[r] {
				sym.Assert(c.Name() == ns[i], "INSERT: columns in order")
				sym.Assert(ls[r][i].is(c.Value(), c.ValueType()), "INSERT: the value is the one given")
			}
		}
	})
}

func B35_Update() {
	k := sym.Choose("kind", goKinds+len(arithOps))
	g, cols := newGen(1, 1), 1
	if k%7 == 0 {
		g, cols = newGen(3, 2), 1+sym.Choose("cols", 2)
	}
	t, full := mkTable(g, "t", k%7 == 0)
	cs := query.NewColumns()
	var ns []string
	var ls []lit
	for i := 0; i < cols; i++ {
		n := g.raw("c" + itoa(i))
		ns = append(ns, n)
		if i == 0 && k >= goKinds {
			op := arithOps[k-goKinds]
			args := []string{g.raw("d"), sym.Str("n", 1, 2, "digit")}
			x, err := fn.NewArithOperatorFor(op, fn.WithExecutorArguments(args))
			sym.Assert(err == nil, "the arithmetic operators are known")
			ls = append(ls, lit{text: op, val: args[0]})
			ls[0].text += args[1]
			cs = append(cs, query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnFunctionExecutor(x), query.WithColumnArguments(args)))
			continue
		}
		kind := k
		if i > 0 {
			kind = 1 + k%3
		}
		v, l := goLiteral("v"+itoa(i), kind)
		ls = append(ls, l)
		cs = append(cs, query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnLiteral(v)))
	}
	wk := 0
	if k%7 == 0 {
		wk = sym.Choose("where", 2)
	}
	cond, w := mkWhere(g, wk, 6)
	built(query.NewUpdateWith(t, cs, cond), func(p query.Statement) {
		up, ok := p.(query.Update)
		sym.Assert(ok && up.TableName() == full, "UPDATE: the table is the one given")
		vs := up.Columns()
		sym.Assert(len(vs) == cols, "UPDATE: one assignment per column given")
		for i, c := range vs {
			sym.Assert(c.Name() == ns[i], "UPDATE: columns in order")
			if i == 0 && k >= goKinds {
				f, ok := c.Function()
				sym.Assert(ok && len(c.Arguments()) == 2, "UPDATE: arithmetic stays arithmetic")
				sym.Assert(c.Arguments()[0].Name() == ls[0].val && f.Name()+c.Arguments()[1].Name() == ls[0].text, "UPDATE: the operator and operands are those given")
				continue
			}
			sym.Assert(ls[i].is(c.Value(), c.ValueType()), "UPDATE: the value is the one given")
		}
		w.check(up.Where())
	})
}

func B35_Delete() { buildDelete(newGen(2, 1)) }

func buildDelete(g *gen) {
	t, full := mkTable(g, "t", true)
	cond, w := mkWhere(g, sym.Choose("where", 4), 0)
	built(query.NewDeleteWith(t, cond), func(p query.Statement) {
		d, ok := p.(query.Delete)
		sym.Assert(ok && d.TableName() == full, "DELETE: the table is the one given")
		sym.Assert(d.HasConditions() == (w.kind != 0), "DELETE: has conditions exactly when given")
		w.check(d.Where())
	})
}

// mkColumn builds a column definition.
func mkColumn(g *gen, tag string, typ int, sized bool) (query.Column, coldef) {
	c := coldef{name: g.raw(tag), typ: typ}
	size := -1
	if sized {
		c.size = sym.Str(tag+"size", 1, 2, "digit")
		sym.Assume(c.size[0] != '0')
		size = int(num(c.size))
	}
	return query.NewColumnWithOptions(query.WithColumnName(c.name), query.WithColumnData(query.NewDataDef(sqlTypes[typ].typ, size))), c
}

func mkIndex(g *gen, tag string, primary bool, cols []string) (query.Index, idx) {
	x := idx{primary: primary, cols: cols}
	cs := query.NewColumns()
	for _, c := range cols {
		cs = append(cs, query.NewColumnWithName(c))
	}
	if primary {
		return query.NewPrimaryIndexWith(cs), x
	}
	x.name = g.raw(tag)
	return query.NewSecondaryIndexWith(x.name, cs), x
}

func B35_CreateTable() { buildCreateTable(newGen(2, 2)) }

func buildCreateTable(g *gen) {
	name := g.raw("t")
	ifne := sym.Choose("ifne", 2) == 1
	n := 1 + sym.Choose("cols", 2)
	t0 := sym.Choose("type", len(sqlTypes))
	cols := query.NewColumns()
	var cs []coldef
	for i := 0; i < n; i++ {
		c, d := mkColumn(g, "c"+itoa(i), (t0+i*5)%len(sqlTypes), i == 1)
		for _, e := range cs {
			sym.Assume(!sameFold(d.name, e.name))
		}
		cols = append(cols, c)
		cs = append(cs, d)
	}
	opts := []query.SchemaOption{query.WithSchemaColumns(cols)}
	var xs []idx
	switch sym.Choose("index", 3) {
	case 1:
		x, d := mkIndex(g, "ix", true, []string{cs[n-1].name})
		opts = append(opts, query.WithSchemaIndexes(query.Indexes{x}))
		xs = []idx{d}
	case 2:
		x, d := mkIndex(g, "ix", true, []string{cs[n-1].name})
		y, e := mkIndex(g, "iy", false, []string{cs[0].name})
		opts = append(opts, query.WithSchemaIndexes(query.Indexes{x, y}))
		xs = []idx{d, e}
	}
	st := query.NewCreateTableWith(query.NewSchemaWith(name, opts...), query.NewIfNotExistsWith(ifne))
	built(st, func(p query.Statement) {
		ct, ok := p.(query.CreateTable)
		sym.Assert(ok && ct.TableName() == name, "CREATE TABLE: the table is the one given")
		sym.Assert(ct.IfNotExists() == ifne, "CREATE TABLE: IF NOT EXISTS exactly when given")
		vs, is := ct.Schema().Columns(), ct.Schema().Indexes()
		sym.Assert(len(vs) == n && len(is) == len(xs), "CREATE TABLE: the columns and indexes given")
		for i := range cs {
			cs[i].check(vs[i])
		}
		for i := range xs {
			xs[i].check(is[i])
		}
	})
}

func B35_AlterTable() { buildAlterTable(newGen(3, 2)) }

func buildAlterTable(g *gen) {
	name := g.raw("t")
	full := name
	var opts []query.AlterTableOption
	if sym.Choose("qual", 2) == 1 {
		q := g.raw("q")
		full = q + "." + name
		opts = append(opts, query.WithAlterTableSchema(q))
	}
	form := sym.Choose("form", 6)
	var c coldef
	var x idx
	var a, b string
	switch form {
	case 0:
		col, d := mkColumn(g, "c", sym.Choose("type", len(sqlTypes)), sym.Choose("sized", 2) == 1)
		c = d
		opts = append(opts, query.WithAlterTableAddColumn(col))
	case 1:
		a = g.raw("c")
		opts = append(opts, query.WithAlterTableDropColumn(query.NewColumnWithName(a)))
	case 2:
		a, b = g.raw("c"), g.raw("d")
		opts = append(opts, query.WithAlterTableRenameColumn(query.NewColumnWithName(a), query.NewColumnWithName(b)))
	case 3:
		a = g.raw("d")
		opts = append(opts, query.WithAlterTableRenameTo(query.NewTableWith(a)))
	default:
		ix, d := mkIndex(g, "ix", form == 4, []string{g.raw("c"), g.raw("d")})
		x = d
		opts = append(opts, query.WithAlterTableAddIndex(ix))
	}
	built(query.NewAlterTableWith(name, opts...), func(p query.Statement) {
		at, ok := p.(query.AlterTable)
		sym.Assert(ok, "ALTER TABLE: parses as one")
		if f, ok := p.(interface{ FullTableName() string }); ok {
			sym.Assert(f.FullTableName() == full, "ALTER TABLE: the table is the one given")
		}
		nt, r := at.RenameTo()
		nc, ac := at.AddColumn()
		oc, dc := at.DropColumn()
		f, t, rc := at.RenameColumns()
		ni, ai := at.AddIndex()
		_, di := at.DropIndex()
		sym.Assert(ac == (form == 0) && dc == (form == 1) && rc == (form == 2) && r == (form == 3) && ai == (form >= 4) && !di, "ALTER TABLE: the one change given")
		switch form {
		case 0:
			c.check(nc)
		case 1:
			sym.Assert(oc.Name() == a, "ALTER TABLE: drops the column given")
		case 2:
			sym.Assert(f.Name() == a && t.Name() == b, "ALTER TABLE: renames the column given")
		case 3:
			sym.Assert(nt.FullTableName() == a, "ALTER TABLE: renames to the table given")
		default:
			x.check(ni)
		}
	})
}

func B35_Index() { buildIndex(newGen(3, 3)) }

func buildIndex(g *gen) {
	if sym.Choose("drop", 2) == 0 {
		t := g.raw("t")
		cols := []string{g.raw("c")}
		for i, n := 1, 1+sym.Choose("cols", 3); i < n; i++ {
			cols = append(cols, g.raw("c"+itoa(i)))
		}
		ix, x := mkIndex(g, "ix", false, cols)
		ifne := sym.Choose("ifne", 2) == 1
		st := query.NewCreateIndexWith(query.NewSchemaWith(t, query.WithSchemaIndexes(query.Indexes{ix})), query.NewIfNotExistsWith(ifne))
		built(st, func(p query.Statement) {
			ci, ok := p.(query.CreateIndex)
			sym.Assert(ok && ci.TableName() == t, "CREATE INDEX: the table is the one given")
			sym.Assert(ci.IfNotExists() == ifne, "CREATE INDEX: IF NOT EXISTS exactly when given")
			x.check(ci.Index())
		})
		return
	}
	q := ""
	if sym.Choose("qual", 2) == 1 {
		q = g.raw("q")
	}
	n := g.raw("ix")
	ife := sym.Choose("ife", 2) == 1
	built(query.NewDropIndexWith(q, n, query.NewIfExistsWith(ife)), func(p query.Statement) {
		di, ok := p.(query.DropIndex)
		sym.Assert(ok && di.TableName() == q && di.IndexName() == n, "DROP INDEX: the index is the one given")
		sym.Assert(di.IfExists() == ife, "DROP INDEX: IF EXISTS exactly when given")
	})
}

func B35_Other() { buildOther(newGen(3, 3)) }

func buildOther(g *gen) {
	opt := sym.Choose("opt", 2) == 1
	tables := func() (query.TableList, []string) {
		l := query.NewTables()
		var ns []string
		for i, n := 0, 1+sym.Choose("n", 3); i < n; i++ {
			t := g.raw("t" + itoa(i))
			ns = append(ns, t)
			l = append(l, query.NewTableWith(t))
		}
		return l, ns
	}
	lists := func(p query.Statement, ns []string) {
		x, ok := p.(interface{ TableNames() []string })
		sym.Assert(ok, "table list statements list their tables")
		sym.Assert(names(ns).same(x.TableNames()), "the tables are those given, in order")
	}
	switch sym.Choose("form", 11) {
	case 0:
		d := g.raw("d")
		built(query.NewCreateDatabaseWith(d, query.NewIfNotExistsWith(opt)), func(p query.Statement) {
			x, ok := p.(query.CreateDatabase)
			sym.Assert(ok && x.DatabaseName() == d && x.IfNotExists() == opt, "CREATE DATABASE: the name and option given")
		})
	case 1:
		d := g.raw("d")
		built(query.NewDropDatabaseWith(d, query.NewIfExistsWith(opt)), func(p query.Statement) {
			x, ok := p.(query.DropDatabase)
			sym.Assert(ok && x.DatabaseName() == d && x.IfExists() == opt, "DROP DATABASE: the name and option given")
		})
	case 2:
		d, e := g.raw("d"), g.raw("e")
		built(query.NewAlterDatabaseWith(d, e), func(p query.Statement) {
			x, ok := p.(query.AlterDatabase)
			sym.Assert(ok && x.DatabaseName() == d && x.RenameTo().DatabaseName() == e, "ALTER DATABASE: the names given")
		})
	case 3:
		l, ns := tables()
		built(query.NewDropTableWith(l, query.NewIfExistsWith(opt)), func(p query.Statement) {
			x, ok := p.(query.DropTable)
			sym.Assert(ok && x.IfExists() == opt, "DROP TABLE: the option given")
			lists(p, ns)
		})
	case 4:
		l, ns := tables()
		built(query.NewTruncateWith(l), func(p query.Statement) { lists(p, ns) })
	case 5:
		d := g.raw("d")
		built(query.NewUseWith(d), func(p query.Statement) {
			x, ok := p.(query.Use)
			sym.Assert(ok && x.DatabaseName() == d, "USE: the name given")
		})
	case 6:
		built(query.NewBegin(), func(query.Statement) {})
	case 7:
		built(query.NewCommit(), func(query.Statement) {})
	case 8:
		built(query.NewRollback(), func(query.Statement) {})
	case 9:
		t := ""
		var st query.Statement = query.NewVacuum()
		if opt {
			t = g.raw("t")
			st = query.NewVacuumWith(query.NewTableWith(t))
		}
		built(st, func(p query.Statement) {
			x, ok := p.(query.Vacuum)
			sym.Assert(ok && x.TableName() == t, "VACUUM: the table given")
		})
	default:
		t, src := g.raw("t"), g.raw("src")
		var opts []query.CopyOption
		var cols names
		if opt {
			cs := query.NewColumns()
			for i, n := 0, 1+sym.Choose("n", 3); i < n; i++ {
				c := g.raw("c" + itoa(i))
				cols = append(cols, c)
				cs = append(cs, query.NewColumnWithName(c))
			}
			opts = append(opts, query.WithCopyColumns(cs...))
		}
		k := sym.Choose("fmt", 4)
		if k > 0 {
			opts = append(opts, query.WithCopyFormat([]string{"", "TEXT", "csv", "Binary"}[k]))
		}
		want := []query.CopyFormat{query.CopyFormatText, query.CopyFormatText, query.CopyFormatCSV, query.CopyFormatBinary}[k]
		built(query.NewCopyWith(t, src, opts...), func(p query.Statement) {
			x, ok := p.(query.Copy)
			sym.Assert(ok && x.TableName() == t, "COPY: the table given")
			sym.Assert(cols.same(x.Columns().Names()), "COPY: the columns given")
			if s, ok := p.(interface {
				Source() string
				Format() query.CopyFormat
			}); ok {
				sym.Assert(s.Source() == src, "COPY: the source given")
				sym.Assert(s.Format() == want, "COPY: the format given")
			}
		})
	}
}

// names of word length
func B35_Words() {
	form := sym.Choose("kind", 5)
	g := words(8)
	switch form {
	case 0:
		t, full := query.NewTableWith(g.raw("t")), ""
		full = t.TableName()
		s := &selStmt{tables: []tab{{full, full}}}
		a, c, d, e := g.raw("sa"), g.raw("wc"), g.raw("gb"), g.raw("ob")
		s.sels = []sel{{text: a, name: a}, {text: "b", name: "b"}}
		l := lit{text: "1", val: "1"}
		s.where = where{kind: 1, a: cmp{c, 0, l}}
		s.group = d
		s.orders = []order{{e, 2}, {"z", 1}}
		built(query.NewSelectWith(query.NewSelectorsWith(query.NewColumnWithName(a), query.NewColumnWithName("b")), query.NewTablesWith(t), query.NewConditionWith(query.NewEQWith(query.NewColumnWithName(c), query.NewLiteralWith(1))),
			query.WithSelectGroupBy(d), query.WithSelectOrderBy(query.NewOrderByWith([]query.Order{query.NewOrderWith(e, query.OrderDesc), query.NewOrderWith("z", query.OrderAsc)}))), s.check)
	case 1:
		t, a, b := g.raw("t"), g.raw("a"), g.raw("b")
		one := func(n string) query.Column {
			return query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnLiteral(query.NewLiteralWith(7)))
		}
		built(query.NewInsertWith(query.NewTableWith(t), []query.Columns{query.NewColumnsWith(one(a), one(b))}), func(p query.Statement) {
			ins, ok := p.(query.Insert)
			sym.Assert(ok && ins.TableName() == t && len(ins.Values()) == 1 && names(ins.Values()[0].Names()).same([]string{a, b}), "INSERT: the table and the columns are the ones given")
		})
		built(query.NewUpdateWith(query.NewTableWith(t), query.NewColumnsWith(one(a), one(b)), query.NewCondition()), func(p query.Statement) {
			u, ok := p.(query.Update)
			sym.Assert(ok && u.TableName() == t && names(u.Columns().Names()).same([]string{a, b}), "UPDATE: the table and the columns are the ones given")
		})
	case 2:
		t, a, b, i := g.raw("t"), g.raw("a"), g.raw("b"), g.raw("i")
		col := func(n string) query.Column {
			return query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnData(query.NewDataDef(query.IntegerType, -1)))
		}
		key := query.NewColumnsWith(query.NewColumnWithName(a))
		st := query.NewCreateTableWith(query.NewSchemaWith(t, query.WithSchemaColumns(query.NewColumnsWith(col(a), col(b))), query.WithSchemaIndexes(query.Indexes{query.NewPrimaryIndexWith(key), query.NewSecondaryIndexWith(i, key)})), query.NewIfNotExistsWith(false))
		built(st, func(p query.Statement) {
			c, ok := p.(query.CreateTable)
			sym.Assert(ok && c.TableName() == t && names(c.Schema().Columns().Names()).same([]string{a, b}), "CREATE TABLE: the table and the columns are the ones given")
			xs := c.Schema().Indexes()
			sym.Assert(len(xs) == 2 && xs[1].Name() == i && names(xs[0].Columns().Names()).same([]string{a}) && names(xs[1].Columns().Names()).same([]string{a}), "CREATE TABLE: the indexes are the ones given")
		})
	case 3:
		buildIndex(words(4))
	default:
		buildOther(words(3))
	}
}

// many selectors, tables, orders, columns and rows
func B35_Many() {
	n := counts[sym.Choose("n", len(counts)-1)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	x := sym.Ident("x", 1, 2)
	name := func(i int) string {
		if i == at {
			return x
		}
		return "name" + itoa(i)
	}
	switch sym.Choose("form", 6) {
	case 0:
		s := &selStmt{tables: []tab{{"t", "t"}}}
		sels := query.NewSelectors()
		for i := 0; i < n; i++ {
			s.sels = append(s.sels, sel{text: name(i), name: name(i)})
			sels = append(sels, query.NewColumnWithName(name(i)))
		}
		built(query.NewSelectWith(sels, query.NewTablesWith(query.NewTableWith("t")), query.NewCondition()), s.check)
	case 1:
		s := &selStmt{sels: []sel{{text: "a", name: "a"}}}
		ts := query.NewTables()
		for i := 0; i < n; i++ {
			s.tables = append(s.tables, tab{name(i), name(i)})
			ts = append(ts, query.NewTableWith(name(i)))
		}
		built(query.NewSelectWith(query.NewSelectorsWith(query.NewColumnWithName("a")), ts, query.NewCondition()), s.check)
	case 2:
		s := &selStmt{sels: []sel{{text: "a", name: "a"}}, tables: []tab{{"t", "t"}}}
		var os []query.Order
		for i := 0; i < n; i++ {
			s.orders = append(s.orders, order{name(i), 1 + i%2})
			os = append(os, query.NewOrderWith(name(i), []query.OrderType{query.OrderAsc, query.OrderDesc}[i%2]))
		}
		built(query.NewSelectWith(query.NewSelectorsWith(query.NewColumnWithName("a")), query.NewTablesWith(query.NewTableWith("t")), query.NewCondition(), query.WithSelectOrderBy(query.NewOrderByWith(os))), s.check)
	case 3, 4:
		cols, rows := n, 2
		if sym.Choose("rows", 2) == 1 {
			cols, rows = 2, n
		}
		var values []query.Columns
		for r := 0; r < rows; r++ {
			row := query.NewColumns()
			for i := 0; i < cols; i++ {
				row = append(row, query.NewColumnWithOptions(query.WithColumnName("c"+itoa(i)), query.WithColumnLiteral(query.NewLiteralWith(name(r+i), query.WithLiteralType(query.StringLiteral)))))
			}
			values = append(values, row)
		}
		built(query.NewInsertWith(query.NewTableWith("t"), values), func(p query.Statement) {
			ins, ok := p.(query.Insert)
			sym.Assert(ok && ins.TableName() == "t" && len(ins.Values()) == rows, "INSERT: one row per row given")
			for r, row := range ins.Values() {
				sym.Assert(len(row) == cols, "INSERT: one value per column")
				for i, c := range row {
					sym.Assert(c.Name() == "c"+itoa(i) && c.Value() == any(name(r+i)), "INSERT: the value is the one given")
				}
			}
		})
	default:
		cs := query.NewColumns()
		for i := 0; i < n; i++ {
			cs = append(cs, query.NewColumnWithOptions(query.WithColumnName(name(i)), query.WithColumnLiteral(query.NewLiteralWith(i))))
		}
		built(query.NewUpdateWith(query.NewTableWith("t"), cs, query.NewConditionWith(query.NewEQWith(query.NewColumnWithName("a"), query.NewLiteralWith(1)))), func(p query.Statement) {
			u, ok := p.(query.Update)
			sym.Assert(ok && len(u.Columns()) == n && u.Where().HasConditions(), "UPDATE: one assignment per column given")
			for i, c := range u.Columns() {
				sym.Assert(c.Name() == name(i) && c.ValueString() == itoa(i), "UPDATE: the value is the one given")
			}
		})
	}
}
