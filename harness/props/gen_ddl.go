package props

import (
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif/harness/sym"
)

// sqlTypes are the single word type names of the library.
var sqlTypes = []struct {
	name string
	typ  query.DataType
}{
	{"BIGINT", query.BigIntType}, {"BIT", query.BitType}, {"BLOB", query.BlobType},
	{"BOOLEAN", query.BooleanType}, {"CHAR", query.CharType}, {"CHARACTER", query.CharacterType}, {"CLOB", query.ClobType},
	{"DATE", query.DateType}, {"DATETIME", query.DateTimeType}, {"DECIMAL", query.DecimalType}, {"DOUBLE", query.DoubleType},
	{"FLOAT", query.FloatType}, {"INT", query.IntType}, {"INTEGER", query.IntegerType}, {"LONGBLOB", query.LongBlobType},
	{"LONGTEXT", query.LongTextType}, {"MEDIUMBLOB", query.MediumBlobType}, {"MEDIUMINT", query.MediumIntType},
	{"MEDIUMTEXT", query.MediumTextType}, {"NUMERIC", query.NumericType}, {"REAL", query.RealType}, {"SET", query.SetType},
	{"SMALLINT", query.SmallIntType}, {"TEXT", query.TextType}, {"TIME", query.TimeType}, {"TIMESTAMP", query.TimeStampType},
	{"TINYBLOB", query.TinyBlobType}, {"TINYINT", query.TinyIntType}, {"TINYTEXT", query.TinyTextType},
	{"VARBINARY", query.VarBinaryType}, {"VARCHAR", query.VarCharType}, {"VARCHARACTER", query.VarCharacterType},
	{"YEAR", query.YearType}, {"SERIAL", query.SerialType}, {"BIGSERIAL", query.BigSerialType}, {"SMALLSERIAL", query.SmallSerialType},
}

// coldef is a column definition.
type coldef struct {
	name string
	typ  int
	size string // digits, "" for none
	pk   bool
}

func (c coldef) text(g *gen) string {
	s := g.j(g.q(c.name), g.kw(sqlTypes[c.typ].name))
	if c.size != "" {
		s += "(" + c.size + ")"
	}
	if c.pk {
		s += g.sp() + g.j(g.kw("PRIMARY"), g.kw("KEY"))
	}
	return s
}

func (c coldef) check(v query.Column) {
	sym.Assert(v != nil, "column definition: present")
	sym.Assert(v.Name() == c.name, "column definition: name is the one written")
	sym.Assert(v.DataType() == sqlTypes[c.typ].typ, "column definition: type is the one written")
	if c.size != "" {
		sym.Assert(v.DataTypeSize() == int(num(c.size)), "column definition: size is the one written")
	} else {
		sym.Assert(v.DataTypeSize() <= 0, "column definition: no size unless written")
	}
}

// idx is an index definition.
type idx struct {
	primary bool
	name    string
	cols    []string
}

func (x idx) check(v query.Index) {
	sym.Assert(v != nil, "index: present")
	if x.primary {
		sym.Assert(v.Type() == query.PrimaryIndex, "index: PRIMARY KEY is the primary index")
	} else {
		sym.Assert(v.Type() == query.SecondaryIndex, "index: INDEX is a secondary index")
		sym.Assert(v.Name() == x.name, "index: name is the one written")
	}
	ns := v.Columns().Names()
	sym.Assert(len(ns) == len(x.cols), "index: one column per column written")
	for i := range ns {
		sym.Assert(ns[i] == x.cols[i], "index: columns in order")
	}
}

// genCreateTable: cols column definitions, types rotating over all types, the
// index forms: 0 none, 1 column PRIMARY KEY, 2 PRIMARY KEY (a), 3 PRIMARY KEY
// (a, b), 4 KEY name (a), 5 INDEX name (a), 6 INDEX name (b), PRIMARY KEY (a),
// 7 INDEX name (b), PRIMARY KEY (all columns in reverse)
const ctForms = 7

// list is the length of a list.
func (g *gen) list(max int) int {
	if g.items > 0 {
		return g.items
	}
	return 1 + sym.Choose("more", max)
}

func genCreateTable(g *gen, cols, form, types int, size bool) (string, checker) {
	tt, tbl := g.table("t", sym.Choose("qual", 2) == 1)
	ifne := sym.Choose("ifne", 2) == 1
	t0 := sym.Choose("type", types)
	cs := make([]coldef, cols)
	body := ""
	pk := cols - 1
	if form == 1 && cols > 2 {
		pk = []int{0, cols / 2, cols - 1}[sym.Choose("pk", 3)]
	}
	for i := range cs {
		cs[i] = coldef{name: g.name("c" + itoa(i)), typ: (t0 + i*7) % len(sqlTypes)}
		if size && (i == 0 || g.bigSize) {
			if g.bigSize {
				g.signed = 1
				cs[i].size = g.number("size"+itoa(i), -1)
			} else {
				cs[i].size = sym.Str("size", 1, 3, "digit")
				sym.Assume(cs[i].size[0] != '0')
			}
		}
		// a key names the first column of that name
		for j := 0; j < i && form >= 4 && (!g.plain || g.min > 0); j++ {
			sym.Assume(!sameFold(cs[i].name, cs[j].name))
		}
		if form == 1 && i == pk {
			cs[i].pk = true
		}
		if i > 0 {
			body += "," + g.sp()
		}
		body += cs[i].text(g)
	}
	first, last := cs[0].name, cs[cols-1].name
	var ixs []idx
	add := func(s string, x idx) {
		if s != "" {
			body += "," + g.sp() + s
		}
		ixs = append(ixs, x)
	}
	key := func(k, n, c string) string { return g.j(g.kw(k), g.q(n), "("+g.q(c)+")") }
	switch form {
	case 1:
		add("", idx{primary: true, cols: []string{cs[pk].name}})
	case 2:
		add(g.j(g.kw("PRIMARY"), g.kw("KEY"), "("+g.q(last)+")"), idx{primary: true, cols: []string{last}})
	case 3:
		add(g.j(g.kw("PRIMARY"), g.kw("KEY"), "("+g.q(last)+","+g.sp()+g.q(first)+")"), idx{primary: true, cols: []string{last, first}})
	case 4:
		n := g.name("ix")
		add(key("KEY", n, last), idx{name: n, cols: []string{last}})
	case 5:
		n := g.name("ix")
		add(key("INDEX", n, last), idx{name: n, cols: []string{last}})
	case 6:
		n := g.name("ix")
		add(key("INDEX", n, last), idx{name: n, cols: []string{last}})
		add(g.j(g.kw("PRIMARY"), g.kw("KEY"), "("+g.q(first)+")"), idx{primary: true, cols: []string{first}})
	case 7:
		n := g.name("ix")
		var down []string
		dl := ""
		for i := range cs {
			d := cs[cols-1-i].name
			if i > 0 {
				dl += "," + g.sp()
			}
			dl += g.q(d)
			down = append(down, d)
		}
		add(key("INDEX", n, last), idx{name: n, cols: []string{last}})
		add(g.j(g.kw("PRIMARY"), g.kw("KEY"), "("+dl+")"), idx{primary: true, cols: down})
	case 8:
		// several keys of both kinds
		add(key("KEY", "k1", first), idx{name: "k1", cols: []string{first}})
		n := g.name("ix")
		add(key("INDEX", n, last), idx{name: n, cols: []string{last}})
		add(key("KEY", "k2", last), idx{name: "k2", cols: []string{last}})
		add(g.j(g.kw("PRIMARY"), g.kw("KEY"), "("+g.q(first)+","+g.sp()+g.q(last)+")"), idx{primary: true, cols: []string{first, last}})
	}
	text := g.j(g.kw("CREATE"), g.kw("TABLE"))
	if ifne {
		text += g.sp() + g.j(g.kw("IF"), g.kw("NOT"), g.kw("EXISTS"))
	}
	text += g.sp() + tt + g.sp() + "(" + body + ")"
	return text, func(st query.Statement) {
		sym.Assert(st.StatementType() == query.CreateTableStatement, "CREATE TABLE is a CREATE TABLE")
		ct, ok := st.(query.CreateTable)
		sym.Assert(ok, "CREATE TABLE implements CreateTable")
		sym.Assert(ct.TableName() == tbl, "CREATE TABLE: table is the one written")
		sym.Assert(ct.IfNotExists() == ifne, "CREATE TABLE: IF NOT EXISTS exactly when written")
		sc := ct.Schema()
		sym.Assert(sc != nil && sc.TableName() == tbl, "CREATE TABLE: schema names the table")
		vs := sc.Columns()
		sym.Assert(len(vs) == len(cs), "CREATE TABLE: one column per definition")
		for i := range cs {
			cs[i].check(vs[i])
		}
		is := sc.Indexes()
		sym.Assert(len(is) == len(ixs), "CREATE TABLE: one index per definition")
		for i := range ixs {
			ixs[i].check(is[i])
		}
	}
}

// sameFold is ASCII case-insensitive equality without forking per byte.
func sameFold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := 0; i < len(a); i++ {
		eq = sym.And(eq, foldByte(a[i]) == foldByte(b[i]))
	}
	return eq
}

func foldByte(c byte) byte {
	return sym.Ite(sym.And(c >= 'A', c <= 'Z'), c+32, c)
}

const atForms = 8

// genAlterTable: one alteration of a table.
func genAlterTable(g *gen, form int) (string, checker) {
	tt, tbl := g.table("t", sym.Choose("qual", 2) == 1)
	head := g.j(g.kw("ALTER"), g.kw("TABLE"), tt)
	optCol := func() string {
		if sym.Choose("column", 2) == 1 {
			return g.kw("COLUMN") + g.sp()
		}
		return ""
	}
	var text string
	var check func(query.AlterTable)
	kind := ""
	switch form {
	case 0:
		kind = "addcol"
		types := len(sqlTypes)
		if g.plain {
			types = 1
		}
		c := coldef{name: g.name("c"), typ: sym.Choose("type", types)}
		if sym.Choose("sized", 2) == 1 {
			c.size = sym.Str("size", 1, 2, "digit")
			sym.Assume(c.size[0] != '0')
		}
		text = g.j(head, g.kw("ADD"), optCol()+c.text(g))
		check = func(a query.AlterTable) {
			v, _ := a.AddColumn()
			c.check(v)
		}
	case 1:
		kind = "dropcol"
		c := g.name("c")
		text = g.j(head, g.kw("DROP"), optCol()+g.q(c))
		check = func(a query.AlterTable) {
			v, _ := a.DropColumn()
			sym.Assert(v.Name() == c, "ALTER TABLE: the dropped column is the one written")
		}
	case 2:
		kind = "renamecol"
		c, d := g.name("c"), g.name("d")
		text = g.j(head, g.kw("RENAME"), optCol()+g.q(c), g.kw("TO"), g.q(d))
		check = func(a query.AlterTable) {
			f, t, _ := a.RenameColumns()
			sym.Assert(f.Name() == c, "ALTER TABLE: the renamed column is the one written")
			sym.Assert(t.Name() == d, "ALTER TABLE: the new column name is the one written")
		}
	case 3:
		kind = "rename"
		d := g.name("d")
		text = g.j(head, g.kw("RENAME"), g.kw("TO"), g.q(d))
		check = func(a query.AlterTable) {
			t, _ := a.RenameTo()
			sym.Assert(t.FullTableName() == d, "ALTER TABLE: the new table name is the one written")
		}
	default:
		kind = "addidx"
		x := idx{primary: form < 6, cols: []string{g.name("c")}}
		def := g.j(g.kw("PRIMARY"), g.kw("KEY"))
		if !x.primary {
			x.name = g.name("ix")
			def = g.j(g.kw("INDEX"), g.q(x.name))
		}
		list := g.q(x.cols[0])
		if form%2 == 1 {
			x.cols = append(x.cols, g.name("c2"))
			list += "," + g.sp() + g.q(x.cols[1])
		}
		text = g.j(head, g.kw("ADD"), def, "("+list+")")
		check = func(a query.AlterTable) {
			v, _ := a.AddIndex()
			x.check(v)
		}
	}
	return text, func(st query.Statement) {
		sym.Assert(st.StatementType() == query.AlterTableStatement, "ALTER TABLE is an ALTER TABLE")
		a, ok := st.(query.AlterTable)
		sym.Assert(ok, "ALTER TABLE implements AlterTable")
		full, ok := st.(interface{ FullTableName() string })
		if ok {
			sym.Assert(full.FullTableName() == tbl, "ALTER TABLE: table is the one written")
		}
		_, r := a.RenameTo()
		_, ac := a.AddColumn()
		_, dc := a.DropColumn()
		_, _, rc := a.RenameColumns()
		_, ai := a.AddIndex()
		_, di := a.DropIndex()
		sym.Assert(r == (kind == "rename"), "ALTER TABLE: renames the table exactly when written")
		sym.Assert(ac == (kind == "addcol"), "ALTER TABLE: adds a column exactly when written")
		sym.Assert(dc == (kind == "dropcol"), "ALTER TABLE: drops a column exactly when written")
		sym.Assert(rc == (kind == "renamecol"), "ALTER TABLE: renames a column exactly when written")
		sym.Assert(ai == (kind == "addidx"), "ALTER TABLE: adds an index exactly when written")
		sym.Assert(!di, "ALTER TABLE: drops no index")
		check(a)
	}
}

func genCreateIndex(g *gen) (string, checker) {
	tbl := g.name("t")
	x := idx{name: g.name("ix"), cols: []string{g.name("c0")}}
	list := g.q(x.cols[0])
	for i, n := 1, g.list(4); i < n; i++ {
		c := g.name("c" + itoa(i))
		x.cols = append(x.cols, c)
		list += "," + g.sp() + g.q(c)
	}
	ifne := sym.Choose("ifne", 2) == 1
	text := g.j(g.kw("CREATE"), g.kw("INDEX"))
	if ifne {
		text += g.sp() + g.j(g.kw("IF"), g.kw("NOT"), g.kw("EXISTS"))
	}
	text = g.j(text, g.q(x.name), g.kw("ON"), g.q(tbl), "("+list+")")
	return text, func(st query.Statement) {
		sym.Assert(st.StatementType() == query.CreateIndexStatement, "CREATE INDEX is a CREATE INDEX")
		ci, ok := st.(query.CreateIndex)
		sym.Assert(ok, "CREATE INDEX implements CreateIndex")
		sym.Assert(ci.TableName() == tbl, "CREATE INDEX: table is the one written")
		sym.Assert(ci.IfNotExists() == ifne, "CREATE INDEX: IF NOT EXISTS exactly when written")
		x.check(ci.Index())
		at, err := query.NewAlterTableFrom(st)
		sym.Assert(err == nil && at != nil, "CREATE INDEX converts to ALTER TABLE")
		sym.Assert(at.TableName() == tbl, "CREATE INDEX as ALTER TABLE: same table")
		ai, ok := at.AddIndex()
		sym.Assert(ok, "CREATE INDEX as ALTER TABLE adds the index")
		x.check(ai)
		_, ok = at.DropIndex()
		sym.Assert(!ok, "CREATE INDEX as ALTER TABLE drops nothing")
	}
}

func genDropIndex(g *gen) (string, checker) {
	q := ""
	n := g.name("ix")
	name := g.q(n)
	if sym.Choose("qual", 2) == 1 {
		q = g.name("q")
		name = g.q(q) + "." + g.q(n)
	}
	ife := sym.Choose("ife", 2) == 1
	text := g.j(g.kw("DROP"), g.kw("INDEX"))
	if ife {
		text += g.sp() + g.j(g.kw("IF"), g.kw("EXISTS"))
	}
	text = g.j(text, name)
	return text, func(st query.Statement) {
		sym.Assert(st.StatementType() == query.DropIndexStatement, "DROP INDEX is a DROP INDEX")
		di, ok := st.(query.DropIndex)
		sym.Assert(ok, "DROP INDEX implements DropIndex")
		sym.Assert(di.IndexName() == n, "DROP INDEX: index is the one written")
		sym.Assert(di.TableName() == q, "DROP INDEX: qualifier is the one written")
		sym.Assert(di.IfExists() == ife, "DROP INDEX: IF EXISTS exactly when written")
		at, err := query.NewAlterTableFrom(st)
		sym.Assert(err == nil && at != nil, "DROP INDEX converts to ALTER TABLE")
		x, ok := at.DropIndex()
		sym.Assert(ok && x.Name() == n, "DROP INDEX as ALTER TABLE drops the index")
		_, ok = at.AddIndex()
		sym.Assert(!ok, "DROP INDEX as ALTER TABLE adds nothing")
	}
}

const dbForms = 15

// genOther: database, table, transaction and utility statements.
func genOther(g *gen, form int) (string, checker) {
	opt := func(kw ...string) (string, bool) {
		if sym.Choose("opt", 2) == 0 {
			return "", false
		}
		s := ""
		for _, k := range kw {
			s += g.kw(k) + g.sp()
		}
		return s, true
	}
	names := func(st query.Statement, want []string) {
		x, ok := st.(interface{ TableNames() []string })
		sym.Assert(ok, "table list statements list their tables")
		ns := x.TableNames()
		sym.Assert(len(ns) == len(want), "one table per table written")
		for i := range want {
			sym.Assert(ns[i] == want[i], "tables in order")
		}
	}
	tables := func() ([]string, string) {
		var ts []string
		l := ""
		n := g.list(4)
		for i := 0; i < n; i++ {
			ts = append(ts, g.name("t"+itoa(i)))
			if i > 0 {
				l += "," + g.sp()
			}
			l += g.q(ts[i])
		}
		return ts, l
	}
	typed := func(t query.StatementType, c checker) checker {
		return func(st query.Statement) {
			sym.Assert(st.StatementType() == t, "the statement type is the one written")
			c(st)
		}
	}
	nop := func(query.Statement) {}
	switch form {
	case 0:
		o, set := opt("IF", "NOT", "EXISTS")
		d := g.raw("d")
		return g.j(g.kw("CREATE"), g.kw("DATABASE"), o+d), typed(query.CreateDatabaseStatement, func(st query.Statement) {
			x, ok := st.(query.CreateDatabase)
			sym.Assert(ok && x.DatabaseName() == d, "CREATE DATABASE: database is the one written")
			sym.Assert(x.IfNotExists() == set, "CREATE DATABASE: IF NOT EXISTS exactly when written")
		})
	case 1:
		o, set := opt("IF", "EXISTS")
		d := g.raw("d")
		return g.j(g.kw("DROP"), g.kw("DATABASE"), o+d), typed(query.DropDatabaseStatement, func(st query.Statement) {
			x, ok := st.(query.DropDatabase)
			sym.Assert(ok && x.DatabaseName() == d, "DROP DATABASE: database is the one written")
			sym.Assert(x.IfExists() == set, "DROP DATABASE: IF EXISTS exactly when written")
		})
	case 2:
		d, e := g.raw("d"), g.raw("e")
		return g.j(g.kw("ALTER"), g.kw("DATABASE"), d, g.kw("RENAME"), g.kw("TO"), e), typed(query.AlterDatabaseStatement, func(st query.Statement) {
			x, ok := st.(query.AlterDatabase)
			sym.Assert(ok && x.DatabaseName() == d, "ALTER DATABASE: database is the one written")
			t := x.RenameTo()
			sym.Assert(t != nil && t.DatabaseName() == e, "ALTER DATABASE: new name is the one written")
		})
	case 3, 4:
		o, set := opt("IF", "EXISTS")
		ts, l := tables()
		if form == 4 {
			q := g.name("q")
			ts[0] = q + "." + ts[0]
			l = g.q(q) + "." + l
		}
		return g.j(g.kw("DROP"), g.kw("TABLE"), o+l), typed(query.DropTableStatement, func(st query.Statement) {
			x, ok := st.(query.DropTable)
			sym.Assert(ok && x.IfExists() == set, "DROP TABLE: IF EXISTS exactly when written")
			names(st, ts)
			sym.Assert(len(x.Tables()) == len(ts), "DROP TABLE: one table per table written")
		})
	case 5:
		o, _ := opt("TABLE")
		ts, l := tables()
		return g.j(g.kw("TRUNCATE"), o+l), typed(query.TruncateStatement, func(st query.Statement) { names(st, ts) })
	case 6:
		d := g.raw("d")
		return g.j(g.kw("USE"), d), typed(query.UseStatement, func(st query.Statement) {
			x, ok := st.(query.Use)
			sym.Assert(ok && x.DatabaseName() == d, "USE: database is the one written")
		})
	case 7:
		o, _ := opt("TRANSACTION")
		return g.kw("BEGIN") + g.sp() + o, typed(query.BeginStatement, nop)
	case 8:
		o, _ := opt("TRANSACTION")
		return g.kw("COMMIT") + g.sp() + o, typed(query.CommitStatement, nop)
	case 9:
		o, _ := opt("TRANSACTION")
		return g.kw("ROLLBACK") + g.sp() + o, typed(query.RollbackStatement, nop)
	case 10:
		return g.kw("VACUUM"), typed(query.VacuumStatement, func(st query.Statement) {
			x, ok := st.(query.Vacuum)
			sym.Assert(ok && x.TableName() == "", "VACUUM: no table unless written")
		})
	case 11:
		t := g.raw("t")
		return g.j(g.kw("VACUUM"), t), typed(query.VacuumStatement, func(st query.Statement) {
			x, ok := st.(query.Vacuum)
			sym.Assert(ok && x.TableName() == t, "VACUUM: table is the one written")
		})
	default:
		tbl := g.rawTable("t", sym.Choose("qual", 2) == 1)
		src := g.raw("src")
		cols, l := []string{}, ""
		n := form - 12
		if n == 2 {
			n = 1 + g.list(2)
		}
		for i := 0; i < n; i++ {
			cols = append(cols, g.raw("c"+itoa(i)))
			if i > 0 {
				l += "," + g.sp()
			}
			l += cols[i]
		}
		text := g.j(g.kw("COPY"), tbl)
		if n > 0 {
			text = g.j(text, "("+l+")")
		}
		text = g.j(text, g.kw("FROM"), src)
		want := query.CopyFormatText
		switch sym.Choose("fmt", 4) {
		case 1:
			text = g.j(text, g.kw("TEXT"))
		case 2:
			text, want = g.j(text, g.kw("CSV")), query.CopyFormatCSV
		case 3:
			text, want = g.j(text, g.kw("WITH"), g.kw("FORMAT"), g.kw("BINARY")), query.CopyFormatBinary
		}
		return text, typed(query.CopyStatement, func(st query.Statement) {
			x, ok := st.(query.Copy)
			sym.Assert(ok && x.TableName() == tbl, "COPY: table is the one written")
			ns := x.Columns().Names()
			sym.Assert(len(ns) == len(cols), "COPY: one column per column written")
			for i := range cols {
				sym.Assert(ns[i] == cols[i], "COPY: columns in order")
			}
			if s, ok := st.(interface {
				Source() string
				Format() query.CopyFormat
			}); ok {
				sym.Assert(s.Source() == src, "COPY: source is the one written")
				sym.Assert(s.Format() == want, "COPY: format is the one written")
			}
		})
	}
}

// rawTable is a table name without quotes.
func (g *gen) rawTable(tag string, qual bool) string {
	if qual {
		return g.raw("q"+tag) + "." + g.raw(tag)
	}
	return g.raw(tag)
}
