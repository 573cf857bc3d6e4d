package props

import (
	"github.com/cybergarage/go-sqlparser/sql"

	"verif/harness/sym"

	"github.com/cybergarage/go-sqlparser/sql/query"
)

// genInsertNamed: INSERT INTO t VALUES (a = 1, b = 'x') names the column of
// each value.
func genInsertNamed(g *gen, cols, rows, k int) (string, checker) {
	tt, tbl := g.table("t", sym.Choose("qual", 2) == 1)
	names := make([]string, cols)
	for i := range names {
		names[i] = g.name("c" + itoa(i))
	}
	ls := make([][]lit, rows)
	text := g.j(g.kw("INSERT"), g.kw("INTO"), tt, g.kw("VALUES")) + " "
	for r := range ls {
		if r > 0 {
			text += ", "
		}
		text += "("
		for i := range names {
			if i > 0 {
				text += ", "
			}
			l := g.lit("v"+itoa(r)+itoa(i), (k+r+i)%litKinds)
			ls[r] = append(ls[r], l)
			text += g.j(g.q(names[i]), "=", l.text)
		}
		text += ")"
	}
	return text, func(st query.Statement) {
		s, ok := st.(query.Insert)
		sym.Assert(ok && st.StatementType() == query.InsertStatement, "INSERT is an INSERT")
		if f, ok := st.(interface{ FullTableName() string }); ok {
			sym.Assert(f.FullTableName() == tbl, "INSERT: table is the one written")
		}
		vs := s.Values()
		sym.Assert(len(vs) == rows, "INSERT: one row per VALUES group")
		for r := range vs {
			sym.Assert(len(vs[r]) == cols, "INSERT: one value per name")
			for i := range vs[r] {
				sym.Assert(vs[r][i].Name() == names[i], "INSERT: each value under the name written")
				sym.Assert(ls[r][i].is(vs[r][i].Value(), vs[r][i].ValueType()), "INSERT: value is the literal written")
			}
		}
	}
}

func P04_Named() {
	n := sym.Choose("n", 2)
	fidelity(genInsertNamed(newGen(2, 1), 1+n, 1+sym.Choose("rows", 3-n), sym.Choose("kind", litKinds)))
}

func P04_NamedWide() {
	n := count()
	if sym.Choose("rows", 2) == 1 {
		fidelity(genInsertNamed(wide(0, 2*n), 2, n, 0))
		return
	}
	fidelity(genInsertNamed(wide(n+1, n), n, 1, 0))
}

func P02_Named() {
	n := sym.Choose("n", 2)
	roundTrip(genInsertNamed(newGen(2, 1), 1+n, 2-n, sym.Choose("kind", 2)))
}

// P14_Conditions: a condition, or a row of other columns, is no row of values.
func P14_Conditions() {
	n := sym.Ident("n", 1, 2)
	m := sym.Ident("m", 1, 2)
	sym.Assume(n != m)
	op := []string{"<", ">", "<=", ">=", "!=", "<>"}[sym.Choose("op", 6)]
	texts := []string{
		"INSERT INTO t VALUES (" + n + " " + op + " 1)",
		"INSERT INTO t VALUES (" + n + " = 1, " + m + " " + op + " 1)",
		"INSERT INTO t (" + n + ") VALUES (" + m + " " + op + " 1)",
		"INSERT INTO t (" + n + ") VALUES (" + m + " = 1)",
		"INSERT INTO t (" + n + ", " + m + ") VALUES (1, " + m + " = 1)",
		"INSERT INTO t VALUES (" + n + " = 1, 2)",
		"INSERT INTO t VALUES (1, " + n + " = 2)",
		"INSERT INTO t VALUES (" + n + " = 1), (" + m + " = 2)",
		"INSERT INTO t VALUES (" + n + " = 1), (" + n + " = 2, " + m + " = 3)",
		"INSERT INTO t VALUES (" + n + " = 1, " + m + " = 2), (" + m + " = 3, " + n + " = 4)",
		"INSERT INTO t VALUES (" + n + " = 1), (" + n + " = 2), (3)",
	}
	refused(texts[sym.Choose("text", len(texts))])
}

// keys and columns in any order; a column may have no type.
func genKeysAnywhere() (string, checker) {
	a, b := sym.Ident("a", 1, 2), sym.Ident("b", 1, 2)
	sym.Assume(!sameFold(a, b))
	kw := func(s string) string { return s }
	if sym.Choose("case", 2) == 1 {
		kw = lower
	}
	typed := sym.Choose("typed", 3)
	ta, tb := " "+kw("INT"), " "+kw("TEXT")
	if typed == 1 {
		ta = ""
	}
	if typed == 2 {
		tb = ""
	}
	pk := kw("PRIMARY") + " " + kw("KEY") + " "
	p := idx{primary: true, cols: []string{b}}
	q := idx{name: "ix", cols: []string{a}}
	var body string
	var want []idx
	switch sym.Choose("form", 9) {
	case 0:
		body = a + ta + ", " + b + tb
	case 1:
		body = pk + "(" + b + "), " + a + ta + ", " + b + tb
		want = []idx{p}
	case 2:
		body = a + ta + ", " + pk + "(" + b + "), " + b + tb
		want = []idx{p}
	case 3:
		body = kw("KEY") + " ix (" + a + "), " + a + ta + ", " + b + tb
		want = []idx{q}
	case 4:
		body = kw("INDEX") + " ix (" + a + "), " + pk + "(" + b + "), " + a + ta + ", " + b + tb
		want = []idx{q, p}
	case 5:
		body = a + ta + ", " + pk + "(" + b + "), " + kw("INDEX") + " ix (" + a + "), " + b + tb
		want = []idx{p, q}
	case 6:
		body = a + ta + ", " + b + tb + ", " + kw("KEY") + " ix (" + a + ")"
		want = []idx{q}
	case 7:
		body = kw("KEY") + " ix (" + a + "), " + a + ta + ", " + b + tb + ", " + pk + "(" + b + ", " + a + ")"
		want = []idx{q, {primary: true, cols: []string{b, a}}}
	default:
		body = a + ta + ", " + kw("KEY") + " ix (" + a + "), " + b + tb + ", " + pk + "(" + b + ")"
		want = []idx{q, p}
	}
	return "CREATE TABLE t (" + body + ")", func(st query.Statement) {
		ct, ok := st.(query.CreateTable)
		sym.Assert(ok, "CREATE TABLE implements CreateTable")
		cs := ct.Schema().Columns()
		sym.Assert(len(cs) == 2, "CREATE TABLE: one column per definition")
		sym.Assert(cs[0].Name() == a && cs[1].Name() == b, "CREATE TABLE: columns in order")
		if typed != 1 {
			sym.Assert(cs[0].DataType() == query.IntType, "CREATE TABLE: types as written")
		} else {
			sym.Assert(cs[0].DataType() == query.UnknownData, "CREATE TABLE: no type unless written")
		}
		if typed != 2 {
			sym.Assert(cs[1].DataType() == query.TextType, "CREATE TABLE: types as written")
		} else {
			sym.Assert(cs[1].DataType() == query.UnknownData, "CREATE TABLE: no type unless written")
		}
		is := ct.Schema().Indexes()
		sym.Assert(len(is) == len(want), "CREATE TABLE: one index per definition")
		for i := range want {
			want[i].check(is[i])
		}
	}
}

func P07_KeysAnywhere() { fidelity(genKeysAnywhere()) }
func P02_KeysAnywhere() { roundTrip(genKeysAnywhere()) }

func genAddUntyped() (string, checker) {
	a := sym.Ident("a", 1, 2)
	text := "ALTER TABLE t ADD "
	if sym.Choose("column", 2) == 1 {
		text += "COLUMN "
	}
	return text + a, func(st query.Statement) {
		al, ok := st.(query.AlterTable)
		sym.Assert(ok && al.TableName() == "t", "ALTER TABLE: table is the one written")
		c, ok := al.AddColumn()
		sym.Assert(ok && c.Name() == a && c.DataType() == query.UnknownData, "ALTER TABLE: the column added")
		_, ai := al.AddIndex()
		_, dc := al.DropColumn()
		sym.Assert(!ai && !dc, "ALTER TABLE: no other change than the one written")
	}
}

func P08_AddUntyped() { fidelity(genAddUntyped()) }
func P02_AddUntyped() { roundTrip(genAddUntyped()) }

// P09_Forms: the optional words of transaction statements and of COPY.
func genTxForms() (string, checker) {
	n := sym.Ident("n", 1, 2)
	forms := []struct {
		text string
		typ  query.StatementType
	}{
		{"BEGIN DEFERRED", query.BeginStatement}, {"BEGIN IMMEDIATE", query.BeginStatement}, {"BEGIN EXCLUSIVE", query.BeginStatement},
		{"BEGIN DEFERRED TRANSACTION", query.BeginStatement}, {"BEGIN IMMEDIATE TRANSACTION", query.BeginStatement}, {"begin exclusive transaction", query.BeginStatement},
		{"BEGIN TRANSACTION " + n, query.BeginStatement}, {"BEGIN EXCLUSIVE TRANSACTION " + n, query.BeginStatement},
		{"END", query.CommitStatement}, {"END TRANSACTION", query.CommitStatement}, {"end transaction", query.CommitStatement},
		{"COMMIT;", query.CommitStatement}, {"rollback transaction;", query.RollbackStatement},
	}
	f := forms[sym.Choose("form", len(forms))]
	return f.text, func(st query.Statement) {
		sym.Assert(st.StatementType() == f.typ, "the statement type is the one written")
	}
}

func P09_TxForms() { fidelity(genTxForms()) }
func P02_TxForms() { roundTrip(genTxForms()) }

// P09_CopySource: a quoted source is the text between the quotes.
func P09_CopySource() {
	src := sym.Str("src", 1, 3, "[aB./_ 'x]")
	cols := []string{"", " (a)", " (a, b)"}[sym.Choose("cols", 3)]
	f := sym.Choose("fmt", 4)
	text := "COPY t" + cols + " FROM " + escaped(src) + []string{"", " TEXT", " CSV", " BINARY"}[f]
	c, ok := parse1(text).(query.Copy)
	sym.Assert(ok && c.TableName() == "t" && len(c.Columns()) == len(cols)/3, "COPY: table and columns as written")
	s, ok := c.(interface {
		Source() string
		Format() query.CopyFormat
	})
	if ok {
		sym.Assert(s.Source() == src, "COPY: source is the one written")
		want := []query.CopyFormat{query.CopyFormatText, query.CopyFormatText, query.CopyFormatCSV, query.CopyFormatBinary}[f]
		sym.Assert(s.Format() == want, "COPY: format is the one written")
	}
	sym.Cover("end")
}

// genSelectForms: selectors that are expressions, qualified names in every
// clause, table aliases, and numbers written in several ways.
func genSelectForms() (string, checker) {
	a, b := sym.Ident("a", 1, 2), sym.Ident("b", 1, 2)
	sels := []string{a, b + ".*", "s." + b + "." + a, "1", "-1", "'x y'", "NULL", "-" + a, a + "+" + b, "(" + a + ")"}
	k := sym.Choose("sel", len(sels))
	tail := sym.Choose("tail", 8)
	text := "SELECT " + sels[k]
	second := sym.Choose("second", 2) == 1
	if second {
		text += ", " + b
	}
	text += " FROM "
	group, where := "", ""
	var orders []order
	var lim, off uint
	tbl := "t"
	switch tail {
	case 0:
		text += "t"
	case 1:
		text += "t AS " + b + " WHERE " + a + " = 1"
		where = "1"
	case 2:
		text += "t " + b + "x WHERE " + a + " = -2.5 LIMIT 007"
		where, lim = "-2.5", 7
	case 3:
		tbl = "s.t"
		text += "s.t AS " + b + "x ORDER BY t." + a + " DESC, ABS(" + b + "), 2 DESC"
		orders = []order{{"t." + a, 2}, {"ABS(" + b + ")", 0}, {"2", 2}}
	case 4:
		text += "t GROUP BY t." + a + " LIMIT 3 OFFSET 0"
		group, lim = "t."+a, 3
	case 5:
		text += "t GROUP BY " + a + " ORDER BY " + a + " LIMIT 0, 12"
		group, lim, orders = a, 12, []order{{a, 0}}
	case 6:
		text += "t WHERE " + a + " = 0x1F GROUP BY " + b + " ORDER BY " + b + " ASC, " + a + " LIMIT 010 OFFSET 020"
		where, group, lim, off, orders = "0x1F", b, 10, 20, []order{{b, 1}, {a, 0}}
	default:
		text += "t WHERE " + a + " = 1e-5 ORDER BY " + b + "." + a + " LIMIT 00, 1"
		where, lim, orders = "1e-5", 1, []order{{b + "." + a, 0}}
	}
	return text, func(st query.Statement) {
		s, ok := st.(query.Select)
		sym.Assert(ok, "SELECT implements Select")
		vs := s.Selectors()
		n := 1
		if second {
			n = 2
			sym.Assert(len(vs) == 2 && vs[1].Name() == b, "SELECT: selectors in order")
		}
		sym.Assert(len(vs) == n && vs[0].Name() == sels[k], "SELECT: a selector is the one written")
		sym.Assert(!vs[0].IsFunction() && !vs[0].IsAsterisk(), "SELECT: an expression is no function and no asterisk")
		sym.Assert(len(s.From()) == 1 && s.From()[0].FullTableName() == tbl, "SELECT: the table written")
		sym.Assert(s.Where().HasConditions() == (where != ""), "SELECT: a condition exactly when written")
		if where != "" {
			c, ok := s.Where().Expr().(*query.CmpExpr)
			sym.Assert(ok && c.Operator() == query.EQ && c.Left().Name() == a, "SELECT: the comparison written")
			sym.Assert(c.Right().Value() == any(where) && c.Right().ValueType() != query.StringLiteral, "SELECT: the literal written")
		}
		sym.Assert(s.GroupBy().ColumnName() == group, "SELECT: the GROUP BY column written")
		os := s.OrderBy().Orders()
		sym.Assert(len(os) == len(orders), "SELECT: one order per ORDER BY term")
		for i, o := range orders {
			sym.Assert(os[i].ColumnName() == o.col && os[i].IsDesc() == (o.dir == 2) && os[i].IsAsc() == (o.dir != 2), "SELECT: ORDER BY terms as written")
		}
		sym.Assert(s.Limit().Limit() == lim && s.Limit().Offset() == off, "SELECT: LIMIT and OFFSET as written")
	}
}

func P03_Forms()       { fidelity(genSelectForms()) }
func P02_SelectForms() { roundTrip(genSelectForms()) }

// moreRefused: further forms that have no representation.
var moreRefused = []string{
	"CREATE TABLE IF NOT EXISTS %n AS SELECT * FROM %n",
	"CREATE TABLE s.%n AS SELECT %n FROM t",
	"CREATE TEMP TABLE %n AS SELECT %n FROM t",
	"CREATE TABLE IF NOT EXISTS %n AS SELECT 1",
	"CREATE INDEX IF NOT EXISTS %n ON %n (a, ABS(b))",
	"CREATE INDEX IF NOT EXISTS %n ON %n (ABS(b), a)",
	"CREATE TABLE IF NOT EXISTS %n (a INT, b INT, PRIMARY KEY (%n, ABS(b)))",
	"DROP VIEW s.%n",
	"DROP TRIGGER IF EXISTS s.%n",
	"CREATE TRIGGER %n AFTER INSERT ON %n BEGIN DELETE FROM u; END",
	"CREATE TRIGGER %n AFTER INSERT ON %n BEGIN DELETE FROM u WHERE a = %d; UPDATE v SET a = 1; END",
	"CREATE VIRTUAL TABLE %n USING %n(a)",
	"PRAGMA %n.%n = %d",
	"PRAGMA %n(%d)",
	"ANALYZE",
	"REINDEX",
	"REINDEX %n.%n",
	"ATTACH DATABASE %s AS %n",
	"DETACH DATABASE %n",
	"DROP VIEW IF EXISTS %n",
	"CREATE TEMP VIEW %n AS SELECT %n FROM t",
	"CREATE VIEW IF NOT EXISTS %n AS SELECT %n FROM t",
	"SAVEPOINT %n",
	"RELEASE SAVEPOINT %n",
	"EXPLAIN INSERT INTO %n (%n) VALUES (%d)",
	"EXPLAIN CREATE TABLE %n (%n INT)",
	"EXPLAIN QUERY PLAN SELECT %n FROM %n",
	"EXPLAIN BEGIN",
	"UPDATE %n SET %n = %d WHERE b IN (SELECT c FROM u)",
	"UPDATE %n SET %n = (SELECT b FROM u)",
	"UPDATE %n SET (%n, b) = (%d, 2)",
	"UPDATE %n SET %n = b",
	"UPDATE %n SET %n = ABS(b)",
	"UPDATE %n SET %n = NOT b",
	"UPDATE %n SET %n = b = %d",
	"UPDATE %n SET %n = -b",
	"UPDATE %n SET %n = b || %s",
	"UPDATE %n SET %n = b < %d",
	"UPDATE %n SET %n = b AND c",
	"UPDATE %n SET %n = CASE WHEN b THEN %d ELSE 2 END",
	"UPDATE %n SET %n = CAST(b AS INT)",
	"INSERT INTO %n DEFAULT VALUES",
	"INSERT INTO %n (%n) VALUES ((SELECT b FROM u))",
	"INSERT INTO %n (%n) VALUES (b)",
	"INSERT INTO %n (%n) VALUES (ABS(%d))",
	"INSERT INTO %n (%n) VALUES (NOT %d)",
	"INSERT INTO %n (%n) VALUES (%d), (2, 3)",
	"INSERT INTO %n (%n, b) VALUES (%d), (2, 3)",
	"INSERT INTO %n (%n) VALUES (a = %d)",
	"INSERT INTO %n (%n) VALUES (%d || 2)",
	"INSERT INTO %n (%n) VALUES (%s COLLATE nocase)",
	"INSERT INTO %n (%n) VALUES (CASE WHEN %d THEN 2 END)",
	"INSERT INTO %n (%n) VALUES (CAST(%d AS INT))",
	"INSERT INTO %n (%n) VALUES ((%d))",
	"INSERT INTO %n (%n) VALUES ((%d), 2)",
	"DELETE FROM %n WHERE %n = %d AND b = 2 AND c = 3",
	"DELETE FROM %n WHERE %n = %d OR b = 2 AND c = 3",
	"DELETE FROM %n WHERE (%n = %d)",
	"DELETE FROM %n WHERE (%n = %d AND b = 2)",
	"DELETE FROM %n WHERE (%n = %d) AND b = 2",
	"DELETE FROM %n WHERE %n = %d AND b",
	"DELETE FROM %n WHERE %n = %d AND b IN (1)",
	"DELETE FROM %n WHERE %n IN (%d) AND b = 1",
	"DELETE FROM %n WHERE %n = %d AND NOT b = 1",
	"DELETE FROM %n WHERE %n = %d AND (b = 2 OR c = 3)",
	"DELETE FROM %n ORDER BY %n LIMIT %d",
	"DELETE FROM %n LIMIT %d",
	"UPDATE %n SET %n = %d LIMIT 1",
	"UPDATE %n SET %n = %d ORDER BY b LIMIT 1",
	"DELETE FROM %n WHERE %n = b + %d",
	"DELETE FROM %n WHERE %n + %d = 2",
	"DELETE FROM %n WHERE %n IS %d",
	"DELETE FROM %n WHERE %n = %d || 2",
	"DELETE FROM %n WHERE %n GLOB %s",
	"DELETE FROM %n WHERE %n = %d = 2",
	"DELETE FROM %n WHERE %n ISNULL",
	"DELETE FROM %n WHERE %n NOTNULL",
	"CREATE INDEX %n ON %n (a + %d)",
	"ALTER TABLE %n ALTER COLUMN %n TYPE INT",
	"TRUNCATE TABLE %n CASCADE",
}

// P14_MoreForms: none of them is taken for something else, alone or before,
// after or between other statements.
func P14_MoreForms() {
	text := fill(moreRefused[sym.Choose("form", len(moreRefused))])
	switch sym.Choose("at", 3) {
	case 1:
		text = "DELETE FROM t WHERE a = 1; " + text
	case 2:
		text += "; DELETE FROM t WHERE a = 1"
	}
	sts, err := sql.NewParser().ParseString(text)
	sym.Assert(err != nil, "an unsupported statement is an error")
	sym.Assert(len(sts) == 0, "an error comes without statements")
	sym.Cover("end")
}
