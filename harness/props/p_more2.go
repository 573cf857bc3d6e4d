package props

import (
	"time"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/stmt"
	"verif/harness/sym"
)

// ---- P11

// marks in every kind of quoted name and comment, and placeholders behind them
func P11_AfterQuotes() {
	p, q := param("p", sym.Choose("pk", 3), 1), param("q", 0, 1)
	m := []string{"?", "$1", "$2", "a?b", "?1"}[sym.Choose("mark", 5)]
	two := func(text string) { rowIs(bound1(text, p, q), p.want, q.want) }
	switch sym.Choose("form", 10) {
	case 0:
		two("INSERT INTO t (a, b) -- " + m + "\nVALUES (?, ?)")
	case 1:
		two("INSERT INTO t (a, b) VALUES ($1, -- " + m + " '\n$2)")
	case 2:
		two("INSERT INTO t (a, b) -- " + m + "\r\nVALUES (?, ?) -- " + m)
	case 3:
		two("INSERT INTO t (a, b) VALUES (?, /* " + m + " */ ?)")
	case 4:
		two("INSERT INTO t (a, b) VALUES (?/*" + m + "\n" + m + "*/,?)/* " + m + " */")
	case 5:
		two("INSERT INTO t (a, b) VALUES (/**/?/***/,/*/*/?/* */)")
	case 6:
		two("-- it's " + m + "\n-- " + m + "\n\nINSERT INTO t (a, b) VALUES (?,--\n?)")
	case 7:
		two("/* \" ' ` [ -- */ INSERT INTO t (a, b) VALUES (?, ?)")
	case 8:
		two("-- \" ' ` [ /*\nINSERT INTO t (a, b) VALUES ($1, $2)")
	default:
		quoted := []string{"`" + m + "`", "[" + m + "]", "\"" + m + "\"", "[" + m + "'\"`]", "`" + m + "[`"}[sym.Choose("quote", 5)]
		st := bound1("UPDATE t SET "+quoted+" = ?, b = ? WHERE c = 1", p, q)
		u, ok := st.(query.Update)
		sym.Assert(ok && len(u.Columns()) == 2, "binding keeps the statement")
		sym.Assert(p.want.is(u.Columns()[0].Value(), u.Columns()[0].ValueType()) && q.want.is(u.Columns()[1].Value(), u.Columns()[1].ValueType()), "each placeholder has the value of its own parameter")
		in := u.Columns()[0].Name()
		for i := 0; i+len(m) <= len(in); i++ {
			if in[i:i+len(m)] == m {
				sym.Cover("end")
				return
			}
		}
		sym.Fail("a mark inside a quoted name is not a placeholder")
	}
}

// hundreds of parameters
func P11_Hundreds() {
	n := 130
	form := sym.Choose("form", 3)
	at := []int{9, 98, 99, 100, 109, 128, 129}[sym.Choose("at", 7)]
	cols, q, ps := "", "", []par{}
	for i := 0; i < n; i++ {
		p := par{"p" + itoa(i), lit{val: "p" + itoa(i), str: true}}
		if i == at {
			p = param("p", 0, 1)
		}
		ps = append(ps, p)
		if i > 0 {
			cols += ", "
			q += ", "
		}
		cols += "c" + itoa(i)
		q += []string{"?", "$" + itoa(i+1), "$" + itoa(n-i)}[form]
	}
	ins, ok := bound1("INSERT INTO t ("+cols+") VALUES ("+q+")", ps...).(query.Insert)
	sym.Assert(ok && len(ins.Values()) == 1 && len(ins.Values()[0]) == n, "binding keeps the number of values")
	for i, c := range ins.Values()[0] {
		j := i
		if form == 2 {
			j = n - 1 - i
		}
		sym.Assert(ps[j].want.is(c.Value(), c.ValueType()), "each placeholder has the value of its own parameter")
	}
	sym.Cover("end")
}

// times
func P11_Times() {
	times := []struct {
		ns   int
		want string
	}{
		{0, "2024-02-29 23:59:58"}, {123456000, "2024-02-29 23:59:58.123456"}, {1000, "2024-02-29 23:59:58.000001"}, {999000, "2024-02-29 23:59:58.000999"},
		{500000000, "2024-02-29 23:59:58.500000"}, {999999000, "2024-02-29 23:59:58.999999"}, {1000000, "2024-02-29 23:59:58.001000"}, {90000, "2024-02-29 23:59:58.000090"},
	}
	k := times[sym.Choose("time", len(times))]
	p := par{time.Date(2024, 2, 29, 23, 59, 58, k.ns, time.UTC), lit{val: k.want, str: true}}
	q := param("q", sym.Choose("qk", parKinds), 1)
	if sym.Choose("form", 2) == 0 {
		rowIs(bound1("INSERT INTO t (a, b) VALUES (?, ?)", p, q), p.want, q.want)
		return
	}
	rowIs(bound1("INSERT INTO t (a, b) VALUES ($2, $1)", q, p), p.want, q.want)
}

// a sign in front of a placeholder belongs to the query
func P11_Signs() {
	n := sym.IntRange("n", 1, 9)
	p := par{-n, lit{val: "-" + dec(n)}}
	q := param("q", 0, 1)
	switch sym.Choose("form", 3) {
	case 0:
		st := bound1("UPDATE t SET a = a -?, b = ?", p, q)
		u, ok := st.(query.Update)
		sym.Assert(ok && len(u.Columns()) == 2, "binding keeps the statement")
		sym.Assert(q.want.is(u.Columns()[1].Value(), u.Columns()[1].ValueType()), "each placeholder has the value of its own parameter")
	case 1:
		st := bound1("UPDATE t SET a = b-$1 WHERE c = $2", p, q)
		u, ok := st.(query.Update)
		sym.Assert(ok && len(u.Columns()) == 1, "binding keeps the statement")
		(where{kind: 1, a: cmp{"c", 0, q.want}}).check(u.Where())
	default:
		st := bound1("UPDATE t SET a = a + ?, b = ?", p, q)
		u, ok := st.(query.Update)
		sym.Assert(ok && len(u.Columns()) == 2, "binding keeps the statement")
		sym.Assert(q.want.is(u.Columns()[1].Value(), u.Columns()[1].ValueType()), "each placeholder has the value of its own parameter")
	}
	sym.Cover("end")
}

// many statements, the same parameter in several of them, parameters of the same text
func P11_Statements() {
	p, q := param("p", sym.Choose("pk", parKinds), 1), param("q", sym.Choose("qk", parKinds), 1)
	n := []int{2, 4, 9, 17}[sym.Choose("n", 4)]
	text := ""
	form := sym.Choose("form", 3)
	var ps []par
	for i := 0; i < n; i++ {
		switch form {
		case 0:
			text += "INSERT INTO t (a, b) VALUES (?, ?);"
			ps = append(ps, p, q)
		case 1:
			text += "INSERT INTO t (a, b) VALUES ($1, $2);\n"
			ps = []par{p, q}
		default:
			text += "INSERT INTO t (a, b) VALUES ('?', $1), ('$1', $2);"
			ps = []par{p, q}
		}
	}
	sts, err := bind(text, ps...)
	sym.Assert(err == nil && len(sts) == n, "parameters are bound across statements")
	for _, st := range sts {
		if form != 2 {
			rowIs(st, p.want, q.want)
			continue
		}
		vs := st.(query.Insert).Values()
		sym.Assert(len(vs) == 2, "binding keeps the rows")
		sym.Assert((lit{val: "?", str: true}).is(vs[0][0].Value(), vs[0][0].ValueType()) && p.want.is(vs[0][1].Value(), vs[0][1].ValueType()), "each placeholder has the value of its own parameter")
		sym.Assert((lit{val: "$1", str: true}).is(vs[1][0].Value(), vs[1][0].ValueType()) && q.want.is(vs[1][1].Value(), vs[1][1].ValueType()), "each placeholder has the value of its own parameter")
	}
	sym.Cover("end")
}

// parameters beyond the placeholders, of every number
func P11_UnusedMany() {
	n := 1 + sym.Choose("n", 12)
	missing := sym.Choose("missing", n)
	form := sym.Choose("form", 2)
	cols, vals := "z", "0"
	params := stmt.BindParams{}
	for i := 0; i < n; i++ {
		params = append(params, stmt.NewBindParam("p"+itoa(i)))
		if i == missing {
			continue
		}
		cols += ", c" + itoa(i)
		if form == 0 {
			vals += ", ?"
		} else {
			vals += ", $" + itoa(i+1)
		}
	}
	sts, err := stmt.NewBindStatement(stmt.WithBindStatementQuery("INSERT INTO t ("+cols+") VALUES ("+vals+")"), stmt.WithBindStatementParams(params)).Statements()
	sym.Assert(err != nil && len(sts) == 0, "a parameter without a placeholder is an error")
	sym.Cover("end")
}

// ---- P12

var plainStatements = []struct {
	text string
	typ  query.StatementType
}{
	{"BEGIN", query.BeginStatement}, {"BEGIN TRANSACTION", query.BeginStatement},
	{"COMMIT", query.CommitStatement}, {"ROLLBACK", query.RollbackStatement},
	{"VACUUM", query.VacuumStatement}, {"VACUUM t", query.VacuumStatement}, {"DROP TABLE t", query.DropTableStatement}, {"DROP DATABASE t", query.DropDatabaseStatement},
	{"CREATE DATABASE t", query.CreateDatabaseStatement}, {"USE t", query.UseStatement}, {"TRUNCATE TABLE t", query.TruncateStatement}, {"DELETE FROM t", query.DeleteStatement},
	{"SELECT * FROM t", query.SelectStatement}, {"INSERT INTO t (a) VALUES (1)", query.InsertStatement}, {"UPDATE t SET a = 1", query.UpdateStatement},
	{"CREATE TABLE t (a INT)", query.CreateTableStatement}, {"CREATE INDEX i ON t (a)", query.CreateIndexStatement}, {"DROP INDEX i", query.DropIndexStatement},
	{"ALTER TABLE t RENAME TO u", query.AlterTableStatement}, {"COPY t FROM STDIN", query.CopyStatement},
}

// two statements of any kinds, equal ones included, between others
func P12_Pairs() {
	a, b := plainStatements[sym.Choose("a", len(plainStatements))], plainStatements[sym.Choose("b", len(plainStatements))]
	sep := []string{";", "; ", ";;", ";\n"}[sym.Choose("sep", 4)]
	text := a.text + sep + b.text
	want := []query.StatementType{a.typ, b.typ}
	if sym.Choose("more", 2) == 1 {
		text = b.text + ";" + text + ";" + b.text + "; " + a.text + ";"
		want = []query.StatementType{b.typ, a.typ, b.typ, b.typ, a.typ}
	}
	sts, err := sql.NewParser().ParseString(text)
	sym.Assert(err == nil, "a sequence of supported statements parses without error")
	sym.Assert(len(sts) == len(want), "one statement is returned per statement")
	for i, w := range want {
		sym.Assert(sts[i].StatementType() == w, "the statements are returned in order")
	}
	sym.Cover("end")
}

// long texts: long strings, long spaces, long comments
func P12_LongText() {
	n := []int{255, 4096, 65530, 70000}[sym.Choose("n", 4)]
	pad := make([]byte, n)
	for i := range pad {
		pad[i] = ' '
	}
	x := sym.Str("x", 0, 2, "textnq")
	space := string(pad)
	text, want := "", x
	switch sym.Choose("form", 5) {
	case 0:
		text = "INSERT INTO t (a)" + space + "VALUES ('" + x + "'); COMMIT"
	case 1:
		text = "/*" + space + "*/INSERT INTO t (a) VALUES ('" + x + "'); COMMIT"
	case 2:
		text = "INSERT INTO t (a) --" + space + "\nVALUES ('" + x + "'); COMMIT"
	case 3:
		text, want = "INSERT INTO t (a) VALUES ('"+x+space+"'); COMMIT", x+space
	default:
		text = "INSERT INTO t (a) VALUES ('" + x + "');" + space + "COMMIT;" + space
	}
	sts, err := sql.NewParser().ParseString(text)
	sym.Assert(err == nil && len(sts) == 2, "one statement is returned per statement")
	ins, ok := sts[0].(query.Insert)
	sym.Assert(ok && len(ins.Values()) == 1 && ins.Values()[0][0].Value() == any(want), "layout does not change what a statement means")
	sym.Assert(sts[1].StatementType() == query.CommitStatement, "the statements are returned in order")
	sym.Cover("end")
}

// ---- P14

// anywhere in a longer sequence
func P14_LongSequence() {
	bad := fill(unsupported[sym.Choose("form", len(unsupported))])
	n := []int{3, 4, 5, 9, 17}[sym.Choose("n", 5)]
	at := []int{1, 2, n / 2, n - 1}[sym.Choose("at", 4)]
	text := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			text += "; "
		}
		if i == at {
			text += bad
			continue
		}
		text += []string{"DELETE FROM t WHERE a = 1", "COMMIT", "INSERT INTO t (a) VALUES (1)", "SELECT * FROM t"}[i%4]
	}
	refused(text)
}

var unsupportedParts = []string{
	"UPDATE t SET a = 1, (b, c) = (1, 2)",
	"UPDATE t SET a = 1, b = 2, (c, d) = (1, 2)",
	"UPDATE t SET (b, c) = (1, 2), a = 1",
	"UPDATE t SET a = 1, b = ABS(c)",
	"UPDATE t SET a = 1, b = c, d = 2",
	"UPDATE t SET a = 1, b = (2), c = 3",
	"INSERT INTO t (a, b) VALUES (1, 2), (1, 2), (1)",
	"INSERT INTO t (a, b) VALUES (1, 2), (1, 2), (1, 2, 3)",
	"INSERT INTO t (a, b) VALUES (1, 2, 3), (1, 2)",
	"INSERT INTO t (a, b) VALUES (1), (1, 2)",
	"INSERT INTO t (a, b, c) VALUES (1, 2)",
	"INSERT INTO t (a, b, c, d) VALUES (1, 2, 3)",
	"INSERT INTO t (a, b, c) VALUES (1, 2, 3, 4)",
	"INSERT INTO t (a, b) VALUES (1, b)",
	"INSERT INTO t (a, b) VALUES (ABS(1), 2)",
	"INSERT INTO t (a, b) VALUES (1, 2), (3, b)",
	"INSERT INTO t (a, b) VALUES (1, 2), (ABS(3), 4)",
	"CREATE INDEX i ON t (a, ABS(b))",
	"CREATE INDEX i ON t (ABS(a), b)",
	"CREATE TABLE t (a INT, b INT, PRIMARY KEY (a, ABS(b)))",
	"CREATE TABLE t (a INT, b INT, PRIMARY KEY (ABS(a), b))",
}

func P14_Parts() {
	text := unsupportedParts[sym.Choose("form", len(unsupportedParts))]
	if sym.Choose("where", 2) == 1 && text[0] == 'U' {
		text += " WHERE " + sym.Ident("w", 1, 2) + " = 1"
	}
	refused(text)
}

// ---- P01

func P01_Forms() {
	switch sym.Choose("list", 3) {
	case 0:
		answered(fill(unsupported[sym.Choose("form", len(unsupported))]))
	case 1:
		answered(fill(malformed[sym.Choose("form", len(malformed))]))
	default:
		answered(unsupportedParts[sym.Choose("form", len(unsupportedParts))])
	}
}

var moreForms = []string{
	"CREATE TABLE t (a INT, PRIMARY KEY (a + 1))", "CREATE TABLE t (a INT, PRIMARY KEY (1))", "CREATE TABLE t (a INT, PRIMARY KEY ('a'))", "CREATE TABLE t (a INT, PRIMARY KEY (a COLLATE b DESC))",
	"CREATE TABLE t (a INT, UNIQUE (a + 1))", "CREATE TABLE t (a INT, CHECK (a > 1))", "CREATE TABLE t (a INT, FOREIGN KEY (a) REFERENCES u (b))", "CREATE TABLE t (a)", "CREATE TABLE t (a INT DEFAULT 1 NOT NULL UNIQUE)",
	"CREATE TABLE t (a INT CHECK (a > 0), b TEXT COLLATE c)", "CREATE TABLE t (a INT REFERENCES u (b))", "CREATE TABLE t (a INT GENERATED ALWAYS AS (1))", "CREATE TABLE t (a DECIMAL(1, 2))", "CREATE TABLE t (a INT) WITHOUT ROWID",
	"CREATE TEMP TABLE t (a INT)", "CREATE TABLE s.t (a INT)", "CREATE UNIQUE INDEX i ON t (a DESC) WHERE a > 1", "CREATE INDEX s.i ON t (a)", "CREATE INDEX i ON t (1)", "CREATE INDEX i ON t ('a')",
	"SELECT 1", "SELECT", "SELECT *", "VACUUM", "BEGIN", "COMMIT", "ROLLBACK", "TRUNCATE TABLE a", "USE d", "DROP DATABASE d", "CREATE DATABASE d", "DROP INDEX i", "SELECT NULL", "SELECT 'a'", "SELECT a.b FROM a", "SELECT a.* FROM a", "SELECT a.b.c FROM a.b", "SELECT (1)", "SELECT -a FROM t", "SELECT NOT a FROM t", "SELECT a AND b FROM t",
	"SELECT CASE WHEN a THEN 1 END FROM t", "SELECT CAST(a AS INT) FROM t", "SELECT EXISTS (SELECT 1)", "SELECT a IN (1) FROM t", "SELECT a IS NULL FROM t", "SELECT COUNT(*) FROM t", "SELECT COUNT(DISTINCT a) FROM t", "SELECT NOW()",
	"SELECT SUM(a) OVER (PARTITION BY b) FROM t", "SELECT f(a, b, 1) FROM t", "SELECT f(g(a)) FROM t", "SELECT * FROM (SELECT * FROM t)", "SELECT * FROM t, u", "SELECT * FROM t JOIN u ON t.a = u.a", "SELECT * FROM t AS x", "SELECT * FROM f(1)",
	"SELECT * FROM t WHERE a", "SELECT * FROM t WHERE 1", "SELECT * FROM t WHERE 'a'", "SELECT * FROM t WHERE a = b", "SELECT * FROM t WHERE (a = 1)", "SELECT * FROM t WHERE a = 1 AND b = 2 AND c = 3", "SELECT * FROM t WHERE a = (SELECT 1)", "SELECT * FROM t WHERE NULL",
	"SELECT * FROM t GROUP BY 1", "SELECT * FROM t GROUP BY a + 1", "SELECT * FROM t GROUP BY f(a)", "SELECT * FROM t GROUP BY a, b HAVING a > 1", "SELECT * FROM t ORDER BY 1", "SELECT * FROM t ORDER BY a + 1", "SELECT * FROM t ORDER BY f(a) DESC", "SELECT * FROM t ORDER BY a COLLATE b",
	"SELECT * FROM t LIMIT 1 OFFSET 2", "SELECT * FROM t LIMIT 1, 2", "SELECT * FROM t LIMIT a", "SELECT * FROM t LIMIT 1 + 1", "SELECT * FROM t LIMIT 'a'", "SELECT * FROM t LIMIT NULL OFFSET NULL", "SELECT * FROM t LIMIT -1 OFFSET -1", "SELECT * FROM t LIMIT 99999999999999999999",
	"SELECT 1 UNION SELECT 2", "SELECT * FROM t UNION ALL SELECT * FROM u ORDER BY a LIMIT 1", "VALUES (1, 2)", "VALUES (1), (2)", "WITH a AS (SELECT 1) SELECT * FROM a", "WITH a AS (SELECT 1) DELETE FROM t", "WITH a AS (SELECT 1) UPDATE t SET a = 1", "WITH a AS (SELECT 1) INSERT INTO t (a) VALUES (1)",
	"UPDATE t SET a = NULL", "UPDATE t SET a = -1", "UPDATE t SET a = a + 1", "UPDATE t SET a = 1 + a", "UPDATE t SET a = a || 'b'", "UPDATE t SET a = a + b", "UPDATE t SET a = 1 + 1", "UPDATE t SET a = -a", "UPDATE t SET a = NOT a", "UPDATE t SET a = (SELECT 1)", "UPDATE t SET a = ?", "UPDATE t SET a = $1", "UPDATE t SET a = :a", "UPDATE t SET a = f()", "UPDATE OR IGNORE t SET a = 1", "UPDATE t SET a = 1 FROM u",
	"DELETE FROM t WHERE a = NULL", "DELETE FROM t WHERE a = -1", "DELETE FROM t WHERE a = ?", "DELETE FROM t AS x WHERE x.a = 1", "DELETE FROM s.t WHERE t.a = 1", "DELETE FROM t WHERE s.t.a = 1", "DELETE FROM t RETURNING a", "DELETE FROM t ORDER BY a LIMIT 1",
	"INSERT OR REPLACE INTO t (a) VALUES (1)", "REPLACE INTO t (a) VALUES (1)", "INSERT INTO t (a) VALUES (1) ON CONFLICT DO NOTHING", "INSERT INTO t (a) VALUES (NULL)", "INSERT INTO t (a) VALUES (x'00')", "INSERT INTO t (a) VALUES (CURRENT_TIMESTAMP)", "INSERT INTO t (a) VALUES (TRUE)", "INSERT INTO t (a) VALUES (1e5)", "INSERT INTO t (a) VALUES (0x1F)", "INSERT INTO t (a) VALUES (.5)", "INSERT INTO t (a) VALUES (5.)", "INSERT INTO t (a) VALUES (\"a\")", "INSERT INTO t (a) VALUES (?)", "INSERT INTO t (a) VALUES (-9223372036854775809)", "INSERT INTO s.t AS x (a) VALUES (1)",
	"ALTER TABLE t RENAME a TO b", "ALTER TABLE t RENAME COLUMN a TO b", "ALTER TABLE t ADD a INT", "ALTER TABLE t ADD COLUMN a INT PRIMARY KEY", "ALTER TABLE t ADD COLUMN a", "ALTER TABLE t DROP a", "ALTER TABLE t DROP COLUMN a", "ALTER TABLE t ADD INDEX i (a)", "ALTER TABLE t ADD PRIMARY KEY (a)", "ALTER TABLE t ADD PRIMARY KEY (a + 1)", "ALTER TABLE t DROP INDEX i", "ALTER TABLE t DROP PRIMARY KEY", "ALTER TABLE s.t RENAME TO u", "ALTER DATABASE d RENAME TO e",
	"DROP TABLE IF EXISTS s.t", "DROP TABLE a, b", "DROP INDEX s.i", "DROP INDEX i ON t", "DROP DATABASE IF EXISTS d", "CREATE DATABASE IF NOT EXISTS d", "CREATE SCHEMA d", "TRUNCATE t", "TRUNCATE TABLE a, b", "VACUUM t INTO 'f'", "VACUUM FULL t", "VACUUM INTO 'f'", "USE s.t", "USE 'a'",
	"COPY t (a, b) FROM STDIN", "COPY t TO STDOUT", "COPY t FROM 'f' WITH (FORMAT csv)", "COPY s.t FROM f", "COMMIT TRANSACTION", "END", "END TRANSACTION", "ROLLBACK TRANSACTION", "BEGIN DEFERRED", "BEGIN IMMEDIATE TRANSACTION", "START TRANSACTION READ ONLY", "PRAGMA a = 1", "CREATE TRIGGER r AFTER INSERT ON t BEGIN SELECT 1; END", "CREATE VIRTUAL TABLE t USING f",
	"SHOW TABLES", "SET a = 1", "GRANT ALL ON t TO u", "CALL f()", "\ufeffSELECT 1", "SELECT \u00e9 FROM t", "SELECT '\u00e9' FROM t", "SELECT * FROM `a``b`", "SELECT * FROM \"a\"\"b\"", "SELECT * FROM [a]", "SELECT * FROM ``", "INSERT INTO `` (``) VALUES ('')", "SELECT '", "SELECT \"", "SELECT `", "SELECT [", "/*", "--", "/* */", "-- a", ";", " ", "\x00", "()", "''", "1", "?", "$1",
}

// a wide list of forms of the grammar, supported or not: alone, after and before another statement, with another layout
func P01_Grammar() {
	f := moreForms[sym.Choose("form", len(moreForms))]
	switch sym.Choose("around", 4) {
	case 0:
	case 1:
		f = "COMMIT; " + f
	case 2:
		f += "; COMMIT"
	default:
		f = " " + f + "\n;\n"
	}
	answered(f)
}
