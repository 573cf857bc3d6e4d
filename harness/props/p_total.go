package props

import (
	"errors"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif/harness/sym"
)

// --- P01: every text gets an answer

// answered parses a text and uses everything a result offers.
func answered(text string) {
	sts, err := sql.NewParser().ParseString(text)
	if err != nil {
		sym.Assert(len(sts) == 0, "an error comes without statements")
		sym.Assert(err.Error() != "", "an error says something")
		sym.Cover("error")
		return
	}
	sym.Assert(len(sts) > 0, "success comes with statements")
	for _, st := range sts {
		sym.Assert(st != nil, "no statement is nil")
		sym.Assert(st.StatementType().String() != "", "every statement has a type")
		sym.Assert(st.String() != "", "every statement prints")
		use(st)
	}
	sym.Cover("ok")
}

// seeds are token lists; %n stands for a symbolic name, %d for a number, %s for a string.
var seeds = [][]string{
	{"SELECT", "%n", ",", "COUNT", "(", "*", ")", "FROM", "%n", "WHERE", "%n", "=", "%d", "GROUP", "BY", "%n", "ORDER", "BY", "%n", "DESC", "LIMIT", "%d", "OFFSET", "%d"},
	{"INSERT", "INTO", "%n", "(", "%n", ",", "%n", ")", "VALUES", "(", "%d", ",", "%s", ")"},
	{"UPDATE", "%n", "SET", "%n", "=", "%n", "+", "%d", ",", "%n", "=", "%s", "WHERE", "%n", "<=", "%d"},
	{"DELETE", "FROM", "%n", "WHERE", "%n", "=", "%s", "AND", "%n", "<>", "%d"},
	{"CREATE", "TABLE", "IF", "NOT", "EXISTS", "%n", "(", "%n", "INT", "PRIMARY", "KEY", ",", "%n", "VARCHAR", "(", "%d", ")", ",", "KEY", "%n", "(", "%n", ")", ")"},
	{"ALTER", "TABLE", "%n", "ADD", "COLUMN", "%n", "INT"},
	{"ALTER", "TABLE", "%n", "RENAME", "COLUMN", "%n", "TO", "%n"},
	{"CREATE", "INDEX", "%n", "ON", "%n", "(", "%n", ",", "%n", ")"},
	{"DROP", "TABLE", "IF", "EXISTS", "%n", ",", "%n"},
	{"ALTER", "DATABASE", "%n", "RENAME", "TO", "%n"},
	{"COPY", "%n", "(", "%n", ")", "FROM", "%n", "WITH", "FORMAT", "CSV"},
	{"TRUNCATE", "TABLE", "%n", ",", "%n"},
}

var vocab = []string{
	"", "%n", "%d", "%s", "(", ")", ",", ";", ".", "*", "=", "<", "+", "-", "?", "NULL", "SELECT", "FROM", "WHERE", "AND", "IN", "LIKE",
	"NOT", "BETWEEN", "EXISTS", "AS", "JOIN", "UNION", "VALUES", "DEFAULT", "INDEX", "KEY", "PRIMARY", "UNIQUE", "CONSTRAINT",
	"TABLE", "DATABASE", "BEGIN", "ROLLBACK", "TO", "@", "||", "\"q\"", "`q`", "[q]", "-1", "1.5", "x'00'", "DISTINCT", "HAVING", "SET", "VIEW",
}

// tokens instantiates a token list.
func tokens(ts []string, plain bool) string {
	s := ""
	for i, t := range ts {
		if t == "" {
			continue
		}
		if i > 0 {
			s += " "
		}
		switch {
		case t == "%n" && plain:
			s += "n"
		case t == "%d" && plain:
			s += "1"
		case t == "%s" && plain:
			s += "'s'"
		case t == "%n":
			s += sym.Ident("n", 2, 2)
		case t == "%d":
			s += sym.Str("d", 1, 1, "digit")
		case t == "%s":
			s += "'" + sym.Str("s", 1, 1, "textnq") + "'"
		default:
			s += t
		}
	}
	return s
}

// one token of a statement replaced by any token of the vocabulary, or removed
func P01_OneTokenReplaced() {
	seed := seeds[sym.Choose("seed", len(seeds))]
	at := sym.Choose("at", len(seed))
	v := vocab[sym.Choose("tok", len(vocab))]
	ts := append([]string{}, seed...)
	ts[at] = v
	answered(tokens(ts, true))
}

// one token of the vocabulary inserted, names and literals symbolic
func P01_OneTokenInserted() {
	seed := seeds[sym.Choose("seed", len(seeds))]
	at := sym.Choose("at", len(seed)+1)
	ts := append([]string{}, seed[:at]...)
	ts = append(ts, vocab[sym.Choose("tok", len(vocab))])
	ts = append(ts, seed[at:]...)
	answered(tokens(ts, true))
}

// a statement cut off after any token, with symbolic names and literals
func P01_Truncated() {
	seed := seeds[sym.Choose("seed", len(seeds))]
	answered(tokens(seed[:sym.Choose("at", len(seed)+1)], false))
}

// any one character text, and any short text over characters the lexer tells apart
func P01_ShortText() {
	if sym.Choose("alphabet", 2) == 0 {
		answered(sym.Str("s", 0, 1, "text"))
		return
	}
	n := 3
	if sym.Tier() > 0 {
		n = 4
	}
	answered(sym.Str("s", 2, n, "[a1' ;-/*(\"]"))
}

// any short text after a statement prefix
func P01_ShortTail() {
	head := []string{"SELECT * FROM t WHERE a", "INSERT INTO t (a) VALUES (", "CREATE TABLE t (a", "DROP TABLE "}[sym.Choose("head", 4)]
	n := 2
	if sym.Tier() > 0 {
		n = 3
	}
	answered(head + sym.Str("s", 0, n, "[a1' ;-/*().,=]"))
}

// --- P14: statements that are not supported are refused, not half read

var unsupported = []string{
	"INSERT INTO %n SELECT * FROM %n",
	"INSERT INTO %n (%n) SELECT %n FROM %n",
	"INSERT INTO %n DEFAULT VALUES",
	"INSERT INTO %n VALUES (%d)",
	"INSERT INTO %n (%n, %n) VALUES (%d)",
	"INSERT INTO %n (%n) VALUES (%d, %d)",
	"INSERT INTO %n (%n) VALUES (%d), (%d, %s)",
	"INSERT INTO %n (%n, %n) VALUES (%d, %s), (%s)",

	"INSERT INTO %n (%n, %n) VALUES (%s, ABS(%n))",
	"INSERT INTO %n (%n) VALUES (%n)",
	"UPDATE %n SET (%n, %n) = (%d, %d)",
	"UPDATE %n SET %n = ABS(%n)",
	"UPDATE %n SET %n = %d, %n = %n",
	"UPDATE %n SET %n = (%d)",
	"UPDATE %n SET %n = %d WHERE %n IN (%d, %d)",
	"UPDATE %n SET %n = %d WHERE %n LIKE %s",
	"UPDATE %n SET %n = %d WHERE %n BETWEEN %d AND %d",
	"UPDATE %n SET %n = %d WHERE %n IS NULL",
	"UPDATE %n SET %n = %d WHERE NOT %n = %d",

	"UPDATE %n SET %n = %d WHERE %n",
	"DELETE FROM %n WHERE %n IN (%d)",
	"DELETE FROM %n WHERE %n NOT IN (%d)",
	"DELETE FROM %n WHERE %n LIKE %s",
	"DELETE FROM %n WHERE %n BETWEEN %d AND %d",
	"DELETE FROM %n WHERE %n IS NULL",
	"DELETE FROM %n WHERE %n IS NOT NULL",
	"DELETE FROM %n WHERE NOT %n = %d",

	"DELETE FROM %n WHERE %n",
	"DELETE FROM %n WHERE %d",

	"DELETE FROM %n WHERE EXISTS (SELECT * FROM %n)",
	"CREATE TABLE %n AS SELECT * FROM %n",
	"CREATE INDEX %n ON %n (ABS(%n))",
	"CREATE TABLE %n (%n INT, PRIMARY KEY (ABS(%n)))",
	"SAVEPOINT %n",
	"RELEASE %n",
	"ROLLBACK TO %n",
	"ROLLBACK TRANSACTION TO SAVEPOINT %n",
	"CREATE VIEW %n AS SELECT * FROM %n",
	"DROP VIEW %n",
	"EXPLAIN SELECT * FROM %n",
	"EXPLAIN DELETE FROM %n",
	"EXPLAIN QUERY PLAN DELETE FROM %n WHERE %n = %d",
	"PRAGMA %n",
	"ANALYZE %n",
	"REINDEX %n",
	"ATTACH %s AS %n",
	"DETACH %n",
	"DROP TRIGGER %n",
}

// words splits a template at spaces and keeps %x marks as tokens.
func fill(tpl string) string {
	s := ""
	for i := 0; i < len(tpl); i++ {
		if tpl[i] == '%' && i+1 < len(tpl) {
			s += tokens([]string{tpl[i : i+2]}, false)
			i++
			continue
		}
		s += string(tpl[i])
	}
	return s
}

func refused(text string) {
	sts, err := sql.NewParser().ParseString(text)
	sym.Assert(err != nil, "an unsupported statement is refused")
	sym.Assert(errors.Is(err, query.ErrNotSupported), "the refusal is identifiable as not supported")
	sym.Assert(len(sts) == 0, "a refusal comes without statements")
	sym.Cover("end")
}

func P14_Unsupported() { refused(fill(unsupported[sym.Choose("form", len(unsupported))])) }

// anywhere in a sequence: no statement of the sequence is returned
func P14_InSequence() {
	bad := fill(unsupported[sym.Choose("form", len(unsupported))])
	ok := "DELETE FROM " + sym.Ident("m", 2, 2) + " WHERE a = 1"
	switch sym.Choose("at", 3) {
	case 0:
		refused(bad + "; " + ok)
	case 1:
		refused(ok + "; " + bad)
	default:
		refused(ok + "; " + bad + "; " + ok)
	}
}

var malformed = []string{
	"DELETE FROM %n WHERE", "DELETE %n", "DELETE FROM %n WHERE %n = ", "DELETE FROM %n WHERE %n = %d AND", "UPDATE %n SET", "UPDATE %n SET %n =",
	"UPDATE %n SET %n = %d WHERE", "UPDATE %n WHERE %n = %d", "INSERT INTO %n (%n) VALUES", "INSERT INTO %n (%n) VALUES (", "INSERT INTO %n (%n VALUES (%d)",
	"DELETE FROM %n WHERE %n = %n", "CREATE TABLE %n", "CREATE TABLE %n ()", "DROP TABLE", "DROP %n",
	"TRUNCATE", "USE", "CREATE DATABASE", "ALTER TABLE %n", "ALTER TABLE %n ADD", "%n", "%d", "%s", "SELECT * FROM %n %n %n", "DELETE FROM %n; DELETE %n", "BOGUS %n; DELETE FROM %n",
	"SELECT * FROM %n WHERE %n = 'x", "INSERT INTO %n (%n) VALUES (%d + %d)", "DELETE FROM %n WHERE ABS(%n) = %d", "UPDATE %n SET %n = %d WHERE %n = %n", "DELETE FROM %n WHERE %d = %n", "DELETE FROM %n WHERE (%n = %d",
}

// syntax errors are errors, and come without statements
func P14_Malformed() {
	sts, err := sql.NewParser().ParseString(fill(malformed[sym.Choose("form", len(malformed))]))
	sym.Assert(err != nil, "a malformed statement is an error")
	sym.Assert(len(sts) == 0, "a syntax error comes without statements")
	sym.Cover("end")
}
