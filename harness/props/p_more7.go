package props

import (
	"verif/harness/sym"

	"github.com/cybergarage/go-sqlparser/sql/query"
)

// P05_Operands: the right operand of an arithmetic may be the same column,
// another column, a literal of any kind or an expression; it stays as written.
func genOperands() (string, checker) {
	op := sym.Choose("ao", len(arithOps))
	c := sym.Ident("c", 1, 2)
	d := sym.Ident("d", 1, 2)
	operands := []string{c, d, "t." + d, "'x'", "'it''s'", "''", "-1", "+2", "0", "1.5", "1e3", ".5", "NULL", "TRUE", "(1)", "(" + c + ")", "ABS(" + d + ")", "0x1F"}
	k := sym.Choose("operand", len(operands))
	left := c
	if sym.Choose("left", 2) == 1 {
		left = d
	}
	n := sym.Choose("at", 3)
	set := ""
	for i := 0; i < n; i++ {
		set += left + " = " + itoa(i) + ", "
	}
	set += c + " = " + left + " " + arithOps[op] + " " + operands[k]
	if sym.Choose("more", 2) == 1 {
		set += ", z = 9"
	}
	return "UPDATE t SET " + set, func(st query.Statement) {
		up, ok := st.(query.Update)
		sym.Assert(ok, "UPDATE implements Update")
		cs := up.Columns()
		sym.Assert(len(cs) > n, "UPDATE: one column per assignment")
		sym.Assert(cs[n].Name() == c, "UPDATE: the assigned column")
		f, ok := cs[n].Function()
		sym.Assert(ok && cs[n].IsFunction(), "UPDATE: arithmetic is a function column")
		sym.Assert(f.Name() == arithOps[op], "UPDATE: the arithmetic operator is the one written")
		args := cs[n].Arguments()
		sym.Assert(len(args) == 2, "UPDATE: two operands")
		sym.Assert(args[0].Name() == left, "UPDATE: left operand is the column written")
		sym.Assert(args[1].Name() == operands[k], "UPDATE: right operand is the one written")
	}
}

var callNames = []string{
	"ABS", "CEIL", "FLOOR", "ROUND", "SQRT", "LOG", "LOG10", "EXP", "POWER", "MOD", "SIN", "COS", "TAN", "RAND", "PI",
	"UPPER", "LOWER", "TRIM", "NOW", "MAX", "MIN", "SUM", "AVG", "COUNT", "ZZ",
}

// P03_Calls: every function name with every kind and number of arguments.
func genCalls() (string, checker) {
	name := callNames[sym.Choose("fn", len(callNames))]
	written := name
	switch sym.Choose("case", 3) {
	case 1:
		written = lower(name)
	case 2:
		written = name[:1] + lower(name[1:])
	}
	a := sym.Ident("a", 1, 2)
	lists := [][]string{{}, {"*"}, {a}, {"'x y'"}, {"-1"}, {"NULL"}, {a, a}, {a, "b"}, {a, "2", "'it''s'"}, {"1", "1", a, "1"}, {"t." + a}}
	args := lists[sym.Choose("args", len(lists))]
	s := sel{text: written + "(", name: name, fun: true, args: args}
	for i, x := range args {
		if i > 0 {
			s.text += ", "
		}
		s.text += x
	}
	s.text += ")"
	before := sym.Choose("before", 2)
	text := "SELECT "
	if before == 1 {
		text += "b, "
	}
	text += s.text + ", c FROM t"
	return text, func(st query.Statement) {
		se, ok := st.(query.Select)
		sym.Assert(ok, "SELECT implements Select")
		vs := se.Selectors()
		sym.Assert(len(vs) == before+2, "SELECT: one selector per selector written")
		s.check(vs[before])
		sym.Assert(vs[before+1].Name() == "c" && !vs[before+1].IsFunction(), "SELECT: the selector after a function")
	}
}

// P07_Constraints: a PRIMARY KEY among other constraints of a column, at
// several columns and in several definitions.
func genConstraints() (string, checker) {
	n := sym.Ident("n", 1, 2)
	m := sym.Ident("m", 1, 2)
	sym.Assume(n != m)
	pk := [][]string{{n}}
	body := ""
	switch sym.Choose("form", 12) {
	case 0:
		body = n + " INT NOT NULL PRIMARY KEY, " + m + " TEXT"
	case 1:
		body = n + " INT PRIMARY KEY NOT NULL, " + m + " TEXT NOT NULL"
	case 2:
		body = n + " INT UNIQUE NOT NULL PRIMARY KEY, " + m + " TEXT UNIQUE"
	case 3:
		body = n + " INT DEFAULT 1 PRIMARY KEY, " + m + " TEXT DEFAULT 'x'"
	case 4:
		body = n + " INT PRIMARY KEY ASC, " + m + " TEXT"
	case 5:
		body = n + " INT PRIMARY KEY AUTOINCREMENT, " + m + " TEXT"
	case 6:
		body = n + " INT CONSTRAINT x PRIMARY KEY, " + m + " TEXT"
	case 7:
		body = n + " INT, " + m + " TEXT, CONSTRAINT x PRIMARY KEY (" + n + ")"
	case 8:
		body = n + " INT NOT NULL, " + m + " TEXT NOT NULL"
		pk = nil
	case 9:
		body = n + " INT PRIMARY KEY, " + m + " TEXT PRIMARY KEY"
		pk = [][]string{{n}, {m}}
	case 10:
		body = n + " INT, " + m + " TEXT, PRIMARY KEY (" + n + "), PRIMARY KEY (" + m + ", " + n + ")"
		pk = [][]string{{n}, {m, n}}
	default:
		body = n + " INT PRIMARY KEY, " + m + " TEXT, PRIMARY KEY (" + n + " ASC, " + m + " DESC)"
		pk = [][]string{{n}, {n, m}}
	}
	return "CREATE TABLE t (" + body + ")", func(st query.Statement) {
		ct, ok := st.(query.CreateTable)
		sym.Assert(ok, "CREATE TABLE implements CreateTable")
		cs := ct.Schema().Columns()
		sym.Assert(len(cs) == 2, "CREATE TABLE: one column per definition")
		sym.Assert(cs[0].Name() == n && cs[1].Name() == m, "CREATE TABLE: columns in order")
		sym.Assert(cs[0].DataType() == query.IntType && cs[1].DataType() == query.TextType, "CREATE TABLE: types as written")
		is := ct.Schema().Indexes()
		sym.Assert(len(is) == len(pk), "CREATE TABLE: one index per PRIMARY KEY")
		for i := range pk {
			idx{primary: true, cols: pk[i]}.check(is[i])
		}
	}
}

// P08_AddConstraints: a column added with constraints is the only change.
func genAddConstraints() (string, checker) {
	n := sym.Ident("n", 1, 2)
	cons := []string{"", " NOT NULL", " UNIQUE", " DEFAULT 1", " PRIMARY KEY", " NOT NULL PRIMARY KEY", " DEFAULT 'x' NOT NULL"}[sym.Choose("cons", 7)]
	return "ALTER TABLE t ADD COLUMN " + n + " INT" + cons, func(st query.Statement) {
		a, ok := st.(query.AlterTable)
		sym.Assert(ok, "ALTER TABLE implements AlterTable")
		c, ok := a.AddColumn()
		sym.Assert(ok && c.Name() == n && c.DataType() == query.IntType, "ALTER TABLE: the column added")
		_, r := a.RenameTo()
		_, dc := a.DropColumn()
		_, _, rc := a.RenameColumns()
		_, ai := a.AddIndex()
		_, di := a.DropIndex()
		sym.Assert(!r && !dc && !rc && !ai && !di, "ALTER TABLE: no other change than the one written")
	}
}

func P05_Operands()       { fidelity(genOperands()) }
func P03_Calls()          { fidelity(genCalls()) }
func P07_Constraints()    { fidelity(genConstraints()) }
func P08_AddConstraints() { fidelity(genAddConstraints()) }
func P02_Operands()       { roundTrip(genOperands()) }
func P02_Calls()          { roundTrip(genCalls()) }
func P02_Constraints() {
	if sym.Choose("alter", 2) == 1 {
		roundTrip(genAddConstraints())
		return
	}
	roundTrip(genConstraints())
}
