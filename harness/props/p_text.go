package props

import (
	"errors"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/parser"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif/harness/sym"
)

// --- P02: printed statements parse back to the same statement

func P02_Insert() {
	g := newGen(3, 2)
	roundTrip(genInsert(g, 1+sym.Choose("cols", 2), 1+sym.Choose("rows", 2), rotate(sym.Choose("kind", litKinds))))
}

func P02_Update() {
	g := newGen(2+sym.Tier(), 2)
	roundTrip(genUpdate(g, 1+sym.Choose("cols", 2), rotate(sym.Choose("kind", litKinds)), g.whereSmall))
}

func P02_UpdateArithmetic() {
	roundTrip(genUpdateArith(newGen(3, 2), sym.Choose("ao", len(arithOps))))
}

func P02_Delete() {
	g := newGen(2, 2)
	k := sym.Choose("w", 4)
	roundTrip(genDelete(g, func() where { return g.whereOf(k) }))
}

func P02_SelectList()  { roundTrip(genSelectList(newGen(3, 2))) }
func P02_SelectFrom()  { roundTrip(genSelectFrom(newGen(3, 2))) }
func P02_SelectWhere() { roundTrip(genSelectWhere(newGen(2, 2), 1+sym.Choose("w", 3))) }
func P02_SelectOrder() { roundTrip(genSelectOrder(newGen(3, 2))) }
func P02_SelectLimit() { roundTrip(genSelectLimit(newGen(1, 1), 3)) }
func P02_SelectAll()   { roundTrip(genSelectAll(newGen(1, 1))) }

func P02_CreateTable() {
	form := sym.Choose("form", ctForms)
	if sym.Tier() > 0 {
		roundTrip(genCreateTable(newGen(3, 2), 2, form, 3, sym.Choose("sized", 2) == 1))
		return
	}
	roundTrip(genCreateTable(newGen(1+form%3, 2), 2, form, 2, form == 0))
}

func P02_ColumnTypes() {
	roundTrip(genCreateTable(newGen(1, 1), 1, 0, len(sqlTypes), true))
}

func P02_AlterTable()  { roundTrip(genAlterTable(newGen(3, 1), sym.Choose("form", atForms))) }
func P02_CreateIndex() { roundTrip(genCreateIndex(newGen(3, 3))) }
func P02_DropIndex()   { roundTrip(genDropIndex(newGen(2, 3))) }
func P02_Other()       { roundTrip(genOther(newGen(3, 2), sym.Choose("form", dbForms))) }

// --- P10: string literals keep their content

// escaped doubles the quotes of s.
func escaped(s string) string {
	out := []byte{'\''}
	for i := 0; i < len(s); i++ {
		if s[i] == '\'' {
			out = append(out, '\'')
		}
		out = append(out, s[i])
	}
	return string(append(out, '\''))
}

func strLit(max int) lit {
	s := sym.Str("s", 0, max, "text")
	return lit{text: escaped(s), val: s, str: true}
}

func stringIn(place int, l lit) (string, checker) {
	switch place {
	case 0:
		return "INSERT INTO t (a, b) VALUES (1, " + l.text + ")", func(st query.Statement) {
			ins, ok := st.(query.Insert)
			sym.Assert(ok && len(ins.Values()) == 1 && len(ins.Values()[0]) == 2, "INSERT keeps its shape")
			c := ins.Values()[0][1]
			sym.Assert(l.is(c.Value(), c.ValueType()), "INSERT: string value is the text between the quotes")
		}
	case 1:
		return "UPDATE t SET a = " + l.text + ", b = 2", func(st query.Statement) {
			up, ok := st.(query.Update)
			sym.Assert(ok && len(up.Columns()) == 2, "UPDATE keeps its shape")
			sym.Assert(l.is(up.Columns()[0].Value(), up.Columns()[0].ValueType()), "UPDATE: string value is the text between the quotes")
		}
	case 2:
		return "DELETE FROM t WHERE a = " + l.text, func(st query.Statement) {
			d, ok := st.(query.Delete)
			sym.Assert(ok, "DELETE keeps its shape")
			(where{kind: 1, a: cmp{"a", 0, l}}).check(d.Where())
		}
	default:
		return "SELECT * FROM t WHERE a = 1 AND b = " + l.text, func(st query.Statement) {
			d, ok := st.(query.Select)
			sym.Assert(ok, "SELECT keeps its shape")
			(where{kind: 2, a: cmp{"a", 0, lit{text: "1", val: "1"}}, b: cmp{"b", 0, l}}).check(d.Where())
		}
	}
}

func P10_StringValues() { fidelity(stringIn(sym.Choose("place", 4), strLit(7))) }

func P10_PrintedStrings() { roundTrip(stringIn(sym.Choose("place", 4), strLit(5))) }

func P10_TwoStrings() {
	a, b := sym.Str("a", 0, 2, "text"), sym.Str("b", 0, 2, "text")
	c := func(st query.Statement) {
		ins, ok := st.(query.Insert)
		sym.Assert(ok && len(ins.Values()) == 1 && len(ins.Values()[0]) == 2, "INSERT keeps its shape")
		for i, s := range []string{a, b} {
			x := ins.Values()[0][i]
			sym.Assert(lit{val: s, str: true}.is(x.Value(), x.ValueType()), "INSERT: each string value is the text between its quotes")
		}
	}
	roundTrip("INSERT INTO t (a, b) VALUES ("+escaped(a)+", "+escaped(b)+")", c)
}

// --- P12: layout, keyword case, several statements

func anyStatement(g *gen, kind int) (string, checker) {
	switch kind {
	case 0:
		return genInsert(g, 2, 2, rotate(0))
	case 1:
		return genUpdate(g, 2, rotate(1), g.whereSmall)
	case 2:
		return genDelete(g, g.whereSmall)
	case 3:
		return genSelectAll(g)
	case 4:
		return genCreateTable(g, 2, sym.Choose("form", ctForms), 2, true)
	case 5:
		return genAlterTable(g, sym.Choose("form", atForms))
	case 6:
		return genCreateIndex(g)
	case 7:
		return genDropIndex(g)
	case 8:
		return genSelectList(g)
	default:
		return genOther(g, sym.Choose("form", dbForms))
	}
}

const stmtKinds = 10

func P12_KeywordCase() {
	g := newGen(1, 1)
	g.litLen = 1
	g.kase = 1 + sym.Choose("case", 4)
	fidelity(anyStatement(g, sym.Choose("kind", stmtKinds)))
}

func P12_Layout() {
	g := newGen(1, 1)
	g.litLen = 1
	g.sep = 1 + sym.Choose("sep", 4)
	fidelity(anyStatement(g, sym.Choose("kind", stmtKinds)))
}

// small statements for sequences.
func shortStatement(tag string, kind int) (string, checker) {
	n := sym.Ident(tag, 1, 2)
	switch kind {
	case 0:
		return "DELETE FROM " + n, func(st query.Statement) {
			d, ok := st.(query.Delete)
			sym.Assert(ok && d.TableName() == n && !d.HasConditions(), "statements in order: DELETE")
		}
	case 1:
		s := sym.Str(tag+"v", 0, 2, "text")
		return "INSERT INTO t (" + n + ") VALUES (" + escaped(s) + ")", func(st query.Statement) {
			d, ok := st.(query.Insert)
			sym.Assert(ok && len(d.Values()) == 1 && d.Values()[0][0].Name() == n, "statements in order: INSERT")
			sym.Assert(d.Values()[0][0].Value() == any(s), "statements in order: INSERT value")
		}
	case 2:
		return "BEGIN", func(st query.Statement) {
			sym.Assert(st.StatementType() == query.BeginStatement, "statements in order: BEGIN")
		}
	default:
		return "SELECT " + n + " FROM t", func(st query.Statement) {
			d, ok := st.(query.Select)
			sym.Assert(ok && len(d.Selectors()) == 1 && d.Selectors()[0].Name() == n, "statements in order: SELECT")
		}
	}
}

func P12_Sequence() {
	n := 1 + sym.Choose("n", 3)
	text := ""
	var cs []checker
	for i := 0; i < n; i++ {
		t, c := shortStatement("n"+itoa(i), sym.Choose("kind", 4))
		cs = append(cs, c)
		if i > 0 {
			text += "; "
		}
		text += t
	}
	switch sym.Choose("end", 3) {
	case 1:
		text += ";"
	case 2:
		text = " \n;" + text + " ;; "
	}
	sts, err := sql.NewParser().ParseString(text)
	sym.Assert(err == nil, "a sequence of supported statements parses without error")
	sym.Assert(len(sts) == n, "one statement is returned per statement")
	for i := range cs {
		cs[i](sts[i])
	}
	sym.Cover("end")
}

// --- P13: a parser keeps no history

var brokenTexts = []string{
	"SELECT FROM WHERE", "", ";", "SELEC", "INSERT INTO", "'", "SAVEPOINT x", "DELETE FROM t WHERE a IN (1)",
	"SELECT * FROM t; BOGUS", "CREATE TABLE t (", "SELECT a FROM t", "UPDATE t SET a = 1; DELETE FROM t",
}

func P13_Reuse() {
	p := sql.NewParser()
	for i := 0; i <= sym.Choose("before", 2); i++ {
		p.ParseString(brokenTexts[sym.Choose("first", len(brokenTexts))])
	}
	g := newGen(1, 1)
	g.litLen = 1
	text, c := anyStatement(g, []int{0, 2, 6, 7}[sym.Choose("kind", 4)])
	sts, err := p.ParseString(text)
	sym.Assert(err == nil, "a used parser parses a supported statement without error")
	sym.Assert(len(sts) == 1, "a used parser returns the statements of this text only")
	c(sts[0])
	sym.Cover("end")
}

func P13_ErrorAfterUse() {
	p := sql.NewParser()
	good := "SELECT " + sym.Ident("c", 1, 2) + " FROM t"
	_, err := p.ParseString(good)
	sym.Assert(err == nil, "a supported statement parses without error")
	bad := brokenTexts[sym.Choose("bad", 10)]
	sts, err := p.ParseString(bad)
	sym.Assert(err != nil, "a used parser still rejects what a fresh parser rejects")
	_, ferr := sql.NewParser().ParseString(bad)
	sym.Assert(ferr != nil, "a fresh parser rejects it")
	sym.Assert(errors.Is(err, parser.ErrEmptyQuery) == errors.Is(ferr, parser.ErrEmptyQuery), "a used parser rejects for the same reason")
	sym.Assert(len(sts) == 0, "nothing is returned with an error")
	sym.Cover("end")
}

// earlier results stay as they were when the parser is used again
func P13_EarlierResults() {
	p := sql.NewParser()
	g := newGen(1, 1)
	g.litLen = 1
	text, c := anyStatement(g, []int{0, 2, 6}[sym.Choose("kind", 3)])
	sts, err := p.ParseString(text)
	sym.Assert(err == nil && len(sts) == 1, "a supported statement parses without error")
	p.ParseString(brokenTexts[sym.Choose("then", len(brokenTexts))])
	c(sts[0])
	sym.Cover("end")
}
