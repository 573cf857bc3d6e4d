package props

import (
	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif/harness/sym"
)

// Statements with long lists, long or quoted names, large numbers and all
// kinds of literals. Lists are concrete except for one name and one literal,
// whose places vary.

func noWhere() where { return where{} }

// --- SELECT

func genSelectWide(g *gen, what, n int) (string, checker) {
	s := &selStmt{sels: []sel{{text: "*", name: "*"}}, tables: []tab{{"t", "t"}}}
	switch what {
	case 0:
		s.sels = nil
		for i := 0; i < n; i++ {
			s.sels = append(s.sels, g.sel(itoa(i), []int{0, 1, 3, 4, 0, 5, 7}[i%7]))
		}
	case 1:
		s.tables = nil
		for i := 0; i < n; i++ {
			s.tables = append(s.tables, g.tab("t"+itoa(i), i%3 == 1))
		}
	case 2:
		for i := 0; i < n; i++ {
			s.orders = append(s.orders, order{g.raw("o" + itoa(i)), i % 3})
		}
	default:
		f := sel{name: "COALESCE", fun: true}
		f.text = g.fun(f.name) + "("
		for i := 0; i < n; i++ {
			if i > 0 {
				f.text += "," + g.sp()
			}
			a := g.raw("a" + itoa(i))
			f.text += a
			f.args = append(f.args, a)
		}
		f.text += ")"
		s.sels = []sel{f}
	}
	return s.text(g), s.check
}

// genSelectNames: every clause that holds names, with long names.
func genSelectNames(g *gen) (string, checker) {
	s := &selStmt{}
	s.sels = []sel{g.sel("0", 0), g.sel("1", 1), g.sel("2", 4)}
	s.tables = []tab{g.tab("t", g.min == 0 || sym.Choose("qual", 2) == 1)}
	s.where = where{kind: 2, a: g.cmp("a", 3, litInt), b: g.cmp("b", 1, litStr)}
	s.group = g.raw("gb")
	s.orders = []order{{g.raw("ob"), 2}, {g.raw("oc"), 0}}
	return s.text(g), s.check
}

func genSelectQuoted(g *gen) (string, checker) {
	s := &selStmt{sels: []sel{{text: "*", name: "*"}}}
	s.tables = []tab{g.tab("t", sym.Choose("qual", 2) == 1), g.tab("u", false)}
	s.where = where{kind: 2 + sym.Choose("or", 2), a: g.cmp("a", 3, litInt), b: g.cmp("b", 1, litStr)}
	return s.text(g), s.check
}

func genSelectLiterals(g *gen) (string, checker) {
	g.all = true
	s := &selStmt{sels: []sel{{text: "*", name: "*"}}, tables: []tab{{"t", "t"}}}
	k := litKinds + sym.Choose("kind", litAll-litKinds)
	switch sym.Choose("w", 2) {
	case 0:
		s.where = where{kind: 1, a: g.cmp("", sym.Choose("op", len(ops)), k)}
	default:
		s.where = where{kind: 2, a: g.cmp("a", 0, litStr), b: g.cmp("b", 2, k)}
	}
	return s.text(g), s.check
}

func P03_Wide() {
	n := count()
	fidelity(genSelectWide(wide(n, 0), sym.Choose("what", 4), n))
}
func P03_LongNames()  { fidelity(genSelectNames(newGen(11, 2).long())) }
func P03_Quoted()     { fidelity(genSelectQuoted(newGen(5, 2).quoted())) }
func P03_Literals()   { fidelity(genSelectLiterals(newGen(1, 1))) }
func P03_BigNumbers() { fidelity(genSelectLimit(newGen(1, 1), -1)) }
func P03_NoTable() {
	s := &selStmt{}
	k := []int{2, 3, 4, 7}[sym.Choose("k", 4)]
	g := newGen(1, 2)
	for i := 0; i <= sym.Choose("n", 2); i++ {
		s.sels = append(s.sels, g.sel(itoa(i), k))
	}
	roundTrip(s.text(g), s.check)
}

// --- INSERT

func P04_WideColumns() {
	n := count()
	fidelity(genInsert(wide(n+1, n), n, 1, rotate(0)))
}

func P04_WideRows() {
	n := count()
	fidelity(genInsert(wide(0, 2*n), 2, n, rotate(0)))
}

func P04_LongNames() { fidelity(genInsert(newGen(4, 2).long(), 2, 1, rotate(1))) }
func P04_Quoted()    { fidelity(genInsert(newGen(4, 2).quoted(), 2, 2, rotate(1))) }

func P04_Literals() {
	g := newGen(1, 1)
	k := litKinds + sym.Choose("kind", litAll-litKinds)
	at := sym.Choose("at", 3)
	fidelity(genInsert(g, 3, 1, func(i int) int {
		if i == at {
			return k
		}
		return litNull
	}))
}

// --- UPDATE

func P05_Wide() {
	n := count()
	fidelity(genUpdate(wide(n+1, n), n, rotate(0), noWhere))
}

func P05_LongNames() {
	g := newGen(5, 2).long()
	fidelity(genUpdate(g, 2, rotate(1), func() where { return where{kind: 3, a: g.cmp("a", 3, litInt), b: g.cmp("b", 1, litStr)} }))
}

func P05_Quoted() {
	g := newGen(5, 2).quoted()
	fidelity(genUpdate(g, 2, rotate(1), func() where { return where{kind: 2, a: g.cmp("a", 3, litInt), b: g.cmp("b", 1, litStr)} }))
}

func P05_Literals() {
	g := newGen(1, 1)
	k := litKinds + sym.Choose("kind", litAll-litKinds)
	at := sym.Choose("at", 3)
	fidelity(genUpdate(g, 2, func(i int) int {
		if i == at {
			return k
		}
		return litNull
	}, func() where {
		if at == 2 {
			return where{kind: 1, a: g.cmp("", 4, k)}
		}
		return where{}
	}))
}

// P05_Mixed: several assignments, literal and arithmetic, each executed.
func P05_Mixed() {
	n := 2 + sym.Choose("n", 2)
	g := newGen(1, 1)
	g.plain = true
	set := ""
	ar := make([]int, n)
	lits := make([]lit, n)
	cs, ds, vs := make([]string, n), make([]string, n), make([]int, n)
	texts := []string{"1", "7", "12", "-3"}
	vals := []int{1, 7, 12, -3}
	for i := 0; i < n; i++ {
		ar[i] = sym.Choose("ar", len(arithOps)+1) - 1
		cs[i], ds[i] = g.raw("c"+itoa(i)), g.raw("d"+itoa(i))
		if i > 0 {
			set += ", "
		}
		if ar[i] < 0 {
			lits[i] = lit{text: "'it''s'", val: "it's", str: true}
			set += cs[i] + " = " + lits[i].text
			continue
		}
		k := (i + ar[i]) % len(vals)
		vs[i] = vals[k]
		set += cs[i] + " = " + ds[i] + " " + arithOps[ar[i]] + " " + texts[k]
	}
	st := parse1("UPDATE t SET " + set + " WHERE k = 1")
	up, ok := st.(query.Update)
	sym.Assert(ok, "UPDATE implements Update")
	cols := up.Columns()
	sym.Assert(len(cols) == n, "UPDATE: one column per assignment")
	row := map[string]any{}
	xs := make([]float64, n)
	for i := 0; i < n; i++ {
		xs[i] = float64(84 + 5*i)
		if ar[i] < 2 {
			xs[i] = float64(sym.IntRange("x", -100, 100))
		}
		row[ds[i]] = xs[i]
	}
	for i := 0; i < n; i++ {
		sym.Assert(cols[i].Name() == cs[i], "UPDATE: columns in order")
		f, isf := cols[i].Function()
		sym.Assert(isf == (ar[i] >= 0), "UPDATE: arithmetic exactly where written")
		sym.Assert(cols[i].IsFunction() == isf, "UPDATE: IsFunction agrees with Function")
		if !isf {
			sym.Assert(lits[i].is(cols[i].Value(), cols[i].ValueType()), "UPDATE: value is the one assigned to the column")
			continue
		}
		sym.Assert(f.Name() == arithOps[ar[i]], "UPDATE: the arithmetic operator is the one written")
		e, err := f.Executor()
		sym.Assert(err == nil && e != nil, "UPDATE: arithmetic can be executed")
		got, err := e.Execute(row)
		sym.Assert(err == nil, "UPDATE: arithmetic of numbers gives no error")
		v := float64(vs[i])
		switch ar[i] {
		case 0:
			sym.Assert(got == any(xs[i]+v), "UPDATE: c = d + n adds n to the value of d")
		case 1:
			sym.Assert(got == any(xs[i]-v), "UPDATE: c = d - n takes n from the value of d")
		case 2:
			sym.Assert(got == any(xs[i]*v), "UPDATE: c = d * n multiplies the value of d by n")
		case 3:
			sym.Assert(got == any(xs[i]/v), "UPDATE: c = d / n divides the value of d by n")
		}
	}
	sym.Cover("end")
}

// --- DELETE

func P06_LongNames() {
	g := newGen(4, 2).long()
	fidelity(genDelete(g, func() where { return where{kind: 2, a: g.cmp("a", 5, litInt), b: g.cmp("b", 2, litStr)} }))
}

func P06_Quoted() {
	g := newGen(4, 2).quoted()
	fidelity(genDelete(g, func() where { return where{kind: 3, a: g.cmp("a", 5, litInt), b: g.cmp("b", 2, litStr)} }))
}

func P06_Literals() {
	g := newGen(1, 1)
	k := litKinds + sym.Choose("kind", litAll-litKinds)
	at := sym.Choose("at", 3)
	fidelity(genDelete(g, func() where {
		switch at {
		case 0:
			return where{kind: 1, a: g.cmp("", sym.Choose("op", len(ops)), k)}
		case 1:
			return where{kind: 2, a: g.cmp("a", 6, k), b: g.cmp("b", 2, litTrue)}
		}
		return where{kind: 3, a: g.cmp("a", 6, litNull), b: g.cmp("b", 2, k)}
	}))
}

// --- DDL

func P07_Wide() {
	n := count()
	fidelity(genCreateTable(wide(n+2, 0), n, []int{0, 1, 7, 8}[sym.Choose("keys", 4)], 1, false))
}

func P07_BigSizes() {
	g := newGen(1, 1)
	g.plain, g.bigSize = true, true
	fidelity(genCreateTable(g, 1+sym.Choose("cols", 2), 0, 2, true))
}

func P07_LongNames() { fidelity(genCreateTable(newGen(4, 2).long(), 2, 7, 1, true)) }
func P07_Quoted() {
	fidelity(genCreateTable(newGen(4, 2).quoted(), 2, []int{1, 7}[sym.Choose("form", 2)], 1, true))
}

func P08_WideIndex() {
	n := count()
	g := wide(n+2, 0)
	g.items = n
	fidelity(genCreateIndex(g))
}

func P08_LongNames() {
	fidelity(genAnyDDL(newGen(4, 2).long()))
}

func P08_Quoted() { fidelity(genAnyDDL(newGen(4, 2).quoted())) }

func genAnyDDL(g *gen) (string, checker) {
	switch k := sym.Choose("ddl", 2+atForms); k {
	case 0:
		return genCreateIndex(g)
	case 1:
		return genDropIndex(g)
	default:
		return genAlterTable(g, k-2)
	}
}

func P09_Wide() {
	n := count()
	g := wide(n, 0)
	g.items = n
	fidelity(genOther(g, []int{3, 5, 14}[sym.Choose("form", 3)]))
}

func P09_LongNames() { fidelity(genOther(newGen(3, 2).long(), sym.Choose("form", dbForms))) }
func P09_Quoted()    { fidelity(genOther(newGen(3, 2).quoted(), 3+sym.Choose("form", 3))) }

// --- all statements: printing

func P02_Wide() {
	n := []int{4, 9, 33, 70}[sym.Choose("count", 3+sym.Tier())]
	switch k := sym.Choose("kind", 10); k {
	case 0, 1, 2, 3:
		roundTrip(genSelectWide(wide(n, 0), k, n))
	case 4:
		roundTrip(genInsert(wide(n+1, n), n, 1, rotate(0)))
	case 5:
		roundTrip(genInsert(wide(0, 2*n), 2, n, rotate(0)))
	case 6:
		roundTrip(genUpdate(wide(n+1, n), n, rotate(0), noWhere))
	case 7:
		roundTrip(genCreateTable(wide(n+2, 0), n, 7, 1, false))
	case 8:
		g := wide(n+2, 0)
		g.items = n
		roundTrip(genCreateIndex(g))
	default:
		g := wide(n, 0)
		g.items = n
		roundTrip(genOther(g, []int{3, 5, 14}[sym.Choose("form", 3)]))
	}
}

func P02_LongNames() {
	g := newGen(4, 1).long()
	switch sym.Choose("kind", 5) {
	case 0:
		roundTrip(genSelectNames(g))
	case 1:
		roundTrip(genInsert(g, 2, 1, rotate(1)))
	case 2:
		roundTrip(genCreateTable(g, 2, 7, 1, true))
	case 3:
		roundTrip(genAnyDDL(g))
	default:
		roundTrip(genOther(g, sym.Choose("form", dbForms)))
	}
}

func P02_Literals() {
	g := newGen(1, 1)
	g.plain = true
	k := litKinds + sym.Choose("kind", litAll-litKinds)
	switch sym.Choose("stmt", 4) {
	case 0:
		g.plain = false
		roundTrip(genSelectLiterals(g))
	case 1:
		roundTrip(genInsert(g, 2, 2, func(int) int { return k }))
	case 2:
		roundTrip(genUpdate(g, 2, func(int) int { return k }, noWhere))
	default:
		roundTrip(genDelete(g, func() where { return where{kind: 1, a: g.cmp("", 5, k)} }))
	}
}

func P02_BigNumbers() {
	g := newGen(1, 1)
	g.plain, g.bigSize, g.conc = true, true, true
	if sym.Choose("what", 2) == 0 {
		roundTrip(genSelectLimit(g, -1))
		return
	}
	roundTrip(genCreateTable(g, 1+sym.Choose("cols", 2), 0, 2, true))
}

// --- sequences of many statements

func P12_LongSequence() {
	n := counts[sym.Choose("count", 6)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	text := ""
	var cs []checker
	for i := 0; i < n; i++ {
		k := i % 4
		if i == at {
			t, c := shortStatement("n", k)
			text += t + ";"
			cs = append(cs, c)
			continue
		}
		name := "n" + itoa(i)
		text += "DELETE FROM " + name + "; "
		cs = append(cs, func(st query.Statement) {
			d, ok := st.(query.Delete)
			sym.Assert(ok && d.TableName() == name, "statements in order")
		})
	}
	sts, err := sql.NewParser().ParseString(text)
	sym.Assert(err == nil, "a long sequence of statements parses without error")
	sym.Assert(len(sts) == n, "one statement per statement of a long sequence")
	for i := range cs {
		cs[i](sts[i])
	}
	sym.Cover("end")
}

// --- strings: control characters, other scripts, long texts

var textHeads = []string{"", "h\u00e9llo \u65e5\u672c ", "\\", "%_", "x'", "-- ", "/* ", "?$1:a@b", "NULL", name64 + " " + name64 + " " + name64 + " " + name64 + " '' ", "\r\n\t\x00"}

func P10_AnyCharacters() {
	s := sym.Str("s", 1, 2, "ascii")
	roundTrip(stringIn(sym.Choose("place", 4), lit{text: escaped(s), val: s, str: true}))
}

func P10_Surrounded() {
	h := textHeads[sym.Choose("head", len(textHeads))]
	t := textHeads[sym.Choose("tail", len(textHeads))]
	s := h + sym.Str("s", 0, 1, "ascii") + t
	roundTrip(stringIn(sym.Choose("place", 4), lit{text: escaped(s), val: s, str: true}))
}
