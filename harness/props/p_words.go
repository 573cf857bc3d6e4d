package props

import "verif/harness/sym"

// Statements with one name of word length, all of whose characters are
// symbolic, the others concrete; and conditions with every pair of operators.

func words(names int) *gen {
	g := newGen(names, 8+4*sym.Tier())
	g.min, g.plain = 3, true
	return g
}

func P03_Words() { fidelity(genSelectNames(words(11))) }
func P04_Words() { fidelity(genInsert(words(4), 2, 1, rotate(1))) }
func P05_Words() {
	g := words(5)
	fidelity(genUpdate(g, 2, rotate(1), func() where { return where{kind: 3, a: g.cmp("a", 3, litInt), b: g.cmp("b", 1, litStr)} }))
}
func P06_Words() {
	g := words(4)
	fidelity(genDelete(g, func() where { return where{kind: 2, a: g.cmp("a", 5, litInt), b: g.cmp("b", 2, litStr)} }))
}
func P07_Words() { fidelity(genCreateTable(words(4), 2, 7, 1, true)) }
func P08_Words() { fidelity(genAnyDDL(words(4))) }
func P09_Words() { fidelity(genOther(words(3), sym.Choose("form", dbForms))) }

func P02_Words() {
	k := sym.Choose("kind", 7)
	if k == 0 {
		roundTrip(genSelectNames(words(11)))
		return
	}
	g := words(4)
	switch k {
	case 1:
		roundTrip(genInsert(g, 2, 1, rotate(1)))
	case 2:
		roundTrip(genUpdate(g, 2, rotate(1), func() where { return where{kind: 2, a: g.cmp("a", 3, litInt), b: g.cmp("b", 1, litStr)} }))
	case 3:
		roundTrip(genDelete(g, func() where { return where{kind: 3, a: g.cmp("a", 5, litInt), b: g.cmp("b", 2, litStr)} }))
	case 4:
		roundTrip(genCreateTable(g, 2, 7, 1, true))
	case 5:
		roundTrip(genAnyDDL(g))
	default:
		roundTrip(genOther(g, sym.Choose("form", dbForms)))
	}
}

// pairs is a condition of two comparisons with any two operators on any two
// columns, also the same, and the same kind of literal.
func (g *gen) pairs() where {
	k := 2 + sym.Choose("or", 2)
	a, b := sym.Choose("opa", len(ops)), sym.Choose("opb", len(ops))
	l := []int{litInt, litStr}[sym.Choose("lk", 2)]
	g.litLen = 1
	return where{kind: k, a: g.cmp("a", a, l), b: g.cmp("b", b, l)}
}

func P03_Pairs() {
	g := newGen(1, 1)
	g.focus = -1
	s := &selStmt{sels: []sel{{text: "*", name: "*"}}, tables: []tab{{"t", "t"}}}
	s.where = g.pairs()
	fidelity(s.text(g), s.check)
}

func P05_Pairs() {
	g := newGen(1, 1)
	fidelity(genUpdate(g, 1, rotate(0), g.pairs))
}

func P06_Pairs() {
	g := newGen(1, 1)
	fidelity(genDelete(g, g.pairs))
}
