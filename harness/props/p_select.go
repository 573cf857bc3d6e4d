package props

import "verif/harness/sym"

func genSelectList(g *gen) (string, checker) {
	s := &selStmt{tables: []tab{{"t", "t"}}}
	n := 1 + sym.Choose("n", 3)
	k := sym.Choose("k", selKinds)
	for i := 0; i < n; i++ {
		s.sels = append(s.sels, g.sel(itoa(i), (k+i*2)%selKinds))
	}
	return s.text(g), s.check
}

func genSelectFrom(g *gen) (string, checker) {
	s := &selStmt{sels: []sel{{text: "*", name: "*"}}}
	n := 1 + sym.Choose("n", 3)
	q := sym.Choose("q", 4)
	for i := 0; i < n; i++ {
		s.tables = append(s.tables, g.tab("t"+itoa(i), q>>uint(i)&1 == 1))
	}
	return s.text(g), s.check
}

func genSelectWhere(g *gen, k int) (string, checker) {
	s := &selStmt{sels: []sel{{text: "*", name: "*"}}, tables: []tab{{"t", "t"}}}
	s.where = g.whereOf(k)
	return s.text(g), s.check
}

func genSelectOrder(g *gen) (string, checker) {
	s := &selStmt{sels: []sel{{text: "*", name: "*"}}, tables: []tab{{"t", "t"}}}
	n := 1 + sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		s.orders = append(s.orders, order{g.raw("o" + itoa(i)), sym.Choose("d", 3)})
	}
	return s.text(g), s.check
}

func genSelectLimit(g *gen, max int) (string, checker) {
	s := &selStmt{sels: []sel{{text: "*", name: "*"}}, tables: []tab{{"t", "t"}}}
	g.limits(s, sym.Choose("lk", 4), max)
	return s.text(g), s.check
}

func genSelectAll(g *gen) (string, checker) {
	s := &selStmt{}
	s.sels = []sel{g.sel("0", 0), {text: "SUM(x)", name: "SUM", fun: true, args: []string{"x"}}}
	s.tables = []tab{g.tab("t", sym.Choose("qual", 2) == 1)}
	s.where = g.whereSmall()
	if sym.Choose("grp", 2) == 1 {
		s.group = g.raw("gb")
	}
	if d := sym.Choose("ord", 3); d > 0 {
		s.orders = []order{{g.raw("ob"), d}}
	}
	g.limits(s, sym.Choose("lim", 4), 1)
	return s.text(g), s.check
}

func P03_Selectors()  { fidelity(genSelectList(newGen(3, 3))) }
func P03_Tables()     { fidelity(genSelectFrom(newGen(3, 3))) }
func P03_Where()      { fidelity(genSelectWhere(newGen(2, 2), 1+sym.Choose("w", 3))) }
func P03_OrderBy()    { fidelity(genSelectOrder(newGen(3, 3))) }
func P03_Limit()      { fidelity(genSelectLimit(newGen(1, 1), 4)) }
func P03_AllClauses() { fidelity(genSelectAll(newGen(1, 1))) }
