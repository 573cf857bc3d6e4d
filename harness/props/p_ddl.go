package props

import "verif/harness/sym"

func P07_ColumnTypes() {
	g := newGen(2, 3)
	fidelity(genCreateTable(g, 1, 0, len(sqlTypes), sym.Choose("sized", 2) == 1))
}

func P07_ManyColumns() {
	g := newGen(1, 2)
	fidelity(genCreateTable(g, 2+sym.Choose("cols", 2), 0, len(sqlTypes), true))
}

func P07_Indexes() {
	g := newGen(3, 2)
	fidelity(genCreateTable(g, 2, 1+sym.Choose("form", ctForms-1), 3, false))
}

func P07_Keys() {
	g := newGen(1, 1)
	fidelity(genCreateTable(g, 3, []int{1, 2, 3, 7, 8}[sym.Choose("form", 5)], 2, true))
}

func P08_AlterTable()  { fidelity(genAlterTable(newGen(3, 3), sym.Choose("form", atForms))) }
func P08_CreateIndex() { fidelity(genCreateIndex(newGen(3, 4))) }
func P08_DropIndex()   { fidelity(genDropIndex(newGen(2, 4))) }
func P09_Other()       { fidelity(genOther(newGen(3, 3), sym.Choose("form", dbForms))) }
