package props

import "verif/harness/sym"

// rotate gives each literal position its own kind, all kinds at every position.
func rotate(k int) func(int) int {
	return func(i int) int { return (k + i) % litKinds }
}

func P04_InsertOneRow() {
	g := newGen(3, 4)
	fidelity(genInsert(g, 1+sym.Choose("cols", 2), 1, rotate(sym.Choose("kind", litKinds))))
}

func P04_InsertManyRows() {
	g := newGen(3, 2)
	fidelity(genInsert(g, 1+sym.Choose("cols", 3), 2+sym.Choose("rows", 2), rotate(sym.Choose("kind", 3))))
}

func P05_UpdateSet() {
	g := newGen(4, 4)
	fidelity(genUpdate(g, 1+sym.Choose("cols", 3), rotate(sym.Choose("kind", litKinds)), func() where { return where{} }))
}

func P05_UpdateWhere() {
	g := newGen(4, 3)
	fidelity(genUpdate(g, 1, rotate(sym.Choose("kind", 2)), g.whereSmall))
}

func P05_UpdateWhereForms() {
	g := newGen(3, 2)
	k := sym.Choose("w", 3) + 1
	fidelity(genUpdate(g, 1, rotate(0), func() where { return g.whereOf(k) }))
}

func P05_UpdateArithmetic() {
	g := newGen(3, 3)
	fidelity(genUpdateArith(g, sym.Choose("ao", len(arithOps))))
}

func P06_Delete() {
	g := newGen(3, 4)
	k := sym.Choose("w", 4)
	fidelity(genDelete(g, func() where { return g.whereOf(k) }))
}
