package props

import (
	"verif/harness/sym"

	"github.com/cybergarage/go-sqlparser/sql/query"
)

// P11_Apart: a bound value does not become one with the text next to its
// placeholder, or with the value of the next placeholder. A negative number may make an operation of two values.
func P11_Apart() {
	p, q := param("p", sym.Choose("pk", parKinds-1), 1), param("q", sym.Choose("qk", parKinds-1), 1)
	forms := []string{
		"INSERT INTO t (a) VALUES ($1$2)", "INSERT INTO t (a) VALUES (??)", "INSERT INTO t (a, b) VALUES ('x'?, ?)", "INSERT INTO t (a, b) VALUES (?, ?'x')",
		"INSERT INTO t (a, b) VALUES (1?, ?)", "INSERT INTO t (a, b) VALUES (?, 1.?)", "INSERT INTO t (a, b) VALUES (?, x?)", "DELETE FROM t WHERE a = ? AND b = 'x'$2",
		"UPDATE t SET a = ?? WHERE b = 1", "DELETE FROM t WHERE a = NULL? AND b = ?", "INSERT INTO t (a, b) VALUES (?, 0x?)", "INSERT INTO t (a, b) VALUES (?, 1e?)",
	}
	sts, err := bind(forms[sym.Choose("form", len(forms))], p, q)
	sym.Assert(err != nil && len(sts) == 0, "a value next to other text is not one with it")
	sym.Cover("end")
}

// P11_Close: words may follow and precede a placeholder directly.
func P11_Close() {
	p, q := param("p", sym.Choose("pk", parKinds), 1), param("q", sym.Choose("qk", parKinds), 1)
	switch sym.Choose("form", 4) {
	case 0:
		st := bound1("DELETE FROM t WHERE a=?AND b=?", p, q)
		(where{kind: 2, a: cmp{"a", 0, p.want}, b: cmp{"b", 0, q.want}}).check(st.(query.Delete).Where())
	case 1:
		st := bound1("DELETE FROM t WHERE a<>$2OR b>=$1;", q, p)
		(where{kind: 3, a: cmp{"a", 2, p.want}, b: cmp{"b", 6, q.want}}).check(st.(query.Delete).Where())
	case 2:
		u, ok := bound1("UPDATE t SET a=?WHERE b=?", p, q).(query.Update)
		sym.Assert(ok && len(u.Columns()) == 1, "binding keeps the statement")
		sym.Assert(p.want.is(u.Columns()[0].Value(), u.Columns()[0].ValueType()), "each placeholder has the value of its own parameter")
		(where{kind: 1, a: cmp{"b", 0, q.want}}).check(u.Where())
	default:
		rowIs(bound1("INSERT INTO t(a,b)VALUES(?,?)", p, q), p.want, q.want)
	}
	sym.Cover("end")
}

// P11_OtherPlaces: limits, named values and rows, operands and arguments.
func P11_OtherPlaces() {
	n, m := sym.IntRange("n", 1, 99), sym.IntRange("m", 1, 99)
	p, q := par{n, lit{val: dec(n)}}, par{uint16(m), lit{val: dec(m)}}
	s := param("s", 0, 2)
	limit := func(st query.Statement) {
		v, ok := st.(query.Select)
		sym.Assert(ok, "binding keeps the statement")
		(where{kind: 1, a: cmp{"a", 0, s.want}}).check(v.Where())
		sym.Assert(v.Limit().Limit() == uint(n) && v.Limit().Offset() == uint(m), "each placeholder has the value of its own parameter")
	}
	switch sym.Choose("form", 7) {
	case 0:
		limit(bound1("SELECT * FROM t WHERE a = ? LIMIT ? OFFSET ?", s, p, q))
	case 1:
		limit(bound1("SELECT * FROM t WHERE a = ? LIMIT ?,?", s, q, p))
	case 2:
		limit(bound1("SELECT * FROM t WHERE a = $3 LIMIT $1 OFFSET $2", p, q, s))
	case 3:
		rowIs(bound1("INSERT INTO t VALUES (a = ?, b = ?, c = ?)", s, p, q), s.want, p.want, q.want)
	case 4:
		rowIs(bound1("INSERT INTO t VALUES (a=$3,b=$1,c=$3,d=$2)", p, q, s), s.want, p.want, s.want, q.want)
	case 5:
		u, ok := bound1("UPDATE t SET a = a + ?, b = b - ? WHERE c = ?", p, q, s).(query.Update)
		sym.Assert(ok && len(u.Columns()) == 2, "binding keeps the statement")
		for i, v := range []par{p, q} {
			args := u.Columns()[i].Arguments()
			sym.Assert(len(args) == 2 && args[1].Name() == v.want.val, "each placeholder has the value of its own parameter")
		}
		(where{kind: 1, a: cmp{"c", 0, s.want}}).check(u.Where())
	default:
		v, ok := bound1("SELECT MOD(?, ?) FROM t WHERE a = ?", p, q, s).(query.Select)
		sym.Assert(ok && len(v.Selectors()) == 1, "binding keeps the statement")
		f, ok := v.Selectors()[0].Function()
		sym.Assert(ok && len(f.Arguments()) == 2, "binding keeps the function")
		sym.Assert(f.Arguments()[0].Name() == p.want.val && f.Arguments()[1].Name() == q.want.val, "each placeholder has the value of its own parameter")
		(where{kind: 1, a: cmp{"a", 0, s.want}}).check(v.Where())
	}
	sym.Cover("end")
}

// caseGen is a generator that writes keywords in one of four other letter cases.
func caseGen() *gen {
	g := newGen(1, 1)
	g.litLen = 1
	g.kase = 1 + sym.Choose("case", 4)
	return g
}

// The keywords of each kind of statement, in any letter case.
func P03_Cases() {
	g := caseGen()
	switch sym.Choose("what", 4) {
	case 0:
		fidelity(genSelectAll(g))
	case 1:
		fidelity(genSelectOrder(g))
	case 2:
		fidelity(genSelectList(g))
	default:
		fidelity(genSelectLimit(g, 1))
	}
}

func P04_Cases() { fidelity(genInsert(caseGen(), 3, 2, rotate(sym.Choose("kind", litKinds)))) }

func P05_Cases() {
	g := caseGen()
	fidelity(genUpdate(g, 2, rotate(sym.Choose("kind", litKinds)), g.whereSmall))
}

func P06_Cases() {
	g := caseGen()
	fidelity(genDelete(g, g.whereSmall))
}

func P07_Cases() {
	fidelity(genCreateTable(caseGen(), 2, sym.Choose("form", ctForms), len(sqlTypes), false))
}

func P08_Cases() {
	g := caseGen()
	switch sym.Choose("what", 3) {
	case 0:
		fidelity(genAlterTable(g, sym.Choose("form", atForms)))
	case 1:
		fidelity(genCreateIndex(g))
	default:
		fidelity(genDropIndex(g))
	}
}

func P09_Cases() { fidelity(genOther(caseGen(), sym.Choose("form", dbForms))) }

// P11_Again: a numbered placeholder may be repeated any number of times, with
// any number of parameters.
func P11_Again() {
	n := []int{1, 2, 3, 9, 10, 11, 16, 17, 18, 33}[sym.Choose("n", 10)]
	var ps []par
	cols, marks := "", ""
	var want []lit
	add := func(i int) {
		if len(want) > 0 {
			cols += ", "
			marks += ", "
		}
		cols += "c" + itoa(len(want))
		marks += "$" + itoa(i+1)
		want = append(want, ps[i].want)
	}
	k := []int{0, n / 2, n - 1}[sym.Choose("which", 3)]
	for i := 0; i < n; i++ {
		if i == k {
			ps = append(ps, param("p", sym.Choose("pk", 2), 1))
		} else {
			ps = append(ps, par{i, lit{val: itoa(i)}})
		}
	}
	if sym.Choose("before", 2) == 1 {
		add(n - 1)
		add(k)
	}
	for i := 0; i < n; i++ {
		add(i)
	}
	add(k)
	add(k)
	add(n - 1)
	ins, ok := bound1("INSERT INTO t ("+cols+") VALUES ("+marks+")", ps...).(query.Insert)
	sym.Assert(ok && len(ins.Values()) == 1 && len(ins.Values()[0]) == len(want), "binding keeps the statement")
	for i, c := range ins.Values()[0] {
		sym.Assert(want[i].is(c.Value(), c.ValueType()), "each placeholder has the value of its own parameter")
	}
	sym.Cover("end")
}

// P11_Comments: comments of every form end where they end.
func P11_Comments() {
	p, q := param("p", sym.Choose("pk", 2), 1), param("q", sym.Choose("qk", 2), 1)
	cs := []string{"/*?*/", "/**/", "/***/", "/*/?*/", "/*/ $1 */", "/* ' ? */", "/* -- ? */", "--?\n", "-- ' $2\n", "-- /* ?\n", "--\n", "/* \n ? */", "/*?**/", "/* /* ? */", "--'\n--\"\n", "/*`*/ /*[*/"}
	c, d := cs[sym.Choose("c", len(cs))], cs[sym.Choose("d", len(cs))]
	mark := []string{"?", "?"}
	if sym.Choose("style", 2) == 1 {
		mark = []string{"$2", "$1"}
		p, q = q, p
	}
	text := "INSERT INTO t (a, b) " + c + " VALUES (" + mark[0] + d + "," + mark[1] + ")" + c
	if mark[0] == "?" {
		rowIs(bound1(text, p, q), p.want, q.want)
		return
	}
	rowIs(bound1(text, p, q), q.want, p.want)
}
