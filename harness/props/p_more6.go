package props

import (
	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif/harness/sym"
)

// pattern is a list of n names, each one of two: equal names in all places.
func pattern(n int) []string {
	p := [][2]string{{"a", "b"}, {"a", "A"}, {"ab", "a"}}[sym.Choose("pair", 3)]
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, p[sym.Choose("p"+itoa(i), 2)])
	}
	return r
}

func commas(p []string) string {
	s := ""
	for i, x := range p {
		if i > 0 {
			s += ", "
		}
		s += x
	}
	return s
}

func intIs(v any, n int) bool {
	s, ok := v.(string)
	if ok {
		return s == itoa(n)
	}
	i, ok := v.(int)
	if ok {
		return i == n
	}
	j, ok := v.(int64)
	return ok && j == int64(n)
}

const sameForms = 14

// same is a statement with a list that may have equal entries, and its check.
func same(form int) (string, checker) {
	switch form {
	case 0:
		p := pattern(4)
		return "SELECT " + commas(p) + " FROM t", func(s query.Statement) {
			x, ok := s.(query.Select)
			sym.Assert(ok && len(x.Selectors()) == len(p), "SELECT: one selector per selector written")
			for i := range p {
				sym.Assert(x.Selectors()[i].Name() == p[i], "SELECT: selectors in order")
			}
		}
	case 1:
		p := pattern(4)
		return "SELECT x FROM " + commas(p), func(s query.Statement) {
			x, ok := s.(query.Select)
			sym.Assert(ok && len(x.From()) == len(p), "SELECT: one table per table written")
			for i := range p {
				sym.Assert(x.From()[i].TableName() == p[i], "SELECT: tables in order")
			}
		}
	case 2:
		p := pattern(3)
		var d []int
		text := "SELECT x FROM t ORDER BY "
		for i := range p {
			d = append(d, sym.Choose("d"+itoa(i), 2))
			if i > 0 {
				text += ", "
			}
			text += p[i] + []string{" ASC", " DESC"}[d[i]]
		}
		return text, func(s query.Statement) {
			x, ok := s.(query.Select)
			sym.Assert(ok && len(x.OrderBy().Orders()) == len(p), "SELECT: one order per order written")
			for i, o := range x.OrderBy().Orders() {
				sym.Assert(o.ColumnName() == p[i] && o.IsDesc() == (d[i] == 1) && o.IsAsc() == (d[i] == 0), "SELECT: orders as written")
			}
		}
	case 3:
		p := pattern(3)
		fs := []string{"POWER(" + p[0] + ", " + p[1] + ")", "SUM(" + p[2] + ")", "SUM(" + p[0] + ")", "SUM(" + p[1] + ")"}
		return "SELECT " + commas(fs) + " FROM t", func(s query.Statement) {
			x, ok := s.(query.Select)
			sym.Assert(ok && len(x.Selectors()) == 4, "SELECT: one selector per selector written")
			args := [][]string{{p[0], p[1]}, {p[2]}, {p[0]}, {p[1]}}
			for i, c := range x.Selectors() {
				f, ok := c.Function()
				sym.Assert(ok && f.Name() == []string{"POWER", "SUM", "SUM", "SUM"}[i] && len(f.Arguments()) == len(args[i]), "SELECT: functions as written")
				for j, a := range f.Arguments() {
					sym.Assert(a.Name() == args[i][j], "SELECT: arguments as written")
				}
			}
		}
	case 4:
		p := pattern(4)
		return "INSERT INTO t (" + commas(p) + ") VALUES (1, 2, 2, 1)", func(s query.Statement) {
			x, ok := s.(query.Insert)
			sym.Assert(ok && len(x.Values()) == 1 && len(x.Values()[0]) == 4, "INSERT: one value per column")
			for i, c := range x.Values()[0] {
				sym.Assert(c.Name() == p[i] && intIs(c.Value(), []int{1, 2, 2, 1}[i]), "INSERT: values under their columns")
			}
		}
	case 5:
		text := "INSERT INTO t (a, b) VALUES "
		var v, w []int
		for i := 0; i < 4; i++ {
			v, w = append(v, 1+sym.Choose("v"+itoa(i), 2)), append(w, 1+sym.Choose("w"+itoa(i), 2))
			if i > 0 {
				text += ", "
			}
			text += "(" + itoa(v[i]) + ", '" + itoa(w[i]) + "')"
		}
		return text, func(s query.Statement) {
			x, ok := s.(query.Insert)
			sym.Assert(ok && len(x.Values()) == 4, "INSERT: one row per VALUES group")
			for i, r := range x.Values() {
				sym.Assert(len(r) == 2 && r[0].Name() == "a" && r[1].Name() == "b" && intIs(r[0].Value(), v[i]) && r[1].Value() == any(itoa(w[i])), "INSERT: rows as written")
			}
		}
	case 6:
		p := pattern(3)
		var v []int
		text := "UPDATE t SET "
		for i := range p {
			v = append(v, 1+sym.Choose("v"+itoa(i), 2))
			if i > 0 {
				text += ", "
			}
			text += p[i] + " = " + itoa(v[i])
		}
		return text, func(s query.Statement) {
			x, ok := s.(query.Update)
			sym.Assert(ok && len(x.Columns()) == len(p), "UPDATE: one assignment per SET term")
			for i, c := range x.Columns() {
				sym.Assert(c.Name() == p[i] && intIs(c.Value(), v[i]), "UPDATE: assignments as written")
			}
		}
	case 7:
		p := pattern(2)
		op := sym.Choose("op", 3)
		v, w, join := 1+sym.Choose("v", 2), 1+sym.Choose("w", 2), sym.Choose("or", 2)
		o := []string{"=", "<>", "<"}[op]
		tail := " WHERE " + p[0] + " " + o + " " + itoa(v) + []string{" AND ", " OR "}[join] + p[1] + " " + o + " " + itoa(w)
		k := sym.Choose("stmt", 3)
		return []string{"DELETE FROM t", "UPDATE t SET x = 1", "SELECT x FROM t"}[k] + tail, func(s query.Statement) {
			var e query.Expr
			switch x := s.(type) {
			case query.Select:
				e = x.Where().Expr()
			case query.Update:
				e = x.Where().Expr()
			case query.Delete:
				e = x.Where().Expr()
			}
			var l, r query.Expr
			if a, ok := e.(*query.AndExpr); ok {
				sym.Assert(join == 0, "comparisons are joined as written")
				l, r = a.Left(), a.Right()
			} else {
				a, ok := e.(*query.OrExpr)
				sym.Assert(ok && join == 1, "comparisons are joined as written")
				l, r = a.Left(), a.Right()
			}
			a, ok := l.(*query.CmpExpr)
			b, ok2 := r.(*query.CmpExpr)
			q := []query.CmpExprOperator{query.EQ, query.NEQ, query.LT}[op]
			sym.Assert(ok && ok2 && a.Operator() == q && b.Operator() == q, "comparisons are those written")
			sym.Assert(a.Left().Name() == p[0] && b.Left().Name() == p[1] && intIs(a.Right().Value(), v) && intIs(b.Right().Value(), w), "comparisons are those written")
		}
	case 8:
		p := pattern(3)
		text := "CREATE TABLE t ("
		var d []int
		for i := range p {
			d = append(d, sym.Choose("d"+itoa(i), 2))
			if i > 0 {
				text += ", "
			}
			text += p[i] + []string{" INT", " TEXT"}[d[i]]
		}
		return text + ")", func(s query.Statement) {
			x, ok := s.(query.CreateTable)
			sym.Assert(ok && len(x.Schema().Columns()) == len(p) && len(x.Schema().Indexes()) == 0, "CREATE TABLE: one column per definition")
			for i, c := range x.Schema().Columns() {
				sym.Assert(c.Name() == p[i] && c.DataType() == []query.DataType{query.IntType, query.TextType}[d[i]], "CREATE TABLE: columns as written")
			}
		}
	case 9:
		p := pattern(2)
		var cs, ns []string
		text := "CREATE TABLE t (a INT, b INT, "
		for i := 0; i < 3; i++ {
			cs, ns = append(cs, []string{"a", "b"}[sym.Choose("c"+itoa(i), 2)]), append(ns, []string{"i", "j"}[sym.Choose("n"+itoa(i), 2)])
			text += "KEY " + ns[i] + " (" + cs[i] + "), "
		}
		return text + "PRIMARY KEY (" + commas(p) + "))", func(s query.Statement) {
			x, ok := s.(query.CreateTable)
			sym.Assert(ok && len(x.Schema().Indexes()) == 4 && len(x.Schema().Columns()) == 2, "CREATE TABLE: one index per definition")
			for i, ix := range x.Schema().Indexes()[:3] {
				sym.Assert(ix.Name() == ns[i] && len(ix.Columns()) == 1 && ix.Columns()[0].Name() == cs[i], "CREATE TABLE: indexes as written")
			}
			ix := x.Schema().Indexes()[3]
			sym.Assert(ix.Type() == query.PrimaryIndex && len(ix.Columns()) == len(p), "CREATE TABLE: index columns as written")
			for j, c := range ix.Columns() {
				sym.Assert(c.Name() == p[j], "CREATE TABLE: index columns as written")
			}
		}
	case 10:
		p := pattern(4)
		return "CREATE INDEX i ON t (" + commas(p) + ")", func(s query.Statement) {
			x, ok := s.(query.CreateIndex)
			sym.Assert(ok && len(x.Index().Columns()) == 4, "CREATE INDEX: one column per column written")
			for i, c := range x.Index().Columns() {
				sym.Assert(c.Name() == p[i], "CREATE INDEX: columns in order")
			}
		}
	case 11:
		p := pattern(3)
		k := sym.Choose("change", 4)
		text := []string{"ALTER TABLE " + p[0] + " RENAME TO " + p[1], "ALTER TABLE " + p[0] + " RENAME COLUMN " + p[1] + " TO " + p[2], "ALTER TABLE " + p[0] + " ADD INDEX " + p[1] + " (" + commas([]string{p[2], p[0], p[2]}) + ")", "ALTER TABLE " + p[0] + " ADD COLUMN " + p[1] + " INT"}[k]
		return text, func(s query.Statement) {
			x, ok := s.(query.AlterTable)
			sym.Assert(ok && x.TableName() == p[0], "ALTER TABLE: the table written")
			to, ok0 := x.RenameTo()
			from, too, ok1 := x.RenameColumns()
			ix, ok2 := x.AddIndex()
			c, ok3 := x.AddColumn()
			_, ok4 := x.DropColumn()
			_, ok5 := x.DropIndex()
			sym.Assert(ok0 == (k == 0) && ok1 == (k == 1) && ok2 == (k == 2) && ok3 == (k == 3) && !ok4 && !ok5, "ALTER TABLE: the one change written")
			switch k {
			case 0:
				sym.Assert(to.TableName() == p[1], "ALTER TABLE: the name written")
			case 1:
				sym.Assert(from.Name() == p[1] && too.Name() == p[2], "ALTER TABLE: the names written")
			case 2:
				sym.Assert(ix.Name() == p[1] && len(ix.Columns()) == 3 && ix.Columns()[0].Name() == p[2] && ix.Columns()[1].Name() == p[0] && ix.Columns()[2].Name() == p[2], "ALTER TABLE: the index written")
			default:
				sym.Assert(c.Name() == p[1], "ALTER TABLE: the column written")
			}
		}
	case 12:
		p := pattern(4)
		k := sym.Choose("stmt", 2)
		return []string{"DROP TABLE ", "TRUNCATE TABLE "}[k] + commas(p), func(s query.Statement) {
			var ts query.TableList
			if k == 0 {
				x, ok := s.(query.DropTable)
				sym.Assert(ok, "a statement of its kind")
				ts = x.Tables()
			} else {
				x, ok := s.(query.Truncate)
				sym.Assert(ok, "a statement of its kind")
				ts = x.Tables()
			}
			sym.Assert(len(ts) == 4, "one table per table written")
			for i := range p {
				sym.Assert(ts[i].TableName() == p[i], "tables in order")
			}
		}
	default:
		p := pattern(4)
		return "COPY t (" + commas(p) + ") FROM STDIN", func(s query.Statement) {
			x, ok := s.(query.Copy)
			sym.Assert(ok && len(x.Columns()) == 4, "COPY: one column per column written")
			for i, c := range x.Columns() {
				sym.Assert(c.Name() == p[i], "COPY: columns in order")
			}
		}
	}
}

func P03_Same() { fidelity(same([]int{0, 1, 2, 3, 7}[sym.Choose("form", 5)])) }
func P04_Same() { fidelity(same(4 + sym.Choose("form", 2))) }
func P05_Same() { fidelity(same(6 + sym.Choose("form", 2))) }
func P06_Same() { fidelity(same(7)) }
func P07_Same() { fidelity(same(8 + sym.Choose("form", 2))) }
func P08_Same() { fidelity(same(10 + sym.Choose("form", 2))) }
func P09_Same() { fidelity(same(12 + sym.Choose("form", 2))) }
func P02_Same() { roundTrip(same(sym.Choose("form", sameForms))) }

// equal statements one after the other are all there
func P12_Same() {
	texts := []string{"COMMIT", "commit", "SELECT a FROM t", "BEGIN", "INSERT INTO t (a) VALUES (1)", "ROLLBACK", "DROP TABLE t", "VACUUM", "USE d", "TRUNCATE TABLE t"}
	k := sym.Choose("a", len(texts))
	l := sym.Choose("b", len(texts))
	text := ""
	var want []string
	for i := 0; i < 4; i++ {
		t := texts[k]
		if sym.Choose("s"+itoa(i), 2) == 1 {
			t = texts[l]
		}
		text += t + ";"
		want = append(want, parse1(t).String())
	}
	sts, err := sql.NewParser().ParseString(text)
	sym.Assert(err == nil && len(sts) == 4, "each statement of a text is there")
	for i := range want {
		sym.Assert(sts[i].String() == want[i], "the statements of a text are in order")
	}
	sym.Cover("end")
}
