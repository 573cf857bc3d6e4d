package props

import (
	"errors"

	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/stmt"
	"verif/harness/sym"
)

// par is a bound parameter and the literal it stands for.
type par struct {
	v    any
	want lit
}

const parKinds = 5

func param(tag string, kind, max int) par {
	switch kind {
	case 0:
		s := sym.Str(tag, 0, max, "text")
		return par{s, lit{val: s, str: true}}
	case 1:
		n := sym.IntRange(tag, 0, 99)
		return par{n, lit{val: dec(n)}}
	case 2:
		return par{nil, lit{val: "NULL", null: true}}
	case 3:
		b := sym.Bool(tag)
		if b {
			return par{true, lit{val: "true"}}
		}
		return par{false, lit{val: "false"}}
	default:
		n := sym.IntRange(tag, 1, 9)
		return par{int64(-n), lit{val: "-" + dec(n)}}
	}
}

// dec is the decimal text of 0..99.
func dec(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return string([]byte{byte('0' + n/10), byte('0' + n%10)})
}

func bind(q string, ps ...par) ([]query.Statement, error) {
	params := stmt.BindParams{}
	for _, p := range ps {
		params = append(params, stmt.NewBindParam(p.v))
	}
	return stmt.NewBindStatement(stmt.WithBindStatementQuery(q), stmt.WithBindStatementParams(params)).Statements()
}

func bound1(q string, ps ...par) query.Statement {
	sts, err := bind(q, ps...)
	sym.Assert(err == nil, "binding a parameter to every placeholder succeeds")
	sym.Assert(len(sts) == 1 && sts[0] != nil, "binding does not change the number of statements")
	return sts[0]
}

func rowIs(st query.Statement, want ...lit) {
	ins, ok := st.(query.Insert)
	sym.Assert(ok && ins.TableName() == "t", "binding keeps the statement")
	sym.Assert(len(ins.Values()) == 1 && len(ins.Values()[0]) == len(want), "binding keeps the number of values")
	for i, c := range ins.Values()[0] {
		sym.Assert(c.Name() == string(rune('a'+i)), "binding keeps the columns")
		sym.Assert(want[i].is(c.Value(), c.ValueType()), "each placeholder has the value of its own parameter")
	}
	sym.Cover("end")
}

// positional and numbered placeholders
func P11_Order() {
	p, q := param("p", sym.Choose("pk", parKinds), 2), param("q", sym.Choose("qk", parKinds), 2)
	switch sym.Choose("form", 4) {
	case 0:
		rowIs(bound1("INSERT INTO t (a, b) VALUES (?, ?)", p, q), p.want, q.want)
	case 1:
		rowIs(bound1("INSERT INTO t (a, b) VALUES ($1, $2)", p, q), p.want, q.want)
	case 2:
		rowIs(bound1("INSERT INTO t (a, b) VALUES ($2, $1)", p, q), q.want, p.want)
	default:
		rowIs(bound1("INSERT INTO t (a, b, c) VALUES ($2, $1, $2)", p, q), q.want, p.want, q.want)
	}
}

// a string parameter is data, whatever its text
func P11_StringIsData() {
	p := param("p", 0, 4)
	switch sym.Choose("form", 4) {
	case 0:
		rowIs(bound1("INSERT INTO t (a, b) VALUES (?, ?)", p, par{"x", lit{}}), p.want, lit{val: "x", str: true})
	case 1:
		rowIs(bound1("INSERT INTO t (a, b) VALUES ($1, $2)", p, par{"x", lit{}}), p.want, lit{val: "x", str: true})
	case 2:
		st := bound1("DELETE FROM t WHERE a = ?", p)
		d, ok := st.(query.Delete)
		sym.Assert(ok, "binding keeps the statement")
		(where{kind: 1, a: cmp{"a", 0, p.want}}).check(d.Where())
		sym.Cover("end")
	default:
		st := bound1("UPDATE t SET a = ? WHERE b = ?", p, par{"y", lit{}})
		u, ok := st.(query.Update)
		sym.Assert(ok && len(u.Columns()) == 1, "binding keeps the statement")
		sym.Assert(p.want.is(u.Columns()[0].Value(), u.Columns()[0].ValueType()), "the assigned value is the parameter")
		(where{kind: 1, a: cmp{"b", 0, lit{val: "y", str: true}}}).check(u.Where())
		sym.Cover("end")
	}
}

// literals, quoted names and comments of the query are not placeholders
func P11_QuotedMarks() {
	p := param("p", sym.Choose("pk", parKinds), 2)
	s := sym.Str("s", 0, 3, "['?$1a]")
	l := lit{val: s, str: true}
	switch sym.Choose("form", 4) {
	case 0:
		rowIs(bound1("INSERT INTO t (a, b) VALUES ("+escaped(s)+", ?)", p), l, p.want)
	case 1:
		rowIs(bound1("INSERT INTO t (a, b) VALUES ("+escaped(s)+", $1)", p), l, p.want)
	case 2:
		rowIs(bound1("INSERT INTO t (a, b) /* ? $1 ' */ VALUES (?, "+escaped(s)+") -- ? '", p), p.want, l)
	default:
		st := bound1("DELETE FROM `t?` WHERE `$1` = ?", p)
		d, ok := st.(query.Delete)
		sym.Assert(ok && d.TableName() == "t?", "a quoted name is not a placeholder")
		(where{kind: 1, a: cmp{"$1", 0, p.want}}).check(d.Where())
		sym.Cover("end")
	}
}

// as many as there are: ten numbered placeholders are not confused with one another
func P11_ManyNumbered() {
	n := 12
	q, vs := "INSERT INTO t (a, b, c, d, e, f, g, h, i, j, k, l) VALUES (", []par{}
	want := []lit{}
	for i := 0; i < n; i++ {
		if i > 0 {
			q += ", "
		}
		q += "$" + dec(i+1)
		p := par{string(rune('A' + i)), lit{val: string(rune('A' + i)), str: true}}
		if i == 0 || i == 9 || i == 10 {
			p = param("p"+dec(i), 0, 1)
		}
		vs = append(vs, p)
		want = append(want, p.want)
	}
	rowIs(bound1(q+")", vs...), want...)
}

// a parameter without a placeholder is an error
func P11_Unused() {
	p, q := param("p", sym.Choose("pk", parKinds), 2), param("q", 0, 2)
	text := []string{
		"INSERT INTO t (a) VALUES (?)", "INSERT INTO t (a) VALUES ($1)", "INSERT INTO t (a) VALUES ($2)",
		"INSERT INTO t (a) VALUES ('?')", "INSERT INTO t (a) VALUES (1)",
	}[sym.Choose("form", 5)]
	sts, err := bind(text, p, q)
	sym.Assert(err != nil, "a parameter without a placeholder is an error")
	sym.Assert(errors.Is(err, stmt.ErrNotFound), "the error says that the placeholder was not found")
	sym.Assert(len(sts) == 0, "an error comes without statements")
	sym.Cover("end")
}

// without parameters the query is parsed as it is
func P11_NoParams() {
	g := newGen(1, 1)
	g.litLen = 1
	text, c := anyStatement(g, []int{0, 2, 6}[sym.Choose("kind", 3)])
	sts, err := bind(text)
	sym.Assert(err == nil && len(sts) == 1, "a query without parameters is parsed as it is")
	c(sts[0])
	sym.Cover("end")
}

// values of all kinds
var fixedPars = []par{
	{int8(-128), lit{val: "-128"}}, {int16(32767), lit{val: "32767"}}, {int32(-2147483648), lit{val: "-2147483648"}},
	{int64(9223372036854775807), lit{val: "9223372036854775807"}}, {int64(-9223372036854775808), lit{val: "-9223372036854775808"}},
	{uint8(255), lit{val: "255"}}, {uint16(65535), lit{val: "65535"}}, {uint32(4294967295), lit{val: "4294967295"}},
	{uint64(18446744073709551615), lit{val: "18446744073709551615"}}, {uint(7), lit{val: "7"}}, {1234567890, lit{val: "1234567890"}},
	{1.5, lit{val: "1.5"}}, {-0.25, lit{val: "-0.25"}}, {float32(0.1), lit{val: "0.1"}}, {1e21, lit{val: "1e+21"}}, {0.0001, lit{val: "0.0001"}}, {123456789.125, lit{val: "1.23456789125e+08"}},
	{name64 + name64, lit{val: name64 + name64, str: true}}, {"12", lit{val: "12", str: true}}, {"NULL", lit{val: "NULL", str: true}}, {"true", lit{val: "true", str: true}},
	{"h\u00e9 \u65e5", lit{val: "h\u00e9 \u65e5", str: true}}, {"a\nb\t\x00", lit{val: "a\nb\t\x00", str: true}},
	{"'); DROP TABLE t; --", lit{val: "'); DROP TABLE t; --", str: true}}, {"\\'", lit{val: "\\'", str: true}},
}

func P11_AllKinds() {
	p := fixedPars[sym.Choose("p", len(fixedPars))]
	q := param("q", sym.Choose("qk", parKinds), 1)
	if sym.Choose("form", 2) == 0 {
		rowIs(bound1("INSERT INTO t (a, b, c) VALUES (?, ?, -1)", p, q), p.want, q.want, lit{val: "-1"})
		return
	}
	rowIs(bound1("INSERT INTO t(a,b,c)VALUES($1,1,$2)", p, q), p.want, lit{val: "1"}, q.want)
}

// many parameters
func P11_Many() {
	n := counts[sym.Choose("count", len(counts)-1)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	form := sym.Choose("form", 3)
	cols, q, ps := "", "", []par{}
	for i := 0; i < n; i++ {
		p := par{"p" + itoa(i), lit{val: "p" + itoa(i), str: true}}
		if i == at {
			p = param("p", 0, 2)
		}
		ps = append(ps, p)
		if i > 0 {
			cols += ", "
			q += ", "
		}
		cols += "c" + itoa(i)
		switch form {
		case 0:
			q += "?"
		case 1:
			q += "$" + itoa(i+1)
		default:
			q += "$" + itoa(n-i)
		}
	}
	st := bound1("INSERT INTO t ("+cols+") VALUES ("+q+")", ps...)
	ins, ok := st.(query.Insert)
	sym.Assert(ok && len(ins.Values()) == 1 && len(ins.Values()[0]) == n, "binding keeps the number of values")
	for i, c := range ins.Values()[0] {
		j := i
		if form == 2 {
			j = n - 1 - i
		}
		sym.Assert(ps[j].want.is(c.Value(), c.ValueType()), "each placeholder has the value of its own parameter")
	}
	sym.Cover("end")
}

// the places of a placeholder, several rows and several statements
func P11_Places() {
	p, q, r := param("p", sym.Choose("pk", 2), 2), param("q", 0, 1), param("r", 4, 1)
	switch sym.Choose("form", 5) {
	case 0:
		sts, err := bind("INSERT INTO t (a) VALUES (?); DELETE FROM t WHERE a = ?;UPDATE t SET a=?", p, q, r)
		sym.Assert(err == nil && len(sts) == 3, "parameters are bound across statements")
		rowIs(sts[0], p.want)
		(where{kind: 1, a: cmp{"a", 0, q.want}}).check(sts[1].(query.Delete).Where())
		c := sts[2].(query.Update).Columns()[0]
		sym.Assert(r.want.is(c.Value(), c.ValueType()), "each placeholder has the value of its own parameter")
	case 1:
		st := bound1("SELECT * FROM t WHERE a=? AND b >= ?", p, q)
		(where{kind: 2, a: cmp{"a", 0, p.want}, b: cmp{"b", 6, q.want}}).check(st.(query.Select).Where())
	case 2:
		st := bound1("UPDATE t SET a = $3, b = $1 WHERE c <> $2 OR d = $1", p, q, r)
		u := st.(query.Update)
		sym.Assert(r.want.is(u.Columns()[0].Value(), u.Columns()[0].ValueType()), "each placeholder has the value of its own parameter")
		sym.Assert(p.want.is(u.Columns()[1].Value(), u.Columns()[1].ValueType()), "each placeholder has the value of its own parameter")
		(where{kind: 3, a: cmp{"c", 2, q.want}, b: cmp{"d", 0, p.want}}).check(u.Where())
	case 3:
		st := bound1("INSERT INTO t (a, b) VALUES (?, 1), (2, ?), (?, 'x')", p, q, r)
		vs := st.(query.Insert).Values()
		sym.Assert(len(vs) == 3, "binding keeps the rows")
		sym.Assert(p.want.is(vs[0][0].Value(), vs[0][0].ValueType()) && q.want.is(vs[1][1].Value(), vs[1][1].ValueType()) && r.want.is(vs[2][0].Value(), vs[2][0].ValueType()), "each placeholder has the value of its own parameter")
	default:
		// a bound statement can be asked again
		b := stmt.NewBindStatement(stmt.WithBindStatementQuery("INSERT INTO t (a, b) VALUES (?, ?)"),
			stmt.WithBindStatementParams(stmt.BindParams{stmt.NewBindParam(p.v), stmt.NewBindParam(q.v)}))
		for i := 0; i < 2; i++ {
			sts, err := b.Statements()
			sym.Assert(err == nil && len(sts) == 1, "a bound statement can be asked again")
			rowIs(sts[0], p.want, q.want)
		}
	}
	sym.Cover("end")
}
