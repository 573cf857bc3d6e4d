package props

import (
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/util"
	"verif/harness/sym"
)

// hasDot reports whether a name has a dot, in one condition.
func hasDot(s string) bool {
	d := false
	for i := 0; i < len(s); i++ {
		d = sym.Or(d, s[i] == '.')
	}
	return d
}

// S33_Names: the names of one table.
func S33_Names() {
	max := 2 + sym.Tier()
	n := sym.Str("n", 0, max, "text")
	s := sym.Str("s", 0, max, "text")
	q := sym.Str("q", 0, max, "text")
	t := query.NewTableWith(n, query.WithTableSchema(s))
	sym.Assert(t.TableName() == n, "a table has the name given")
	sym.Assert(t.SchemaName() == s, "a table has the schema given")
	want := n
	if n != "" && s != "" && !hasDot(n) {
		want = s + "." + n
		sym.Cover("qualified")
	}
	sym.Assert(t.FullTableName() == want, "the full name is the schema, a dot and the name")
	sym.Assert(t.IsTableName(q) == sameFold(n, q), "a table is known by its whole name in any letter case")
	sym.Assert(t.IsSchemaName(q) == sameFold(s, q), "a schema is known by its whole name in any letter case")
	sym.Cover("end")
}

// S33_FullName: the full name is recognised in any letter case.
func S33_FullName() {
	n := sym.Str("n", 1, 2, "name")
	var t query.Table
	full := n
	if sym.Choose("qual", 2) == 1 {
		s := sym.Str("s", 1, 1, "name")
		full = s + "." + n
		t = query.NewTableWith(n, query.WithTableSchema(s))
	} else {
		t = query.NewTableWith(n)
		sym.Assert(t.SchemaName() == "", "a table has no schema unless given")
	}
	q := sym.Str("q", 0, 4, "text")
	sym.Assert(t.IsFullTableName(q) == sameFold(full, q), "a table is known by its full name in any letter case")
	sym.Assert(t.IsFullTableName(full), "a table is known by its full name")
	sym.Cover("end")
}

// tableList draws a list of tables.
func tableList(n int) (query.TableList, []string, []string) {
	l := query.NewTables()
	var ns, ss []string
	for i := 0; i < n; i++ {
		a := sym.Str("n"+itoa(i), 1, 1, "letter")
		s := ""
		if i%2 == 1 {
			s = sym.Str("s"+itoa(i), 1, 1, "letter")
			l = append(l, query.NewTableWith(a, query.WithTableSchema(s)))
		} else {
			l = append(l, query.NewTableWith(a))
		}
		ns = append(ns, a)
		ss = append(ss, s)
	}
	return l, ns, ss
}

// S33_Lists: lists of tables.
func S33_Lists() {
	n := sym.Choose("n", 4+sym.Tier())
	l, ns, ss := tableList(n)
	got := l.TableNames()
	sym.Assert(len(got) == n && len(l.Tables()) == n, "a list has one name per table")
	text := ""
	for i := range got {
		want := ns[i]
		if ss[i] != "" {
			want = ss[i] + "." + ns[i]
		}
		sym.Assert(got[i] == want, "the names of a list are the full names, in order")
		if i > 0 {
			text += ", "
		}
		text += want
	}
	sym.Assert(l.String() == text, "a list prints its full names in order")
	c := query.NewTablesWith(l...)
	sym.Assert(len(c) == n, "a copy has the same tables")
	for i := range c {
		sym.Assert(c[i] == l[i], "a copy has the same tables")
		l[i] = query.NewTableWith("changed")
	}
	for i := range c {
		sym.Assert(c[i].TableName() == ns[i], "a copy does not change with the list")
	}
	sym.Cover("end")
}

// S33_Has: which names a list has.
func S33_Has() {
	n := sym.Choose("n", 4)
	l, ns, ss := tableList(n)
	k := sym.Choose("k", 3)
	var qs []string
	for i := 0; i < k; i++ {
		qs = append(qs, sym.Str("q"+itoa(i), 1, 1, "letter"))
	}
	table, schema := false, false
	for _, q := range qs {
		for i := range ns {
			table = sym.Or(table, sameFold(ns[i], q))
			schema = sym.Or(schema, sameFold(ss[i], q))
		}
	}
	sym.Assert(l.HasTable(qs...) == table, "a list has a table exactly when one has one of the names")
	sym.Assert(l.HasTableName(qs...) == table, "a list has a table name exactly when one has one of the names")
	sym.Assert(l.HasSchemaTable(qs...) == schema, "a list has a schema exactly when a table has one of the schemas")
	sym.Cover("end")
}

// U34_History: a stack against a slice.
func U34_History() {
	s := util.NewStack()
	var m []int64
	steps := 6 + 2*sym.Tier()
	for i := 0; i < steps; i++ {
		switch sym.Choose("op"+itoa(i), 3) {
		case 0:
			v := sym.Int64("v" + itoa(i))
			s.PushObject(v)
			m = append(m, v)
		case 1:
			got := s.PopObject()
			if len(m) == 0 {
				sym.Assert(got == nil, "an empty stack gives nothing")
				sym.Cover("pop of an empty stack")
				break
			}
			v, ok := got.(int64)
			sym.Assert(ok && v == m[len(m)-1], "pop gives the object pushed last")
			m = m[:len(m)-1]
		default:
			got := s.PeekObject()
			if len(m) == 0 {
				sym.Assert(got == nil, "an empty stack shows nothing")
				break
			}
			v, ok := got.(int64)
			sym.Assert(ok && v == m[len(m)-1], "peek shows the object pushed last")
			sym.Cover("peek")
		}
		sym.Assert(s.Size() == len(m), "the size is the number of objects held")
	}
	for i := len(m) - 1; i >= 0; i-- {
		v, ok := s.PopObject().(int64)
		sym.Assert(ok && v == m[i], "the objects come out in reverse order")
	}
	sym.Assert(s.Size() == 0 && s.PopObject() == nil && s.PeekObject() == nil && s.Size() == 0, "an emptied stack is empty")
	sym.Cover("end")
}

// U34_Deep: a stack of many objects, and two stacks side by side.
func U34_Deep() {
	s, o := util.NewStack(), util.NewStack()
	n := []int{1, 2, 3, 8, 15, 16, 17, 32, 33, 64, 65, 100, 130}[sym.Choose("n", 11+2*sym.Tier())]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	x := sym.Str("x", 0, 2, "byte")
	for i := 0; i < n; i++ {
		if i == at {
			s.PushObject(x)
		} else {
			s.PushObject(i)
		}
		o.PushObject(-i)
	}
	again := sym.Choose("again", 2) * n / 2
	for i := 0; i < again; i++ {
		s.PopObject()
	}
	for i := n - again; i < n; i++ {
		if i == at {
			s.PushObject(x)
		} else {
			s.PushObject(i)
		}
	}
	sym.Assert(s.Size() == n && o.Size() == n, "the size is the number of objects held")
	for i := n - 1; i >= 0; i-- {
		p := s.PeekObject()
		v := s.PopObject()
		if i == at {
			t, ok := v.(string)
			sym.Assert(ok && t == x, "the objects come out in reverse order")
			sym.Assert(p == v, "peek shows what pop gives")
		} else {
			sym.Assert(v == any(i) && p == v, "the objects come out in reverse order")
		}
		sym.Assert(o.PopObject() == any(-i), "stacks do not share objects")
	}
	s.PushObject(nil)
	sym.Assert(s.Size() == 1 && s.PopObject() == nil && s.Size() == 0, "nil is an object")
	sym.Cover("end")
}
