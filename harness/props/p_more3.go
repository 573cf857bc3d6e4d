package props

import (
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/util"
	"github.com/cybergarage/go-sqlparser/sql/util/strings"
	"verif/harness/sym"
)

// ---- S33

// words that databases give a meaning to are names like others
var schemaWords = []string{"main", "temp", "public", "dbo", "default", "information_schema", "sys", "mysql", "pg_catalog", "*", "t", "T", name64}

func S33_Words() {
	s := schemaWords[sym.Choose("schema", len(schemaWords))]
	n := sym.Str("n", 1, 2, "name")
	if sym.Choose("word", 2) == 1 {
		n = schemaWords[sym.Choose("name", len(schemaWords))]
	}
	t, u := query.NewTableWith(n, query.WithTableSchema(s)), query.NewTableWith(n)
	sym.Assert(t.TableName() == n && t.SchemaName() == s && t.FullTableName() == s+"."+n, "a table has the name and the schema given")
	sym.Assert(t.IsTableName(n) && t.IsTableName(upper(n)) && t.IsSchemaName(s) && t.IsSchemaName(upper(s)) && t.IsFullTableName(upper(s)+"."+n), "a table is known by its names in any letter case")
	sym.Assert(!t.IsFullTableName(n) && !t.IsFullTableName(s) && !t.IsTableName(s+"."+n), "a table is known by its whole name")
	sym.Assert(!t.IsFullTableName(n+"."+s) || sameFold(n, s), "a table is known by its whole name")
	sym.Assert(u.IsFullTableName(lower(n)) && !u.IsFullTableName(s+"."+n) && !u.IsSchemaName(s) && u.IsSchemaName(""), "a table without a schema is known by its name")
	w := sym.Str("w", 1, 2, "name")
	sym.Assert(t.IsTableName(w) == sameFold(w, n) && t.IsSchemaName(w) == sameFold(w, s) && t.IsFullTableName(w) == false, "a table is known by its whole name")
	sym.Assert(u.IsFullTableName(w) == sameFold(w, n), "a table is known by its whole name")
	sym.Cover("end")
}

// longer names
func S33_LongNames() {
	k := 3 + sym.Choose("n", 6)
	n, q := sym.Str("n", k, k, "name"), sym.Str("q", k, k, "name")
	s := sym.Str("s", k, k, "name")
	t := query.NewTableWith(n, query.WithTableSchema(s))
	sym.Assert(t.FullTableName() == s+"."+n, "the full name is the schema, a dot and the name")
	sym.Assert(t.IsTableName(q) == sameFold(n, q), "a table is known by its whole name in any letter case")
	sym.Assert(t.IsSchemaName(q) == sameFold(s, q), "a schema is known by its whole name in any letter case")
	sym.Assert(t.IsFullTableName(s+"."+q) == sameFold(n, q), "a table is known by its full name in any letter case")
	sym.Assert(t.IsFullTableName(q+"."+n) == sameFold(s, q), "a table is known by its full name in any letter case")
	sym.Cover("end")
}

// lists of many tables
func S33_ManyTables() {
	n := counts[sym.Choose("n", len(counts))]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	x, xs := sym.Str("x", 1, 2, "letter"), sym.Str("xs", 1, 2, "letter")
	l := query.NewTables()
	var want []string
	for i := 0; i < n; i++ {
		a := "tab" + itoa(i)
		switch {
		case i == at:
			l = append(l, query.NewTableWith(x, query.WithTableSchema(xs)))
			want = append(want, xs+"."+x)
		case i%3 == 1:
			l = append(l, query.NewTableWith(a, query.WithTableSchema("sch"+itoa(i))))
			want = append(want, "sch"+itoa(i)+"."+a)
		default:
			l = append(l, query.NewTableWith(a))
			want = append(want, a)
		}
	}
	sym.Assert(names(l.TableNames()).same(want), "the names of a list are the full names, in order")
	text := ""
	for i, w := range want {
		if i > 0 {
			text += ", "
		}
		text += w
	}
	sym.Assert(l.String() == text, "a list prints its full names in order")
	q := sym.Str("q", 1, 2, "letter")
	sym.Assert(l.HasTable(q) == sameFold(q, x) && l.HasTableName(q) == sameFold(q, x), "a list has a table exactly when one has one of the names")
	sym.Assert(l.HasSchemaTable(q) == sameFold(q, xs), "a list has a schema exactly when a table has one of the schemas")
	var many []string
	for i := 0; i < n; i++ {
		many = append(many, "other"+itoa(i))
	}
	sym.Assert(!l.HasTable(many...) && !l.HasSchemaTable(many...), "a list has no other tables")
	many[n-1-at] = q
	sym.Assert(l.HasTable(many...) == sameFold(q, x) && l.HasTableName(many...) == sameFold(q, x), "a list has a table exactly when one has one of the names")
	sym.Assert(l.HasSchemaTable(many...) == sameFold(q, xs), "a list has a schema exactly when a table has one of the schemas")
	c := query.NewTablesWith(l...)
	sym.Assert(len(c) == n && len(c.Tables()) == n, "a copy has the same tables")
	for i := range c {
		sym.Assert(c[i] == l[i] && c.Tables()[i] == l[i], "a copy has the same tables")
	}
	sym.Cover("end")
}

// ---- U34

// objects of any kinds, nil among them, at any depth
func U34_Kinds() {
	n := []int{1, 2, 5, 17, 33}[sym.Choose("n", 5)]
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	var x any
	switch sym.Choose("kind", 7) {
	case 0:
	case 1:
		x = sym.Str("x", 0, 2, "byte")
	case 2:
		x = sym.Bool("x")
	case 3:
		x = 0
	case 4:
		x = ""
	case 5:
		x = &struct{ a int }{1}
	default:
		x = sym.Int64("x")
	}
	s := util.NewStack()
	for i := 0; i < n; i++ {
		if i == at {
			s.PushObject(x)
		} else {
			s.PushObject(i)
		}
	}
	for i := n - 1; i >= 0; i-- {
		want := any(i)
		if i == at {
			want = x
		}
		sym.Assert(s.Size() == i+1 && s.PeekObject() == want && s.Size() == i+1, "peek shows the object pushed last and keeps it")
		sym.Assert(s.PopObject() == want && s.Size() == i, "pop gives the object pushed last and takes it")
		if i == at && i > 0 { // push and pop in between
			s.PushObject(x)
			s.PushObject("y")
			sym.Assert(s.PopObject() == any("y") && s.PopObject() == x && s.Size() == i, "pop gives the object pushed last and takes it")
		}
	}
	sym.Assert(s.PopObject() == nil && s.PeekObject() == nil && s.Size() == 0, "an emptied stack is empty")
	sym.Cover("end")
}

// ---- P10

// many quotes, at any places of long strings
func P10_ManyQuotes() {
	n := counts[sym.Choose("n", len(counts))]
	s := sym.Str("x", 0, 1, "ascii")
	switch sym.Choose("form", 4) {
	case 0:
		for i := 0; i < n; i++ {
			s += "'"
		}
	case 1:
		for i := 0; i < n; i++ {
			s += "a'b"
		}
	case 2:
		for i := 0; i < n; i++ {
			s = "''" + s + "\"'"
		}
	default:
		for i := 0; i < n; i++ {
			s = s + " '"
		}
		s += sym.Str("y", 1, 1, "ascii")
	}
	e := strings.EscapeString(s)
	sym.Assert(e == escaped(s) && strings.UnEscapeString(e) == s, "unescaping gives the string that was escaped")
	roundTrip(stringIn(sym.Choose("place", 4), lit{text: escaped(s), val: s, str: true}))
}

// long strings
func P10_Long() {
	n := []int{16, 63, 127, 253, 255, 511, 1023, 4095, 65533}[sym.Choose("n", 9)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
		if i%11 == 10 {
			b[i] = ' '
		}
	}
	s := sym.Str("x", 0, 1, "ascii") + string(b) + sym.Str("y", 0, 1, "ascii")
	roundTrip(stringIn(sym.Choose("place", 4), lit{text: escaped(s), val: s, str: true}))
}

// control characters at the ends
func P10_Ends() {
	ends := []string{"", " ", "\t", "\n", "\r", "\x00", "\\", "'", "\"", "`", ";", ".", "0", "\u00a0", "\u3000", "\ufeff", "\u00e9"}
	s := ends[sym.Choose("head", len(ends))] + sym.Str("s", 0, 2, "[a ]") + ends[sym.Choose("tail", len(ends))]
	sym.Assert(strings.UnEscapeString(strings.EscapeString(s)) == s, "unescaping gives the string that was escaped")
	roundTrip(stringIn(sym.Choose("place", 4), lit{text: escaped(s), val: s, str: true}))
}

// numbers, words and dates in quotes are strings
var lookalikes = []string{"0", "1", "-1", "+1", "1.5", ".5", "1e5", "0x1F", "007", "9223372036854775808", "NULL", "null", "Null", "TRUE", "true", "false", "?", "$1", ":a", "@a", "*", "**", "DEFAULT", "CURRENT_TIMESTAMP", "now()",
	"2024-02-29", "2024-02-29 12:00:00", "2024-02-29T12:00:00Z", "NaN", "inf", "-0", "a.b", "a, b", "(a)", "{}", "[1]", "'", "''", "x'00'", "SELECT * FROM t", "a + 1", "-- a", "/* a */", "%", "_", "\\n", "\\0", "\\'"}

func P10_Lookalikes() {
	s := lookalikes[sym.Choose("a", len(lookalikes))]
	switch sym.Choose("around", 3) {
	case 1:
		s += sym.Str("x", 1, 1, "ascii")
	case 2:
		s = sym.Str("x", 1, 1, "ascii") + s
	}
	roundTrip(stringIn(sym.Choose("place", 4), lit{text: escaped(s), val: s, str: true}))
}
