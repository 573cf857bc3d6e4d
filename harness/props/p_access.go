package props

import (
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/util/strings"
	"verif/harness/sym"
)

// ---- P10: the escaping itself, for every byte

func P10_Escape() {
	s := sym.Str("s", 0, 5, "byte")
	e := strings.EscapeString(s)
	sym.Assert(len(e) >= len(s)+2 && e[0] == '\'' && e[len(e)-1] == '\'', "an escaped string is quoted")
	sym.Assert(strings.UnEscapeString(e) == s, "unescaping gives the string that was escaped")
	// every quote inside is doubled
	run := 0
	for i := 1; i < len(e)-1; i++ {
		if e[i] == '\'' {
			run++
		} else {
			sym.Assert(run%2 == 0, "a quote in a string is doubled")
			run = 0
		}
	}
	sym.Assert(run%2 == 0, "a quote in a string is doubled")
	sym.Cover("end")
}

func P10_Unescape() {
	q := []string{"'", "\""}[sym.Choose("q", 2)]
	a, b := sym.Str("a", 0, 2, "[!#-&(-~]"), sym.Str("b", 0, 2, "[!#-&(-~]")
	sym.Assert(strings.UnEscapeString(q+a+q+q+b+q) == a+q+b, "a doubled quote is one quote")
	sym.Assert(strings.UnEscapeString(a) == a, "a text without quotes is left as it is")
	other := []string{"\"", "'"}[sym.Choose("o", 2)]
	if other != q {
		sym.Assert(strings.UnEscapeString(q+a+other+other+b+q) == a+other+other+b, "other quotes in a string are left as they are")
	}
	sym.Cover("end")
}

// the parts of statements that can be read in several ways agree
func P06_Accessors() {
	t := sym.Ident("t", 1, 2)
	st, ok := parse1("DELETE FROM " + t + " WHERE a = 1").(query.Delete)
	sym.Assert(ok && st.TableName() == t, "a DELETE has its table")
	type tbl interface{ Table() query.Table }
	type from interface{ From() query.Table }
	type hasExpr interface{ Expr() query.Expr }
	if x, ok := st.(tbl); ok {
		sym.Assert(x.Table().TableName() == t, "a DELETE has its table")
	}
	if x, ok := st.(from); ok {
		sym.Assert(x.From().TableName() == t, "a DELETE has its table")
	}
	if x, ok := st.(hasExpr); ok {
		sym.Assert(x.Expr() == st.Where().Expr(), "a DELETE has its condition")
	}
	sym.Assert(st.HasConditions() && st.Where().HasConditions(), "a DELETE has its condition")
	sym.Cover("end")
}

func P05_Accessors() {
	t := sym.Ident("t", 1, 2)
	st, ok := parse1("UPDATE " + t + " SET a = 1 WHERE b = 2").(query.Update)
	sym.Assert(ok && st.TableName() == t, "an UPDATE has its table")
	type tbl interface{ Table() query.Table }
	if x, ok := st.(tbl); ok {
		sym.Assert(x.Table().TableName() == t, "an UPDATE has its table")
	}
	sym.Assert(st.Where().HasConditions() && st.Where().Expr() != nil, "an UPDATE has its condition")
	sym.Cover("end")
}

func P09_Vacuum() {
	t := sym.Ident("t", 1, 3)
	st, ok := parse1("VACUUM " + t).(query.Vacuum)
	sym.Assert(ok && st.TableName() == t && st.Table() != nil && st.Table().TableName() == t, "VACUUM has its table")
	sym.Cover("end")
}
