package props

import (
	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
	_ "verif/harness/models" // bodies for package sync under the engine
	"verif/harness/sym"
)

// gen builds SQL text with symbolic pieces. Names and literals are symbolic
// strings; one name (the focus) ranges over several lengths, the others have a
// fixed length. Structure is chosen with sym.Choose.
type gen struct {
	focus, n, max int
	min           int // length of the focused name, 0: 1
	kase, sep     int
	litLen        int
	all           bool   // all kinds of literals
	quote         bool   // names are written in back quotes where they are names
	prefix        string // the focused name starts with it
	plain         bool   // names and literals out of focus are concrete
	items         int    // length of lists, 0: small
	bigSize       bool
	conc          bool // numbers are concrete
	signed        int  // 1: numbers are below 1<<63
	lfocus, ln    int  // the literal in focus, with plain
}

// newGen chooses the focused name among the first names asked for.
func newGen(names, max int) *gen {
	g := &gen{max: max, litLen: 2}
	if names > 1 {
		g.focus = sym.Choose("focus", names)
	}
	return g
}

// raw is an unquoted identifier.
func (g *gen) raw(tag string) string {
	i := g.n
	g.n++
	if i == g.focus {
		if g.min > 0 {
			return g.prefix + sym.Ident(tag, g.min, g.max)
		}
		return g.prefix + sym.Ident(tag, 1, g.max)
	}
	if g.plain {
		return tag + "_N"
	}
	return sym.Ident(tag, 2, 2)
}

// name is a name at a place where back quotes are taken off.
func (g *gen) name(tag string) string {
	if !g.quote {
		return g.raw(tag)
	}
	i := g.n
	g.n++
	if i == g.focus {
		switch k := sym.Choose("quoted", 4); k {
		case 0:
			s := sym.Str(tag, 1, g.max, "name")
			if n := len(s); n > 1 {
				// quotes and parentheses around a quoted name are taken off too
				sym.Assume(!sym.Or(sym.And(s[0] == '\'', s[n-1] == '\''), sym.And(s[0] == '(', s[n-1] == ')')))
			}
			return s
		default:
			return []string{"select", "Table", "x, y"}[k-1]
		}
	}
	return "a'\"(b)-- " + tag
}

// q writes a name given by name.
func (g *gen) q(s string) string {
	if g.quote {
		return "`" + s + "`"
	}
	return s
}

// long makes the focused name start with one of several long or awkward texts.
func (g *gen) long() *gen {
	g.prefix = prefixes[sym.Choose("prefix", len(prefixes))]
	g.plain = true
	return g
}

// quoted makes the generator write names in back quotes.
func (g *gen) quoted() *gen {
	g.quote, g.plain = true, true
	return g
}

const name64 = "a_very_long_name_of_sixty_four_characters_in_all_0123456789_ABCD"

var prefixes = []string{name64, name64 + name64 + name64 + name64, "select", "_", "NULL_", "from1"}

// wide makes only the name and the literal in focus symbolic.
func wide(names, lits int) *gen {
	at := func(n int) int {
		return []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	}
	g := &gen{max: 1, litLen: 1, plain: true}
	if names > 0 {
		g.focus = at(names)
	}
	if lits > 0 {
		g.lfocus = at(lits)
	}
	return g
}

// counts are the lengths of wide lists.
var counts = []int{4, 5, 7, 9, 12, 17, 33, 65, 130}

func count() int { return counts[sym.Choose("count", len(counts)-2+2*sym.Tier())] }

// kw writes a keyword in the case of the generator.
func (g *gen) kw(s string) string {
	switch g.kase {
	case 1:
		return lower(s)
	case 2:
		// alternating case
		b := []byte(s)
		for i := range b {
			if i%2 == 1 && b[i] >= 'A' && b[i] <= 'Z' {
				b[i] += 'a' - 'A'
			}
		}
		return string(b)
	case 3:
		// capitalised
		return s[:1] + lower(s[1:])
	case 4:
		// alternating the other way
		b := []byte(s)
		for i := range b {
			if i%2 == 0 && b[i] >= 'A' && b[i] <= 'Z' {
				b[i] += 'a' - 'A'
			}
		}
		return string(b)
	}
	return s
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 'a' - 'A'
		}
	}
	return string(b)
}

// sp is a token separator of the layout of the generator.
func (g *gen) sp() string {
	switch g.sep {
	case 1:
		return "\n\t"
	case 2:
		return "/* c; */"
	case 3:
		return " -- c; \n"
	case 4:
		return "   "
	}
	return " "
}

// j joins tokens with the separator.
func (g *gen) j(parts ...string) string {
	s := ""
	for i, p := range parts {
		if i > 0 {
			s += g.sp()
		}
		s += p
	}
	return s
}

// lit is a literal: its SQL text, the value it denotes and whether it is a string.
type lit struct {
	text, val string
	str       bool
	null      bool
	bind      bool
}

const (
	litInt = iota
	litStr
	litNull
	litNeg
	litDec
	litTrue
	litFalse
	litBind
	litKinds
	// more kinds, not in the rotation of the small statements
	litExp = iota - 1
	litHex
	litBlob
	litPlus
	litDot
	litBig
	litQuotes
	litLong
	litAll
)

func (g *gen) lit(tag string, kind int) lit {
	i := g.ln
	g.ln++
	if g.plain && i != g.lfocus {
		switch kind % 3 {
		case 0:
			return lit{text: "-" + itoa(i) + ".5e3", val: "-" + itoa(i) + ".5e3"}
		case 1:
			return lit{text: "'it''s " + itoa(i) + "'", val: "it's " + itoa(i), str: true}
		default:
			return lit{text: itoa(i), val: itoa(i)}
		}
	}
	same := func(s string) lit { return lit{text: s, val: s} }
	switch kind {
	case litExp:
		return same(sym.Str(tag, 1, 1, "digit") + []string{"e", "E", ".5e-", "e+"}[sym.Choose("exp", 4)] + sym.Str(tag+"e", 1, 2, "digit"))
	case litHex:
		return same("0x" + sym.Str(tag, 1, 2, "digit") + "fA")
	case litBlob:
		return same("x'0" + sym.Str(tag, 1, 1, "digit") + "'")
	case litPlus:
		return same("+" + sym.Str(tag, 1, 2, "digit"))
	case litDot:
		return same([]string{"", "-", "+"}[sym.Choose("sign", 3)] + "." + sym.Str(tag, 1, 2, "digit"))
	case litBig:
		n := 9 + 10*sym.Choose("big", 2)
		return same([]string{"", "-"}[sym.Choose("sign", 2)] + sym.Str(tag, n, n, "digit"))
	case litQuotes:
		s := sym.Str(tag, 0, 3, "['a;]")
		return lit{text: escaped(s), val: s, str: true}
	case litLong:
		s := name64 + " -- it's; " + sym.Str(tag, 0, 2, "textnq") + name64
		return lit{text: escaped(s), val: s, str: true}
	case litInt:
		d := sym.Str(tag, 1, g.litLen, "digit")
		return lit{text: d, val: d}
	case litStr:
		s := sym.Str(tag, 0, g.litLen, "textnq")
		return lit{text: "'" + s + "'", val: s, str: true}
	case litNull:
		return lit{text: g.kw("NULL"), val: g.kw("NULL"), null: true}
	case litNeg:
		d := sym.Str(tag, 1, 1, "digit")
		return lit{text: "-" + d, val: "-" + d}
	case litDec:
		d := sym.Str(tag, 1, 1, "digit") + "." + sym.Str(tag+"f", 1, 1, "digit")
		return lit{text: d, val: d}
	case litTrue:
		return lit{text: g.kw("TRUE"), val: g.kw("TRUE")}
	case litFalse:
		return lit{text: g.kw("FALSE"), val: g.kw("FALSE")}
	default:
		return lit{text: "?", val: "?", bind: true}
	}
}

// is reports whether a value and literal type are those of the literal.
func (l lit) is(v any, typ query.LiteralType) bool {
	s, ok := v.(string)
	if !ok {
		return false
	}
	return s == l.val && (typ == query.StringLiteral) == l.str
}

func (l lit) check(v *query.Literal, what string) {
	sym.Assert(v != nil, what+": a literal is present")
	sym.Assert(l.is(v.Value(), v.ValueType()), what+": literal value is the one written")
	sym.Assert(v.IsNull() == l.null, what+": NULL is NULL and nothing else is")
	sym.Assert(v.IsPlaceHolder() == l.bind, what+": ? is a place holder and nothing else is")
}

// parse1 parses a text holding one statement.
func parse1(text string) query.Statement {
	sts, err := sql.NewParser().ParseString(text)
	sym.Assert(err == nil, "a supported statement parses without error")
	sym.Assert(len(sts) == 1, "one statement is returned for one statement")
	sym.Assert(sts[0] != nil, "the statement is not nil")
	return sts[0]
}

// checker examines a parsed statement.
type checker func(query.Statement)

// fidelity checks the parse result of a text.
func fidelity(text string, c checker) {
	c(parse1(text))
	sym.Cover("end")
}

// roundTrip checks that the printed statement parses to the same statement.
func roundTrip(text string, c checker) {
	s1 := parse1(text)
	printed := s1.String()
	s2 := parse1(printed)
	sym.Assert(s2.StatementType() == s1.StatementType(), "printing keeps the statement type")
	c(s2)
	sym.Assert(s2.String() == printed, "printing is a fixed point")
	sym.Cover("end")
}
