PROPERTY="P10"
NEEDS="a string value that begins or ends with a blank"
BREAKS="blanks at the ends of string values are lost"
EDITS=[("sql/parser/sqlite/parser_antlr_visitor.go",'''	"fmt"

	"github.com/cybergarage/go-safecast/safecast"''','''	"fmt"
	std_strings "strings"

	"github.com/cybergarage/go-safecast/safecast"'''),
("sql/parser/sqlite/parser_antlr_visitor.go","""		v := strings.UnEscapeString(ctx.GetText())
		return query.NewLiteralWith(""","""		v := strings.UnEscapeString(std_strings.TrimSpace(ctx.GetText()))
		if 2 < len(v) {
			v = std_strings.TrimRight(v, " ")
		}
		return query.NewLiteralWith(""")]
DEMO='''func main() {
	for _, v := range []string{"", "a", "abc", "ab ", " ab", "a b  "} {
		st, err := sql.NewParser().ParseString("INSERT INTO t (a) VALUES ('" + v + "')")
		check(err == nil && len(st) == 1, "parse %q: %v", v, err)
		c, err := st[0].(sql.Insert).Values()[0].LookupColumn("a")
		check(err == nil, "%v", err)
		check(c.Value() == v, "%q read as %q", v, c.Value())
	}
}
'''
