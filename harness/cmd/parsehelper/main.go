// parsehelper runs the lexer and the parser built from /repo and dumps the
// parse tree. One JSON request (a string) per line in, one JSON result out.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"
	"unsafe"

	"github.com/antlr4-go/antlr/v4"
	gen "github.com/cybergarage/go-sqlparser/sql/parser/sqlite/antlr"
)

type tok struct {
	T int    `json:"t"`
	C int    `json:"c"`
	A int    `json:"a"`
	B int    `json:"b"`
	I int    `json:"i"`
	L int    `json:"l"`
	K int    `json:"k"`
	X string `json:"x"`
	N string `json:"n"`
}

type field struct {
	F  string `json:"f"`
	N  int    `json:"n"`
	T  int    `json:"t"`
	Ns []int  `json:"ns,omitempty"`
	Ts []int  `json:"ts,omitempty"`
	K  string `json:"k"`
}

type node struct {
	K    string  `json:"k"`
	T    string  `json:"T,omitempty"`
	P    int     `json:"p"`
	Inv  int     `json:"inv"`
	Rule int     `json:"rule"`
	S    int     `json:"s"`
	E    int     `json:"e"`
	Ch   []int   `json:"ch,omitempty"`
	F    []field `json:"fs,omitempty"`
	Tok  int     `json:"tok"`
}

type perr struct {
	L   int    `json:"l"`
	C   int    `json:"c"`
	Msg string `json:"m"`
	Tok int    `json:"tok"`
}

type result struct {
	Panic  string   `json:"panic,omitempty"`
	Tokens []tok    `json:"tokens"`
	Nodes  []node   `json:"nodes"`
	Root   int      `json:"root"`
	LexE   []perr   `json:"lexe,omitempty"`
	ParE   []perr   `json:"pare,omitempty"`
	Keys   []string `json:"keys,omitempty"`
}

type listener struct {
	*antlr.DefaultErrorListener
	errs *[]perr
	d    *dumper
}

func (l *listener) SyntaxError(r antlr.Recognizer, sym any, line, col int, msg string, e antlr.RecognitionException) {
	t := -1
	if tk, ok := sym.(antlr.Token); ok && tk != nil && l.d != nil {
		t = l.d.token(tk)
	}
	*l.errs = append(*l.errs, perr{line, col, msg, t})
}

type dumper struct {
	res  *result
	toks map[antlr.Token]int
	ids  map[uintptr]int
	sym  []string
}

func (d *dumper) token(t antlr.Token) int {
	if t == nil || reflect.ValueOf(t).IsNil() {
		return -1
	}
	if i, ok := d.toks[t]; ok {
		return i
	}
	i := len(d.res.Tokens)
	d.toks[t] = i
	n := ""
	if tt := t.GetTokenType(); tt >= 0 && tt < len(d.sym) {
		n = d.sym[tt]
	}
	d.res.Tokens = append(d.res.Tokens, tok{t.GetTokenType(), t.GetChannel(), t.GetStart(), t.GetStop(), t.GetTokenIndex(), t.GetLine(), t.GetColumn(), t.GetText(), n})
	return i
}

// unlock makes an unexported field readable.
func unlock(v reflect.Value) reflect.Value {
	if v.CanInterface() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func (d *dumper) node(x any, parent int) int {
	v := reflect.ValueOf(x)
	if !v.IsValid() || v.Kind() != reflect.Pointer || v.IsNil() {
		return -1
	}
	if i, ok := d.ids[v.Pointer()]; ok {
		return i
	}
	i := len(d.res.Nodes)
	d.ids[v.Pointer()] = i
	d.res.Nodes = append(d.res.Nodes, node{P: parent})
	var n node
	n.P = parent
	switch y := x.(type) {
	case *antlr.ErrorNodeImpl:
		n.K, n.Tok = "err", d.token(y.GetSymbol())
	case *antlr.TerminalNodeImpl:
		n.K, n.Tok = "term", d.token(y.GetSymbol())
	case antlr.ParserRuleContext:
		n.K, n.T = "ctx", v.Type().Elem().Name()
		n.Inv, n.Rule = y.GetInvokingState(), y.GetRuleIndex()
		n.S, n.E = d.token(y.GetStart()), d.token(y.GetStop())
		for _, c := range y.GetChildren() {
			n.Ch = append(n.Ch, d.node(c, i))
		}
		d.fields(v.Elem(), i, &n)
	default:
		panic(fmt.Sprintf("unknown tree node %T", x))
	}
	d.res.Nodes[i] = n
	return i
}

func (d *dumper) fields(s reflect.Value, id int, n *node) {
	t := s.Type()
	for k := 0; k < t.NumField(); k++ {
		f := t.Field(k)
		fv := unlock(s.Field(k))
		if f.Type == reflect.TypeOf(antlr.BaseParserRuleContext{}) || f.Name == "parser" {
			continue
		}
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			d.fields(s.Field(k), id, n)
			continue
		}
		switch fv.Kind() {
		case reflect.Interface:
			if fv.IsNil() {
				continue
			}
			switch y := fv.Interface().(type) {
			case antlr.Token:
				n.F = append(n.F, field{F: f.Name, T: d.token(y), K: "t"})
			case antlr.Tree:
				n.F = append(n.F, field{F: f.Name, N: d.node(y, id), K: "n"})
			}
		case reflect.Slice:
			fl := field{F: f.Name, K: "ns"}
			for j := 0; j < fv.Len(); j++ {
				switch y := fv.Index(j).Interface().(type) {
				case antlr.Token:
					fl.K = "ts"
					fl.Ts = append(fl.Ts, d.token(y))
				case antlr.Tree:
					fl.Ns = append(fl.Ns, d.node(y, id))
				}
			}
			if fv.Len() > 0 {
				n.F = append(n.F, fl)
			}
		}
	}
}

func parse(q string) (res *result) {
	res = &result{}
	defer func() {
		if x := recover(); x != nil {
			res = &result{Panic: fmt.Sprint(x)}
		}
	}()
	d := &dumper{res: res, toks: map[antlr.Token]int{}, ids: map[uintptr]int{}}
	in := antlr.NewInputStream(q)
	lex := gen.NewSQLiteLexer(in)
	d.sym = lex.SymbolicNames
	lex.RemoveErrorListeners()
	lex.AddErrorListener(&listener{errs: &res.LexE})
	ts := antlr.NewCommonTokenStream(lex, 0)
	p := gen.NewSQLiteParser(ts)
	p.RemoveErrorListeners()
	p.AddErrorListener(&listener{errs: &res.ParE, d: d})
	p.BuildParseTrees = true
	ts.Fill()
	for _, t := range ts.GetAllTokens() {
		d.token(t)
	}
	tree := p.Parse()
	res.Root = d.node(tree, -1)
	return res
}

func keywords() []string {
	lex := gen.NewSQLiteLexer(antlr.NewInputStream(""))
	var out []string
	for _, l := range lex.LiteralNames {
		w := strings.Trim(l, "'")
		if w == "" {
			continue
		}
		ok := true
		for _, r := range w {
			if !(r == '_' || (r >= 'A' && r <= 'Z') || (r >= 'a' && r <= 'z')) {
				ok = false
			}
		}
		if ok {
			out = append(out, strings.ToUpper(w))
		}
	}
	return out
}

func main() {
	sc := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	enc.Encode(&result{Keys: keywords()})
	w.Flush()
	for {
		line, err := sc.ReadBytes('\n')
		if err != nil {
			return
		}
		var b []byte
		if err := json.Unmarshal(line, &b); err != nil {
			panic(err)
		}
		enc.Encode(parse(string(b)))
		w.Flush()
	}
}
