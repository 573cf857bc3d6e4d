package props

import (
	"errors"
	"math"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif/harness/sym"
)

// scalar functions: name, number of arguments, type
var scalars = []struct {
	name string
	args int
	typ  fn.FunctionType
}{
	{"ABS", 1, fn.MathFunction}, {"FLOOR", 1, fn.MathFunction}, {"CEIL", 1, fn.MathFunction}, {"ROUND", 1, fn.MathFunction},
	{"SQRT", 1, fn.MathFunction}, {"LOG", 1, fn.MathFunction}, {"LOG10", 1, fn.MathFunction}, {"EXP", 1, fn.MathFunction},
	{"SIN", 1, fn.MathFunction}, {"COS", 1, fn.MathFunction}, {"TAN", 1, fn.MathFunction},
	{"POWER", 2, fn.MathFunction}, {"MOD", 2, fn.MathFunction}, {"RAND", 0, fn.MathFunction}, {"PI", 0, fn.MathFunction},
	{"UPPER", 1, fn.StringFunction}, {"LOWER", 1, fn.StringFunction}, {"TRIM", 1, fn.StringFunction},
	{"+", 2, fn.ArithOperator}, {"-", 2, fn.ArithOperator}, {"*", 2, fn.ArithOperator}, {"/", 2, fn.ArithOperator}, {"%", 2, fn.ArithOperator},
	{"NOW", 0, fn.TimeFunction}, {"CURRENT_TIMESTAMP", 0, fn.TimeFunction},
}

const (
	fAbs = iota
	fFloor
	fCeil
	fRound
	fSqrt
	fLog
	fLog10
	fExp
	fSin
	fCos
	fTan
	fPower
	fMod
	fRand
	fPi
	fUpper
	fLower
	fTrim
	fAdd
	fSub
	fMul
	fDiv
	fRem
)

// run executes a scalar function on arguments given in one of the forms a row may have.
func run(k int, args ...any) (any, error) {
	ns := []string{"x", "y", "z"}[:len(args)]
	ex, err := fn.NewExecutorForName(scalars[k].name, fn.WithExecutorArguments(ns))
	sym.Assert(err == nil && ex != nil, "a scalar function is found by its name")
	sym.Assert(ex.Name() == scalars[k].name && ex.Type() == scalars[k].typ, "a scalar function has its name and type")
	m := map[string]any{"other": 7.0}
	for i, n := range ns {
		m[n] = args[i]
	}
	switch sym.Choose("form", 6) {
	case 0:
		return ex.Execute(args)
	case 1:
		return ex.Execute(fn.NewRow(args...))
	case 2:
		return ex.Execute(m)
	case 3:
		return ex.Execute(fn.Map(m))
	case 4:
		if len(args) != 1 || args[0] == nil {
			sym.Stop()
		}
		return ex.Execute(args[0])
	default:
		return fn.ExecuteFunction(scalars[k].name, args)
	}
}

func isFloat(v any, err error, w float64, what string) {
	x, ok := v.(float64)
	sym.Assert(err == nil && ok, "a scalar function has a value in its domain")
	sym.Assert(sym.Or(x == w, sym.And(x != x, w != w)), what)
	sym.Cover("end")
}

func domain(v any, err error) {
	sym.Assert(err != nil && v == nil, "an argument outside the domain is refused")
	sym.Assert(errors.Is(err, fn.ErrNegativeValue), "the refusal says that the value is negative")
	sym.Cover("refused")
}

// functions of one number
func F22_Unary() {
	k := []int{fAbs, fSqrt, fLog, fLog10, fExp, fSin, fCos, fTan}[sym.Choose("fn", 8)]
	x := 2.5
	if sym.Choose("sym", 2) == 1 {
		x = sym.Float64("x")
	}
	v, err := run(k, x)
	switch k {
	case fAbs:
		isFloat(v, err, sym.Ite(x < 0, -x, x), "ABS is the absolute value")
	case fSqrt:
		if x < 0 {
			domain(v, err)
			return
		}
		isFloat(v, err, math.Sqrt(x), "SQRT is the square root")
	case fLog, fLog10:
		if x <= 0 {
			domain(v, err)
			return
		}
		if k == fLog {
			isFloat(v, err, math.Log(x), "LOG is the natural logarithm")
		} else {
			isFloat(v, err, math.Log10(x), "LOG10 is the decimal logarithm")
		}
	case fExp:
		isFloat(v, err, math.Exp(x), "EXP is the exponential")
	case fSin:
		isFloat(v, err, math.Sin(x), "SIN is the sine")
	case fCos:
		isFloat(v, err, math.Cos(x), "COS is the cosine")
	default:
		isFloat(v, err, math.Tan(x), "TAN is the tangent")
	}
}

// FLOOR, CEIL and ROUND of numbers that an integer can hold
func F22_Integers() {
	k := fFloor + sym.Choose("fn", 3)
	x := sym.Float64("x")
	sym.Assume(sym.And(x > -(1<<52), x < 1<<52))
	v, err := run(k, x)
	n, ok := v.(int)
	sym.Assert(err == nil && ok, "FLOOR, CEIL and ROUND have an integer value")
	f := float64(n)
	switch k {
	case fFloor:
		sym.Assert(sym.And(f <= x, x < f+1), "FLOOR is the greatest integer that is not greater")
	case fCeil:
		sym.Assert(sym.And(f >= x, x > f-1), "CEIL is the least integer that is not less")
	default:
		sym.Assert(f == math.Round(x), "ROUND is the nearest integer, halves away from zero")
	}
	sym.Cover("end")
}

// functions of two numbers
func F22_Binary() {
	k := []int{fPower, fMod, fAdd, fSub, fMul, fDiv}[sym.Choose("fn", 6)]
	x, y := 7.5, 2.0
	if sym.Choose("sym", 2) == 1 {
		x, y = sym.Float64("x"), sym.Float64("y")
	}
	v, err := run(k, x, y)
	switch k {
	case fPower:
		sym.Assume(sym.And(y > -(1<<52), y < 1<<52))
		if sym.And(x < 0, y != math.Trunc(y)) {
			domain(v, err)
			return
		}
		isFloat(v, err, math.Pow(x, y), "POWER is the power")
	case fMod:
		if y == 0 {
			sym.Assert(err != nil && v == nil && errors.Is(err, fn.ErrInvalid), "a remainder by zero is refused")
			sym.Cover("refused")
			return
		}
		isFloat(v, err, math.Mod(x, y), "MOD is the remainder")
	case fAdd:
		isFloat(v, err, x+y, "+ adds")
	case fSub:
		isFloat(v, err, x-y, "- subtracts")
	case fMul:
		isFloat(v, err, x*y, "* multiplies")
	default:
		isFloat(v, err, x/y, "/ divides")
	}
}

// % of integers
func F22_Remainder() {
	var x, y int
	if sym.Choose("which", 2) == 0 {
		x, y = sym.IntRange("x", -999, 999), []int{-7, -1, 1, 2, 10}[sym.Choose("by", 5)]
	} else {
		x, y = []int{-17, 0, 9}[sym.Choose("of", 3)], sym.IntRange("y", -9, 9)
	}
	v, err := run(fRem, x, y)
	if y == 0 {
		sym.Assert(err != nil && errors.Is(err, fn.ErrInvalid), "a remainder by zero is refused")
		sym.Cover("refused")
		return
	}
	r, ok := v.(float64)
	sym.Assert(err == nil && ok, "% has a value")
	sym.Assert(r == float64(x%y), "% is the remainder of integers")
	sym.Cover("end")
}

// functions of no argument
func F22_Constants() {
	switch sym.Choose("fn", 3) {
	case 0:
		v, err := run(fPi)
		isFloat(v, err, math.Pi, "PI is the number pi")
	case 1:
		ex, err := fn.NewExecutorForName("PI")
		sym.Assert(err == nil, "a scalar function is found by its name")
		v, err := ex.Execute(nil)
		isFloat(v, err, math.Pi, "PI is the number pi")
	default:
		v, err := run(fRand)
		x, ok := v.(float64)
		sym.Assert(err == nil && ok, "RAND has a value")
		sym.Assert(sym.And(x >= 0, x < 1), "RAND is at least zero and less than one")
		sym.Cover("end")
	}
}

// numbers of every kind are numbers
func F22_Kinds() {
	k := []int{fAbs, fSqrt, fAdd}[sym.Choose("fn", 3)]
	v, f, some := val("v", sym.Choose("kind", 7))
	switch k {
	case fAbs:
		r, err := run(fAbs, v)
		if !some {
			sym.Assert(err != nil && errors.Is(err, fn.ErrInvalid), "no number is refused")
			return
		}
		isFloat(r, err, sym.Ite(f < 0, -f, f), "ABS is the absolute value")
	case fSqrt:
		r, err := run(fSqrt, v)
		if !some {
			sym.Assert(err != nil && errors.Is(err, fn.ErrInvalid), "no number is refused")
			return
		}
		if f < 0 {
			domain(r, err)
			return
		}
		isFloat(r, err, math.Sqrt(f), "SQRT is the square root")
	default:
		r, err := run(fAdd, 1.0, v)
		if !some {
			sym.Assert(err != nil, "no number is refused")
			return
		}
		isFloat(r, err, 1+f, "+ adds")
	}
}

// a wrong number of arguments, or arguments that are no numbers
func F22_Refused() {
	k := sym.Choose("fn", len(scalars)-2)
	switch sym.Choose("how", 2) {
	case 0:
		n := sym.Choose("args", 4)
		if n == scalars[k].args {
			sym.Stop()
		}
		var args []any
		for i := 0; i < n; i++ {
			args = append(args, sym.Float64("x"+itoa(i)))
		}
		if k >= fUpper && k <= fTrim {
			for i := range args {
				args[i] = "s"
			}
		}
		v, err := run(k, args...)
		sym.Assert(err != nil && v == nil, "a wrong number of arguments is refused")
		sym.Assert(errors.Is(err, fn.ErrInvalid), "the refusal says that the arguments are invalid")
		sym.Cover("count")
	default:
		if scalars[k].typ == fn.StringFunction || scalars[k].args == 0 {
			sym.Stop()
		}
		var args []any
		at := sym.Choose("at", scalars[k].args)
		for i := 0; i < scalars[k].args; i++ {
			if i == at {
				args = append(args, sym.Str("s", 1, 2, "[g-m ]"))
			} else {
				args = append(args, sym.Float64("x"))
			}
		}
		v, err := run(k, args...)
		sym.Assert(err != nil && v == nil, "a text that is no number is refused")
		sym.Cover("text")
	}
}

// texts
func F22_Strings() {
	k := fUpper + sym.Choose("fn", 3)
	s := sym.Str("s", 0, 3, "text")
	v, err := run(k, s)
	r, ok := v.(string)
	sym.Assert(err == nil && ok, "a text function has a text")
	if k == fTrim {
		lo, hi := 0, len(s)
		for lo < hi && blank(s[lo]) {
			lo++
		}
		for lo < hi && blank(s[hi-1]) {
			hi--
		}
		sym.Assert(r == s[lo:hi], "TRIM removes the blanks at both ends and nothing else")
		sym.Cover("end")
		return
	}
	sym.Assert(len(r) == len(s), "UPPER and LOWER keep the length")
	same := true
	for i := 0; i < len(s); i++ {
		w := s[i]
		if k == fUpper {
			w = sym.Ite(sym.And(w >= 'a', w <= 'z'), w-32, w)
		} else {
			w = foldByte(w)
		}
		same = sym.And(same, r[i] == w)
	}
	sym.Assert(same, "UPPER and LOWER change the letter case and nothing else")
	sym.Cover("end")
}

func blank(c byte) bool {
	return sym.Or(c == ' ', sym.And(c >= 9, c <= 13))
}

// the arithmetic of an UPDATE on the row it is applied to
func F22_Update() {
	op := sym.Choose("op", 4)
	n := []string{"0", "3", "12"}[sym.Choose("by", 3)]
	if op != 3 {
		n = sym.Str("n", 1, 2, "digit")
	}
	x := sym.Float64("x")
	sym.Assume(x == x)
	up, ok := parse1("UPDATE t SET c = d " + arithOps[op] + " " + n).(query.Update)
	sym.Assert(ok && len(up.Columns()) == 1, "an update is read")
	row := map[string]any{"c": 1.0, "d": x}
	f, ok := up.Columns()[0].Function()
	sym.Assert(ok, "arithmetic is a function")
	ex, e := f.Executor()
	sym.Assert(e == nil, "arithmetic can be executed")
	v, err := ex.Execute(row)
	w := float64(num(n))
	isFloat(v, err, []float64{x + w, x - w, x * w, x / w}[op], "arithmetic computes with the columns of the row")
}

// ---- F23

// anyCase writes a word in arbitrary letter case.
func anyCase(w string) string {
	s := []byte{}
	for i := 0; i < len(w); i++ {
		c := w[i]
		if c >= 'A' && c <= 'Z' {
			c = sym.Ite(sym.Bool("low"+itoa(i%10)), c+32, c)
		}
		s = append(s, c)
	}
	return string(s)
}

// every function is known by its name in any letter case
func F23_Scalars() {
	f := scalars[sym.Choose("fn", len(scalars))]
	n := anyCase(f.name)
	if f.name == "CEIL" && sym.Choose("alias", 2) == 1 {
		n += anyCase("ING")
	} else {
		sym.Assert(fn.IsRegisteredFunction(n), "a function name is registered in any letter case")
		t, err := fn.NewFunctionTypeForName(n)
		sym.Assert(err == nil && t == f.typ, "a function has its type")
		g := fn.NewFunction(fn.WithFunctionName(n), fn.WithFunctionArguments("x"))
		sym.Assert(g.Type() == f.typ && g.IsType(f.typ) && !g.IsAggregator(), "a function has its type")
		sym.Assert(g.IsName(n) && g.IsName(f.name) && g.Name() == f.name, "a function has its name in any letter case")
		sym.Assert(g.IsFunction() && !g.IsAsterisk() && g.String() == f.name+"(x)", "a function prints its name and arguments")
		e, err := g.Executor()
		sym.Assert(err == nil && e.Name() == f.name && e.Type() == f.typ, "a scalar function can be executed")
		sym.Assert(names{"x"}.same(e.Arguments()), "a scalar function is executed on its arguments")
		_, err = g.Aggregator()
		sym.Assert(err != nil && errors.Is(err, fn.ErrNotSupported), "a scalar function is no aggregate")
		sym.Assert(!g.IsAggregator() && g.Type() == f.typ, "a function keeps its type")
	}
	if len(n) > 1 && sym.Choose("paren", 2) == 1 {
		n += "("
	}
	e, err := fn.NewExecutorForName(n)
	sym.Assert(err == nil && e.Name() == f.name && e.Type() == f.typ, "a scalar function is found by its name in any letter case")
	_, err = fn.NewAggregatorForName(n, fn.WithAggregatorArguments([]string{"x"}))
	sym.Assert(err != nil && errors.Is(err, fn.ErrNotSupported), "a scalar function is no aggregate")
	sym.Cover("end")
}

func F23_Aggregates() {
	w := aggrNames[sym.Choose("fn", len(aggrNames))]
	n := anyCase(w)
	sym.Assert(fn.IsRegisteredFunction(n), "a function name is registered in any letter case")
	t, err := fn.NewFunctionTypeForName(n)
	sym.Assert(err == nil && t == fn.AggregateFunction, "a function has its type")
	g := fn.NewFunction(fn.WithFunctionName(n), fn.WithFunctionArguments("x"))
	sym.Assert(g.IsAggregator() && g.Type() == fn.AggregateFunction, "an aggregate is an aggregate")
	_, err = g.Executor()
	sym.Assert(err != nil && errors.Is(err, fn.ErrNotSupported), "an aggregate is no scalar function")
	sym.Assert(g.IsAggregator(), "a function keeps its type")
	a, err := g.Aggregator()
	sym.Assert(err == nil && a.Name() == w, "an aggregate aggregates")
	sym.Assert(a.Aggregate([]any{2.0}) == nil, "a row is aggregated")
	b, err := g.Aggregator()
	sym.Assert(err == nil, "an aggregate aggregates")
	rs, err := b.Finalize()
	row := one(rs, err, w+"(x)")
	x, ok := row[0].(float64)
	sym.Assert(ok && x == sym.Ite(w == "COUNT", 1.0, 2.0), "the aggregator of a function is the one that got the rows")
	if sym.Choose("paren", 2) == 1 {
		n += "("
	}
	c, err := fn.NewAggregatorForName(n, fn.WithAggregatorArguments([]string{"x"}))
	sym.Assert(err == nil && c.Name() == w, "an aggregate is found by its name in any letter case")
	_, err = fn.NewExecutorForName(n)
	sym.Assert(err != nil && errors.Is(err, fn.ErrNotSupported), "an aggregate is no scalar function")
	sym.Cover("end")
}

// isFn reports whether a word is the name of a function.
func isFn(w string) (scalar, aggr bool) {
	for _, f := range scalars {
		scalar = sym.Or(scalar, sameFold(w, f.name))
	}
	for _, n := range aggrNames {
		aggr = sym.Or(aggr, sameFold(w, n))
	}
	return
}

// other words are no functions
func other(w string) {
	scalar, aggr := isFn(w)
	e, err := fn.NewExecutorForName(w)
	if scalar {
		sym.Assert(err == nil && sameFold(e.Name(), w), "a scalar function is found by its name")
	} else {
		sym.Assert(sym.Or(sameFold(w, "CEILING"), sym.And(err != nil, e == nil)), "a word that names no function is no function")
		sym.Assert(err == nil || errors.Is(err, fn.ErrNotSupported), "an unknown function is reported as not supported")
	}
	a, err := fn.NewAggregatorForName(w, fn.WithAggregatorArguments([]string{"x"}))
	if aggr {
		sym.Assert(err == nil && sameFold(a.Name(), w), "an aggregate is found by its name")
	} else {
		sym.Assert(err != nil && a == nil && errors.Is(err, fn.ErrNotSupported), "a word that names no aggregate is no aggregate")
	}
	sym.Assert(fn.IsRegisteredFunction(w) == sym.Or(scalar, aggr), "the registered functions are the functions")
	_, terr := fn.NewFunctionTypeForName(w)
	sym.Assert((terr == nil) == sym.Or(scalar, aggr), "only functions have a type")
	v, err := fn.ExecuteFunction(w, []any{})
	sym.Assert(sym.Or(scalar, sameFold(w, "CEILING")) || (err != nil && v == nil), "an unknown function has no value")
	sym.Cover("end")
}

func F23_ShortWords() { other(sym.Str("w", 1, 4, "letter")) }

func F23_LongerWords() {
	var w string
	if i := sym.Choose("fn", len(scalars)+len(aggrNames)); i < len(scalars) {
		w = scalars[i].name
	} else {
		w = aggrNames[i-len(scalars)]
	}
	if sym.Choose("side", 2) == 0 {
		w += sym.Str("s", 1, 2, "ident")
	} else {
		w = sym.Str("s", 1, 1, "letter") + w
	}
	other(w)
}

// the functions of a SELECT list
func F23_Select() {
	col := sym.Ident("c", 2, 2)
	kinds := [][3]string{
		{"", "", ""}, {"SUM", "", "x"}, {"ABS", "x", ""}, {"count", "", "*"}, {"upper", "x", ""}, {"ZZ", "?", ""},
	}
	n := 1 + sym.Choose("n", 2)
	list := ""
	var fs []string
	aggr, exec, unknown := 0, 0, false
	for i := 0; i < n; i++ {
		if i > 0 {
			list += ", "
		}
		k := kinds[sym.Choose("k"+itoa(i), len(kinds))]
		if k[0] == "" {
			list += col
			continue
		}
		a := "x"
		if k[2] == "*" {
			a = "*"
		}
		list += k[0] + "(" + a + ")"
		fs = append(fs, k[0])
		switch {
		case k[2] != "":
			aggr++
		case k[1] == "?":
			unknown = true
		default:
			exec++
		}
	}
	st, ok := parse1("SELECT " + list + " FROM t").(query.Select)
	sym.Assert(ok, "a selection is read")
	s := st.Selectors()
	sym.Assert(s.HasFunction() == (len(fs) > 0), "a selection has functions exactly when they are written")
	sym.Assert(s.HasAggregator() == (aggr > 0) && st.HasAggregator() == (aggr > 0), "a selection has aggregates exactly when they are written")
	got := s.Functions()
	sym.Assert(len(got) == len(fs), "every function of a selection is listed")
	for i := range fs {
		sym.Assert(got[i].IsName(fs[i]), "the functions of a selection are listed in order")
		f, err := s.LookupFunction(fs[i])
		sym.Assert(err == nil && f.IsName(fs[i]), "a function of a selection is found by its name")
	}
	_, err := s.LookupFunction("AVG")
	sym.Assert(err != nil && errors.Is(err, query.ErrNotFound), "a function that is not in a selection is not found")
	es, err := s.Executors()
	if unknown {
		sym.Assert(err != nil && errors.Is(err, fn.ErrNotSupported), "an unknown function cannot be executed")
	} else {
		sym.Assert(err == nil && len(es) == exec, "the scalar functions of a selection can be executed")
		sym.Assert(s.HasExecutor() == (exec > 0) && st.HasExecutor() == (exec > 0), "a selection has scalar functions exactly when they are written")
		as, err := s.Aggregators()
		if exec == 0 {
			sym.Assert(err == nil && as != nil, "the aggregates of a selection can be aggregated")
		}
	}
	sym.Cover("end")
}
