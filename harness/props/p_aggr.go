package props

import (
	"errors"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"verif/harness/sym"
)

var aggrNames = []string{"SUM", "AVG", "MIN", "MAX", "COUNT"}

func newAggr(k int, args []string, groups ...string) fn.Aggregator {
	var a fn.Aggregator
	var err error
	if sym.Choose("ctor", 2) == 1 {
		n := aggrNames[k]
		if sym.Choose("case", 2) == 1 {
			n = lower(n)
		}
		a, err = fn.NewAggregatorForName(n, fn.WithAggregatorArguments(args), fn.WithAggregatorGroupBys(groups...))
		sym.Assert(err == nil && a != nil, "an aggregate function is found by its name")
		return a
	}
	switch k {
	case 0:
		a, err = fn.NewSum(fn.WithSumArguments(args), fn.WithSumGroupBys(groups...))
	case 1:
		a, err = fn.NewAvg(fn.WithAvgArguments(args), fn.WithAvgGroupBys(groups...))
	case 2:
		a, err = fn.NewMin(fn.WithMinArguments(args), fn.WithMinGroupBys(groups...))
	case 3:
		a, err = fn.NewMax(fn.WithMaxArguments(args), fn.WithMaxGroupBys(groups...))
	default:
		a, err = fn.NewCount(fn.WithCountArguments(args), fn.WithCountGroupBys(groups...))
	}
	sym.Assert(err == nil, "an aggregate of a column can be made")
	return a
}

// feed gives one row to an aggregate in one of the forms a row may have.
func feed(form int, cols []string, row []any) any {
	switch form {
	case 0:
		return row
	case 1:
		return fn.NewRow(row...)
	case 2:
		m := map[string]any{"other": "text"}
		for i, c := range cols {
			m[c] = row[i]
		}
		return m
	default:
		return fn.NewMapWithRow(cols, fn.Row(row))
	}
}

// total is what the rows of one group should give.
type total struct {
	n         int // values that are not NULL
	sum       float64
	low, high float64
}

func (t *total) add(x float64) {
	if t.n == 0 {
		t.low, t.high = x, x
	} else {
		t.low = sym.Ite(x < t.low, x, t.low)
		t.high = sym.Ite(x > t.high, x, t.high)
	}
	t.n++
	t.sum += x
}

func (t *total) check(k int, v any) {
	what := "an aggregate has the value of its rows"
	switch k {
	case 0:
		x, ok := v.(float64)
		sym.Assert(ok, what)
		sym.Assert(sym.Or(x == t.sum, sym.And(x != x, t.sum != t.sum)), "SUM is the sum of the values")
	case 4:
		x, ok := v.(float64)
		sym.Assert(ok && x == float64(t.n), "COUNT is the number of values")
	default:
		if t.n == 0 {
			sym.Assert(v == nil, "an aggregate of no values is NULL")
			return
		}
		x, ok := v.(float64)
		sym.Assert(ok, what)
		switch k {
		case 1:
			w := t.sum / float64(t.n)
			sym.Assert(sym.Or(x == w, sym.And(x != x, w != w)), "AVG is the sum of the values divided by their number")
		case 2:
			sym.Assert(x == t.low, "MIN is the least value")
		case 3:
			sym.Assert(x == t.high, "MAX is the greatest value")
		}
	}
}

// one reads a result that has one row.
func one(rs fn.ResultSet, err error, cols ...string) fn.Row {
	sym.Assert(err == nil && rs != nil, "an aggregation has a result")
	sym.Assert(names(cols).same(rs.Columns()), "the result of an aggregation names its columns")
	_, rerr := rs.Row()
	sym.Assert(rerr != nil, "a result has no row before the first step")
	sym.Assert(rs.Next(), "an aggregation without groups has a row")
	row, err := rs.Row()
	sym.Assert(err == nil && len(row) == len(cols), "the row of an aggregation has its columns")
	sym.Assert(!rs.Next(), "an aggregation without groups has one row")
	return row
}

// val is an arbitrary value and the number it stands for.
func val(tag string, kind int) (any, float64, bool) {
	switch kind {
	case 0:
		x := sym.Float64(tag)
		sym.Assume(x == x)
		return x, x, true
	case 1:
		x := sym.Int(tag)
		return x, float64(x), true
	case 2:
		return nil, 0, false
	case 3:
		x := sym.Int32(tag)
		return x, float64(x), true
	case 4:
		x := sym.Float32(tag)
		sym.Assume(x == x)
		return x, float64(x), true
	case 5:
		d := sym.Str(tag, 1, 1, "digit")
		return d, float64(int(d[0] - '0')), true
	default:
		x := sym.Uint8(tag)
		return x, float64(x), true
	}
}

func f19(k, rows, kinds int) {
	a := newAggr(k, []string{"x"})
	form := sym.Choose("form", 4)
	var t total
	for i := 0; i < rows; i++ {
		v, f, some := val("v"+itoa(i), sym.Choose("k"+itoa(i), kinds))
		sym.Assert(a.Aggregate(feed(form, []string{"x"}, []any{v})) == nil, "a row is aggregated")
		if some {
			t.add(f)
		}
	}
	rs, err := a.Finalize()
	row := one(rs, err, aggrNames[k]+"(x)")
	t.check(k, row[0])
	sym.Cover("end")
}

func F19_Numbers() { f19(sym.Choose("aggr", 5), sym.Choose("rows", 4), 3) }

// values of every kind a row may hold
func F19_Kinds() {
	k := sym.Choose("aggr", 5)
	a := newAggr(k, []string{"x"})
	form := sym.Choose("form", 4)
	at := sym.Choose("at", 2)
	var t total
	for i := 0; i < 2; i++ {
		var v any = 2.5
		f, some := 2.5, true
		if i == at {
			v, f, some = val("v", sym.Choose("k", 7))
		}
		sym.Assert(a.Aggregate(feed(form, []string{"x"}, []any{v})) == nil, "a row is aggregated")
		if some {
			t.add(f)
		}
	}
	rs, err := a.Finalize()
	row := one(rs, err, aggrNames[k]+"(x)")
	t.check(k, row[0])
	sym.Cover("end")
}

func F19_Kinds_Thorough() { f19(sym.Choose("aggr", 5), 2, 7) }

func F19_More_Thorough() { f19(sym.Choose("aggr", 5), 3+sym.Choose("rows", 2), 3) }

// COUNT(*) counts rows, whatever they hold; COUNT of a column takes any value
func F19_Count() {
	arg := "*"
	star := sym.Choose("star", 2) == 1
	if !star {
		arg = "x"
	}
	a := newAggr(4, []string{arg})
	n := sym.Choose("rows", 4)
	want := 0
	for i := 0; i < n; i++ {
		var v any
		switch sym.Choose("k"+itoa(i), 3) {
		case 0:
			v = sym.Str("s"+itoa(i), 0, 2, "text")
		case 1:
			v = nil
		default:
			v = sym.Bool("b" + itoa(i))
		}
		var row any = []any{v}
		if star || sym.Choose("map", 2) == 1 {
			row = map[string]any{"x": v, "y": 1}
		}
		sym.Assert(a.Aggregate(row) == nil, "a row of any values is counted")
		if star || v != nil {
			want++
		}
	}
	rs, err := a.Finalize()
	row := one(rs, err, "COUNT("+arg+")")
	x, ok := row[0].(float64)
	sym.Assert(ok && x == float64(want), "COUNT is the number of values, and COUNT(*) of rows")
	sym.Cover("end")
}

// after a reset nothing is left of the rows before
func F19_Reset() {
	k := sym.Choose("aggr", 5)
	a := newAggr(k, []string{"x"})
	n := sym.Choose("before", 3)
	for i := 0; i < n; i++ {
		v, _, _ := val("b"+itoa(i), sym.Choose("bk", 2))
		sym.Assert(a.Aggregate([]any{v}) == nil, "a row is aggregated")
	}
	if sym.Choose("final", 2) == 1 {
		_, err := a.Finalize()
		sym.Assert(err == nil, "an aggregation has a result")
	}
	sym.Assert(a.Reset() == nil, "an aggregate can be reset")
	var t total
	m := sym.Choose("after", 3)
	for i := 0; i < m; i++ {
		v, f, some := val("v"+itoa(i), sym.Choose("ak", 3))
		sym.Assert(a.Aggregate([]any{v}) == nil, "a row is aggregated")
		if some {
			t.add(f)
		}
	}
	rs, err := a.Finalize()
	row := one(rs, err, aggrNames[k]+"(x)")
	t.check(k, row[0])
	rs, err = a.Finalize()
	row = one(rs, err, aggrNames[k]+"(x)")
	t.check(k, row[0])
	sym.Cover("end")
}

// rows that are no rows are refused
func F19_Refused() {
	k := sym.Choose("aggr", 5)
	a := newAggr(k, []string{"x"})
	v := sym.Float64("v")
	sym.Assume(v == v)
	var t total
	ok := a.Aggregate([]any{v}) == nil
	sym.Assert(ok, "a row is aggregated")
	t.add(v)
	var err error
	switch sym.Choose("form", 6) {
	case 0:
		err = a.Aggregate([]any{})
	case 1:
		err = a.Aggregate([]any{1.0, 2.0})
	case 2:
		err = a.Aggregate(map[string]any{"y": 1.0})
	case 3:
		err = a.Aggregate(sym.Int("n"))
	case 4:
		err = a.Aggregate(nil)
	default:
		if k == 4 {
			sym.Stop()
		}
		err = a.Aggregate([]any{sym.Str("s", 1, 2, "[g-m]")})
	}
	sym.Assert(err != nil, "what is no row of the aggregate is refused")
	rs, err := a.Finalize()
	row := one(rs, err, aggrNames[k]+"(x)")
	t.check(k, row[0])
	sym.Cover("end")
}

// several arguments: each has its own value
func F19_Columns() {
	k := sym.Choose("aggr", 5)
	a := newAggr(k, []string{"x", "y"})
	form := sym.Choose("form", 4)
	var tx, ty total
	for i := 0; i < 2; i++ {
		x, fx, sx := val("x"+itoa(i), 2*sym.Choose("xk"+itoa(i), 2))
		y, fy, sy := val("y"+itoa(i), 2*sym.Choose("yk"+itoa(i), 2))
		sym.Assert(a.Aggregate(feed(form, []string{"x", "y"}, []any{x, y})) == nil, "a row is aggregated")
		if sx {
			tx.add(fx)
		}
		if sy {
			ty.add(fy)
		}
	}
	rs, err := a.Finalize()
	row := one(rs, err, aggrNames[k]+"(x)", aggrNames[k]+"(y)")
	tx.check(k, row[0])
	ty.check(k, row[1])
	sym.Cover("end")
}

// ---- F20: groups

// keyOf is an arbitrary group value; keys of one column have one kind, or are NULL.
func keyOf(tag string, kind, max int) any {
	switch kind {
	case 0:
		return sym.Str(tag, 0, max, `[,\aN]`)
	case 1:
		return sym.IntRange(tag, -9, 9)
	default:
		return nil
	}
}

func sameKey(a, b any) bool {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return ok && x == y
	case int:
		y, ok := b.(int)
		return ok && x == y
	}
	return b == nil
}

type group struct {
	key []any
	t   total
}

func f20(k, rows, width, max, kinds int, order int) {
	cols := []string{"g", "h"}[:width]
	a := newAggr(k, []string{"x"}, cols...)
	form := 2 * sym.Choose("form", 2)
	var gs []*group
	for i := 0; i < rows; i++ {
		var row []any
		for j := 0; j < width; j++ {
			kind := 0
			if kinds > 1 {
				kind = sym.Choose("kind", kinds)
			}
			row = append(row, keyOf(cols[j]+itoa(i), kind, max))
		}
		x := sym.Float64("x" + itoa(i))
		sym.Assume(x == x)
		var g *group
		for _, o := range gs {
			eq := true
			for j := 0; j < width; j++ {
				eq = eq && sameKey(o.key[j], row[j])
			}
			if eq {
				g = o
				break
			}
		}
		if g == nil {
			g = &group{key: append([]any{}, row...)}
			gs = append(gs, g)
		}
		g.t.add(x)
		sym.Assert(a.Aggregate(feed(form, append(append([]string{}, cols...), "x"), append(row, x))) == nil, "a row of a group is aggregated")
	}
	var rs fn.ResultSet
	var err error
	switch order {
	case 0:
		rs, err = a.Finalize()
	case 1:
		rs, err = a.Finalize(fn.OrderByAsc)
	default:
		rs, err = a.Finalize(fn.OrderByDesc)
	}
	sym.Assert(err == nil, "an aggregation by groups has a result")
	sym.Assert(names(append(append([]string{}, cols...), aggrNames[k]+"(x)")).same(rs.Columns()), "the result has the group columns and the aggregate")
	seen := make([]bool, len(gs))
	var last []any
	for i := range gs {
		sym.Assert(rs.Next(), "every group has a row")
		row, err := rs.Row()
		sym.Assert(err == nil && len(row) == width+1, "the row of a group has its key and its aggregate")
		at := i
		if order != 0 {
			at = -1
			for j, g := range gs {
				eq := !seen[j]
				for c := 0; c < width && eq; c++ {
					eq = sameKey(g.key[c], row[c])
				}
				if eq {
					at = j
					break
				}
			}
			sym.Assert(at >= 0, "every group has one row")
			seen[at] = true
			if last != nil {
				lo, hi := last, []any(row)
				if order == 2 {
					lo, hi = hi, lo
				}
				sym.Assert(before(lo, hi, width), "the groups are in the order asked for")
			}
			last = row
		}
		for c := 0; c < width; c++ {
			sym.Assert(sameKey(gs[at].key[c], row[c]), "the row of a group has the key of the group")
		}
		gs[at].t.check(k, row[width])
	}
	sym.Assert(!rs.Next(), "there is one row for each group")
	sym.Cover("end")
}

// before is the order of two keys without NULL.
func before(a, b []any, width int) bool {
	for c := 0; c < width; c++ {
		switch x := a[c].(type) {
		case string:
			y := b[c].(string)
			if x != y {
				return x < y
			}
		case int:
			y := b[c].(int)
			if x != y {
				return x < y
			}
		}
	}
	return true
}

func F20_Text()    { f20(sym.Choose("aggr", 5), 2, 1, 2, 1, 0) }
func F20_Kinds()   { f20(4*sym.Choose("aggr", 2), 3, 1, 1, 3, 0) }
func F20_Pairs()   { f20(0, 2, 2, 2, 1, 0) }
func F20_Pairs3()  { f20(4, 3, 2, 1, 1, 0) }
func F20_Sorted()  { f20(0, 3, 1, 2, 1, 1+sym.Choose("dir", 2)) }
func F20_Sorted2() { f20(0, 2, 2, 1, 1, 1+sym.Choose("dir", 2)) }
func F20_Numbers() {
	// numbers as keys sort as numbers
	a := newAggr(0, []string{"x"}, "g")
	i, j := sym.IntRange("i", -99, 99), sym.IntRange("j", -99, 99)
	sym.Assume(i != j)
	sym.Assert(a.Aggregate([]any{i, 1.0}) == nil, "a row of a group is aggregated")
	sym.Assert(a.Aggregate([]any{j, 2.0}) == nil, "a row of a group is aggregated")
	rs, err := a.Finalize(fn.OrderByAsc)
	sym.Assert(err == nil && rs.Next(), "every group has a row")
	row, err := rs.Row()
	sym.Assert(err == nil && len(row) == 2, "the row of a group has its key and its aggregate")
	if i < j {
		sym.Assert(row[0] == i && row[1] == 1.0, "the groups are in the order asked for")
	} else {
		sym.Assert(row[0] == j && row[1] == 2.0, "the groups are in the order asked for")
	}
	sym.Cover("end")
}

func F20_Long_Thorough()  { f20(4*sym.Choose("aggr", 2), 3, 1, 2, 3, 0) }
func F20_Pairs_Thorough() { f20(0, 3, 2, 2, 1, 0) }
func F20_Four_Thorough()  { f20(sym.Choose("aggr", 5), 4, 1, 1, 1, sym.Choose("dir", 3)) }

// changing the groups of an aggregate starts it again
func F20_Regroup() {
	k := sym.Choose("aggr", 5)
	a := newAggr(k, []string{"x"})
	sym.Assert(a.Aggregate([]any{7.0}) == nil, "a row is aggregated")
	var err error
	switch sym.Choose("how", 2) {
	case 0:
		err = a.Reset(fn.NewGroupBy("g"))
	default:
		err = a.Reset([]fn.GroupBy{"g"})
	}
	sym.Assert(err == nil, "an aggregate can be reset to group")
	gs, ok := a.GroupBys()
	sym.Assert(ok && len(gs) == 1 && gs[0] == "g", "an aggregate has the groups it was reset to")
	p, q := sym.Str("p", 0, 1, "text"), sym.Str("q", 0, 1, "text")
	x, y := sym.Float64("x"), sym.Float64("y")
	sym.Assume(x == x && y == y)
	sym.Assert(a.Aggregate([]any{p, x}) == nil && a.Aggregate([]any{q, y}) == nil, "a row of a group is aggregated")
	rs, err := a.Finalize()
	sym.Assert(err == nil && len(rs.Columns()) == 2 && rs.Columns()[0] == "g", "the result has the group columns and the aggregate")
	var t, u total
	t.add(x)
	if p == q {
		t.add(y)
	} else {
		u.add(y)
	}
	sym.Assert(rs.Next(), "every group has a row")
	row, err := rs.Row()
	sym.Assert(err == nil && len(row) == 2 && row[0] == p, "the row of a group has the key of the group")
	t.check(k, row[1])
	if p != q {
		sym.Assert(rs.Next(), "every group has a row")
		row, err := rs.Row()
		sym.Assert(err == nil && len(row) == 2 && row[0] == q, "the row of a group has the key of the group")
		u.check(k, row[1])
	}
	sym.Assert(!rs.Next(), "there is one row for each group")
	sym.Cover("end")
}

// a list of group values has a key of its own, and a list of names is read back
func F20_Keys() {
	mk := func(t string) ([]any, names) {
		n := 1 + sym.Choose(t+"n", 2)
		var ks []any
		var ss names
		for i := 0; i < n; i++ {
			s := sym.Str(t+itoa(i), 0, 2, `[,\N]`)
			ks = append(ks, s)
			ss = append(ss, s)
		}
		return ks, ss
	}
	a, as := mk("a")
	b, bs := mk("b")
	ka, err := fn.NewGroupBySetKey(as, a)
	sym.Assert(err == nil, "a list of group values has a key")
	kb, err := fn.NewGroupBySetKey(bs, b)
	sym.Assert(err == nil, "a list of group values has a key")
	if len(a) == len(b) {
		sym.Assert((ka == kb) == as.same(bs), "two lists of group values share a key only if they are the same")
		sym.Cover("pair")
	}
	if len(as) > 1 || as[0] != "" {
		back := fn.NewGroupBysFromGroupBySet(fn.NewGroupBySet(as...))
		sym.Assert(as.same(back), "a list of group names is read back from its set")
	}
	_, err = fn.NewGroupBySetKey(as, append(a, "x"))
	sym.Assert(err != nil, "group values that do not match the groups are refused")
}

// ---- F21: several aggregates at once

func f21(rows, width int, grouped bool) {
	k1, k2 := sym.Choose("k1", 5), sym.Choose("k2", 5)
	mk := func(k int, c string) fn.Aggregator {
		a, err := fn.NewAggregatorForName(aggrNames[k], fn.WithAggregatorArguments([]string{c}))
		sym.Assert(err == nil, "an aggregate function is found by its name")
		return a
	}
	list := []fn.Aggregator{mk(k1, "x"), mk(k2, "y")}
	if width > 2 {
		list = append(list, mk(4, "*"))
	}
	set := fn.NewAggregatorSetWith(list)
	var opts []any
	if grouped {
		opts = append(opts, fn.NewGroupBy("g"))
	}
	sym.Assert(set.Reset(opts...) == nil, "a set of aggregates can be reset")
	type gr struct {
		key  string
		x, y total
		n    int
	}
	var gs []*gr
	if !grouped {
		gs = append(gs, &gr{})
	}
	for i := 0; i < rows; i++ {
		key := ""
		if grouped {
			key = sym.Str("g"+itoa(i), 0, 1, "text")
		}
		x, fx, sx := val("x"+itoa(i), 2*sym.Choose("xk", 2))
		y, fy, sy := val("y"+itoa(i), 2*sym.Choose("yk", 2))
		sym.Assert(set.Aggregate(map[string]any{"y": y, "g": key, "x": x}) == nil, "a row is aggregated by every aggregate")
		var g *gr
		for _, o := range gs {
			if !grouped || o.key == key {
				g = o
				break
			}
		}
		if g == nil {
			g = &gr{key: key}
			gs = append(gs, g)
		}
		g.n++
		if sx {
			g.x.add(fx)
		}
		if sy {
			g.y.add(fy)
		}
	}
	rs, err := set.Finalize()
	sym.Assert(err == nil, "a set of aggregates has a result")
	var cols names
	off := 0
	if grouped {
		cols, off = names{"g"}, 1
	}
	cols = append(cols, aggrNames[k1]+"(x)", aggrNames[k2]+"(y)")
	if width > 2 {
		cols = append(cols, "COUNT(*)")
	}
	sym.Assert(cols.same(rs.Columns()), "the result has the group columns once, then every aggregate")
	for _, g := range gs {
		sym.Assert(rs.Next(), "every group has a row")
		row, err := rs.Row()
		sym.Assert(err == nil && len(row) == len(cols), "a row has a value for every column")
		if grouped {
			sym.Assert(row[0] == g.key, "the aggregates of a row belong to its group")
		}
		g.x.check(k1, row[off])
		g.y.check(k2, row[off+1])
		m, err := rs.Map()
		sym.Assert(err == nil && len(m) == len(cols), "a row as a map has its columns")
		g.y.check(k2, m[aggrNames[k2]+"(y)"])
		if width > 2 {
			sym.Assert(row[off+2] == float64(g.n), "COUNT(*) is the number of rows")
		}
	}
	sym.Assert(!rs.Next(), "there is one row for each group")
	sym.Cover("end")
}

func F21_Plain()          { f21(sym.Choose("rows", 3), 2, false) }
func F21_Grouped()        { f21(2, 2, true) }
func F21_Three()          { f21(1, 3, true) }
func F21_More_Thorough()  { f21(3, 2, true) }
func F21_Three_Thorough() { f21(2, 3, sym.Choose("grouped", 2) == 1) }

// a set by names
func F21_Names() {
	n1, n2 := sym.Choose("n1", 5), sym.Choose("n2", 5)
	sym.Assume(n1 != n2)
	set, err := fn.NewAggregatorSetForNames([]string{aggrNames[n1], lower(aggrNames[n2])}, fn.WithAggregatorArguments([]string{"x"}), fn.WithAggregatorGroupBys("g"))
	sym.Assert(err == nil && len(set) == 2 && set[0].Name() == aggrNames[n1] && set[1].Name() == aggrNames[n2], "a set has the aggregates it was asked for")
	x := sym.Float64("x")
	sym.Assume(x == x)
	sym.Assert(set.Aggregate([]any{"k", x}) == nil, "a row is aggregated by every aggregate")
	rs, err := set.Finalize()
	sym.Assert(err == nil && rs.Next(), "a set of aggregates has a result")
	row, err := rs.Row()
	sym.Assert(err == nil && len(row) == 3 && row[0] == "k", "a row has a value for every column")
	var t total
	t.add(x)
	t.check(n1, row[1])
	t.check(n2, row[2])
	_, err = fn.NewAggregatorSetForNames([]string{aggrNames[n1], "NOSUCH"}, fn.WithAggregatorArguments([]string{"x"}))
	sym.Assert(errors.Is(err, fn.ErrNotSupported), "a name that is no aggregate is refused")
	sym.Cover("end")
}
