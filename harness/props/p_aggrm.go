package props

import (
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"verif/harness/sym"
)

// many rows: one value is arbitrary, the others are whole numbers that sum exactly
func f19many(n int) {
	k := sym.Choose("aggr", 5)
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	x := float64(sym.Int8("x"))
	null := sym.Choose("null", 2) == 1
	a := newAggr(k, []string{"x"})
	form := sym.Choose("form", 3)
	var t total
	for i := 0; i < n; i++ {
		f := float64((i*7)%11 - 5)
		var v any = f
		if i == at {
			v, f = x, x
		}
		if null && i%5 == 3 && i != at {
			v = nil
		}
		sym.Assert(a.Aggregate(feed(form, []string{"x"}, []any{v})) == nil, "a row is aggregated")
		if v != nil {
			t.add(f)
		}
	}
	rs, err := a.Finalize()
	row := one(rs, err, aggrNames[k]+"(x)")
	t.check(k, row[0])
	sym.Cover("end")
}

func F19_Many() { f19many([]int{5, 9, 17, 33, 65}[sym.Choose("n", 5)]) }

// values of one sign only, all far from zero
func F19_OneSign() {
	k := sym.Choose("aggr", 5)
	a := newAggr(k, []string{"x"})
	neg := sym.Choose("neg", 2) == 1
	var t total
	n := 1 + sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		d := sym.Int16("d" + itoa(i))
		sym.Assume(d > 0)
		f := float64(d) + 1e6
		if neg {
			f = -f
		}
		sym.Assert(a.Aggregate([]any{f}) == nil, "a row is aggregated")
		t.add(f)
	}
	rs, err := a.Finalize()
	row := one(rs, err, aggrNames[k]+"(x)")
	t.check(k, row[0])
	sym.Cover("end")
}

// up to eight arguments, each with its own value
func F19_Wide() {
	k := sym.Choose("aggr", 5)
	w := 3 + sym.Choose("w", 6)
	var cols, heads []string
	for i := 0; i < w; i++ {
		c := "c" + itoa(i)
		cols = append(cols, c)
		heads = append(heads, aggrNames[k]+"("+c+")")
	}
	at := sym.IntRange("at", 0, 7)
	sym.Assume(at < w)
	x := float64(sym.Int8("x"))
	a := newAggr(k, cols)
	form := sym.Choose("form", 4)
	ts := make([]total, w)
	for r := 0; r < 2; r++ {
		row := make([]any, w)
		for i := range row {
			f := float64(i*10 + r)
			if r == 1 && i == at {
				f = x
			}
			row[i] = f
			ts[i].add(f)
		}
		sym.Assert(a.Aggregate(feed(form, cols, row)) == nil, "a row is aggregated")
	}
	rs, err := a.Finalize()
	row := one(rs, err, heads...)
	for i := range ts {
		ts[i].check(k, row[i])
	}
	sym.Cover("end")
}

// the name of the argument does not matter
func F19_Names() {
	k := sym.Choose("aggr", 5)
	n := sym.Str("name", 1, 6, "ident")
	m := sym.Str("other", 1, 3, "ident")
	sym.Assume(n != m)
	a := newAggr(k, []string{n})
	x := float64(sym.Int8("x"))
	var t total
	for i := 0; i < 2; i++ {
		f := x + float64(i)
		sym.Assert(a.Aggregate(map[string]any{n: f, m: "other"}) == nil, "a row is aggregated")
		t.add(f)
	}
	rs, err := a.Finalize()
	row := one(rs, err, aggrNames[k]+"("+n+")")
	t.check(k, row[0])
	sym.Cover("end")
}

// a row refused for one of its values changes nothing, whichever value it is
func F19_RefusedColumns() {
	k := sym.Choose("aggr", 4)
	a := newAggr(k, []string{"x", "y", "z"})
	form := sym.Choose("form", 4)
	cols := []string{"x", "y", "z"}
	var ts [3]total
	take := func(tag string) []any {
		var row []any
		for i := range ts {
			row = append(row, float64(sym.Int8(tag+itoa(i))))
		}
		return row
	}
	count := func(row []any) {
		for i := range ts {
			ts[i].add(row[i].(float64))
		}
	}
	if sym.Choose("first", 2) == 1 {
		row := take("f")
		sym.Assert(a.Aggregate(feed(form, cols, row)) == nil, "a row is aggregated")
		count(row)
	}
	bad := take("b")
	bad[sym.Choose("at", 3)] = sym.Str("s", 1, 2, "[g-m]")
	sym.Assert(a.Aggregate(feed(form, cols, bad)) != nil, "a row with a value that is no number is refused")
	if sym.Choose("last", 2) == 1 {
		row := take("l")
		sym.Assert(a.Aggregate(feed(form, cols, row)) == nil, "a row is aggregated")
		count(row)
	}
	rs, err := a.Finalize()
	row := one(rs, err, aggrNames[k]+"(x)", aggrNames[k]+"(y)", aggrNames[k]+"(z)")
	for i := range ts {
		ts[i].check(k, row[i])
	}
	sym.Cover("end")
}

// the result of an aggregate is not touched by rows that come later
func F19_After() {
	k := sym.Choose("aggr", 5)
	grouped := sym.Choose("grouped", 2) == 1
	var gs []string
	var pre []any
	heads := []string{aggrNames[k] + "(x)"}
	if grouped {
		gs, pre = []string{"g"}, []any{"a"}
		heads = []string{"g", heads[0]}
	}
	a := newAggr(k, []string{"x"}, gs...)
	x, y := float64(sym.Int8("x")), float64(sym.Int8("y"))
	var t total
	sym.Assert(a.Aggregate(append(append([]any{}, pre...), x)) == nil, "a row is aggregated")
	t.add(x)
	rs, err := a.Finalize()
	if sym.Choose("what", 2) == 0 {
		sym.Assert(a.Aggregate(append(append([]any{}, pre...), y)) == nil, "a row is aggregated")
	} else {
		sym.Assert(a.Reset() == nil, "an aggregate can be reset")
	}
	row := one(rs, err, heads...)
	t.check(k, row[len(pre)])
	sym.Cover("end")
}

// ---- F20

// many groups: every key but one is fixed; the arbitrary one may be any of them or new
func f20many(n, order int) {
	k := sym.Choose("aggr", 5)
	a := newAggr(k, []string{"x"}, "g")
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	text := sym.Choose("text", 2) == 1
	var odd any
	if text {
		odd = sym.Str("g", 2, 2, "[a-c]")
	} else {
		odd = sym.IntRange("g", -1, n)
	}
	x := float64(sym.Int8("x"))
	var gs []*group
	for i := 0; i < n; i++ {
		var key any
		j := (i * 5) % n
		if text {
			key = string([]byte{byte('a' + j/8), byte('a' + j%8)})
		} else {
			key = j
		}
		f := float64(i)
		if i == at {
			key, f = odd, x
		}
		var g *group
		for _, o := range gs {
			if sameKey(o.key[0], key) {
				g = o
				break
			}
		}
		if g == nil {
			g = &group{key: []any{key}}
			gs = append(gs, g)
		}
		g.t.add(f)
		sym.Assert(a.Aggregate([]any{key, f}) == nil, "a row of a group is aggregated")
	}
	var rs fn.ResultSet
	var err error
	switch order {
	case 0:
		rs, err = a.Finalize()
	case 1:
		rs, err = a.Finalize(fn.OrderByAsc)
	default:
		rs, err = a.Finalize(fn.OrderByDesc)
	}
	sym.Assert(err == nil, "an aggregation by groups has a result")
	seen := make([]bool, len(gs))
	var last []any
	for i := range gs {
		sym.Assert(rs.Next(), "every group has a row")
		row, err := rs.Row()
		sym.Assert(err == nil && len(row) == 2, "the row of a group has its key and its aggregate")
		j := i
		if order != 0 {
			j = -1
			for m, g := range gs {
				if !seen[m] && sameKey(g.key[0], row[0]) {
					j = m
					break
				}
			}
			sym.Assert(j >= 0, "every group has one row")
			seen[j] = true
			if last != nil {
				lo, hi := last, []any(row)
				if order == 2 {
					lo, hi = hi, lo
				}
				sym.Assert(before(lo, hi, 1), "the groups are in the order asked for")
			}
			last = row
		}
		sym.Assert(sameKey(gs[j].key[0], row[0]), "the row of a group has the key of the group")
		gs[j].t.check(k, row[1])
	}
	sym.Assert(!rs.Next(), "there is one row for each group")
	sym.Cover("end")
}

func F20_Many()       { f20many([]int{6, 12}[sym.Choose("n", 2)], 0) }
func F20_ManySorted() { f20many([]int{6, 12}[sym.Choose("n", 2)], 1+sym.Choose("dir", 2)) }
func F20_Hundred() {
	// more groups than any small bound, each with one row
	a := newAggr(4, []string{"x"}, "g")
	n := []int{33, 65, 129}[sym.Choose("n", 3)]
	at := sym.Choose("at", 2) * (n - 1)
	x := sym.IntRange("g", 0, 1)
	for i := 0; i < n; i++ {
		key := i + 1
		if i == at {
			key = x * 1000
		}
		sym.Assert(a.Aggregate([]any{key, i}) == nil, "a row of a group is aggregated")
	}
	rs, err := a.Finalize()
	sym.Assert(err == nil, "an aggregation by groups has a result")
	for i := 0; i < n; i++ {
		sym.Assert(rs.Next(), "every group has a row")
		row, err := rs.Row()
		sym.Assert(err == nil && len(row) == 2, "the row of a group has its key and its aggregate")
		key := i + 1
		if i == at {
			key = x * 1000
		}
		sym.Assert(sameKey(row[0], key) && row[1] == 1.0, "the row of a group has the key of the group")
	}
	sym.Assert(!rs.Next(), "there is one row for each group")
	sym.Cover("end")
}

// longer keys, which differ anywhere
func F20_LongKeys() {
	n := 3 + sym.Choose("n", 6)
	p, q := sym.Str("p", n, n, "ident"), sym.Str("q", n, n, "ident")
	if sym.Choose("q", 2) == 1 {
		q = sym.Str("r", 0, 2, "ident") + p
	}
	a := newAggr(4, []string{"x"}, "g")
	sym.Assert(a.Aggregate([]any{p, 1}) == nil && a.Aggregate([]any{q, 1}) == nil, "a row of a group is aggregated")
	rs, err := a.Finalize()
	sym.Assert(err == nil && rs.Next(), "every group has a row")
	row, err := rs.Row()
	sym.Assert(err == nil && len(row) == 2 && row[0] == p, "the row of a group has the key of the group")
	if p == q {
		sym.Assert(row[1] == 2.0 && !rs.Next(), "rows with the same key are one group")
		sym.Cover("same")
		return
	}
	sym.Assert(row[1] == 1.0 && rs.Next(), "rows with different keys are different groups")
	row, err = rs.Row()
	sym.Assert(err == nil && len(row) == 2 && row[0] == q && row[1] == 1.0 && !rs.Next(), "the row of a group has the key of the group")
	sym.Cover("different")
}

// keys of more kinds: truth values, sized integers and fractions
func F20_KeyKinds() {
	a := newAggr(4, []string{"x"}, "g")
	var p, q any
	var same bool
	switch sym.Choose("kind", 6) {
	case 0:
		x, y := sym.Bool("p"), sym.Bool("q")
		p, q, same = x, y, x == y
	case 1:
		x, y := int64(sym.IntRange("p", -99, 99)), int64(sym.IntRange("q", -99, 99))
		p, q, same = x, y, x == y
	case 2:
		x, y := sym.Uint8("p"), sym.Uint8("q")
		p, q, same = x, y, x == y
	case 3:
		fs := []float64{0.5, -0.5, 1.25, 100000000.5, 0.25}
		x, y := fs[sym.Choose("p", 5)], fs[sym.Choose("q", 5)]
		p, q, same = x, y, x == y
	case 4:
		x := sym.Str("p", 0, 4, "text")
		p, q, same = x, nil, false
	default:
		x := int32(sym.IntRange("p", -99, 99))
		p, q, same = nil, x, false
	}
	sym.Assert(a.Aggregate([]any{p, 1}) == nil && a.Aggregate([]any{q, 1}) == nil, "a row of a group is aggregated")
	rs, err := a.Finalize()
	sym.Assert(err == nil && rs.Next(), "every group has a row")
	row, err := rs.Row()
	sym.Assert(err == nil && len(row) == 2 && row[0] == p, "the row of a group has the key of the group")
	if same {
		sym.Assert(row[1] == 2.0 && !rs.Next(), "rows with the same key are one group")
		sym.Cover("same")
		return
	}
	sym.Assert(row[1] == 1.0 && rs.Next(), "rows with different keys are different groups")
	row, err = rs.Row()
	sym.Assert(err == nil && len(row) == 2 && row[0] == q && row[1] == 1.0 && !rs.Next(), "the row of a group has the key of the group")
	sym.Cover("different")
}

// three group columns: the groups are the triples
func F20_Triples() {
	cols := []string{"g", "h", "i"}
	a := newAggr(4, []string{"x"}, cols...)
	form := sym.Choose("form", 4)
	var rows [2][]any
	same := true
	for r := range rows {
		for c := range cols {
			rows[r] = append(rows[r], sym.Str(cols[c]+itoa(r), 0, 1, `[,\aN]`))
		}
		sym.Assert(a.Aggregate(feed(form, []string{"g", "h", "i", "x"}, append(append([]any{}, rows[r]...), 1))) == nil, "a row of a group is aggregated")
	}
	for c := range cols {
		same = same && sameKey(rows[0][c], rows[1][c])
	}
	rs, err := a.Finalize()
	sym.Assert(err == nil && len(rs.Columns()) == 4, "the result has the group columns and the aggregate")
	want := 1.0
	if same {
		want = 2
	}
	for r := range rows {
		if r == 1 && same {
			break
		}
		sym.Assert(rs.Next(), "every group has a row")
		row, err := rs.Row()
		sym.Assert(err == nil && len(row) == 4 && row[3] == want, "the row of a group has its key and its aggregate")
		for c := range cols {
			sym.Assert(sameKey(row[c], rows[r][c]), "the row of a group has the key of the group")
		}
	}
	sym.Assert(!rs.Next(), "there is one row for each group")
	sym.Cover("end")
}

// a refused row leaves no group behind, and changes none
func F20_Refused() {
	k := sym.Choose("aggr", 4)
	a := newAggr(k, []string{"x", "y"}, "g")
	form := 2 * sym.Choose("form", 2)
	cols := []string{"g", "x", "y"}
	p, q := sym.Str("p", 0, 1, "text"), sym.Str("q", 0, 1, "text")
	x, y := float64(sym.Int8("x")), float64(sym.Int8("y"))
	var tx, ty total
	first := sym.Choose("first", 2) == 1
	ok := func() {
		sym.Assert(a.Aggregate(feed(form, cols, []any{p, x, y})) == nil, "a row of a group is aggregated")
		tx.add(x)
		ty.add(y)
	}
	if first {
		ok()
	}
	bad := []any{q, x, y}
	bad[1+sym.Choose("at", 2)] = sym.Str("s", 1, 2, "[g-m]")
	sym.Assert(a.Aggregate(feed(form, cols, bad)) != nil, "a row with a value that is no number is refused")
	if !first {
		ok()
	}
	rs, err := a.Finalize()
	sym.Assert(err == nil && rs.Next(), "every group has a row")
	row, err := rs.Row()
	sym.Assert(err == nil && len(row) == 3 && row[0] == p, "the row of a group has the key of the group")
	tx.check(k, row[1])
	ty.check(k, row[2])
	sym.Assert(!rs.Next(), "a refused row makes no group")
	sym.Cover("end")
}

// groups are kept apart when the aggregate is used again after a reset
func F20_Reset() {
	k := sym.Choose("aggr", 5)
	a := newAggr(k, []string{"x"}, "g")
	p, q := sym.Str("p", 0, 1, "text"), sym.Str("q", 0, 1, "text")
	x, y := float64(sym.Int8("x")), float64(sym.Int8("y"))
	sym.Assert(a.Aggregate([]any{p, x}) == nil, "a row of a group is aggregated")
	if sym.Choose("final", 2) == 1 {
		_, err := a.Finalize()
		sym.Assert(err == nil, "an aggregation has a result")
	}
	sym.Assert(a.Reset() == nil, "an aggregate can be reset")
	var t total
	sym.Assert(a.Aggregate([]any{q, y}) == nil, "a row of a group is aggregated")
	t.add(y)
	rs, err := a.Finalize()
	sym.Assert(err == nil && rs.Next(), "every group has a row")
	row, err := rs.Row()
	sym.Assert(err == nil && len(row) == 2 && row[0] == q, "the row of a group has the key of the group")
	t.check(k, row[1])
	sym.Assert(!rs.Next(), "nothing is left of the groups before a reset")
	sym.Cover("end")
}

// NULL values of a group do not count, and a group of NULL values alone still has a row
func F20_Nulls() {
	k := sym.Choose("aggr", 5)
	a := newAggr(k, []string{"x"}, "g")
	var gs []*group
	for i := 0; i < 3; i++ {
		key := sym.Str("g"+itoa(i), 1, 1, "[ab]")
		f := float64(sym.Int8("x" + itoa(i)))
		null := sym.Choose("null"+itoa(i), 2) == 1
		var v any = f
		if null {
			v = nil
		}
		var g *group
		for _, o := range gs {
			if sameKey(o.key[0], key) {
				g = o
				break
			}
		}
		if g == nil {
			g = &group{key: []any{key}}
			gs = append(gs, g)
		}
		if !null {
			g.t.add(f)
		}
		sym.Assert(a.Aggregate([]any{key, v}) == nil, "a row of a group is aggregated")
	}
	rs, err := a.Finalize()
	sym.Assert(err == nil, "an aggregation by groups has a result")
	for _, g := range gs {
		sym.Assert(rs.Next(), "every group has a row")
		row, err := rs.Row()
		sym.Assert(err == nil && len(row) == 2 && sameKey(row[0], g.key[0]), "the row of a group has the key of the group")
		g.t.check(k, row[1])
	}
	sym.Assert(!rs.Next(), "there is one row for each group")
	sym.Cover("end")
}

// ---- F21: many rows and many aggregates

func F21_Many() {
	w := 3 + sym.Choose("w", 4)
	n := []int{3, 9, 17}[sym.Choose("n", 3)]
	grouped := sym.Choose("grouped", 2) == 1
	var list []fn.Aggregator
	var cols names
	if grouped {
		cols = append(cols, "g")
	}
	for i := 0; i < w; i++ {
		k, arg := (i*2)%5, "c"+itoa(i)
		a, err := fn.NewAggregatorForName(aggrNames[k], fn.WithAggregatorArguments([]string{arg}))
		sym.Assert(err == nil, "an aggregate function is found by its name")
		list = append(list, a)
		cols = append(cols, aggrNames[k]+"("+arg+")")
	}
	set := fn.NewAggregatorSetWith(list)
	var opts []any
	if grouped {
		opts = append(opts, fn.NewGroupBy("g"))
	}
	sym.Assert(set.Reset(opts...) == nil, "a set of aggregates can be reset")
	atR := []int{0, n - 1}[sym.Choose("atr", 2)]
	atC := []int{0, w - 1}[sym.Choose("atc", 2)]
	x := float64(sym.Int8("x"))
	nulls := sym.Choose("nulls", 2) == 1
	type gr struct {
		key int
		t   []total
	}
	var gs []*gr
	for r := 0; r < n; r++ {
		key := 0
		if grouped {
			key = (r * 2) % 3
		}
		var g *gr
		for _, o := range gs {
			if o.key == key {
				g = o
				break
			}
		}
		if g == nil {
			g = &gr{key: key, t: make([]total, w)}
			gs = append(gs, g)
		}
		m := map[string]any{"g": key}
		for c := 0; c < w; c++ {
			f := float64((r*3+c*5)%7 - 3)
			if r == atR && c == atC {
				f = x
			}
			if nulls && (r+c)%4 == 1 && !(r == atR && c == atC) {
				m["c"+itoa(c)] = nil
				continue
			}
			m["c"+itoa(c)] = f
			g.t[c].add(f)
		}
		sym.Assert(set.Aggregate(m) == nil, "a row is aggregated by every aggregate")
	}
	rs, err := set.Finalize()
	sym.Assert(err == nil && cols.same(rs.Columns()), "the result has the group columns once, then every aggregate")
	off := 0
	if grouped {
		off = 1
	}
	for _, g := range gs {
		sym.Assert(rs.Next(), "every group has a row")
		row, err := rs.Row()
		sym.Assert(err == nil && len(row) == len(cols), "a row has a value for every column")
		if grouped {
			sym.Assert(row[0] == g.key, "the aggregates of a row belong to its group")
		}
		for c := range g.t {
			g.t[c].check((c*2)%5, row[off+c])
		}
	}
	sym.Assert(!rs.Next(), "there is one row for each group")
	sym.Cover("end")
}

// a set that was used before starts again after a reset
func F21_Reset() {
	k1, k2 := sym.Choose("k1", 5), sym.Choose("k2", 5)
	mk := func(k int, c string) fn.Aggregator {
		a, err := fn.NewAggregatorForName(aggrNames[k], fn.WithAggregatorArguments([]string{c}))
		sym.Assert(err == nil, "an aggregate function is found by its name")
		return a
	}
	set := fn.NewAggregatorSetWith([]fn.Aggregator{mk(k1, "x"), mk(k2, "y")})
	sym.Assert(set.Reset() == nil, "a set of aggregates can be reset")
	x, y := float64(sym.Int8("x")), float64(sym.Int8("y"))
	sym.Assert(set.Aggregate(map[string]any{"x": y, "y": x}) == nil, "a row is aggregated by every aggregate")
	if sym.Choose("final", 2) == 1 {
		_, err := set.Finalize()
		sym.Assert(err == nil, "a set of aggregates has a result")
	}
	sym.Assert(set.Reset() == nil, "a set of aggregates can be reset")
	sym.Assert(set.Aggregate(map[string]any{"x": x, "y": y}) == nil, "a row is aggregated by every aggregate")
	var tx, ty total
	tx.add(x)
	ty.add(y)
	rs, err := set.Finalize()
	row := one(rs, err, aggrNames[k1]+"(x)", aggrNames[k2]+"(y)")
	tx.check(k1, row[0])
	ty.check(k2, row[1])
	sym.Cover("end")
}

// a row given as a list may be used again by the caller
func F20_Reuse() {
	k := sym.Choose("aggr", 5)
	a := newAggr(k, []string{"x"}, "g", "h")
	form := sym.Choose("form", 4)
	p, q := sym.Str("p", 1, 1, "[ab]"), sym.Str("q", 1, 1, "[ab]")
	x, y := float64(sym.Int8("x")), float64(sym.Int8("y"))
	row := []any{p, "h", x}
	cols := []string{"g", "h", "x"}
	r := feed(form, cols, row)
	sym.Assert(a.Aggregate(r) == nil, "a row of a group is aggregated")
	switch r := r.(type) {
	case map[string]any:
		r["g"], r["x"] = q, y
	case fn.Map:
		r["g"], r["x"] = q, y
	case fn.Row:
		r[0], r[2] = q, y
	default:
		row[0], row[2] = q, y
	}
	sym.Assert(a.Aggregate(r) == nil, "a row of a group is aggregated")
	var t, u total
	t.add(x)
	if p == q {
		t.add(y)
	} else {
		u.add(y)
	}
	rs, err := a.Finalize()
	sym.Assert(err == nil && rs.Next(), "every group has a row")
	got, err := rs.Row()
	sym.Assert(err == nil && len(got) == 3 && got[0] == p && got[1] == "h", "the row of a group has the key of the group")
	t.check(k, got[2])
	if p != q {
		sym.Assert(rs.Next(), "every group has a row")
		got, err := rs.Row()
		sym.Assert(err == nil && len(got) == 3 && got[0] == q && got[1] == "h", "the row of a group has the key of the group")
		u.check(k, got[2])
	}
	sym.Assert(!rs.Next(), "there is one row for each group")
	sym.Cover("end")
}

// three group columns in order
func F20_Sorted3() {
	cols := []string{"g", "h", "i"}
	a := newAggr(4, []string{"x"}, cols...)
	var rows [2][]any
	for r := range rows {
		for c := range cols {
			rows[r] = append(rows[r], sym.Str(cols[c]+itoa(r), 1, 1, "[a-c]"))
		}
		sym.Assert(a.Aggregate(append(append([]any{}, rows[r]...), 1)) == nil, "a row of a group is aggregated")
	}
	ord := fn.OrderByAsc
	desc := sym.Choose("desc", 2) == 1
	if desc {
		ord = fn.OrderByDesc
	}
	rs, err := a.Finalize(ord)
	sym.Assert(err == nil && rs.Next(), "every group has a row")
	p, err := rs.Row()
	sym.Assert(err == nil && len(p) == 4, "the row of a group has its key and its aggregate")
	if !rs.Next() {
		return
	}
	q, err := rs.Row()
	sym.Assert(err == nil && len(q) == 4, "the row of a group has its key and its aggregate")
	lo, hi := []any(p), []any(q)
	if desc {
		lo, hi = hi, lo
	}
	sym.Assert(before(lo, hi, 3), "the groups are in the order asked for")
	sym.Cover("end")
}

// keys of many characters that differ in the last one, or by one more
func F20_Tail() {
	n := []int{9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025}[sym.Choose("n", 17)]
	b := make([]byte, n-1)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	s := string(b)
	p := s + sym.Str("p", 0, 1, "ident")
	q := s + sym.Str("q", 0, 1, "ident")
	a := newAggr(4, []string{"x"}, "g")
	sym.Assert(a.Aggregate([]any{p, 1}) == nil && a.Aggregate([]any{q, 1}) == nil, "a row of a group is aggregated")
	rs, err := a.Finalize()
	sym.Assert(err == nil && rs.Next(), "every group has a row")
	row, err := rs.Row()
	sym.Assert(err == nil && len(row) == 2 && row[0] == p, "the row of a group has the key of the group")
	if p == q {
		sym.Assert(row[1] == 2.0 && !rs.Next(), "rows with the same key are one group")
		sym.Cover("same")
		return
	}
	sym.Assert(row[1] == 1.0 && rs.Next(), "rows with different keys are different groups")
	row, err = rs.Row()
	sym.Assert(err == nil && len(row) == 2 && row[0] == q && row[1] == 1.0 && !rs.Next(), "the row of a group has the key of the group")
	sym.Cover("different")
}

// integers of any size are different keys
func F20_BigKeys() {
	a := newAggr(4, []string{"x"}, "g")
	base := []int{0, 255, 65535, 1 << 31, 1 << 32, 1 << 53, 1 << 62}[sym.Choose("base", 7)]
	if sym.Choose("neg", 2) == 1 {
		base = -base
	}
	p := base + []int{0, 1, 9}[sym.Choose("d", 3)]
	q := base + []int{0, 1, -1, 256, 65536}[sym.Choose("e", 5)]
	x := sym.Int8("x")
	sym.Assert(a.Aggregate([]any{p, x}) == nil && a.Aggregate([]any{q, x}) == nil, "a row of a group is aggregated")
	rs, err := a.Finalize(fn.OrderByAsc)
	sym.Assert(err == nil && rs.Next(), "every group has a row")
	row, err := rs.Row()
	sym.Assert(err == nil && len(row) == 2 && row[0] == min(p, q), "the groups are in the order asked for")
	if p == q {
		sym.Assert(row[1] == 2.0 && !rs.Next(), "rows with the same key are one group")
	} else {
		sym.Assert(row[1] == 1.0 && rs.Next(), "rows with different keys are different groups")
		row, err = rs.Row()
		sym.Assert(err == nil && len(row) == 2 && row[0] == max(p, q) && row[1] == 1.0 && !rs.Next(), "the row of a group has the key of the group")
	}
	sym.Cover("end")
}

// a row that lacks a column of the aggregate is refused as a whole
func F19_Missing() {
	k := sym.Choose("aggr", 5)
	grouped := sym.Choose("grouped", 2) == 1
	cols := []string{"x", "y", "z"}
	var gs []string
	if grouped {
		gs = []string{"g"}
	}
	a := newAggr(k, cols, gs...)
	x := float64(sym.Int8("x"))
	full := map[string]any{"g": "k", "x": x, "y": x, "z": x}
	sym.Assert(a.Aggregate(full) == nil, "a row is aggregated")
	var t total
	t.add(x)
	all := append(append([]string{}, gs...), cols...)
	at := sym.Choose("at", 4)
	if at >= len(all) {
		sym.Stop()
	}
	part := map[string]any{"o": 1}
	for i, c := range all {
		if i != at {
			part[c] = full[c]
		}
	}
	var r any = part
	if sym.Choose("map", 2) == 1 {
		r = fn.Map(part)
	}
	sym.Assert(a.Aggregate(r) != nil, "a row without a column of the aggregate is refused")
	rs, err := a.Finalize()
	sym.Assert(err == nil && rs.Next(), "an aggregation has a result")
	row, err := rs.Row()
	sym.Assert(err == nil && len(row) == len(all), "the row of an aggregation has its columns")
	for i := range cols {
		t.check(k, row[len(gs)+i])
	}
	sym.Cover("end")
}

// a set with groups that was used before starts again after a reset
func F21_ResetGroups() {
	k1, k2 := sym.Choose("k1", 5), sym.Choose("k2", 5)
	mk := func(k int, c string) fn.Aggregator {
		a, err := fn.NewAggregatorForName(aggrNames[k], fn.WithAggregatorArguments([]string{c}))
		sym.Assert(err == nil, "an aggregate function is found by its name")
		return a
	}
	set := fn.NewAggregatorSetWith([]fn.Aggregator{mk(k1, "x"), mk(k2, "y")})
	x, y := float64(sym.Int8("x")), float64(sym.Int8("y"))
	p, q := sym.Str("p", 0, 1, "[ab]"), sym.Str("q", 0, 1, "[ab]")
	g1, g2 := "g", []string{"g", "h"}[sym.Choose("g2", 2)]
	sym.Assert(set.Reset(fn.NewGroupBy(g1)) == nil, "a set of aggregates can be reset")
	m := map[string]any{"x": y, "y": x, "g": p, "h": q}
	sym.Assert(set.Aggregate(m) == nil, "a row is aggregated by every aggregate")
	if sym.Choose("final", 2) == 1 {
		_, err := set.Finalize()
		sym.Assert(err == nil, "a set of aggregates has a result")
	}
	sym.Assert(set.Reset(fn.NewGroupBy(g2)) == nil, "a set of aggregates can be reset")
	m["x"], m["y"] = x, y
	sym.Assert(set.Aggregate(m) == nil, "a row is aggregated by every aggregate")
	var tx, ty total
	tx.add(x)
	ty.add(y)
	rs, err := set.Finalize()
	row := one(rs, err, g2, aggrNames[k1]+"(x)", aggrNames[k2]+"(y)")
	sym.Assert(row[0] == m[g2], "the aggregates of a row belong to its group")
	tx.check(k1, row[1])
	ty.check(k2, row[2])
	sym.Cover("end")
}

// the same aggregate may stand in a set more than once
func F21_Same() {
	k := sym.Choose("k", 5)
	n := 2 + sym.Choose("n", 3)
	var list []fn.Aggregator
	var cols []string
	for i := 0; i < n; i++ {
		a, err := fn.NewAggregatorForName(aggrNames[k], fn.WithAggregatorArguments([]string{"x"}))
		sym.Assert(err == nil, "an aggregate function is found by its name")
		list = append(list, a)
		cols = append(cols, aggrNames[k]+"(x)")
	}
	set := fn.NewAggregatorSetWith(list)
	sym.Assert(set.Reset() == nil, "a set of aggregates can be reset")
	var t total
	for i := 0; i < 2; i++ {
		x := float64(sym.Int8("x" + itoa(i)))
		t.add(x)
		sym.Assert(set.Aggregate(map[string]any{"x": x}) == nil, "a row is aggregated by every aggregate")
	}
	rs, err := set.Finalize()
	row := one(rs, err, cols...)
	for i := range row {
		t.check(k, row[i])
	}
	sym.Cover("end")
}
