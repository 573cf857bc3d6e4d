package props

import (
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif/harness/sym"
)

// typed is a table with one column a of type t.
func typed(t query.DataType) query.Schema {
	return query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(
		query.NewColumnWithOptions(query.WithColumnName("z"), query.WithColumnData(query.NewDataDef(query.TextType, -1))),
		query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnData(query.NewDataDef(t, 7))))))
}

// coerce gives the value of a column a after a table definition is applied.
func coerce(t query.DataType, l *query.Literal) (query.Column, error) {
	if sym.Choose("by", 2) == 1 {
		c := query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnData(query.NewDataDef(t, 7)))
		if l.ValueType() == query.StringLiteral {
			sym.Stop()
		}
		return c, c.SetValue(l.Value())
	}
	c := query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnLiteral(l))
	return c, query.NewColumnsWith(c).SetSchema(typed(t))
}

// intTypes are the integer column types; the bounds follow in limits.
var intTypes = []query.DataType{query.TinyIntType, query.SmallIntType, query.IntType, query.IntegerType, query.BigIntType}

// asInt gives the value of a column of an integer type; each type has one width.
func asInt(t query.DataType, v any) (int64, bool) {
	switch t {
	case query.TinyIntType:
		x, ok := v.(int8)
		return int64(x), ok
	case query.SmallIntType:
		x, ok := v.(int16)
		return int64(x), ok
	case query.BigIntType:
		x, ok := v.(int64)
		return x, ok
	}
	x, ok := v.(int32)
	return int64(x), ok
}

func fits(t query.DataType, v int64) bool {
	lo, hi := int64(-1<<31), int64(1<<31-1)
	switch t {
	case query.TinyIntType:
		lo, hi = -128, 127
	case query.SmallIntType:
		lo, hi = -32768, 32767
	case query.BigIntType:
		return true
	}
	return sym.And(lo <= v, v <= hi)
}

func checkInt(t query.DataType, c query.Column, err error, want int64, big bool) {
	if sym.And(!big, fits(t, want)) {
		sym.Assert(err == nil, "a number in the range of the column type is accepted")
		got, ok := asInt(t, c.Value())
		sym.Assert(ok, "an integer column has a value of its own width")
		sym.Assert(got == want, "an integer column has the number it was given")
		sym.Assert(c.DataType() == t && c.DataTypeSize() == 7, "the column takes the type of the table definition")
		sym.Cover("accepted")
	} else {
		sym.Assert(err != nil, "a number out of the range of the column type is refused")
		sym.Cover("refused")
	}
}

func S17_Integers() {
	t := intTypes[sym.Choose("type", len(intTypes))]
	var v any
	var want int64
	big := false
	switch sym.Choose("kind", 10) {
	case 0:
		x := sym.Int("x")
		v, want = x, int64(x)
	case 1:
		x := sym.Int8("x")
		v, want = x, int64(x)
	case 2:
		x := sym.Int16("x")
		v, want = x, int64(x)
	case 3:
		x := sym.Int32("x")
		v, want = x, int64(x)
	case 4:
		x := sym.Int64("x")
		v, want = x, x
	case 5:
		x := sym.Uint8("x")
		v, want = x, int64(x)
	case 6:
		x := sym.Uint16("x")
		v, want = x, int64(x)
	case 7:
		x := sym.Uint32("x")
		v, want = x, int64(x)
	case 8:
		x := sym.Uint64("x")
		v, want, big = x, int64(x), x > 1<<63-1
	default:
		x := sym.Uint("x")
		v, want, big = x, int64(x), x > 1<<63-1
	}
	c, err := coerce(t, query.NewLiteralWith(v))
	checkInt(t, c, err, want, big)
}

// number is the text of an integer with n digits and its value.
func number(n int) (string, int64) {
	neg := sym.Choose("neg", 2) == 1
	d := sym.Str("d", n, n, "digit")
	var v int64
	for i := 0; i < n; i++ {
		v = v*10 + int64(d[i]-'0')
	}
	if neg {
		return "-" + d, -v
	}
	return d, v
}

// numbers written in a statement
func s17Text(types, n int) {
	t := intTypes[sym.Choose("type", types)]
	d, v := number(n)
	var l *query.Literal
	switch sym.Choose("quote", 2) {
	case 0:
		l = query.NewLiteralWith(d)
	default:
		l = query.NewLiteralWith(d, query.WithLiteralType(query.StringLiteral))
	}
	c, err := coerce(t, l)
	checkInt(t, c, err, v, false)
}

func S17_Text()          { s17Text(4, 1+sym.Choose("n", 6)) }
func S17_TextInt()       { s17Text(4, 10) }
func S17_Long_Thorough() { s17Text(4, 7+sym.Choose("n", 3)) }

// a number written for a BIGINT column
func S17_TextBig() {
	d, v := number(1 + 3*sym.Choose("n", 3))
	c, err := coerce(query.BigIntType, query.NewLiteralWith(d))
	sym.Assert(err == nil, "a number in the range of the column type is accepted")
	got, ok := c.Value().(int64)
	sym.Assert(ok && got == v, "an integer column has the number it was given")
	sym.Cover("end")
}

// the last two digits of the largest numbers
func S17_TextBigEdge() {
	e := sym.Str("e", 2, 2, "digit")
	low := int64(e[0]-'0')*10 + int64(e[1]-'0')
	s := "92233720368547758" + e
	neg := sym.Choose("neg", 2) == 1
	v := 9223372036854775800 + low
	ok := low <= 7
	if neg {
		s = "-" + s
		v = -9223372036854775800 - low
		ok = low <= 8
	}
	l := query.NewLiteralWith(s)
	if sym.Choose("quote", 2) == 1 {
		l.SetValueType(query.StringLiteral)
	}
	c, err := coerce(query.BigIntType, l)
	if ok {
		sym.Assert(err == nil, "a number in the range of the column type is accepted")
		got, is := c.Value().(int64)
		sym.Assert(is && got == v, "an integer column has the number it was given")
		sym.Cover("accepted")
	} else {
		sym.Assert(err != nil, "a number out of the range of the column type is refused")
		sym.Cover("refused")
	}
}

// floating point numbers that no 64-bit integer equals
func S17_FloatRange() {
	f := sym.Float64("f")
	sym.Assume(sym.Not(sym.And(f >= -(1<<63), f < 1<<63)))
	t := intTypes[sym.Choose("type", len(intTypes))]
	_, err := coerce(t, query.NewLiteralWith(f))
	sym.Assert(err != nil, "a number out of the range of the column type is refused")
	sym.Cover("end")
}

// texts of numbers that no 64-bit integer equals
func S17_TextRange() {
	s := ""
	switch sym.Choose("form", 6) {
	case 0:
		s = "9223372036854775808"
	case 1:
		s = "-9223372036854775809"
	case 2:
		s = itoa(1+sym.Choose("d", 9)) + "9999999999999999999"
	case 3:
		s = "1e" + itoa(2+sym.Choose("e", 8)) + "9"
	case 4:
		s = "NaN"
	default:
		s = "Inf"
	}
	t := intTypes[sym.Choose("type", len(intTypes))]
	l := query.NewLiteralWith(s)
	if sym.Choose("quote", 2) == 1 {
		l.SetValueType(query.StringLiteral)
	}
	_, err := coerce(t, l)
	sym.Assert(err != nil, "a number out of the range of the column type is refused")
	sym.Cover("end")
}

var realTypes = []query.DataType{query.FloatType, query.DoubleType}

func checkReal(t query.DataType, c query.Column, err error, w64 float64, w32 float32) {
	sym.Assert(err == nil, "a number fits a floating point column")
	if t == query.FloatType {
		x, ok := c.Value().(float32)
		sym.Assert(ok, "a FLOAT column has a 32-bit value")
		sym.Assert(sym.SameBits(float64(x), float64(w32)), "a FLOAT column has the nearest number to the one it was given")
	} else {
		x, ok := c.Value().(float64)
		sym.Assert(ok, "a DOUBLE column has a 64-bit value")
		sym.Assert(sym.SameBits(x, w64), "a DOUBLE column has the number it was given")
	}
	sym.Assert(c.DataType() == t, "the column takes the type of the table definition")
	sym.Cover("end")
}

func S17_Floats() {
	t := realTypes[sym.Choose("type", 2)]
	switch sym.Choose("kind", 7) {
	case 0:
		x := sym.Float64("x")
		c, err := coerce(t, query.NewLiteralWith(x))
		checkReal(t, c, err, x, float32(x))
	case 1:
		x := sym.Float32("x")
		c, err := coerce(t, query.NewLiteralWith(x))
		checkReal(t, c, err, float64(x), x)
	case 2:
		x := sym.Int64("x")
		c, err := coerce(t, query.NewLiteralWith(x))
		checkReal(t, c, err, float64(x), float32(x))
	case 3:
		x := sym.Int("x")
		c, err := coerce(t, query.NewLiteralWith(x))
		checkReal(t, c, err, float64(x), float32(x))
	case 4:
		x := sym.Int32("x")
		c, err := coerce(t, query.NewLiteralWith(x))
		checkReal(t, c, err, float64(x), float32(x))
	case 5:
		x := sym.Uint64("x")
		c, err := coerce(t, query.NewLiteralWith(x))
		checkReal(t, c, err, float64(x), float32(x))
	default:
		x := sym.Int8("x")
		c, err := coerce(t, query.NewLiteralWith(x))
		checkReal(t, c, err, float64(x), float32(x))
	}
}

// decimal numbers written in a statement: two digits, a point and one digit
func S17_TextFloat()           { s17TextFloat(2) }
func S17_TextFloat3_Thorough() { s17TextFloat(3) }

func s17TextFloat(max int) {
	t := realTypes[sym.Choose("type", 2)]
	n := sym.Choose("n", max)
	d := sym.Str("d", n+1, n+1, "digit")
	s, v := "", uint64(0)
	for i := 0; i <= n; i++ {
		v = v*10 + uint64(d[i]-'0')
	}
	s = d
	w := float64(v)
	if sym.Choose("point", 2) == 1 {
		s = d[:n] + "." + d[n:]
		if n == 0 {
			s = "0" + s
		}
		w = float64(v) / 10
	}
	c, err := coerce(t, query.NewLiteralWith(s))
	checkReal(t, c, err, w, float32(w))
}

// booleans
func S17_Booleans() {
	switch sym.Choose("kind", 4) {
	case 0:
		b := sym.Bool("b")
		c, err := coerce(query.BooleanType, query.NewLiteralWith(b))
		sym.Assert(err == nil && c.Value() == b, "a BOOLEAN column has the truth value it was given")
	case 1:
		i := sym.Choose("i", 6)
		s := []string{"true", "TRUE", "1", "false", "FALSE", "0"}[i]
		l := query.NewLiteralWith(s)
		if sym.Choose("quote", 2) == 1 {
			l.SetValueType(query.StringLiteral)
		}
		c, err := coerce(query.BooleanType, l)
		sym.Assert(err == nil && c.Value() == (i < 3), "a BOOLEAN column has the truth value written")
	case 2:
		n := sym.IntRange("n", 0, 1)
		c, err := coerce(query.BooleanType, query.NewLiteralWith(n))
		sym.Assert(err == nil && c.Value() == (n == 1), "a BOOLEAN column reads 0 and 1")
	default:
		s := sym.Str("s", 2, 3, "[g-z]")
		_, err := coerce(query.BooleanType, query.NewLiteralWith(s))
		sym.Assert(err != nil, "a text that is no truth value is refused")
	}
	sym.Cover("end")
}

var numTypes = []query.DataType{query.TinyIntType, query.SmallIntType, query.IntType, query.IntegerType, query.BigIntType, query.FloatType, query.DoubleType}

// a text that is no number
func S17_NotANumber() {
	t := numTypes[sym.Choose("type", len(numTypes))]
	s := ""
	switch sym.Choose("form", 4) {
	case 0:
		s = sym.Str("s", 0, 3, "[a-hj-mo-z ]")
	case 1:
		s = sym.Str("s", 1, 1, "digit") + sym.Str("r", 1, 1, "[a-df-z]")
	case 2:
		s = "-" + sym.Str("s", 0, 2, "[a-hj-mo-z-]")
	default:
		s = sym.Str("s", 1, 1, "digit") + " " + sym.Str("r", 0, 1, "digit")
	}
	l := query.NewLiteralWith(s, query.WithLiteralType(query.StringLiteral))
	c := query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnLiteral(l))
	sym.Assert(query.NewColumnsWith(c).SetSchema(typed(t)) != nil, "a text that is no number is refused by a numeric column")
	sym.Cover("end")
}

var allTypes = []query.DataType{
	query.TinyIntType, query.SmallIntType, query.IntType, query.IntegerType, query.BigIntType, query.FloatType, query.DoubleType, query.BooleanType,
	query.TextType, query.VarCharType, query.CharType, query.TimeStampType, query.DateTimeType, query.BlobType, query.LongTextType, query.DateType,
}

// NULL has no value in any column
func S17_Null() {
	t := allTypes[sym.Choose("type", len(allTypes))]
	switch sym.Choose("form", 4) {
	case 0:
		c, err := coerce(t, query.NewLiteralWith(nil))
		sym.Assert(err == nil && c.Value() == nil, "NULL is no value in a column of any type")
	case 1:
		s := []string{"NULL", "null", "Null"}[sym.Choose("case", 3)]
		c, err := coerce(t, query.NewLiteralWith(s))
		sym.Assert(err == nil && c.Value() == nil, "NULL is no value in a column of any type")
	case 2:
		ins, ok := parse1("INSERT INTO t (a, z) VALUES (NULL, 'x')").(query.Insert)
		sym.Assert(ok && len(ins.Values()) == 1, "an insert is read")
		cols := ins.Values()[0]
		sym.Assert(cols.SetSchema(typed(t)) == nil, "NULL is accepted by a column of any type")
		sym.Assert(cols[0].Value() == nil && cols[1].Value() == "x", "NULL is no value in a column of any type")
	default:
		c := query.NewColumnWithOptions(query.WithColumnName("a"))
		sym.Assert(query.NewColumnsWith(c).SetSchema(typed(t)) == nil && !c.HasValue(), "a column without a value keeps none")
		sym.Assert(c.DataType() == t, "the column takes the type of the table definition")
	}
	sym.Cover("end")
}

// texts are kept as they are
func S17_Texts() {
	t := allTypes[8+sym.Choose("type", len(allTypes)-8)]
	s := sym.Str("s", 0, 3, "text")
	l := query.NewLiteralWith(s, query.WithLiteralType(query.StringLiteral))
	c := query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnLiteral(l))
	if sym.Choose("null", 2) == 1 {
		s = "NULL"
		l.SetValue(s)
	}
	sym.Assert(query.NewColumnsWith(c).SetSchema(typed(t)) == nil, "a text fits a text column")
	sym.Assert(c.Value() == s && c.ValueType() == query.StringLiteral, "a text column keeps the text it was given")
	sym.Assert(c.DataType() == t && c.DataTypeSize() == 7, "the column takes the type of the table definition")
	sym.Cover("end")
}

// a row of a parsed INSERT under a table definition
func S17_Insert() {
	n := sym.Str("n", 1, 3, "digit")
	x := sym.Str("x", 0, 2, "textnq")
	up := sym.Choose("case", 2) == 1
	a, b := "a", "b"
	if up {
		a, b = "A", "B"
	}
	tbl, ok := parse1("CREATE TABLE t (b TEXT, a TINYINT, c DOUBLE)").(query.CreateTable)
	sym.Assert(ok, "a table definition is read")
	ins, ok := parse1("INSERT INTO t (" + a + ", " + b + ") VALUES (" + n + ", '" + x + "')").(query.Insert)
	sym.Assert(ok && len(ins.Values()) == 1, "an insert is read")
	cols := ins.Values()[0]
	v := 0
	for i := 0; i < len(n); i++ {
		v = v*10 + int(n[i]-'0')
	}
	err := cols.SetSchema(tbl.Schema())
	if v <= 127 {
		sym.Assert(err == nil, "a row that fits its table is accepted")
		i, ok := cols[0].Value().(int8)
		sym.Assert(ok && int(i) == v, "each value of a row takes the type of its own column")
		sym.Assert(cols[1].Value() == x, "each value of a row takes the type of its own column")
		sym.Cover("accepted")
	} else {
		sym.Assert(err != nil, "a number out of the range of the column type is refused")
		sym.Cover("refused")
	}
}

// a row with a column that the table does not have
func S17_UnknownColumn() {
	x := sym.Str("x", 1, 2, "ident")
	c := query.NewColumnWithOptions(query.WithColumnName(x), query.WithColumnLiteral(query.NewLiteralWith("1")))
	err := query.NewColumnsWith(c).SetSchema(typed(query.TextType))
	if sym.Or(sameFold(x, "a"), sameFold(x, "z")) {
		sym.Assert(err == nil, "a column of the table is accepted")
		sym.Cover("known")
	} else {
		sym.Assert(notFound(err), "a column the table does not have is refused")
		sym.Cover("unknown")
	}
}

// ---- S18: data type names

func S18_Names() {
	n := sym.Choose("type", int(query.SmallSerialType))
	t := query.BigIntType + query.DataType(n)
	s := t.String()
	sym.Assert(s != "", "every data type has a name")
	b := []byte(s)
	w := ""
	for i := range b {
		ch := b[i]
		if ch == ' ' && sym.Choose("blank", 2) == 1 {
			continue
		}
		if ch >= 'A' && ch <= 'Z' {
			ch = sym.Ite(sym.Bool("low"), ch+32, ch)
		}
		w += string([]byte{ch})
	}
	got, err := query.NewDataTypeFromString(w)
	sym.Assert(err == nil && got == t, "a data type is read back from its name in any letter case")
	got, err = query.NewDataTypeFrom(w)
	sym.Assert(err == nil && got == t, "a data type is read back from its name in any letter case")
	got, err = query.NewDataTypeFrom([]byte(w))
	sym.Assert(err == nil && got == t, "a data type is read back from its name in any letter case")
	d, err := query.NewDataDefFrom(w, 12)
	sym.Assert(err == nil && d.DataType() == t && d.DataTypeSize() == 12, "a column definition has its type and size")
	sym.Assert(d.String() == s+"(12)", "a column definition prints its type and size")
	sym.Cover("end")
}

// two types do not share a name
func S18_Distinct() {
	a := query.BigIntType + query.DataType(sym.Choose("a", int(query.SmallSerialType)))
	for b := query.BigIntType; b <= query.SmallSerialType; b++ {
		sym.Assert((a.String() == b.String()) == (a == b), "two data types have different names")
	}
	sym.Cover("end")
}

// other words are no types
func S18_Unknown() {
	w := sym.Str("w", 0, 5, "letter")
	got, err := query.NewDataTypeFromString(w)
	if err == nil {
		sym.Assert(sameFold(got.String(), w), "only the name of a type is a type")
		sym.Cover("type")
	} else {
		sym.Assert(got == query.UnknownData, "a word that is no type is reported")
		for b := query.BigIntType; b <= query.SmallSerialType; b++ {
			sym.Assert(!sameFold(b.String(), w), "the name of a type is a type")
		}
		sym.Cover("none")
	}
}

// the type of a Go value
func S18_Values() {
	var v any
	var want query.DataType
	switch sym.Choose("k", 14) {
	case 0:
		v, want = sym.Int8("x"), query.TinyIntType
	case 1:
		v, want = sym.Uint8("x"), query.TinyIntType
	case 2:
		v, want = sym.Int16("x"), query.SmallIntType
	case 3:
		v, want = sym.Uint16("x"), query.SmallIntType
	case 4:
		v, want = sym.Int32("x"), query.IntType
	case 5:
		v, want = sym.Uint32("x"), query.IntType
	case 6:
		v, want = sym.Int64("x"), query.BigIntType
	case 7:
		v, want = sym.Uint64("x"), query.BigIntType
	case 8:
		v, want = sym.Float32("x"), query.FloatType
	case 9:
		v, want = sym.Float64("x"), query.DoubleType
	case 10:
		v, want = sym.Bool("x"), query.BooleanType
	case 11:
		v, want = sym.Str("x", 0, 2, "text"), query.VarCharType
	case 12:
		v, want = []byte(sym.Str("x", 0, 2, "text")), query.BlobType
	default:
		_, err := query.NewDataTypeForValue(nil)
		sym.Assert(err != nil, "no value has no type")
		_, err = query.NewDataTypeFrom(1)
		sym.Assert(err != nil, "a number is no type name")
		sym.Cover("none")
		return
	}
	got, err := query.NewDataTypeForValue(v)
	sym.Assert(err == nil && got == want, "a value has the type of its Go kind")
	sym.Cover("typed")
}
