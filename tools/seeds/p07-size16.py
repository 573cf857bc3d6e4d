PROPERTY="P07"
NEEDS="a column size above 32767"
BREAKS="VARCHAR(65535) loses its type and size, because the size is read as a 16 bit number"
EDITS=[("sql/query/column_def.go","""			v, err := strconv.Atoi(strs[2])
			if err != nil {
				return nil, newErrInvaidDataDef(strings.JoinWithSpace(strs))
			}
			dl = v
""","""			v, err := strconv.ParseInt(strs[2], 10, 16)
			if err != nil {
				return nil, newErrInvaidDataDef(strings.JoinWithSpace(strs))
			}
			dl = int(v)
""")]
DEMO='''func main() {
	for _, n := range []int{1, 255, 32767, 32768, 65535} {
		st, err := sql.NewParser().ParseString(fmt.Sprintf("CREATE TABLE t (a VARCHAR(%d))", n))
		check(err == nil && len(st) == 1, "parse %d: %v", n, err)
		c, err := st[0].(sql.CreateTable).Schema().LookupColumn("a")
		check(err == nil, "%v", err)
		check(c.DataType().String() == "VARCHAR" && c.DataTypeSize() == n, "size %d read as %v %d", n, c.DataType(), c.DataTypeSize())
	}
}
'''
