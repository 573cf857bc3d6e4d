PROPERTY="C36"
NEEDS="two goroutines that each read a table definition with a parser of their own at the same time"
BREAKS="the data type found last is remembered for all parsers and written without a lock"
RACE=True
EDITS=[("sql/query/data_type.go","""	us := strings.ToUpper(s)
	for""","""	if last := lastDataType; last != nil && last.name == s {
		return last.dataType, nil
	}
	us := strings.ToUpper(s)
	for"""),("sql/query/data_type.go","""		if dataTypeString == us {
			return dataType, nil
		}
		dataTypeString =""","""		if dataTypeString == us {
			lastDataType = &namedDataType{name: s, dataType: dataType}
			return dataType, nil
		}
		dataTypeString ="""),("sql/query/data_type.go","""// NewDataTypeFrom returns""","""type namedDataType struct {
	name     string
	dataType DataType
}

// lastDataType is the data type found last.
var lastDataType *namedDataType

// NewDataTypeFrom returns""")]
IMPORTS=["sync","github.com/cybergarage/go-sqlparser/sql"]
DEMO='''func main() {
	var wg sync.WaitGroup
	names := []string{"TEXT", "INT", "BIGINT", "DOUBLE", "FLOAT", "VARCHAR", "CHAR", "DATE", "TIME", "REAL", "BLOB", "YEAR"}
	gate := make(chan struct{})
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for _, n := range names {
				st, err := sql.NewParser().ParseString("CREATE TABLE t (a " + n + ")")
				check(err == nil && len(st) == 1, "parse %v", err)
			}
		}()
	}
	close(gate)
	wg.Wait()
}
'''
