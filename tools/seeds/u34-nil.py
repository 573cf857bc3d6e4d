PROPERTY="U34"
NEEDS="a history that pushes a nil object and pops it with others below"
BREAKS="popping a nil object empties the stack"
EDITS=[("sql/util/stack.go","""	s.objects = s.objects[0:(objectCount - 1)]
	return obj
""","""	s.objects = s.objects[0:(objectCount - 1)]
	if obj == nil {
		s.objects = s.objects[:0]
	}
	return obj
""")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql/util"]
DEMO='''func main() {
	s := util.NewStack()
	s.PushObject(1)
	s.PushObject(nil)
	check(s.PopObject() == nil && s.Size() == 1 && s.PopObject() == 1 && s.Size() == 0, "the stack lost an object")
}
'''
