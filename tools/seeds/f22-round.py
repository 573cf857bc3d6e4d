PROPERTY="F22"
NEEDS="a negative number exactly between two integers, or the largest number below one half"
BREAKS="ROUND adds one half and takes the floor, which differs from rounding half away from zero"
EDITS=[("sql/fn/math_func.go","return int(math.Round(args[0])), nil","return int(math.Floor(args[0] + 0.5)), nil")]
IMPORTS=["github.com/cybergarage/go-sqlparser/sql/fn"]
DEMO='''func main() {
	for x, want := range map[float64]int{1.4: 1, 1.5: 2, -1.4: -1, -2.5: -3, 0.49999999999999994: 0} {
		v, err := fn.NewRound().Execute(x)
		check(err == nil && v == want, "ROUND(%v) = %v %v", x, v, err)
	}
}
'''
