// Package sym is the harness interface. Under the symbolic engine every
// function here is an intrinsic; compiled natively it replays one assignment
// of the inputs against the real code.
package sym

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"sync"
)

// Run is the native replay context of one harness execution.
type Run struct {
	Inputs map[string]any
	names  map[string]int
	Tier   int
	Status string // "", assert, assume
	Label  string
	Covers map[string]bool
	Obs    []Obs
	Words  []string
	Sched  []int
	Multi  bool
}

// Obs is an observed value.
type Obs struct {
	Label, Val string
}

type stop struct{ why string }

var cur *Run
var mu sync.Mutex

// Exec replays f.
func Exec(r *Run, f func()) (panicked string) {
	r.names = map[string]int{}
	r.Covers = map[string]bool{}
	cur = r
	if len(r.Sched) > 0 {
		startSched(r.Sched)
	}
	defer func() {
		endSched()
		if x := recover(); x != nil {
			if s, ok := x.(stop); ok {
				if r.Status == "" {
					r.Status = s.why
				}
				return
			}
			panicked = fmt.Sprint(x)
		}
	}()
	f()
	return ""
}

func key(n string) string {
	mu.Lock()
	defer mu.Unlock()
	cur.names[n]++
	if k := cur.names[n]; k > 1 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func num(n string) string {
	v, ok := cur.Inputs[key(n)]
	if !ok {
		return "0"
	}
	return fmt.Sprint(v)
}

func i64(n string) int64 {
	v, err := strconv.ParseInt(num(n), 10, 64)
	if err != nil {
		panic("sym: bad int for " + n)
	}
	return v
}

func u64(n string) uint64 {
	v, err := strconv.ParseUint(num(n), 10, 64)
	if err != nil {
		panic("sym: bad uint for " + n)
	}
	return v
}

// Choose picks one of 0..n-1; each choice is explored on its own path.
func Choose(name string, n int) int {
	k := key(name)
	switch v := cur.Inputs[k].(type) {
	case float64:
		return int(v)
	case nil:
		return 0
	default:
		x, _ := strconv.Atoi(fmt.Sprint(v))
		return x
	}
}

// Bool is an arbitrary boolean.
func Bool(name string) bool {
	v, _ := cur.Inputs[key(name)].(bool)
	return v
}

func Int(name string) int       { return int(i64(name)) }
func Int64(name string) int64   { return i64(name) }
func Int32(name string) int32   { return int32(i64(name)) }
func Int16(name string) int16   { return int16(i64(name)) }
func Int8(name string) int8     { return int8(i64(name)) }
func Uint(name string) uint     { return uint(u64(name)) }
func Uint64(name string) uint64 { return u64(name) }
func Uint32(name string) uint32 { return uint32(u64(name)) }
func Uint16(name string) uint16 { return uint16(u64(name)) }
func Uint8(name string) uint8   { return uint8(u64(name)) }

func bits(name string) uint64 {
	s, _ := cur.Inputs[key(name)].(string)
	s = strings.TrimPrefix(s, "bits:")
	if s == "" {
		return 0
	}
	v, err := strconv.ParseUint(s, 16, 64)
	if err != nil {
		panic("sym: bad float for " + name)
	}
	return v
}

// Float64 is an arbitrary float64, NaN and infinities included.
func Float64(name string) float64 { return math.Float64frombits(bits(name)) }

// Float32 is an arbitrary float32.
func Float32(name string) float32 { return math.Float32frombits(uint32(bits(name))) }

// IntRange is an arbitrary int in [lo,hi], not forked.
func IntRange(name string, lo, hi int) int {
	v, ok := cur.Inputs[key(name)]
	if !ok {
		return lo
	}
	n, err := strconv.ParseInt(fmt.Sprint(v), 10, 64)
	if err != nil {
		panic("sym: bad int for " + name)
	}
	return int(n)
}

// Str is an arbitrary string with min..max bytes of a class.
func Str(name string, min, max int, class string) string {
	s, ok := cur.Inputs[key(name)].(string)
	if !ok {
		// past the end of the path the inputs were made for: any member will do
		c := "a"
		switch {
		case strings.HasPrefix(class, "digit"):
			c = "1"
		case strings.HasPrefix(class, "["):
			c = class[1:2]
		}
		return strings.Repeat(c, min)
	}
	return s
}

// Ident is an unquoted identifier that is not a keyword.
func Ident(name string, min, max int) string { return Str(name, min, max, "ident") }

// IsKeyword reports whether s is a keyword of the lexer.
func IsKeyword(s string) bool {
	for _, w := range cur.Words {
		if strings.EqualFold(w, s) {
			return true
		}
	}
	return false
}

// Keywords lists the lexer's keywords.
func Keywords() []string { return cur.Words }

// Assume restricts the path.
func Assume(c bool) {
	if !c {
		panic(stop{"assume"})
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		fail(label)
	}
}

// Fail is Assert(false).
func Fail(label string) { fail(label) }

func fail(label string) {
	mu.Lock()
	if cur.Status == "" {
		cur.Status, cur.Label = "assert", label
	}
	mu.Unlock()
	if !cur.Multi {
		panic(stop{"assert"})
	}
}

// Cover marks reachability.
func Cover(label string) {
	mu.Lock()
	cur.Covers[label] = true
	mu.Unlock()
}

// Observe records a value for comparison between engine and native run.
func Observe(label string, v any) {
	s := "?"
	switch x := v.(type) {
	case nil:
		s = "<nil>"
	case string:
		s = fmt.Sprintf("%q", x)
	case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		s = fmt.Sprint(x)
	case float64:
		b := math.Float64bits(x)
		if x != x {
			b = 0x7ff8000000000000
		}
		s = fmt.Sprintf("%016x", b)
	}
	mu.Lock()
	cur.Obs = append(cur.Obs, Obs{label, s})
	mu.Unlock()
}

// Known declares the region of a recorded finding.
func Known(id string, c bool) {}

// Unknow clears declared regions.
func Unknow() {}

// Stop ends the path.
func Stop() { panic(stop{""}) }

func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Not(c bool) bool          { return !c }
func Implies(a, b bool) bool   { return !a || b }
func Tier() int                { return cur.Tier }
func Symbolic() bool           { return false }
func Ite[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

// SameBits is equality of float64 as values (NaN equals NaN, zeros by sign).
func SameBits(a, b float64) bool {
	if a != a && b != b {
		return true
	}
	return math.Float64bits(a) == math.Float64bits(b)
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stop); ok {
				panic(x)
			}
			p = true
		}
	}()
	f()
	return false
}
