// Package models has Go bodies for methods of package sync that are written
// with runtime support. The engine calls them in place of the originals, with
// the object locked; compiled natively they are not used.
package models

import "sync"

var pools = map[*sync.Pool][]any{}

// PoolTake takes the object put last.
func PoolTake(p *sync.Pool) (any, bool) {
	s := pools[p]
	if len(s) == 0 {
		return nil, false
	}
	x := s[len(s)-1]
	pools[p] = s[:len(s)-1]
	return x, true
}

// PoolNew makes an object.
func PoolNew(p *sync.Pool) any {
	if p.New == nil {
		return nil
	}
	return p.New()
}

// PoolPut puts an object.
func PoolPut(p *sync.Pool, x any) {
	if x == nil {
		return
	}
	pools[p] = append(pools[p], x)
}

type entry struct {
	k, v any
	gone bool
}

var maps = map[*sync.Map][]*entry{}

func find(m *sync.Map, k any) *entry {
	for _, e := range maps[m] {
		if !e.gone && e.k == k {
			return e
		}
	}
	return nil
}

func MapLoad(m *sync.Map, k any) (any, bool) {
	if e := find(m, k); e != nil {
		return e.v, true
	}
	return nil, false
}

func MapStore(m *sync.Map, k, v any) { MapSwap(m, k, v) }

func MapSwap(m *sync.Map, k, v any) (any, bool) {
	if e := find(m, k); e != nil {
		o := e.v
		e.v = v
		return o, true
	}
	maps[m] = append(maps[m], &entry{k: k, v: v})
	return nil, false
}

func MapLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	if e := find(m, k); e != nil {
		return e.v, true
	}
	maps[m] = append(maps[m], &entry{k: k, v: v})
	return v, false
}

func MapLoadAndDelete(m *sync.Map, k any) (any, bool) {
	if e := find(m, k); e != nil {
		e.gone = true
		return e.v, true
	}
	return nil, false
}

func MapDelete(m *sync.Map, k any) { MapLoadAndDelete(m, k) }

func MapCompareAndSwap(m *sync.Map, k, o, n any) bool {
	if e := find(m, k); e != nil && e.v == o {
		e.v = n
		return true
	}
	return false
}

func MapCompareAndDelete(m *sync.Map, k, o any) bool {
	if e := find(m, k); e != nil && e.v == o {
		e.gone = true
		return true
	}
	return false
}

func MapClear(m *sync.Map) { delete(maps, m) }

// MapKeys is the content as keys and values in turn.
func MapKeys(m *sync.Map) []any {
	var r []any
	for _, e := range maps[m] {
		if !e.gone {
			r = append(r, e.k, e.v)
		}
	}
	return r
}

// MapRange walks the content.
func MapRange(kv []any, f func(k, v any) bool) {
	for i := 0; i+1 < len(kv); i += 2 {
		if !f(kv[i], kv[i+1]) {
			return
		}
	}
}
