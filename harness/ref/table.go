package ref

import "sort"

// Table is a map from network prefix (host bits zero) to value.
type Table[V any] struct {
	W int
	M map[P]V
}

func NewTable[V any](w int) Table[V] { return Table[V]{w, map[P]V{}} }

func (t Table[V]) Clone() Table[V] {
	n := NewTable[V](t.W)
	for k, v := range t.M {
		n.M[k] = v
	}
	return n
}

// Keys returns the entries' prefixes in walk order.
func (t Table[V]) Keys() []P {
	ks := make([]P, 0, len(t.M))
	for k := range t.M {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].Less(t.W, ks[j]) })
	return ks
}

// LPM scans all the entries.
func (t Table[V]) LPM(q P) (v V, ok bool, p P) {
	for k, kv := range t.M {
		if k.Contains(t.W, q) && (!ok || p.Len < k.Len) {
			v, ok, p = kv, true, k
		}
	}
	return
}
