package ref

import (
	"math/big"
	"sort"
	"strings"
)

// Iv is a non-empty closed interval of addresses.
type Iv struct{ First, Last U }

// Set is a sorted list of disjoint, non-adjacent intervals.
type Set []Iv

// Norm sorts and merges intervals.
func Norm(ivs []Iv) Set {
	s := append([]Iv(nil), ivs...)
	sort.Slice(s, func(i, j int) bool { return s[i].First.Less(s[j].First) })
	var out Set
	for _, iv := range s {
		if n := len(out); n > 0 {
			l := &out[n-1]
			if l.Last == (U{^uint64(0), ^uint64(0)}) || !l.Last.Inc().Less(iv.First) {
				if l.Last.Less(iv.Last) {
					l.Last = iv.Last
				}
				continue
			}
		}
		out = append(out, iv)
	}
	return out
}

func (s Set) Union(t Set) Set { return Norm(append(append([]Iv(nil), s...), t...)) }

func (s Set) Inter(t Set) Set {
	var out []Iv
	for _, a := range s {
		for _, b := range t {
			f, l := a.First, a.Last
			if f.Less(b.First) {
				f = b.First
			}
			if b.Last.Less(l) {
				l = b.Last
			}
			if !l.Less(f) {
				out = append(out, Iv{f, l})
			}
		}
	}
	return Norm(out)
}

func (s Set) Diff(t Set) Set {
	cur := append([]Iv(nil), s...)
	for _, b := range t {
		var next []Iv
		for _, a := range cur {
			if a.Last.Less(b.First) || b.Last.Less(a.First) {
				next = append(next, a)
				continue
			}
			if a.First.Less(b.First) {
				next = append(next, Iv{a.First, b.First.Dec()})
			}
			if b.Last.Less(a.Last) {
				next = append(next, Iv{b.Last.Inc(), a.Last})
			}
		}
		cur = next
	}
	return Norm(cur)
}

func (s Set) Equal(t Set) bool {
	if len(s) != len(t) {
		return false
	}
	for i := range s {
		if s[i] != t[i] {
			return false
		}
	}
	return true
}

func (s Set) Contains(t Set) bool { return len(t.Diff(s)) == 0 }

func (s Set) Has(a U) bool {
	for _, iv := range s {
		if !a.Less(iv.First) && !iv.Last.Less(a) {
			return true
		}
	}
	return false
}

// Prefixes is the minimal list of maximal prefixes, ascending. Greedy: at each
// point take the largest aligned block that still fits.
func (s Set) Prefixes(w int) []P {
	var out []P
	for _, iv := range s {
		a := iv.First
		for {
			n := 0 // block of 2^n addresses at a
			for n < w {
				m := LowMask(n + 1)
				if a.And(m) != Zero || iv.Last.Less(a.Or(m)) {
					break
				}
				n++
			}
			out = append(out, P{a, w - n})
			last := a.Or(LowMask(n))
			if last == iv.Last {
				break
			}
			a = last.Inc()
		}
	}
	return out
}

// Count is the number of addresses.
func (s Set) Count() *big.Int {
	n := new(big.Int)
	for _, iv := range s {
		d := new(big.Int).Sub(iv.Last.Big(), iv.First.Big())
		n.Add(n, d.Add(d, big.NewInt(1)))
	}
	return n
}

// NumPrefixes is the number of prefixes of the given length within the set.
func (s Set) NumPrefixes(w, length int) *big.Int {
	n := new(big.Int)
	for _, iv := range s {
		// blocks with index in [ceil(first/2^h), floor((last+1)/2^h)-1]
		h := uint(w - length)
		f, l := iv.First.Big(), iv.Last.Big()
		l.Add(l, big.NewInt(1))
		f.Add(f, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), h), big.NewInt(1)))
		f.Rsh(f, h)
		l.Rsh(l, h)
		if l.Cmp(f) > 0 {
			n.Add(n, l.Sub(l, f))
		}
	}
	return n
}

func (s Set) Str(w int) string {
	return PrefixesStr(w, s.Prefixes(w))
}

func PrefixesStr(w int, ps []P) string {
	var b strings.Builder
	b.WriteString("[")
	for i, p := range ps {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(p.Str(w))
	}
	b.WriteString("]")
	return b.String()
}

func FromPrefixes(w int, ps []P) Set {
	var ivs []Iv
	for _, p := range ps {
		ivs = append(ivs, p.Iv(w))
	}
	return Norm(ivs)
}
