package fam

import (
	"fmt"
	"strings"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/par"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

func regUnrelated() {
	reg("C19", "at the same time: values", c19Values)
	reg("C19", "at the same time: unrelated sets and tables", c19Unrelated)
}

// unrelatedKeys are three prefixes with their host bits, nothing of one is in
// another. They differ in every byte.
var unrelatedKeys = [3]ref.P{
	{A: pattern(patAlt), Len: W/2 + 3},
	{A: pattern(patAlt).Not().And(ref.Max(W)), Len: W - 1},
	{A: pattern(patAlt).And(ref.LowMask(W - 2)), Len: 5},
}

func c19Values(c *rt.Ctx) {
	p := func(d int) ip.Prefix { return mkP(unrelatedKeys[d]) }
	a := func(d int) ip.Address { return p(d).Address() }
	m := func(d int) ip.Mask { return p(d).Mask() }
	r := func(d int) ip.Range {
		x, y := p(d).Range().First(), a(d)
		r, _ := ip.RangeFromAddresses(x, y)
		return r
	}
	show := func(x ...interface{}) string { return fmt.Sprint(x...) }
	uses := []par.Use{
		{"AddressFromString", func(d int) string {
			x, err := ip.AddressFromString(unrelatedKeys[d].A.Str(W))
			return show(x, err)
		}},
		{"AddressFromString that fails", func(d int) string {
			x, err := ip.AddressFromString(unrelatedKeys[d].A.Str(W) + "/x")
			return show(x, err)
		}},
		{"AddressFromNetIP", func(d int) string {
			x, err := ip.AddressFromNetIP(append([]byte(nil), unrelatedKeys[d].A.Bytes(W)...))
			return show(x, err)
		}},
		{"AddressFromSlice", func(d int) string {
			x, err := ip.AddressFromSlice(append([]byte(nil), unrelatedKeys[d].A.Bytes(W)...))
			return show(x, err)
		}},
		{"Address.String", func(d int) string { return a(d).String() }},
		{"Address.ToNetIP", func(d int) string { return show([]byte(a(d).ToNetIP())) }},
		{"Address.Prefix", func(d int) string { return show(a(d).Prefix(), a(d).Set(), a(d).NumBits()) }},
		{"PrefixFromString", func(d int) string {
			x, err := ip.PrefixFromString(unrelatedKeys[d].Str(W))
			return show(x, err)
		}},
		{"PrefixFromString that fails", func(d int) string {
			x, err := ip.PrefixFromString(unrelatedKeys[d].Str(W) + "9")
			return show(x, err)
		}},
		{"PrefixFromNetIPNet", func(d int) string {
			x, err := ip.PrefixFromNetIPNet(p(d).ToNetIPNet())
			return show(x, err)
		}},
		{"PrefixFromAddressMask", func(d int) string { return show(ip.PrefixFromAddressMask(a(d), m(d))) }},
		{"Prefix.String", func(d int) string { return p(d).String() }},
		{"Prefix.ToNetIPNet", func(d int) string { return p(d).ToNetIPNet().String() }},
		{"Prefix.Network, Host, Mask, Length", func(d int) string { return show(p(d).Network(), p(d).Host(), p(d).Mask(), p(d).Length()) }},
		{"Prefix.Halves", func(d int) string { x, y := p(d).Halves(); return show(x, y) }},
		{"Prefix.Range", func(d int) string { return show(p(d).Range()) }},
		{"Prefix.Set", func(d int) string { return show(p(d).Set()) }},
		{"Prefix.NumPrefixes", func(d int) string {
			n, err := p(d).NumPrefixes(uint32(W - 1))
			return show(n, err)
		}},
		{"Prefix.NumPrefixes that fails", func(d int) string {
			n, err := p(d).NumPrefixes(uint32(W + 1))
			return show(n, err)
		}},
		{"Prefix.Contains", func(d int) string { return show(p(d).Contains(a(d)), p(d).Contains(a((d+1)%3))) }},
		{"numbers of a Prefix", func(d int) string { x, y := prefixNums(p(d)); return show(x, y) }},
		{"MaskFromLength", func(d int) string {
			x, err := ip.MaskFromLength(p(d).Length())
			return show(x, err)
		}},
		{"MaskFromNetIPMask", func(d int) string {
			x, err := ip.MaskFromNetIPMask(p(d).ToNetIPNet().Mask)
			return show(x, err)
		}},
		{"Mask.String, Length", func(d int) string { return show(m(d), m(d).Length(), m(d).ToNetIPMask()) }},
		{"RangeFromAddresses", func(d int) string { return show(r(d)) }},
		{"Range.Minus, Plus", func(d int) string { return show(p(d).Range().Minus(r(d)), r(d).Plus(r((d+1)%3))) }},
		{"Range.Set", func(d int) string { return show(r(d).Set()) }},
		{"Range.NumPrefixes", func(d int) string {
			n, err := r(d).NumPrefixes(uint32(W))
			return show(n, err)
		}},
		{"Range.Contains", func(d int) string { return show(r(d).Contains(a(d)), r(d).Contains(p(d)), r(d).Contains(r(d))) }},
	}
	for _, n := range addressMakers(unrelatedKeys[0].A) {
		name := n.name
		uses = append(uses, par.Use{Name: name, F: func(d int) string {
			for _, n := range addressMakers(unrelatedKeys[d].A) {
				if n.name == name {
					return show(n.v)
				}
			}
			return ""
		}})
	}
	par.Pairs(c, 1, bounds(c, 1, 2), uses)
}

// c19Unrelated: sets and tables with nothing in common.
func c19Unrelated(c *rt.Ctx) {
	ks := func(d int) []ip.Prefix {
		k := unrelatedKeys[d]
		if k.Len > W-3 {
			k.Len = W - 3
		}
		out := []ip.Prefix{mkP(k)}
		for i := 0; i < 2; i++ {
			lo, hi := out[len(out)-1].Halves()
			out = append(out, lo, hi)
		}
		return out
	}
	table := func(d int) ip.Table[int] {
		t := ip.NewTable_[int]()
		for i, p := range ks(d) {
			t.Insert(p, i%2+10*d)
		}
		return t.Table()
	}
	set := func(d int) ip.Set {
		s := ip.NewSet_()
		for _, p := range ks(d)[1:] {
			s.Insert(p)
		}
		s.Remove(ks(d)[3])
		return s.Set()
	}
	uses := []par.Use{
		{"building a table", func(d int) string { return tableShow(table(d)) }},
		{"changing a table", func(d int) string {
			t := table(d).Table_()
			a, b := t.Remove(ks(d)[1]), t.Update(ks(d)[2], 5+d)
			v := t.GetOrInsert(ks(d)[1], 7+d)
			t.InsertOrUpdate(ks(d)[0], d)
			return fmt.Sprint(a, b, v, tableShow(t.Table()))
		}},
		{"a building callback", func(d int) string {
			return tableShow(table(d).Build(func(t ip.Table_[int]) bool { return t.Remove(ks(d)[1]) }))
		}},
		{"looking up", func(d int) string {
			t := table(d)
			v, ok := t.Get(ks(d)[3])
			x, y, z := t.LongestMatch(ks(d)[4])
			_, _, n := t.LongestMatch(ks((d + 1) % 3)[0])
			return fmt.Sprint(v, ok, x, y, z, n, t.NumEntries())
		}},
		{"Table.Aggregate", func(d int) string { return tableShow(table(d).Aggregate()) }},
		{"Table.Map", func(d int) string {
			return tableShow(table(d).Map(func(p ip.Prefix, v int) int { return v + 1 }))
		}},
		{"Table.Diff", func(d int) string {
			var b strings.Builder
			t := table(d).Table_()
			t.Remove(ks(d)[2])
			t.Update(ks(d)[1], 5)
			table(d).Diff(t.Table(), func(p ip.Prefix, l, r int) bool { fmt.Fprint(&b, "~", p, l, r); return true },
				func(p ip.Prefix, v int) bool { fmt.Fprint(&b, "-", p, v); return true },
				func(p ip.Prefix, v int) bool { fmt.Fprint(&b, "+", p, v); return true },
				func(p ip.Prefix, v int) bool { fmt.Fprint(&b, "=", p, v); return true })
			return b.String()
		}},
		{"building a set", func(d int) string { return set(d).String() }},
		{"changing a set", func(d int) string {
			s := set(d).Set_()
			s.Remove(ks(d)[4])
			s.Insert(ks(d)[3])
			return s.Set().String()
		}},
		{"Set.Build", func(d int) string {
			return set(d).Build(func(s ip.Set_) bool { s.Insert(ks(d)[3]); return true }).String()
		}},
		{"set algebra", func(d int) string {
			s := set(d)
			return s.Union(ks(d)[3]).String() + s.Intersection(ks(d)[2]).String() + s.Difference(ks(d)[4]).String()
		}},
		{"set questions", func(d int) string {
			s := set(d)
			n, err := s.NumPrefixes(uint32(W))
			p, err2 := s.FindAvailablePrefix(ks(d)[4], uint32(ks(d)[4].Length()))
			return fmt.Sprint(n, err, p, err2, s.Contains(ks(d)[4]), s.Equal(set(d)), s.IsEmpty(), s.String())
		}},
		{"walks of a set", func(d int) string {
			var b strings.Builder
			set(d).WalkPrefixes(func(p ip.Prefix) bool { b.WriteString(p.String()); return true })
			set(d).WalkRanges(func(r ip.Range) bool { b.WriteString(r.String()); return true })
			return b.String()
		}},
	}
	par.Pairs(c, 1, 1, uses)
}
