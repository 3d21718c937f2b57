package fam

import (
	"fmt"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

// A few against many: operands of very different sizes.

func regAsym() {
	reg("C01", "a prefix or two against large sets", asymSets)
	reg("C08", "a prefix or two against large sets", asymAvailable)
	reg("C12", "an entry or two against large tables", asymDiff)
	for _, p := range []string{"C09", "C10", "C11", "C12", "C14", "C15", "C16"} {
		reg(p, "entries whose value is zero", zeroValues)
	}
}

// zeroValues runs all the operations of C17 on tables of ints, one of them zero.
func zeroValues(c *rt.Ctx) {
	run17(c, zeroInts())
}

func zeroInts() *vkind[int] {
	return &vkind[int]{name: "int with zero", vals: []int{7, 0, -1}, class: ident, make: func(*vkind[int]) ip.Table_[int] { return ip.NewTable_[int]() },
		code: func(v int) int {
			switch v {
			case 0:
				return 1
			case -1:
				return 2
			}
			return 0
		}}
}

// relatives are prefixes that have to do with p.
func relatives(p ref.P) []ref.P {
	out := []ref.P{p, {}, {A: p.First(W), Len: W}, {A: p.Last(W), Len: W}, {A: p.First(W).Xor(ref.BitAt(W, 0)), Len: p.Len}}
	if p.Len > 0 {
		out = append(out, ref.P{A: p.A, Len: p.Len - 1}, ref.P{A: p.A.Xor(ref.BitAt(W, p.Len-1)), Len: p.Len}, ref.P{A: p.A, Len: p.Len / 2})
	}
	if p.Len < W {
		out = append(out, ref.P{A: p.A, Len: p.Len + 1}, ref.P{A: p.Last(W), Len: p.Len + 1})
	}
	for i := range out {
		out[i] = out[i].Norm(W)
	}
	return out
}

// some takes every so many-th thing, so that there are about n.
func some(total, n int, thorough bool) int {
	if thorough || total <= n {
		return 1
	}
	return total/n | 1
}

// few calls f with each large set and sets of one or two prefixes.
func few(c *rt.Ctx, n int, f func(b *bigSet, A ip.Set, one ref.Set, B ip.Set, what string)) {
	for _, b := range bigSets(c.Thorough) {
		b := b
		step := some(len(b.pieces), n, c.Thorough)
		const parts = 8
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				A := setOf(b.pieces)
				for i := part * step; i < len(b.pieces); i += parts * step {
					for k, p := range relatives(b.pieces[i]) {
						ps := []ref.P{p}
						if k%2 == 1 {
							ps = append(ps, b.pieces[(i*7+k)%len(b.pieces)])
						}
						f(b, A, ref.FromPrefixes(W, ps), setOf(ps), str(ps))
						c.States++
					}
				}
				c.Traces++
			})
		}
		c.Sample(func() string { return b.name + " and its pieces" })
	}
}

func asymSets(c *rt.Ctx) {
	few(c, 64, func(b *bigSet, A ip.Set, o ref.Set, B ip.Set, what string) {
		name := func(op string) func() string {
			return func() string { return fmt.Sprintf("%s of %s and %s", op, b.name, what) }
		}
		u, in := b.r.Union(o).Prefixes(W), b.r.Inter(o).Prefixes(W)
		checkSet(c, A.Union(B), u, name("union"))
		checkSet(c, B.Union(A), u, name("union the other way"))
		checkSet(c, A.Intersection(B), in, name("intersection"))
		checkSet(c, B.Intersection(A), in, name("intersection the other way"))
		checkSet(c, A.Difference(B), b.r.Diff(o).Prefixes(W), name("difference"))
		checkSet(c, B.Difference(A), o.Diff(b.r).Prefixes(W), name("difference the other way"))
		if A.Contains(B) != b.r.Contains(o) || B.Contains(A) != o.Contains(b.r) || A.Equal(B) != b.r.Equal(o) || B.Equal(A) != b.r.Equal(o) {
			c.Failf("%s: %v, %v, equal %v, %v", name("contains")(), A.Contains(B), B.Contains(A), A.Equal(B), B.Equal(A))
		}
		c.Trans += 10
	})
}

func asymAvailable(c *rt.Ctx) {
	few(c, 32, func(b *bigSet, A ip.Set, o ref.Set, B ip.Set, what string) {
		big, little := b.r.Diff(o).Prefixes(W), o.Diff(b.r).Prefixes(W)
		for l := 0; l <= W; l += 1 + W/40 {
			checkAvailable(c, A, B, big, l, func() string { return fmt.Sprintf("space %s, reserved %s", b.name, what) })
			checkAvailable(c, B, A, little, l, func() string { return fmt.Sprintf("space %s, reserved %s", what, b.name) })
		}
	})
}

func asymDiff(c *rt.Ctx) {
	type ev struct {
		kind byte
		p    ref.P
		l, r int
	}
	for _, b := range bigTables(c.Thorough) {
		b := b
		step := some(len(b.keys), 48, c.Thorough)
		const parts = 8
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				t := ip.NewTable_[int]()
				for i, k := range b.keys {
					t.Insert(mkP(k), 1+i%2)
				}
				big := t.Table()
				check := func(small map[ref.P]int) {
					s := ip.NewTable_[int]()
					keys := append([]ref.P{}, b.keys...)
					for k, v := range small {
						s.Insert(mkP(k), v)
						keys = append(keys, k)
					}
					keys = sortKeys(keys)
					for dir := 0; dir < 2; dir++ {
						for same := 0; same < 2; same++ {
							var want []ev
							for _, k := range keys {
								l, r := 0, small[k]
								if i, ok := b.idx[k]; ok {
									l = 1 + i%2
								}
								if dir == 1 {
									l, r = r, l
								}
								e := ev{'!', k, l, r}
								switch {
								case l == r:
									e.kind = '='
								case l == 0:
									e.kind = '+'
								case r == 0:
									e.kind = '-'
								}
								if e.kind != '=' || same == 1 {
									want = append(want, e)
								}
							}
							n := 0
							got := func(e ev) bool {
								if n >= len(want) || want[n] != e {
									c.Failf("%s and %v, direction %d, unchanged handler %d: call %d is %c %s %d %d", b.name, small, dir, same, n+1, e.kind, e.p.Str(W), e.l, e.r)
								}
								n++
								return true
							}
							var eq func(ip.Prefix, int) bool
							if same == 1 {
								eq = func(p ip.Prefix, v int) bool { return got(ev{'=', isT(p), v, v}) }
							}
							x, y := big, s.Table()
							if dir == 1 {
								x, y = y, x
							}
							done := x.Diff(y, func(p ip.Prefix, l, r int) bool { return got(ev{'!', isT(p), l, r}) },
								func(p ip.Prefix, v int) bool { return got(ev{'-', isT(p), v, 0}) },
								func(p ip.Prefix, v int) bool { return got(ev{'+', isT(p), 0, v}) }, eq)
							if n != len(want) || !done {
								c.Failf("%s and %v, direction %d, unchanged handler %d: %d calls, want %d, returned %v", b.name, small, dir, same, n, len(want), done)
							}
							c.Trans++
						}
					}
					c.States++
				}
				for i := part * step; i < len(b.keys); i += parts * step {
					for k, p := range relatives(b.keys[i]) {
						check(map[ref.P]int{p: 1 + k%2})
						if k%3 == 0 {
							check(map[ref.P]int{p: 2 - k%2, b.keys[(i*5+k)%len(b.keys)]: 2})
						}
					}
				}
				c.Traces++
			})
		}
		c.Sample(func() string { return b.name + " and tables of an entry or two" })
	}
}
