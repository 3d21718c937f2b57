package fam

import (
	"fmt"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
	"gopkg.in/addrs.v1/zzverif/sched"
)

// How many steps calls take: the packages under test are instrumented to count
// every block entered, that is every call and every iteration of a loop.

func regWork() {
	reg("C28", "single steps on large tables", workTables)
	reg("C28", "all of large tables", workTableBulk)
	reg("C28", "diffs of related large tables", workDiff)
	reg("C28", "single steps on large sets", workSets)
	reg("C28", "all of large sets", workSetBulk)
	reg("C28", "ranges and prefixes", workRanges)
	reg("C28", "all pairs of small sets", workPairs)
}

// The allowances. Now a single step takes up to 50 blocks for each level of the
// tree, going through everything up to 50 for each entry, and an intersection of
// sets up to 20 for each prefix and bit.
const (
	workConst   = 400
	workLevel   = 200
	workEntry   = 200
	workAlgebra = 80
)

func steps(f func()) int64 {
	n := sched.Steps
	f()
	return sched.Steps - n
}

type work struct {
	c      *rt.Ctx
	levels int
	what   func() string
}

func (w work) atMost(class string, n, max int64, name string) {
	if n > max {
		w.c.Failf("%s: %s takes %d steps; allowed are %d", w.what(), name, n, max)
	}
	if k := "max_percent_of_allowed_" + class; 100*n/max > w.c.Notes[k] {
		w.c.Notes[k] = 100 * n / max
	}
	w.c.Trans++
}

// constant: no more for large contents or long prefixes.
func (w work) constant(name string, f func()) { w.atMost("constant", steps(f), workConst, name) }

// path: in proportion to the depth of the tree.
func (w work) path(name string, f func()) {
	w.atMost("path", steps(f), int64(workLevel*(w.levels+8)), name)
}

// linear: in proportion to n, and the depth.
func (w work) linear(n int, name string, f func()) {
	w.atMost("linear", steps(f), int64(workEntry*(n+w.levels+8)), name)
}

// algebra: at most in proportion to n and the address width.
func (w work) algebra(n int, name string, f func()) {
	w.atMost("algebra", steps(f), int64(workAlgebra*(n+8)*W), name)
}

func workTables(c *rt.Ctx) {
	for _, b := range costTables(c.Thorough) {
		b := b
		const parts = 32
		if !c.WantBlock(parts) {
			c.Skip(parts)
			continue
		}
		var t0 ip.Table[int]
		full := b.vals(func(i int) int { return 1 + i%3 })
		c.Guard(func() { t0 = b.table(full, b.upOrder()) })
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				m0 := t0.Table_()
				for i := part; i < len(b.keys); i += parts {
					k := b.keys[i]
					w := work{c, b.levels, func() string {
						return fmt.Sprintf("%s, %d entries, at %s", b.name, len(b.keys), k.Str(W))
					}}
					var m ip.Table_[int]
					var t ip.Table[int]
					w.constant("Table_", func() { m = t0.Table_() })
					w.constant("Table", func() { t = m.Table() })
					w.constant("NumEntries", func() { t.NumEntries(); m.NumEntries(); m0.NumEntries() })
					w.constant("Build", func() { t0.Build(func(ip.Table_[int]) bool { return true }) })
					w.constant("Build that declines", func() { t0.Build(func(ip.Table_[int]) bool { return false }) })
					ps := append(near(k), k)
					for _, q := range ps {
						for _, arg := range []ip.PrefixI{mkP(q), mkP(ref.P{A: q.Last(W), Len: q.Len})} {
							arg := arg
							w.path("Get", func() { t0.Get(arg) })
							w.path("LongestMatch", func() { t0.LongestMatch(arg) })
							w.path("Get of a mutable", func() { m0.Get(arg) })
							w.path("LongestMatch of a mutable", func() { m0.LongestMatch(arg) })
							w.path("Insert", func() { t0.Table_().Insert(arg, 9) })
							w.path("Update", func() { t0.Table_().Update(arg, 9) })
							w.path("Update to the same", func() { t0.Table_().Update(arg, full[i]) })
							w.path("InsertOrUpdate", func() { t0.Table_().InsertOrUpdate(arg, 9) })
							w.path("GetOrInsert", func() { t0.Table_().GetOrInsert(arg, 9) })
							w.path("Remove", func() { t0.Table_().Remove(arg) })
						}
					}
					w.path("LongestMatch of an address", func() { t0.LongestMatch(mkA(k.A)) })
					m = t0.Table_()
					w.path("Update, snapshot, Update", func() { m.Update(mkP(k), 10); m.Table(); m.Update(mkP(k), 11) })
					w.path("Remove, snapshot, Insert", func() { m.Remove(mkP(k)); m.Table(); m.Insert(mkP(k), 11) })
					w.path("Build with a change", func() {
						t0.Build(func(m ip.Table_[int]) bool { return m.Remove(mkP(k)) })
					})
					c.States++
				}
				c.Traces++
			})
		}
		c.Sample(func() string { return fmt.Sprintf("%s: %d entries", b.name, len(b.keys)) })
	}
}

func workTableBulk(c *rt.Ctx) {
	for _, b := range costTables(c.Thorough) {
		b := b
		n := len(b.keys)
		for _, mod := range []int{1, 3, 1 << 30} {
			mod := mod
			for o := 0; o < 3; o++ {
				o := o
				c.Case(func() {
					ord := orders(n)[o]
					v := b.vals(func(i int) int { return 1 + i%mod })
					w := work{c, b.levels, func() string {
						return fmt.Sprintf("%s, %d entries with %d values, order %d", b.name, n, mod, o)
					}}
					var t0, t1 ip.Table[int]
					w.linear(n*(b.levels+8), "building it", func() { t0 = b.table(v, ord) })
					t1 = b.table(v, orders(n)[3])
					less := b.vals(func(i int) int { return i % 2 * v[i] })
					t2 := b.table(less, b.upOrder())
					other := b.table(b.vals(func(i int) int { return (i + 1) % 2 }), b.upOrder())
					yes := func(ip.Prefix, int) bool { return true }
					yes2 := func(ip.Prefix, int, int) bool { return true }
					w.linear(n, "Walk", func() { t0.Walk(yes) })
					w.linear(n, "Map", func() { t0.Map(func(_ ip.Prefix, v int) int { return -v }) })
					w.linear(n, "Map to the same", func() { t0.Map(func(_ ip.Prefix, v int) int { return v }) })
					w.linear(n, "Map to one value", func() { t0.Map(func(_ ip.Prefix, v int) int { return 7 }) })
					w.linear(n, "Aggregate", func() { t0.Aggregate() })
					w.linear(n, "Aggregate twice", func() { t0.Aggregate().Aggregate() })
					for i, p := range []struct {
						l, r ip.Table[int]
					}{{t0, t1}, {t0, t2}, {t2, t0}, {t2, other}, {other, t1}, {t0, ip.Table[int]{}}, {ip.Table[int]{}, t0}, {t0, t0}, {t0, t0.Aggregate()}} {
						p := p
						w.linear(2*n, fmt.Sprintf("Diff of pair %d", i), func() { p.l.Diff(p.r, yes2, yes, yes, yes) })
						w.linear(2*n, fmt.Sprintf("Diff of pair %d without unchanged", i), func() { p.l.Diff(p.r, yes2, yes, yes, nil) })
						w.linear(2*n, fmt.Sprintf("Diff of pair %d without handlers", i), func() { p.l.Diff(p.r, nil, nil, nil, nil) })
					}
					// stops
					for k := 0; k < n; k += 1 + k/7 {
						k := k
						i := 0
						stop := func(ip.Prefix, int) bool { i++; return i <= k }
						w.linear(k, "Walk stopped early", func() { i = 0; t0.Walk(stop) })
						w.linear(2*k, "Diff stopped early", func() { i = 0; t0.Diff(t1, yes2, stop, stop, stop) })
						w.linear(2*k, "Diff of disjoint ones stopped early", func() { i = 0; t2.Diff(other, nil, stop, stop, nil) })
					}
					// taken apart
					m := t0.Table_()
					w.linear(n*(b.levels+8), "removing everything", func() {
						for _, i := range ord {
							m.Remove(mkP(b.keys[i]))
						}
					})
					c.States++
					c.Traces++
				})
			}
		}
	}
}

// workDiff: a table and what one or two changes make of it.
func workDiff(c *rt.Ctx) {
	for _, b := range costTables(c.Thorough) {
		b := b
		const parts = 32
		if !c.WantBlock(parts) {
			c.Skip(parts)
			continue
		}
		var t0 ip.Table[int]
		c.Guard(func() { t0 = b.table(b.vals(func(i int) int { return 1 + i%3 }), b.upOrder()) })
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				yes := func(ip.Prefix, int) bool { return true }
				yes2 := func(ip.Prefix, int, int) bool { return true }
				for i := part; i < len(b.keys); i += parts {
					k := b.keys[i]
					w := work{c, 2 * b.levels, func() string {
						return fmt.Sprintf("%s, %d entries, at %s", b.name, len(b.keys), k.Str(W))
					}}
					far := b.keys[(i+len(b.keys)/2)%len(b.keys)]
					for op := 0; op < 6; op++ {
						m := t0.Table_()
						name := ""
						switch op {
						case 0:
							name = "nothing"
						case 1:
							name = "an update"
							m.Update(mkP(k), 9)
						case 2:
							name = "a removal"
							m.Remove(mkP(k))
						case 3:
							name = "an insertion"
							for _, q := range near(k) {
								if m.Insert(mkP(q), 9) {
									break
								}
							}
						case 4:
							name = "a removal and an update far away"
							m.Remove(mkP(k))
							m.Update(mkP(far), 9)
						case 5:
							name = "an update made and undone"
							m.Update(mkP(k), 9)
							m.Update(mkP(k), 1+i%3)
						}
						t := m.Table()
						w.path("Diff after "+name, func() { t0.Diff(t, yes2, yes, yes, nil) })
						w.path("Diff the other way after "+name, func() { t.Diff(t0, nil, yes, nil, nil) })
					}
					if i/parts%16 == 0 {
						t := t0.Map(func(p ip.Prefix, v int) int {
							if isT(p) == k {
								return 9
							}
							return v
						})
						w.path("Diff after Map", func() { t.Diff(t0, yes2, yes, yes, nil) })
					}
					c.States++
				}
				c.Traces++
			})
		}
	}
}

// workedSets are so large that going through one takes more than a single step
// may.
func workedSets(thorough bool) []*costSet {
	k := 15
	if thorough {
		k = 17
	}
	out := costSetsOf(k)
	return append(out[:3], costSetsOf(k - 2)[3])
}

func workSets(c *rt.Ctx) {
	for _, b := range workedSets(c.Thorough) {
		b := b
		const parts = 32
		if !c.WantBlock(parts) {
			c.Skip(parts)
			continue
		}
		var s0 ip.Set
		c.Guard(func() { s0 = setOf(b.pieces) })
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				m0 := s0.Set_()
				for i := part; i < len(b.pieces); i += parts {
					k := b.pieces[i]
					var q ref.P
					w := work{c, b.levels, func() string {
						return fmt.Sprintf("%s, %d prefixes, with %s", b.name, len(b.pieces), q.Str(W))
					}}
					var m ip.Set_
					w.constant("Set_", func() { m = s0.Set_() })
					w.constant("Set", func() { m.Set() })
					w.constant("Build", func() { s0.Build(func(ip.Set_) bool { return true }) })
					w.constant("Build that declines", func() { s0.Build(func(ip.Set_) bool { return false }) })
					for _, q = range append(near(k), k) {
						arg := mkP(q)
						w.path("Insert", func() { s0.Set_().Insert(arg) })
						w.path("Remove", func() { s0.Set_().Remove(arg) })
						w.path("Union", func() { s0.Union(arg) })
						w.path("Union, the other way", func() { arg.Set().Union(s0) })
						w.path("Difference", func() { s0.Difference(arg) })
						w.path("Union with a range", func() { s0.Union(arg.Range()) })
						w.path("Difference with a range", func() { s0.Difference(arg.Range()) })
						w.path("Intersection", func() { s0.Intersection(arg) })
					}
					q = k
					first, last := mkA(k.A), mkA(k.Last(W))
					for _, ad := range []ip.Address{first, last} {
						ad := ad
						w.path("Contains an address", func() { s0.Contains(ad); m0.Contains(ad) })
						w.path("Intersection with an address", func() { s0.Intersection(ad); ad.Set().Intersection(s0) })
						w.path("address minus", func() { ad.Set().Difference(s0) })
						w.path("Insert an address", func() { s0.Set_().Insert(ad) })
						w.path("Remove an address", func() { s0.Set_().Remove(ad) })
					}
					w.path("Contains a prefix of it", func() { s0.Contains(mkP(k)) })
					c.States++
				}
				c.Traces++
			})
		}
		c.Sample(func() string { return fmt.Sprintf("%s: %d prefixes", b.name, len(b.pieces)) })
	}
}

func workSetBulk(c *rt.Ctx) {
	for _, b := range workedSets(c.Thorough) {
		b := b
		n := len(b.pieces)
		sel := []struct {
			name string
			f    func(i int) bool
		}{
			{"all", func(int) bool { return true }},
			{"all, made the other way round", func(int) bool { return true }},
			{"every second", func(i int) bool { return i%2 == 0 }},
			{"every other second", func(i int) bool { return i%2 == 1 }},
			{"the lower half", func(i int) bool { return i < n/2 }},
			{"the upper half", func(i int) bool { return i >= n/2 }},
			{"all but one", func(i int) bool { return i != n/3 }},
			{"every hundredth", func(i int) bool { return i%100 == 0 }},
		}
		var ss []ip.Set
		var sizes []int
		made := func() {
			if ss != nil {
				return
			}
			for x, s := range sel {
				m := ip.NewSet_()
				for i := range b.pieces {
					if x == 1 {
						i = n - 1 - i
					}
					if s.f(i) {
						m.Insert(mkP(b.pieces[i]))
					}
				}
				ss = append(ss, m.Set())
			}
			// neighbours that can be merged with those pieces
			m := ip.NewSet_()
			for _, p := range b.pieces {
				m.Insert(mkP(ref.P{A: p.A.Xor(ref.BitAt(W, p.Len-1)), Len: p.Len}))
			}
			ss = append(ss, m.Set(), mkP(ref.P{}).Set(), mkP(ref.P{}).Set().Difference(ss[0]))
			for _, s := range ss {
				k := 0
				s.WalkPrefixes(func(ip.Prefix) bool { k++; return true })
				sizes = append(sizes, k)
			}
		}
		for x := 0; x < len(sel)+3; x++ {
			x := x
			c.Case(func() {
				made()
				s := ss[x]
				w := work{c, b.levels, func() string { return fmt.Sprintf("%s, %d prefixes, subset %d (of %d)", b.name, n, x, sizes[x]) }}
				yes := func(ip.Prefix) bool { return true }
				size := sizes[x]
				w.linear(size, "WalkPrefixes", func() { s.WalkPrefixes(yes) })
				w.linear(size, "WalkRanges", func() { s.WalkRanges(func(ip.Range) bool { return true }) })
				w.linear(size, "String", func() { _ = s.String() })
				w.linear(size, "IsEmpty", func() { s.IsEmpty() })
				w.linear(size, "NumPrefixes", func() { s.NumPrefixes(uint32(b.pieces[0].Len)) })
				w.linear(size, "counting", func() { setCount(s) })
				for k := 0; k < n; k += 1 + k/5 {
					k := k
					i := 0
					w.linear(k, "WalkPrefixes stopped early", func() { s.WalkPrefixes(func(ip.Prefix) bool { i++; return i <= k }) })
					i = 0
					w.linear(2*k, "WalkRanges stopped early", func() { s.WalkRanges(func(ip.Range) bool { i++; return i <= k }) })
					i = 0
					w.linear(k, "WalkAddresses stopped early", func() { walkAddresses(s, func(ip.Address) bool { i++; return i <= k }) })
				}
				for y := range ss {
					r := ss[y]
					m := s.Set_()
					w.linear(size+sizes[y], fmt.Sprintf("Equal with subset %d", y), func() { s.Equal(r) })
					for _, op := range []struct {
						name string
						f    func()
					}{
						{"Union", func() { s.Union(r) }},
						{"Intersection", func() { s.Intersection(r) }},
						{"Difference", func() { s.Difference(r) }},
						{"Contains", func() { s.Contains(r) }},
						{"Insert", func() { m.Insert(r) }},
						{"Remove", func() { m.Remove(r) }},
						{"FindAvailablePrefix", func() { s.FindAvailablePrefix(r, uint32(b.pieces[0].Len)) }},
						{"FindAvailablePrefix of an address", func() { s.FindAvailablePrefix(r, W) }},
					} {
						w.algebra(size+sizes[y], fmt.Sprintf("%s with subset %d (of %d)", op.name, y, sizes[y]), op.f)
					}
				}
				c.States++
				c.Traces++
			})
		}
	}
}

// workRanges: what has no contents takes constant time, or one step per bit.
func workRanges(c *rt.Ctx) {
	bs := boundaries(1)
	for i := range bs {
		i := i
		c.Case(func() {
			a := bs[i]
			for j := 0; j < len(bs); j += 1 + len(bs)/60 {
				b := bs[j]
				first, last := a, b
				if last.Less(first) {
					first, last = last, first
				}
				w := work{c, 4 * W, func() string { return fmt.Sprintf("%s-%s", first.Str(W), last.Str(W)) }}
				r := mkR(ref.Iv{First: first, Last: last})
				o := mkR(ref.Iv{First: bs[(i+j)%len(bs)], Last: ref.Max(W)})
				w.constant("Plus", func() { r.Plus(o) })
				w.constant("Minus", func() { r.Minus(o) })
				w.constant("Minus, the other way", func() { o.Minus(r) })
				w.path("Range.Set", func() { r.Set() })
				w.path("Range.Contains", func() { r.Contains(mkA(b)) })
				w.path("Range.NumPrefixes", func() { r.NumPrefixes(W) })
				w.algebra(4*W, "Union of ranges", func() { r.Set().Union(o) })
				w.algebra(4*W, "Difference of ranges", func() { r.Set().Difference(o) })
				w.algebra(4*W, "Intersection of ranges", func() { r.Set().Intersection(o) })
				w.algebra(4*W, "Range.Contains a range", func() { o.Contains(r); r.Contains(o) })
				w.algebra(4*W, "allocation in a range", func() { r.Set().FindAvailablePrefix(o, W) })
				w.path("WalkRanges", func() { r.Set().WalkRanges(func(ip.Range) bool { return true }) })
			}
			for l := 0; l <= W; l++ {
				p := mkP(ref.P{A: a, Len: l})
				w := work{c, W, func() string { return p.String() }}
				w.constant("the parts of a prefix", func() {
					p.Network()
					p.Host()
					p.Mask()
					p.Range()
					if l < W {
						p.Halves()
					}
					_ = p.String()
				})
				w.path("prefix sets and counts", func() {
					p.Set()
					p.NumPrefixes(W)
					p.Contains(mkA(a))
				})
			}
			c.States++
			c.Traces++
		})
	}
}

// workPairs: every pair of sets over 8 blocks, wherever they lie.
func workPairs(c *rt.Ctx) {
	step := 8
	if c.Thorough {
		step = 1
	}
	var offs []int
	for o := 0; o <= W-3; o++ {
		if o%step == 0 || o == W-3 || o == W/2-1 {
			offs = append(offs, o)
		}
	}
	universes(c, 3, []int{patAlt}, offs, func(u *uni) {
		if !c.WantBlock(16) {
			c.Skip(16)
			return
		}
		c.Guard(u.prepare)
		for part := 0; part < 16; part++ {
			part := part
			c.Case(func() {
				for a := part; a < 256; a += 16 {
					for b := 0; b < 256; b++ {
						s, r := u.sets[a], u.sets[b]
						w := work{c, W, func() string { return fmt.Sprintf("%v: %s and %s", u, str(u.want[a]), str(u.want[b])) }}
						m := s.Set_()
						// at most 8 prefixes in both
						w.algebra(0, "Union", func() { s.Union(r) })
						w.algebra(0, "Intersection", func() { s.Intersection(r) })
						w.algebra(0, "Difference", func() { s.Difference(r) })
						w.algebra(0, "Contains", func() { s.Contains(r) })
						w.algebra(0, "Equal", func() { s.Equal(r) })
						w.algebra(0, "FindAvailablePrefix", func() { s.FindAvailablePrefix(r, W) })
						w.algebra(0, "Insert", func() { m.Insert(r) })
						w.algebra(0, "Remove", func() { m.Remove(r) })
					}
				}
				c.States += 16 * 256
				c.Traces++
			})
		}
	})
}
