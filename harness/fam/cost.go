package fam

import (
	"fmt"
	"runtime"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

// What conversions and single changes of large structures cost: the bytes and
// objects allocated by each call, counted exactly by the runtime.

func regCost() {
	reg("C26", "single changes and conversions of large tables", c26Tables)
	reg("C26", "histories of large tables", c26TableHistories)
	reg("C26", "mapping large tables", c26Map)
	reg("C26", "single changes and conversions of large sets", c26Sets)
	reg("C26", "histories of large sets", c26SetHistories)
}

var costMS [2]runtime.MemStats

// cost measures what f allocates.
func cost(f func()) (bytes, objects uint64) {
	runtime.ReadMemStats(&costMS[0])
	f()
	runtime.ReadMemStats(&costMS[1])
	return costMS[1].TotalAlloc - costMS[0].TotalAlloc, costMS[1].Mallocs - costMS[0].Mallocs
}

// The allowance. A conversion is one small object now, a change one node and
// some closures (about 250 bytes) per level of the tree. A copy of everything
// would take ten times more than what is allowed, or more.
const costConvBytes, costConvObjects = 4096, 64

func costOp(levels int) (bytes, objects uint64) {
	return uint64(1024 * (levels + 8)), uint64(64 * (levels + 8))
}

// atMost runs f and fails if it allocates more than allowed. Calls that can be
// repeated are, since something else in the process may have allocated.
func atMost(c *rt.Ctx, levels int, conv bool, f func(), what func() string) {
	maxB, maxO := costOp(levels)
	note := "max_bytes_of_a_change"
	if conv {
		maxB, maxO = costConvBytes, costConvObjects
		note = "max_bytes_of_a_conversion"
	}
	var b, o uint64
	for try := 0; try < 3; try++ {
		b, o = cost(f)
		if b <= maxB && o <= maxO {
			if int64(b) > c.Notes[note] {
				c.Notes[note] = int64(b)
			}
			c.Trans++
			return
		}
	}
	c.Failf("%s allocates %d bytes in %d objects; allowed are %d bytes in %d objects", what(), b, o, maxB, maxO)
}

type costTable struct {
	bigTable
	levels int
}

// costTables are large: at least 3000 entries.
func costTables(thorough bool) []*costTable {
	var out []*costTable
	add := func(name string, levels int, ks []ref.P) {
		b := &costTable{bigTable{name: name, keys: sortKeys(ks), idx: map[ref.P]int{}}, levels}
		for i, k := range b.keys {
			b.idx[k] = i
		}
		out = append(out, b)
	}
	k := 12
	if thorough {
		k = 14
	}
	for _, off := range []int{0, W/2 - 6, W - k - 1} {
		add(fmt.Sprintf("full tree of depth %d at %d", k, off), k+2, bigKeys(off, k, pattern(patAlt), func(l, i int) bool { return true }))
		add(fmt.Sprintf("leaves of depth %d at %d", k+1, off), k+3, bigKeys(off, k+1, pattern(patAlt), func(l, i int) bool { return l == k+1 }))
	}
	// a path along x with a tree hanging off it at every length
	x := pattern(patAlt).And(ref.Max(W))
	var comb []ref.P
	d := 7
	for l := 0; l+1+d <= W; l++ {
		y := x.Xor(ref.BitAt(W, l))
		comb = append(comb, bigKeys(l+1, d, y, func(l, i int) bool { return l == d })...)
		comb = append(comb, ref.P{A: x, Len: l})
	}
	add("trees hanging off every length of "+x.Str(W), W+2, comb)
	return out
}

type costStep struct {
	name string
	conv bool
	f    func()
}

func c26Tables(c *rt.Ctx) {
	for _, b := range costTables(c.Thorough) {
		b := b
		const parts = 32
		if !c.WantBlock(parts) {
			c.Skip(parts)
			continue
		}
		var t0 ip.Table[int]
		full := b.vals(func(i int) int { return 1 + i%3 })
		c.Guard(func() { t0 = b.table(full, b.upOrder()) })
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				sink := int64(0)
				for i := part; i < len(b.keys); i += parts {
					k := b.keys[i]
					arg := mkP(k)
					q := k
					for _, n := range near(k) {
						if _, ok := b.idx[n]; !ok {
							q = n
							break
						}
					}
					_, qIn := b.idx[q]
					other := mkP(q)
					var m, m2 ip.Table_[int]
					var snap ip.Table[int]
					v := 10
					run := func(s costStep) {
						atMost(c, b.levels, s.conv, s.f, func() string {
							return fmt.Sprintf("%s, %d entries, at %s: %s", b.name, len(b.keys), k.Str(W), s.name)
						})
					}
					conv := func(name string, f func()) { run(costStep{name, true, f}) }
					chg := func(name string, f func()) { run(costStep{name, false, f}) }
					conv("Table.Table_", func() { m = t0.Table_() })
					// first changes after the conversion, each on a clone of its own
					chg("Update", func() { m = t0.Table_(); m.Update(arg, 9) })
					chg("Insert, refused", func() { m = t0.Table_(); m.Insert(arg, 9) })
					chg("GetOrInsert, found", func() { m = t0.Table_(); sink += int64(m.GetOrInsert(arg, 9)) })
					chg("InsertOrUpdate", func() { m = t0.Table_(); m.InsertOrUpdate(arg, 9) })
					chg("Remove", func() { m = t0.Table_(); m.Remove(arg) })
					if !qIn {
						chg("Update, refused", func() { m = t0.Table_(); m.Update(other, 9) })
						chg("Insert", func() { m = t0.Table_(); m.Insert(other, 9) })
						chg("GetOrInsert", func() { m = t0.Table_(); sink += int64(m.GetOrInsert(other, 9)) })
						chg("Remove, refused", func() { m = t0.Table_(); m.Remove(other) })
					}
					// later changes and conversions of one and the same
					m = t0.Table_()
					conv("Table_.Table", func() { snap = m.Table() })
					chg("Update again", func() { v++; m.Update(arg, v) })
					chg("Update again", func() { v++; m.Update(arg, v) })
					conv("Table_.Table after an update", func() { snap = m.Table() })
					chg("Update after a snapshot", func() { v++; m.Update(arg, v) })
					conv("Table.Table_ of a snapshot", func() { m2 = snap.Table_() })
					chg("Remove and Insert after a snapshot", func() { m2.Remove(arg); m2.Insert(arg, 3) })
					conv("Build that declines", func() { snap = t0.Build(func(ip.Table_[int]) bool { return false }) })
					conv("Build that changes nothing", func() { snap = t0.Build(func(ip.Table_[int]) bool { return true }) })
					chg("Build with one change", func() {
						snap = t0.Build(func(m ip.Table_[int]) bool { m.InsertOrUpdate(arg, 9); return true })
					})
					chg("lookups", func() {
						x, _ := t0.Get(arg)
						y, _ := m.Get(other)
						_, _, p := t0.LongestMatch(arg)
						_, _, p2 := m.LongestMatch(other)
						sink += int64(x+y+p.Length()+p2.Length()) + t0.NumEntries() + m.NumEntries()
					})
					c.States++
				}
				_ = sink
				c.Traces++
			})
		}
		c.Sample(func() string { return fmt.Sprintf("%s: %d entries", b.name, len(b.keys)) })
	}
}

// c26TableHistories keep a snapshot after each of many changes, and measure the
// whole history.
func c26TableHistories(c *rt.Ctx) {
	for _, b := range costTables(c.Thorough) {
		b := b
		for o := 0; o < 5; o++ {
			o := o
			c.Case(func() {
				full := b.vals(func(i int) int { return 1 + i%3 })
				t0 := b.table(full, b.upOrder())
				ord := orders(len(b.keys))[o]
				opB, opO := costOp(b.levels)
				n := 600
				what := func(s string) func() string {
					return func() string { return fmt.Sprintf("%s, order %d, %d %s with a snapshot after each", b.name, o, n, s) }
				}
				check := func(name string, f func(m ip.Table_[int], i int)) {
					m := t0.Table_()
					snaps := make([]ip.Table[int], 0, n)
					bytes, objects := cost(func() {
						for i := 0; i < n; i++ {
							f(m, ord[i])
							snaps = append(snaps, m.Table())
						}
					})
					// the mean of the allowances
					if bytes > uint64(n)*(2*opB+costConvBytes) || objects > uint64(n)*(2*opO+costConvObjects) {
						c.Failf("%s: allocates %d bytes in %d objects", what(name)(), bytes, objects)
					}
					base := reachable(t0)
					all := reachable(struct {
						t ip.Table[int]
						s []ip.Table[int]
					}{t0, snaps})
					if int(all.bytes-base.bytes) > n*int(opB) || all.objects-base.objects > n*2*(b.levels+4) {
						c.Failf("%s: keeps %d more objects of %d bytes in all", what(name)(), all.objects-base.objects, all.bytes-base.bytes)
					}
					c.Trans += int64(n)
				}
				check("updates", func(m ip.Table_[int], i int) { m.Update(mkP(b.keys[i]), 9) })
				check("removals", func(m ip.Table_[int], i int) { m.Remove(mkP(b.keys[i])) })
				check("removals and insertions", func(m ip.Table_[int], i int) { m.Remove(mkP(b.keys[i])); m.Insert(mkP(b.keys[i]), 4) })
				check("refused insertions", func(m ip.Table_[int], i int) { m.Insert(mkP(b.keys[i]), 4) })
				c.States++
				c.Traces++
			})
		}
	}
}

// c26Map: a mapped table keeps what it has in common with the original.
func c26Map(c *rt.Ctx) {
	for _, b := range costTables(false) {
		b := b
		const parts = 16
		if !c.WantBlock(parts) {
			c.Skip(parts)
			continue
		}
		var t0 ip.Table[int]
		var base *reach
		c.Guard(func() {
			t0 = b.table(b.vals(func(i int) int { return 1 + i%3 }), b.upOrder())
			base = reachable(t0)
		})
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				fresh := func(m ip.Table[int]) int {
					return reachable([2]ip.Table[int]{t0, m}).objects - base.objects
				}
				if n := fresh(t0.Map(func(_ ip.Prefix, v int) int { return v })); n > 16 {
					c.Failf("%s: Map that leaves every value equal makes %d new objects", b.name, n)
				}
				for j := part; j < 64; j += parts {
					k := b.keys[j*(len(b.keys)-1)/63]
					n := fresh(t0.Map(func(p ip.Prefix, v int) int {
						if isT(p) == k {
							return v + 10
						}
						return v
					}))
					if n > 2*(b.levels+4) {
						c.Failf("%s: Map that changes only the value of %s makes %d new objects", b.name, k.Str(W), n)
					}
					c.States++
					c.Trans++
				}
				c.Traces++
			})
		}
	}
}

// ---- sets

type costSet struct {
	name   string
	levels int
	pieces []ref.P // disjoint, none can be merged
}

func costSets(thorough bool) []*costSet {
	if thorough {
		return costSetsOf(15)
	}
	return costSetsOf(13)
}

func costSetsOf(k int) []*costSet {
	var out []*costSet
	for _, off := range []int{0, W/2 - 6, W - k} {
		out = append(out, &costSet{fmt.Sprintf("every second of 2^%d blocks at %d", k, off), W + 2,
			bigKeys(off, k, pattern(patAlt), func(l, i int) bool { return l == k && i%2 == 1 })})
	}
	x := pattern(patAlt).And(ref.Max(W))
	var comb []ref.P
	d := k - 5
	for l := 0; l+1+d <= W; l++ {
		y := x.Xor(ref.BitAt(W, l))
		comb = append(comb, bigKeys(l+1, d, y, func(l, i int) bool { return l == d && i%2 == 0 })...)
	}
	return append(out, &costSet{"trees hanging off every length of " + x.Str(W), W + 2, comb})
}

func c26Sets(c *rt.Ctx) {
	for _, b := range costSets(c.Thorough) {
		b := b
		const parts = 32
		if !c.WantBlock(parts) {
			c.Skip(parts)
			continue
		}
		var s0 ip.Set
		c.Guard(func() { s0 = setOf(b.pieces) })
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				sink := false
				for i := part; i < len(b.pieces); i += parts {
					k := b.pieces[i]
					run := func(conv bool, name string, q ref.P, f func()) {
						atMost(c, b.levels, conv, f, func() string {
							return fmt.Sprintf("%s, %d prefixes, with %s: %s", b.name, len(b.pieces), q.Str(W), name)
						})
					}
					var m, m2 ip.Set_
					var snap ip.Set
					run(true, "Set.Set_", k, func() { m = s0.Set_() })
					for _, q := range append(near(k), k) {
						arg := mkP(q)
						run(false, "Insert", q, func() { m = s0.Set_(); m.Insert(arg) })
						run(false, "Remove", q, func() { m = s0.Set_(); m.Remove(arg) })
					}
					arg, ad := mkP(k), mkA(k.A)
					run(false, "Union", k, func() { snap = s0.Union(arg) })
					run(false, "Difference", k, func() { snap = s0.Difference(arg) })
					run(false, "Contains an address", k, func() { sink = s0.Contains(ad) || m.Contains(ad) })
					m = s0.Set_()
					run(true, "Set_.Set", k, func() { snap = m.Set() })
					run(false, "Remove and Insert", k, func() { m.Remove(arg); m.Insert(arg) })
					run(true, "Set_.Set after changes", k, func() { snap = m.Set() })
					run(true, "Set.Set_ of a snapshot", k, func() { m2 = snap.Set_() })
					run(false, "Remove and Insert after a snapshot", k, func() { m2.Remove(ad); m2.Insert(ad) })
					run(true, "Build that declines", k, func() { snap = s0.Build(func(ip.Set_) bool { return false }) })
					run(true, "Build that changes nothing", k, func() { snap = s0.Build(func(ip.Set_) bool { return true }) })
					run(false, "Build with one change", k, func() { snap = s0.Build(func(m ip.Set_) bool { m.Remove(arg); return true }) })
					run(true, "IsEmpty", k, func() { sink = sink || s0.IsEmpty() || m.IsEmpty() })
					c.States++
				}
				_ = sink
				c.Traces++
			})
		}
		c.Sample(func() string { return fmt.Sprintf("%s: %d prefixes", b.name, len(b.pieces)) })
	}
}

func c26SetHistories(c *rt.Ctx) {
	for _, b := range costSets(c.Thorough) {
		b := b
		for o := 0; o < 5; o++ {
			o := o
			c.Case(func() {
				s0 := setOf(b.pieces)
				ord := orders(len(b.pieces))[o]
				opB, opO := costOp(b.levels)
				n := 600
				check := func(name string, f func(m ip.Set_, p ip.Prefix)) {
					m := s0.Set_()
					snaps := make([]ip.Set, 0, n)
					bytes, objects := cost(func() {
						for i := 0; i < n; i++ {
							f(m, mkP(b.pieces[ord[i]]))
							snaps = append(snaps, m.Set())
						}
					})
					if bytes > uint64(n)*(2*opB+costConvBytes) || objects > uint64(n)*(2*opO+costConvObjects) {
						c.Failf("%s, order %d: %d %s with a snapshot after each allocate %d bytes in %d objects", b.name, o, n, name, bytes, objects)
					}
					base := reachable(s0)
					all := reachable(struct {
						t ip.Set
						s []ip.Set
					}{s0, snaps})
					if int(all.bytes-base.bytes) > n*int(opB) || all.objects-base.objects > n*4*(b.levels+4) {
						c.Failf("%s, order %d: %d %s with a snapshot after each keep %d more objects of %d bytes in all", b.name, o, n, name, all.objects-base.objects, all.bytes-base.bytes)
					}
					c.Trans += int64(n)
				}
				check("removals", func(m ip.Set_, p ip.Prefix) { m.Remove(p) })
				check("removals and insertions", func(m ip.Set_, p ip.Prefix) { m.Remove(p); m.Insert(p) })
				check("insertions of what is there", func(m ip.Set_, p ip.Prefix) { m.Insert(p) })
				check("removals of single addresses", func(m ip.Set_, p ip.Prefix) { m.Remove(p.Address()) })
				c.States++
				c.Traces++
			})
		}
	}
}
