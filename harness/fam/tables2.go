package fam

import (
	"fmt"
	"strings"
	"time"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

func regTables2() {
	reg("C13", "one modification of every table, every offset", c13One)
	reg("C13", "two modifications", c13Two)
	reg("C13", "nested and diverging prefixes", c13Bushes)
	reg("C13", "large tables", c13Large)
	reg("C13", "time", c13Time)

	reg("C14", "tables over a tree of 7 prefixes, two values, every offset", func(c *rt.Ctx) { aggTree(c, 2, 2, nil, checkC14) })
	reg("C14", "tables over a tree of 7 prefixes, three values", func(c *rt.Ctx) { aggTree(c, 2, 3, keyOffsets(2), checkC14) })
	reg("C14", "tables over a tree of 15 prefixes", func(c *rt.Ctx) { aggTree15(c, checkC14) })
	reg("C14", "nested and diverging prefixes", func(c *rt.Ctx) { aggBushes(c, checkC14) })
	reg("C14", "paths of nested prefixes", func(c *rt.Ctx) { aggPaths(c, checkC14) })
	reg("C14", "every relation of two prefixes", func(c *rt.Ctx) { aggShapes(c, checkC14) })

	reg("C15", "tables over a tree of 7 prefixes, two values, every offset", func(c *rt.Ctx) { aggTree(c, 2, 2, nil, checkC15) })
	reg("C15", "tables over a tree of 7 prefixes, three values", func(c *rt.Ctx) { aggTree(c, 2, 3, keyOffsets(2), checkC15) })
	reg("C15", "tables over a tree of 15 prefixes", func(c *rt.Ctx) { aggTree15(c, checkC15) })
	reg("C15", "nested and diverging prefixes", func(c *rt.Ctx) { aggBushes(c, checkC15) })
	reg("C15", "paths of nested prefixes", func(c *rt.Ctx) { aggPaths(c, checkC15) })
	reg("C15", "every relation of two prefixes", func(c *rt.Ctx) { aggShapes(c, checkC15) })
	reg("C15", "known finding", c15Finding)

	reg("C16", "every table and every value mapping, every offset", c16Tree)
	reg("C16", "nested and diverging prefixes", c16Bushes)
	reg("C16", "tables over a tree of 15 prefixes", c16Tree15)
	reg("C16", "every relation of two prefixes", c16Shapes)

	reg("C17", "value types", c17Types)
	reg("C17", "derived tables", c17Derived)
}

// ---- C13

// cv is a value that knows its key, so that the comparator sees whose values
// it is given.
type cv struct {
	id int
	v  int
}

type counter struct {
	on    bool
	calls int
	ids   map[int]int
}

func (k *counter) eq(a, b cv) bool {
	if k.on {
		k.calls++
		k.ids[a.id]++
		if b.id != a.id {
			k.ids[b.id]++
		}
	}
	return a.v == b.v
}

func (u *tuni) cvTable(k *counter, code int) ip.Table[cv] {
	t := ip.NewTableCustomCompare_[cv](k.eq)
	for i := range u.keys {
		if d := u.digit(code, i); d != 0 {
			t.Insert(u.stored[i], cv{i, d})
		}
	}
	return t.Table()
}

func (u *tuni) cvApply(t ip.Table_[cv], code, op, i, v int) (next int, changed bool) {
	d := u.digit(code, i)
	arg := u.args[i][0]
	val := cv{i, v}
	switch op {
	case 0:
		t.Insert(arg, val)
		if d != 0 {
			return code, false
		}
	case 1:
		t.Update(arg, val)
		if d == 0 {
			return code, false
		}
	case 2:
		t.InsertOrUpdate(arg, val)
	case 3:
		t.GetOrInsert(arg, val)
		if d != 0 {
			return code, false
		}
	case 4:
		t.Remove(arg)
		return u.with(code, i, 0), d != 0
	}
	return u.with(code, i, v), true
}

// checkWork diffs both ways without an unchanged handler and checks which
// values were compared.
func (u *tuni) checkWork(c *rt.Ctx, k *counter, a, b ip.Table[cv], ac, bc int, touched []int, what func() string) {
	allowed := map[int]bool{}
	for _, i := range touched {
		for _, j := range u.anc[i] {
			allowed[j] = true
		}
	}
	for dir := 0; dir < 2; dir++ {
		x, y, xc, yc := a, b, ac, bc
		if dir == 1 {
			x, y, xc, yc = b, a, bc, ac
		}
		k.on, k.calls, k.ids = true, 0, map[int]int{}
		var n int
		h := func(ip.Prefix, cv) bool { n++; return true }
		x.Diff(y, func(ip.Prefix, cv, cv) bool { n++; return true }, h, h, nil)
		k.on = false
		want := len(u.expected(xc, yc, hChanged|hLeft|hRight, nil))
		if n != want {
			c.Failf("%s: diff of %s and %s made %d calls, want %d", what(), u.str(xc), u.str(yc), n, want)
		}
		for id, times := range k.ids {
			if !allowed[id] || times > 1 {
				c.Failf("%s: diff of %s and %s compared the values of %s (%d times)", what(), u.str(xc), u.str(yc), u.keys[id].Str(W), times)
			}
		}
		c.Trans++
	}
}

func (u *tuni) workAll(c *rt.Ctx, from, to int, two bool) {
	k := &counter{}
	for m := from; m < to; m++ {
		t0 := u.cvTable(k, m)
		u.checkWork(c, k, t0, t0, m, m, nil, func() string { return "itself" })
		u.checkWork(c, k, t0, t0.Table_().Table(), m, m, nil, func() string { return "a mutable clone's snapshot" })
		c.States++
		u.eachOp(func(op, i, v int) {
			t := t0.Table_()
			code, changed := u.cvApply(t, m, op, i, v)
			var touched []int
			if changed {
				touched = []int{i}
			}
			tt := t.Table()
			what := func() string { return u.name + ": " + u.opStr(op, i, v) }
			u.checkWork(c, k, t0, tt, m, code, touched, what)
			if !two {
				return
			}
			u.eachOp(func(op2, i2, v2 int) {
				t2 := tt.Table_()
				code2, changed2 := u.cvApply(t2, code, op2, i2, v2)
				touched2 := touched
				if changed2 {
					touched2 = append(append([]int(nil), touched...), i2)
				}
				u.checkWork(c, k, t0, t2.Table(), m, code2, touched2, func() string { return what() + "; " + u.opStr(op2, i2, v2) })
			})
		})
	}
	c.Traces++
}

func c13One(c *rt.Ctx) {
	key := map[int]bool{}
	for _, o := range keyOffsets(2) {
		key[o] = true
	}
	eachTree(c, 2, offsets(2), func(off int, base ref.U, hosty bool) {
		for b := 0; b < 9; b++ {
			b := b
			c.Case(func() {
				nv := 1
				if key[off] {
					nv = 2
				}
				u := newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, base), nv, hosty)
				if nv == 1 {
					if b > 0 {
						return
					}
					u.workAll(c, 0, u.n, false)
					return
				}
				u.workAll(c, u.n*b/9, u.n*(b+1)/9, false)
			})
		}
		c.Sample(func() string { return fmt.Sprintf("tree at %d: every table, every operation, diff both ways", off) })
	})
}

func c13Two(c *rt.Ctx) {
	offs := []int{0, W/2 - 1, W - 2}
	if c.Thorough {
		offs = offsets(2)
	}
	for _, off := range offs {
		for m := 0; m < 128; m++ {
			off, m := off, m
			c.Case(func() {
				u := newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, pattern(patAlt)), 2, false)
				// presence m with alternating values
				code := 0
				for i := range u.keys {
					if m>>uint(i)&1 == 1 {
						code += (1 + i%2) * u.pow[i]
					}
				}
				u.workAll(c, code, code+1, true)
			})
		}
	}
}

func c13Bushes(c *rt.Ctx) {
	n := 0
	eachBush(c.Thorough, func(a, b, d int, base ref.U) {
		n++
		hosty := n%2 == 0
		c.Case(func() {
			u := newTuni(fmt.Sprintf("bush %d %d %d", a, b, d), bushKeys(a, b, d, base), 1, hosty)
			u.workAll(c, 0, u.n, c.Thorough)
		})
	})
}

// bigKeys is a table of many prefixes: all the prefixes of a tree of depth k
// at off whose index passes a filter.
func bigKeys(off, k int, base ref.U, keep func(level, i int) bool) []ref.P {
	var out []ref.P
	for l := 0; l <= k; l++ {
		for i := 0; i < 1<<uint(l); i++ {
			if !keep(l, i) {
				continue
			}
			a := top(base, off)
			for j := 0; j < l; j++ {
				if i>>uint(l-1-j)&1 == 1 {
					a = a.Or(ref.BitAt(W, off+j))
				}
			}
			out = append(out, ref.P{A: a, Len: off + l})
		}
	}
	return out
}

func c13Large(c *rt.Ctx) {
	kinds := []struct {
		name string
		keep func(l, i int) bool
	}{
		{"all", func(l, i int) bool { return true }},
		{"leaves", func(l, i int) bool { return l == 10 }},
		{"every third", func(l, i int) bool { return (i+l)%3 == 0 }},
	}
	for _, off := range []int{0, W - 10} {
		for _, kd := range kinds {
			off, kd := off, kd
			const parts = 64
			if !c.WantBlock(parts) {
				c.Skip(parts)
				continue
			}
			var keys []ref.P
			k := &counter{}
			var t0 ip.Table[cv]
			index := map[ref.P]int{}
			c.Guard(func() {
				keys = bigKeys(off, 10, pattern(patAlt), kd.keep)
				t := ip.NewTableCustomCompare_[cv](k.eq)
				for i, p := range keys {
					t.Insert(mkP(p), cv{i, 1})
					index[p] = i
				}
				t0 = t.Table()
			})
			for part := 0; part < parts; part++ {
				part := part
				c.Case(func() {
					for i := part; i < len(keys); i += parts {
						p := keys[i]
						for op := 0; op < 3; op++ {
							t := t0.Table_()
							name := "update"
							events := 1
							switch op {
							case 0:
								t.Update(mkP(p), cv{i, 2})
							case 1:
								t.Remove(mkP(p))
								name = "remove"
							case 2:
								// a new longer prefix, or nothing new
								if p.Len >= W {
									continue
								}
								q := ref.P{A: p.Last(W), Len: W}
								if _, ok := index[q]; ok {
									continue
								}
								t.Insert(mkP(q), cv{-1, 1})
								name = "insert below"
							}
							for dir := 0; dir < 2; dir++ {
								x, y := t0, t.Table()
								if dir == 1 {
									x, y = y, x
								}
								k.on, k.calls, k.ids = true, 0, map[int]int{}
								n := 0
								h := func(ip.Prefix, cv) bool { n++; return true }
								x.Diff(y, func(ip.Prefix, cv, cv) bool { n++; return true }, h, h, nil)
								k.on = false
								if n != events {
									c.Failf("table of %d entries (%s at %d), %s %s: diff made %d calls", len(keys), kd.name, off, name, p.Str(W), n)
								}
								for id, times := range k.ids {
									q := p
									if op == 2 {
										q = ref.P{A: p.Last(W), Len: W}
									}
									if id < 0 || times > 1 || !keys[id].Contains(W, q) {
										c.Failf("table of %d entries (%s at %d), %s %s: diff compared values of entry %d %d times", len(keys), kd.name, off, name, p.Str(W), id, times)
									}
								}
								c.Trans++
							}
						}
						c.States++
					}
					c.Traces++
				})
			}
		}
	}
}

// c13Time: even without comparing values, the diff of related snapshots must
// not visit everything: it has to be far quicker than a diff against nothing.
func c13Time(c *rt.Ctx) {
	for _, n := range []int{1 << 15} {
		for op := 0; op < 4; op++ {
			n, op := n, op
			c.Case(func() {
				t := ip.NewTable_[int]()
				base := pattern(patAlt)
				for i := 0; i < n; i++ {
					a := top(base, W-20).Or(ref.U{Lo: uint64(i)})
					t.Insert(mkP(ref.P{A: a, Len: W}), i)
				}
				a := t.Table()
				u := a.Table_()
				key := mkP(ref.P{A: top(base, W-20).Or(ref.U{Lo: uint64(n / 3)}), Len: W})
				switch op {
				case 0:
				case 1:
					u.Update(key, -1)
				case 2:
					u.Remove(key)
				case 3:
					u.Insert(mkP(ref.P{A: top(base, W-20), Len: W - 20}), -1)
				}
				b := u.Table()
				var empty ip.Table[int]
				h := func(ip.Prefix, int) bool { return true }
				full, related := time.Hour, time.Hour
				for i := 0; i < 30; i++ {
					s := time.Now()
					a.Diff(empty, nil, h, h, nil)
					if d := time.Since(s); d < full {
						full = d
					}
					s = time.Now()
					a.Diff(b, nil, h, h, nil)
					if d := time.Since(s); d < related {
						related = d
					}
					if i >= 5 && related*20 < full {
						break
					}
				}
				if related*20 >= full {
					c.Failf("a table of %d entries and one made from it by at most one modification (%d): diff takes %v, a diff with the empty table %v", n, op, related, full)
				}
				c.States++
				c.Trans++
				c.Traces++
			})
		}
	}
}

// ---- C14, C15

type aggCheck func(c *rt.Ctx, u *tuni, t ip.Table[int], code int, ad []probe)

// addresses are the probes that are single addresses.
func (u *tuni) addresses() []probe {
	var out []probe
	for _, p := range u.probes() {
		if p.p.Len == W {
			out = append(out, p)
		}
	}
	return out
}

func checkC14(c *rt.Ctx, u *tuni, t ip.Table[int], code int, ad []probe) {
	a := t.Aggregate()
	am := a.Table_()
	for i := range ad {
		pr := &ad[i]
		want := 0
		for _, k := range pr.keys {
			if d := u.digit(code, k); d != 0 {
				want = d
				break
			}
		}
		v, ok, p := a.LongestMatch(pr.arg)
		if ok != (want != 0) || v != want {
			c.Failf("%s: %s aggregates to %s: LongestMatch(%s) is %s:%d, %v, want %d", u.name, u.str(code), walkStr(a), pr.p.Str(W), up(p).Str(W), v, ok, want)
		}
		if i == code%len(ad) {
			if v, ok, _ := am.LongestMatch(pr.arg); ok != (want != 0) || v != want {
				c.Failf("%s: mutable of the aggregate of %s: LongestMatch(%s) is %d, %v", u.name, u.str(code), pr.p.Str(W), v, ok)
			}
		}
	}
	u.checkWalk(c, t, code, func() string { return u.name + ": table after aggregating it" })
	c.Trans += int64(len(ad))
	c.States++
}

type entry struct {
	p ref.P
	v int
}

func entriesOf(t ip.Table[int]) []entry {
	var out []entry
	t.Walk(func(p ip.Prefix, v int) bool {
		out = append(out, entry{isT(p), v})
		return len(out) < 100000
	})
	return out
}

func checkC15(c *rt.Ctx, u *tuni, t ip.Table[int], code int, ad []probe) {
	a := t.Aggregate()
	es := entriesOf(a)
	fail := func(format string, args ...interface{}) {
		c.Failf("%s: %s aggregates to %s: %s", u.name, u.str(code), walkStr(a), fmt.Sprintf(format, args...))
	}
	if int64(len(es)) > u.size(code) {
		fail("more entries than before")
	}
	if a.NumEntries() != int64(len(es)) {
		fail("NumEntries is %d", a.NumEntries())
	}
	for i, e := range es {
		// nearest enclosing: the longest earlier entry containing it
		best := -1
		for j, f := range es {
			if j != i && f.p.Contains(W, e.p) && (best < 0 || es[best].p.Len < f.p.Len) {
				best = j
			}
		}
		if best >= 0 && es[best].v == e.v {
			fail("%s is redundant under %s", e.p.Str(W), es[best].p.Str(W))
		}
		if e.p.Len > 0 {
			sib := ref.P{A: e.p.A.Xor(ref.BitAt(W, e.p.Len-1)), Len: e.p.Len}
			for _, f := range es {
				if f.p == sib && f.v == e.v {
					fail("%s and %s could be one", e.p.Str(W), sib.Str(W))
				}
			}
		}
		// covered by the original
		var cover []ref.P
		for k := range u.keys {
			if u.digit(code, k) != 0 {
				if u.keys[k].Contains(W, e.p) {
					cover = nil
					break
				}
				if e.p.Contains(W, u.keys[k]) {
					cover = append(cover, u.keys[k])
				}
			}
			if k == len(u.keys)-1 && !ref.FromPrefixes(W, cover).Contains(ref.FromPrefixes(W, []ref.P{e.p})) {
				fail("%s reaches outside the original coverage", e.p.Str(W))
			}
		}
	}
	again := entriesOf(a.Aggregate())
	same := len(again) == len(es)
	for i := 0; same && i < len(es); i++ {
		same = again[i] == es[i]
	}
	if !same {
		fail("aggregated again it is %s", walkStr(a.Aggregate()))
	}
	u.checkWalk(c, t, code, func() string { return u.name + ": table after aggregating it" })
	c.Trans++
	c.States++
}

func aggTree(c *rt.Ctx, k, nv int, offs []int, check aggCheck) {
	if offs == nil {
		offs = offsets(k)
	}
	eachTree(c, k, offs, func(off int, base ref.U, hosty bool) {
		for part := 0; part < nv; part++ {
			part := part
			c.Case(func() {
				u := newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, k, base), nv, hosty)
				ad := u.addresses()
				for m := part; m < u.n; m += nv {
					check(c, u, u.table(m), m, ad)
				}
				c.Traces++
			})
		}
		c.Sample(func() string { return fmt.Sprintf("tree at %d, values 1..%d, every table", off, nv) })
	})
}

// aggTree15: all 3^15 tables of 15 prefixes and two values.
func aggTree15(c *rt.Ctx, check aggCheck) {
	type run struct {
		off, stride int
	}
	runs := []run{{W - 3, 1}}
	if c.Thorough {
		runs = []run{{W - 3, 1}, {0, 1}, {W/2 - 2, 1}}
	}
	for _, r := range runs {
		r := r
		u := newTuni(fmt.Sprintf("tree at %d", r.off), treeKeys(r.off, 3, pattern(patAlt)), 2, false)
		ad := u.addresses()
		// one address per leaf is enough here, and one outside
		var few []probe
		for _, p := range ad {
			if p.p.A == (ref.P{A: p.p.A, Len: r.off + 3}).Net(W) {
				few = append(few, p)
			}
		}
		ad = few
		const inner = 6561 // 3^8: the states of the last eight keys in a case
		outer := u.n / inner
		for o := 0; o < outer; o++ {
			o := o
			c.Case(func() {
				for i := 0; i < inner; i++ {
					m := o + outer*i
					check(c, u, u.table(m), m, ad)
				}
				c.Traces++
			})
		}
		c.Sample(func() string { return u.name + ": " + u.str(9876543) })
	}
}

func aggBushes(c *rt.Ctx, check aggCheck) {
	n := 0
	eachBush(c.Thorough, func(a, b, d int, base ref.U) {
		n++
		hosty := n%2 == 0
		c.Case(func() {
			u := newTuni(fmt.Sprintf("bush %d %d %d", a, b, d), bushKeys(a, b, d, base), 2, hosty)
			ad := u.addresses()
			for m := 0; m < u.n; m++ {
				check(c, u, u.table(m), m, ad)
			}
			c.Traces++
		})
	})
}

// aggPaths: chains of five consecutive lengths and the siblings hanging off
// them, so that merging can cascade upwards.
func aggPaths(c *rt.Ctx, check aggCheck) {
	offs := keyOffsets(5)
	if c.Thorough {
		offs = offsets(5)
	}
	for n, off := range offs {
		off := off
		base := pattern([]int{patAlt, patOnes, patAlt2, patZeros}[n%4])
		c.Case(func() {
			// off (present or not), then at each of 4 levels down both halves
			x := base.And(ref.Max(W))
			keys := []ref.P{{A: x, Len: off}}
			for l := 1; l <= 4; l++ {
				keys = append(keys, ref.P{A: x, Len: off + l}, ref.P{A: x.Xor(ref.BitAt(W, off+l-1)), Len: off + l})
			}
			u := newTuni(fmt.Sprintf("path at %d", off), keys, 2, false)
			ad := u.addresses()
			for m := 0; m < u.n; m++ {
				check(c, u, u.table(m), m, ad)
			}
			c.Traces++
		})
	}
}

func aggShapes(c *rt.Ctx, check aggCheck) {
	var lens []int
	if W > 32 && !c.Thorough {
		lens = keyLens()
	}
	n := 0
	eachShape(lens, func(s shape) {
		n++
		if !c.Mine() {
			c.Skip(1)
			return
		}
		c.Case(func() {
			a, b := s.prefixes(pattern([]int{patAlt, patOnes, patAlt2, patZeros}[n%4]))
			u := newTuni("pair", []ref.P{a, b}, 2, n%2 == 0)
			ad := u.addresses()
			for m := 0; m < u.n; m++ {
				check(c, u, u.table(m), m, ad)
			}
			c.Traces++
		})
	})
}

// c15Finding: the documentation calls the result minimal; in this instance two
// entries would do. An existing test pins this behaviour.
func c15Finding(c *rt.Ctx) {
	if c.Shard != 0 {
		return
	}
	c.Guard(func() {
		base := top(pattern(patAlt), W-8)
		t := ip.NewTable_[bool]()
		t.Insert(mkP(ref.P{A: base, Len: W - 2}), true)
		t.Insert(mkP(ref.P{A: base, Len: W - 1}), false)
		t.Insert(mkP(ref.P{A: base.Or(ref.One), Len: W}), true)
		t.Insert(mkP(ref.P{A: base, Len: W}), false)
		if n := t.Table().Aggregate().NumEntries(); n == 3 {
			c.Finding(fmt.Sprintf("%s: Aggregate of /%d:T /%d:F .1/%d:T .0/%d:F keeps 3 entries where 2 would give the same lookups (documented as minimal)", famName, W-2, W-1, W, W))
		}
	})
}

// ---- C16

type mapCall struct {
	p ref.P
	v int
}

func (u *tuni) checkMap(c *rt.Ctx, t ip.Table[int], m int, name string, f func(key int, v int) int) {
	i := 0
	next := func() {
		for i < len(u.keys) && u.digit(m, i) == 0 {
			i++
		}
	}
	var calls []mapCall
	bad := false
	out := t.Map(func(p ip.Prefix, v int) int {
		np := isT(p)
		calls = append(calls, mapCall{np, v})
		next()
		if i == len(u.keys) || np != u.keys[i] || v != u.digit(m, i) {
			bad = true
			return 77
		}
		i++
		return f(i-1, v)
	})
	next()
	if bad || i != len(u.keys) {
		var b strings.Builder
		for _, cl := range calls {
			fmt.Fprintf(&b, "%s:%d ", cl.p.Str(W), cl.v)
		}
		c.Failf("%s: mapping %s (%s) calls the mapper with %s", u.name, u.str(m), name, b.String())
	}
	// the result: same keys, mapped values
	i = 0
	done := out.Walk(func(p ip.Prefix, v int) bool {
		next()
		if i == len(u.keys) || isT(p) != u.keys[i] || v != f(i, u.digit(m, i)) {
			bad = true
			return false
		}
		i++
		return true
	})
	next()
	if bad || !done || i != len(u.keys) || out.NumEntries() != u.size(m) {
		c.Failf("%s: mapping %s (%s) gives %s with %d entries", u.name, u.str(m), name, walkStr(out), out.NumEntries())
	}
	for k := range u.keys {
		v, ok := out.Get(u.args[k][(m+k)%nArgs])
		d := u.digit(m, k)
		if ok != (d != 0) || ok && v != f(k, d) {
			c.Failf("%s: mapping %s (%s) gives %s, Get(%s) is %d, %v", u.name, u.str(m), name, walkStr(out), u.keys[k].Str(W), v, ok)
		}
	}
	u.checkWalk(c, t, m, func() string { return u.name + ": table after mapping it" })
	c.Trans++
}

func (u *tuni) mapAll(c *rt.Ctx, t ip.Table[int], m int) {
	// every function from the values to values
	n := 1
	for i := 0; i < u.nv; i++ {
		n *= u.nv
	}
	for x := 0; x < n; x++ {
		x := x
		u.checkMap(c, t, m, fmt.Sprintf("value function %d", x), func(k, v int) int {
			y := x
			for i := 1; i < v; i++ {
				y /= u.nv
			}
			return y%u.nv + 1
		})
	}
	u.checkMap(c, t, m, "prefix dependent", func(k, v int) int { return 100*v + k })
	u.checkMap(c, t, m, "half unchanged", func(k, v int) int {
		if k%2 == 0 {
			return v
		}
		return v + 10
	})
	u.checkMap(c, t, m, "zero", func(k, v int) int { return 0 })
	u.checkWalk(c, t.Map(nil), m, func() string { return u.name + ": nil mapper" })
	c.States++
}

func c16Tree(c *rt.Ctx) {
	eachTree(c, 2, offsets(2), func(off int, base ref.U, hosty bool) {
		c.Case(func() {
			u := newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, base), 2, hosty)
			for m := 0; m < u.n; m++ {
				u.mapAll(c, u.table(m), m)
			}
			c.Traces++
			c.Sample(func() string { return u.name + ": 7 mappers of " + u.str(1234) })
		})
	})
}

func c16Bushes(c *rt.Ctx) {
	n := 0
	eachBush(c.Thorough, func(a, b, d int, base ref.U) {
		n++
		hosty := n%2 == 0
		c.Case(func() {
			u := newTuni(fmt.Sprintf("bush %d %d %d", a, b, d), bushKeys(a, b, d, base), 1, hosty)
			for m := 0; m < u.n; m++ {
				u.mapAll(c, u.table(m), m)
			}
			c.Traces++
		})
	})
}

func c16Tree15(c *rt.Ctx) {
	for _, off := range []int{0, W - 3} {
		const block = 256
		u := newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 3, pattern(patOnes)), 1, off != 0)
		for m := 0; m < u.n; m += block {
			m := m
			c.Case(func() {
				for x := m; x < m+block; x++ {
					t := u.table(x)
					u.checkMap(c, t, x, "prefix dependent", func(k, v int) int { return 100*v + k })
					u.checkMap(c, t, x, "half unchanged", func(k, v int) int {
						if k%3 != 0 {
							return v
						}
						return v + 10
					})
				}
				c.States += block
				c.Traces++
			})
		}
	}
}

func c16Shapes(c *rt.Ctx) {
	var lens []int
	if W > 32 && !c.Thorough {
		lens = keyLens()
	}
	n := 0
	eachShape(lens, func(s shape) {
		n++
		if !c.Mine() {
			c.Skip(1)
			return
		}
		c.Case(func() {
			a, b := s.prefixes(pattern([]int{patAlt, patOnes, patAlt2, patZeros}[n%4]))
			u := newTuni("pair", []ref.P{a, b}, 1, n%2 == 0)
			for m := 0; m < u.n; m++ {
				u.mapAll(c, u.table(m), m)
			}
			c.Traces++
		})
	})
}
