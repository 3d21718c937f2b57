package fam

import (
	"fmt"
	"sort"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

// Deep and large structures: every single step away from each of them, and the
// histories that build them and take them apart.

func regLarge() {
	reg("C01", "large and deep sets", largeAlgebra)
	reg("C02", "large and deep sets", largeCanonical)
	reg("C03", "large and deep sets", largeMutable)
	reg("C04", "large and deep sets", largeWalks)
	reg("C08", "large and deep sets", largeAvailable)
	reg("C09", "large and deep tables", largeOps)
	reg("C10", "large and deep tables", largeMatch)
	reg("C11", "large and deep tables", largeTableWalks)
	reg("C12", "large and deep tables", largeDiff)
	reg("C14", "large and deep tables", func(c *rt.Ctx) { largeAggregate(c, checkC14) })
	reg("C15", "large and deep tables", func(c *rt.Ctx) { largeAggregate(c, checkC15) })
	reg("C16", "large and deep tables", largeMap)
	reg("C18", "large and deep tables", largeTableHistory)
	reg("C18", "large and deep sets", largeSetHistory)
}

// ---- tables

type bigTable struct {
	name string
	keys []ref.P // in walk order
	idx  map[ref.P]int
}

func sortKeys(ks []ref.P) []ref.P {
	seen := map[ref.P]bool{}
	var out []ref.P
	for _, k := range ks {
		k = k.Norm(W)
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Less(W, out[j]) })
	return out
}

// bigTables are paths of every length, with things hanging off at every length,
// and wide trees.
func bigTables(thorough bool) []*bigTable {
	var out []*bigTable
	add := func(name string, ks []ref.P) {
		b := &bigTable{name: name, keys: sortKeys(ks), idx: map[ref.P]int{}}
		for i, k := range b.keys {
			b.idx[k] = i
		}
		out = append(out, b)
	}
	pats := []int{patAlt, patOnes}
	if thorough {
		pats = []int{patAlt, patOnes, patZeros, patAlt2}
	}
	for _, p := range pats {
		x := pattern(p).And(ref.Max(W))
		n := x.Str(W)
		var path, teeth, long, both []ref.P
		for l := 0; l <= W; l++ {
			path = append(path, ref.P{A: x, Len: l})
			if l < W {
				y := x.Xor(ref.BitAt(W, l))
				teeth = append(teeth, ref.P{A: y, Len: l + 1})
				long = append(long, ref.P{A: y, Len: W})
			}
		}
		both = append(append(both, path...), teeth...)
		add("every length of "+n, path)
		add("every length of "+n+" and their siblings", both)
		add("the siblings of every length of "+n, teeth)
		add("addresses leaving "+n+" at every bit", long)
		add("every length of "+n+" and addresses leaving it", append(append([]ref.P{}, path...), long...))
	}
	k := 6
	if thorough {
		k = 8
	}
	for _, off := range []int{0, W/2 - k/2, W - k} {
		add(fmt.Sprintf("full tree of depth %d at %d", k, off), bigKeys(off, k, pattern(patAlt), func(l, i int) bool { return true }))
		add(fmt.Sprintf("leaves of depth %d at %d", k+1, min(off, W-k-1)), bigKeys(min(off, W-k-1), k+1, pattern(patAlt), func(l, i int) bool { return l == k+1 }))
		add(fmt.Sprintf("every third of a tree of depth %d at %d", k+1, min(off, W-k-1)), bigKeys(min(off, W-k-1), k+1, pattern(patAlt), func(l, i int) bool { return (i+l)%3 == 0 }))
	}
	return out
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// vals: an assignment of values, 0 for absent
type vals []int

func (b *bigTable) vals(f func(i int) int) vals {
	v := make(vals, len(b.keys))
	for i := range v {
		v[i] = f(i)
	}
	return v
}

func (b *bigTable) table(v vals, order []int) ip.Table[int] {
	t := ip.NewTable_[int]()
	for _, i := range order {
		if v[i] != 0 {
			t.Insert(mkP(b.keys[i]), v[i])
		}
	}
	return t.Table()
}

func (v vals) size() int64 {
	n := int64(0)
	for _, x := range v {
		if x != 0 {
			n++
		}
	}
	return n
}

// is compares a table's walk with the assignment, and with extra entries.
func (b *bigTable) is(t ip.Table[int], v vals, extra ...entry) bool {
	i := 0
	ok := true
	next := func() {
		for i < len(v) && v[i] == 0 {
			i++
		}
	}
	done := t.Walk(func(p ip.Prefix, x int) bool {
		np := isT(p)
		if len(extra) > 0 && extra[0].p == np {
			next()
			ok = extra[0].v == x && (i == len(v) || np.Less(W, b.keys[i]))
			extra = extra[1:]
			return ok
		}
		next()
		if i == len(v) || b.keys[i] != np || v[i] != x {
			ok = false
			return false
		}
		i++
		return true
	})
	next()
	return ok && done && i == len(v) && len(extra) == 0
}

func (b *bigTable) check(c *rt.Ctx, t ip.Table[int], v vals, what func() string, extra ...entry) {
	if !b.is(t, v, extra...) {
		c.Failf("%s, %s: the table is %s", b.name, what(), walkStr(t))
	}
	if n := t.NumEntries(); n != v.size()+int64(len(extra)) {
		c.Failf("%s, %s: NumEntries is %d, want %d", b.name, what(), n, v.size()+int64(len(extra)))
	}
	c.Trans++
}

func (b *bigTable) upOrder() []int { return orders(len(b.keys))[0] }

// largeOps: histories growing and shrinking, and every operation on and near
// every key.
func largeOps(c *rt.Ctx) {
	for _, b := range bigTables(c.Thorough) {
		b := b
		n := len(b.keys)
		full := b.vals(func(i int) int { return 1 + i%3 })
		for o, ord := range orders(n) {
			o, ord := o, ord
			c.Case(func() {
				t := ip.NewTable_[int]()
				v := b.vals(func(int) int { return 0 })
				for s, i := range ord {
					if !t.Insert(mkP(b.keys[i]), full[i]) {
						c.Failf("%s, order %d: Insert(%s) refused", b.name, o, b.keys[i].Str(W))
					}
					v[i] = full[i]
					if s%3 == 0 || s == n-1 {
						b.check(c, t.Table(), v, func() string { return fmt.Sprintf("order %d, after inserting %s", o, b.keys[i].Str(W)) })
					}
				}
				c.States += int64(n)
				for s, i := range orders(n)[(o+2)%5] {
					if !t.Remove(mkP(b.keys[i])) {
						c.Failf("%s, order %d: Remove(%s) did not find it", b.name, o, b.keys[i].Str(W))
					}
					v[i] = 0
					if x, ok := t.Get(mkP(b.keys[i])); ok {
						c.Failf("%s: Get(%s) is %d after its removal", b.name, b.keys[i].Str(W), x)
					}
					if s%3 == 0 || s > n-4 {
						b.check(c, t.Table(), v, func() string { return fmt.Sprintf("order %d, after removing %s", o, b.keys[i].Str(W)) })
					}
				}
				c.States += int64(n)
				c.Traces++
			})
		}
		const parts = 16
		if !c.WantBlock(parts) {
			c.Skip(parts)
			continue
		}
		t0 := b.table(full, b.upOrder())
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				for i := part; i < n; i += parts {
					k := b.keys[i]
					arg := mkP(ref.P{A: k.Last(W), Len: k.Len}) // host bits
					what := func(s string) func() string {
						return func() string { return s + "(" + k.Str(W) + ")" }
					}
					t := t0.Table_()
					v := append(vals(nil), full...)
					if x, ok := t.Get(arg); !ok || x != full[i] {
						c.Failf("%s: Get(%s) is %d, %v", b.name, k.Str(W), x, ok)
					}
					if t.Insert(arg, 7) {
						c.Failf("%s: %s succeeded", b.name, what("Insert")())
					}
					if x := t.GetOrInsert(arg, 7); x != full[i] {
						c.Failf("%s: %s is %d", b.name, what("GetOrInsert")(), x)
					}
					b.check(c, t.Table(), v, what("refused Insert"))
					v[i] = 7
					if !t.Update(arg, 7) {
						c.Failf("%s: %s failed", b.name, what("Update")())
					}
					b.check(c, t.Table(), v, what("Update"))
					v[i] = 8
					t.InsertOrUpdate(arg, 8)
					b.check(c, t.Table(), v, what("InsertOrUpdate"))
					v[i] = 0
					if !t.Remove(arg) {
						c.Failf("%s: %s failed", b.name, what("Remove")())
					}
					b.check(c, t.Table(), v, what("Remove"))
					if t.Remove(arg) || t.Update(arg, 1) {
						c.Failf("%s: %s twice", b.name, what("Remove")())
					}
					if t.GetOrInsert(arg, 9) != 9 {
						c.Failf("%s: %s again", b.name, what("GetOrInsert")())
					}
					v[i] = 9
					b.check(c, t.Table(), v, what("GetOrInsert"))
					// near the key
					for _, q := range near(k) {
						if _, ok := b.idx[q]; ok {
							continue
						}
						t := t0.Table_()
						w := func() string { return "Insert near (" + q.Str(W) + ")" }
						if t.Update(mkP(q), 5) || t.Remove(mkP(q)) {
							c.Failf("%s: Update or Remove of %s succeeded", b.name, q.Str(W))
						}
						if !t.Insert(mkP(q), 5) {
							c.Failf("%s: Insert of %s refused", b.name, q.Str(W))
						}
						b.check(c, t.Table(), full, w, entry{q, 5})
						if !t.Remove(mkP(q)) {
							c.Failf("%s: Remove of %s refused", b.name, q.Str(W))
						}
						b.check(c, t.Table(), full, w)
					}
					c.States += 8
				}
				b.check(c, t0, full, func() string { return "the original" })
				c.Traces++
			})
		}
		c.Sample(func() string { return fmt.Sprintf("%s: %d entries", b.name, n) })
	}
}

// near are prefixes around a key: parent, sibling, children, ends, neighbours.
func near(k ref.P) []ref.P {
	var out []ref.P
	add := func(a ref.U, l int) {
		if l >= 0 && l <= W {
			out = append(out, ref.P{A: a.And(ref.Max(W)), Len: l}.Norm(W))
		}
	}
	add(k.A, k.Len-1)
	add(k.A, k.Len+1)
	if k.Len < W {
		add(k.A.Xor(ref.BitAt(W, k.Len)), k.Len+1)
	}
	if k.Len > 0 {
		add(k.A.Xor(ref.BitAt(W, k.Len-1)), k.Len)
	}
	add(k.First(W), W)
	add(k.Last(W), W)
	add(k.First(W).Dec(), W)
	add(k.Last(W).Inc(), W)
	return out
}

func (b *bigTable) assignments() []vals {
	return []vals{
		b.vals(func(i int) int { return 1 }),
		b.vals(func(i int) int { return 1 + i%3 }),
		b.vals(func(i int) int { return 1 + b.keys[i].Len%2 }),
		b.vals(func(i int) int { return i % 2 }),
		b.vals(func(i int) int { return (i + 1) % 3 }),
		b.vals(func(i int) int { return b.keys[i].Len / 2 % 3 }),
		b.vals(func(i int) int { return 1 + i*7/4%2 }),
	}
}

func (b *bigTable) longest(v vals, q ref.P) int {
	for l := q.Len; l >= 0; l-- {
		if i, ok := b.idx[ref.P{A: q.A, Len: l}.Norm(W)]; ok && v[i] != 0 {
			return i
		}
	}
	return -1
}

func largeMatch(c *rt.Ctx) {
	for _, b := range bigTables(c.Thorough) {
		b := b
		for a := range b.assignments() {
			a := a
			c.Case(func() {
				v := b.assignments()[a]
				t := b.table(v, orders(len(b.keys))[a%5])
				for _, k := range b.keys {
					for _, q := range append(near(k), k) {
						x, ok, p := t.LongestMatch(mkP(ref.P{A: q.Last(W), Len: q.Len}))
						want := b.longest(v, q)
						if ok != (want >= 0) || ok && (x != v[want] || isT(p) != b.keys[want]) {
							c.Failf("%s, values %d: LongestMatch(%s) is %s:%d, %v, want key %d", b.name, a, q.Str(W), up(p).Str(W), x, ok, want)
						}
						c.Trans++
					}
					c.States++
				}
				c.Traces++
			})
		}
	}
}

func largeTableWalks(c *rt.Ctx) {
	for _, b := range bigTables(c.Thorough) {
		b := b
		for a := range b.assignments() {
			a := a
			c.Case(func() {
				v := b.assignments()[a]
				for o, ord := range orders(len(b.keys)) {
					b.check(c, b.table(v, ord), v, func() string { return fmt.Sprintf("values %d, order %d", a, o) })
				}
				t := b.table(v, b.upOrder())
				size := int(v.size())
				for stop := 1; stop <= size; stop++ {
					n := 0
					done := t.Walk(func(ip.Prefix, int) bool { n++; return n != stop })
					if n != stop || done {
						c.Failf("%s, values %d: Walk stopped at call %d made %d and returned %v", b.name, a, stop, n, done)
					}
					c.Trans++
				}
				c.States++
				c.Traces++
			})
		}
	}
}

func largeDiff(c *rt.Ctx) {
	bs := bigTables(c.Thorough)
	type ev struct {
		kind byte
		p    ref.P
		l, r int
	}
	// from the merged list of keys
	merge := func(a, b *bigTable, v, w vals) []ev {
		var out []ev
		i, j := 0, 0
		for i < len(v) || j < len(w) {
			switch {
			case i < len(v) && v[i] == 0:
				i++
			case j < len(w) && w[j] == 0:
				j++
			case j == len(w) || i < len(v) && a.keys[i].Less(W, b.keys[j]):
				out = append(out, ev{'-', a.keys[i], v[i], 0})
				i++
			case i == len(v) || b.keys[j].Less(W, a.keys[i]):
				out = append(out, ev{'+', b.keys[j], 0, w[j]})
				j++
			default:
				k := byte('!')
				if v[i] == w[j] {
					k = '='
				}
				out = append(out, ev{k, a.keys[i], v[i], w[j]})
				i++
				j++
			}
		}
		return out
	}
	check := func(x, y ip.Table[int], want []ev, same bool, stop int, what func() string) {
		n := 0
		var bad *ev
		if !same {
			k := 0
			for _, e := range want {
				if e.kind != '=' {
					want[k] = e
					k++
				}
			}
			want = want[:k]
		}
		got := func(e ev) bool {
			if n >= len(want) || want[n] != e {
				bad = &e
				return false
			}
			n++
			return n != stop
		}
		var eq func(ip.Prefix, int) bool
		if same {
			eq = func(p ip.Prefix, v int) bool { return got(ev{'=', isT(p), v, v}) }
		}
		done := x.Diff(y, func(p ip.Prefix, l, r int) bool { return got(ev{'!', isT(p), l, r}) },
			func(p ip.Prefix, v int) bool { return got(ev{'-', isT(p), v, 0}) },
			func(p ip.Prefix, v int) bool { return got(ev{'+', isT(p), 0, v}) }, eq)
		if bad != nil {
			c.Failf("%s: call %d was %c %s %d %d", what(), n+1, bad.kind, bad.p.Str(W), bad.l, bad.r)
		}
		if stop > 0 && stop <= len(want) {
			if n != stop || done {
				c.Failf("%s: stopped at call %d, made %d and returned %v", what(), stop, n, done)
			}
		} else if n != len(want) || !done {
			c.Failf("%s: made %d calls (want %d) and returned %v", what(), n, len(want), done)
		}
		c.Trans++
	}
	for x, b := range bs {
		b := b
		// snapshots one step apart, and far apart but related
		const parts = 8
		if c.WantBlock(parts) {
			as := b.assignments()
			full := as[1]
			t0 := b.table(full, b.upOrder())
			for part := 0; part < parts; part++ {
				part := part
				c.Case(func() {
					for i := part; i < len(b.keys); i += parts {
						for op := 0; op < 2; op++ {
							v := append(vals(nil), full...)
							t := t0.Table_()
							if op == 0 {
								t.Remove(mkP(b.keys[i]))
								v[i] = 0
							} else {
								t.Update(mkP(b.keys[i]), 9)
								v[i] = 9
							}
							for _, same := range []bool{false, true} {
								what := func() string {
									return fmt.Sprintf("%s, operation %d on %s, unchanged handler %v", b.name, op, b.keys[i].Str(W), same)
								}
								check(t0, t.Table(), merge(b, b, full, v), same, 0, what)
								check(t.Table(), t0, merge(b, b, v, full), same, i%3, what)
							}
							c.States++
						}
					}
					// related: a copy turned into each of the other assignments
					a := part
					if a < len(as) {
						t := t0.Table_()
						for i := range b.keys {
							if as[a][i] == 0 {
								t.Remove(mkP(b.keys[i]))
							} else {
								t.InsertOrUpdate(mkP(b.keys[i]), as[a][i])
							}
						}
						for _, same := range []bool{false, true} {
							w := merge(b, b, full, as[a])
							step := 1 + len(w)/40
							for stop := 0; stop <= len(w); stop += step {
								what := func() string { return fmt.Sprintf("%s, values 1 and %d, stop %d", b.name, a, stop) }
								check(t0, t.Table(), merge(b, b, full, as[a]), same, stop, what)
								check(t.Table(), t0, merge(b, b, as[a], full), same, stop, what)
							}
						}
					}
					c.Traces++
				})
			}
		} else {
			c.Skip(parts)
		}
		for y := range bs {
			y := y
			c.Case(func() {
				o := bs[y]
				v, w := b.assignments()[(x+y)%7], o.assignments()[(x*3+y)%7]
				t, s := b.table(v, b.upOrder()), o.table(w, orders(len(o.keys))[y%5])
				for _, same := range []bool{false, true} {
					what := func() string { return fmt.Sprintf("%s against %s", b.name, o.name) }
					check(t, s, merge(b, o, v, w), same, 0, what)
					check(s, t, merge(o, b, w, v), same, 0, what)
					check(t, s, merge(b, o, v, w), same, 1+(x*7+y)%len(b.keys), what)
				}
				c.States++
				c.Traces++
			})
		}
	}
}

// largeAggregate uses the checks of the small universes on the large ones: the
// state is in the digits, so values are limited.
func largeAggregate(c *rt.Ctx, check aggCheck) {
	for _, b := range bigTables(c.Thorough) {
		b := b
		if len(b.keys) > 300 && !c.Thorough {
			continue
		}
		for a := range b.assignments() {
			a := a
			c.Case(func() {
				v := b.assignments()[a]
				// only the entries that are there; as digits of a mixed state
				u := &tuni{name: b.name, nv: 1, n: 1, fixed: map[int]int{}}
				for i, k := range b.keys {
					if v[i] != 0 {
						u.fixed[len(u.keys)] = v[i]
						u.keys = append(u.keys, k)
						u.args = append(u.args, []ip.PrefixI{mkP(k), mkP(k), mkP(k)})
						u.pow = append(u.pow, 1)
						u.stored = append(u.stored, mkP(k))
					}
				}
				var ad []probe
				seen := map[ref.U]bool{}
				for _, k := range b.keys {
					for _, q := range []ref.U{k.First(W), k.Last(W), k.First(W).Dec().And(ref.Max(W)), k.Last(W).Inc().And(ref.Max(W))} {
						if !seen[q] {
							seen[q] = true
							ad = append(ad, probe{p: ref.P{A: q, Len: W}, arg: mkA(q), keys: u.containing(ref.P{A: q, Len: W})})
						}
					}
				}
				check(c, u, u.table(0), 0, ad)
				c.Traces++
			})
		}
	}
}

func largeMap(c *rt.Ctx) {
	for _, b := range bigTables(c.Thorough) {
		b := b
		for a := range b.assignments() {
			a := a
			c.Case(func() {
				v := b.assignments()[a]
				t := b.table(v, b.upOrder())
				for fi, f := range []func(i, x int) int{
					func(i, x int) int { return x },
					func(i, x int) int { return 1 },
					func(i, x int) int { return x + i%2 },
					func(i, x int) int { return b.keys[i].Len + 1 },
				} {
					i := -1
					m := t.Map(func(p ip.Prefix, x int) int {
						for i++; i < len(v) && v[i] == 0; i++ {
						}
						if i >= len(v) || isT(p) != b.keys[i] || x != v[i] {
							c.Failf("%s, values %d: Map's function was called with %s, %d", b.name, a, up(p).Str(W), x)
						}
						return f(i, x)
					})
					want := b.vals(func(i int) int {
						if v[i] == 0 {
							return 0
						}
						return f(i, v[i])
					})
					b.check(c, m, want, func() string { return fmt.Sprintf("values %d, Map %d", a, fi) })
					b.check(c, t, v, func() string { return fmt.Sprintf("values %d, after Map %d", a, fi) })
				}
				c.States++
				c.Traces++
			})
		}
	}
}

// largeTableHistory keeps a snapshot of every step and reads all in the end.
func largeTableHistory(c *rt.Ctx) {
	for _, b := range bigTables(c.Thorough) {
		b := b
		n := len(b.keys)
		for o, ord := range orders(n) {
			o, ord := o, ord
			c.Case(func() {
				type snap struct {
					t    ip.Table[int]
					v    vals
					step int
				}
				var snaps []snap
				t := ip.NewTable_[int]()
				v := b.vals(func(int) int { return 0 })
				step := 0
				keep := func() {
					step++
					if n > 150 && step%3 != 0 {
						return
					}
					snaps = append(snaps, snap{t.Table(), append(vals(nil), v...), step})
				}
				for _, i := range ord {
					t.Insert(mkP(b.keys[i]), 1)
					v[i] = 1
					keep()
				}
				for _, i := range orders(n)[(o+1)%5] {
					t.Update(mkP(b.keys[i]), 2)
					v[i] = 2
					keep()
				}
				for _, i := range orders(n)[(o+3)%5] {
					t.Remove(mkP(b.keys[i]))
					v[i] = 0
					keep()
				}
				for _, s := range snaps {
					s.t.Aggregate()
					s.t.Map(func(p ip.Prefix, v int) int { return 5 })
					m := s.t.Table_()
					m.InsertOrUpdate(mkP(b.keys[s.step%n]), 9)
					m.Remove(mkP(b.keys[s.step*7%n]))
				}
				for _, s := range snaps {
					b.check(c, s.t, s.v, func() string { return fmt.Sprintf("order %d, snapshot of step %d of %d at the end", o, s.step, step) })
				}
				c.States += int64(len(snaps))
				c.Traces++
			})
		}
	}
}

// ---- sets

type bigSet struct {
	name   string
	pieces []ref.P // disjoint
	r      ref.Set
	want   []ref.P
}

func bigSets(thorough bool) []*bigSet {
	var out []*bigSet
	add := func(name string, ps []ref.P) {
		b := &bigSet{name: name, pieces: ps, r: ref.FromPrefixes(W, ps)}
		b.want = b.r.Prefixes(W)
		out = append(out, b)
	}
	pats := []int{patAlt, patOnes}
	if thorough {
		pats = []int{patAlt, patOnes, patZeros, patAlt2}
	}
	for _, p := range pats {
		x := pattern(p).And(ref.Max(W))
		n := x.Str(W)
		teeth := comb(x, W)
		var odd, third, long []ref.P
		for i, t := range teeth {
			if i%2 == 1 {
				odd = append(odd, t)
			}
			if i%3 == 0 {
				third = append(third, t)
			}
			long = append(long, ref.P{A: t.A, Len: W})
		}
		add("all but "+n, teeth)
		add("the odd siblings along "+n, odd)
		add("every third sibling along "+n, third)
		add("addresses leaving "+n+" at every bit", long)
		add("all but "+n+", and it", append(append([]ref.P{}, teeth...), ref.P{A: x, Len: W}))
	}
	k := 6
	if thorough {
		k = 8
	}
	all := ref.Set{{First: ref.Zero, Last: ref.Max(W)}}
	for _, off := range []int{0, W/2 - k/2, W - k} {
		for _, step := range []int{1, 2, 3} {
			ps := bigKeys(off, k, pattern(patAlt), func(l, i int) bool { return l == k && i%step == 0 })
			add(fmt.Sprintf("every %d of 2^%d blocks at %d", step, k, off), ps)
		}
	}
	for _, b := range append([]*bigSet(nil), out...) {
		if rest := all.Diff(b.r); len(rest) > 0 {
			add("the complement of "+b.name, rest.Prefixes(W))
		}
	}
	// ranges that need nearly 2 W prefixes
	one := ref.One
	for _, iv := range []ref.Iv{
		{First: one, Last: ref.Max(W).Dec()},
		{First: pattern(patAlt).And(ref.Max(W)), Last: pattern(patAlt2).And(ref.Max(W))},
	} {
		add("the range "+mkR(iv).String(), ref.Set{iv}.Prefixes(W))
	}
	return out
}

func largeAlgebra(c *rt.Ctx) {
	bs := bigSets(c.Thorough)
	for i := range bs {
		for j := range bs {
			i, j := i, j
			c.Case(func() {
				a, b := bs[i], bs[j]
				A, B := setOf(a.pieces), setOf(b.want)
				what := func(op string) func() string {
					return func() string { return fmt.Sprintf("%s of (%s) and (%s)", op, a.name, b.name) }
				}
				checkSet(c, A.Union(B), a.r.Union(b.r).Prefixes(W), what("union"))
				checkSet(c, A.Intersection(B), a.r.Inter(b.r).Prefixes(W), what("intersection"))
				checkSet(c, A.Difference(B), a.r.Diff(b.r).Prefixes(W), what("difference"))
				if A.Contains(B) != a.r.Contains(b.r) {
					c.Failf("%s: %v", what("contains")(), A.Contains(B))
				}
				if A.Equal(B) != a.r.Equal(b.r) {
					c.Failf("%s: %v", what("equal")(), A.Equal(B))
				}
				// every single piece of one against the other
				for n, p := range b.want {
					pr := ref.FromPrefixes(W, []ref.P{p})
					P := mkP(p)
					w := func() string { return fmt.Sprintf("(%s) and %s", a.name, p.Str(W)) }
					if A.Contains(P) != a.r.Contains(pr) || P.Contains(A) != pr.Contains(a.r) {
						c.Failf("%s: Contains %v, contained %v", w(), A.Contains(P), P.Contains(A))
					}
					if (n+i+j)%16 == 0 {
						checkSet(c, A.Union(P), a.r.Union(pr).Prefixes(W), w)
						checkSet(c, A.Intersection(P), a.r.Inter(pr).Prefixes(W), w)
						checkSet(c, A.Difference(P), a.r.Diff(pr).Prefixes(W), w)
						checkSet(c, P.Set().Difference(A), pr.Diff(a.r).Prefixes(W), w)
					}
					c.Trans++
				}
				c.States++
				c.Traces++
			})
		}
	}
}

func largeCanonical(c *rt.Ctx) {
	for _, b := range bigSets(c.Thorough) {
		b := b
		n := len(b.pieces)
		for o, ord := range orders(n) {
			o, ord := o, ord
			c.Case(func() {
				first := setOf(b.want)
				s := ip.NewSet_()
				for _, i := range ord {
					s.Insert(mkP(b.pieces[i]))
				}
				what := func() string { return fmt.Sprintf("%s, order %d", b.name, o) }
				checkCanonical(c, s.Set(), b.want, &first, what)
				// as the rest of everything, piece by piece
				s = ip.NewSet_()
				s.Insert(mkP(ref.P{}))
				all := ref.Set{{First: ref.Zero, Last: ref.Max(W)}}
				rest := all.Diff(b.r).Prefixes(W)
				for _, i := range orders(len(rest))[o] {
					s.Remove(mkP(rest[i]))
				}
				checkCanonical(c, s.Set(), b.want, &first, func() string { return what() + " by removal" })
				// from halves of the list, by union
				l, r := setOf(b.pieces[:n/2]), setOf(b.pieces[n/2:])
				checkCanonical(c, r.Union(l), b.want, &first, func() string { return what() + " by union" })
				// equal only to itself
				for _, i := range ord {
					t := first.Set_()
					p := b.pieces[i]
					t.Remove(mkP(ref.P{A: p.Last(W), Len: W}))
					if t.Set().Equal(first) || first.Equal(t.Set()) || t.Equal(first.Set_()) {
						c.Failf("%s: Equal without %s", what(), p.Last(W).Str(W))
					}
					t.Insert(mkA(p.Last(W)))
					if !t.Set().Equal(first) || !first.Equal(t.Set()) || !t.Equal(first.Set_()) {
						c.Failf("%s: not Equal with %s taken and given back", what(), p.Last(W).Str(W))
					}
					c.Trans += 2
				}
				c.States++
				c.Traces++
			})
		}
	}
}

func largeMutable(c *rt.Ctx) {
	for _, b := range bigSets(c.Thorough) {
		b := b
		n := len(b.pieces)
		for o, ord := range orders(n) {
			o, ord := o, ord
			c.Case(func() {
				s := ip.NewSet_()
				cp := s
				var r ref.Set
				step := 1 + n/50
				for k, i := range ord {
					p := b.pieces[i]
					s.Insert(mkP(p))
					r = r.Union(ref.FromPrefixes(W, []ref.P{p}))
					if k%step == 0 || k == n-1 {
						checkMutable(c, s, cp, r.Prefixes(W), func() string { return fmt.Sprintf("%s, order %d, after inserting %s", b.name, o, p.Str(W)) })
					}
					c.Trans++
				}
				ords := orders(n)
				for k, i := range ords[(o+2)%5] {
					p := b.pieces[i]
					if k%3 == 1 && p.Len < W {
						// in two steps
						q := ref.P{A: p.A, Len: p.Len + 1}.Norm(W)
						s.Remove(mkP(q))
					}
					s.Remove(mkP(p))
					r = r.Diff(ref.FromPrefixes(W, []ref.P{p}))
					if k%step == 0 || k > n-3 {
						checkMutable(c, s, cp, r.Prefixes(W), func() string { return fmt.Sprintf("%s, order %d, after removing %s", b.name, o, p.Str(W)) })
					}
					c.Trans++
				}
				c.States += int64(2 * n)
				c.Traces++
			})
		}
	}
}

func largeWalks(c *rt.Ctx) {
	var lens []int
	for l := 0; l <= W; l++ {
		lens = append(lens, l)
	}
	for _, b := range bigSets(c.Thorough) {
		b := b
		c.Case(func() {
			what := func() string { return b.name }
			s := setOf(b.pieces)
			checkWalks(c, s, b.r, b.want, what)
			checkSetCounts(c, s, b.r, lens, what)
			c.States++
			c.Traces++
		})
	}
}

func largeAvailable(c *rt.Ctx) {
	bs := bigSets(c.Thorough)
	for i := range bs {
		for j := -1; j < len(bs); j++ {
			i, j := i, j
			c.Case(func() {
				a := bs[i]
				A := setOf(a.pieces)
				space, reserved := a.r, ref.Set{{First: ref.Zero, Last: ref.Max(W)}}
				var R ip.SetI
				S := A
				if j < 0 {
					// out of everything
					space, reserved = reserved, a.r
					S, R = setOf([]ref.P{{}}), A
				} else {
					reserved = bs[j].r
					R = setOf(bs[j].want)
				}
				free := space.Diff(reserved).Prefixes(W)
				for l := 0; l <= W+1; l++ {
					checkAvailable(c, S, R, free, l, func() string { return fmt.Sprintf("%s, reserved %d", a.name, j) })
				}
				c.States++
				c.Traces++
			})
		}
	}
}

func largeSetHistory(c *rt.Ctx) {
	for _, b := range bigSets(c.Thorough) {
		b := b
		n := len(b.pieces)
		for o, ord := range orders(n) {
			o, ord := o, ord
			c.Case(func() {
				type snap struct {
					s    ip.Set
					want []ref.P
				}
				var snaps []snap
				s := ip.NewSet_()
				var r ref.Set
				step := 1 + n/60
				do := func(k int, p ref.P, insert bool) {
					if insert {
						s.Insert(mkP(p))
						r = r.Union(ref.FromPrefixes(W, []ref.P{p}))
					} else {
						s.Remove(mkP(p))
						r = r.Diff(ref.FromPrefixes(W, []ref.P{p}))
					}
					if k%step == 0 {
						snaps = append(snaps, snap{s.Set(), r.Prefixes(W)})
					}
				}
				for k, i := range ord {
					do(k, b.pieces[i], true)
				}
				for k, i := range orders(n)[(o+1)%5] {
					do(k, b.pieces[i], false)
				}
				for k := range snaps {
					x, y := snaps[k].s, snaps[(k*5+1)%len(snaps)].s
					x.Union(y)
					x.Intersection(y)
					x.Difference(y)
					m := x.Set_()
					m.Insert(y)
					m.Remove(x)
				}
				for k, sn := range snaps {
					checkSet(c, sn.s, sn.want, func() string { return fmt.Sprintf("%s, order %d, snapshot %d in the end", b.name, o, k) })
					c.Trans++
				}
				c.States += int64(len(snaps))
				c.Traces++
			})
		}
	}
}
