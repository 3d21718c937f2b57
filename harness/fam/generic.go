package fam

import (
	"fmt"
	"strings"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

// C17: tables of all kinds of values.

// kind describes a value type: the values 1..n, how to recognise them, and how
// to make a table. class gives the equivalence class that the comparison uses.
type vkind[T any] struct {
	name  string
	vals  []T // index 0 unused
	code  func(T) int
	class func(int) int
	make  func(k *vkind[T]) ip.Table_[T]
	bad   string // what the comparator should not have been given
}

func (k *vkind[T]) eq(a, b T) bool {
	ca, cb := k.code(a), k.code(b)
	if (ca == 0 || cb == 0) && k.bad == "" {
		k.bad = fmt.Sprintf("comparator called with %#v and %#v", a, b)
	}
	return k.class(ca) == k.class(cb)
}

func ident(i int) int { return i }

func custom[T any](k *vkind[T]) ip.Table_[T] { return ip.NewTableCustomCompare_[T](k.eq) }

type pair struct {
	a []int
	m map[string]int
}

type small struct{ a, b int }

func c17Types(c *rt.Ctx) {
	x1, x2 := new(int), new(int)
	f1, f2 := func() int { return 1 }, func() int { return 2 }
	e1, e2 := fmt.Errorf("one"), fmt.Errorf("two")
	run17(c, &vkind[[]int]{name: "[]int", vals: []([]int){nil, {1}, {2, 2}}, class: ident, make: custom[[]int],
		code: func(v []int) int { return len(v) }})
	run17(c, &vkind[[]byte]{name: "[]byte, equal by length", vals: [][]byte{nil, []byte("a"), []byte("b"), []byte("cc")}, make: custom[[]byte],
		class: func(i int) int { return []int{0, 1, 1, 2}[i] },
		code: func(v []byte) int {
			if len(v) == 0 {
				return 0
			}
			return int(v[0]-'a') + 1
		}})
	run17(c, &vkind[map[string]int]{name: "map", vals: []map[string]int{nil, {"a": 1}, {"a": 2}}, class: ident, make: custom[map[string]int],
		code: func(v map[string]int) int { return v["a"] }})
	run17(c, &vkind[func() int]{name: "func", vals: []func() int{nil, f1, f2}, class: ident, make: custom[func() int],
		code: func(v func() int) int {
			if v == nil {
				return 0
			}
			return v()
		}})
	run17(c, &vkind[pair]{name: "struct with slice and map", vals: []pair{{}, {a: []int{1}}, {a: []int{2}, m: map[string]int{}}}, class: ident, make: custom[pair],
		code: func(v pair) int {
			if len(v.a) == 0 {
				return 0
			}
			return v.a[0]
		}})
	// nil and zero are proper values here
	run17(c, &vkind[interface{}]{name: "interface{} with nil and uncomparable values", vals: []interface{}{nil, nil, []int{1}, "x"}, class: ident, make: custom[interface{}],
		code: func(v interface{}) int {
			switch v := v.(type) {
			case nil:
				return 1
			case []int:
				return 2
			case string:
				if v == "x" {
					return 3
				}
			}
			return 0
		}})
	run17(c, &vkind[error]{name: "error with nil", vals: []error{nil, nil, e1, e2}, class: func(i int) int { return []int{0, 1, 2, 2}[i] }, make: custom[error],
		code: func(v error) int {
			switch v {
			case nil:
				return 1
			case e1:
				return 2
			case e2:
				return 3
			}
			return 0
		}})
	run17(c, &vkind[fmt.Stringer]{name: "Stringer with nil", vals: []fmt.Stringer{nil, nil, mkA(ref.One)}, class: ident, make: custom[fmt.Stringer],
		code: func(v fmt.Stringer) int {
			if v == nil {
				return 1
			}
			return 2
		}})
	run17(c, &vkind[*int]{name: "pointer with nil", vals: []*int{nil, nil, x1, x2}, class: ident, make: func(*vkind[*int]) ip.Table_[*int] { return ip.NewTable_[*int]() },
		code: func(v *int) int {
			switch v {
			case nil:
				return 1
			case x1:
				return 2
			case x2:
				return 3
			}
			return 0
		}})
	run17(c, &vkind[small]{name: "struct", vals: []small{{}, {}, {1, 0}}, class: ident, make: func(*vkind[small]) ip.Table_[small] { return ip.NewTable_[small]() },
		code: func(v small) int { return v.a + 1 }})
	run17(c, &vkind[struct{}]{name: "empty struct", vals: []struct{}{{}, {}}, class: ident, make: func(*vkind[struct{}]) ip.Table_[struct{}] { return ip.NewTable_[struct{}]() },
		code: func(v struct{}) int { return 1 }})
	run17(c, &vkind[string]{name: "string with empty", vals: []string{"", "", "b"}, class: ident, make: func(*vkind[string]) ip.Table_[string] { return ip.NewTable_[string]() },
		code: func(v string) int { return 1 + len(v) }})
	run17(c, zeroInts())
	run17(c, &vkind[bool]{name: "bool", vals: []bool{false, false, true}, class: ident, make: func(*vkind[bool]) ip.Table_[bool] { return ip.NewTable_[bool]() },
		code: func(v bool) int {
			if v {
				return 2
			}
			return 1
		}})
	run17(c, &vkind[int]{name: "int, parity", vals: []int{0, 11, 12, 13}, make: custom[int],
		class: func(i int) int { return i % 2 },
		code: func(v int) int {
			if v < 11 || v > 13 {
				return 0
			}
			return v - 10
		}})
	run17(c, &vkind[int]{name: "int, all equal", vals: []int{0, 11, 12}, make: custom[int],
		class: func(i int) int { return 0 },
		code: func(v int) int {
			if v < 11 || v > 12 {
				return 0
			}
			return v - 10
		}})
}

// gen wraps a universe with values of a kind.
type gen[T any] struct {
	*tuni
	k *vkind[T]
}

func (g gen[T]) same(v T, d int) bool {
	cd := g.k.code(v)
	return cd != 0 && g.k.class(cd) == g.k.class(d)
}

func (g gen[T]) clean(c *rt.Ctx, what func() string) {
	if g.k.bad != "" {
		c.Failf("%s: values %s: %s: %s", g.name, g.k.name, what(), g.k.bad)
	}
}

func (g gen[T]) build(code int) ip.Table_[T] {
	t := g.k.make(g.k)
	for i := range g.keys {
		if d := g.digit(code, i); d != 0 {
			t.Insert(g.stored[i], g.k.vals[d])
		}
	}
	return t
}

func (g gen[T]) show(t ip.Table[T]) string {
	var b strings.Builder
	t.Walk(func(p ip.Prefix, v T) bool {
		fmt.Fprintf(&b, "%s:%d ", up(p).Str(W), g.k.code(v))
		return true
	})
	return b.String()
}

// verify reads everything back: walk, get, longest match, count. Values need
// only be equal as the comparison sees it.
func (g gen[T]) verify(c *rt.Ctx, t ip.Table[T], code int, what func() string) {
	fail := func(s string) {
		c.Failf("%s: values %s: %s: %s; table %s, want %s", g.name, g.k.name, what(), s, g.show(t), g.str(code))
	}
	n := 0
	i := 0
	next := func() {
		for i < len(g.keys) && g.digit(code, i) == 0 {
			i++
		}
	}
	t.Walk(func(p ip.Prefix, v T) bool {
		next()
		if i == len(g.keys) || isT(p) != g.keys[i] || !g.same(v, g.digit(code, i)) {
			fail("wrong walk")
		}
		i++
		n++
		return true
	})
	if int64(n) != g.size(code) || t.NumEntries() != g.size(code) {
		fail("wrong number of entries")
	}
	tm := t.Table_()
	for i := range g.keys {
		d := g.digit(code, i)
		v, ok := t.Get(g.args[i][0])
		if ok != (d != 0) || ok && !g.same(v, d) {
			fail("wrong Get")
		}
		v, ok = tm.Get(g.args[i][0])
		if ok != (d != 0) || ok && !g.same(v, d) {
			fail("wrong Get from the mutable")
		}
		best := 0
		for _, a := range g.anc[i] {
			if d := g.digit(code, a); d != 0 {
				best = d
				break
			}
		}
		v, ok, _ = t.LongestMatch(g.args[i][1])
		if ok != (best != 0) || ok && !g.same(v, best) {
			fail("wrong LongestMatch")
		}
		v, ok, _ = tm.LongestMatch(g.args[i][1])
		if ok != (best != 0) || ok && !g.same(v, best) {
			fail("wrong LongestMatch from the mutable")
		}
	}
}

// all the operations from a state, checking results
func (g gen[T]) ops(c *rt.Ctx, t0 ip.Table[T], code int, what func() string) {
	g.eachOp(func(op, i, v int) {
		t := t0.Table_()
		d := g.digit(code, i)
		val := g.k.vals[v]
		arg := g.args[i][0]
		next := code
		bad := ""
		switch op {
		case 0:
			if t.Insert(arg, val) != (d == 0) {
				bad = "wrong result"
			}
			if d == 0 {
				next = g.with(code, i, v)
			}
		case 1:
			if t.Update(arg, val) != (d != 0) {
				bad = "wrong result"
			}
			if d != 0 {
				next = g.with(code, i, v)
			}
		case 2:
			t.InsertOrUpdate(arg, val)
			next = g.with(code, i, v)
		case 3:
			got := t.GetOrInsert(arg, val)
			want := d
			if d == 0 {
				want = v
			}
			if !g.same(got, want) {
				bad = "wrong result"
			}
			next = g.with(code, i, want)
		case 4:
			if t.Remove(arg) != (d != 0) {
				bad = "wrong result"
			}
			next = g.with(code, i, 0)
		}
		w := func() string { return what() + ": " + g.opStr(op, i, v) }
		if bad != "" {
			c.Failf("%s: values %s: %s in %s: %s", g.name, g.k.name, w(), g.str(code), bad)
		}
		tt := t.Table()
		g.verify(c, tt, next, w)
		g.diff(c, t0, tt, code, next, w)
		g.clean(c, w)
		c.Trans++
	})
	g.verify(c, t0, code, what)
}

func (g gen[T]) diff(c *rt.Ctx, a, b ip.Table[T], ac, bc int, what func() string) {
	type ev struct {
		kind byte
		key  int
	}
	var want []ev
	for i := range g.keys {
		l, r := g.digit(ac, i), g.digit(bc, i)
		switch {
		case l == 0 && r == 0:
		case r == 0:
			want = append(want, ev{'-', i})
		case l == 0:
			want = append(want, ev{'+', i})
		case g.k.class(l) == g.k.class(r):
			want = append(want, ev{'=', i})
		default:
			want = append(want, ev{'!', i})
		}
	}
	n := 0
	hit := func(kind byte, p ip.Prefix, l, r *T) bool {
		if n >= len(want) || want[n].kind != kind || g.keys[want[n].key] != isT(p) {
			c.Failf("%s: values %s: %s: diff of %s and %s: call %d is %c %s", g.name, g.k.name, what(), g.str(ac), g.str(bc), n, kind, up(p).Str(W))
		}
		i := want[n].key
		if l != nil && !g.same(*l, g.digit(ac, i)) || r != nil && !g.same(*r, g.digit(bc, i)) {
			c.Failf("%s: values %s: %s: diff of %s and %s: call %d, %c %s has wrong values", g.name, g.k.name, what(), g.str(ac), g.str(bc), n, kind, up(p).Str(W))
		}
		n++
		return true
	}
	done := a.Diff(b,
		func(p ip.Prefix, l, r T) bool { return hit('!', p, &l, &r) },
		func(p ip.Prefix, v T) bool { return hit('-', p, &v, nil) },
		func(p ip.Prefix, v T) bool { return hit('+', p, nil, &v) },
		func(p ip.Prefix, v T) bool { return hit('=', p, &v, &v) })
	if !done || n != len(want) {
		c.Failf("%s: values %s: %s: diff of %s and %s makes %d calls, returns %v", g.name, g.k.name, what(), g.str(ac), g.str(bc), n, done)
	}
}

// aggregated checks the aggregate: lookups of the leaves stay equal and nothing
// is left to combine, by the table's own comparison.
func (g gen[T]) aggregated(c *rt.Ctx, t ip.Table[T], code int, ad []probe, what func() string) ip.Table[T] {
	a := t.Aggregate()
	fail := func(s string) {
		c.Failf("%s: values %s: %s: aggregate of %s is %s: %s", g.name, g.k.name, what(), g.str(code), g.show(a), s)
	}
	for i := range ad {
		want := 0
		for _, k := range ad[i].keys {
			if d := g.digit(code, k); d != 0 {
				want = d
				break
			}
		}
		v, ok, _ := a.LongestMatch(ad[i].arg)
		if ok != (want != 0) || ok && !g.same(v, want) {
			fail("wrong lookup of " + ad[i].p.Str(W))
		}
	}
	type ent struct {
		p ref.P
		v int
	}
	var es []ent
	a.Walk(func(p ip.Prefix, v T) bool {
		es = append(es, ent{isT(p), g.k.class(g.k.code(v))})
		return true
	})
	for i, e := range es {
		best := -1
		for j, f := range es {
			if j != i && f.p.Contains(W, e.p) && (best < 0 || es[best].p.Len < f.p.Len) {
				best = j
			}
			if e.p.Len > 0 && f.p == (ref.P{A: e.p.A.Xor(ref.BitAt(W, e.p.Len-1)), Len: e.p.Len}) && f.v == e.v {
				fail("two halves have equal values")
			}
		}
		if best >= 0 && es[best].v == e.v {
			fail("redundant entry")
		}
	}
	g.clean(c, what)
	return a
}

// codeOf reads the state of a derived table back.
func (g gen[T]) codeOf(c *rt.Ctx, t ip.Table[T], what func() string) int {
	code := 0
	t.Walk(func(p ip.Prefix, v T) bool {
		np := isT(p)
		for i, k := range g.keys {
			if k == np {
				code += g.k.code(v) * g.pow[i]
				return true
			}
		}
		c.Failf("%s: values %s: %s: unknown prefix %s", g.name, g.k.name, what(), np.Str(W))
		return false
	})
	return code
}

func run17[T any](c *rt.Ctx, k *vkind[T]) {
	offs := []int{0, W - 2}
	if c.Thorough {
		offs = []int{0, 7, W/2 - 1, W - 2}
	}
	nv := len(k.vals) - 1
	for _, off := range offs {
		off := off
		parts := 27
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				k.bad = ""
				keys := treeKeys(off, 2, pattern(patAlt))
				if nv > 2 {
					keys = keys[:5] // the right half has no halves of its own
				}
				g := gen[T]{newTuni(fmt.Sprintf("tree at %d", off), keys, nv, false), k}
				ad := g.addresses()
				for m := part; m < g.n; m += parts {
					t0 := g.build(m).Table()
					what := func() string { return "table" }
					g.ops(c, t0, m, what)
					a := g.aggregated(c, t0, m, ad, what)
					ac := g.codeOf(c, a, what)
					// everything works on derived tables too
					g.verify(c, a, ac, func() string { return "aggregate" })
					{
						g.ops(c, a, ac, func() string { return "aggregate" })
					}
					again := g.aggregated(c, a, ac, ad, func() string { return "aggregate" })
					g.diff(c, a, again, ac, ac, func() string { return "aggregate and its aggregate" })
					// map: rotate the values
					mc := 0
					for i := range g.keys {
						if d := g.digit(m, i); d != 0 {
							mc += (d%nv + 1) * g.pow[i]
						}
					}
					mp := t0.Map(func(p ip.Prefix, v T) T { return k.vals[k.code(v)%nv+1] })
					g.verify(c, mp, mc, func() string { return "map" })
					{
						g.ops(c, mp, mc, func() string { return "map" })
					}
					g.diff(c, t0, mp, m, mc, func() string { return "table and map" })
					// build
					b := t0.Build(func(t ip.Table_[T]) bool {
						for i := range g.keys {
							t.InsertOrUpdate(g.args[i][0], k.vals[1])
						}
						return m%2 == 0
					})
					bc := m
					if m%2 == 0 {
						bc = 0
						for i := range g.keys {
							bc += g.pow[i]
						}
					}
					g.verify(c, b, bc, func() string { return "build" })
					g.diff(c, t0, b, m, bc, func() string { return "table and build" })
					g.verify(c, t0, m, what)
					g.clean(c, what)
					c.States++
				}
				c.Traces++
			})
		}
		c.Sample(func() string { return fmt.Sprintf("%s: all tables over 7 prefixes at %d, all operations", k.name, off) })
	}
}

// c17Derived: chains of derivations; the comparison has to survive them all.
func c17Derived(c *rt.Ctx) {
	k := &vkind[[]byte]{name: "[]byte, equal by length", vals: [][]byte{nil, []byte("a"), []byte("b"), []byte("cc")}, make: custom[[]byte],
		class: func(i int) int { return []int{0, 1, 1, 2}[i] },
		code: func(v []byte) int {
			if len(v) == 0 {
				return 0
			}
			return int(v[0]-'a') + 1
		}}
	keys := treeKeys(W-2, 2, pattern(patOnes))[:5]
	g := gen[[]byte]{newTuni("derived", keys, 3, false), k}
	ad := g.addresses()
	// the mapping treats values that compare equal alike
	next := []int{0, 3, 3, 1}
	type step struct {
		name string
		f    func(t ip.Table[[]byte], code int) (ip.Table[[]byte], int)
	}
	steps := []step{
		{"Aggregate", func(t ip.Table[[]byte], code int) (ip.Table[[]byte], int) {
			a := g.aggregated(c, t, code, ad, func() string { return "chain" })
			return a, g.codeOf(c, a, func() string { return "chain" })
		}},
		{"Map", func(t ip.Table[[]byte], code int) (ip.Table[[]byte], int) {
			mc := 0
			for i := range g.keys {
				if d := g.digit(code, i); d != 0 {
					mc += next[d] * g.pow[i]
				}
			}
			return t.Map(func(p ip.Prefix, v []byte) []byte { return k.vals[next[k.code(v)]] }), mc
		}},
		{"Map(nil)", func(t ip.Table[[]byte], code int) (ip.Table[[]byte], int) { return t.Map(nil), code }},
		{"Table_.Table", func(t ip.Table[[]byte], code int) (ip.Table[[]byte], int) { return t.Table_().Table(), code }},
		{"Build true", func(t ip.Table[[]byte], code int) (ip.Table[[]byte], int) {
			return t.Build(func(t ip.Table_[[]byte]) bool {
				t.InsertOrUpdate(g.args[1][0], k.vals[3])
				t.Remove(g.args[2][0])
				return true
			}), g.with(g.with(code, 1, 3), 2, 0)
		}},
		{"Build false", func(t ip.Table[[]byte], code int) (ip.Table[[]byte], int) {
			return t.Build(func(t ip.Table_[[]byte]) bool {
				t.InsertOrUpdate(g.args[1][0], k.vals[2])
				return false
			}), code
		}},
		{"clear and refill", func(t ip.Table[[]byte], code int) (ip.Table[[]byte], int) {
			m := t.Table_()
			for i := range g.keys {
				m.Remove(g.args[i][0])
			}
			m.Insert(g.args[0][0], k.vals[1])
			m.Update(g.args[0][0], k.vals[2])
			return m.Table(), g.with(0, 0, 2)
		}},
	}
	for a := range steps {
		for b := range steps {
			for d := range steps {
				a, b, d := a, b, d
				c.Case(func() {
					k.bad = ""
					for m := 0; m < g.n; m++ {
						t, code := g.build(m).Table(), m
						for _, s := range []int{a, b, d} {
							t, code = steps[s].f(t, code)
						}
						what := func() string {
							return fmt.Sprintf("%s, %s, %s of %s", steps[a].name, steps[b].name, steps[d].name, g.str(m))
						}
						g.verify(c, t, code, what)
						if m%16 == 3 {
							g.ops(c, t, code, what)
						}
						g.clean(c, what)
						c.States++
						c.Trans += 3
					}
					c.Traces++
				})
			}
		}
	}
	// tables that never saw a comparator: the zero value
	c.Case(func() {
		var z ip.Table[int]
		u := newTuni("zero", treeKeys(W-2, 2, pattern(patAlt)), 2, false)
		for m := 0; m < u.n; m++ {
			for _, zt := range []ip.Table[int]{z, z.Aggregate(), z.Map(func(p ip.Prefix, v int) int { return v }), z.Build(func(ip.Table_[int]) bool { return true }),
				z.Aggregate().Map(nil).Table_().Table(), (ip.Table_[int]{}).Table()} {
				t := zt.Table_()
				code := 0
				for i := range u.keys {
					if d := u.digit(m, i); d != 0 {
						code = u.apply(c, t, code, 2, i, 3-d, 0, func() string { return "zero" })
						code = u.apply(c, t, code, 1, i, d, 0, func() string { return "zero" })
					}
				}
				tt := t.Table()
				u.checkWalk(c, tt, m, func() string { return "table made from the zero table" })
				d := &differ{u: u}
				d.run(c, tt, tt.Build(func(t ip.Table_[int]) bool { return true }), m, m, allHandlers, 0, func() string { return "from the zero table" })
				d.run(c, zt, tt, 0, m, allHandlers, 0, func() string { return "zero table and another" })
				d.run(c, tt, zt, m, 0, allHandlers, 0, func() string { return "a table and the zero table" })
				checkC15(c, u, tt, m, nil)
			}
		}
		c.Traces++
	})
}
