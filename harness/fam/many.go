package fam

import (
	"fmt"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/rt"
)

// Many of everything: histories, snapshots, clones, objects and levels of nesting
// in numbers up to some hundreds, and around the powers of two where a count,
// version or level that is kept in 8 or 16 bits comes round again.

func regMany() {
	reg("C09", "many modifications between questions", func(c *rt.Ctx) { manyTables(c, qExact) })
	reg("C10", "many modifications between questions", func(c *rt.Ctx) { manyTables(c, qLongest) })
	reg("C11", "many modifications between questions", func(c *rt.Ctx) { manyTables(c, qWalk) })
	reg("C12", "many modifications between questions", func(c *rt.Ctx) { manyTables(c, qDiff) })
	reg("C14", "many modifications between questions", func(c *rt.Ctx) { manyTables(c, qAggregateLongest) })
	reg("C15", "many modifications between questions", func(c *rt.Ctx) { manyTables(c, qAggregate) })
	reg("C16", "many modifications between questions", func(c *rt.Ctx) { manyTables(c, qMap) })

	reg("C01", "many modifications between questions", func(c *rt.Ctx) { manySets(c, qAlgebra) })
	reg("C02", "many modifications between questions", func(c *rt.Ctx) { manySets(c, qEqual) })
	reg("C03", "many modifications between questions", func(c *rt.Ctx) { manySets(c, qMembers) })
	reg("C04", "many modifications between questions", func(c *rt.Ctx) { manySets(c, qCounts) })
	reg("C05", "many modifications between questions", func(c *rt.Ctx) { manySets(c, qContains) })
	reg("C08", "many modifications between questions", func(c *rt.Ctx) { manySets(c, qAvailable) })

	reg("C18", "many snapshots, clones and objects: tables", manyTableObjects)
	reg("C18", "many snapshots, clones and objects: sets", manySetObjects)
	reg("C31", "hundreds and tens of thousands of levels: tables", nestManyTables)
	reg("C31", "hundreds and tens of thousands of levels: sets", nestManySets)
}

// manyBig are the numbers around the multiples of 2^16 that cycles of three and
// five modifications need to get back to it in one of their kinds.
func manyBig(c *rt.Ctx) []int {
	var out []int
	d := 1
	if c.Thorough {
		d = 5
	}
	for _, k := range []int{1, 3, 5} {
		for n := k<<16 - d; n <= k<<16+d; n++ {
			out = append(out, n)
		}
	}
	return out
}

// between asks all questions, makes n modifications, cycle after cycle, and asks
// one or all questions again, of the object and of what was taken from it at the
// beginning. get and keep give an immutable of an object and an object of that.
func (a *asker[T]) between(c *rt.Ctx, state int, mk maker[T], cycle []spec[T], n, only int, keep func(T) func() T) {
	w := &world[T]{obj: mk.make(state)}
	for i, q := range a.qs {
		if only < 0 || only == i {
			if got, want := q.f(w.obj), a.answers(state)[i]; got != want {
				c.Failf("%s made by %s: %s gives %s, want %s", a.str(state), mk.name, q.name, got, want)
			}
		}
	}
	kept := keep(w.obj)
	s := state
	for i := 0; i < n; i++ {
		m := &cycle[i%len(cycle)]
		next, want := m.model(s)
		if got := m.run(w); got != want {
			c.Failf("%s made by %s, modified %d times in turn by %s: %s gives %d, want %d", a.str(state), mk.name, i, names(cycle), m.name, got, want)
		}
		s = next
	}
	c.Trans += int64(n)
	for _, t := range []struct {
		what string
		obj  T
		s    int
	}{{"", w.obj, s}, {" the snapshot taken before", kept(), state}} {
		// in reverse, so that the last one asked before is the first one again
		for i := len(a.qs) - 1; i >= 0; i-- {
			if q := a.qs[i]; only < 0 || only == i {
				if got, want := q.f(t.obj), a.answers(t.s)[i]; got != want {
					c.Failf("%s made by %s, modified %d times in turn by %s:%s %s gives %s, of a fresh object with the same contents %s", a.str(state), mk.name, n, names(cycle), t.what, q.name, got, want)
				}
			}
		}
	}
}

// effective are the states from which every modification of the cycle does
// something, each time; those with the most contents first.
func (a *asker[T]) effective(n int, cycle []spec[T]) []int {
	var out []int
	for s := n - 1; s >= 0; s-- {
		x := s
		ok := true
		for i := 0; i < 2*len(cycle); i++ {
			next, _ := cycle[i%len(cycle)].model(x)
			ok = ok && next != x
			x = next
		}
		if ok {
			out = append(out, s)
		}
	}
	return out
}

func (a *asker[T]) many(c *rt.Ctx, n int, cycles [][]spec[T], keep func(T) func() T) {
	var eff [][]int
	for _, cy := range cycles {
		eff = append(eff, a.effective(n, cy))
	}
	top := 800
	if c.Thorough {
		top = 1600
	}
	for _, mk := range a.makers {
		for k := range cycles {
			for _, s := range []int{eff[k][0], eff[k][len(eff[k])/2], n - 1} {
				mk, s, cy := mk, s, cycles[k]
				c.Case(func() {
					for n := 1; n <= top; n++ {
						a.between(c, s, mk, cy, n, -1, keep)
					}
					c.States += int64(top)
					c.Traces++
				})
				c.Case(func() {
					for q := range a.qs {
						for j := 4; j < 11; j++ {
							for n := 1<<uint(j) - 2; n <= 1<<uint(j)+2; n++ {
								a.between(c, s, mk, cy, n, q, keep)
							}
						}
					}
					c.Traces++
				})
			}
		}
	}
	for i, n := range manyBig(c) {
		for j := range a.makers[:2] {
			if (i+j)%2 == 1 && !c.Thorough {
				continue
			}
			mk, n, cy := a.makers[j], n, cycles[(i/2+j)%len(cycles)]
			c.Case(func() {
				a.between(c, eff[(i/2+j)%len(cycles)][0], mk, cy, n, -1, keep)
				c.States++
			})
		}
	}
	for q := range a.qs {
		for d := -1; d <= 1; d++ {
			for j := range a.makers[:2] {
				q, n, mk := q, 1<<16+d, a.makers[j]
				c.Case(func() {
					for k, cy := range cycles {
						a.between(c, eff[k][0], mk, cy, n, q, keep)
						if c.Thorough || d == 0 {
							a.between(c, eff[k][len(eff[k])-1], mk, cy, n, q, keep)
						}
					}
					c.States++
				})
			}
		}
	}
	c.Sample(func() string { return names(cycles[0]) + " again and again" })
}

func keepTable(t tw) func() tw {
	s := t.Table()
	return s.Table_
}

func keepSet(s sw) func() sw {
	i := s.Set()
	return i.Set_
}

func manyTables(c *rt.Ctx, qs func(u *tuni) []tq) {
	u := newTuni("tree", treeKeys(W/2-1, 1, pattern(patAlt)), 2, false)
	a := &asker[tw]{str: u.str, makers: u.makers(), qs: qs(u), states: []int{0, u.n - 1}}
	if !c.Thorough {
		a.makers = a.makers[:2]
	}
	cycles := [][]tspec{
		{u.mod(2, 1, 1), u.mod(2, 1, 2), u.mod(4, 1, 0)},
		{u.mod(0, 0, 1), u.mod(1, 0, 2), u.mod(4, 0, 0)},
		{u.mod(0, 2, 2), u.mod(3, 0, 1), u.mod(1, 2, 1), u.mod(4, 0, 0), u.mod(4, 2, 0)},
	}
	a.many(c, u.n, cycles, keepTable)
}

func manySets(c *rt.Ctx, qs func(u *uni) []sq) {
	u := concUni(W/2 - 1)
	a := &asker[sw]{str: func(m int) string { return str(u.want[m]) }, qs: qs(u), makers: u.makers(), states: []int{6, 15}}
	if !c.Thorough {
		a.makers = a.makers[:2]
	}
	put := func(x int) sspec {
		arg := u.sets[x]
		return sspec{"Insert(" + str(u.want[x]) + ")", true, func(m int) (int, int) { return m | x, 0 },
			func(w *world[sw]) int { w.obj.Insert(arg); return 0 }}
	}
	del := func(x int) sspec {
		arg := u.sets[x].Set_()
		return sspec{"Remove(" + str(u.want[x]) + ")", true, func(m int) (int, int) { return m &^ x, 0 },
			func(w *world[sw]) int { w.obj.Remove(arg); return 0 }}
	}
	cycles := [][]sspec{
		{put(1), put(2), del(3)},
		{put(8), put(6), del(12)},
		{del(9), put(1), del(6), put(12), put(2)},
	}
	a.many(c, 16, cycles, keepSet)
}

// manyCounts: every number up to some hundreds, and those around 2^16.
func manyCounts(c *rt.Ctx) []int {
	var out []int
	top := 520
	if c.Thorough {
		top = 1100
	}
	for n := 1; n <= top; n++ {
		out = append(out, n)
	}
	for d := -1; d <= 2; d++ {
		out = append(out, 1<<16+d)
	}
	if c.Thorough {
		out = append(out, 1<<17-1, 1<<17, 1<<17+1)
	}
	return out
}

type manyKind[M, I any] struct {
	frozen func(M) I
	thaw   func(I) M
	build  func(I, func(M) bool) I
	change func(M, int) // makes an object of state 0 one of state i, in one modification
	make   func(i int) M
	text   func(I) string
	states int
}

func (k *manyKind[M, I]) run(c *rt.Ctx) {
	var want []string
	var ims []I
	for i := 0; i < k.states; i++ {
		ims = append(ims, k.frozen(k.make(i)))
		want = append(want, k.text(ims[i]))
	}
	is := func(x I, i int, what string, n, at int) {
		if got := k.text(x); got != want[i] {
			c.Failf("%s (%d of them, number %d): %s, want %s", what, n, at, got, want[i])
		}
		c.Trans++
	}
	for _, n := range manyCounts(c) {
		n := n
		c.Case(func() {
			at := []int{0, n / 2, n - 1}
			// snapshots of one mutable, then a modification
			for _, mk := range []func() M{func() M { return k.make(0) }, func() M { return k.thaw(ims[0]) }} {
				m := mk()
				var kept []I
				for i := 0; i < n; i++ {
					kept = append(kept, k.frozen(m))
				}
				k.change(m, 1)
				for i, s := range kept {
					is(s, 0, "snapshots of a mutable that is modified then", n, i)
				}
				is(k.frozen(m), 1, "the mutable after so many snapshots", n, n)
			}
			// clones of one immutable, some modified
			kept := make([]M, n)
			for i := range kept {
				kept[i] = k.thaw(ims[0])
			}
			for j, x := range at {
				if j == 0 || x != at[j-1] {
					k.change(kept[x], 1)
				}
			}
			for i, m := range kept {
				s := 0
				if i == at[0] || i == at[1] || i == at[2] {
					s = 1
				}
				is(k.frozen(m), s, "mutable clones, three modified", n, i)
			}
			is(ims[0], 0, "an immutable with mutable clones", n, n)
			// a chain of clones, each taken from the one before and modified
			m := k.make(0)
			var chain []M
			for i := 0; i < n; i++ {
				chain = append(chain, m)
				m = k.thaw(k.frozen(m))
				if i%2 == 0 {
					k.change(chain[i], 1)
				}
			}
			for i, m := range chain {
				is(k.frozen(m), (i+1)%2, "clones of clones, every second modified later", n, i)
			}
			// objects of their own
			for i := range kept {
				kept[i] = k.make(i % k.states)
			}
			for i, m := range kept {
				is(k.frozen(m), i%k.states, "mutables", n, i)
			}
			// builds of one immutable
			var built []I
			for i := 0; i < n; i++ {
				built = append(built, k.build(ims[0], func(m M) bool {
					k.change(m, i%k.states)
					return i%3 != 2
				}))
			}
			for i, s := range built {
				st := i % k.states
				if i%3 == 2 {
					st = 0
				}
				is(s, st, "Build of one immutable", n, i)
			}
			is(ims[0], 0, "an immutable with builds", n, n)
			c.States += int64(n)
			c.Traces++
		})
	}
	c.Sample(func() string {
		return fmt.Sprint("n snapshots, clones, clones of clones, objects, builds of ", want[0])
	})
}

func manyTableObjects(c *rt.Ctx) {
	keys := treeKeys(W/2-1, 1, pattern(patAlt))
	k := &manyKind[ip.Table_[int], ip.Table[int]]{
		frozen: func(t ip.Table_[int]) ip.Table[int] { return t.Table() },
		thaw:   func(t ip.Table[int]) ip.Table_[int] { return t.Table_() },
		build:  func(t ip.Table[int], f func(ip.Table_[int]) bool) ip.Table[int] { return t.Build(f) },
		change: func(t ip.Table_[int], i int) {
			if i != 0 {
				t.InsertOrUpdate(mkP(keys[1]), i)
			}
		},
		text: func(t ip.Table[int]) string {
			s := ""
			t.Walk(func(p ip.Prefix, v int) bool {
				s += string(rune('a'+p.Length()-W/2+1)) + string(rune('0'+v))
				return true
			})
			return s + string(rune('0'+int(t.NumEntries())))
		},
		states: 4,
	}
	k.make = func(i int) ip.Table_[int] {
		t := ip.NewTable_[int]()
		t.Insert(mkP(keys[0]), 7)
		t.Insert(mkP(keys[1]), 8)
		t.Insert(mkP(keys[2]), 9)
		k.change(t, i)
		return t
	}
	k.run(c)
}

func manySetObjects(c *rt.Ctx) {
	u := concUni(W/2 - 1)
	k := &manyKind[ip.Set_, ip.Set]{
		frozen: func(s ip.Set_) ip.Set { return s.Set() },
		thaw:   func(s ip.Set) ip.Set_ { return s.Set_() },
		build:  func(s ip.Set, f func(ip.Set_) bool) ip.Set { return s.Build(f) },
		change: func(s ip.Set_, i int) {
			switch i {
			case 1:
				s.Insert(u.sets[1])
			case 2:
				s.Remove(u.sets[4])
			case 3:
				s.Insert(u.sets[9])
			}
		},
		text:   func(s ip.Set) string { return string(rune('a' + u.maskOf(s))) },
		states: 4,
	}
	k.make = func(i int) ip.Set_ {
		s := ip.NewSet_()
		s.Insert(u.sets[6])
		k.change(s, i)
		return s
	}
	k.run(c)
}

// nested runs f within itself to the given number of levels, at the first call of
// the caller's code on each, and compares what it gives on each with want.
func nested(c *rt.Ctx, levels int, want string, f func(in func(string)) string, what func() string) {
	level := 0
	var in func(string)
	in = func(string) {
		if level == levels {
			return
		}
		level++
		n := level
		inside := true // only the first call of each level goes deeper
		got := f(func(w string) {
			if inside {
				inside = false
				in(w)
			}
		})
		if got != want {
			c.Failf("%s: level %d of %d gives %s, alone %s", what(), n, levels, got, want)
		}
		c.Trans++
	}
	in("")
	c.States += int64(level)
}

func nestManyTables(c *rt.Ctx) {
	u := newTuni("tree", treeKeys(W/2-1, 1, pattern(patAlt)), 2, false)
	trs := tableTraces(u)
	for m := 1; m < u.n; m += 4 {
		m := m
		for i := range trs {
			tr := trs[i]
			c.Case(func() {
				t, o := u.table(m), u.table((m*7+5)%u.n)
				want := tr.f(t, o, nil)
				what := func() string { return fmt.Sprintf("%s of %s inside itself", tr.name, u.str(m)) }
				nested(c, 300, want, func(in func(string)) string { return tr.f(t, o, in) }, what)
				if m == 1 || c.Thorough {
					nested(c, 1<<16+3, want, func(in func(string)) string { return tr.f(t, o, in) }, what)
				}
				c.Traces++
			})
		}
	}
	// comparisons within comparisons
	nu := &nestUni{tuni: u}
	nu.all()
	for i := range trs {
		tr := trs[i]
		c.Case(func() {
			m := u.n - 1
			t, o := nu.tab[m], nu.tab[(m*7+5)%u.n]
			nu.in = nil
			want := tr.f(t, o, nil)
			for _, levels := range []int{300, 1<<16 + 3} {
				nested(c, levels, want, func(in func(string)) string {
					// the hook of the level outside is put back when this one is done
					outer := nu.in
					nu.in = in
					defer func() { nu.in = outer }()
					return tr.f(t, o, nil)
				}, func() string { return tr.name + " inside its own comparisons" })
			}
			c.Traces++
		})
	}
	c.Sample(func() string { return "Walk in a callback of Walk in a callback of Walk ..." })
}

func nestManySets(c *rt.Ctx) {
	u := concUni(W/2 - 1)
	trs := setTraces(u)
	for m := 1; m < 16; m += 2 {
		m := m
		for i := range trs {
			tr := trs[i]
			c.Case(func() {
				s, o := u.sets[m], u.sets[(m*7+5)&15]
				want := tr.f(s, o, nil)
				what := func() string { return fmt.Sprintf("%s of %s inside itself", tr.name, str(u.want[m])) }
				nested(c, 300, want, func(in func(string)) string { return tr.f(s, o, in) }, what)
				if m == 1 || c.Thorough {
					nested(c, 1<<16+3, want, func(in func(string)) string { return tr.f(s, o, in) }, what)
				}
				c.Traces++
			})
		}
	}
	c.Sample(func() string { return "WalkPrefixes in a callback of WalkPrefixes ..." })
}
