package fam

import (
	"fmt"
	"strings"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

func regImmut() {
	reg("C18", "histories of several live sets", c18Sets)
	reg("C18", "histories of several live tables", c18Tables)
	reg("C18", "every set operation leaves every operand alone", c18SetOperands)
	reg("C18", "every table operation leaves every snapshot alone", c18TableOperands)
	reg("C18", "modifications from inside callbacks", c18Callbacks)
	reg("C18", "build", c18Build)

	reg("C21", "sets", c21Sets)
	reg("C21", "tables", c21Tables)
	reg("C21", "nil arguments", c21Nil)
}

// ---- C18: several live values

type setSnap struct {
	s ip.Set
	m int
}

type setWorld struct {
	u     *uni
	s     [2]ip.Set
	sm    [2]int
	m     [2]ip.Set_
	cell  [2]int
	cells []int
	hist  []setSnap
}

func (w *setWorld) freeze(j int, s ip.Set, m int) {
	w.s[j], w.sm[j] = s, m
	w.hist = append(w.hist, setSnap{s, m})
}

func newSetWorld(u *uni) *setWorld {
	w := &setWorld{u: u, cells: []int{6, 1}}
	w.freeze(0, setOf(u.want[7]), 7)
	w.freeze(1, setOf(u.want[12]), 12)
	w.m[0] = setOf(u.want[6]).Set_()
	w.m[1] = setOf(u.want[1]).Set_()
	w.cell = [2]int{0, 1}
	return w
}

func (w *setWorld) check(c *rt.Ctx, all bool, what func() string) {
	for i := range w.m {
		want := w.cells[w.cell[i]]
		if !sameSet(w.m[i].Set(), w.u.want[want]) {
			c.Failf("%s: mutable %d is %s, want %s", what(), i, str(walkSet(w.m[i].Set())), str(w.u.want[want]))
		}
	}
	h := w.hist
	if !all && len(h) > 2 {
		h = h[len(h)-2:]
	}
	for i, s := range h {
		if !sameSet(s.s, w.u.want[s.m]) {
			c.Failf("%s: immutable number %d is %s, was %s", what(), i+len(w.hist)-len(h), str(walkSet(s.s)), str(w.u.want[s.m]))
		}
		if all && s.s.IsEmpty() != (s.m == 0) {
			c.Failf("%s: immutable number %d says IsEmpty %v, was %s", what(), i, s.s.IsEmpty(), str(w.u.want[s.m]))
		}
	}
}

type setOp struct {
	name string
	f    func(w *setWorld)
}

func setOpsList() []setOp {
	var ops []setOp
	add := func(name string, f func(w *setWorld)) { ops = append(ops, setOp{name, f}) }
	for i := 0; i < 2; i++ {
		i := i
		for _, a := range []struct {
			name string
			arg  func(w *setWorld) (ip.SetI, int)
		}{
			{"block 1", func(w *setWorld) (ip.SetI, int) { return mkP(w.u.atoms[1]), 2 }},
			{"the other half", func(w *setWorld) (ip.SetI, int) { return w.u.sets[12], 12 }},
			{"S0", func(w *setWorld) (ip.SetI, int) { return w.s[0], w.sm[0] }},
			{"the other mutable", func(w *setWorld) (ip.SetI, int) { return w.m[1-i], w.cells[w.cell[1-i]] }},
		} {
			a := a
			add(fmt.Sprintf("M%d.Insert(%s)", i, a.name), func(w *setWorld) {
				x, m := a.arg(w)
				w.m[i].Insert(x)
				w.cells[w.cell[i]] |= m
			})
			add(fmt.Sprintf("M%d.Remove(%s)", i, a.name), func(w *setWorld) {
				x, m := a.arg(w)
				w.m[i].Remove(x)
				w.cells[w.cell[i]] &^= m
			})
		}
		add(fmt.Sprintf("S%d = M%d.Set()", i, i), func(w *setWorld) { w.freeze(i, w.m[i].Set(), w.cells[w.cell[i]]) })
		add(fmt.Sprintf("S0 = M%d.Set()", i), func(w *setWorld) { w.freeze(0, w.m[i].Set(), w.cells[w.cell[i]]) })
		add(fmt.Sprintf("M%d = S%d.Set_()", i, 1-i), func(w *setWorld) {
			w.m[i] = w.s[1-i].Set_()
			w.cells = append(w.cells, w.sm[1-i])
			w.cell[i] = len(w.cells) - 1
		})
		add(fmt.Sprintf("M%d = S0.Set_()", i), func(w *setWorld) {
			w.m[i] = w.s[0].Set_()
			w.cells = append(w.cells, w.sm[0])
			w.cell[i] = len(w.cells) - 1
		})
		add(fmt.Sprintf("M%d = M%d", i, 1-i), func(w *setWorld) { w.m[i], w.cell[i] = w.m[1-i], w.cell[1-i] })
	}
	add("S0 = S0.Union(S1)", func(w *setWorld) { w.freeze(0, w.s[0].Union(w.s[1]), w.sm[0]|w.sm[1]) })
	add("S1 = S0.Intersection(S1)", func(w *setWorld) { w.freeze(1, w.s[0].Intersection(w.s[1]), w.sm[0]&w.sm[1]) })
	add("S1 = S0.Difference(S1)", func(w *setWorld) { w.freeze(1, w.s[0].Difference(w.s[1]), w.sm[0]&^w.sm[1]) })
	add("S0 = M0.Union(M1)", func(w *setWorld) {
		w.freeze(0, w.m[0].Union(w.m[1]), w.cells[w.cell[0]]|w.cells[w.cell[1]])
	})
	add("S1 = S0.Build(insert block 3, remove block 0, true)", func(w *setWorld) {
		w.freeze(1, w.s[0].Build(func(b ip.Set_) bool {
			b.Insert(mkP(w.u.atoms[3]))
			b.Remove(mkP(w.u.atoms[0]))
			return true
		}), (w.sm[0]|8)&^1)
	})
	add("S0 = S1.Build(M0 = builder, remove block 2, false)", func(w *setWorld) {
		w.freeze(0, w.s[1].Build(func(b ip.Set_) bool {
			b.Remove(mkP(w.u.atoms[2]))
			w.m[0] = b
			w.cells = append(w.cells, w.sm[1]&^4)
			w.cell[0] = len(w.cells) - 1
			return false
		}), w.sm[1])
	})
	add("S1 = S1.Build(M1 = builder, insert block 2, true)", func(w *setWorld) {
		w.freeze(1, w.s[1].Build(func(b ip.Set_) bool {
			b.Insert(mkP(w.u.atoms[2]))
			w.m[1] = b
			w.cells = append(w.cells, w.sm[1]|4)
			w.cell[1] = len(w.cells) - 1
			return true
		}), w.sm[1]|4)
	})
	return ops
}

// sequences runs f for every sequence of n operations of the given depth whose
// first two are this worker's.
func sequences(c *rt.Ctx, n, depth int, f func(path []int)) {
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			a, b := a, b
			c.Case(func() {
				path := make([]int, depth)
				path[0], path[1] = a, b
				total := 1
				for i := 2; i < depth; i++ {
					total *= n
				}
				for x := 0; x < total; x++ {
					y := x
					for i := 2; i < depth; i++ {
						path[i] = y % n
						y /= n
					}
					f(path)
					c.States++
					c.Trans += int64(depth)
				}
				c.Traces++
			})
		}
	}
}

func c18Sets(c *rt.Ctx) {
	ops := setOpsList()
	offs := []int{W - 2}
	depth := 4
	if c.Thorough {
		offs = []int{W - 2, 0}
		depth = 5
	}
	for _, off := range offs {
		u := newUni(off, 2, pattern(patAlt))
		c.Guard(u.prepare)
		sequences(c, len(ops), depth, func(path []int) {
			w := newSetWorld(u)
			for n, o := range path {
				what := func() string {
					var b strings.Builder
					for _, o := range path[:n+1] {
						b.WriteString(ops[o].name + "; ")
					}
					return b.String()
				}
				ops[o].f(w)
				w.check(c, n == len(path)-1, what)
			}
		})
		c.Sample(func() string {
			return fmt.Sprintf("%d^%d histories of %d operations, e.g. %s; %s; %s", len(ops), depth, len(ops), ops[2].name, ops[9].name, ops[len(ops)-2].name)
		})
	}
}

// tables

type tabSnap struct {
	t ip.Table[int]
	m int
}

type tabWorld struct {
	u     *tuni
	t     [2]ip.Table[int]
	tm    [2]int
	m     [2]ip.Table_[int]
	cell  [2]int
	cells []int
	hist  []tabSnap
}

func (w *tabWorld) freeze(j int, t ip.Table[int], m int) {
	w.t[j], w.tm[j] = t, m
	w.hist = append(w.hist, tabSnap{t, m})
}

func (w *tabWorld) newCell(i int, t ip.Table_[int], m int) {
	w.m[i] = t
	w.cells = append(w.cells, m)
	w.cell[i] = len(w.cells) - 1
}

func newTabWorld(u *tuni) *tabWorld {
	w := &tabWorld{u: u}
	a, b := 0, 0
	for i := range u.keys {
		a = u.with(a, i, 1+i%2)
	}
	b = u.with(b, len(u.keys)-1, 1)
	w.freeze(0, u.table(a), a)
	w.freeze(1, u.table(b), b)
	w.newCell(0, u.table(a).Table_(), a)
	w.newCell(1, u.table(b).Table_(), b)
	return w
}

func (w *tabWorld) check(c *rt.Ctx, all bool, what func() string) {
	for i := range w.m {
		w.u.checkReads(c, w.m[i], w.cells[w.cell[i]], 0, func() string { return fmt.Sprintf("%s: mutable %d", what(), i) })
	}
	h := w.hist
	if !all && len(h) > 2 {
		h = h[len(h)-2:]
	}
	for i, s := range h {
		w.u.checkWalk(c, s.t, s.m, func() string { return fmt.Sprintf("%s: immutable number %d", what(), i+len(w.hist)-len(h)) })
		if all {
			w.u.checkReads(c, s.t, s.m, 0, func() string { return fmt.Sprintf("%s: immutable number %d", what(), i) })
		}
	}
}

type tabOp struct {
	name string
	f    func(c *rt.Ctx, w *tabWorld)
}

// aggregate model by reading back, as only detachment matters here
func readBack(c *rt.Ctx, u *tuni, t ip.Table[int]) int {
	code := 0
	t.Walk(func(p ip.Prefix, v int) bool {
		np := isT(p)
		for i, k := range u.keys {
			if k == np {
				code = u.with(code, i, v)
			}
		}
		return true
	})
	return code
}

func tabOpsList(u *tuni) []tabOp {
	var ops []tabOp
	add := func(name string, f func(c *rt.Ctx, w *tabWorld)) { ops = append(ops, tabOp{name, f}) }
	none := func() string { return "" }
	for i := 0; i < 2; i++ {
		i := i
		for k := range u.keys {
			k := k
			add(fmt.Sprintf("M%d.InsertOrUpdate(%s, 2)", i, u.keys[k].Str(W)), func(c *rt.Ctx, w *tabWorld) {
				w.cells[w.cell[i]] = u.apply(c, w.m[i], w.cells[w.cell[i]], 2, k, 2, 0, none)
			})
			add(fmt.Sprintf("M%d.Remove(%s)", i, u.keys[k].Str(W)), func(c *rt.Ctx, w *tabWorld) {
				w.cells[w.cell[i]] = u.apply(c, w.m[i], w.cells[w.cell[i]], 4, k, 1, 0, none)
			})
		}
		add(fmt.Sprintf("M%d.Insert(%s, 1)", i, u.keys[1].Str(W)), func(c *rt.Ctx, w *tabWorld) {
			w.cells[w.cell[i]] = u.apply(c, w.m[i], w.cells[w.cell[i]], 0, 1, 1, 0, none)
		})
		add(fmt.Sprintf("M%d.GetOrInsert(%s, 1)", i, u.keys[0].Str(W)), func(c *rt.Ctx, w *tabWorld) {
			w.cells[w.cell[i]] = u.apply(c, w.m[i], w.cells[w.cell[i]], 3, 0, 1, 0, none)
		})
		add(fmt.Sprintf("M%d.Update(%s, 1)", i, u.keys[0].Str(W)), func(c *rt.Ctx, w *tabWorld) {
			w.cells[w.cell[i]] = u.apply(c, w.m[i], w.cells[w.cell[i]], 1, 0, 1, 0, none)
		})
		add(fmt.Sprintf("T%d = M%d.Table()", i, i), func(c *rt.Ctx, w *tabWorld) { w.freeze(i, w.m[i].Table(), w.cells[w.cell[i]]) })
		add(fmt.Sprintf("M%d = T%d.Table_()", i, 1-i), func(c *rt.Ctx, w *tabWorld) { w.newCell(i, w.t[1-i].Table_(), w.tm[1-i]) })
		add(fmt.Sprintf("M%d = T0.Table_()", i), func(c *rt.Ctx, w *tabWorld) { w.newCell(i, w.t[0].Table_(), w.tm[0]) })
		add(fmt.Sprintf("M%d = M%d", i, 1-i), func(c *rt.Ctx, w *tabWorld) { w.m[i], w.cell[i] = w.m[1-i], w.cell[1-i] })
	}
	add("T1 = T0.Aggregate()", func(c *rt.Ctx, w *tabWorld) {
		a := w.t[0].Aggregate()
		w.freeze(1, a, readBack(c, w.u, a))
	})
	add("T0 = T1.Map(swap)", func(c *rt.Ctx, w *tabWorld) {
		m := 0
		for i := range w.u.keys {
			if d := w.u.digit(w.tm[1], i); d != 0 {
				m = w.u.with(m, i, 3-d)
			}
		}
		w.freeze(0, w.t[1].Map(func(p ip.Prefix, v int) int { return 3 - v }), m)
	})
	add("T1 = T0.Build(M1 = builder, update, true)", func(c *rt.Ctx, w *tabWorld) {
		var m int
		t := w.t[0].Build(func(b ip.Table_[int]) bool {
			b.InsertOrUpdate(w.u.args[1][0], 2)
			m = w.u.with(w.tm[0], 1, 2)
			w.newCell(1, b, m)
			return true
		})
		w.freeze(1, t, m)
	})
	add("T0 = T0.Build(M0 = builder, remove, false)", func(c *rt.Ctx, w *tabWorld) {
		t := w.t[0].Build(func(b ip.Table_[int]) bool {
			b.Remove(w.u.args[0][0])
			w.newCell(0, b, w.u.with(w.tm[0], 0, 0))
			return false
		})
		w.freeze(0, t, w.tm[0])
	})
	return ops
}

func c18Tables(c *rt.Ctx) {
	base := pattern(patAlt)
	flip := func(i int) ref.U { return base.Xor(ref.BitAt(W, i)) }
	us := []*tuni{
		newTuni("nested", []ref.P{{A: base, Len: 8}, {A: base, Len: 9}, {A: flip(8), Len: 9}}, 2, false),
	}
	depth := 4
	if c.Thorough {
		us = append(us, newTuni("disjoint", []ref.P{{A: base, Len: W}, {A: flip(W - 1), Len: W}, {A: flip(3), Len: W}}, 2, false))
	}
	for _, u := range us {
		u := u
		ops := tabOpsList(u)
		sequences(c, len(ops), depth, func(path []int) {
			w := newTabWorld(u)
			for n, o := range path {
				what := func() string {
					var b strings.Builder
					for _, o := range path[:n+1] {
						b.WriteString(ops[o].name + "; ")
					}
					return b.String()
				}
				ops[o].f(c, w)
				w.check(c, n == len(path)-1, what)
			}
		})
		c.Sample(func() string {
			return fmt.Sprintf("%d^%d histories, e.g. %s; %s; %s", len(ops), depth, ops[3].name, ops[9].name, ops[len(ops)-2].name)
		})
	}
}

// c18SetOperands: all pairs of sets over 8 blocks, all operations, on
// immutables, mutables made from them and snapshots taken before.
func c18SetOperands(c *rt.Ctx) {
	offs := []int{0, W - 3}
	if c.Thorough {
		offs = keyOffsets(3)
	}
	universes(c, 3, []int{patAlt}, offs, func(u *uni) {
		if !c.WantBlock(256) {
			c.Skip(256)
			return
		}
		c.Guard(u.prepare)
		for a := 0; a < 256; a++ {
			a := a
			c.Case(func() {
				for b := 0; b < 256; b++ {
					A, B := u.sets[a], u.sets[b]
					what := func(op string) func() string {
						return func() string { return fmt.Sprintf("%v: %s %s %s", u, str(u.want[a]), op, str(u.want[b])) }
					}
					un, in, di := A.Union(B), A.Intersection(B), A.Difference(B)
					m1, m2 := A.Set_(), A.Set_()
					before := m1.Set()
					m1.Insert(B)
					mid := m1.Set()
					m1.Remove(A)
					after := m1.Set()
					m2.Remove(B)
					bm := B.Set_()
					bm.Insert(A)
					bm.Remove(un)
					checkSet(c, A, u.want[a], what("left operand changed by operations with"))
					checkSet(c, B, u.want[b], what("right operand changed by operations with"))
					checkSet(c, un, u.want[a|b], what("union changed later"))
					checkSet(c, in, u.want[a&b], what("intersection changed later"))
					checkSet(c, di, u.want[a&^b], what("difference changed later"))
					checkSet(c, before, u.want[a], what("snapshot before insert"))
					checkSet(c, mid, u.want[a|b], what("snapshot after insert"))
					checkSet(c, after, u.want[b&^a], what("snapshot after remove"))
					checkSet(c, m2.Set(), u.want[a&^b], what("other mutable"))
					checkSet(c, bm.Set(), nil, what("emptied mutable"))
					c.Trans += 10
				}
				c.States++
				c.Traces++
			})
		}
		c.Sample(func() string { return fmt.Sprintf("%v: all pairs, 10 live values each", u) })
	})
}

func c18TableOperands(c *rt.Ctx) {
	offs := []int{0, W/2 - 1, W - 2}
	if c.Thorough {
		offs = keyOffsets(2)
	}
	for _, off := range offs {
		off := off
		for part := 0; part < 81; part++ {
			part := part
			c.Case(func() {
				u := newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, pattern(patAlt)), 2, false)
				for m := part; m < u.n; m += 81 {
					t0 := u.table(m)
					// one mutable that goes on changing while snapshots pile up
					mt := t0.Table_()
					code := m
					type snap struct {
						t ip.Table[int]
						m int
					}
					var snaps []snap
					n := 0
					u.eachOp(func(op, i, v int) {
						none := func() string { return u.opStr(op, i, v) }
						one := t0.Table_()
						next := u.apply(c, one, m, op, i, v, 0, none)
						code = u.apply(c, mt, code, op, i, v, 0, none)
						snaps = append(snaps, snap{one.Table(), next}, snap{mt.Table(), code})
						u.checkWalk(c, t0, m, func() string { return "table after " + u.opStr(op, i, v) + " on a mutable made from it" })
						n++
						c.Trans += 2
					})
					agg := t0.Aggregate()
					t0.Map(func(p ip.Prefix, v int) int { return v + 1 })
					agg.Map(func(p ip.Prefix, v int) int { return v + 1 })
					agg.Aggregate()
					u.checkReads(c, t0, m, 0, func() string { return u.name + ": table in the end" })
					u.checkWalk(c, t0, m, func() string { return u.name + ": table in the end" })
					for i, s := range snaps {
						u.checkWalk(c, s.t, s.m, func() string { return fmt.Sprintf("%s: snapshot %d of those from %s", u.name, i, u.str(m)) })
						if s.t.NumEntries() != u.size(s.m) {
							c.Failf("%s: snapshot %d of those from %s says %d entries", u.name, i, u.str(m), s.t.NumEntries())
						}
					}
					c.States++
				}
				c.Traces++
			})
		}
	}
}

// c18Callbacks modifies everything in reach from inside walks, diffs, maps and
// builds.
func c18Callbacks(c *rt.Ctx) {
	for _, off := range []int{0, W - 2} {
		off := off
		for part := 0; part < 81; part++ {
			part := part
			c.Case(func() {
				u := newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, pattern(patAlt)), 2, false)
				for m := part; m < u.n; m += 81 {
					for mode := 0; mode < 3; mode++ {
						src := ip.NewTable_[int]()
						for i := range u.keys {
							if d := u.digit(m, i); d != 0 {
								src.Insert(u.stored[i], d)
							}
						}
						t := src.Table()
						code := m
						n := 0
						mess := func() {
							// modify the mutable that the walked snapshot came from
							i := n % len(u.keys)
							n++
							switch mode {
							case 0:
								src.Remove(u.args[i][0])
								code = u.with(code, i, 0)
							case 1:
								src.InsertOrUpdate(u.args[i][0], 2)
								code = u.with(code, i, 2)
							case 2:
								for j := range u.keys {
									src.Remove(u.args[j][0])
								}
								src.InsertOrUpdate(u.args[i][0], 1)
								code = u.with(0, i, 1)
							}
						}
						what := func(s string) func() string {
							return func() string {
								return fmt.Sprintf("%s: %s of %s with modifications (%d) of its source inside", u.name, s, u.str(m), mode)
							}
						}
						// walk
						seen := 0
						t.Walk(func(p ip.Prefix, v int) bool {
							i := u.index(isT(p))
							if i < 0 || u.digit(m, i) != v {
								c.Failf("%s: visits %s:%d", what("walk")(), up(p).Str(W), v)
							}
							seen++
							mess()
							return true
						})
						if int64(seen) != u.size(m) {
							c.Failf("%s: %d calls", what("walk")(), seen)
						}
						// diff against the now changed source, changing it further
						lc, rc := m, code
						events := 0
						h := func(p ip.Prefix, v int) bool { events++; mess(); return true }
						t.Diff(src.Table(), func(p ip.Prefix, l, r int) bool { return h(p, l) }, h, h, h)
						if want := len(u.expected(lc, rc, allHandlers, nil)); events != want {
							c.Failf("%s: %d calls, want %d", what("diff")(), events, want)
						}
						// map
						mp := t.Map(func(p ip.Prefix, v int) int { mess(); return 3 - v })
						mc := 0
						for i := range u.keys {
							if d := u.digit(m, i); d != 0 {
								mc = u.with(mc, i, 3-d)
							}
						}
						u.checkWalk(c, mp, mc, what("map"))
						// build
						mess()
						bl := t.Build(func(b ip.Table_[int]) bool {
							mess()
							b.InsertOrUpdate(u.args[0][0], 2)
							mess()
							return true
						})
						u.checkWalk(c, bl, u.with(m, 0, 2), what("build"))
						u.checkWalk(c, t, m, what("the table itself"))
						u.checkReads(c, src, code, 0, what("the source"))
						c.Trans += 4
					}
					c.States++
				}
				c.Traces++
			})
		}
		// sets
		for part := 0; part < 16; part++ {
			part := part
			c.Case(func() {
				u := newUni(off, 2, pattern(patAlt))
				u.prepare()
				for m := part; m < 16; m += 16 {
					for x := 0; x < 16; x++ {
						for op := 0; op < 2; op++ {
							src := u.sets[m].Set_()
							s := src.Set()
							code := m
							mess := func() {
								if op == 0 {
									src.Insert(u.sets[x])
									code |= x
								} else {
									src.Remove(u.sets[x])
									code &^= x
								}
							}
							what := func(s string) func() string {
								return func() string {
									return fmt.Sprintf("%v: %s of %s changing its source by %s (%d)", u, s, str(u.want[m]), str(u.want[x]), op)
								}
							}
							var got []ref.P
							s.WalkPrefixes(func(p ip.Prefix) bool { got = append(got, up(p)); mess(); return true })
							if str(got) != str(u.want[m]) {
								c.Failf("%s: %s", what("prefix walk")(), str(got))
							}
							var ivs []ref.Iv
							s.WalkRanges(func(r ip.Range) bool { ivs = append(ivs, ur(r)); mess(); return true })
							if !ref.Norm(ivs).Equal(u.ref[m]) {
								c.Failf("%s", what("range walk")())
							}
							bl := s.Build(func(b ip.Set_) bool { mess(); b.Insert(u.sets[x]); mess(); return true })
							checkSet(c, bl, u.want[m|x], what("build"))
							mess()
							checkSet(c, s, u.want[m], what("the set itself"))
							checkSet(c, src.Set(), u.want[code], what("the source"))
							c.Trans += 4
						}
					}
					c.States++
				}
				c.Traces++
			})
		}
	}
}

func (u *tuni) index(p ref.P) int {
	for i, k := range u.keys {
		if k == p {
			return i
		}
	}
	return -1
}

// c18Build: every modification inside a build, with both results, and a panic
// in the callback.
func c18Build(c *rt.Ctx) {
	for _, off := range []int{0, W - 2} {
		off := off
		for part := 0; part < 27; part++ {
			part := part
			c.Case(func() {
				u := newTuni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, pattern(patOnes)), 2, off == 0)
				for m := part; m < u.n; m += 27 {
					t := u.table(m)
					u.eachOp(func(op, i, v int) {
						for r := 0; r < 3; r++ {
							what := func() string {
								return fmt.Sprintf("%s: build %s of %s, result %d", u.name, u.opStr(op, i, v), u.str(m), r)
							}
							var kept ip.Table_[int]
							next := m
							var b ip.Table[int]
							panicked := true
							func() {
								if r == 2 {
									defer func() { recover() }()
								}
								b = t.Build(func(t ip.Table_[int]) bool {
									u.checkReads(c, t, m, 0, what)
									next = u.apply(c, t, m, op, i, v, 0, what)
									kept = t
									if r == 2 {
										panic("in the callback")
									}
									return r == 1
								})
								panicked = false
							}()
							if panicked != (r == 2) {
								c.Failf("%s: panicked %v", what(), panicked)
							}
							u.checkWalk(c, t, m, what)
							switch r {
							case 0:
								u.checkWalk(c, b, m, what)
							case 1:
								u.checkWalk(c, b, next, what)
							}
							// the builder stays usable and detached
							u.checkReads(c, kept, next, 0, what)
							kept.InsertOrUpdate(u.args[0][0], 2)
							kept.Remove(u.args[1][0])
							u.checkWalk(c, t, m, what)
							if r == 1 {
								u.checkWalk(c, b, next, what)
							}
							c.Trans++
						}
					})
					c.States++
				}
				c.Traces++
			})
		}
		for a := 0; a < 256; a++ {
			a := a
			c.Case(func() {
				u := newUni(off*(W-3)/(W-2), 3, pattern(patOnes))
				if a == 0 {
					c.Note("set_build_universes", 1)
				}
				A := setOf(ref.FromPrefixes(W, atomSet(u, a)).Prefixes(W))
				wa := ref.FromPrefixes(W, atomSet(u, a)).Prefixes(W)
				for b := 0; b < 256; b += 3 {
					wb := ref.FromPrefixes(W, atomSet(u, b)).Prefixes(W)
					B := setOf(wb)
					for r := 0; r < 2; r++ {
						for op := 0; op < 2; op++ {
							what := func() string {
								return fmt.Sprintf("build from %s with %s, operation %d, result %d", str(wa), str(wb), op, r)
							}
							var kept ip.Set_
							m := a | b
							out := A.Build(func(s ip.Set_) bool {
								kept = s
								if op == 0 {
									s.Insert(B)
								} else {
									s.Remove(B)
								}
								return r == 1
							})
							if op == 1 {
								m = a &^ b
							}
							wm := ref.FromPrefixes(W, atomSet(u, m)).Prefixes(W)
							kept.Insert(mkP(u.atoms[2]))
							kept.Remove(mkP(u.atoms[5]))
							checkSet(c, A, wa, what)
							if r == 1 {
								checkSet(c, out, wm, what)
							} else {
								checkSet(c, out, wa, what)
							}
							c.Trans++
						}
					}
				}
				c.States++
				c.Traces++
			})
		}
	}
}

// ---- C21

func mustPanic(c *rt.Ctx, what string, f func()) {
	defer func() {
		if recover() == nil {
			c.Failf("%s does not panic", what)
		}
	}()
	f()
}

// outcome runs f and gives its result as text.
func outcome(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	return f()
}

type setReader struct {
	name string
	f    func(s ip.Set, arg ip.SetI) string
}

func setReaders() []setReader {
	sh := func(s ip.Set) string { return str(walkSet(s)) }
	return []setReader{
		{"Union", func(s ip.Set, a ip.SetI) string { return sh(s.Union(a)) }},
		{"Intersection", func(s ip.Set, a ip.SetI) string { return sh(s.Intersection(a)) }},
		{"Difference", func(s ip.Set, a ip.SetI) string { return sh(s.Difference(a)) }},
		{"Contains", func(s ip.Set, a ip.SetI) string { return fmt.Sprint(s.Contains(a)) }},
		{"FindAvailablePrefix", func(s ip.Set, a ip.SetI) string {
			out := ""
			for _, l := range []uint32{0, 1, uint32(W - 2), uint32(W - 1), uint32(W)} {
				p, err := s.FindAvailablePrefix(a, l)
				out += fmt.Sprint(err != nil)
				if err == nil {
					out += up(p).Str(W)
				}
			}
			return out
		}},
	}
}

func setPlain(s ip.Set) string {
	out := fmt.Sprint(s.IsEmpty(), s.String(), str(walkSet(s)), s.Equal(ip.Set{}), (ip.Set{}).Equal(s), s.Equal(ip.NewSet_().Set()), s.Equal(s))
	n := 0
	out += fmt.Sprint(s.WalkRanges(func(ip.Range) bool { n++; return true }), n)
	for _, l := range []uint32{0, 1, uint32(W - 2), uint32(W - 1), uint32(W)} {
		x, err := s.NumPrefixes(l)
		out += fmt.Sprint(x, err != nil)
	}
	if x, ok := setCount(s); ok {
		out += x.String()
	}
	out += str(walkSet(s.Set())) + str(walkSet(s.Set_().Set()))
	out += str(walkSet(s.Build(func(ip.Set_) bool { return false })))
	out += str(walkSet(s.Build(func(ip.Set_) bool { return true })))
	out += str(walkSet(s.Build(func(b ip.Set_) bool { b.Insert(mkA(ref.One)); return true })))
	return out
}

func c21Sets(c *rt.Ctx) {
	some := []ref.Set{
		nil,
		{{First: ref.One, Last: ref.One}},
		{{First: ref.Zero, Last: ref.Max(W)}},
		ref.P{A: pattern(patAlt), Len: W - 2}.Set(W),
		ref.FromPrefixes(W, []ref.P{{A: pattern(patAlt), Len: W}, {A: pattern(patOnes), Len: 8}, {A: ref.Zero, Len: W - 1}}),
	}
	emptied := func() ip.Set {
		s := ip.NewSet_()
		s.Insert(mkP(ref.P{A: ref.Zero, Len: 3}))
		s.Remove(mkP(ref.P{A: ref.Zero, Len: 0}))
		return s.Set()
	}
	built := func(r ref.Set) ip.Set { return setOf(r.Prefixes(W)) }
	zeros := []struct {
		name string
		s    func() ip.Set
	}{
		{"Set{}", func() ip.Set { return ip.Set{} }},
		{"Set_{}.Set()", func() ip.Set { return ip.Set_{}.Set() }},
		{"Set{}.Set_().Set()", func() ip.Set { return ip.Set{}.Set_().Set() }},
		{"an emptied set", emptied},
		{"NewSet_().Set()", func() ip.Set { return ip.NewSet_().Set() }},
	}
	// args: nil, zero of each kind, empty, and the rest
	type argT struct {
		name string
		a    ip.SetI
		r    ref.Set
	}
	var args []argT
	for _, r := range some {
		for _, k := range kinds(r) {
			args = append(args, argT{k.name + " " + r.Str(W), k.mk(), r})
		}
	}
	for _, z := range zeros {
		args = append(args, argT{z.name, z.s(), nil})
	}
	args = append(args, argT{"Address{}", ip.Address{}, ref.Set{{First: ref.Zero, Last: ref.Zero}}},
		argT{"Prefix{}", ip.Prefix{}, ref.Set{{First: ref.Zero, Last: ref.Max(W)}}},
		argT{"Range{}", ip.Range{}, ref.Set{{First: ref.Zero, Last: ref.Zero}}},
		argT{"zero Set_ interface", ip.SetI(ip.Set_{}), nil})

	for _, z := range zeros {
		z := z
		c.Case(func() {
			want := setPlain(ip.NewSet_().Set())
			if got := outcome(func() string { return setPlain(z.s()) }); got != want {
				c.Failf("%s reads as %s, an empty set as %s", z.name, got, want)
			}
			for _, a := range args {
				for _, rd := range setReaders() {
					want := outcome(func() string { return rd.f(ip.NewSet_().Set(), built(a.r)) })
					if got := outcome(func() string { return rd.f(z.s(), a.a) }); got != want {
						c.Failf("%s.%s(%s) is %s, of an empty set %s", z.name, rd.name, a.name, got, want)
					}
					c.Trans++
				}
				c.States++
			}
			c.Traces++
		})
	}
	// every receiver with every empty argument form
	for _, r := range some {
		r := r
		c.Case(func() {
			for _, a := range args {
				for _, rd := range setReaders() {
					want := outcome(func() string { return rd.f(built(r), built(a.r)) })
					if got := outcome(func() string { return rd.f(built(r), a.a) }); got != want {
						c.Failf("%s.%s(%s) is %s, want %s", r.Str(W), rd.name, a.name, got, want)
					}
					c.Trans++
				}
				for _, k := range kinds(r) {
					if k.name == "nil" {
						continue
					}
					if cc, ok := k.mk().(container); ok {
						got := outcome(func() string { return fmt.Sprint(cc.Contains(a.a)) })
						if got != fmt.Sprint(r.Contains(a.r)) {
							c.Failf("%s %s.Contains(%s) is %s", k.name, r.Str(W), a.name, got)
						}
					}
					// mutable and algebra on every kind that has it
					if so, ok := k.mk().(setOps); ok {
						for _, x := range []struct {
							name string
							s    string
							want ref.Set
						}{
							{"Union", outcome(func() string { return str(walkSet(so.Union(a.a))) }), r.Union(a.r)},
							{"Intersection", outcome(func() string { return str(walkSet(so.Intersection(a.a))) }), r.Inter(a.r)},
							{"Difference", outcome(func() string { return str(walkSet(so.Difference(a.a))) }), r.Diff(a.r)},
						} {
							if x.s != x.want.Str(W) {
								c.Failf("%s %s.%s(%s) is %s", k.name, r.Str(W), x.name, a.name, x.s)
							}
						}
						if so.IsEmpty() != (len(r) == 0) {
							c.Failf("%s %s says IsEmpty %v", k.name, r.Str(W), so.IsEmpty())
						}
					}
					c.Trans++
				}
				// mutation with every argument form
				m := built(r).Set_()
				got := outcome(func() string { m.Insert(a.a); return str(walkSet(m.Set())) })
				if got != r.Union(a.r).Str(W) {
					c.Failf("%s after Insert(%s) is %s", r.Str(W), a.name, got)
				}
				m = built(r).Set_()
				got = outcome(func() string { m.Remove(a.a); return str(walkSet(m.Set())) })
				if got != r.Diff(a.r).Str(W) {
					c.Failf("%s after Remove(%s) is %s", r.Str(W), a.name, got)
				}
				c.States++
			}
			c.Traces++
		})
	}
	// the uninitialized mutable
	c.Case(func() {
		var z ip.Set_
		for _, a := range args {
			mustPanic(c, "Set_{}.Insert("+a.name+")", func() { z.Insert(a.a) })
			mustPanic(c, "Set_{}.Remove("+a.name+")", func() { z.Remove(a.a) })
			if z != (ip.Set_{}) || !z.IsEmpty() || !z.Set().IsEmpty() {
				c.Failf("Set_{} changed by a refused modification with %s", a.name)
			}
			if got := outcome(func() string { return fmt.Sprint(z.Contains(a.a)) }); got != fmt.Sprint(len(a.r) == 0) {
				c.Failf("Set_{}.Contains(%s) is %s", a.name, got)
			}
			for _, x := range []struct {
				name string
				s    string
				want ref.Set
			}{
				{"Union", outcome(func() string { return str(walkSet(z.Union(a.a))) }), a.r},
				{"Intersection", outcome(func() string { return str(walkSet(z.Intersection(a.a))) }), nil},
				{"Difference", outcome(func() string { return str(walkSet(z.Difference(a.a))) }), nil},
			} {
				if x.s != x.want.Str(W) {
					c.Failf("Set_{}.%s(%s) is %s", x.name, a.name, x.s)
				}
			}
			for _, o := range []struct {
				name string
				m    ip.Set_
			}{{"Set_{}", ip.Set_{}}, {"NewSet_()", ip.NewSet_()}, {a.name, setOf(a.r.Prefixes(W)).Set_()}} {
				want := o.name != a.name || len(a.r) == 0
				if g1, g2 := outcome(func() string { return fmt.Sprint(z.Equal(o.m)) }), outcome(func() string { return fmt.Sprint(o.m.Equal(z)) }); g1 != fmt.Sprint(want) || g2 != g1 {
					c.Failf("Set_{} Equal %s: %s and reversed %s", o.name, g1, g2)
				}
			}
			c.Trans += 7
		}
		if n, ok := setmCount(z); ok && n.Sign() != 0 {
			c.Failf("Set_{} has %v addresses", n)
		}
		c.States++
		c.Traces++
	})
}

func tableShow(t ip.Table[int]) string { return walkStr(t) }

func c21Tables(c *rt.Ctx) {
	var keys []ref.P
	for _, l := range keyLens() {
		for p := 0; p < nPat; p++ {
			keys = append(keys, ref.P{A: pattern(p), Len: l})
		}
	}
	empties := []struct {
		name string
		t    func() ip.Table[int]
	}{
		{"Table{}", func() ip.Table[int] { return ip.Table[int]{} }},
		{"Table_{}.Table()", func() ip.Table[int] { return ip.Table_[int]{}.Table() }},
		{"Table{}.Table_().Table()", func() ip.Table[int] { return ip.Table[int]{}.Table_().Table() }},
		{"Table{}.Aggregate()", func() ip.Table[int] { return ip.Table[int]{}.Aggregate() }},
		{"Table{}.Map(f)", func() ip.Table[int] { return ip.Table[int]{}.Map(func(ip.Prefix, int) int { return 1 }) }},
		{"Table{}.Map(nil)", func() ip.Table[int] { return ip.Table[int]{}.Map(nil) }},
		{"Table{}.Build", func() ip.Table[int] { return ip.Table[int]{}.Build(func(ip.Table_[int]) bool { return true }) }},
		{"NewTable_().Table()", func() ip.Table[int] { return ip.NewTable_[int]().Table() }},
		{"an emptied table", func() ip.Table[int] {
			t := ip.NewTable_[int]()
			t.Insert(mkP(keys[5]), 1)
			t.Remove(mkP(keys[5]))
			return t.Table()
		}},
	}
	full := func() ip.Table[int] {
		t := ip.NewTable_[int]()
		for i, k := range keys {
			t.InsertOrUpdate(mkP(k), i)
		}
		return t.Table()
	}
	for _, e := range empties {
		e := e
		c.Case(func() {
			t := e.t()
			bad := func(f string, a ...interface{}) { c.Failf("%s: %s", e.name, fmt.Sprintf(f, a...)) }
			reads := func(r tableReads, name string) {
				if r.NumEntries() != 0 {
					bad("%s: NumEntries is %d", name, r.NumEntries())
				}
				for _, k := range keys {
					if v, ok := r.Get(mkP(k)); ok || v != 0 {
						bad("%s: Get(%s) is %d, %v", name, k.Str(W), v, ok)
					}
					if v, ok, p := r.LongestMatch(mkP(k)); ok || v != 0 || p != (ip.Prefix{}) {
						bad("%s: LongestMatch(%s) is %d, %v", name, k.Str(W), v, ok)
					}
					c.Trans += 2
				}
				if v, ok := r.Get(nil); ok || v != 0 {
					bad("%s: Get(nil) is %d, %v", name, v, ok)
				}
				if v, ok, _ := r.LongestMatch(nil); ok || v != 0 {
					bad("%s: LongestMatch(nil) is %d, %v", name, v, ok)
				}
			}
			reads(t, "table")
			reads(t.Table_(), "its mutable")
			reads(t.Aggregate(), "its aggregate")
			if tableShow(t) != "{}" || !t.Walk(func(ip.Prefix, int) bool { return false }) {
				bad("walk: %s", tableShow(t))
			}
			for _, o := range append(empties, struct {
				name string
				t    func() ip.Table[int]
			}{"a full table", full}) {
				other := o.t()
				n, m, k := 0, 0, 0
				cnt := func(x *int) func(ip.Prefix, int) bool {
					return func(ip.Prefix, int) bool { *x++; return true }
				}
				un := 0
				ok := t.Diff(other, func(ip.Prefix, int, int) bool { k++; return true }, cnt(&n), cnt(&m), cnt(&un))
				if !ok || n != 0 || int64(m) != other.NumEntries() || k != 0 || un != 0 {
					bad("diff with %s: %d %d %d %d %v", o.name, n, m, k, un, ok)
				}
				n, m, k, un = 0, 0, 0, 0
				ok = other.Diff(t, func(ip.Prefix, int, int) bool { k++; return true }, cnt(&n), cnt(&m), cnt(&un))
				if !ok || m != 0 || int64(n) != other.NumEntries() || k != 0 || un != 0 {
					bad("diff of %s with it: %d %d %d %d %v", o.name, n, m, k, un, ok)
				}
				if !t.Diff(other, nil, nil, nil, nil) {
					bad("diff with %s without handlers is incomplete", o.name)
				}
				c.Trans += 3
			}
			// a mutable made from it works
			m := t.Table_()
			for i, k := range keys {
				_, had := m.Get(mkP(k))
				if m.Insert(mkP(k), i) == had {
					bad("its mutable: Insert(%s)", k.Str(W))
				}
				m.InsertOrUpdate(mkP(k), i)
				if !m.Update(mkP(k), i) {
					bad("its mutable: Update(%s)", k.Str(W))
				}
				if m.GetOrInsert(mkP(k), -1) != i {
					bad("its mutable: GetOrInsert(%s)", k.Str(W))
				}
			}
			if tableShow(m.Table()) != tableShow(full()) {
				bad("filled, its mutable is %s", tableShow(m.Table()))
			}
			reads(t, "table after filling its mutable")
			for _, k := range keys {
				_, had := m.Get(mkP(k))
				if m.Remove(mkP(k)) != had {
					bad("its mutable: Remove(%s)", k.Str(W))
				}
			}
			reads(m, "emptied mutable")
			c.States++
			c.Traces++
		})
	}
	// the uninitialized mutable: reads as empty, refuses writes
	c.Case(func() {
		var z ip.Table_[int]
		bad := func(f string, a ...interface{}) { c.Failf("Table_{}: %s", fmt.Sprintf(f, a...)) }
		args := []ip.PrefixI{nil}
		for _, k := range keys {
			args = append(args, mkP(k))
		}
		args = append(args, mkA(ref.One))
		for _, a := range args {
			mustPanic(c, fmt.Sprintf("Table_{}.Insert(%v)", a), func() { z.Insert(a, 1) })
			mustPanic(c, fmt.Sprintf("Table_{}.Update(%v)", a), func() { z.Update(a, 1) })
			mustPanic(c, fmt.Sprintf("Table_{}.InsertOrUpdate(%v)", a), func() { z.InsertOrUpdate(a, 1) })
			mustPanic(c, fmt.Sprintf("Table_{}.GetOrInsert(%v)", a), func() { z.GetOrInsert(a, 1) })
			mustPanic(c, fmt.Sprintf("Table_{}.Remove(%v)", a), func() { z.Remove(a) })
			if z != (ip.Table_[int]{}) {
				bad("changed by a refused modification")
			}
			if v, ok := z.Get(a); ok || v != 0 {
				bad("Get(%v) is %d, %v", a, v, ok)
			}
			if v, ok, p := z.LongestMatch(a); ok || v != 0 || p != (ip.Prefix{}) {
				bad("LongestMatch(%v) is %d, %v", a, v, ok)
			}
			c.Trans += 7
		}
		if z.NumEntries() != 0 || tableShow(z.Table()) != "{}" {
			bad("%d entries, %s", z.NumEntries(), tableShow(z.Table()))
		}
		c.States++
		c.Traces++
	})
}

// c21Nil: a nil prefix is 0/0 in every method, in every table.
func c21Nil(c *rt.Ctx) {
	offs := []int{0, 1, W - 2}
	for _, off := range offs {
		off := off
		c.Case(func() {
			keys := append(treeKeys(off, 2, pattern(patZeros)), ref.P{A: ref.Zero, Len: 0}, ref.P{A: ref.Zero, Len: 1})
			u := newTuni(fmt.Sprintf("tree at %d", off), keys, 1, false)
			root := u.index(ref.P{})
			for m := 0; m < u.n; m++ {
				t := u.table(m)
				has := u.digit(m, root) != 0
				if v, ok := t.Get(nil); ok != has || has != (v == 1) {
					c.Failf("Get(nil) in %s is %d, %v", u.str(m), v, ok)
				}
				if v, ok, p := t.LongestMatch(nil); ok != has || has != (v == 1) || p.Length() != 0 {
					c.Failf("LongestMatch(nil) in %s is %d, %v", u.str(m), v, ok)
				}
				for op := 0; op < nOps; op++ {
					mt := t.Table_()
					// apply with argument variant 2, which is nil for the root
					what := func() string { return fmt.Sprintf("%s: %s(nil)", u.name, opNames[op]) }
					if u.args[root][2] != nil {
						c.Failf("harness: argument is not nil")
					}
					next := u.apply(c, mt, m, op, root, 1, 2, what)
					u.checkWalk(c, mt.Table(), next, what)
					if v, ok := mt.Get(nil); ok != (u.digit(next, root) != 0) || ok && v != 1 {
						c.Failf("%s in %s: then Get(nil) is %d, %v", what(), u.str(m), v, ok)
					}
					if v, ok, _ := mt.LongestMatch(nil); ok != (u.digit(next, root) != 0) || ok && v != 1 {
						c.Failf("%s in %s: then LongestMatch(nil) is %d, %v", what(), u.str(m), v, ok)
					}
					c.Trans++
				}
				c.States++
			}
			c.Traces++
		})
	}
}
