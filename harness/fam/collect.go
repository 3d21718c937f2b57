package fam

import (
	"fmt"
	"runtime"
	"time"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

// Garbage collections at every point of a history: what is alive stays intact,
// and memory that is used again is not mistaken for what was there before. The
// worker runs with GODEBUG=clobberfree=1, so memory freed too early is seen.

func regCollect() {
	reg("C30", "tables: a collection after every modification", collectTableOps)
	reg("C30", "tables: memory used again", collectTablesAgain)
	reg("C30", "tables: values only the table refers to", collectValues)
	reg("C30", "tables: collections inside callbacks", collectTableCallbacks)
	reg("C30", "tables: one long history", collectTableHistory)
	reg("C30", "sets: a collection after every modification", collectSetOps)
	reg("C30", "sets: memory used again", collectSetsAgain)
	reg("C30", "sets: collections inside callbacks", collectSetCallbacks)
	reg("C30", "large and deep structures", collectLarge)
}

type sentinel struct{ p *int }

var churned [][]interface{}

// collect frees everything that is not referred to any more, waits for
// finalizers, and uses the memory for something else.
func collect() {
	for i := 0; i < 2; i++ {
		done := make(chan struct{})
		runtime.SetFinalizer(&sentinel{new(int)}, func(*sentinel) { close(done) })
		runtime.GC()
		if i == 1 {
			select {
			case <-done:
			case <-time.After(2 * time.Second):
			}
		}
	}
}

// churn makes things of the same kinds with other contents.
func churn(n int) {
	var keep []interface{}
	for i := 0; i < n; i++ {
		t := ip.NewTable_[int]()
		s := ip.NewSet_()
		for j := 0; j < 4; j++ {
			p := mkP(ref.P{A: pattern(j).Xor(ref.Pow2((i + 7*j) % W)), Len: W})
			t.InsertOrUpdate(p, -77)
			s.Insert(p)
		}
		keep = append(keep, t, s, t.Table(), s.Set())
	}
	churned = [][]interface{}{keep}
	churned = nil
}

func collectUnis(c *rt.Ctx, nv int, f func(u *tuni, ps []probe, parts int)) {
	offs := []int{0, W/2 - 1, W - 2}
	if c.Thorough {
		offs = keyOffsets(2)
	}
	const parts = 27
	one := func(name string, keys []ref.P) {
		if !c.WantBlock(parts) {
			c.Skip(parts)
			return
		}
		u := newTuni(name, keys, nv, true)
		f(u, u.probes(), parts)
	}
	for _, off := range offs {
		one(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, pattern(patAlt)))
	}
	for _, b := range [][3]int{{3, 9, W / 2}, {0, 1, W}} {
		one(fmt.Sprintf("nested at %v", b), bushKeys(b[0], b[1], b[2], pattern(patAlt2)))
	}
}

// everything asks a table everything.
func (u *tuni) everything(c *rt.Ctx, t ip.Table[int], code int, ps []probe, what func() string) {
	u.checkWalk(c, t, code, what)
	u.checkReads(c, t, code, code, what)
	u.checkLPM(c, t, code, ps, what)
	a := t.Aggregate()
	for i := 0; i < len(ps); i += 3 {
		v, ok, _ := t.LongestMatch(ps[i].arg)
		v2, ok2, _ := a.LongestMatch(ps[i].arg)
		if ps[i].p.Len == W && (v != v2 || ok != ok2) {
			c.Failf("%s: in the aggregate of %s, LongestMatch(%s) is %d, %v", what(), u.str(code), ps[i].p.Str(W), v2, ok2)
		}
	}
	n := int64(0)
	mapped := t.Map(func(_ ip.Prefix, v int) int { n++; return v + 10 })
	bad := false
	done := t.Diff(mapped, func(_ ip.Prefix, l, r int) bool { n--; bad = bad || r != l+10; return true },
		func(ip.Prefix, int) bool { bad = true; return true }, func(ip.Prefix, int) bool { bad = true; return true },
		func(ip.Prefix, int) bool { bad = true; return true })
	if bad || n != 0 || !done {
		c.Failf("%s: Map or Diff of %s with its mapped form is wrong", what(), u.str(code))
	}
	c.Trans += 4
}

// collectTableOps: for every state and operation, the table that it came from is
// dropped, the memory collected and used again; then another operation.
func collectTableOps(c *rt.Ctx) {
	type slot struct {
		m         ip.Table_[int]
		t         ip.Table[int]
		code      int
		op, i, v  int
		op2, i2   int
		code0     int
		snapshots bool
	}
	collectUnis(c, 2, func(u *tuni, ps []probe, parts int) {
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				for m := part; m < u.n; m += parts {
					var slots []*slot
					u.eachOp(func(op, i, v int) {
						s := &slot{op: op, i: i, v: v, snapshots: (op+i+v)%2 == 0}
						what := func() string { return u.name + ": " + u.str(m) + ", " + u.opStr(op, i, v) }
						mt := u.table(m).Table_()
						if (m+i)%2 == 0 {
							mt = u.tableRev(m).Table_()
						}
						s.code = u.apply(c, mt, m, op, i, v, m, what)
						if s.snapshots {
							s.t = mt.Table()
						} else {
							s.m = mt
						}
						slots = append(slots, s)
					})
					for round := 0; round < 2; round++ {
						collect()
						churn(20)
						for _, s := range slots {
							s := s
							what := func() string {
								return fmt.Sprintf("%s: %s, %s, a collection (%d)", u.name, u.str(m), u.opStr(s.op, s.i, s.v), round+1)
							}
							t := s.t
							if !s.snapshots {
								t = s.m.Table()
							}
							u.checkWalk(c, t, s.code, what)
							u.checkReads(c, t, s.code, round, what)
							if round == 1 || s.code%8 == 0 {
								u.everything(c, t, s.code, ps, what)
							}
							if round == 0 {
								mt := s.m
								if s.snapshots {
									mt = s.t.Table_()
								}
								i2, op2 := (s.i*3+s.op+m)%len(u.keys), (s.op+s.i+m)%nOps
								code := u.apply(c, mt, s.code, op2, i2, 1+m%2, m, what)
								if s.snapshots = !s.snapshots; s.snapshots {
									s.t, s.m = mt.Table(), ip.Table_[int]{}
								} else {
									s.m, s.t = mt, ip.Table[int]{}
								}
								s.code = code
							}
						}
					}
					c.States++
				}
				c.Traces++
			})
		}
		c.Sample(func() string { return u.name + ": every operation, a collection, another operation, a collection" })
	})
}

// collectTablesAgain: rounds of tables that take the memory of the ones before.
func collectTablesAgain(c *rt.Ctx) {
	collectUnis(c, 2, func(u *tuni, ps []probe, parts int) {
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				for m0 := part; m0 < u.n; m0 += parts * 9 {
					for round := 0; round < 6; round++ {
						var ts []ip.Table[int]
						var codes []int
						for k := 0; k < 40; k++ {
							m := (m0 + k*97) % u.n
							code := m
							switch round % 3 {
							case 1: // the same shape, other values
								for i := range u.keys {
									if d := u.digit(m, i); d != 0 {
										code = u.with(code, i, 3-d)
									}
								}
							case 2: // one entry moved
								for i := range u.keys {
									j := (i + k) % len(u.keys)
									if u.digit(m, i) != 0 && u.digit(m, j) == 0 {
										code = u.with(u.with(m, i, 0), j, u.digit(m, i))
										break
									}
								}
							}
							t := u.table(code)
							ts, codes = append(ts, t), append(codes, code)
						}
						for k, t := range ts {
							k := k
							u.everything(c, t, codes[k], ps, func() string {
								return fmt.Sprintf("%s: round %d of tables that use memory of earlier ones", u.name, round)
							})
						}
						ts = nil
						collect()
					}
					c.States++
				}
				c.Traces++
			})
		}
	})
}

// collectTableHistory: one mutable, a collection after every step, everything
// asked before and after.
func collectTableHistory(c *rt.Ctx) {
	collectUnis(c, 2, func(u *tuni, ps []probe, parts int) {
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				code := part * (u.n / parts)
				mt := u.table(code).Table_()
				step := 0
				what := func() string { return fmt.Sprintf("%s: step %d of a history with collections", u.name, step) }
				for round := 0; round < 4; round++ {
					for i := range u.keys {
						for _, op := range []int{2, 1, 4, 0} {
							step++
							code = u.apply(c, mt, code, op, (i*(round+1)+part)%len(u.keys), 1+(step+part)%2, step, what)
							u.checkLPM(c, mt, code, ps, what)
							u.everything(c, mt.Table(), code, ps, what)
							collect()
							u.everything(c, mt.Table(), code, ps, what)
							u.checkLPM(c, mt, code, ps, what)
						}
					}
				}
				c.States++
				c.Traces++
			})
		}
	})
}

// cell is a value that only the table refers to.
type cell struct {
	id, digit int
	text      *string
}

type cellWatch struct {
	dead chan int
}

func (w *cellWatch) cell(id, digit int) *cell {
	s := fmt.Sprint("value ", digit, " of ", id)
	x := &cell{id, digit, &s}
	dead := w.dead
	runtime.SetFinalizer(x, func(x *cell) { dead <- x.id })
	return x
}

func cellEq(a, b *cell) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.digit == b.digit
}

// collectValues: tables of pointers; nothing else refers to the values.
func collectValues(c *rt.Ctx) {
	ways := []string{"the table", "a mutable", "a snapshot of a mutable", "mapped", "aggregated", "built", "built in vain", "after a removal", "after an update", "read back by Get"}
	collectUnis(c, 2, func(u *tuni, ps []probe, parts int) {
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				for m := part; m < u.n; m += parts {
					w := &cellWatch{make(chan int, 4*len(u.keys)*len(ways))}
					type held struct {
						t     ip.Table[*cell]
						m     ip.Table_[*cell]
						got   []*cell
						way   string
						want  int
						owner map[int]bool
					}
					var hs []*held
					for n, way := range ways {
						h := &held{way: way, want: m, owner: map[int]bool{}}
						b := ip.NewTableCustomCompare_(cellEq)
						for i := range u.keys {
							if d := u.digit(m, i); d != 0 {
								id := n*100 + i
								if !b.Insert(u.stored[i], w.cell(id, d)) {
									c.Failf("%s: Insert", u.name)
								}
							}
						}
						j := (m + n) % len(u.keys)
						switch way {
						case "the table":
							h.t = b.Table()
						case "a mutable":
							h.m = b
						case "a snapshot of a mutable":
							h.t = b.Table()
							for i := range u.keys {
								b.Remove(mkP(u.keys[i]))
							}
						case "mapped":
							h.t = b.Table().Map(func(_ ip.Prefix, x *cell) *cell { y := *x; return &y })
							h.t = h.t.Map(func(_ ip.Prefix, x *cell) *cell { return x })
						case "aggregated":
							h.t = b.Table().Aggregate()
						case "built", "built in vain":
							ok := way == "built"
							h.t = b.Table().Build(func(b ip.Table_[*cell]) bool {
								b.InsertOrUpdate(mkP(u.keys[j]), w.cell(n*100+50, 2))
								return ok
							})
							if ok {
								h.want = u.with(m, j, 2)
							}
						case "after a removal":
							b.Remove(mkP(u.keys[j]))
							h.m, h.want = b, u.with(m, j, 0)
						case "after an update":
							b.InsertOrUpdate(mkP(u.keys[j]), w.cell(n*100+50, 1))
							h.m, h.want = b, u.with(m, j, 1)
						case "read back by Get":
							for i := range u.keys {
								x, _ := b.Get(mkP(u.keys[i]))
								h.got = append(h.got, x)
							}
						}
						hs = append(hs, h)
					}
					collect()
					churn(20)
					gone := map[int]bool{}
					for more := true; more; {
						select {
						case id := <-w.dead:
							gone[id] = true
						default:
							more = false
						}
					}
					for n, h := range hs {
						what := func() string {
							return fmt.Sprintf("%s: %s of pointers, %s, after a collection", u.name, u.str(m), h.way)
						}
						see := func(i int, x *cell) {
							if x == nil || x.digit != u.digit(h.want, i) || *x.text != fmt.Sprint("value ", x.digit, " of ", x.id) {
								c.Failf("%s: the value of %s is %v", what(), u.keys[i].Str(W), x)
							}
							if gone[x.id] && h.way != "mapped" {
								c.Failf("%s: the value of %s was collected", what(), u.keys[i].Str(W))
							}
						}
						if h.way == "read back by Get" {
							for i, x := range h.got {
								if u.digit(m, i) != 0 {
									see(i, x)
								} else if x != nil {
									c.Failf("%s: Get(%s) is not nil", what(), u.keys[i].Str(W))
								}
							}
							continue
						}
						t := h.t
						if (n == 1 || n == 7 || n == 8) && h.way != "the table" {
							t = h.m.Table()
						}
						if h.way == "aggregated" {
							for i := range ps {
								if ps[i].p.Len != W {
									continue
								}
								x, ok, _ := t.LongestMatch(ps[i].arg)
								want := 0
								for _, k := range ps[i].keys {
									if want = u.digit(m, k); want != 0 {
										break
									}
								}
								if ok != (want != 0) || ok && (x.digit != want || gone[x.id] || *x.text != fmt.Sprint("value ", x.digit, " of ", x.id)) {
									c.Failf("%s: LongestMatch(%s) is %v, want %d", what(), ps[i].p.Str(W), x, want)
								}
							}
							continue
						}
						for i := range u.keys {
							x, ok := t.Get(u.args[i][m%nArgs])
							if ok != (u.digit(h.want, i) != 0) {
								c.Failf("%s: Get(%s) is %v", what(), u.keys[i].Str(W), ok)
							}
							if ok {
								see(i, x)
							}
						}
						k := 0
						t.Walk(func(ip.Prefix, *cell) bool { k++; return true })
						if int64(k) != u.size(h.want) {
							c.Failf("%s: %d entries, want %d", what(), k, u.size(h.want))
						}
					}
					runtime.KeepAlive(hs)
					c.Trans += int64(len(hs))
					c.States++
				}
				c.Traces++
			})
		}
	})
}

// collectTableCallbacks: the callback drops the table and collects.
func collectTableCallbacks(c *rt.Ctx) {
	collectUnis(c, 2, func(u *tuni, ps []probe, parts int) {
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				for m := part; m < u.n; m += parts * 3 {
					o := (m*7 + 5) % u.n
					what := func() string {
						return u.name + ": collections inside callbacks, " + u.str(m) + " and " + u.str(o)
					}
					// walk
					t := u.table(m)
					i := 0
					bad := false
					next := func() {
						for i < len(u.keys) && u.digit(m, i) == 0 {
							i++
						}
					}
					first := func() {
						t = ip.Table[int]{}
						runtime.GC()
						churn(5)
					}
					calls := 0
					t.Walk(func(p ip.Prefix, v int) bool {
						if calls++; calls <= 3 {
							first()
						}
						next()
						bad = bad || i == len(u.keys) || isT(p) != u.keys[i] || v != u.digit(m, i)
						i++
						return !bad
					})
					next()
					if bad || i != len(u.keys) {
						c.Failf("%s: Walk", what())
					}
					// map
					t = u.table(m)
					calls = 0
					r := t.Map(func(_ ip.Prefix, v int) int {
						if calls++; calls%2 == 1 && calls < 6 {
							first()
						}
						return v
					})
					u.checkWalk(c, r, m, what)
					// build
					t = u.table(m)
					r = t.Build(func(b ip.Table_[int]) bool {
						first()
						b.InsertOrUpdate(mkP(u.keys[0]), 1)
						first()
						return m%2 == 0
					})
					if m%2 == 0 {
						u.checkWalk(c, r, u.with(m, 0, 1), what)
					} else {
						u.checkWalk(c, r, m, what)
					}
					// diff
					t = u.table(m)
					t2 := u.table(o)
					want := u.expected(m, o, allHandlers, nil)
					var got []event
					calls = 0
					ev := func(kind byte, p ip.Prefix, l, r int) bool {
						if calls++; calls%2 == 1 && calls < 6 {
							t2 = ip.Table[int]{}
							first()
						}
						k := -1
						for i := range u.keys {
							if u.keys[i] == isT(p) {
								k = i
							}
						}
						got = append(got, event{kind, k, l, r})
						return true
					}
					t.Diff(t2, func(p ip.Prefix, l, r int) bool { return ev('!', p, l, r) },
						func(p ip.Prefix, l int) bool { return ev('-', p, l, 0) },
						func(p ip.Prefix, r int) bool { return ev('+', p, 0, r) },
						func(p ip.Prefix, v int) bool { return ev('=', p, v, v) })
					if fmt.Sprint(got) != fmt.Sprint(want) {
						c.Failf("%s: Diff calls %s, want %s", what(), u.eventsStr(got), u.eventsStr(want))
					}
					c.Trans += 4
					c.States++
				}
				c.Traces++
			})
		}
	})
}

// ---- sets

func collectSets(c *rt.Ctx, f func(u *collectUni, part, parts int)) {
	offs := []int{0, W/2 - 1, W - 3}
	if c.Thorough {
		offs = keyOffsets(3)
	}
	universes(c, 3, []int{patAlt}, offs, func(u *uni) {
		const parts = 16
		if !c.WantBlock(parts) {
			c.Skip(parts)
			return
		}
		cu := &collectUni{uni: u}
		c.Guard(cu.prepare)
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				f(cu, part, parts)
				c.Traces++
			})
		}
	})
}

// fresh is a set of its own, with memory of its own.
func (u *uni) fresh(m, way int) ip.Set {
	switch way % 3 {
	case 0:
		return setOf(u.want[m])
	case 1:
		s := ip.NewSet_()
		for i := len(u.atoms) - 1; i >= 0; i-- {
			s.Insert(mkP(u.atoms[i]))
		}
		for i := range u.atoms {
			if m>>uint(i)&1 == 0 {
				s.Remove(mkP(u.atoms[i]))
			}
		}
		return s.Set()
	}
	return setOf(u.want[m&0x5a]).Union(setOf(u.want[m&0xa5]))
}

// collectUni has the answers of sets that are never collected.
type collectUni struct {
	*uni
	qs      []sq
	answers [][]string
}

func (cu *collectUni) prepare() {
	cu.uni.prepare()
	cu.qs = append(append(qCounts(cu.uni), qContains(cu.uni)...), qAvailable(cu.uni)...)
	cu.answers = make([][]string, len(cu.sets))
	for m, s := range cu.sets {
		for _, q := range cu.qs {
			cu.answers[m] = append(cu.answers[m], q.f(s.Set_()))
		}
	}
}

func (cu *collectUni) everything(c *rt.Ctx, s ip.Set, m, other int, what func() string) {
	u := cu.uni
	if !sameSet(s, u.want[m]) || !s.Equal(u.sets[m]) || !u.sets[m].Equal(s) || s.IsEmpty() != (m == 0) {
		c.Failf("%s: the set is %s, want %s", what(), str(walkSet(s)), str(u.want[m]))
	}
	o := u.fresh(other, m)
	if !sameSet(s.Union(o), u.want[m|other]) || !sameSet(s.Intersection(o), u.want[m&other]) || !sameSet(s.Difference(o), u.want[m&^other]) {
		c.Failf("%s: algebra of %s and %s", what(), str(u.want[m]), str(u.want[other]))
	}
	if s.Contains(o) != (m&other == other) || o.Contains(s) != (m&other == m) || s.Equal(o) != (m == other) {
		c.Failf("%s: Contains or Equal of %s and %s", what(), str(u.want[m]), str(u.want[other]))
	}
	for i := range u.atoms {
		if s.Contains(mkP(u.atoms[i])) != (m>>uint(i)&1 == 1) {
			c.Failf("%s: Contains(%s) in %s", what(), u.atoms[i].Str(W), str(u.want[m]))
		}
	}
	for i, q := range cu.qs {
		if got := q.f(s.Set_()); got != cu.answers[m][i] {
			c.Failf("%s: %s of %s is %s, want %s", what(), q.name, str(u.want[m]), got, cu.answers[m][i])
		}
	}
	if s.String() != u.text(m) {
		c.Failf("%s: the text is %s, want %s", what(), s, u.text(m))
	}
	c.Trans += 7
}

func collectSetOps(c *rt.Ctx) {
	collectSets(c, func(u *collectUni, part, parts int) {
		for m := part; m < 256; m += parts {
			// every set inserted and removed, in groups
			for from := 0; from < 256; from += 64 {
				var ms []ip.Set_
				var ss []ip.Set
				var codes []int
				for x := from; x < from+64; x++ {
					s := u.fresh(m, x).Set_()
					code := m | x
					if x%2 == 0 {
						s.Insert(u.fresh(x, m+x))
					} else {
						s.Remove(u.fresh(x, m+x))
						code = m &^ x
					}
					codes = append(codes, code)
					if x%4 < 2 {
						ms, ss = append(ms, s), append(ss, ip.Set{})
					} else {
						ms, ss = append(ms, ip.Set_{}), append(ss, s.Set())
					}
				}
				for round := 0; round < 2; round++ {
					collect()
					churn(20)
					for k := range codes {
						k := k
						x := from + k
						what := func() string {
							return fmt.Sprintf("%v: %s with %s inserted or removed, a collection (%d)", u, str(u.want[m]), str(u.want[x]), round+1)
						}
						s := ss[k]
						if x%4 < 2 {
							s = ms[k].Set()
						}
						u.everything(c, s, codes[k], (m*37+x*11)&255, what)
						if round == 0 && x%4 < 2 {
							y := 1 << uint((m+k)%8)
							ms[k].Remove(u.fresh(y, k))
							codes[k] &^= y
						}
					}
				}
			}
			c.States++
		}
	})
}

func collectSetsAgain(c *rt.Ctx) {
	collectSets(c, func(u *collectUni, part, parts int) {
		for m0 := part; m0 < 256; m0 += parts {
			for round := 0; round < 8; round++ {
				var ss []ip.Set
				var codes []int
				for k := 0; k < 40; k++ {
					m := (m0 + k*13) & 255
					if round%2 == 1 {
						m = 255 &^ m
					}
					if round%4 >= 2 {
						m = m<<1&255 | m>>7
					}
					ss, codes = append(ss, u.fresh(m, round/2)), append(codes, m)
				}
				for k := range ss {
					u.everything(c, ss[k], codes[k], codes[(k*7+3)%len(codes)], func() string {
						return fmt.Sprintf("%v: round %d of sets that use memory of earlier ones", u, round)
					})
				}
				ss = nil
				collect()
			}
			// one mutable
			code := m0
			s := u.fresh(m0, 0).Set_()
			for step := 0; step < 24; step++ {
				x := (m0*29 + step*83) & 255
				if step%2 == 0 {
					s.Insert(u.fresh(x, step))
					code |= x
				} else {
					s.Remove(u.fresh(x, step))
					code &^= x
				}
				what := func() string { return fmt.Sprintf("%v: step %d of a history with collections", u, step) }
				u.everything(c, s.Set(), code, x, what)
				collect()
				u.everything(c, s.Set(), code, x, what)
			}
			c.States++
		}
	})
}

func collectSetCallbacks(c *rt.Ctx) {
	collectSets(c, func(u *collectUni, part, parts int) {
		for m := part; m < 256; m += parts {
			what := func() string { return fmt.Sprintf("%v: collections inside callbacks of %s", u, str(u.want[m])) }
			s := u.fresh(m, m)
			first := func(n int) {
				if n < 4 {
					s = ip.Set{}
					runtime.GC()
					churn(5)
				}
			}
			var got []ref.P
			s.WalkPrefixes(func(p ip.Prefix) bool { first(len(got)); got = append(got, up(p)); return true })
			if str(got) != str(u.want[m]) {
				c.Failf("%s: WalkPrefixes gives %s", what(), str(got))
			}
			s = u.fresh(m, m+1)
			n := 0
			all := ref.Set(nil)
			s.WalkRanges(func(r ip.Range) bool { first(n); n++; all = append(all, ur(r)); return true })
			if ref.PrefixesStr(W, all.Prefixes(W)) != str(u.want[m]) {
				c.Failf("%s: WalkRanges gives %v", what(), all)
			}
			s = u.fresh(m, m+2)
			r := s.Build(func(b ip.Set_) bool {
				first(0)
				b.Insert(mkP(u.atoms[m%8]))
				first(0)
				return true
			})
			u.everything(c, r, m|1<<uint(m%8), (m*5+3)&255, what)
			// arguments that are garbage afterwards
			s_ := u.fresh(m, 0).Set_()
			x := (m*91 + 3) & 255
			s_.Insert(ownSet{func() ip.Set { first(0); return u.fresh(x, 1) }})
			u.everything(c, s_.Set(), m|x, x, what)
			c.States++
		}
	})
}

// collectLarge: large structures, modified all over with collections in between.
func collectLarge(c *rt.Ctx) {
	for _, b := range bigTables(c.Thorough) {
		b := b
		c.Case(func() {
			v := b.vals(func(i int) int { return 1 + i%3 })
			m := b.table(v, b.upOrder()).Table_()
			var snaps []ip.Table[int]
			var states []vals
			for round := 0; round < 8; round++ {
				for i := range b.keys {
					switch {
					case i%8 == round:
						if v[i] != 0 {
							m.Remove(mkP(b.keys[i]))
							v[i] = 0
						}
					case i%5 == round%5:
						m.InsertOrUpdate(mkP(b.keys[i]), 2+round)
						v[i] = 2 + round
					}
				}
				snaps, states = append(snaps, m.Table()), append(states, append(vals{}, v...))
				if len(snaps) > 3 {
					snaps, states = snaps[2:], states[2:]
				}
				collect()
				churn(100)
				for k, t := range snaps {
					b.check(c, t, states[k], func() string { return fmt.Sprintf("snapshot %d, after collections (round %d)", k, round) })
				}
				a := m.Table().Map(func(_ ip.Prefix, x int) int { return x }).Table_().Table()
				m = a.Table_()
			}
			for i, k := range b.keys {
				x, ok := m.Get(mkP(k))
				if ok != (v[i] != 0) || x != v[i] {
					c.Failf("%s: Get(%s) is %d, %v after collections", b.name, k.Str(W), x, ok)
				}
			}
			c.States++
			c.Traces++
		})
	}
	for _, b := range bigSets(c.Thorough) {
		b := b
		c.Case(func() {
			s := setOf(b.pieces).Set_()
			want := b.r
			var old []ip.Set
			var olds []ref.Set
			for round := 0; round < 8; round++ {
				for i, p := range b.pieces {
					if i%8 != round {
						continue
					}
					one := ref.FromPrefixes(W, []ref.P{p})
					if (i/8)%2 == 0 {
						s.Remove(mkP(p))
						want = want.Diff(one)
					} else {
						s.Insert(mkP(p))
						want = want.Union(one)
					}
				}
				old, olds = append(old, s.Set()), append(olds, want)
				collect()
				churn(100)
				for k, o := range old {
					checkSet(c, o, olds[k].Prefixes(W), func() string {
						return fmt.Sprintf("%s: snapshot %d, after collections (round %d)", b.name, k, round)
					})
				}
				if len(old) > 2 {
					old, olds = old[1:], olds[1:]
				}
				c.Trans++
			}
			c.States++
			c.Traces++
		})
	}
}
