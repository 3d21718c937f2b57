package fam

import (
	"fmt"
	"runtime"
	"time"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

// Fault injection: code of the caller panics, or ends its goroutine, at each of
// its calls in turn.

func regFaults() {
	reg("C27", "comparisons during modifications", faultCompareOps)
	reg("C27", "comparisons during other operations", faultCompareReads)
	reg("C27", "callbacks of tables", faultTableCallbacks)
	reg("C27", "callbacks of sets", faultSetCallbacks)
	reg("C27", "conversions of arguments", faultArguments)
	reg("C27", "builders", faultBuilders)
	reg("C27", "faults in a row", faultSequences)
}

type injected struct{ n int }

type injectedError struct{ n int }

func (injectedError) Error() string { return "injected" }

// isInjected tells a panic of the injector from others.
func isInjected(p interface{}, at, kind int) bool {
	switch kind {
	case 1:
		return p == injectedError{at}
	case 2:
		_, ok := p.(runtime.Error)
		return ok
	}
	return p == injected{at}
}

// injector counts the calls of the caller's code and fails at one of them.
type injector struct {
	calls int
	at    int // -1 for never
	kind  int // of panic
	exit  bool
}

func (f *injector) hit() {
	f.calls++
	if f.calls-1 == f.at {
		if f.exit {
			runtime.Goexit()
		}
		switch f.kind {
		case 1:
			panic(injectedError{f.at})
		case 2:
			var none []int
			none[f.at]++
		}
		panic(injected{f.at})
	}
}

func (f *injector) arm(at int, exit bool) { f.calls, f.at, f.kind, f.exit = 0, at, 0, exit }

// within runs g in a goroutine of its own and tells how it ended. A call that
// never ends is a violation.
func within(c *rt.Ctx, g func(), what func() string) (panicked interface{}, exited bool) {
	done := make(chan struct{})
	normal := false
	go func() {
		defer close(done)
		defer func() {
			if normal {
				return
			}
			if panicked = recover(); panicked == nil {
				exited = true
			}
		}()
		g()
		normal = true
	}()
	select {
	case <-done:
		return
	default:
	}
	t := time.NewTimer(40 * time.Second)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		c.Failf("%s: does not return", what())
	}
	return
}

// inject runs g with a fault at each call of the caller's code, in both ways,
// and calls after each time. fresh prepares g.
func inject(c *rt.Ctx, f *injector, fresh func() (g func(), after func(what func() string)), name func() string) {
	f.arm(-1, false)
	g, after := fresh()
	f.arm(-1, false)
	p, ex := within(c, g, name)
	n := f.calls
	f.arm(-1, false)
	if p != nil || ex {
		if v, ok := p.(failure2); ok {
			c.Failf("%s", v.msg)
		}
		c.Failf("%s: panic %v", name(), p)
	}
	for at := 0; at < n; at++ {
		for _, exit := range []bool{false, true} {
			g, after = fresh()
			f.arm(at, exit)
			kind := (at + n) % 3
			f.kind = kind
			what := func() string {
				how := "a panic (" + []string{"any value", "an error", "a run-time error"}[kind] + ")"
				if exit {
					how = "Goexit"
				}
				return fmt.Sprintf("%s with %s in call %d of the caller's code", name(), how, at+1)
			}
			p, ex := within(c, g, what)
			got := f.calls
			f.arm(-1, false)
			if got <= at {
				c.Failf("%s: only %d calls, there were %d before", what(), got, n)
			}
			if exit && !ex || !exit && p == nil {
				c.Failf("%s: it is swallowed (panic %v, exited %v)", what(), p, ex)
			}
			if !exit && !isInjected(p, at, kind) {
				c.Failf("%s: it becomes another one: %v", what(), p)
			}
			if got != at+1 {
				c.Failf("%s: the caller's code is called %d more times afterwards, by the same call", what(), got-at-1)
			}
			if p2, ex := within(c, func() { after(what) }, what); p2 != nil || ex {
				if v, ok := p2.(failure2); ok {
					c.Failf("%s", v.msg)
				}
				c.Failf("%s: later calls panic: %v", what(), p2)
			}
			c.Trans++
		}
	}
	c.States++
}

// failure2 carries a mismatch out of a goroutine.
type failure2 struct{ msg string }

func failf(format string, a ...interface{}) { panic(failure2{fmt.Sprintf(format, a...)}) }

// faultUni is a universe of tables whose comparison goes through the injector.
type faultUni struct {
	*tuni
	f   injector
	tab []ip.Table[int]
}

func newFaultUni(name string, keys []ref.P) *faultUni {
	u := &faultUni{tuni: newTuni(name, keys, 2, false)}
	u.f.at = -1
	return u
}

func (u *faultUni) eq(a, b int) bool { u.f.hit(); return a == b }

func (u *faultUni) build(code int) ip.Table[int] {
	t := ip.NewTableCustomCompare_(u.eq)
	for i := range u.keys {
		if d := u.digit(code, i); d != 0 {
			t.Insert(u.stored[i], d)
		}
	}
	return t.Table()
}

func (u *faultUni) all() {
	u.tab = make([]ip.Table[int], u.n)
	for m := range u.tab {
		u.tab[m] = u.build(m)
	}
}

// same compares a table with a state, completely.
func (u *faultUni) same(t ip.Table[int], code int, what func() string) {
	i := 0
	ok := true
	next := func() {
		for i < len(u.keys) && u.digit(code, i) == 0 {
			i++
		}
	}
	done := t.Walk(func(p ip.Prefix, v int) bool {
		next()
		ok = i < len(u.keys) && isT(p) == u.keys[i] && v == u.digit(code, i)
		i++
		return ok
	})
	next()
	if !ok || !done || i != len(u.keys) {
		failf("%s: the table is %s, want %s", what(), walkStr(t), u.str(code))
	}
	if n := t.NumEntries(); n != u.size(code) {
		failf("%s: NumEntries is %d for %s", what(), n, u.str(code))
	}
	for i := range u.keys {
		v, ok := t.Get(mkP(u.keys[i]))
		if d := u.digit(code, i); ok != (d != 0) || v != d {
			failf("%s: Get(%s) is %d, %v in %s", what(), u.keys[i].Str(W), v, ok, u.str(code))
		}
	}
}

// usable does more of everything with a mutable table that a fault has hit.
func (u *faultUni) usable(m ip.Table_[int], code int, what func() string) {
	u.same(m.Table(), code, what)
	frozen := m.Table()
	cp := m
	code0 := code
	for i := range u.keys {
		k := mkP(u.keys[i])
		if d := u.digit(code, i); d != 0 {
			if m.Insert(k, 1) || m.GetOrInsert(k, 3-d) != d || !m.Update(k, 3-d) {
				failf("%s: then Insert, GetOrInsert or Update of %s", what(), u.keys[i].Str(W))
			}
			code = u.with(code, i, 3-d)
			if i%2 == 1 {
				if !m.Remove(k) {
					failf("%s: then Remove of %s", what(), u.keys[i].Str(W))
				}
				code = u.with(code, i, 0)
			}
		} else {
			if m.Update(k, 1) || m.Remove(k) || !m.Insert(k, 2) {
				failf("%s: then Update, Remove or Insert of %s", what(), u.keys[i].Str(W))
			}
			m.InsertOrUpdate(k, 1)
			code = u.with(code, i, 1)
		}
	}
	u.same(m.Table(), code, func() string { return what() + ", then modified" })
	u.same(cp.Table(), code, func() string { return what() + ", then modified, a copy" })
	u.same(frozen, code0, func() string { return what() + ", then modified, an earlier snapshot" })
	// the derived ones work
	n := 0
	frozen.Diff(m.Table(), func(ip.Prefix, int, int) bool { n++; return true }, func(ip.Prefix, int) bool { n++; return true },
		func(ip.Prefix, int) bool { n++; return true }, func(ip.Prefix, int) bool { n++; return true })
	want := 0
	for i := range u.keys {
		if u.digit(code, i) != 0 || u.digit(code0, i) != 0 {
			want++
		}
	}
	if n != want {
		failf("%s: then Diff makes %d calls, want %d", what(), n, want)
	}
	u.same(frozen.Map(func(_ ip.Prefix, v int) int { return v }), code0, what)
	a := frozen.Aggregate()
	for i := range u.keys {
		q := mkA(u.keys[i].A)
		v, ok, _ := frozen.LongestMatch(q)
		v2, ok2, _ := a.LongestMatch(q)
		if v != v2 || ok != ok2 {
			failf("%s: then Aggregate of %s finds %d, %v for %s", what(), u.str(code0), v2, ok2, u.keys[i].Str(W))
		}
	}
}

func faultUnis(c *rt.Ctx, f func(u *faultUni, parts int)) {
	offs := []int{0, W/2 - 1, W - 2}
	if c.Thorough {
		offs = keyOffsets(2)
	}
	for _, off := range offs {
		u := newFaultUni(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, pattern(patAlt)))
		const parts = 27
		if !c.WantBlock(parts) {
			c.Skip(parts)
			continue
		}
		f(u, parts)
	}
	for _, b := range [][3]int{{3, 9, W / 2}, {0, 1, W}} {
		u := newFaultUni(fmt.Sprintf("nested at %v", b), bushKeys(b[0], b[1], b[2], pattern(patAlt2)))
		const parts = 27
		if !c.WantBlock(parts) {
			c.Skip(parts)
			continue
		}
		f(u, parts)
	}
}

func faultCompareOps(c *rt.Ctx) {
	faultUnis(c, func(u *faultUni, parts int) {
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				if u.tab == nil {
					u.all()
				}
				for m := part; m < u.n; m += parts {
					m := m
					t := u.tab[m]
					for i := range u.keys {
						for op := 0; op < nOps; op++ {
							i, op := i, op
							v := 1 + (m+i)%2
							inject(c, &u.f, func() (func(), func(func() string)) {
								mt := t.Table_()
								arg := u.args[i][(m+op)%nArgs]
								return func() {
										switch op {
										case 0:
											mt.Insert(arg, v)
										case 1:
											mt.Update(arg, v)
										case 2:
											mt.InsertOrUpdate(arg, v)
										case 3:
											mt.GetOrInsert(arg, v)
										case 4:
											mt.Remove(arg)
										}
									}, func(what func() string) {
										u.usable(mt, m, what)
										u.same(t, m, what)
									}
							}, func() string { return u.name + ": " + u.str(m) + " " + u.opStr(op, i, v) })
						}
					}
				}
				c.Traces++
			})
		}
		c.Sample(func() string { return u.name + ": every modification of every table" })
	})
}

func faultCompareReads(c *rt.Ctx) {
	faultUnis(c, func(u *faultUni, parts int) {
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				if u.tab == nil {
					u.all()
				}
				for m := part; m < u.n; m += parts {
					m := m
					mt := u.tab[m].Table_()
					t := mt.Table()
					o := (m*7 + 5) % u.n
					other := u.tab[o]
					noop := func(ip.Prefix, int) bool { return true }
					for _, op := range []struct {
						name string
						f    func()
					}{
						{"Aggregate", func() { t.Aggregate() }},
						{"Map", func() { t.Map(func(_ ip.Prefix, v int) int { return 3 - v }) }},
						{"Map to the same", func() { t.Map(func(_ ip.Prefix, v int) int { return v }) }},
						{"Diff", func() {
							t.Diff(other, func(ip.Prefix, int, int) bool { return true }, noop, noop, noop)
						}},
						{"Diff the other way, no handlers", func() { other.Diff(t, nil, nil, nil, nil) }},
					} {
						op := op
						inject(c, &u.f, func() (func(), func(func() string)) {
							return op.f, func(what func() string) {
								u.same(t, m, what)
								u.same(other, o, what)
								u.same(mt.Table(), m, what)
								u.usable(t.Table_(), m, what)
							}
						}, func() string { return u.name + ": " + op.name + " of " + u.str(m) + " and " + u.str(o) })
					}
				}
				c.Traces++
			})
		}
	})
}

func faultTableCallbacks(c *rt.Ctx) {
	faultUnis(c, func(u *faultUni, parts int) {
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				if u.tab == nil {
					u.all()
				}
				var f injector
				for m := part; m < u.n; m += parts {
					m := m
					mt := u.tab[m].Table_()
					t := mt.Table()
					o := (m*7 + 5) % u.n
					other := u.tab[o]
					cb := func(ip.Prefix, int) bool { f.hit(); return true }
					cb2 := func(ip.Prefix, int, int) bool { f.hit(); return true }
					for _, op := range []struct {
						name string
						f    func()
					}{
						{"Walk", func() { t.Walk(cb) }},
						{"Walk of a snapshot taken now", func() { mt.Table().Walk(cb) }},
						{"Map", func() { t.Map(func(_ ip.Prefix, v int) int { f.hit(); return 3 - v }) }},
						{"Map to the same", func() { t.Map(func(_ ip.Prefix, v int) int { f.hit(); return v }) }},
						{"Diff", func() { t.Diff(other, cb2, cb, cb, cb) }},
						{"Diff without unchanged", func() { t.Diff(other, cb2, cb, cb, nil) }},
						{"Diff with itself", func() { t.Diff(t, cb2, cb, cb, cb) }},
					} {
						op := op
						inject(c, &f, func() (func(), func(func() string)) {
							return op.f, func(what func() string) {
								u.same(t, m, what)
								u.same(other, o, what)
								u.same(mt.Table(), m, what)
								if m%5 == 0 {
									u.usable(t.Table_(), m, what)
								}
							}
						}, func() string { return u.name + ": " + op.name + " of " + u.str(m) + " and " + u.str(o) })
					}
					// the mutable that the snapshots came from
					if p, ex := within(c, func() {
						u.usable(mt, m, func() string { return u.name + ": after faults in callbacks" })
					}, func() string { return "a modification after faults in callbacks" }); p != nil || ex {
						c.Failf("%s: modifications of %s after faults in callbacks: %v", u.name, u.str(m), p)
					}
				}
				c.Traces++
			})
		}
	})
}

// setSame compares a set with the content wanted.
func setSame(u *uni, s ip.Set, m int, what func() string) {
	if !sameSet(s, u.want[m]) || !s.Equal(u.sets[m]) || s.IsEmpty() != (m == 0) {
		failf("%s: the set is %s, want %s", what(), str(walkSet(s)), str(u.want[m]))
	}
}

func setUsable(u *uni, s_ ip.Set_, m int, what func() string) {
	setSame(u, s_.Set(), m, what)
	frozen := s_.Set()
	cp := s_
	x := (m*37 + 11) & 255
	s_.Insert(u.sets[x])
	setSame(u, s_.Set(), m|x, func() string { return what() + ", then an Insert" })
	s_.Remove(mkP(u.atoms[1]))
	s_.Remove(u.sets[255&^x])
	setSame(u, cp.Set(), (m|x)&^2&x, func() string { return what() + ", then a Remove, a copy" })
	setSame(u, frozen, m, func() string { return what() + ", then modified, an earlier snapshot" })
	setSame(u, frozen.Union(s_).Intersection(u.sets[255]), m|(m|x)&^2&x, what)
	if s_.Contains(u.sets[255]) || !s_.Contains(u.sets[0]) {
		failf("%s: then Contains", what())
	}
}

func faultSets(c *rt.Ctx, f func(u *uni, m int)) {
	offs := []int{0, W/2 - 1, W - 3}
	if c.Thorough {
		offs = keyOffsets(3)
	}
	universes(c, 3, []int{patAlt}, offs, func(u *uni) {
		const parts = 16
		if !c.WantBlock(parts) {
			c.Skip(parts)
			return
		}
		c.Guard(u.prepare)
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				for m := part; m < 256; m += parts {
					f(u, m)
				}
				c.Traces++
			})
		}
	})
}

func faultSetCallbacks(c *rt.Ctx) {
	faultSets(c, func(u *uni, m int) {
		var f injector
		s_ := u.sets[m].Set_()
		s := s_.Set()
		ops := []struct {
			name string
			f    func()
		}{
			{"WalkPrefixes", func() { s.WalkPrefixes(func(ip.Prefix) bool { f.hit(); return true }) }},
			{"WalkPrefixes of a snapshot taken now", func() { s_.Set().WalkPrefixes(func(ip.Prefix) bool { f.hit(); return true }) }},
			{"WalkRanges", func() { s.WalkRanges(func(ip.Range) bool { f.hit(); return true }) }},
		}
		if u.atoms[0].Len == W {
			ops = append(ops, struct {
				name string
				f    func()
			}{"WalkAddresses", func() { walkAddresses(s, func(ip.Address) bool { f.hit(); return true }) }})
		}
		for _, op := range ops {
			op := op
			inject(c, &f, func() (func(), func(func() string)) {
				return op.f, func(what func() string) {
					setSame(u, s, m, what)
					setSame(u, s_.Set(), m, what)
					setUsable(u, s.Set_(), m, what)
				}
			}, func() string { return fmt.Sprintf("%v: %s of %s", u, op.name, str(u.want[m])) })
		}
		what := func() string { return fmt.Sprintf("%v: %s after faults in callbacks", u, str(u.want[m])) }
		if p, ex := within(c, func() { setUsable(u, s_, m, what) }, what); p != nil || ex {
			c.Failf("%s: modifications: %v", what(), p)
		}
	})
}

// faultArguments: the argument's conversion method fails.
func faultArguments(c *rt.Ctx) {
	faultSets(c, func(u *uni, m int) {
		var f injector
		x := (m*91 + 3) & 255
		arg := ownSet{func() ip.Set { f.hit(); return u.sets[x] }}
		s := u.sets[m]
		for _, op := range []struct {
			name string
			f    func(s_ ip.Set_)
		}{
			{"Set_.Insert", func(s_ ip.Set_) { s_.Insert(arg) }},
			{"Set_.Remove", func(s_ ip.Set_) { s_.Remove(arg) }},
			{"Set_.Contains", func(s_ ip.Set_) { s_.Contains(arg) }},
			{"Set_.Union", func(s_ ip.Set_) { s_.Union(arg) }},
			{"Set_.Intersection", func(s_ ip.Set_) { s_.Intersection(arg) }},
			{"Set_.Difference", func(s_ ip.Set_) { s_.Difference(arg) }},
			{"Set.Contains", func(ip.Set_) { s.Contains(arg) }},
			{"Set.Union", func(ip.Set_) { s.Union(arg) }},
			{"Set.Intersection", func(ip.Set_) { s.Intersection(arg) }},
			{"Set.Difference", func(ip.Set_) { s.Difference(arg) }},
			{"FindAvailablePrefix", func(ip.Set_) { s.FindAvailablePrefix(arg, uint32(u.atoms[0].Len)) }},
		} {
			op := op
			inject(c, &f, func() (func(), func(func() string)) {
				s_ := s.Set_()
				return func() { op.f(s_) }, func(what func() string) {
					setSame(u, s, m, what)
					setSame(u, u.sets[x], x, what)
					setUsable(u, s_, m, what)
				}
			}, func() string { return fmt.Sprintf("%v: %s of %s with %s", u, op.name, str(u.want[m]), str(u.want[x])) })
		}
	})
	faultUnis(c, func(u *faultUni, parts int) {
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				if u.tab == nil {
					u.all()
				}
				var f injector
				for m := part; m < u.n; m += parts {
					m := m
					t := u.tab[m]
					for i := range u.keys {
						i := i
						arg := &ownKey{func() ip.Prefix { f.hit(); return mkP(u.keys[i]) }}
						for _, op := range []struct {
							name string
							f    func(ip.Table_[int])
						}{
							{"Insert", func(mt ip.Table_[int]) { mt.Insert(arg, 1) }},
							{"Update", func(mt ip.Table_[int]) { mt.Update(arg, 1) }},
							{"InsertOrUpdate", func(mt ip.Table_[int]) { mt.InsertOrUpdate(arg, 1) }},
							{"GetOrInsert", func(mt ip.Table_[int]) { mt.GetOrInsert(arg, 1) }},
							{"Remove", func(mt ip.Table_[int]) { mt.Remove(arg) }},
							{"Table_.Get", func(mt ip.Table_[int]) { mt.Get(arg) }},
							{"Table_.LongestMatch", func(mt ip.Table_[int]) { mt.LongestMatch(arg) }},
							{"Table.Get", func(ip.Table_[int]) { t.Get(arg) }},
							{"Table.LongestMatch", func(ip.Table_[int]) { t.LongestMatch(arg) }},
						} {
							op := op
							inject(c, &f, func() (func(), func(func() string)) {
								mt := t.Table_()
								return func() { op.f(mt) }, func(what func() string) {
									u.same(t, m, what)
									if (m+i)%7 == 0 {
										u.usable(mt, m, what)
									} else {
										u.same(mt.Table(), m, what)
										k := (i + 1) % len(u.keys)
										mt.InsertOrUpdate(mkP(u.keys[k]), 2)
										u.same(mt.Table(), u.with(m, k, 2), what)
									}
								}
							}, func() string { return u.name + ": " + op.name + "(" + u.keys[i].Str(W) + ") of " + u.str(m) })
						}
					}
				}
				c.Traces++
			})
		}
	})
}

// faultBuilders: the builder fails before, between and after modifications.
func faultBuilders(c *rt.Ctx) {
	faultUnis(c, func(u *faultUni, parts int) {
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				if u.tab == nil {
					u.all()
				}
				var f injector
				for m := part; m < u.n; m += parts {
					m := m
					src := u.tab[m].Table_()
					t := src.Table()
					var kept ip.Table_[int]
					var at int
					inject(c, &f, func() (func(), func(func() string)) {
						at = m
						return func() {
								t.Build(func(b ip.Table_[int]) bool {
									kept = b
									f.hit()
									for i := range u.keys {
										if i%2 == m%2 {
											b.InsertOrUpdate(mkP(u.keys[i]), 2)
											at = u.with(at, i, 2)
										} else {
											b.Remove(mkP(u.keys[i]))
											at = u.with(at, i, 0)
										}
										f.hit()
									}
									return true
								})
							}, func(what func() string) {
								u.same(t, m, what)
								u.same(src.Table(), m, what)
								u.usable(kept, at, what)
								u.same(t, m, what)
								u.same(src.Table(), m, what)
							}
					}, func() string { return u.name + ": Build of " + u.str(m) })
				}
				c.Traces++
			})
		}
	})
	faultSets(c, func(u *uni, m int) {
		var f injector
		src := u.sets[m].Set_()
		s := src.Set()
		var kept ip.Set_
		var at int
		inject(c, &f, func() (func(), func(func() string)) {
			at = m
			return func() {
					s.Build(func(b ip.Set_) bool {
						kept = b
						f.hit()
						for i := range u.atoms {
							if (i+m)%3 == 0 {
								b.Insert(mkP(u.atoms[i]))
								at |= 1 << uint(i)
							} else {
								b.Remove(mkP(u.atoms[i]))
								at &^= 1 << uint(i)
							}
							f.hit()
						}
						return true
					})
				}, func(what func() string) {
					setSame(u, s, m, what)
					setSame(u, src.Set(), m, what)
					setUsable(u, kept, at, what)
					setSame(u, s, m, what)
					setSame(u, src.Set(), m, what)
				}
		}, func() string { return fmt.Sprintf("%v: Build of %s", u, str(u.want[m])) })
	})
}

// faultSequences: one and the same table goes through faults in every
// modification on every key, and through a modification after each.
func faultSequences(c *rt.Ctx) {
	faultUnis(c, func(u *faultUni, parts int) {
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				if u.tab == nil {
					u.all()
				}
				u.f.arm(-1, false)
				m := part * (u.n / parts)
				mt := u.tab[m].Table_()
				name := func() string { return u.name + ": after a long history of faults, from " + u.str(part*(u.n/parts)) }
				p, ex := within(c, func() {
					for round := 0; round < 3; round++ {
						for i := range u.keys {
							for op := 0; op < 3; op++ {
								d := u.digit(m, i)
								u.f.arm(0, false)
								func() {
									defer func() {
										if r := recover(); r != nil {
											if _, ok := r.(injected); !ok {
												panic(r)
											}
											return
										}
										// no comparison was needed
										switch {
										case d == 0 && op != 1:
											m = u.with(m, i, 1)
										case d != 0 && op < 2:
											m = u.with(m, i, 1)
										}
									}()
									switch op {
									case 0:
										mt.InsertOrUpdate(mkP(u.keys[i]), 1)
									case 1:
										mt.Update(mkP(u.keys[i]), 1)
									case 2:
										mt.Insert(mkP(u.keys[i]), 1)
									}
								}()
								u.f.arm(-1, false)
								u.same(mt.Table(), m, name)
								j := (i*3 + op + round) % len(u.keys)
								if u.digit(m, j) != 0 && (round+op)%2 == 0 {
									mt.Remove(mkP(u.keys[j]))
									m = u.with(m, j, 0)
								} else {
									mt.InsertOrUpdate(mkP(u.keys[j]), 2)
									m = u.with(m, j, 2)
								}
								u.same(mt.Table(), m, name)
								c.Trans += 2
							}
						}
					}
				}, name)
				u.f.arm(-1, false)
				if p != nil || ex {
					if v, ok := p.(failure2); ok {
						c.Failf("%s", v.msg)
					}
					c.Failf("%s: panic %v", name(), p)
				}
				c.States++
				c.Traces++
			})
		}
	})
}
