package fam

import (
	"bytes"
	"fmt"
	"math/bits"
	"runtime"
	"strings"
	"sync"
	"time"

	ip "gopkg.in/addrs.v1/FAM"
	"gopkg.in/addrs.v1/zzverif/ref"
	"gopkg.in/addrs.v1/zzverif/rt"
)

// Where, when and how nested the code of the caller runs: in the calling
// goroutine, within the call, and free to use the library itself.

func regNest() {
	reg("C31", "tables: calls of the caller's code", nestTableCalls)
	reg("C31", "tables: operations inside callbacks", nestTables)
	reg("C31", "tables: operations inside comparisons", nestComparisons)
	reg("C31", "sets: calls of the caller's code", nestSetCalls)
	reg("C31", "sets: operations inside callbacks", nestSets)
	reg("C31", "three levels", nestDeep)
	reg("C31", "large and deep structures", nestLarge)
}

func goid() string {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	if i := bytes.IndexByte(s, '['); i > 0 {
		s = s[:i]
	}
	return string(s)
}

// watch sees to it that the caller's code is called where and when it may be.
type watch struct {
	mu    sync.Mutex
	gid   string
	open  bool
	calls int
	bad   string
}

func (w *watch) hit(what string) {
	g := goid()
	w.mu.Lock()
	w.calls++
	if w.bad == "" {
		if g != w.gid {
			w.bad = what + " is called in another goroutine"
		} else if !w.open {
			w.bad = what + " is called when the operation is over"
		}
	}
	w.mu.Unlock()
}

// during runs one operation under watch. Nothing that it starts may go on
// after it.
func (w *watch) during(c *rt.Ctx, f func(), what func() string) {
	w.mu.Lock()
	w.gid, w.open = goid(), true
	w.mu.Unlock()
	n := runtime.NumGoroutine()
	f()
	w.mu.Lock()
	w.open = false
	w.mu.Unlock()
	for i := 0; runtime.NumGoroutine() > n; i++ {
		if i > 200 {
			buf := make([]byte, 1<<14)
			buf = buf[:runtime.Stack(buf, true)]
			c.Failf("%s: goroutines are left behind: %s", what(), buf)
		}
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(10 * time.Millisecond)
		}
	}
	w.check(c, what)
	c.Trans++
}

func (w *watch) check(c *rt.Ctx, what func() string) {
	w.mu.Lock()
	bad := w.bad
	w.mu.Unlock()
	if bad != "" {
		c.Failf("%s: %s", what(), bad)
	}
}

// trace is what an operation on tables does, as text; in is called at every
// call of the caller's code, if not nil.
type tableTrace struct {
	name string
	f    func(t, o ip.Table[int], in func(string)) string
}

func entryStr(b *strings.Builder, kind byte, p ip.Prefix, l, r int) {
	b.WriteByte(kind)
	n := normP(p)
	fmt.Fprintf(b, "%x.%x/%d=%d,%d ", n.A.Hi, n.A.Lo, n.Len, l, r)
}

func walked(t ip.Table[int], in func(string)) string {
	var b strings.Builder
	done := t.Walk(func(p ip.Prefix, v int) bool {
		entryStr(&b, 'w', p, v, 0)
		if in != nil {
			in("the callback of Walk")
		}
		return true
	})
	fmt.Fprint(&b, done, " ", t.NumEntries())
	return b.String()
}

func tableTraces(u *tuni) []tableTrace {
	diff := func(l, r ip.Table[int], unchanged bool, in func(string)) string {
		var b strings.Builder
		ev := func(kind byte, p ip.Prefix, l, r int) bool {
			entryStr(&b, kind, p, l, r)
			if in != nil {
				in("a callback of Diff")
			}
			return true
		}
		var un func(ip.Prefix, int) bool
		if unchanged {
			un = func(p ip.Prefix, v int) bool { return ev('=', p, v, v) }
		}
		done := l.Diff(r, func(p ip.Prefix, l, r int) bool { return ev('!', p, l, r) },
			func(p ip.Prefix, l int) bool { return ev('-', p, l, 0) },
			func(p ip.Prefix, r int) bool { return ev('+', p, 0, r) }, un)
		fmt.Fprint(&b, done)
		return b.String()
	}
	key := func(i int) ip.Prefix { return mkP(u.keys[i%len(u.keys)]) }
	arg := func(i int, in func(string)) ip.PrefixI {
		return &ownKey{func() ip.Prefix {
			if in != nil {
				in("the Prefix method of an argument")
			}
			return key(i)
		}}
	}
	return []tableTrace{
		{"Walk", func(t, o ip.Table[int], in func(string)) string { return walked(t, in) }},
		{"Map", func(t, o ip.Table[int], in func(string)) string {
			var b strings.Builder
			r := t.Map(func(p ip.Prefix, v int) int {
				entryStr(&b, 'm', p, v, 0)
				if in != nil {
					in("the mapper")
				}
				return 3 - v
			})
			return b.String() + walked(r, nil)
		}},
		{"Diff", func(t, o ip.Table[int], in func(string)) string { return diff(t, o, true, in) }},
		{"Diff the other way, without unchanged", func(t, o ip.Table[int], in func(string)) string { return diff(o, t, false, in) }},
		{"Diff with itself", func(t, o ip.Table[int], in func(string)) string { return diff(t, t, true, in) }},
		{"Build", func(t, o ip.Table[int], in func(string)) string {
			r := t.Build(func(b ip.Table_[int]) bool {
				if in != nil {
					in("the builder")
				}
				b.InsertOrUpdate(arg(0, in), 1)
				b.Remove(arg(1, in))
				if in != nil {
					in("the builder")
				}
				b.InsertOrUpdate(arg(2, in), 2)
				return true
			})
			return walked(r, nil) + walked(t, nil)
		}},
		{"Aggregate", func(t, o ip.Table[int], in func(string)) string { return walked(t.Aggregate(), nil) }},
		{"lookups", func(t, o ip.Table[int], in func(string)) string {
			var b strings.Builder
			for i := range u.keys {
				v, ok := t.Get(arg(i, in))
				v2, ok2, p := o.Table_().LongestMatch(arg(i, in))
				fmt.Fprint(&b, v, ok, v2, ok2, p, " ")
			}
			return b.String()
		}},
		{"modifications", func(t, o ip.Table[int], in func(string)) string {
			var b strings.Builder
			m := t.Table_()
			for i := range u.keys {
				fmt.Fprint(&b, m.Insert(arg(i, in), 1), m.Remove(arg(i+2, in)), m.GetOrInsert(arg(i*3, in), 2), m.Update(arg(i*5, in), 2), " ")
			}
			return b.String() + walked(m.Table(), nil)
		}},
	}
}

// nestUni has tables whose comparison can be watched.
type nestUni struct {
	*tuni
	in  func(string)
	tab []ip.Table[int]
}

func (u *nestUni) eq(a, b int) bool {
	if u.in != nil {
		u.in("the comparison")
	}
	return a == b
}

func (u *nestUni) all() {
	u.tab = make([]ip.Table[int], u.n)
	for m := range u.tab {
		t := ip.NewTableCustomCompare_(u.eq)
		for i := range u.keys {
			if d := u.digit(m, i); d != 0 {
				t.Insert(u.stored[i], d)
			}
		}
		u.tab[m] = t.Table()
	}
}

func nestUnis(c *rt.Ctx, f func(u *nestUni, m int)) {
	offs := []int{0, W/2 - 1, W - 2}
	if c.Thorough {
		offs = keyOffsets(2)
	}
	const parts = 27
	one := func(name string, keys []ref.P) {
		if !c.WantBlock(parts) {
			c.Skip(parts)
			return
		}
		u := &nestUni{tuni: newTuni(name, keys, 2, false)}
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				if u.tab == nil {
					u.all()
				}
				u.in = nil
				for m := part; m < u.n; m += parts {
					f(u, m)
					c.States++
				}
				c.Traces++
			})
		}
		c.Sample(func() string { return u.name + ": all tables" })
	}
	for _, off := range offs {
		one(fmt.Sprintf("tree at %d", off), treeKeys(off, 2, pattern(patAlt)))
	}
	for _, b := range [][3]int{{3, 9, W / 2}, {0, 1, W}} {
		one(fmt.Sprintf("nested at %v", b), bushKeys(b[0], b[1], b[2], pattern(patAlt2)))
	}
}

func (u *nestUni) partner(m int) int { return (m*7 + 5) % u.n }

func nestTableCalls(c *rt.Ctx) {
	nestUnis(c, func(u *nestUni, m int) {
		o := u.partner(m)
		w := &watch{}
		for _, tr := range tableTraces(u.tuni) {
			tr := tr
			what := func() string { return fmt.Sprintf("%s: %s of %s and %s", u.name, tr.name, u.str(m), u.str(o)) }
			u.in = nil
			plain := tr.f(u.tab[m], u.tab[o], nil)
			u.in = w.hit
			var got string
			w.during(c, func() { got = tr.f(u.tab[m], u.tab[o], w.hit) }, what)
			u.in = nil
			if got != plain {
				c.Failf("%s: %s the second time, %s the first", what(), got, plain)
			}
		}
		u.in = w.hit
		size := int(u.size(m))
		for stop := 1; stop <= size; stop++ {
			for k, f := range []func(cb func(ip.Prefix, int) bool) bool{
				u.tab[m].Walk,
				func(cb func(ip.Prefix, int) bool) bool {
					return u.tab[m].Diff(u.tab[o], func(p ip.Prefix, l, r int) bool { return cb(p, l) }, cb, cb, cb)
				},
				func(cb func(ip.Prefix, int) bool) bool {
					return u.tab[o].Diff(u.tab[m], func(p ip.Prefix, l, r int) bool { return cb(p, l) }, nil, cb, cb)
				},
			} {
				n, done := 0, false
				what := func() string {
					return fmt.Sprintf("%s: Walk or Diff (%d) of %s and %s, stopped by call %d", u.name, k, u.str(m), u.str(o), stop)
				}
				w.during(c, func() {
					done = f(func(ip.Prefix, int) bool { w.hit("the callback"); n++; return n != stop })
				}, what)
				if done || n != stop {
					c.Failf("%s: %d calls, completed: %v", what(), n, done)
				}
			}
		}
		u.in = nil
		w.check(c, func() string { return u.name + ": all of " + u.str(m) })
	})
}

// nestTables: at each call of the callbacks of an operation, every operation
// runs as a whole, on the same tables; both do what they do alone.
func nestTables(c *rt.Ctx) {
	nestUnis(c, func(u *nestUni, m int) {
		o := u.partner(m)
		t, ot := u.tab[m], u.tab[o]
		trs := tableTraces(u.tuni)
		alone := make([]string, len(trs))
		back := make([]string, len(trs))
		for i, tr := range trs {
			alone[i] = tr.f(t, ot, nil)
			back[i] = tr.f(ot, t, nil)
		}
		for i, tr := range trs {
			for j, inner := range trs {
				for _, every := range []int{1, 2} {
					calls := 0
					got := tr.f(t, ot, func(where string) {
						if calls++; calls%every != 0 {
							return
						}
						if g := inner.f(t, ot, nil); g != alone[j] {
							c.Failf("%s: %s of %s and %s inside %s (call %d) of %s gives %s, alone %s", u.name, inner.name, u.str(m), u.str(o), where, calls, tr.name, g, alone[j])
						}
						if g := inner.f(ot, t, nil); g != back[j] {
							c.Failf("%s: %s of %s and %s inside %s (call %d) of %s gives %s, alone %s", u.name, inner.name, u.str(o), u.str(m), where, calls, tr.name, g, back[j])
						}
						c.Trans += 2
					})
					if got != alone[i] {
						c.Failf("%s: %s of %s and %s with %s inside its callbacks gives %s, alone %s", u.name, tr.name, u.str(m), u.str(o), inner.name, got, alone[i])
					}
					if i < 5 && (m+i+j)%5 != 0 {
						break
					}
				}
			}
		}
	})
}

// nestComparisons: the comparison uses the tables that are being compared, and
// tables that are being modified.
func nestComparisons(c *rt.Ctx) {
	nestUnis(c, func(u *nestUni, m int) {
		o := u.partner(m)
		t, ot := u.tab[m], u.tab[o]
		trs := tableTraces(u.tuni)
		for i, tr := range trs {
			inner := trs[(i+m)%len(trs)]
			u.in = nil
			alone, innerAlone := tr.f(t, ot, nil), inner.f(t, ot, nil)
			depth := 0
			u.in = func(string) {
				if depth > 0 {
					return
				}
				depth++
				if g := inner.f(t, ot, nil); g != innerAlone {
					c.Failf("%s: %s of %s and %s inside a comparison of %s gives %s, alone %s", u.name, inner.name, u.str(m), u.str(o), tr.name, g, innerAlone)
				}
				depth--
				c.Trans++
			}
			got := tr.f(t, ot, nil)
			u.in = nil
			if got != alone {
				c.Failf("%s: %s of %s and %s with %s inside its comparisons gives %s, alone %s", u.name, tr.name, u.str(m), u.str(o), inner.name, got, alone)
			}
		}
		// the mutable that is being modified is read by its comparison: it is as before
		for i := range u.keys {
			d := u.digit(m, i)
			if d == 0 {
				continue
			}
			mt := t.Table_()
			bad := ""
			u.in = func(string) {
				u.in = nil
				v, ok := mt.Get(u.args[i][0])
				if n := mt.NumEntries(); n != u.size(m) || !ok || v != d {
					bad = fmt.Sprint("Get is ", v, ok, ", NumEntries ", n)
				}
				if s := walkStr(mt.Table()); bad == "" && s != walkStr(t) {
					bad = "a snapshot is " + s
				}
			}
			if !mt.Update(u.args[i][0], 3-d) {
				bad = "Update fails"
			}
			u.in = nil
			if bad != "" {
				c.Failf("%s: inside a comparison of the Update of %s in %s: %s", u.name, u.keys[i].Str(W), u.str(m), bad)
			}
			u.checkReads(c, mt, u.with(m, i, 3-d), i, func() string { return u.name + ": an Update whose comparison reads the table" })
			c.Trans++
		}
	})
}

// ---- sets

type setTrace struct {
	name string
	f    func(s, o ip.Set, in func(string)) string
}

func setTraces(u *uni) []setTrace {
	call := func(in func(string), what string) {
		if in != nil {
			in(what)
		}
	}
	pre := func(s ip.Set, in func(string)) string {
		var b strings.Builder
		done := s.WalkPrefixes(func(p ip.Prefix) bool {
			entryStr(&b, 'p', p, 0, 0)
			call(in, "the callback of WalkPrefixes")
			return true
		})
		fmt.Fprint(&b, done)
		return b.String()
	}
	arg := func(s ip.Set, in func(string)) ip.SetI {
		return ownSet{func() ip.Set { call(in, "the Set method of an argument"); return s }}
	}
	out := []setTrace{
		{"WalkPrefixes", func(s, o ip.Set, in func(string)) string { return pre(s, in) }},
		{"WalkRanges", func(s, o ip.Set, in func(string)) string {
			var b strings.Builder
			done := s.WalkRanges(func(r ip.Range) bool {
				x := ur(r)
				fmt.Fprint(&b, x.First, x.Last, " ")
				call(in, "the callback of WalkRanges")
				return true
			})
			fmt.Fprint(&b, done)
			return b.String()
		}},
		{"Build", func(s, o ip.Set, in func(string)) string {
			r := s.Build(func(b ip.Set_) bool {
				call(in, "the builder")
				b.Insert(arg(o, in))
				b.Remove(mkP(u.atoms[1]))
				call(in, "the builder")
				b.Insert(mkP(u.atoms[2]))
				return true
			})
			return pre(r, nil) + pre(s, nil)
		}},
		{"algebra", func(s, o ip.Set, in func(string)) string {
			return pre(s.Union(arg(o, in)), nil) + pre(o.Intersection(arg(s, in)), nil) + pre(s.Set_().Difference(arg(o, in)), nil) +
				fmt.Sprint(s.Contains(arg(o, in)), s.Equal(o), s.IsEmpty())
		}},
		{"modifications", func(s, o ip.Set, in func(string)) string {
			m := s.Set_()
			m.Insert(arg(o, in))
			r := pre(m.Set(), nil)
			m.Remove(arg(s, in))
			return r + pre(m.Set(), nil)
		}},
		{"FindAvailablePrefix", func(s, o ip.Set, in func(string)) string {
			p, err := s.FindAvailablePrefix(arg(o, in), uint32(u.atoms[0].Len))
			return fmt.Sprint(p, err != nil)
		}},
		{"text", func(s, o ip.Set, in func(string)) string { return s.String() + o.Set_().Set().String() }},
	}
	if u.atoms[0].Len == W {
		out = append(out, setTrace{"WalkAddresses", func(s, o ip.Set, in func(string)) string {
			var b strings.Builder
			done, _ := walkAddresses(s, func(a ip.Address) bool {
				fmt.Fprint(&b, ua(a), " ")
				call(in, "the callback of WalkAddresses")
				return true
			})
			fmt.Fprint(&b, done)
			return b.String()
		}})
	}
	return out
}

func nestSetUnis(c *rt.Ctx, f func(u *uni, m, o int)) {
	offs := []int{0, W/2 - 1, W - 3}
	if c.Thorough {
		offs = keyOffsets(3)
	}
	universes(c, 3, []int{patAlt}, offs, func(u *uni) {
		const parts = 16
		if !c.WantBlock(parts) {
			c.Skip(parts)
			return
		}
		c.Guard(u.prepare)
		for part := 0; part < parts; part++ {
			part := part
			c.Case(func() {
				for m := part; m < 256; m += parts {
					for k := 0; k < 16; k++ {
						f(u, m, (m*37+11+k*(m*2+1))&255)
					}
					c.States++
				}
				c.Traces++
			})
		}
	})
}

func nestSetCalls(c *rt.Ctx) {
	nestSetUnis(c, func(u *uni, m, o int) {
		w := &watch{}
		for _, tr := range setTraces(u) {
			tr := tr
			what := func() string { return fmt.Sprintf("%v: %s of %s and %s", u, tr.name, str(u.want[m]), str(u.want[o])) }
			plain := tr.f(u.sets[m], u.sets[o], nil)
			var got string
			w.during(c, func() { got = tr.f(u.sets[m], u.sets[o], w.hit) }, what)
			if got != plain {
				c.Failf("%s: %s the second time, %s the first", what(), got, plain)
			}
		}
		ranges := 0
		u.sets[m].WalkRanges(func(ip.Range) bool { ranges++; return true })
		stops := func(name string, max int, f func(cb func() bool) bool) {
			for stop := 1; stop <= max; stop++ {
				n, done := 0, false
				what := func() string { return fmt.Sprintf("%v: %s of %s, stopped by call %d", u, name, str(u.want[m]), stop) }
				w.during(c, func() { done = f(func() bool { w.hit("the callback"); n++; return n != stop }) }, what)
				if done || n != stop {
					c.Failf("%s: %d calls, completed: %v", what(), n, done)
				}
			}
		}
		stops("WalkPrefixes", len(u.want[m]), func(cb func() bool) bool {
			return u.sets[m].WalkPrefixes(func(ip.Prefix) bool { return cb() })
		})
		stops("WalkRanges", ranges, func(cb func() bool) bool {
			return u.sets[m].WalkRanges(func(ip.Range) bool { return cb() })
		})
		if _, ok := walkAddresses(u.sets[0], nil); ok && u.atoms[0].Len == W {
			stops("WalkAddresses", bits.OnesCount(uint(m)), func(cb func() bool) bool {
				done, _ := walkAddresses(u.sets[m], func(ip.Address) bool { return cb() })
				return done
			})
		}
		w.check(c, func() string { return fmt.Sprintf("%v: all of %s", u, str(u.want[m])) })
	})
}

func nestSets(c *rt.Ctx) {
	nestSetUnis(c, func(u *uni, m, o int) {
		s, t := u.sets[m], u.sets[o]
		trs := setTraces(u)
		alone := make([]string, len(trs))
		back := make([]string, len(trs))
		for i, tr := range trs {
			alone[i], back[i] = tr.f(s, t, nil), tr.f(t, s, nil)
		}
		for i, tr := range trs {
			for j, inner := range trs {
				calls := 0
				got := tr.f(s, t, func(where string) {
					calls++
					if g := inner.f(s, t, nil); g != alone[j] {
						c.Failf("%v: %s of %s and %s inside %s (call %d) of %s gives %s, alone %s", u, inner.name, str(u.want[m]), str(u.want[o]), where, calls, tr.name, g, alone[j])
					}
					if g := inner.f(t, s, nil); g != back[j] {
						c.Failf("%v: %s of %s and %s inside %s (call %d) of %s gives %s, alone %s", u, inner.name, str(u.want[o]), str(u.want[m]), where, calls, tr.name, g, back[j])
					}
					c.Trans += 2
				})
				if got != alone[i] {
					c.Failf("%v: %s of %s and %s with %s inside its callbacks gives %s, alone %s", u, tr.name, str(u.want[m]), str(u.want[o]), inner.name, got, alone[i])
				}
			}
		}
	})
}

// nestDeep: three walks, maps or diffs within each other, in step and out of it.
func nestDeep(c *rt.Ctx) {
	nestUnis(c, func(u *nestUni, m int) {
		if m%9 != 0 && !c.Thorough {
			return
		}
		o := u.partner(m)
		t, ot := u.tab[m], u.tab[o]
		trs := tableTraces(u.tuni)[:6]
		alone := make([]string, len(trs))
		for i, tr := range trs {
			alone[i] = tr.f(t, ot, nil)
		}
		for i, a := range trs {
			for j, b := range trs {
				for k, d := range trs {
					ga := a.f(t, ot, func(string) {
						gb := b.f(t, ot, func(string) {
							if gd := d.f(t, ot, nil); gd != alone[k] {
								c.Failf("%s: %s inside %s inside %s of %s and %s gives %s, alone %s", u.name, d.name, b.name, a.name, u.str(m), u.str(o), gd, alone[k])
							}
							c.Trans++
						})
						if gb != alone[j] {
							c.Failf("%s: %s (with %s inside) inside %s of %s and %s gives %s, alone %s", u.name, b.name, d.name, a.name, u.str(m), u.str(o), gb, alone[j])
						}
					})
					if ga != alone[i] {
						c.Failf("%s: %s (with %s and %s inside) of %s and %s gives %s, alone %s", u.name, a.name, b.name, d.name, u.str(m), u.str(o), ga, alone[i])
					}
				}
			}
		}
	})
}

// nestLarge: the same for large structures, where parallel or buffered work
// would be worth it.
func nestLarge(c *rt.Ctx) {
	for n, b := range bigTables(c.Thorough) {
		b := b
		wide := n%2 == 0
		c.Case(func() {
			var in func(string)
			eq := func(a, b int) bool {
				if in != nil {
					in("the comparison")
				}
				return a == b
			}
			mk := func(f func(i int) int) ip.Table[int] {
				t := ip.NewTableCustomCompare_(eq)
				for _, i := range b.upOrder() {
					if v := f(i); v != 0 {
						t.Insert(mkP(b.keys[i]), v)
					}
				}
				return t.Table()
			}
			t := mk(func(i int) int { return 1 + i%2 })
			o := mk(func(i int) int { return i % 3 })
			u := &tuni{keys: b.keys}
			if len(u.keys) > 40 {
				u.keys = u.keys[:40]
			}
			w := &watch{}
			trs := tableTraces(u)
			alone := make([]string, len(trs))
			for i, tr := range trs {
				tr := tr
				what := func() string { return b.name + ": " + tr.name }
				in = nil
				alone[i] = tr.f(t, o, nil)
				in = w.hit
				var got string
				w.during(c, func() { got = tr.f(t, o, w.hit) }, what)
				in = nil
				if got != alone[i] {
					c.Failf("%s: another result the second time", what())
				}
			}
			in = w.hit
			for _, stop := range []int{1, 2, min(33, len(b.keys)), len(b.keys) / 2, len(b.keys) - 1} {
				for k, f := range []func(cb func(ip.Prefix, int) bool) bool{
					t.Walk,
					func(cb func(ip.Prefix, int) bool) bool {
						return t.Diff(o, func(p ip.Prefix, l, r int) bool { return cb(p, l) }, cb, cb, cb)
					},
					func(cb func(ip.Prefix, int) bool) bool {
						return t.Diff(ip.Table[int]{}, nil, cb, nil, nil)
					},
				} {
					n := 0
					w.during(c, func() {
						f(func(ip.Prefix, int) bool { w.hit("the callback"); n++; return n != stop })
					}, func() string { return fmt.Sprintf("%s: Walk or Diff (%d) stopped by call %d", b.name, k, stop) })
					if n != stop {
						c.Failf("%s: Walk or Diff (%d) stopped by call %d makes %d", b.name, k, stop, n)
					}
				}
			}
			in = nil
			w.check(c, func() string { return b.name })
			for i, tr := range trs {
				for j, inner := range trs {
					calls := 0
					every := len(b.keys)/5 + 1
					if wide {
						every = len(b.keys)/3 + 1
					}
					got := tr.f(t, o, func(string) {
						calls++
						if calls%every == 1 {
							if g := inner.f(t, o, nil); g != alone[j] {
								c.Failf("%s: %s inside call %d of %s gives something else", b.name, inner.name, calls, tr.name)
							}
							c.Trans++
						}
					})
					if got != alone[i] {
						c.Failf("%s: %s with %s inside its callbacks gives something else", b.name, tr.name, inner.name)
					}
				}
			}
			c.States++
			c.Traces++
		})
	}
	for _, b := range bigSets(c.Thorough) {
		b := b
		c.Case(func() {
			s := setOf(b.pieces)
			var other []ref.P
			for i, p := range b.pieces {
				if i%3 == 0 {
					other = append(other, ref.P{A: p.A.Xor(ref.Pow2(W - p.Len)), Len: p.Len}.Norm(W))
				}
			}
			o := setOf(other)
			u := &uni{atoms: []ref.P{{A: b.pieces[0].A, Len: W - 1}, b.pieces[0], b.pieces[len(b.pieces)-1]}}
			trs := setTraces(u)
			w := &watch{}
			alone := make([]string, len(trs))
			for i, tr := range trs {
				tr := tr
				what := func() string { return b.name + ": " + tr.name }
				alone[i] = tr.f(s, o, nil)
				var got string
				w.during(c, func() { got = tr.f(s, o, w.hit) }, what)
				if got != alone[i] {
					c.Failf("%s: another result the second time", what())
				}
			}
			for _, stop := range []int{1, 2, 5, len(b.want) / 2, len(b.want) - 1} {
				n, r := 0, 0
				w.during(c, func() { s.WalkPrefixes(func(ip.Prefix) bool { w.hit("the callback"); n++; return n != stop }) }, func() string { return b.name + ": WalkPrefixes, stopped" })
				w.during(c, func() { s.WalkRanges(func(ip.Range) bool { w.hit("the callback"); r++; return r != stop }) }, func() string { return b.name + ": WalkRanges, stopped" })
				if stop > 0 && n != min(stop, len(b.want)) || r > stop && stop > 0 {
					c.Failf("%s: WalkPrefixes or WalkRanges stopped by call %d makes %d, %d", b.name, stop, n, r)
				}
			}
			w.check(c, func() string { return b.name })
			for i, tr := range trs {
				for j, inner := range trs {
					calls := 0
					got := tr.f(s, o, func(string) {
						calls++
						if calls%(len(b.pieces)/4+1) == 1 {
							if g := inner.f(s, o, nil); g != alone[j] {
								c.Failf("%s: %s inside call %d of %s gives something else", b.name, inner.name, calls, tr.name)
							}
							c.Trans++
						}
					})
					if got != alone[i] {
						c.Failf("%s: %s with %s inside its callbacks gives something else", b.name, tr.name, inner.name)
					}
				}
			}
			c.States++
			c.Traces++
		})
	}
}
